"""Contracts of groups: numbering the tree of parts, root hash, complete tree, and witnesses (rays)."""
import re
from contract import Contract as C, subst
from symex import *
import builtins_ as Bi
from mirparse import Unsupported
import mirparse as M
import contracts_hash
CONTRACTS = dict(contracts_hash.CONTRACTS)
KEYS = []
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c

Sorts.adts["GD"] = [("GD::Fork", ["Box<GN>", "Box<GN>"]), ("GD::Labeled", ["B", "Box<GN>"]), ("GD::Leaf", ["TY"])]
Sorts.rust["GD"] = "GroupNodeInner"
VALS = {"PM": "PS", "DM": "V", "LM": "HT"}          # maps from types
EMPTY = {"PM": "Map::<TY, PS>::empty()", "LM": "Map::<TY, HT>::empty()", "DM": "Map::<TY, V>::empty()"}
U64 = INTMAX["u64"]

def group(root="v:GN:g", data="v:DM:d", deps="v:PM:p"):
    return ["struct", "Group", {"root": root, "data": data, "dependencies": deps}]
GR = ["ref", group()]
GM = ["ref", group("vm:GN:g", "vm:DM:d", "vm:PM:p")]
def ray(vis="v:IS:vis", a="v:LM:a"):
    return ["struct", "Ray", {"group": GR, "to_visit": vis, "leaves": a}]
GINV = [("C15", "ginv({g}, {d}, {p})")]
RINV = GINV + [("C15", "rinv({g}, {d}, {p}, {vis}, {a})")]

# ---- the tree of parts
add("GroupNode::visit_node", ["m:GN:g", "v:int:i", "m:PM:d", "m:PS:path"], "v:int:r", pre=[("C04", "0 <= {i} && {i} + gcnt({g}) <= " + U64)],
    post=[("C15", "{r} == {i} + gcnt({g})"), ("C15", "{g2} == numb({g}, {i})"), ("C15", "{d2} == deps(numb({g}, {i}), {path}, {d})"), ("C15", "{path2} == {path}")],
    measure="gcnt({g})", hints=["lemma_pushpop({path}, {i});", "lemma_parts({g}, arbitrary());"])
# (the pieces of the group are named apart from the node)
GG = ["ref", group("v:GN:g0", "v:DM:d", "v:PM:p")]
add("GroupNode::root_hash", ["v:GN:g", GG], "v:H:h", pre=[("C15", "hasall({g}, {d})")], post=[("C15", "{h} == gh({g}, {d})")], measure="gcnt({g})", hints=["lemma_parts({g}, {d});"])
add("GroupNode::witness_all", ["v:GN:g", GG], "v:HT:u", pre=[("C15", "hasall({g}, {d})")], post=[("C15", "{u} == gt({g}, {d})")], measure="gcnt({g})", hints=["lemma_parts({g}, {d});"])
add("GroupNode::witness", ["v:GN:g", ["ref", ["struct", "Ray", {"group": GG, "to_visit": "vm:IS:vis", "leaves": "vm:LM:a"}]]], "v:HT:u",
    pre=[("C15", "hasall({g}, {d})"), ("C15", "dist({g})"), ("C15", "okv({g}, {vis}, {a})")],
    post=[("C15", "{u} == gsel({g}, {d}, {a})"), ("C15", "{a2} == rest({g}, {a})"), ("C15", "{vis2} == {vis}")],
    measure="gcnt({g})", hints=["lemma_parts({g}, {d});", "lemma_wit({g}, {vis}, {d}, {a});"])

# ---- the group
add("Group::init", [GM], "unit", pre=[("C15", "dist({g}) && typed({d}) && hasall({g}, {d})"), ("assume", "gcnt({g}) <= " + U64)],
    post=[("C15", "ginv({g2}, {d2}, {p2})"), ("C15", "{d2} == {d}"), ("C15", "gh({g2}, {d2}) == gh({g}, {d}) && gt({g2}, {d2}) == gt({g}, {d})")], hints=["lemma_init({g}, {d});"])
add("<Group as AsHashTree>::root_hash", [GR], "v:H:h", pre=GINV, post=[("C15", "{h} == gh({g}, {d})")])
add("<Group as AsHashTree>::as_hash_tree", [GR], "v:HT:u", pre=GINV, post=[("C15", "recon({u}) == gh({g}, {d})"), ("C15", "{u} == gt({g}, {d})")], hints=["lemma_gt({g}, {d});"])
ASKED = [("assume", "inty({g}, tid())")]
add("Group::get", [GR], "v:V:r", pre=GINV + ASKED, post=[("C15", "{r} == {d}[tid()] && vty({r}) == tid()")])
def ret_mut(con, ex, st, v, env):
    pass
def write_new(con, ex, st, v, env):
    """the caller may put any value of the type behind the reference"""
    if not isinstance(v, Ptr):
        raise Unsupported("mutable reference expected")
    env["cur"] = con.name(ex, st, "cur", "V", ex.term(st, v, "V"))
    nv = env["nv"] = ex.fresh(st, "new", "V")
    st.fact("vty(%s) == tid()" % nv)
    ex.write(st, ("cell", v.cell, v.path), S(nv, "V"))
c = add("Group::get_mut", [GM], ret_mut, pre=GINV + ASKED,
    post=[("C15", "{cur} == {d}[tid()] && {d2} == {d}.insert(tid(), {nv})"), ("C15", "{g2} == {g} && ginv({g2}, {d2}, {p2})")])
c.before = write_new

# ---- rays
def ray_ret(con, ex, st, v, env):
    v = ex.expand(st, v)
    f = ex.prog.structs["Ray"]
    if not (isinstance(v, Agg) and v.name == "Ray"):
        raise Unsupported("ray expected")
    x = dict(zip(f, v.fields))
    env["r_vis"], env["r_a"] = con.name(ex, st, "vis", "IS", ex.term(st, x["to_visit"], "IS")), con.name(ex, st, "leaves", "LM", ex.term(st, x["leaves"], "LM"))
    gr = Bi.val(ex, st, x["group"])
    y = dict(zip(ex.prog.structs["Group"], gr.fields))
    env["r_g"], env["r_d"], env["r_p"] = ex.term(st, y["root"], "GN"), ex.term(st, y["data"], "DM"), ex.term(st, y["dependencies"], "PM")
SAME = [("C15", "{r_g} == {g} && {r_d} == {d} && {r_p} == {p}")]
for k in ("Ray::new", "Group::witness"):
    add(k, [GR], ray_ret, pre=GINV, post=SAME + [("C15", "rinv({r_g}, {r_d}, {r_p}, {r_vis}, {r_a})"), ("C15", "{r_a} == Map::<TY, HT>::empty()")])
def asked(u):
    return SAME + [("C15", "rinv({r_g}, {r_d}, {r_p}, {r_vis}, {r_a})"), ("C15", "{r_a} == {a}.insert(tid(), %s)" % u)]
add("Ray::full", [ray()], ray_ret, pre=RINV + ASKED, post=asked("vt({d}[tid()])"),
    hints=["ax_vt({d}[tid()]);", "lemma_ask({g}, {d}, {p}, {vis}, {a}, tid(), vt({d}[tid()]));", "lemma_full({vis}, {p}[tid()]);"])
add("Ray::partial", [ray(), "v:F:f"], ray_ret, pre=RINV + ASKED + [("assume", "recon(fw({f}, {d}[tid()])) == vh({d}[tid()])")], post=asked("fw({f}, {d}[tid()])"),
    hints=["lemma_ask({g}, {d}, {p}, {vis}, {a}, tid(), fw({f}, {d}[tid()]));", "lemma_full({vis}, {p}[tid()]);"])
add("Ray::build", [ray()], "v:HT:u", pre=RINV, post=[("C15", "recon({u}) == gh({g}, {d})"), ("C15", "{u} == gsel({g}, {d}, {a})")],
    hints=["lemma_ray({g}, {d}, {p}, {vis}, {a});"])

# ---- parts behind their type
add("dyn GroupLeaf::is", ["v:V:v"], "v:bool:r", post=[("C04 C15", "{r} == (vty({v}) == tid())")])
def opt_ret(con, ex, st, v, env):
    ok, o = Bi.is_some(ex, st, v)
    env["some"] = str(ok).lower()
    env["x"] = ex.term(st, o.fields[0], "V") if ok else env["v"]
DOWN = [("C04 C15", "{some} ==> vty({v}) == tid()"), ("C15", "vty({v}) == tid() ==> {some}"), ("C15", "{some} ==> {x} == {v}")]
add("dyn GroupLeaf::downcast_ref", ["v:V:v"], opt_ret, post=DOWN)
add("dyn GroupLeaf::downcast_mut", ["m:V:v"], opt_ret, post=DOWN)

# ---- models
def fields(ex, name, want):
    f = ex.prog.structs.get(name)
    if f is None or set(f) != want:
        raise Unsupported("struct %s has fields %s" % (name, f))
    return f
def structs_GN(ex, st, v):
    d = {"id": S("(%s).id" % v.t, "int"), "data": S("(%s).data" % v.t, "GD")}
    return Agg("GroupNode", None, tuple(d[n] for n in fields(ex, "GroupNode", {"id", "data"})))
def term(ex, st, v, sort):
    if isinstance(v, Agg) and v.name == "GroupNode" and sort == "GN":
        d = dict(zip(fields(ex, "GroupNode", {"id", "data"}), v.fields))
        return "GN { id: %s, data: %s }" % (ex.as_int(st, d["id"]), ex.term(st, d["data"], "GD"))
    if isinstance(v, Agg) and v.name == "HMap" and v.var[0] == sort:
        return "%s.insert(%s, %s)" % (v.var[1], v.var[2], ex.term(st, v.fields[0], VALS[sort]))
    return None
def cmp(ex, st, op, a, b):
    if op in ("eq", "ne") and isinstance(a, S) and isinstance(b, S) and a.sort == b.sort == "TY":
        return S("(%s %s %s)" % (a.t, "==" if op == "eq" else "!=", b.t), "bool")
def callF(ex, st, fv, args):
    if fv.sort == "F":
        return S("fw(%s, %s)" % (fv.t, ex.term(st, args[0], "V")), "HT")
def hmap(ex, st, v):
    v = Bi.val(ex, st, v)
    if isinstance(v, Agg) and v.name == "HMap":
        return ex.term(st, v, v.var[0]), v.var[0]
    if isinstance(v, S) and v.sort in VALS:
        return v.t, v.sort
    return None, None
def put(ex, st, p, t, sort):
    if not isinstance(p, Ptr):
        raise Unsupported("mutable reference expected")
    ex.write(st, ("cell", p.cell, p.path), S(t, sort))
    return UNIT
def newmap(c):
    for s, pat in (("PM", r"Vec<u64>"), ("LM", "HashTree<"), ("DM", r"Box<dyn ")):
        if re.search(r"HashMap(::)?<.*TypeId, .*" + pat, c):
            return s
def builtin(ex, st, c, args, last):
    if re.match(r"(std::any::|core::any::)?TypeId::of::<T>$", c):
        return S("tid()", "TY")
    if re.match(r"<\(?dyn (\w+::)*GroupLeaf( \+ 'static)?\)? as (\w+::)*Any>::type_id$", c):
        x = Bi.val(ex, st, args[0])
        if isinstance(x, S) and x.sort == "V":
            return S("vty(%s)" % x.t, "TY")
    if re.match(r"(std::\w+::)*HashMap::<", c) or re.match(r"<(std::\w+::)*HashMap<.* as (Default|Index)", c):
        if last in ("new", "with_capacity", "default"):
            s = newmap(c)
            if s:
                return S(EMPTY[s], s)
        t, s = hmap(ex, st, args[0])
        if t is None:
            return NotImplemented
        key = lambda: ex.term(st, args[1], "TY")
        if last == "contains_key":
            return S("%s.contains_key(%s)" % (t, key()), "bool")
        if last == "get":
            k = key()
            return Bi.opt_some(S("%s[%s]" % (t, k), VALS[s])) if ex.split_bool(st, "%s.contains_key(%s)" % (t, k)) else Bi.NONE
        if last == "index":
            k = key()
            if not ex.split_bool(st, "%s.contains_key(%s)" % (t, k)):
                ex.fail(st, "no panic: HashMap index")
            return S("%s[%s]" % (t, k), VALS[s])
        if last == "get_mut" and isinstance(args[0], Ptr):
            k, p = key(), args[0]
            if not ex.split_bool(st, "%s.contains_key(%s)" % (t, k)):
                return Bi.NONE
            x = BoxC(ex.new_cell(st, S("%s[%s]" % (t, k), VALS[s])))
            ex.write(st, ("cell", p.cell, p.path), Agg("HMap", (s, t, k), (x,)))
            if VALS[s] == "V":
                return Bi.opt_some(Ptr(p.cell, p.path + (0,)))
            return Bi.opt_some(Ptr(x.cell, ()))
        if last in ("insert", "remove"):
            k = key()
            old = Bi.opt_some(S("%s[%s]" % (t, k), VALS[s])) if ex.split_bool(st, "%s.contains_key(%s)" % (t, k)) else Bi.NONE
            put(ex, st, args[0], "%s.insert(%s, %s)" % (t, k, ex.term(st, args[2], VALS[s])) if last == "insert" else "%s.remove(%s)" % (t, k), s)
            return old
        if last == "clear":
            return put(ex, st, args[0], EMPTY[s], s)
        if last in ("reserve", "shrink_to_fit"):
            return UNIT
        return NotImplemented
    if re.match(r"(std::\w+::)*HashSet::<u64>::|<(std::\w+::)*HashSet<u64> as ", c):
        if last in ("new", "with_capacity", "default"):
            return S("Set::<int>::empty()", "IS")
        x = Bi.val(ex, st, args[0])
        if not (isinstance(x, S) and x.sort == "IS"):
            return NotImplemented
        if last == "contains" or last.startswith("contains"):
            return S("%s.contains(%s)" % (x.t, ex.as_int(st, Bi.val(ex, st, args[1]))), "bool")
        if last in ("len", "is_empty", "capacity"):
            n = ex.fresh(st, "size", "int")
            st.fact("0 <= %s <= UMAX()" % n)
            st.fact("(%s == 0) <==> %s =~= Set::<int>::empty()" % (n, x.t) if last != "capacity" else "true")
            return S("(%s == 0)" % n, "bool") if last == "is_empty" else S(n, "int")
        if last.startswith("remove"):
            i = ex.as_int(st, Bi.val(ex, st, args[1]))
            put(ex, st, args[0], "%s.remove(%s)" % (x.t, i), "IS")
            return S("%s.contains(%s)" % (x.t, i), "bool")
        if last == "insert":
            i = ex.as_int(st, Bi.val(ex, st, args[1]))
            put(ex, st, args[0], "%s.insert(%s)" % (x.t, i), "IS")
            return S("!(%s.contains(%s))" % (x.t, i), "bool")
        if re.search(r" as Extend<&?u64>>::extend::<", c):
            s = Bi.val(ex, st, args[1])
            return put(ex, st, args[0], "addall(%s, %s)" % (x.t, ex.term(st, s, "PS")), "IS")
        if last in ("clear", "reserve"):
            return put(ex, st, args[0], "Set::<int>::empty()" if last == "clear" else x.t, "IS")
        return NotImplemented
    if re.match(r"(?:std::vec::)?Vec::<u64>::(new|with_capacity)$", c) or re.match(r"<(?:std::vec::)?Vec<u64> as Default>::default$", c):
        return S("Seq::<int>::empty()", "PS")
    if not args:
        return NotImplemented
    p = args[0]
    try:
        x = Bi.val(ex, st, p)
    except Unsupported:
        return NotImplemented
    if isinstance(x, S) and x.sort == "PS":
        if last == "push":
            return put(ex, st, p, "%s.push(%s)" % (x.t, ex.as_int(st, Bi.val(ex, st, args[1]))), "PS")
        if last == "pop":
            if ex.split_bool(st, "(%s.len() == 0)" % x.t):
                return Bi.NONE
            put(ex, st, p, "%s.drop_last()" % x.t, "PS")
            return Bi.opt_some(S("%s.last()" % x.t, "int"))
        if last == "len":
            return S("(%s.len() as int)" % x.t, "int")
        if last == "is_empty":
            return S("(%s.len() == 0)" % x.t, "bool")
        if last in ("get", "index") and isinstance(Bi.val(ex, st, args[1]), S):
            i = ex.as_int(st, Bi.val(ex, st, args[1]))
            there = ex.split_bool(st, "(%s < %s.len())" % (i, x.t))
            if last == "index":
                if not there:
                    ex.fail(st, "no panic: index out of bounds")
                return S("%s[%s]" % (x.t, i), "int")
            return Bi.opt_some(S("%s[%s]" % (x.t, i), "int")) if there else Bi.NONE
        if last == "skip":
            n = ex.as_int(st, args[1])
            return S("%s.subrange(%s, %s.len() as int)" % (x.t, n, x.t) if ex.split_bool(st, "(%s <= %s.len())" % (n, x.t)) else "Seq::<int>::empty()", "PS")
        if last == "truncate":
            n = ex.as_int(st, args[1])
            return put(ex, st, p, "%s.subrange(0, %s)" % (x.t, n), "PS") if ex.split_bool(st, "(%s <= %s.len())" % (n, x.t)) else UNIT
        if last == "clear":
            return put(ex, st, p, "Seq::<int>::empty()", "PS")
        if last == "next":
            if ex.split_bool(st, "(%s.len() == 0)" % x.t):
                return Bi.NONE
            put(ex, st, p, "%s.subrange(1, %s.len() as int)" % (x.t, x.t), "PS")
            return Bi.opt_some(S("%s[0]" % x.t, "int"))
        if last in ("iter", "into_iter", "deref", "as_ref", "as_slice", "clone", "to_vec", "to_owned", "cloned", "copied", "by_ref", "into", "from", "borrow"):
            return S(x.t, "PS")
        return NotImplemented
    if isinstance(x, BoxC) and last in ("as_mut", "deref_mut", "borrow_mut", "as_ref", "deref"):
        return Ptr(x.cell, ())
    if isinstance(x, S) and x.sort == "V" and last in ("as_ref", "deref", "borrow"):
        return x
    if isinstance(x, S) and x.sort == "B" and last in ("as_bytes", "as_str", "as_ref", "deref", "borrow", "into_bytes", "as_slice", "into", "from"):
        if last == "from" and c.startswith("<Cow<"):
            return Agg("Cow", "Borrowed", (x,))
        return x
    return NotImplemented

class MarkLoop:
    """a loop over the ids of a part's ancestors, or over their positions, that marks them"""
    def parts(self, ex, st, f, fr):
        (body,) = ex.loop_headers(f).values()
        rs = ex.reach(st, f, fr, body)
        asg = ex.assigned_in(f, body)
        ray = ex.prog.structs["Ray"].index("to_visit")
        its = [l for n, l, v in rs if l[0] in fr.values() and (isinstance(v, S) and v.sort == "PS" or isinstance(v, Agg) and v.name == "Range")]
        text = "\n".join(l for b in body for l in f.blocks[b][1])
        if len(its) > 1:
            its = [l for l in its if any(fr[n] == l[0] and re.search(r"&mut _%d\b" % n, text) for n in fr)]
        if not its:
            its = [(fr[n], ()) for n in asg if isinstance(st.cells[fr[n]], S) and st.cells[fr[n]].sort == "int"]
        seq = sorted({v.t for n, l, v in rs if isinstance(v, S) and v.sort == "PS"})
        sets = sorted({(l[0], l[1] + (ray,)) if isinstance(v, Agg) else l for _, l, v in rs if isinstance(v, Agg) and v.name == "Ray" or isinstance(v, S) and v.sort == "IS"})
        if len(its) != 1 or len(sets) != 1 or len(seq) != 1:
            raise Unsupported("loop of " + f.key)
        return its[0][0], sets[0], seq[0]
    def goals(self, ex, st, f, fr):
        key = ("mark", f.raw)
        if key not in st.ghost:
            it, loc, s = self.parts(ex, st, f, fr)
            st.ghost[key] = (it, loc, s, ex.term(st, ex.read(st, ("cell",) + loc), "IS"))
        it, loc, s, vis = st.ghost[key]
        v = st.cells[it]
        if isinstance(v, S) and v.sort == "PS":
            k = "(%s.len() - %s.len())" % (s, v.t)
            out = [("C15", "the ids still to come are the rest", "%s.len() <= %s.len() && %s == %s.subrange(%s, %s.len() as int)" % (v.t, s, v.t, s, k, s))]
        elif isinstance(v, Agg):
            k, e = [ex.as_int(st, x) for x in v.fields]
            out = [("C15", "the loop ends at the last id", "0 <= %s <= %s && %s == %s.len()" % (k, e, e, s))]
        else:
            k = v.t
            out = [("C15", "the position stays within the ids", "0 <= %s <= %s.len()" % (k, s))]
        self.k = k
        st.hints = st.hints + ("lemma_addstep(%s, %s, %s);" % (vis, s, k), "lemma_addstep(%s, %s, %s - 1);" % (vis, s, k))
        return out + [("C15", "the ids passed are marked", "%s == addall(%s, %s.subrange(0, %s))" % (ex.term(st, ex.read(st, ("cell",) + loc), "IS"), vis, s, k))]
    def havoc(self, ex, st, f, fr, body):
        it, loc, s, vis = st.ghost[("mark", f.raw)]
        for x in ex.assigned_in(f, body):
            if fr[x] != it and fr[x] != loc[0]:
                st.cells[fr[x]] = Undef()
        v = st.cells[it]
        pos = lambda n: S(ex.fresh(st, n, "int"), "int")
        st.cells[it] = S(ex.fresh(st, "rest", "PS"), "PS") if isinstance(v, S) and v.sort == "PS" else Agg("Range", None, (pos("pos"), pos("end"))) if isinstance(v, Agg) else pos("pos")
        ex.write(st, ("cell",) + loc, S(ex.fresh(st, "vis", "IS"), "IS"))
        for _, _, g in self.goals(ex, st, f, fr):
            st.fact(g)
        st.ghost["k0"] = self.k
        return []
    def decreases(self, ex, st, f, fr):
        self.goals(ex, st, f, fr)
        return [("C04", "the position moves on", "%s > %s" % (self.k, st.ghost["k0"]))]

EXTRA = "broadcast use lemma_cnt_b;"
FUEL = []
LOOPS = {"Ray::full": MarkLoop(), "Ray::partial": MarkLoop()}
ENV = {"ownbox": ("Box<GN>",)}
HOOKS = {"structs": {"GN": structs_GN}, "term": term, "cmp": cmp, "builtin": builtin, "callF": callF}
THEORY = ["tree.rs", "group.rs"]
ALL = KEYS
