"""Contracts of the map's own functions: forwarders, collecting, (de)serialization."""
import re
from contract import Contract as C, subst, unwrap
from symex import *
import builtins_ as Bi
from mirparse import Unsupported
import contracts_tree as CT
import contracts_mod as CM
import contracts_iter as CI
CONTRACTS = dict(CI.CONTRACTS)
KEYS = []
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c
tree_inv = CT.tree_inv
INV, INV2 = tree_inv("t", "n"), tree_inv("t2", "n2") + [("C03", "balanced({t2})")]

# ---- forwarders
add("Map::is_empty", ["rb:t:n:Map"], "v:bool:r", pre=INV, post=[("C02", "{r} == (cnt({t}) == 0)")])
add("Map::len", ["rb:t:n:Map"], "v:int:r", pre=INV, post=[("C02 C19", "{r} == cnt({t})")])
add("Map::clear", ["rbm:t:n:Map"], "unit", pre=INV, post=INV2 + [("C02", "{t2} is L")])
add("Map::insert", ["rbm:t:n:Map", "v:K:k", "v:V:v"], "v:Option<V>:old", pre=INV + [("assume", "{n} < UMAX()")],
    post=INV2 + [("C02", "exists|p: int| #[trigger] ins_map({t}, {t2}, {k}, {v}, p)"), ("C02", "{old} == valof(at({t}, rk({k})))"),
                 ("C02", "{n2} == {n} + if has({t}, rk({k})) { 0int } else { 1int }")])
DEL = INV2 + [("C02", "del_b({t}, {t2}) && del_at({t}, {t2}, rq({q}))"), ("C02", "{n2} == {n} - if has({t}, rq({q})) { 1int } else { 0int }"),
              ("C01 C02", "!(has({t}, rq({q}))) ==> {t2} == {t}")]
add("Map::remove", ["rbm:t:n:Map", "v:Q:q"], "v:Option<V>:r", pre=INV, post=DEL + [("C02", "{r} == valof(at({t}, rq({q})))")])
add("Map::remove_entry", ["rbm:t:n:Map", "v:Q:q"], "v:Option<(K, V)>:r", pre=INV, post=DEL + [("C02", "{r} == kv(at({t}, rq({q})))")])
add("Map::get", ["rb:t:n:Map", "v:Q:q"], "v:Option<V>:r", pre=INV, post=[("C02", "{r} == valof(at({t}, rq({q})))")])
def opt_pv(con, ex, st, v, env):
    v = ex.expand(st, v)
    env["r"] = "None::<int>" if v.var == "None" else "Some(%s)" % ex.term(st, v.fields[0], "PV")
add("Map::get_mut", ["rbm:t:n:Map", "v:Q:q"], opt_pv, pre=INV,
    post=INV2 + [("C18", "forall|x: int| #[trigger] at({t2}, x) == at({t}, x)"), ("C02", "{n2} == {n}"), ("C02 C18", "{r} == adr(at({t}, rq({q})))")])
def tree_ret(con, ex, st, v, env):
    """a reference to the map's tree"""
    v = ex.read_loc(st, v) if isinstance(v, Ptr) else v.v if isinstance(v, Ref) else v
    fl = ex.prog.structs["RbTree"]
    if not (isinstance(v, Agg) and v.name == "RbTree"):
        raise Unsupported("reference to the tree expected")
    env["u"] = ex.fold(st, v.fields[fl.index("root")], consume=False)
for k in ("Map::as_tree", "<Map as AsRef>::as_ref"):
    add(k, ["rb:t:n:Map"], tree_ret, pre=INV, post=[("C02", "{u} == {t}")])
add("Map::entry", ["rbm:t:n:Map", "v:K:k"], CM.entry_is(None), pre=INV, setup=CM.mp_setup, post=CONTRACTS["RbTree::entry"].post)

# ---- collecting and deserializing
START = [("assume", "got({i}) == Seq::<(K, V)>::empty()")]
add("<Map as FromIterator>::from_iter", ["v:IT:i"], "rbv:t:n:Map", pre=START, post=INV + [("C19", "holds({t}, todo({i}))")], hints=["lemma_got({i});"])
def result_map(con, ex, st, v, env):
    v = ex.expand(st, v)
    env["ok"] = "true" if v.var == "Ok" else "false"
    env["t"], env["n"] = "T::L", "0"
    if v.var == "Ok":
        con.bind(ex, st, "rbv:t:n:Map", v.fields[0], env)
    else:
        env["err"] = ex.term(st, v.fields[0], "SErr")
    env["bad"] = "false" if v.var == "Ok" else "!given(%s)" % env["err"]
def visit_map(con, ex, st, args, g):
    """what the contract says about a call"""
    env = {"i": ex.term(st, args[1], "IT")}
    ex.emit(st, "C19", "precondition of " + con.key, subst(START[0][1], env), "pre")
    bad = fail(ex, st)
    v = con.mktree(ex, st, ["rbv", "t", "n", "Map"], env, True)
    for l, t in INV:
        st.fact(subst(t, env))
    st.fact(subst("holds({t}, todo({i}))", env))
    return [bad, (st, ok(v))]
add("<MapVisitor as Visitor>::visit_map", ["any", "v:IT:i"], result_map, pre=START, hints=["lemma_got({i});"],
    post=INV + [("C19", "{ok} ==> holds({t}, todo({i}))"), ("C19", "!{bad}")])
add("<Map as Deserialize>::deserialize", ["v:De:d"], result_map, post=INV + [("C19", "{ok} ==> holds({t}, dsrc({d}))"), ("C19", "!{bad}")])

# ---- serializing
SER = [("C19", "{r} is Ok ==> {r}->Ok_0 == mapout({s}, Some(cnt({t}) as int), ents({t}))"), ("C19", "{r} is Err ==> given({r}->Err_0)")]
add("<Map as Serialize>::serialize", ["rb:t:n:Map", "v:Ser:s"], "v:Result<SOut, SErr>:r", pre=INV, post=SER)
def candid_ret(con, ex, st, v, env):
    v = ex.expand(st, v)
    env["ok"] = "true" if v.var == "Ok" else "false"
    env["m"] = st.ghost.get("sm", "arbitrary()")
    env["bad"] = "false" if v.var == "Ok" else "!given(%s)" % ex.term(st, v.fields[0], "SErr")
add("<Map as CandidType>::idl_serialize", ["rb:t:n:Map", "v:Ser:s"], candid_ret, pre=INV,
    post=[("C19", "{ok} ==> mlen({m}) == Some(cnt({t}) as int) && mlog({m}) == ents({t}) && mser({m}) == {s}"), ("C19", "!{bad}")])

class SrcLoop:
    """a loop over a source of bindings: what has been handed out so far is what the map / the serializer holds"""
    def parts(self, ex, st, f, fr):
        (body,) = ex.loop_headers(f).values()
        src, sink = [], []
        for n in sorted(fr):
            if not any(re.search(r"&mut (\(\*)?_%d\b" % n, line) for b in body for line in f.blocks[b][1]):
                continue
            loc = (fr[n], ())
            v = st.cells[fr[n]]
            if isinstance(v, Ptr):
                loc, v = (v.cell, v.path), ex.read_loc(st, v)
            if isinstance(v, Agg) and v.name == "RbTreeIterator" or isinstance(v, S) and v.sort == "IT":
                src.append(loc)
            elif isinstance(v, Agg) and v.name in ("Map", "RbTree") or isinstance(v, S) and v.sort == "SM":
                sink.append(loc)
        src, sink = sorted(set(src)), sorted(set(sink))
        if len(src) != 1 or len(sink) != 1:
            rs = ex.reach(st, f, fr, body)
            src = [l for _, l, v in rs if isinstance(v, Agg) and v.name == "RbTreeIterator" or isinstance(v, S) and v.sort == "IT"]
            sink = [l for _, l, v in rs if isinstance(v, Agg) and v.name in ("Map", "RbTree") or isinstance(v, S) and v.sort == "SM"]
        if len(src) != 1 or len(sink) != 1:
            raise Unsupported("loop of " + f.key)
        return src[0], sink[0]
    def inv(self, ex, st, f, fr):
        a, b = self.parts(ex, st, f, fr)
        v, w = ex.read(st, ("cell",) + a), ex.read(st, ("cell",) + b)
        out = []
        if isinstance(v, S):
            done, todo = "got(%s)" % v.t, "todo(%s)" % v.t
            e = ex.cenv["i"]
            out.append(("C19", "all of the source is accounted for", "got(%s) + todo(%s) == todo(%s)" % (v.t, v.t, e)))
        else:
            fl = ex.prog.structs["RbTreeIterator"]
            u, s, r = ex.fold(st, v.fields[fl.index("visit")], consume=False), ex.term(st, v.fields[fl.index("stack")], "Seq<T>"), ex.as_int(st, v.fields[fl.index("remaining_elements")])
            todo, done = "rest(%s, %s)" % (u, s), None
            out += [("C16 C19", "the iterator is consistent", "allnode(%s) && %s == %s.len()" % (s, r, todo))]
        if isinstance(w, S):
            done = done or "mlog(%s)" % w.t
            if "sm0" not in st.ghost:
                st.ghost["sm0"] = w.t
            out.append(("C19", "nothing pending", "mlen(%s) == mlen(%s) && mser(%s) == mser(%s) && mpend(%s) is None" % ((w.t, st.ghost["sm0"]) * 2 + (w.t,))))
            out.append(("C19", "written so far", "mlog(%s) + %s == %s" % (w.t, todo, "ents(%s)" % ex.cenv["t"] if not isinstance(v, S) else "todo(%s)" % ex.cenv["i"])))
        else:
            if not isinstance(v, S):
                raise Unsupported("loop of " + f.key)
            rb = unwrap(w)[1]
            fl = ex.prog.structs["RbTree"]
            t, n = ex.fold(st, rb.fields[fl.index("root")], consume=False), ex.as_int(st, rb.fields[fl.index("len")])
            out += [(l, "the map stays well formed", subst(g, {"t": t, "n": n})) for l, g in INV]
            out.append(("C19", "the map holds what was read", "holds(%s, %s)" % (t, done)))
        return out, todo
    def goals(self, ex, st, f, fr):
        return self.inv(ex, st, f, fr)[0]
    def havoc(self, ex, st, f, fr, body):
        a, b = self.parts(ex, st, f, fr)
        self.inv(ex, st, f, fr)
        for x in ex.assigned_in(f, body):
            if (fr[x], ()) not in (a, b):
                st.cells[fr[x]] = Undef()
        v, w = ex.read(st, ("cell",) + a), ex.read(st, ("cell",) + b)
        if isinstance(v, S):
            nv = S(ex.fresh(st, "src", "IT"), "IT")
        else:
            vals = {"visit": FP(ex.fresh(st, "cur", "T")), "stack": S(ex.fresh(st, "stk", "Seq<T>"), "Seq<T>"), "remaining_elements": S(ex.fresh(st, "rem", "int"), "int"),
                    "lifetime": Agg("PhantomData", None, ())}
            nv = Agg("RbTreeIterator", None, tuple(vals[n] for n in ex.prog.structs["RbTreeIterator"]))
            st.fact("0 <= %s <= UMAX()" % vals["remaining_elements"].t)
        ex.write(st, ("cell",) + a, nv)
        if isinstance(w, S):
            nw = S(ex.fresh(st, "sm", "SM"), "SM")
        else:
            wraps, rb = unwrap(w)
            ex.fold(st, rb.fields[ex.prog.structs["RbTree"].index("root")])
            nw = C("", [], "unit").mktree(ex, st, ["rbv", "t", "n", "/".join(wraps)] if wraps else ["rbv", "t", "n"], {}, True)
        ex.write(st, ("cell",) + b, nw)
        gs, todo = self.inv(ex, st, f, fr)
        for _, _, g in gs:
            st.fact(g)
        st.hints = st.hints + (("lemma_cat(mlog(%s), %s);" % (nw.t, todo),) if isinstance(nw, S) else ())
        st.ghost["todo0"] = todo
        return []
    def decreases(self, ex, st, f, fr):
        return [("C04", "the source gets shorter", "%s.len() < %s.len()" % (self.inv(ex, st, f, fr)[1], st.ghost["todo0"]))]

FUEL = []
EXTRA = CT.EXTRA
LOOPS = dict(CI.LOOPS)
for k in ("<Map as FromIterator>::from_iter", "<MapVisitor as Visitor>::visit_map", "<Map as Serialize>::serialize", "<Map as CandidType>::idl_serialize"):
    LOOPS[k] = SrcLoop()

def fail(ex, st):
    """the (de)serializer reports an error of its own"""
    s2 = st.copy()
    e = ex.fresh(s2, "err", "SErr")
    s2.fact("given(%s)" % e)
    return (s2, Agg("Result", "Err", (S(e, "SErr"),)))
def ok(x):
    return Agg("Result", "Ok", (x,))
def new_sm(ex, st, ser, ln):
    m = ex.fresh(st, "sm", "SM")
    st.fact("mlen(%s) == %s && mlog(%s) == Seq::<(K, V)>::empty() && mser(%s) == %s && mpend(%s) is None" % (m, ln, m, m, ser, m))
    st.hints = st.hints + ("lemma_cat(mlog(%s), rest(T::L, Seq::empty()));" % m,)
    return S(m, "SM")
def upd(ex, st, p, k, v):
    """one entry (or half of one) is given to the serializer behind p"""
    m = ex.read_loc(st, p)
    if not (isinstance(m, S) and m.sort == "SM"):
        raise Unsupported("serializer expected")
    m2 = ex.fresh(st, "sm", "SM")
    st.fact("mlen(%s) == mlen(%s) && mser(%s) == mser(%s)" % (m2, m.t, m2, m.t))
    if k and v:
        st.fact("mpend(%s) is None && mlog(%s) == mlog(%s).push((%s, %s))" % (m2, m2, m.t, k, v))
    elif k:
        st.fact("mpend(%s) == Some(%s) && mlog(%s) == mlog(%s)" % (m2, k, m2, m.t))
    else:
        ex.emit(st, "C19", "a value follows its key", "mpend(%s) is Some" % m.t)
        st.fact("mpend(%s) is None && mlog(%s) == mlog(%s).push((mpend(%s)->Some_0, %s))" % (m2, m2, m.t, m.t, v))
    ex.write(st, ("cell", p.cell, p.path), S(m2, "SM"))
def src_next(ex, st, p):
    """-> states: (state, None | (k, v))"""
    i = ex.read_loc(st, p)
    if not (isinstance(i, S) and i.sort == "IT"):
        return None
    i = i.t
    s2 = st.copy()
    st.fact("todo(%s).len() == 0" % i)
    st.hints = st.hints + ("lemma_step(%s, %s);" % (i, i),)
    j = ex.fresh(s2, "src", "IT")
    s2.fact("step(%s, %s)" % (i, j))
    s2.hints = s2.hints + ("lemma_step(%s, %s);" % (i, j),)
    ex.write(s2, ("cell", p.cell, p.path), S(j, "IT"))
    return [(st, None), (s2, Agg("tuple", None, (S("todo(%s)[0].0" % i, "K"), S("todo(%s)[0].1" % i, "V"))))]
def builtin(ex, st, c, args, last):
    r = CI.vec(ex, st, c, args, last)
    if r is not NotImplemented:
        return r
    r = CM.builtin(ex, st, c, args, last)
    if r is not NotImplemented:
        return r
    v = lambda i: Bi.val(ex, st, args[i])
    if re.match(r"<.* as (?:std::iter::)?IntoIterator>::into_iter$", c):
        return args[0]
    if re.match(r"<<\w+ as (?:std::iter::)?IntoIterator>::IntoIter as (?:std::iter::)?Iterator>::next$", c) and isinstance(args[0], Ptr):
        o = src_next(ex, st, args[0])
        if o:
            return [(s, Bi.NONE if x is None else Bi.opt_some(x)) for s, x in o]
    if re.match(r"<\w+ as (?:.*::)?MapAccess<.*>>::next_entry::<", c) and isinstance(args[0], Ptr):
        bad = fail(ex, st)
        o = src_next(ex, st, args[0])
        if o:
            return [bad] + [(s, ok(Bi.NONE if x is None else Bi.opt_some(x))) for s, x in o]
    m = re.match(r"<\w+ as (?:.*::)?MapAccess<.*>>::next_(key|value)::<", c)
    if m and isinstance(args[0], Ptr):
        # an entry in two halves: the value follows its key
        bad = fail(ex, st)
        pend = st.ghost.get("pend")
        if m.group(1) == "value":
            if pend is None:
                raise Unsupported("a value without its key")
            st.ghost.pop("pend")
            return [bad, (st, ok(pend))]
        if pend is not None:
            raise Unsupported("a key without its value")
        o = src_next(ex, st, args[0])
        if o:
            out = [bad]
            for s, x in o:
                if x is not None:
                    s.ghost["pend"] = x.fields[1]
                out.append((s, ok(Bi.NONE if x is None else Bi.opt_some(x.fields[0]))))
            return out
    if re.match(r"<\w+ as (?:.*::)?Deserializer<.*>>::deserialize_map::<MapVisitor<", c) and isinstance(args[0], S) and args[0].sort == "De":
        # the visitor gets access to the entries of the input, none of which it has seen; its result is passed on,
        # unless the deserializer itself reports an error
        bad = fail(ex, st)
        i = ex.fresh(st, "src", "IT")
        st.fact("got(%s) == Seq::<(K, V)>::empty() && todo(%s) == dsrc(%s)" % (i, i, args[0].t))
        return [bad] + visit_map(CONTRACTS["<MapVisitor as Visitor>::visit_map"], ex, st, [args[1], S(i, "IT")], None)
    m = re.match(r"<\w+ as (?:.*::)?Serializer>::serialize_(map|vec)$", c)
    if m and isinstance(args[0], S) and args[0].sort == "Ser":
        bad = fail(ex, st)
        if m.group(1) == "map":
            o = ex.expand(st, args[1])
            ln = "None::<int>" if o.var == "None" else "Some(%s as int)" % ex.as_int(st, o.fields[0])
        else:
            ln = "Some(%s as int)" % ex.as_int(st, args[1])
        return [bad, (st, ok(new_sm(ex, st, args[0].t, ln)))]
    m = re.match(r"<<\w+ as (?:.*::)?Serializer>::(?:SerializeMap|Compound) as (?:.*::)?(?:SerializeMap|Compound)>::(serialize_entry|serialize_key|serialize_value|serialize_element)(?:::<.*>)?$", c)
    if m and isinstance(args[0], Ptr):
        bad = fail(ex, st)
        op = m.group(1)
        if op == "serialize_element":
            x = ex.expand(st, v(1))
            if not (isinstance(x, Agg) and x.name == "tuple" and len(x.fields) == 2):
                raise Unsupported("element")
            upd(ex, st, args[0], ex.term(st, x.fields[0], "K"), ex.term(st, x.fields[1], "V"))
        elif op == "serialize_entry":
            upd(ex, st, args[0], ex.term(st, v(1), "K"), ex.term(st, v(2), "V"))
        elif op == "serialize_key":
            upd(ex, st, args[0], ex.term(st, v(1), "K"), None)
        else:
            upd(ex, st, args[0], None, ex.term(st, v(1), "V"))
        return [bad, (st, ok(UNIT))]
    if re.match(r"<<\w+ as (?:.*::)?Serializer>::SerializeMap as (?:.*::)?SerializeMap>::end$", c):
        m = args[0].t
        bad = fail(ex, st)
        ex.emit(st, "C19", "every key has its value", "mpend(%s) is None" % m)
        return [bad, (st, ok(S("mapout(mser(%s), mlen(%s), mlog(%s))" % (m, m, m), "SOut")))]
    return NotImplemented
HOOKS = {"builtin": builtin, "callM": CI.callM, "node": CI.node, "callF": CM.callF, "inline": CM.INLINE | {"RbTree::entry"}, "is_null_ip": CM.HOOKS["is_null_ip"]}
THEORY = ["tree.rs", "mod.rs", "iter.rs", "map.rs"]
ALL = KEYS
