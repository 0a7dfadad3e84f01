"""Contracts of in-place change, of the entry API and of the small functions of the map."""
from contract import Contract as C, subst
from mirparse import Unsupported
from symex import *
import re
import builtins_ as Bi
from mirparse import Unsupported
import contracts_tree as CT
CONTRACTS = dict(CT.CONTRACTS)
KEYS = []
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c
tree_inv = CT.tree_inv

UPD = [("C02 C18", "modv({t}, {t2}, rq({q}), fo_v({f}, evof(at({t}, rq({q})))))"), ("C02 C03", "shape({t}, {t2})"),
       ("C01 C18", "hok({t2})"), ("C01 C02", "!(has({t}, rq({q}))) ==> {t2} == {t}"), ("C02 C18", "{r} == callr(at({t}, rq({q})), {f})")]

def with_closure(key_of, spec):
    """the caller passes one of its own closures: it is executed on the value stored for the key, if there is one"""
    def apply(con, ex, st, args, g):
        f = args[2]
        if not isinstance(f, Clo):
            return NotImplemented
        return spec(con, ex, st, args)
    return apply

def take_tree(con, ex, st, p):
    """like the shape rbm: the tree and length behind &mut RbTree, and a function that puts a new tree there"""
    env, late = {}, []
    con.take(ex, st, p, "rbm:t:n", env, late)
    return env, late

def modify_closure(con, ex, st, args, g):
    f = args[2]
    if not isinstance(f, Clo):
        return NotImplemented
    env, late = take_tree(con, ex, st, args[0])
    q = ex.term(st, args[1], "Q")
    env["q"] = q
    for lab, txt in con.pre:
        t = subst(txt, env)
        if lab != "assume" and t not in st.facts:
            ex.emit(st, lab, "precondition of %s: %s" % (con.key, txt), t, "pre")
    for fn in late:
        fn()
    st.fact("{n2} == {n}".format(**env))
    out = []
    s0 = st.copy()
    s0.fact(subst("!(has({t}, rq({q}))) && {t2} == {t}", env))
    out.append((s0, Bi.NONE))
    s1 = st
    e = ex.fresh(s1, "entry", "E")
    s1.fact(subst("at({t}, rq({q})) == Some(%s)" % e, env))
    v = ex.fresh(s1, "val", "V")
    s1.fact("%s == %s.v" % (v, e))
    cell = ex.new_cell(s1, S(v, "V"))
    for s2, r in ex.call_value(s1, f, [Ptr(cell, ())]):
        e2 = dict(env)
        e2["nv"] = con.name(ex, s2, "nv", "V", ex.term(s2, s2.cells[cell], "V"))
        s2.fact(subst("modv({t}, {t2}, rq({q}), {nv}) && shape({t}, {t2}) && hok({t2})", e2))
        for t in tree_inv("t2", "n2"):
            s2.fact(subst(t[1], e2))
        if isinstance(r, Ptr) and r.cell == cell:
            r = IP("%s.a" % e, ex.nf("value"))
        elif isinstance(r, Ptr):
            raise Unsupported("closure returns a reference")
        out.append((s2, Agg("Option", "Some", (r,))))
    return out

add("RbTree::modify::go", ["io:t", "v:Q:q", "v:F:f"], "v:Option<R>:r", pre=[("C01", "hok({t})")], post=UPD, measure="cnt({t})")
add("RbTree::modify", ["rbm:t:n", "v:Q:q", "v:F:f"], "v:Option<R>:r", pre=tree_inv("t", "n"),
    post=tree_inv("t2", "n2") + UPD + [("C02", "{n2} == {n}")], native=modify_closure)

# ---- the small functions
for k in ("RbTree::new", "<RbTree as Default>::default", "Map::new", "<Map as Default>::default"):
    add(k, [], "rbv:t:n" + (":Map" if "Map" in k else ""), post=[("C01 C02 C17", "{t} is L"), ("C02", "{n} == 0")])
add("RbTree::len", ["rb:t:n"], "v:int:r", pre=tree_inv("t", "n"), post=[("C02", "{r} == cnt({t})")])
add("RbTree::is_empty", ["rb:t:n"], "v:bool:r", pre=tree_inv("t", "n"), post=[("C02", "{r} == (cnt({t}) == 0)")])
add("<RbTree as Drop>::drop", ["rbd:t:n"], "unit", pre=[], post=[("C04", "true")])

# the node a search finds
add("RbTree::get_node", ["rb:t:n", "v:K:k"], "ro:u", post=[("C17", "at({t}, rk({k})) == at({u}, rk({k}))"), ("C17", "{u} is N ==> rk({u}->N_2) == rk({k})"), ("C17", "({u} is N) == has({t}, rk({k}))")])

# ---- entries
MAPF = "rbm:t:n"
VAC = ["struct", "VacantEntry", {"map": MAPF, "key": "v:K:k"}]
OCC = ["struct", "OccupiedEntry", {"map": MAPF, "key": "v:K:k", "node": "np:p"}]
INV = tree_inv("t", "n")
VPRE = INV + [("C17", "!(has({t}, rk({k})))"), ("assume", "{n} < UMAX()")]
OPRE = INV + [("C17", "at({t}, rk({k})) matches Some(e) && e.a == {p}")]
def agg_of(vals):
    x = vals[0]
    return x
def np_setup(ex, st, env, vals):
    def find(v):
        if isinstance(v, Ptr):
            v = st.cells[v.cell]
        if isinstance(v, Agg) and v.name == "OccupiedEntry":
            return v
        if isinstance(v, Agg):
            for x in v.fields:
                r = find(x) if isinstance(x, (Agg, Ptr)) else None
                if r is not None:
                    return r
    o = find(vals[0])
    if o is not None:
        st.ghost["np"] = {env["p"]: (o.fields[ex.prog.structs["OccupiedEntry"].index("map")], "rk(%s)" % env["k"])}
def occ(key, params, ret, post, **kw):
    add(key, params, ret, pre=OPRE, post=post, setup=np_setup, **kw)
def vac(key, params, ret, post, **kw):
    add(key, params, ret, pre=VPRE, post=post, hints=["ax_rank({k});"], **kw)
REF = lambda s: ["ref", s]
SAME = [("C17", "{t2} == {t} && {n2} == {n}")]
INS = lambda v: tree_inv("t2", "n2") + [("C17", "ins_map({t}, {t2}, {k}, %s, {p})" % v), ("C17", "{n2} == {n} + 1")]
DEL = tree_inv("t2", "n2") + [("C17", "del_b({t}, {t2}) && del_at({t}, {t2}, rk({k}))"), ("C17", "{n2} + 1 == {n}")]
AT = "at({t}, rk({k}))"
vac("VacantEntry::insert", [VAC, "v:V:v"], "pv:p", INS("{v}"))
vac("VacantEntry::into_key", [VAC], "v:K:r", SAME + [("C17", "{r} == {k}")])
vac("VacantEntry::key", [REF(VAC)], "v:K:r", SAME + [("C17", "{r} == {k}")])
occ("OccupiedEntry::get", [REF(OCC)], "v:V:r", SAME + [("C17", "Some({r}) == valof(%s)" % AT)])
occ("OccupiedEntry::get_mut", [REF(OCC)], "pv:x", SAME + [("C17", "{x} == {p}")])
occ("OccupiedEntry::into_mut", [OCC], "pv:x", SAME + [("C17", "{x} == {p}")])
occ("OccupiedEntry::key", [REF(OCC)], "v:K:r", SAME + [("C17", "{r} == {k}")])
occ("OccupiedEntry::remove", [OCC], "v:V:r", DEL + [("C17", "Some({r}) == valof(%s)" % AT)])
occ("OccupiedEntry::remove_entry", [OCC], "v:(K, V):r", DEL + [("C17", "Some({r}) == kv(%s)" % AT)])
EV, EO = ["agg", "Entry", "Vacant", VAC], ["agg", "Entry", "Occupied", OCC]
def both(name, more, mret, vpost, opost):
    """a function of Entry, checked for either kind of entry"""
    vac("Entry::%s#vacant" % name, [EV] + more, mret, vpost)
    occ("Entry::%s#occupied" % name, [EO] + more, mret, opost)
STAY = SAME + [("C17", "{x} == {p}")]
both("or_insert", ["v:V:v"], "pv:x", [(l, s.replace("{p}", "{x}")) for l, s in INS("{v}")], STAY)
both("or_default", [], "pv:x", [(l, s.replace("{p}", "{x}")) for l, s in INS("defv()")], STAY)
both("or_insert_with", ["v:F:f"], "pv:x", [(l, s.replace("{p}", "{x}")) for l, s in INS("fn0({f})")], STAY)
both("or_insert_with_key", ["v:F:f"], "pv:x", [(l, s.replace("{p}", "{x}")) for l, s in INS("fn1({f}, {k})")], STAY)
add("Entry::key#vacant", [REF(EV)], "v:K:r", pre=VPRE, post=SAME + [("C17", "{r} == {k}")])
occ("Entry::key#occupied", [REF(EO)], "v:K:r", SAME + [("C17", "{r} == {k}")])
def entry_is(var):
    """the result is an entry of this kind for the same key of the same map"""
    def f(con, ex, st, v, env):
        v = ex.expand(st, v)
        if not (isinstance(v, Agg) and v.name == "Entry"):
            raise Unsupported("result is not an entry")
        env["occ"] = "true" if v.var == "Occupied" else "false"
        e = v.fields[0]
        fl = ex.prog.structs[e.name]
        env["rk"] = ex.term(st, e.fields[fl.index("key")], "K")
        mp = e.fields[fl.index("map")]
        env["same"] = "true" if mp == st.ghost.get("mapptr") else "false"
        if v.var == "Occupied":
            nd = e.fields[fl.index("node")]
            if isinstance(nd, IP) and nd.field is None:
                env["rp"] = nd.addr
            elif isinstance(nd, FP):
                env["rp"] = "(%s)->N_1" % nd.t
            else:
                raise Unsupported("node of the entry: %r" % (nd,))
        else:
            env["rp"] = "0"
    return f
def mp_setup(ex, st, env, vals):
    np_setup(ex, st, env, vals)
    def find(v):
        if isinstance(v, Ptr):
            x = st.cells[v.cell]
            p = v
            while isinstance(x, Agg) and x.name == "Map":
                p, x = Ptr(p.cell, p.path + (0,)), x.fields[0]
            return p if isinstance(x, Agg) and x.name == "RbTree" else find(x)
        if isinstance(v, Agg):
            if v.name in ("VacantEntry", "OccupiedEntry"):
                return v.fields[ex.prog.structs[v.name].index("map")]
            for x in v.fields:
                r = find(x)
                if r is not None:
                    return r
    st.ghost["mapptr"] = find(vals[0])
def node_of_entry(con, ex, st, v, env):
    entry_is(None)(con, ex, st, v, env)
SAMEMAP = [("C17", "{same}"), ("C17", "{rk} == {k}")]
add("Entry::and_modify#vacant", [EV, "v:F:f"], entry_is("Vacant"), pre=VPRE, setup=mp_setup, post=SAME + SAMEMAP + [("C17", "!{occ}")])
add("Entry::and_modify#occupied", [EO, "v:F:f"], entry_is("Occupied"), pre=OPRE, setup=mp_setup,
    post=tree_inv("t2", "n2") + SAMEMAP + [("C17", "{occ}"), ("C17 C18", "modv({t}, {t2}, rk({k}), fo_v({f}, evof(%s)))" % AT), ("C17", "at({t2}, rk({k})) matches Some(e) && e.a == {rp}"),
          ("C18", "hok({t2})"), ("C17", "{n2} == {n}")])
add("RbTree::entry", ["rbm:t:n", "v:K:k"], entry_is(None), pre=INV, setup=mp_setup,
    post=SAME + SAMEMAP + [("C17", "{occ} == has({t}, rk({k}))"), ("C17", "{occ} ==> (at({t}, rk({k})) matches Some(e) && e.a == {rp})")])

FUEL = []
EXTRA = CT.EXTRA
LOOPS = CT.LOOPS
def callF(ex, st, fv, args):
    if fv.sort == "F" and len(args) == 0:
        return S("fn0(%s)" % fv.t, "V")
    if fv.sort == "F" and len(args) == 1:
        a = args[0]
        x = Bi.val(ex, st, a)
        if isinstance(a, (Ptr, IP)) and not (isinstance(x, S) and x.sort == "K"):
            v = ex.term(st, x, "V")
            loc = ("np", a, ()) if isinstance(a, IP) else ("cell", a.cell, a.path)
            ex.write(st, loc, S("fo_v(%s, %s)" % (fv.t, v), "V"))
            return S("fo_r(%s, %s)" % (fv.t, v), "R")
        if isinstance(x, S) and x.sort == "K" and ex.fnname.startswith("Entry::or_insert_with_key"):
            return S("fn1(%s, %s)" % (fv.t, x.t), "V")
    return CT.callF(ex, st, fv, args)
def builtin(ex, st, c, args, last):
    if re.match(r"<V as (?:std::default::)?Default>::default$", c):
        return S("defv()", "V")
    return NotImplemented
INLINE = {k for k in KEYS if re.match("(Occupied|Vacant)Entry::", k)}
HOOKS = {"inline": INLINE, "callF": callF, "builtin": builtin, "is_null_ip": lambda ex, st, p: "false"}
THEORY = ["tree.rs", "mod.rs"]
ALL = KEYS
