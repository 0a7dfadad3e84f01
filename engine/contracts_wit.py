"""Contracts of the functions that build witnesses."""
from contract import Contract as C, subst
from symex import *
import builtins_ as Bi
from mirparse import Unsupported
import contracts_hash
CONTRACTS = dict(contracts_hash.CONTRACTS)
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    return c

ENV = {"borrow": "general"}
Sorts.adts["KB"] = [("KB::Exact", ["K"]), ("KB::Neighbor", ["K"])]

TREE = [("C02", "bst({t}, LO(), HI())"), ("C01", "hok({t})")]
VW = "C06 C07 C08"

add("three_way_fork", ["v:HT:l", "v:HT:m", "v:HT:r"], "v:HT:u",
    post=[("C05", "recon({u}) == fork3(emp({l}), emp({r}), recon({l}), recon({m}), recon({r}))"),
          ("C05", "emp({u}) == (emp({l}) && emp({m}) && emp({r}))"),
          (VW, "view({u}) == m3(view({l}), view({m}), view({r}))")], extra="broadcast use ax_vt_b; lemma_m();")

add("Node::data_tree", ["ro:t"], "v:HT:u", pre=[("C04", "isn({t})")], post=[("C05 C06 C08", "{u} == fnode(FT::Data, {t}->N_2, {t}->N_3)")])
add("Node::witness_tree", ["ro:t"], "v:HT:u", pre=[("C04", "isn({t})")], post=[("C05 C07 C08", "{u} == fnode(FT::Wit, {t}->N_2, {t}->N_3)")])

def wit(key, params, sel, lab, pre=(), hints=(), measure=None, extra=None):
    add(key, params, "v:HT:u", pre=TREE + list(pre),
        post=[("C05", "recon({u}) == nh({t})"), ("C05", "emp({u}) == ({t} is L)"), (lab, "view({u}) == seen({t}, %s)" % sel)],
        measure=measure, hints=list(hints), extra=extra)

ALLSEL = "Sel::R(None, None, {f})"
wit("Node::full_witness_tree", ["ro:t", "v:FT:f"], ALLSEL, "C01 C08", measure="cnt({t})")
wit("RbTree::witness_range_above::go", ["ro:t", "v:KB:lo", "v:FT:f"], "Sel::R(Some({lo}), None, {f})", "C07 C08", measure="cnt({t})")
wit("RbTree::witness_range_below::go", ["ro:t", "v:KB:hi", "v:FT:f"], "Sel::R(None, Some({hi}), {f})", "C07 C08", measure="cnt({t})")
wit("RbTree::witness_range_between::go", ["ro:t", "v:KB:lo", "v:KB:hi", "v:FT:f"], "Sel::R(Some({lo}), Some({hi}), {f})", "C07 C08",
    pre=[("C07 C08", "rk(kbk({lo})) <= rk(kbk({hi}))")], measure="cnt({t})")
wit("RbTree::witness_range_above", ["rb:t:n", "v:KB:lo", "v:FT:f"], "Sel::R(Some({lo}), None, {f})", "C07 C08")
wit("RbTree::witness_range_below", ["rb:t:n", "v:KB:hi", "v:FT:f"], "Sel::R(None, Some({hi}), {f})", "C07 C08")
wit("RbTree::witness_range_between", ["rb:t:n", "v:KB:lo", "v:KB:hi", "v:FT:f"], "Sel::R(Some({lo}), Some({hi}), {f})", "C07 C08",
    pre=[("C07 C08", "rk(kbk({lo})) <= rk(kbk({hi}))")])
wit("RbTree::range_witness", ["rb:t:n", "v:Option<KB>:lo", "v:Option<KB>:hi", "v:FT:f"], "Sel::R({lo}, {hi}, {f})", "C07 C08",
    pre=[("C07 C08", "{lo} is Some && {hi} is Some ==> rk(kbk({lo}->Some_0)) <= rk(kbk({hi}->Some_0))")])

ONE = "Sel::One(rq({q}), {f})"
def lookup(key, params, measure=None):
    add(key, params, "v:Option<HT>:r", pre=TREE + [("C05 C06", "forall|v: V| recon(#[trigger] fv({f}, v)) == vh(v)")],
        post=[("C06 C07", "{r} is Some == has({t}, rq({q}))"), ("C05", "{r} is Some ==> recon({r}->Some_0) == nh({t}) && !emp({r}->Some_0)"),
              ("C06", "{r} is Some ==> view({r}->Some_0) == seen({t}, %s)" % ONE)], measure=measure, extra=EXACT)
EXTRA = "broadcast use lemma_wide, lemma_at_bounds, ax_rank_b, ax_vt_b; lemma_m();"
EXACT = "broadcast use lemma_wide, lemma_at_bounds, ax_rank_b, ax_exact_b, ax_vt_b; lemma_m();"
lookup("RbTree::lookup_and_build_witness::go", ["ro:t", "v:Q:q", "v:F:f"], "cnt({t})")
lookup("RbTree::lookup_and_build_witness", ["rb:t:n", "v:Q:q", "v:F:f"])

BORD = "C07 C08"
def border(name, spec, extra):
    add("RbTree::%s::go" % name, ["ro:t", "v:Q:q"], "v:Option<KB>:r", pre=TREE[:1], post=[(BORD, spec)], measure="cnt({t})", extra=extra)
    add("RbTree::%s" % name, ["rb:t:n", "v:Q:q"], "v:Option<KB>:r", pre=TREE[:1], post=[(BORD, spec)], extra=extra)
BR = "broadcast use lemma_wide, lemma_at_bounds, ax_rank_b"
border("lower_bound", "is_lo({t}, rq({q}), {r})", BR + ", ax_borrow_b;")
border("upper_bound", "is_hi({t}, rq({q}), {r})", BR + ", ax_exact_b;")
border("right_prefix_neighbor", "is_phi({t}, {q}, {r})", BR + ", ax_borrow_b, ax_isp_b;")

def absent(key):
    add(key, ["rb:t:n", "v:Q:q"] + (["v:F:f"] if "nested" in key else []), "v:HT:u",
        pre=TREE + ([("C05 C06", "forall|v: V| recon(#[trigger] fv({f}, v)) == vh(v)")] if "nested" in key else []),
        post=[("C05", "recon({u}) == nh({t})"),
              ("C06", "has({t}, rq({q})) ==> view({u}) == " + ("seen({t}, %s)" % ONE if "nested" in key else "seen({t}, Sel::One(rq({q}), ALLV()))")),
              ("C07", "!(has({t}, rq({q}))) ==> exists|lo: Option<KB>, hi: Option<KB>| is_lo({t}, rq({q}), lo) && is_hi({t}, rq({q}), hi) && view({u}) == #[trigger] seen({t}, Sel::R(lo, hi, FT::Wit))")],
        extra=EXACT)
absent("RbTree::nested_witness")
absent("RbTree::witness")
CONTRACTS["RbTree::witness"].hints = ["lemma_fns({t}, rq({q}));"]

def ranged(key, f):
    add(key, ["rb:t:n", "v:Q:q", "v:Q:z"], "v:HT:u", pre=TREE + [("C08", "rq({q}) <= rq({z})")],
        post=[("C05", "recon({u}) == nh({t})"),
              ("C08", "exists|lo: Option<KB>, hi: Option<KB>| is_lo({t}, rq({q}), lo) && is_hi({t}, rq({z}), hi) && view({u}) == #[trigger] seen({t}, Sel::R(lo, hi, FT::%s))" % f)],
        extra=EXACT)
ranged("RbTree::key_range", "Wit")
ranged("RbTree::value_range", "Data")
add("RbTree::keys_with_prefix", ["rb:t:n", "v:Q:q"], "v:HT:u", pre=TREE,
    post=[("C05", "recon({u}) == nh({t})"),
          ("C08", "exists|lo: Option<KB>, hi: Option<KB>| is_lo({t}, rq({q}), lo) && is_phi({t}, {q}, hi) && view({u}) == #[trigger] seen({t}, Sel::R(lo, hi, FT::Wit))")],
    extra=BR + ", ax_borrow_b, ax_isp_b; lemma_m();")
add("RbTree::keys", ["rb:t:n"], "v:HT:u", pre=TREE, post=[("C05", "recon({u}) == nh({t})"), ("C08", "view({u}) == seen({t}, Sel::R(None, None, FT::Wit))")])
add("<RbTree as AsHashTree>::as_hash_tree", ["rb:t:n"], "v:HT:u", pre=TREE,
    post=[("C01 C05", "recon({u}) == nh({t})"), ("C01", "view({u}) == seen({t}, Sel::R(None, None, FT::Data))")])
add("<RbTree as AsHashTree>::root_hash", ["rb:t:n"], "v:H:h", pre=TREE, post=[("C01 C05", "{h} == nh({t})")])

# ---- the map's own functions only pass on
for name, inner, pars in (("Map::witness", "RbTree::witness", ["v:Q:q"]), ("Map::witness_keys", "RbTree::keys", []), ("Map::witness_value_range", "RbTree::value_range", ["v:Q:q", "v:Q:z"]),
                          ("Map::witness_key_range", "RbTree::key_range", ["v:Q:q", "v:Q:z"]), ("Map::witness_keys_with_prefix", "RbTree::keys_with_prefix", ["v:Q:q"]),
                          ("<Map as AsHashTree>::root_hash", "<RbTree as AsHashTree>::root_hash", []), ("<Map as AsHashTree>::as_hash_tree", "<RbTree as AsHashTree>::as_hash_tree", [])):
    c = CONTRACTS[inner]
    add(name, ["rb:t:n:Map"] + pars, c.ret, pre=c.pre, post=c.post, extra=c.extra, hints=c.hints)

FUEL = [("view", 4), ("recon", 4)]
LOOPS = {}

def callF(ex, st, fv, args):
    if fv.sort == "FT" and len(args) == 1:
        p = args[0]
        if isinstance(p, FP):
            ctor, fs = ex.shape_of(st, p.t, "T")
            if ctor == "T::L":
                ex.fail(st, "null node passed to the function that shows a node")
            return S("fnode(%s, %s, %s)" % (fv.t, fs[2], fs[3]), "HT")
    if fv.sort == "F" and len(args) == 1:
        x = Bi.val(ex, st, args[0])
        if isinstance(x, S) and x.sort == "V":
            return S("fv(%s, %s)" % (fv.t, x.t), "HT")
    return None

def term(ex, st, v, sort):
    if sort == "FT" and isinstance(v, FnP):
        g = ex.prog.resolve(v.name)
        k = g.key if g else None
        if k == "Node::data_tree":
            return "FT::Data"
        if k == "Node::witness_tree":
            return "FT::Wit"
        raise Unsupported("function " + v.name)
    if sort == "F" and isinstance(v, Clo):
        # the closure as a function from a value to a hash tree
        key = ("clo", v.name)
        if key in st.ghost:
            return st.ghost[key]
        x = ex.fresh(st, "cv", "V")
        outs = ex.call_value(st.copy(), v, [S(x, "V")])
        if len(outs) != 1:
            raise Unsupported("closure with several results")
        t = ex.term(outs[0][0], outs[0][1], "HT")
        f = ex.fresh(st, "clo", "F")
        st.fact("forall|%s: V| #[trigger] fv(%s, %s) == %s" % (x, f, x, t))
        st.ghost[key] = f
        return f
    return None
def node(ex, st, t, names):
    """a node is opened: what is seen of it, in terms of what is seen of its subtrees"""
    e = dict(ex.cenv, n_=t, l_=names[0], r_=names[6], k_=names[2], v_=names[3])
    st.hints = st.hints + tuple(subst(h, e) for h in NODE.get(ex.fnname, ()))
NODE = {}
def node_hints(key, *hs):
    NODE[key] = hs
B_ = ["unfs({n_}, %s);", "lemma_hid({l_}, %s);", "lemma_hid({r_}, %s);"]
node_hints("RbTree::lookup_and_build_witness::go", *[x % ONE for x in B_])
node_hints("Node::full_witness_tree", "unfs({n_}, %s);" % ALLSEL)
_lo, _hi = "Some({lo}), None, {f}", "None, Some({hi}), {f}"
node_hints("RbTree::witness_range_above::go", *([x % ("Sel::R(%s)" % _lo) for x in B_] + ["lemma_nolo({r_}, %s);" % _lo, "lemma_nolo({l_}, %s);" % _lo]))
node_hints("RbTree::witness_range_below::go", *([x % ("Sel::R(%s)" % _hi) for x in B_] + ["lemma_nohi({r_}, %s);" % _hi, "lemma_nohi({l_}, %s);" % _hi]))
_b = "Some({lo}), Some({hi}), {f}"
node_hints("RbTree::witness_range_between::go", *([x % ("Sel::R(%s)" % _b) for x in B_] +
    ["lemma_nolo({%s}, %s);" % (c, x) for c in ("l_", "r_") for x in (_b, _lo)] + ["lemma_nohi({%s}, %s);" % (c, x) for c in ("l_", "r_") for x in (_b, _hi)]))
HOOKS = {"callF": callF, "term": term, "node": node}
KEYS = [k for k in CONTRACTS if k not in contracts_hash.CONTRACTS]
THEORY = ["tree.rs", "wit.rs"]
ALL = KEYS
