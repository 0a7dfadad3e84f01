"""Contracts of the two functions about the last entry with a prefix."""
from contract import Contract as C, subst
from symex import *
import builtins_ as Bi
from mirparse import Unsupported
import contracts_tree as CT
import contracts_mod as CM
CONTRACTS = dict(CT.CONTRACTS)
KEYS = []
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c
ENV = {"borrow": "general"}
tree_inv = CT.tree_inv
PM = "pmax({t}, {q})"
UPD = [("C13 C18", "%s matches Some(e) ==> modp({t}, {t2}, {q}, fok_v({f}, e.k, e.v))" % PM), ("C03", "shape({t}, {t2})"), ("C01 C18", "hok({t2})"),
       ("C13 C18", "%s is None ==> {t2} == {t}" % PM)]
add("RbTree::modify_max_with_prefix::go", ["io:t", "v:Q:q", "v:F:f"], ["agg", "tuple", None, "v:Option<R>:r", "v:Option<F>:g"],
    pre=[("C02", "bst({t}, LO(), HI())"), ("C01", "hok({t})")],
    post=UPD + [("C13 C18", "{r} == callrk(%s, {f})" % PM), ("C18", "{g} == opt(%s is None, {f})" % PM)], measure="cnt({t})")
add("RbTree::modify_max_with_prefix", ["rbm:t:n", "v:Q:q", "v:F:f"], "v:Option<R>:r", pre=tree_inv("t", "n"),
    post=tree_inv("t2", "n2") + UPD + [("C13 C18", "{r} == callrk(%s, {f})" % PM), ("C02", "{n2} == {n}")])
add("RbTree::max_entry_with_prefix::go", ["ro:t", "v:Q:q"], "v:Option<(K, V)>:r", pre=[("C02", "bst({t}, LO(), HI())")],
    post=[("C13", "{r} == kv(%s)" % PM)], measure="cnt({t})")
add("RbTree::max_entry_with_prefix", ["rb:t:n", "v:Q:q"], "v:Option<(K, V)>:r", pre=tree_inv("t", "n"),
    post=[("C13", "{r} == kv(%s)" % PM)])
FUEL = []
EXTRA = "broadcast use lemma_wide, lemma_at_bounds, ax_rank_b, ax_borrow_b, ax_isp_b, lemma_pmax_b;"
LOOPS = CT.LOOPS
def callF(ex, st, fv, args):
    if fv.sort == "F" and len(args) == 2:
        k = ex.term(st, args[0], "K")
        a = args[1]
        v = ex.term(st, Bi.val(ex, st, a), "V")
        if not isinstance(a, (Ptr, IP)):
            raise Unsupported("caller's closure on %r" % (a,))
        loc = ("np", a, ()) if isinstance(a, IP) else ("cell", a.cell, a.path)
        ex.write(st, loc, S("fok_v(%s, %s, %s)" % (fv.t, k, v), "V"))
        return S("fok_r(%s, %s, %s)" % (fv.t, k, v), "R")
    return CT.callF(ex, st, fv, args)
def node(ex, st, t, names):
    q = ex.cenv.get("q")
    if q:
        st.hints = st.hints + ("lemma_pm(%s, %s);" % (t, q),)
HOOKS = {"callF": callF, "node": node}
THEORY = ["tree.rs", "wit.rs", "mod.rs", "pfx.rs"]
ALL = KEYS
