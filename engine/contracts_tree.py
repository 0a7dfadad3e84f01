"""Contracts of the tree that changes: insertion, removal, lookup, in-place update."""
from contract import Contract as C, subst
from symex import *
import builtins_ as Bi
from mirparse import Unsupported
import re

import contracts_hash
CONTRACTS = dict(contracts_hash.CONTRACTS)
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    return c

# facts about the tree a caller may rely on; each is some property's business
def tree_inv(t, n=None):
    out = [("C02", "bst({%s}, LO(), HI())" % t), ("C03", "ll({%s})" % t), ("C01", "hok({%s})" % t)]
    if n:
        out += [("C02", "cnt({%s}) == {%s}" % (t, n)), ("C03", "!red({%s})" % t)]
    return out

add("Node::subtree_hash", ["ro:t"], "v:H:r", post=[("C01", "{r} == nh({t})")])

add("balance", ["own:t"], "own:u",
    pre=[("C04", "isn({t})"), ("C03", "ll(tr({t}))"), ("C03", "lls(tl({t}))"), ("C03", "bh(tl({t})) == bh(tr({t}))"),
         ("C03", "!ll(tl({t})) ==> !red({t}) && !red(tr({t}))"), ("C03", "red({t}) ==> !(red(tl({t})) && red(tr({t})))")],
    post=[("C02", "same_map({t}, {u})"), ("C02", "cnt({u}) == cnt({t})"), ("C01", "hok({t}) ==> hok({u})"), ("C04", "isn({u})"),
          ("C03", "bh({u}) == bh({t})"), ("C03", "lls({u})"), ("C03", "!red({t}) ==> ll({u})"),
          ("C03", "red({t}) && !red(tl({t})) && !red(tr({t})) ==> ll({u})"),
          ("C03", "!red({t}) && red({u}) ==> red(tl({t})) && (red(tr({t})) || red(tl(tl({t}))))")], extra="")

add("RbTree::insert::go", ["own:t", "v:K:k", "v:V:v"], ["agg", "GoResult", None, "own:u", "v:Option<V>:old", "pv:p"],
    pre=[("C02", "bst({t}, LO(), HI())"), ("C03", "ll({t})"), ("C01", "hok({t})")],
    post=[("C02", "ins_map({t}, {u}, {k}, {v}, {p})"), ("C02", "{old} == valof(at({t}, rk({k})))"),
          ("C02", "cnt({u}) == cnt({t}) + if has({t}, rk({k})) { 0int } else { 1int }"),
          ("C01", "hok({u})"), ("C04", "isn({u})"),
          ("C03", "bh({u}) == bh({t})"), ("C03", "lls({u})"), ("C03", "!red({t}) ==> ll({u})")],
    measure="cnt({t})", hints=["ax_rank({k});"])

def min_apply(con, ex, st, args, g):
    """the returned pointer is the leftmost node of the argument's tree; writes through it act on that tree"""
    p = args[0]
    if not isinstance(p, TP):
        return NotImplemented
    t = ex.fold(st, p, consume=False)
    for lab, txt in con.pre:
        ex.emit(st, lab, "precondition of %s" % con.key, txt.replace("{t}", t), "pre")
    if p.cid in st.res:
        # materialised already: fold it back into one chunk
        t = ex.fold(st, p, consume=True)
        del st.res[p.cid]
        st.chunks[p.cid] = t
    cell = ex.new_cell(st, None)
    opaque = {n: Undef() for n in ex.node_fields()}
    opaque["key"], opaque["value"] = S("minkv(%s).0" % t, "K"), S("minkv(%s).1" % t, "V")
    st.cells[cell] = Agg("NodeView", None, tuple(opaque[n] for n in ex.node_fields()))
    ik, iv = ex.nf("key"), ex.nf("value")
    def mkterm(ex2, s2, nd, t=t):
        k, v = ex2.term(s2, nd.fields[ik], "K"), ex2.term(s2, nd.fields[iv], "V")
        if (k, v) == ("minkv(%s).0" % t, "minkv(%s).1" % t):
            return t
        u = ex2.fresh(s2, "setmin", "T")
        s2.fact("%s == setmin(%s, %s, %s)" % (u, t, k, v))
        s2.hints = s2.hints + ("lemma_succ(%s, %s, %s);" % (t, k, v),)
        return u
    st.focus[p.cid] = (cell, mkterm)
    return [(st, Ptr(cell, ()))]

class MinLoop:
    """cursor: the pointer the loop moves; it stays on the left spine of the argument"""
    def goals(self, ex, st, f, fr):
        t0, c = self.tree(ex, st, f, fr)
        return [("C02", "cursor stays on the left spine", "spine(%s, %s)" % (t0, c)), ("C04", "cursor is a node", "isn(%s)" % c)]
    def tree(self, ex, st, f, fr):
        cur = self.cursor(ex, f, fr)
        c = ex.fold(st, st.cells[cur], consume=False)
        if "min0" not in st.ghost:
            st.ghost["min0"] = c
        return st.ghost["min0"], c
    def cursor(self, ex, f, fr):
        return fr[loop_cursor(ex, f, fr)[0]]
    def havoc(self, ex, st, f, fr, body):
        t0, c = self.tree(ex, st, f, fr)
        u = ex.fresh(st, "cur", "T")
        for x in loop_cursor(ex, f, fr)[1]:
            st.cells[fr[x]] = Undef()
        st.cells[self.cursor(ex, f, fr)] = FP(u)
        st.fact("spine(%s, %s)" % (t0, u))
        st.fact("isn(%s)" % u)
        st.ghost["cur0"] = u
        st.hints = st.hints + ("lemma_spine(%s, %s);" % (t0, u),)
        return []
    def decreases(self, ex, st, f, fr):
        t0, c = self.tree(ex, st, f, fr)
        return [("C04", "the cursor moves down", "cnt(%s) < cnt(%s)" % (c, st.ghost["cur0"]))]

def loop_cursor(ex, f, fr):
    """the named raw node pointer a loop moves"""
    heads = ex.loop_headers(f)
    asg = set()
    for h, body in heads.items():
        asg |= ex.assigned_in(f, body)
    named = {int(m[1:]) for vs in f.debug.values() for m in vs if re.match(r"_\d+$", m)}
    c = [n for n in asg if n in named and "Node<" in f.locals[n] and f.locals[n].startswith("*")]
    if len(c) > 1:
        c = [n for n in c if any(ex.live_at(f, h, body, n) for h, body in heads.items())]
    if len(c) != 1:
        raise Unsupported("cursor of the loop in " + f.key)
    return c[0], asg

class WalkLoop:
    """search from the root: what the whole tree holds at the sought position, the subtree at the cursor holds"""
    def __init__(self, pos):
        self.pos = pos
    def cur(self, ex, st, f, fr):
        return ex.fold(st, st.cells[fr[loop_cursor(ex, f, fr)[0]]], consume=False)
    def goals(self, ex, st, f, fr):
        c, p = self.cur(ex, st, f, fr), subst(self.pos, ex.cenv)
        return [("C02", "the entry sought is in the subtree at the cursor", "at(%s, %s) == at(%s, %s)" % (c, p, ex.cenv["t"], p))]
    def havoc(self, ex, st, f, fr, body):
        n, asg = loop_cursor(ex, f, fr)
        for x in asg:
            st.cells[fr[x]] = Undef()
        u = ex.fresh(st, "cur", "T")
        st.cells[fr[n]] = FP(u)
        p = subst(self.pos, ex.cenv)
        st.fact("at(%s, %s) == at(%s, %s)" % (u, p, ex.cenv["t"], p))
        st.ghost["cur0"] = u
        return []
    def decreases(self, ex, st, f, fr):
        return [("C04", "the cursor moves down", "cnt(%s) < cnt(%s)" % (self.cur(ex, st, f, fr), st.ghost["cur0"]))]

add("RbTree::delete::min", ["ro:t"], "ro:m", pre=[("C04", "isn({t})")],
    post=[("C02", "spine({t}, {m})"), ("C02", "isn({m}) && tl({m}) is L"), ("C02", "rootkv({m}) == Some(minkv({t}))")], native=min_apply)

add("RbTree::delete::delete_min", ["own:t", "m:Option<(K, V)>:res"], "own:u",
    pre=[("C02", "bst({t}, LO(), HI())"), ("C03", "ll({t})"), ("C01", "hokm({t})"), ("C04", "isn({t})"), ("C03", "red({t}) || red(tl({t}))")],
    post=[("C02", "del_b({t}, {u})"), ("C02", "del_at({t}, {u}, rk(minkv({t}).0))"), ("C02", "{res2} == Some(minkv({t}))"), ("C02", "cnt({u}) + 1 == cnt({t})"),
          ("C01", "hok({u})"), ("C03", "bh({u}) == bh({t})"), ("C03", "ll({u})"), ("C03", "red({u}) ==> red({t})")],
    measure="cnt({t})", hints=["lemma_min2({t});"])

add("RbTree::delete::go", ["own:t", "m:Option<(K, V)>:res", "v:Q:q"], "own:u",
    pre=[("C02", "bst({t}, LO(), HI())"), ("C01", "hok({t})"), ("C02", "has({t}, rq({q}))"), ("C03", "delpre({t}, rq({q}))")],
    post=[("C02", "del_b({t}, {u})"), ("C02", "del_at({t}, {u}, rq({q}))"), ("C02", "{res2} == kv(at({t}, rq({q})))"), ("C02", "cnt({u}) + 1 == cnt({t})"),
          ("C01", "hok({u})"), ("C03", "bh({u}) == bh({t})"), ("C03", "ll({u})"), ("C03", "red({u}) ==> red({t})")],
    measure="cnt({t})")

# Node::delete frees every node of the tree and hands the root's entry back
add("Node::delete", ["own:t"], "v:Option<(K, V)>:r", post=[("C04", "{r} == rootkv({t})")], measure="cnt({t})")

add("RbTree::get", ["rb:t:n", "v:Q:q"], "v:Option<V>:r", pre=[("C02", "bst({t}, LO(), HI())")],
    post=[("C02", "{r} == valof(at({t}, rq({q})))")])

add("RbTree::get_with", ["rb:t:n", "v:F:f"], "v:Option<V>:r", pre=[("C02", "bst({t}, LO(), HI())")],
    post=[("C02", "{r} == valof(at({t}, fpos({f})))")])

add("RbTree::insert", ["rbm:t:n", "v:K:k", "v:V:v"], ["agg", "tuple", None, "v:Option<V>:old", "pv:p"],
    pre=tree_inv("t", "n") + [("assume", "{n} < UMAX()")],
    post=tree_inv("t2", "n2") + [("C02", "ins_map({t}, {t2}, {k}, {v}, {p})"), ("C02", "{old} == valof(at({t}, rk({k})))"),
          ("C02", "{n2} == {n} + if has({t}, rk({k})) { 0int } else { 1int }"), ("C03", "balanced({t2})")], hints=["ax_rank({k});"])

add("RbTree::delete", ["rbm:t:n", "v:Q:q"], "v:Option<(K, V)>:r",
    pre=tree_inv("t", "n"),
    post=tree_inv("t2", "n2") + [("C02", "del_b({t}, {t2})"), ("C02", "del_at({t}, {t2}, rq({q}))"), ("C02", "{r} == kv(at({t}, rq({q})))"),
          ("C02", "{n2} == {n} - if has({t}, rq({q})) { 1int } else { 0int }")] +
         [("C01", "!(has({t}, rq({q}))) ==> {t2} == {t}"), ("C03", "balanced({t2})")])

FUEL = []
EXTRA = "broadcast use lemma_wide, lemma_at_bounds, ax_rank_b;"
LOOPS = {"RbTree::delete::min": MinLoop(), "RbTree::get": WalkLoop("rq({q})"), "RbTree::get_with": WalkLoop("fpos({f})"), "RbTree::get_node": WalkLoop("rk({k})")}

def callF(ex, st, fv, args):
    if fv.sort == "F" and len(args) == 1:
        x = Bi.val(ex, st, args[0])
        if isinstance(x, S) and x.sort == "K":
            # a comparator: it compares a fixed position with the key
            return S(("fpos(%s)" % fv.t, "rk(%s)" % x.t), "Ord")
    return None
HOOKS = {"callF": callF}
