"""Contracts of iteration."""
import re
from contract import Contract as C, subst
from symex import *
import builtins_ as Bi
from mirparse import Unsupported
import contracts_tree as CT
import contracts_mod as CM
CONTRACTS = dict(CM.CONTRACTS)
KEYS = []
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c
tree_inv = CT.tree_inv
IT = lambda u, s, r: ["struct", "RbTreeIterator", {"visit": u, "stack": s, "remaining_elements": r, "lifetime": "any"}]
OK = lambda u, s, r: [("C16", "allnode({%s})" % s), ("C16", "{%s} == rest({%s}, {%s}).len()" % (r, u, s))]
add("RbTreeIterator::new", ["rb:t:n"], IT("ro:u", "v:Seq<T>:s", "v:int:r"), pre=tree_inv("t", "n"), hints=["lemma_ents_len({t});", "lemma_below(Seq::empty());"],
    post=OK("u", "s", "r") + [("C16", "rest({u}, {s}) == ents({t})")])
add("Map::iter", ["rb:t:n:Map"], IT("ro:u", "v:Seq<T>:s", "v:int:r"), pre=tree_inv("t", "n"), post=OK("u", "s", "r") + [("C16", "rest({u}, {s}) == ents({t})")])
REST = "rest({u}, {s})"
add("<RbTreeIterator as Iterator>::next", [["ref", IT("rom:u", "vm:Seq<T>:s", "vm:int:r")]], "v:Option<(K, V)>:x", pre=OK("u", "s", "r") + [("assume", "0 <= {r} <= UMAX()")],
    post=OK("u2", "s2", "r2") + [("C16", "{x} == first(%s)" % REST), ("C16", "rest({u2}, {s2}) == tail(%s)" % REST)])
add("<RbTreeIterator as Iterator>::size_hint", [["ref", IT("rom:u", "vm:Seq<T>:s", "vm:int:r")]], "v:(int, Option<int>):x", pre=OK("u", "s", "r"),
    post=[("C16", "{x} == (%s.len() as int, Some(%s.len() as int))" % (REST, REST)), ("C16", "{u2} == {u} && {s2} == {s} && {r2} == {r}")])
add("RbTree::for_each::visit", ["ro:t", "m:FM:g"], "unit", pre=[("node", "t")], post=[("C16", "{g2} == fms({g}, ents({t}))")], measure="cnt({t})")
add("RbTree::for_each", ["rb:t:n", "fm:g"], "unit", pre=[], post=[("C16", "{g2} == fms({g}, ents({t}))")], hints=["lemma_fms({t});"])

class NextLoop:
    """going down to the left: what is still to come does not change"""
    def at(self, ex, st, f, fr):
        """places of the cursor and of the stack: locals, or fields of the iterator"""
        heads = ex.loop_headers(f)
        asg = set()
        for h, body in heads.items():
            asg |= ex.assigned_in(f, body)
        named = {int(m[1:]) for vs in f.debug.values() for m in vs if re.match(r"_\d+$", m)}
        cur = [n for n in asg if n in named and "Node<" in f.locals[n] and f.locals[n].startswith("*")]
        it = st.ghost["iter"]
        fl = ex.prog.structs["RbTreeIterator"]
        if len(cur) > 1:
            cur = [n for n in cur if any(ex.live_at(f, h, body, n) for h, body in heads.items())]
        c = (fr[cur[0]], ()) if len(cur) == 1 else (it.cell, it.path + (fl.index("visit"),))
        return c, (it.cell, it.path + (fl.index("stack"),)), bool(cur), asg
    def cur(self, ex, st, f, fr):
        c, s, loc, asg = self.at(ex, st, f, fr)
        u, q = ex.fold(st, ex.read(st, ("cell",) + c), consume=False), ex.term(st, ex.read(st, ("cell",) + s), "Seq<T>")
        return u, q
    def goals(self, ex, st, f, fr):
        u, q = self.cur(ex, st, f, fr)
        e = ex.cenv
        return [("C16", "what is still to come stays the same", "rest(%s, %s) == rest(%s, %s)" % (u, q, e["u"], e["s"])), ("C16", "the stack holds nodes", "allnode(%s)" % q)]
    def havoc(self, ex, st, f, fr, body):
        c, s, loc, asg = self.at(ex, st, f, fr)
        e = ex.cenv
        u, q = ex.fresh(st, "cur", "T"), ex.fresh(st, "stk", "Seq<T>")
        for x in asg:
            st.cells[fr[x]] = Undef()
        ex.write(st, ("cell",) + c, FP(u))
        ex.write(st, ("cell",) + s, S(q, "Seq<T>"))
        st.fact("rest(%s, %s) == rest(%s, %s)" % (u, q, e["u"], e["s"]))
        st.fact("allnode(%s)" % q)
        st.ghost["cur0"] = u
        return []
    def decreases(self, ex, st, f, fr):
        return [("C04", "the cursor moves down", "cnt(%s) < cnt(%s)" % (self.cur(ex, st, f, fr)[0], st.ghost["cur0"]))]

def it_setup(ex, st, env, vals):
    st.ghost["iter"] = vals[0]
CONTRACTS["<RbTreeIterator as Iterator>::next"].setup = it_setup
FUEL = []
EXTRA = CT.EXTRA
LOOPS = dict(CT.LOOPS)
LOOPS["<RbTreeIterator as Iterator>::next"] = NextLoop()
def tptr(ex, st, v):
    if isinstance(v, FP):
        return v.t
    raise Unsupported("pointer on the stack: %r" % (v,))
def vec(ex, st, c, args, last):
    """Vec of node pointers"""
    if re.match(r"(?:std::vec::)?Vec::<\*mut (?:\w+::)*Node<.*>>::(new|with_capacity)$", c):
        return S("Seq::<T>::empty()", "Seq<T>")
    m = re.match(r"(?:std::vec::)?Vec::<\*mut (?:\w+::)*Node<.*>>::(push|pop|len|is_empty)$", c)
    if m:
        p = args[0]
        s = Bi.val(ex, st, p)
        if not (isinstance(s, S) and s.sort == "Seq<T>"):
            return NotImplemented
        if m.group(1) == "push":
            u = tptr(ex, st, args[1])
            st.hints = st.hints + ("lemma_push(%s, %s);" % (u, s.t),)
            ex.write(st, ("cell", p.cell, p.path), S("%s.push(%s)" % (s.t, u), "Seq<T>"))
            return UNIT
        if m.group(1) == "len":
            return S("(%s.len() as int)" % s.t, "int")
        if m.group(1) == "is_empty":
            return S("(%s.len() == 0)" % s.t, "bool")
        st.hints = st.hints + ("lemma_pop(%s);" % s.t,)
        if ex.split_bool(st, "(%s.len() == 0)" % s.t):
            return Bi.NONE
        ex.write(st, ("cell", p.cell, p.path), S("%s.drop_last()" % s.t, "Seq<T>"))
        return Bi.opt_some(FP("%s.last()" % s.t))
    return NotImplemented
def callM(ex, st, ptr, v, args):
    if v.sort == "FM" and len(args) == 2:
        k, x = ex.term(st, args[0], "K"), ex.term(st, Bi.val(ex, st, args[1]), "V")
        ex.write(st, ("cell", ptr.cell, ptr.path), S("fm(%s, %s, %s)" % (v.t, k, x), "FM"))
        return UNIT
    return None
def node(ex, st, t, names):
    if ex.fnname.startswith("RbTree::for_each"):
        st.hints = st.hints + ("lemma_fms(%s);" % t,)
HOOKS = {"builtin": vec, "callM": callM, "node": node}
THEORY = ["tree.rs", "mod.rs", "iter.rs"]
ALL = KEYS
