"""Contracts of group builders: declaring parts, refusing clashes, and the layout of the group that is built."""
import re
from contract import Contract as C
from symex import *
import builtins_ as Bi
from mirparse import Unsupported
import contracts_group as G
CONTRACTS = dict(G.CONTRACTS)
KEYS = []
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c

Sorts.adts["BN"] = [("BN::Directory", ["BL"]), ("BN::Leaf", ["TY"])]
Sorts.adts["BL"] = [("BL::Nil", []), ("BL::Cons", ["B", "Box<BN>", "Box<BL>"])]
Sorts.rust["BN"] = "GroupBuilderNode"
BUILTIN_ENUMS["BTreeEntry"] = [("Vacant", ["0"]), ("Occupied", ["0"])]
NIL = "BL::Nil"

# ---- declaring a part
add("GroupBuilderNode::insert", ["m:BN:n", "v:LP:p", "v:TY:ty"], "unit", post=[("C21", "okins({n}, {p})"), ("C21", "{n2} == bins({n}, {p}, {ty})")],
    refuse="!(okins({n}, {p}))", measure="{p}.len()")
B = {"root": "v:BN:n", "data": "v:DM:d"}
B2 = ["struct", "GroupBuilder", {"root": "v:BN:n2", "data": "v:DM:d2"}]
for k in ("GroupBuilder::new", "<GroupBuilder as Default>::default"):
    add(k, [], B2, post=[("C21", "binv({n2}, {d2})"), ("C21", "{n2} == nodir()"), ("C21", "forall|q: LP, t: TY| !(#[trigger] part({n2}, q, t))")], hints=["lemma_start();", "lemma_nopart();"])
add("GroupBuilder::insert", [["struct", "GroupBuilder", B], "v:PP:path", "v:V:v"], B2, pre=[("C21", "binv({n}, {d})"), ("assume", "vty({v}) == tid()")],
    post=[("C21", "binv({n2}, {d2})"), ("C21", "{d2} == {d}.insert(tid(), {v})"), ("C21", "{n2} == bins({n}, pls({path}), tid())"),
          ("C21", "!(refused({n}, {d}, pls({path}), tid()))"), ("C21", "{n2} != nodir()"),
          ("C21", "forall|q: LP, t: TY| #[trigger] part({n2}, q, t) == (part({n}, q, t) || (q == pls({path}) && t == tid()))")],
    refuse="refused({n}, {d}, pls({path}), tid())",
    hints=["lemma_declare({n}, {d}, pls({path}), {v});", "lemma_adds({n}, {d}, pls({path}), tid());"])

# ---- building
add("GroupBuilderNode::build", ["v:BN:n"], "v:GN:g", pre=[("C21", "bfull({n})")], post=[("C21", "{g} == gbuild({n})")], measure="bsz({n})", hints=["lemma_bfull({n});"])
add("GroupBuilder::build", [["struct", "GroupBuilder", B]], ["struct", "Group", {"root": "v:GN:g2", "data": "v:DM:d2", "dependencies": "v:PM:p2"}],
    pre=[("C21", "binv({n}, {d})"), ("assume", "{n} != nodir()"), ("assume", "gcnt(gbuild({n})) <= " + G.U64)],
    post=[("C21", "ginv({g2}, {d2}, {p2})"), ("C21", "{d2} == {d}"), ("C21", "{g2} == numb(gbuild({n}), 0)"), ("C21", "neat({g2})"),
          ("C21", "forall|q: LP, t: TY| #[trigger] gpart({g2}, q, t) == part({n}, q, t)"), ("C21", "forall|t: TY| #[trigger] inty({g2}, t) == {d2}.contains_key(t)")],
    hints=["lemma_built({n}, {d});", "lemma_group({n}, {d});"])
# (Group::init: also what it does to the tree)
c = C("Group::init", [G.GM], "unit", pre=[("C15", "dist({g}) && typed({d}) && hasall({g}, {d})"), ("assume", "gcnt({g}) <= " + G.U64)],
      post=[("C15 C21", "ginv({g2}, {d2}, {p2})"), ("C15 C21", "{d2} == {d}"), ("C15 C21", "{g2} == numb({g}, 0)")], hints=["lemma_init({g}, {d});"])
CONTRACTS[c.key] = c
KEYS.append(c.key)

# ---- models
def term(ex, st, v, sort):
    if isinstance(v, Agg) and v.name == "BMap" and sort == "BL":
        return "lput(%s, %s, %s)" % (v.var[0], v.var[1], ex.term(st, v.fields[0], "BN"))
    return G.term(ex, st, v, sort)
def forked(ex, st, run):
    """run(state) on a copy of the state that goes nowhere, with all its splits"""
    outer = ex.pending
    work = [st.copy()]
    try:
        while work:
            s = work.pop()
            ex.pending = []
            try:
                run(s.copy())
                outer.extend(ex.pending)
            except NeedSplit as e:
                for alt in e.alts:
                    s2 = s.copy()
                    alt(s2)
                    work.append(s2)
            except PathEnd:
                outer.extend(ex.pending)
    finally:
        ex.pending = outer
def bmap(ex, st, v):
    v = Bi.val(ex, st, v)
    if isinstance(v, Agg) and v.name == "BMap" or isinstance(v, S) and v.sort == "BL":
        return ex.term(st, v, "BL")
def slot(ex, st, p, l, k, x):
    """entry k of the map at p, as a place"""
    b = BoxC(ex.new_cell(st, x))
    ex.write(st, ("cell", p.cell, p.path), Agg("BMap", (l, k), (b,)))
    return Ptr(p.cell, p.path + (0,))
def node(ex, st, v):
    v = Bi.val(ex, st, v)
    while isinstance(v, BoxC):
        v = ex.cell_get(st, v.cell)
    return S(ex.term(st, v, "BN"), "BN")
def fill(ex, st, e, x):
    p, k = e.fields
    l = bmap(ex, st, p)
    return slot(ex, st, p, l, k.t, node(ex, st, x))
SEQ = {"String": "LP", "GroupNode": "GQ"}
ITEM = {"LP": "B", "GQ": "GN"}
def each(ex, st, it, sort):
    """the sequence of what a mapping iterator yields"""
    src, clo = it.fields
    if src.sort in ("PP", "LP") and sort == "LP":
        c = ex.fresh(st, "item", "CI" if src.sort == "PP" else "B")
        want = "cs(%s)" % c if src.sort == "PP" else c
        def run(s):
            for s2, r in ex.call_value(s, clo, [S(c, "CI" if src.sort == "PP" else "B")]):
                ex.emit(s2, "C21", "every item of the path is taken as its label", "%s == %s" % (ex.term(s2, r, "B"), want))
        forked(ex, st, run)
        return "pls(%s)" % src.t if src.sort == "PP" else src.t
    if src.sort == "BL" and sort == "GQ":
        k, x = ex.fresh(st, "label", "B"), ex.fresh(st, "entry", "BN")
        def run(s):
            s.fact("lhas(%s, %s, %s)" % (src.t, k, x))
            s.hints = s.hints + ("lemma_entry(BN::Directory(%s), %s, %s);" % (src.t, k, x),)
            for s2, r in ex.call_value(s, clo, [Agg("tuple", None, (S(k, "B"), BoxC(ex.new_cell(s, S(x, "BN")))))]):
                ex.emit(s2, "C21", "every entry becomes its part under its label", "%s == glab(%s, %s)" % (ex.term(s2, r, "GN"), k, x))
        forked(ex, st, run)
        return "glst(%s)" % src.t
    raise Unsupported("collecting %s into %s" % (src.sort, sort))
def put(ex, st, p, t, sort):
    if not isinstance(p, Ptr):
        raise Unsupported("mutable reference expected")
    ex.write(st, ("cell", p.cell, p.path), S(t, sort))
    return UNIT
def builtin(ex, st, c, args, last):
    if re.match(r"<[A-Z]\w* as (std::\w+::)?Into<String>>::into$", c) or re.match(r"<String as (std::\w+::)?From<[A-Z]\w*>>::from$", c):
        x = Bi.val(ex, st, args[0])
        if isinstance(x, S) and x.sort in ("CI", "B"):
            return S("cs(%s)" % x.t if x.sort == "CI" else x.t, "B")
    if re.match(r"(std::\w+::)*BTreeMap::<String, Box<GroupBuilderNode>>::new$", c) or re.match(r"<(std::\w+::)*BTreeMap<String, Box<GroupBuilderNode>> as Default>::default$", c):
        return S(NIL, "BL")
    m = re.match(r"(?:std::\w+::)*(?:VecDeque|Vec)::<(String|GroupNode)>::(new|with_capacity)$", c) or re.match(r"<(?:std::\w+::)*(?:VecDeque|Vec)<(String|GroupNode)> as (Default)>::default$", c)
    if m:
        s = SEQ[m.group(1)]
        return S("Seq::<%s>::empty()" % ITEM[s], s)
    if not args:
        return G.builtin(ex, st, c, args, last)
    p = args[0]
    if isinstance(p, Agg) and p.name == "BTreeEntry" and re.match(r"(?:std::\w+::)*(?:btree_map::)?Entry::<", c):
        e = p.fields[0]
        if last == "and_modify":
            if p.var == "Vacant":
                return p
            return [(s2, p) for s2, _ in ex.call_value(st, args[1], [e.fields[0]])]
        if last in ("or_insert_with", "or_insert", "or_insert_with_key", "insert_entry"):
            if p.var == "Occupied" and last != "insert_entry":
                return e.fields[0]
            if last == "or_insert":
                return fill(ex, st, e, args[1])
            if last == "or_insert_with":
                return [(s2, fill(ex, s2, e, r)) for s2, r in ex.call_value(st, args[1], [])]
        if last == "key":
            return e.fields[1]
        return NotImplemented
    m = re.match(r"(?:std::\w+::)*(?:btree_map::)?(Occupied|Vacant)Entry::<", c)
    if m:
        e = Bi.val(ex, st, p)
        if isinstance(e, Agg) and e.name == m.group(1) + "Entry":
            if last == "key":
                return e.fields[1]
            if m.group(1) == "Vacant" and last == "insert":
                return fill(ex, st, e, args[1])
            if m.group(1) == "Vacant" and last == "into_key":
                return e.fields[1]
            if m.group(1) == "Occupied" and last in ("get", "get_mut", "into_mut"):
                return e.fields[0]
        return NotImplemented
    if isinstance(p, Agg) and p.name in ("SIter", "MIter"):
        m = re.search(r"Iterator>::(\w+)::<(.*)>$", c) or re.search(r"Iterator>::(\w+)$", c)
        op = m.group(1) if m else last
        if op == "map" and p.name == "SIter":
            return Agg("MIter", None, (p.fields[0], args[1]))
        if op == "into_iter":
            return p
        if op == "collect":
            mm = re.search(r"collect::<(?:std::\w+::)*(?:VecDeque|Vec)<(String|GroupNode)>>$", c)
            if mm:
                s = SEQ[mm.group(1)]
                if p.name == "MIter":
                    return S(each(ex, st, p, s), s)
                if p.fields[0].sort == s:
                    return p.fields[0]
        return NotImplemented
    try:
        x = Bi.val(ex, st, p)
    except Unsupported:
        return G.builtin(ex, st, c, args, last)
    if isinstance(x, S) and x.sort == "PP":
        if last == "into_iter":
            return Agg("SIter", None, (x,))
        return NotImplemented
    if isinstance(x, Agg) and x.name == "SIter" and last == "next" and x.fields[0].sort == "BL" and isinstance(p, Ptr):
        ctor, fs = ex.shape_of(st, x.fields[0].t, "BL")
        if ctor == NIL:
            return Bi.NONE
        ex.write(st, ("cell", p.cell, p.path), Agg("SIter", None, (S(fs[2], "BL"),)))
        return Bi.opt_some(Agg("tuple", None, (S(fs[0], "B"), BoxC(ex.new_cell(st, S(fs[1], "BN"))))))
    l = bmap(ex, st, p) if isinstance(x, (S, Agg)) else None
    if l is not None and re.search(r"BTreeMap(::)?<String, Box<GroupBuilderNode>>", c):
        key = lambda: ex.term(st, args[1], "B")
        there = lambda k: ex.split_bool(st, "(lget(%s, %s) is Some)" % (l, k))
        at = lambda k: S("lget(%s, %s)->Some_0" % (l, k), "BN")
        if last == "is_empty":
            return S("(%s is Nil)" % l, "bool")
        if last == "len":
            return S("llen(%s)" % l, "int")
        if last == "contains_key":
            return S("(lget(%s, %s) is Some)" % (l, key()), "bool")
        if last == "get":
            k = key()
            return Bi.opt_some(at(k)) if there(k) else Bi.NONE
        if last == "into_iter":
            return Agg("SIter", None, (S(l, "BL"),))
        if isinstance(p, Ptr):
            if last == "entry":
                k = key()
                if there(k):
                    return Agg("BTreeEntry", "Occupied", (Agg("OccupiedEntry", None, (slot(ex, st, p, l, k, at(k)), S(k, "B"))),))
                return Agg("BTreeEntry", "Vacant", (Agg("VacantEntry", None, (p, S(k, "B"))),))
            if last == "get_mut":
                k = key()
                return Bi.opt_some(slot(ex, st, p, l, k, at(k))) if there(k) else Bi.NONE
            if last == "insert":
                k = key()
                old = Bi.opt_some(BoxC(ex.new_cell(st, at(k)))) if there(k) else Bi.NONE
                put(ex, st, p, "lput(%s, %s, %s)" % (l, k, node(ex, st, args[2]).t), "BL")
                return old
        return NotImplemented
    if isinstance(x, S) and x.sort in ITEM:
        s, it, t = x.sort, ITEM[x.sort], x.t
        empty = "(%s.len() == 0)" % t
        if last == "len":
            return S("(%s.len() as int)" % t, "int")
        if last == "is_empty":
            return S(empty, "bool")
        if last in ("front", "back", "first", "last"):
            return Bi.NONE if ex.split_bool(st, empty) else Bi.opt_some(S("%s[0]" % t if last in ("front", "first") else "%s.last()" % t, it))
        if last == "get":
            i = ex.as_int(st, args[1])
            return Bi.opt_some(S("%s[%s]" % (t, i), it)) if ex.split_bool(st, "(%s < %s.len())" % (i, t)) else Bi.NONE
        if last in ("reserve", "shrink_to_fit"):
            return UNIT
        if isinstance(p, Ptr):
            if last in ("pop_front", "next"):
                if ex.split_bool(st, empty):
                    return Bi.NONE
                put(ex, st, p, "%s.subrange(1, %s.len() as int)" % (t, t), s)
                return Bi.opt_some(S("%s[0]" % t, it))
            if last in ("pop_back", "pop"):
                if ex.split_bool(st, empty):
                    return Bi.NONE
                put(ex, st, p, "%s.drop_last()" % t, s)
                return Bi.opt_some(S("%s.last()" % t, it))
            if last in ("push_back", "push"):
                return put(ex, st, p, "%s.push(%s)" % (t, ex.term(st, args[1], it)), s)
            if last == "push_front":
                return put(ex, st, p, "(seq![%s] + %s)" % (ex.term(st, args[1], it), t), s)
            if last == "clear":
                return put(ex, st, p, "Seq::<%s>::empty()" % it, s)
            if last in ("append", "extend") and isinstance(Bi.val(ex, st, args[1]), S) and Bi.val(ex, st, args[1]).sort == s:
                u = Bi.val(ex, st, args[1]).t
                if last == "append":
                    put(ex, st, args[1], "Seq::<%s>::empty()" % it, s)
                return put(ex, st, p, "(%s + %s)" % (t, u), s)
        if last in ("into_iter", "clone", "into", "from", "collect"):
            return S(t, s)
        return NotImplemented
    if isinstance(x, Agg) and x.name == "Range" and last == "next" and isinstance(p, Ptr):
        a, b = [ex.as_int(st, y) for y in x.fields]
        if not ex.split_bool(st, "(%s < %s)" % (a, b)):
            return Bi.NONE
        ex.write(st, ("cell", p.cell, p.path), Agg("Range", None, (S("(%s + 1)" % a, "int"), S(b, "int"))))
        return Bi.opt_some(S(a, "int"))
    if isinstance(x, Agg) and x.name == "Range" and last == "into_iter":
        return x
    return G.builtin(ex, st, c, args, last)

class BuildLoop:
    """the loops that lay out a directory: over its entries, over the rounds of pairing, over the pairs of a round"""
    def __init__(self, i):
        self.i = i
    def body(self, ex, f):
        h = ex.loop_headers(f)
        bb = sorted(h)[self.i]
        return bb, h[bb], any(x in h[bb] and x != bb for x in h)
    def parts(self, ex, st, f, fr):
        bb, body, outer = self.body(ex, f)
        asg = ex.assigned_in(f, body)
        text = "\n".join(l for b in body for l in f.blocks[b][1])
        used = lambda n: n in asg or re.search(r"&mut _%d\b" % n, text)
        its = [n for n in sorted(fr) if isinstance(st.cells[fr[n]], Agg) and st.cells[fr[n]].name == "SIter" and used(n)]
        qs = [n for n in sorted(fr) if isinstance(st.cells[fr[n]], S) and st.cells[fr[n]].sort == "GQ" and used(n)]
        rs = [n for n in sorted(fr) if isinstance(st.cells[fr[n]], Agg) and st.cells[fr[n]].name == "Range" and used(n)]
        if len(its) == 1 and len(qs) == 1 and not outer:
            return "entries", fr[its[0]], fr[qs[0]], None
        if outer and len(qs) == 1:
            return "rounds", fr[qs[0]], None, None
        if not outer and len(qs) == 2:
            e = [n for n in qs if st.cells[fr[n]].t == "Seq::<GN>::empty()"]
            if len(e) == 1:
                (src,) = [n for n in qs if n != e[0]]
                return "pairs", fr[src], fr[e[0]], fr[rs[0]] if len(rs) == 1 else None
        raise Unsupported("loop of " + f.key)
    def goals(self, ex, st, f, fr):
        key = ("build", f.raw, self.i)
        if key not in st.ghost:
            p = self.parts(ex, st, f, fr)
            v = st.cells[p[1]]
            st.ghost[key] = p + (v.fields[0].t if p[0] == "entries" else v.t,)
        kind, a, b, r, t0 = st.ghost[key]
        if kind == "entries":
            l, d = st.cells[a].fields[0].t, ex.term(st, st.cells[b], "GQ")
            self.size = "llen(%s)" % l
            st.hints = st.hints + ("lemma_glen(%s);" % l, "lemma_entrystep(%s, %s);" % (l, d), "lemma_sub(%s, %s);" % (l, t0))
            return [("C21", "the entries passed are laid out in order", "%s + glst(%s) == glst(%s)" % (d, l, t0)),
                    ("C21", "the entries still to come are the rest", "ltail(%s, %s)" % (l, t0))]
        c = ex.term(st, st.cells[a], "GQ")
        self.size = "%s.len()" % c
        if kind == "rounds":
            st.hints = st.hints + ("lemma_pairlen(%s);" % c,)
            return [("C21", "something is left", "%s.len() >= 1" % c), ("C21", "the rounds still to come give the tree", "merge(%s) == merge(%s)" % (c, t0))]
        d = ex.term(st, st.cells[b], "GQ")
        st.hints = st.hints + ("lemma_pairstep(%s, %s);" % (c, d), "lemma_pairlen(%s);" % t0)
        out = [("C21", "pairs are made in order", "%s + pairup(%s) == pairup(%s)" % (d, c, t0)), ("C21", "the round shrinks", "%s.len() <= %s.len()" % (c, t0))]
        if r is not None:
            i, n = [ex.as_int(st, y) for y in st.cells[r].fields]
            out.append(("C21", "the pairs still to come", "%s <= %s && %s - %s == %s.len() / 2" % (i, n, n, i, c)))
        return out
    def havoc(self, ex, st, f, fr, body):
        kind, a, b, r, t0 = st.ghost[("build", f.raw, self.i)]
        keep = {a, b, r}
        for x in ex.assigned_in(f, body):
            if fr[x] not in keep:
                st.cells[fr[x]] = Undef()
        if kind == "entries":
            st.cells[a] = Agg("SIter", None, (S(ex.fresh(st, "rest", "BL"), "BL"),))
        else:
            st.cells[a] = S(ex.fresh(st, "nodes", "GQ"), "GQ")
        if b is not None:
            st.cells[b] = S(ex.fresh(st, "done", "GQ"), "GQ")
        if r is not None:
            st.cells[r] = Agg("Range", None, (S(ex.fresh(st, "pos", "int"), "int"), S(ex.fresh(st, "end", "int"), "int")))
        for _, _, g in self.goals(ex, st, f, fr):
            st.fact(g)
        st.ghost[("size", f.raw, self.i)] = self.size
        return []
    def decreases(self, ex, st, f, fr):
        self.goals(ex, st, f, fr)
        return [("C04", "the loop ends", "0 <= %s < %s" % (self.size, st.ghost[("size", f.raw, self.i)]))]
class BuildLoops(dict):
    def get(self, i, d=None):
        return BuildLoop(i)

EXTRA = "broadcast use lemma_cnt_b;"
FUEL = []
LOOPS = {"GroupBuilderNode::build": BuildLoops()}
ENV = dict(G.ENV)
HOOKS = dict(G.HOOKS, term=term, builtin=builtin)
THEORY = ["tree.rs", "group.rs", "builder.rs", "layout.rs"]
ALL = KEYS
