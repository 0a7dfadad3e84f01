"""Models of the library functions on Vec<T>, slices and their iterators (contents: Seq<I>), and the invariant of loops over items."""
import re
from symex import *
import builtins_ as Bi

SQ = "Seq<I>"
VEC = r"(?:std::vec::)?Vec::<[A-Z]\w*>::"
SLICE = r"(?:core|std|alloc)::slice::<impl \[[A-Z]\w*\]>::"
def items(ex, st, v):
    v = Bi.val(ex, st, v)
    return v.t if isinstance(v, S) and v.sort == SQ else None
def sub(s, a, b):
    return "%s.subrange(%s, %s)" % (s, a, b)
def size(s):
    return "(%s.len() as int)" % s
def ix(ex, st, s, i):
    """s[i], for all kinds of index that appear"""
    if isinstance(i, S) and i.sort == "int":
        ex.emit(st, "C04", "index within bounds", "0 <= %s < %s.len()" % (i.t, s), "panic")
        return S("%s[%s]" % (s, i.t), "I")
    if isinstance(i, S) and i.sort == "Ix":
        return S("vix(%s, %s)" % (s, i.t), "IxOut")
    if isinstance(i, Agg) and i.name in ("RangeFrom", "RangeTo", "Range", "RangeFull"):
        f = [ex.as_int(st, x) for x in i.fields]
        a = f[0] if i.name in ("RangeFrom", "Range") else "0"
        b = f[-1] if i.name in ("RangeTo", "Range") else "%s.len() as int" % s
        ex.emit(st, "C04", "range within bounds", "0 <= %s <= %s <= %s.len()" % (a, b, s), "panic")
        return S(sub(s, a, b), SQ)
    raise Unsupported("index %r" % (i,))

def cmp(ex, st, op, a, b):
    if isinstance(a, S) and isinstance(b, S) and a.sort == b.sort == SQ and op in ("eq", "ne"):
        return S(("veq(%s, %s)" if op == "eq" else "!(veq(%s, %s))") % (a.t, b.t), "bool")
    return None

def repeat(ex, st, v, n):
    if isinstance(v, S) and v.t == "0" and re.match(r"(const )?32(_usize)?$", n.strip()):
        return S("zero32()", "H")
    return None

def put(ex, st, p, t):
    ex.write(st, ("cell", p.cell, p.path), S(t, SQ))
    return UNIT

def builtin(ex, st, c, args, last):
    if re.match(VEC + "(new|with_capacity)$", c) or re.match(r"<(?:std::vec::)?Vec<[A-Z]\w*> as Default>::default$", c):
        return S("Seq::<I>::empty()", SQ)
    if c == "<[u8; 32] as Default>::default":
        return S("zero32()", "H")
    if re.match(r"<[A-Z]\w* as (as_hash_tree::)?AsHashTree>::(root_hash|as_hash_tree)$", c):
        x = Bi.val(ex, st, args[0])
        if isinstance(x, S) and x.sort == "I":
            return S("ih(%s)" % x.t, "H") if last == "root_hash" else S("it(%s)" % x.t, "HT")
    m = re.match(r"<(?:std::vec::)?Vec<[A-Z]\w*> as (?:.*::)?(Serialize|CandidType|Deserialize(?:<.*>)?)>::(serialize|idl_serialize|deserialize)::<\w+>$", c)
    if m:
        if m.group(2) == "deserialize":
            return S("vde(%s)" % ex.term(st, args[0], "De"), "Result<%s, SErr>" % SQ)
        s = items(ex, st, args[0])
        if s:
            return S("%s(%s, %s)" % ({"serialize": "vser", "idl_serialize": "vidl"}[m.group(2)], s, ex.term(st, args[1], "Ser")), "Result<SOut, SErr>")
    if not args:
        return NotImplemented
    p = args[0]
    s = items(ex, st, p)
    if s is None:
        if last == "next" and isinstance(p, Ptr) and re.search(r"Range(<usize>)? as (?:std::iter::)?Iterator>::next$", c):
            r = ex.read_loc(st, p)
            if isinstance(r, Agg) and r.name == "Range":
                a, b = [ex.as_int(st, x) for x in r.fields]
                if not ex.split_bool(st, "(%s < %s)" % (a, b)):
                    return Bi.NONE
                ex.write(st, ("cell", p.cell, p.path), Agg("Range", None, (S("(%s + 1)" % a, "int"), S(b, "int"))))
                return Bi.opt_some(S(a, "int"))
        return NotImplemented
    m = re.match("(?:%s|%s)" % (VEC, SLICE) + r"(\w+)(?:::<.*>)?$", c)
    if m:
        op = m.group(1)
        if op == "len":
            st.fact("%s <= UMAX()" % size(s))
            return S(size(s), "int")
        if op == "is_empty":
            return S("(%s.len() == 0)" % s, "bool")
        if op == "capacity":
            n = ex.fresh(st, "cap", "int")
            st.fact("%s.len() <= %s <= UMAX()" % (s, n))
            return S(n, "int")
        if op in ("iter", "as_slice", "to_vec", "into_vec", "into_boxed_slice"):
            return S(s, SQ)
        if op in ("shrink_to_fit", "reserve", "reserve_exact", "shrink_to"):
            return UNIT
        if op in ("first", "last"):
            return Bi.opt_some(S("%s.%s()" % (s, op), "I")) if not ex.split_bool(st, "(%s.len() == 0)" % s) else Bi.NONE
        if op == "get" and isinstance(args[1], S) and args[1].sort == "int":
            return Bi.opt_some(S("%s[%s]" % (s, args[1].t), "I")) if ex.split_bool(st, "(%s < %s.len())" % (args[1].t, s)) else Bi.NONE
        if isinstance(p, Ptr):
            if op == "push":
                return put(ex, st, p, "%s.push(%s)" % (s, ex.term(st, args[1], "I")))
            if op == "clear":
                return put(ex, st, p, "Seq::<I>::empty()")
            if op == "truncate":
                n = ex.as_int(st, args[1])
                return put(ex, st, p, sub(s, "0", n)) if ex.split_bool(st, "(%s <= %s.len())" % (n, s)) else UNIT
            if op in ("extend_from_slice",):
                return ext(ex, st, p, s, args[1])
            if op == "append" and isinstance(args[1], Ptr):
                ext(ex, st, p, s, args[1])
                return put(ex, st, args[1], "Seq::<I>::empty()")
            if op == "pop":
                if ex.split_bool(st, "(%s.len() == 0)" % s):
                    return Bi.NONE
                put(ex, st, p, "%s.drop_last()" % s)
                return Bi.opt_some(S("%s.last()" % s, "I"))
        return NotImplemented
    if re.match(r"<(?:std::vec::)?Vec<[A-Z]\w*> as Extend<&?[A-Z]\w*>>::extend::<", c) and isinstance(p, Ptr):
        return ext(ex, st, p, s, args[1])
    if last == "next" and isinstance(p, Ptr):
        if ex.split_bool(st, "(%s.len() == 0)" % s):
            return Bi.NONE
        put(ex, st, p, sub(s, "1", "%s.len() as int" % s))
        return Bi.opt_some(S("%s[0]" % s, "I"))
    if re.search(r" as (?:std::iter::)?Iterator>::", c):
        if last in ("cloned", "copied", "by_ref") or re.search(r"Iterator>::collect::<(?:std::vec::)?Vec<[A-Z]\w*>>$", c):
            return S(s, SQ)
        if last == "skip":
            n = ex.as_int(st, args[1])
            return S(sub(s, n, "%s.len() as int" % s), SQ) if ex.split_bool(st, "(%s <= %s.len())" % (n, s)) else S("Seq::<I>::empty()", SQ)
        if last in ("take", "chain"):
            if last == "take":
                n = ex.as_int(st, args[1])
                return S(sub(s, "0", n), SQ) if ex.split_bool(st, "(%s <= %s.len())" % (n, s)) else S(s, SQ)
            u = items(ex, st, args[1])
            return S("(%s + %s)" % (s, u), SQ) if u else NotImplemented
        if last in ("count", "len"):
            st.fact("%s <= UMAX()" % size(s))
            return S(size(s), "int")
        if last == "fold":
            h, x = ex.fresh(st, "h", "H"), ex.fresh(st, "x", "I")
            outs = ex.call_value(st.copy(), args[2], [S(h, "H"), S(x, "I")])
            for s2, r in outs:
                ex.emit(s2, "C12", "each step extends the chain", "%s == link(%s, %s)" % (ex.term(s2, r, "H"), h, x))
            h0 = ex.term(st, args[1], "H")
            m = re.match(r"(.*)\.subrange\((.*), \1\.len\(\) as int\)$", s)
            st.hints = st.hints + ("lemma_foldtail(%s, %s);" % ((m.group(1), m.group(2)) if m else (s, "0")),)
            return S("fold(%s, %s)" % (h0, s), "H")
        return NotImplemented
    m = re.match(r"<.* as (?:\w+::)*Index<.*>>::index$", c)
    if m:
        return ix(ex, st, s, Bi.val(ex, st, args[1]))
    if last in ("into_iter", "deref", "as_ref", "borrow", "into", "from", "clone", "to_vec", "to_owned", "into_boxed_slice", "as_slice"):
        return S(s, SQ)
    return NotImplemented

def ext(ex, st, p, s, u):
    u = items(ex, st, u)
    if u is None:
        raise Unsupported("items expected")
    st.hints = st.hints + ("lemma_ext(%s, %s);" % (s, u), "lemma_fold(%s, %s);" % (s, u))
    return put(ex, st, p, "(%s + %s)" % (s, u))

class ItemLoop:
    """a loop over the items of a sequence: the running hash is the chain over the items passed"""
    def parts(self, ex, st, f, fr, body):
        asg = ex.assigned_in(f, body)
        text = "\n".join(l for b in body for l in f.blocks[b][1])
        seqs, hs, its = [], [], []
        for n in sorted(fr):
            v = st.cells[fr[n]]
            loc = (fr[n], ())
            if isinstance(v, Ptr):
                try:
                    w = ex.read_loc(st, v)
                except PathEnd:
                    continue
                if isinstance(w, Agg) and w.name == "Seq":
                    seqs.append((v.cell, v.path))
                    continue
                if n in asg or re.search(r"\(\*_%d\) =|move _%d\b" % (n, n), text):
                    loc, v = (v.cell, v.path), w
            if isinstance(v, Agg) and v.name == "Seq":
                seqs.append((fr[n], ()))
            elif isinstance(v, S) and v.sort == "H" and n in asg:
                hs.append(loc)
            elif (isinstance(v, S) and v.sort == SQ or isinstance(v, Agg) and v.name == "Range") and re.search(r"&mut _%d\b" % n, text):
                its.append(loc)
            elif isinstance(v, S) and v.sort == "int" and n in asg:
                its.append(loc)
        seqs = sorted(set(seqs))
        if len(seqs) != 1:
            raise Unsupported("loop of " + f.key)
        q = seqs[0]
        fl = ex.prog.structs["Seq"]
        if re.search(r"\(\(\*?_?\d*\)?\.%d: \[u8; 32\]\) = |\(\(\*_\d+\)\.%d: \[u8; 32\]\) = " % (fl.index("hash"), fl.index("hash")), text):
            hs.append((q[0], q[1] + (fl.index("hash"),)))
        hs, its = sorted(set(hs)), sorted(set(its))
        if len(hs) != 1 or len(its) != 1:
            raise Unsupported("loop of %s: running hash and position not found" % f.key)
        s = ex.term(st, ex.read(st, ("cell", q[0], q[1] + (fl.index("items"),))), SQ)
        return s, hs[0], its[0]
    def goals(self, ex, st, f, fr):
        if ("parts", f.raw) in st.ghost:
            s, h, i = st.ghost[("parts", f.raw)]
        else:
            (body,) = ex.loop_headers(f).values()
            s, h, i = self.parts(ex, st, f, fr, body)
            st.ghost[("parts", f.raw)] = (s, h, i)
        v = ex.read(st, ("cell",) + i)
        hv = ex.term(st, ex.read(st, ("cell",) + h), "H")
        out = []
        if isinstance(v, S) and v.sort == SQ:
            k = "(%s.len() - %s.len())" % (s, v.t)
            out.append(("C12", "the items still to come are the rest", "%s.len() <= %s.len() && %s == %s" % (v.t, s, v.t, sub(s, k, "%s.len() as int" % s))))
        elif isinstance(v, Agg):
            k, e = [ex.as_int(st, x) for x in v.fields]
            out.append(("C12", "the loop ends at the last item", "0 <= %s <= %s && %s == %s.len()" % (k, e, e, s)))
        else:
            k = v.t
            out.append(("C12", "the position stays within the items", "0 <= %s <= %s.len()" % (k, s)))
        st.hints = st.hints + ("lemma_prefix(%s, %s);" % (s, k),)
        st.ghost["k0"] = k if "k0" not in st.ghost else st.ghost["k0"]
        self.k = k
        return out + [("C12", "the hash is the chain over the items passed", "%s == chain(%s)" % (hv, sub(s, "0", k)))]
    def havoc(self, ex, st, f, fr, body):
        s, h, i = st.ghost[("parts", f.raw)]
        v = ex.read(st, ("cell",) + i)
        for x in ex.assigned_in(f, body):
            if (fr[x], ()) not in (h, i):
                st.cells[fr[x]] = Undef()
        ex.write(st, ("cell",) + h, S(ex.fresh(st, "hash", "H"), "H"))
        if isinstance(v, S) and v.sort == SQ:
            nv = S(ex.fresh(st, "rest", SQ), SQ)
        elif isinstance(v, Agg):
            nv = Agg("Range", None, (S(ex.fresh(st, "pos", "int"), "int"), S(ex.fresh(st, "end", "int"), "int")))
        else:
            nv = S(ex.fresh(st, "pos", "int"), "int")
        ex.write(st, ("cell",) + i, nv)
        st.ghost.pop("k0", None)
        for _, _, g in self.goals(ex, st, f, fr):
            st.fact(g)
        return []
    def decreases(self, ex, st, f, fr):
        self.goals(ex, st, f, fr)
        return [("C04", "the position moves on", "%s > %s" % (self.k, st.ghost["k0"]))]

class AppendLoop:
    """a loop that appends the items of one sequence to another, one by one"""
    def parts(self, ex, st, f, fr):
        (body,) = ex.loop_headers(f).values()
        rs = ex.reach(st, f, fr, body)
        tgt = [l for _, l, v in rs if isinstance(v, Agg) and v.name == "Seq"]
        src = [l for _, l, v in rs if isinstance(v, S) and v.sort == SQ and l[0] in fr.values()]
        if len(tgt) != 1 or len(src) != 1:
            raise Unsupported("loop of " + f.key)
        return src[0], tgt[0]
    def goals(self, ex, st, f, fr):
        key = ("append", f.raw)
        fl = ex.prog.structs["Seq"]
        get = lambda t, n: ex.read(st, ("cell", t[0], t[1] + (fl.index(n),)))
        if key not in st.ghost:
            a, b = self.parts(ex, st, f, fr)
            st.ghost[key] = (a, b, ex.term(st, ex.read(st, ("cell",) + a), SQ), ex.term(st, get(b, "items"), SQ))
        a, b, u, s = st.ghost[key]
        rem, h, q = ex.term(st, ex.read(st, ("cell",) + a), SQ), ex.term(st, get(b, "hash"), "H"), ex.term(st, get(b, "items"), SQ)
        k = "(%s.len() - %s.len())" % (u, rem)
        self.rem = rem
        st.hints = st.hints + ("lemma_appendstep(%s, %s, %s);" % (s, u, k), "lemma_appendstep(%s, %s, %s - 1);" % (s, u, k))
        return [("C12", "the items still to come are the rest", "%s.len() <= %s.len() && %s == %s" % (rem, u, rem, sub(u, k, "%s.len() as int" % u))),
                ("C12", "the items passed have been appended", "%s == %s + %s" % (q, s, sub(u, "0", k))), ("C12", "the hash is the chain over the items", "%s == chain(%s)" % (h, q))]
    def havoc(self, ex, st, f, fr, body):
        a, b, u, s = st.ghost[("append", f.raw)]
        for x in ex.assigned_in(f, body):
            if (fr[x], ()) not in (a, b):
                st.cells[fr[x]] = Undef()
        ex.write(st, ("cell",) + a, S(ex.fresh(st, "rest", SQ), SQ))
        d = {"hash": S(ex.fresh(st, "hash", "H"), "H"), "items": S(ex.fresh(st, "items", SQ), SQ)}
        for i, n in enumerate(ex.prog.structs["Seq"]):
            ex.write(st, ("cell", b[0], b[1] + (i,)), d[n]) if n in d else None
        for _, _, g in self.goals(ex, st, f, fr):
            st.fact(g)
        st.ghost["rem0"] = self.rem
        return []
    def decreases(self, ex, st, f, fr):
        self.goals(ex, st, f, fr)
        return [("C04", "the items run out", "%s.len() < %s.len()" % (self.rem, st.ghost["rem0"]))]

class AnyLoop:
    def __init__(self):
        self.kinds = (ItemLoop, AppendLoop)
    def pick(self, ex, st, f, fr):
        key = ("kind", f.raw)
        if key not in st.ghost:
            for k in self.kinds:
                try:
                    x = k()
                    x.goals(ex, st.copy(), f, fr)
                    break
                except Unsupported:
                    pass
            else:
                raise Unsupported("loop of " + f.key)
            st.ghost[key] = x
        return st.ghost[key]
    def goals(self, ex, st, f, fr):
        return self.pick(ex, st, f, fr).goals(ex, st, f, fr)
    def havoc(self, ex, st, f, fr, body):
        return self.pick(ex, st, f, fr).havoc(ex, st, f, fr, body)
    def decreases(self, ex, st, f, fr):
        return self.pick(ex, st, f, fr).decreases(ex, st, f, fr)
