"""Path-based symbolic executor over the MIR of the real code.

Every control-flow path of a function is executed symbolically; loops are cut at their headers by
invariants, calls to functions that carry a contract are replaced by that contract, calls to other
non-recursive functions of the crate are executed in place.  What has to hold on a path is emitted as
proof obligations (class Obl); deciding them is Verus' job."""
import re, itertools
from collections import namedtuple
import mirparse as M
from mirparse import Unsupported

S = namedtuple("S", "t sort")                 # symbolic value: Verus term and Verus type
Agg = namedtuple("Agg", "name var fields")    # struct / tuple / enum value with known constructor
Ptr = namedtuple("Ptr", "cell path")          # pointer or reference to a memory cell
Null = namedtuple("Null", "")
TP = namedtuple("TP", "cid")                  # owning tree pointer: null or the root of an owned subtree
FP = namedtuple("FP", "t")                    # pointer into a tree that is only read: its subtree as a term
FPF = namedtuple("FPF", "t field")            # pointer to a field of a node of a read-only tree
IP = namedtuple("IP", "addr field")           # pointer to a field of the tree node with this address
Ref = namedtuple("Ref", "v")                  # shared reference to a known value
BoxC = namedtuple("BoxC", "cell")             # Box owning a cell
FnP = namedtuple("FnP", "name")               # function item
Clo = namedtuple("Clo", "name caps")
Undef = namedtuple("Undef", "")
UNIT = Agg("()", None, ())

class NeedSplit(Exception):
    def __init__(self, alts):
        self.alts = alts        # list of functions state -> None

class PathEnd(Exception):
    """the path ends here (its obligations have been emitted)"""

class Obl:
    __slots__ = ("label", "desc", "goal", "facts", "vars", "fn", "kind", "hints")

class State:
    __slots__ = ("cells", "chunks", "res", "addr", "dead", "facts", "bools", "shape", "order", "vars", "trail", "focus", "ghost", "hints")
    def __init__(self):
        self.cells, self.chunks, self.res, self.addr = {}, {}, {}, {}
        self.dead = frozenset()
        self.facts, self.bools, self.shape, self.order = (), {}, {}, {}
        self.vars = ()
        self.trail = ()
        self.focus = {}
        self.ghost = {}
        self.hints = ()
    def copy(self):
        s = State.__new__(State)
        s.cells, s.chunks, s.res, s.addr = dict(self.cells), dict(self.chunks), dict(self.res), dict(self.addr)
        s.dead, s.facts = self.dead, self.facts
        s.bools, s.shape, s.order = dict(self.bools), dict(self.shape), dict(self.order)
        s.vars, s.trail = self.vars, self.trail
        s.focus, s.ghost, s.hints = dict(self.focus), dict(self.ghost), self.hints
        return s
    def fact(self, f):
        if f not in self.facts:
            self.facts = self.facts + (f,)

# ------------------------------------------------------------------ Verus-level algebraic types
# sort -> list of (constructor, [field sorts], (rust enum name, rust variant))
CTOR = {}          # term text -> (constructor, [field terms]): terms that are built from a constructor

class Sorts:
    adts = {
        "T": [("T::L", []), ("T::N", ["Box<T>", "int", "K", "V", "bool", "H", "Box<T>"])],
        "HT": [("HT::Empty", []), ("HT::Fork", ["Box<HT>", "Box<HT>"]), ("HT::Labeled", ["B", "Box<HT>"]),
               ("HT::Leaf", ["B"]), ("HT::Pruned", ["H"])],
        "KB": [("KB::Exact", ["K"]), ("KB::Neighbor", ["K"])],
    }
    rust = {"HT": "HashTree", "KB": "KeyBound"}
    structs = {"E": ["a", "k", "v"]}

def inner(sort, head):
    return sort[len(head) + 1:-1]

def adt(sort):
    if sort in Sorts.adts:
        return Sorts.adts[sort]
    if sort.startswith("Option<"):
        return [("None", []), ("Some", [inner(sort, "Option")])]
    if sort.startswith("Result<"):
        a = M.split_top(inner(sort, "Result"))
        return [("Ok", [a[0]]), ("Err", [a[1]])]
    if sort.startswith("("):
        return [("", M.split_top(sort[1:-1]))]
    return None

def rust_enum(sort):
    if sort.startswith("Option<"):
        return "Option"
    if sort.startswith("Result<"):
        return "Result"
    if sort.startswith("("):
        return "tuple"
    return Sorts.rust.get(sort)

def mk(sort, ctor, args):
    a = adt(sort)
    fs = dict(a)[ctor]
    if ctor == "":
        t = "(" + ", ".join(args) + ")" if len(args) != 1 else "(" + args[0] + ",)"
    elif not fs:
        t = "Option::<%s>::None" % inner(sort, "Option") if ctor == "None" else ctor
    else:
        t = ctor + "(" + ", ".join(("Box::new(%s)" % x) if s.startswith("Box<") else x for x, s in zip(args, fs)) + ")"
    CTOR[t] = (ctor, list(args))
    return t

BUILTIN_ENUMS = {"Option": [("None", []), ("Some", ["0"])], "Result": [("Ok", ["0"]), ("Err", ["0"])],
                 "ControlFlow": [("Continue", ["0"]), ("Break", ["0"])], "Cow": [("Borrowed", ["0"]), ("Owned", ["0"])],
                 "Ordering": [("Less", []), ("Equal", []), ("Greater", [])]}
INTMAX = {"u8": "255", "u16": "65535", "u32": "4294967295", "u64": "18446744073709551615", "usize": "UMAX()"}

class Exec:
    def __init__(self, prog, contracts, env=None):
        self.prog = prog
        self.contracts = contracts
        self.obls = []
        self.pending = None
        self.n = itertools.count()
        self.depth = 0
        self.loops = {}
        self.fnname = "?"
        self.env = env or {}
        self.builtins = []          # extra (regex, handler)
        self.stack = []
        self.paths = 0
        self.inlined = set()
        self.used_contracts = set()
        self.hooks = {}
        self.maxpaths = 20000
        self.refuse, self.rlabel = None, ""     # when the function under check may panic (None: never)

    def plabel(self):
        return ("C04 " + self.rlabel).strip() if self.refuse else "C04"

    # ---------------------------------------------------------------- fresh names, facts, splits
    def fresh(self, st, hint, sort):
        v = "%s_%d" % (re.sub(r"\W", "", hint)[:12] or "x", next(self.n))
        st.vars = st.vars + ((v, sort),)
        if sort == "int" and False:
            pass
        return v

    def emit(self, st, label, desc, goal, kind="goal"):
        o = Obl()
        o.label, o.desc, o.goal, o.facts, o.vars, o.fn, o.kind, o.hints = label, desc, goal, st.facts, st.vars, self.fnname, kind, st.hints
        (self.pending if self.pending is not None else self.obls).append(o)

    def fail(self, st, desc, label="C04"):
        """the path must be infeasible"""
        ok = self.refuse and desc.startswith("no panic")
        self.emit(st, self.plabel() if ok else label, desc, self.refuse if ok else "false", "unreachable")
        raise PathEnd()

    def split_bool(self, st, t):
        if t in ("true", "false"):
            return t == "true"
        if t in st.bools:
            return st.bools[t]
        m = re.match(r"\((\d+) (<|<=|==|>|>=|!=) (\d+)\)$", t)
        if m:
            a, b = int(m.group(1)), int(m.group(3))
            return {"<": a < b, "<=": a <= b, "==": a == b, ">": a > b, ">=": a >= b, "!=": a != b}[m.group(2)]
        m = re.match(r"!\((.*)\)$", t)
        if m and balanced(m.group(1)):
            return not self.split_bool(st, m.group(1))
        raise NeedSplit([lambda s: (s.bools.__setitem__(t, True), s.fact(t)), lambda s: (s.bools.__setitem__(t, False), s.fact("!(%s)" % t))])

    def shape_of(self, st, t, sort):
        """(constructor, fields) of term t, splitting the path when unknown"""
        while sort.startswith("Box<"):
            sort = inner(sort, "Box")
        if t in CTOR:
            return CTOR[t]
        if t in st.shape:
            return st.shape[t]
        alts = []
        for ctor, fs in adt(sort):
            def f(s, ctor=ctor, fs=fs):
                names = []
                for i, x in enumerate(fs):
                    y = inner(x, "Box") if x.startswith("Box<") else x
                    names.append(self.fresh(s, self.fieldhint(sort, ctor, i), y))
                s.shape[t] = (ctor, names)
                s.fact("%s == %s" % (t, mk(sort, ctor, names)))
                if sort == "T" and ctor == "T::N" and "node" in self.hooks:
                    self.hooks["node"](self, s, t, names)
            alts.append(f)
        if len(alts) == 1:
            alts[0](st)
            return st.shape[t]
        raise NeedSplit(alts)

    def fieldhint(self, sort, ctor, i):
        if sort == "T":
            return "lakvchr"[i]
        return "f%d" % i

    def cmp3(self, st, x, y):
        """order of two integer terms: 'lt' | 'eq' | 'gt' (splits)"""
        if x == y:
            return "eq"
        if (y, x) in st.order:
            return {"lt": "gt", "gt": "lt", "eq": "eq"}[self.cmp3(st, y, x)] if len(st.order[(y, x)]) == 1 else {"lt": "gt", "gt": "lt", "eq": "eq"}[self.cmp3(st, y, x)]
        allowed = st.order.get((x, y), frozenset(("lt", "eq", "gt")))
        if len(allowed) == 1:
            return next(iter(allowed))
        op = {"lt": "<", "eq": "==", "gt": ">"}
        def alt(w):
            def f(s):
                s.order[(x, y)] = frozenset((w,))
                s.fact("%s %s %s" % (x, op[w], y))
            return f
        raise NeedSplit([alt(w) for w in ("lt", "eq", "gt") if w in allowed])

    def cmp_in(self, st, x, y, want):
        """is the order of x and y within `want`? (splits in two only)"""
        if x == y:
            return "eq" in want
        flip = {"lt": "gt", "gt": "lt", "eq": "eq"}
        if (y, x) in st.order:
            return self.cmp_in(st, y, x, {flip[w] for w in want})
        allowed = st.order.get((x, y), frozenset(("lt", "eq", "gt")))
        a, b = allowed & frozenset(want), allowed - frozenset(want)
        if not b:
            return True
        if not a:
            return False
        def alt(ws):
            txt = {frozenset(("lt",)): "<", frozenset(("eq",)): "==", frozenset(("gt",)): ">", frozenset(("lt", "eq")): "<=",
                   frozenset(("gt", "eq")): ">=", frozenset(("lt", "gt")): "!="}[frozenset(ws)]
            def f(s):
                s.order[(x, y)] = frozenset(ws)
                s.fact("%s %s %s" % (x, txt, y))
            return f
        raise NeedSplit([alt(a), alt(b)])

    # ---------------------------------------------------------------- memory
    def new_cell(self, st, val):
        c = next(self.n)
        st.cells[c] = val
        return c

    def new_chunk(self, st, term):
        c = next(self.n)
        st.chunks[c] = term
        return TP(c)

    def node_fields(self):
        f = self.prog.structs.get("Node")
        if not f or set(f) != {"key", "value", "left", "right", "color", "subtree_hash"}:
            raise Unsupported("struct Node has fields %s" % f)
        return f

    def nf(self, name):
        return self.node_fields().index(name)

    def color_bool(self, v):
        if isinstance(v, S):
            return v.t
        return "true" if v.var == "Red" else "false"

    def resolve_tp(self, st, p):
        """TP -> Null | Ptr"""
        if p.cid in st.focus:
            self.unfocus(st, p.cid)
        if p.cid in st.res:
            return st.res[p.cid]
        if p.cid not in st.chunks:
            self.fail(st, "use of a node after ownership of it was given up")
        ctor, fs = self.shape_of(st, st.chunks[p.cid], "T")
        if ctor == "T::L":
            st.res[p.cid] = Null()
        else:
            l, a, k, v, c, h, r = fs
            vals = {"key": S(k, "K"), "value": S(v, "V"), "left": self.new_chunk(st, l), "right": self.new_chunk(st, r),
                    "color": S(c, "Color"), "subtree_hash": S(h, "H")}
            cell = self.new_cell(st, Agg("Node", None, tuple(vals[n] for n in self.node_fields())))
            st.addr[cell] = a
            st.res[p.cid] = Ptr(cell, ())
        del st.chunks[p.cid]
        return st.res[p.cid]

    def unfocus(self, st, cid):
        cell, mkterm = st.focus.pop(cid)
        st.chunks[cid] = mkterm(self, st, st.cells[cell])
        del st.cells[cell]
        st.dead = st.dead | {cell}

    def fold(self, st, p, consume=True, seen=None):
        """term of the tree a pointer owns"""
        if isinstance(p, Null):
            return "T::L"
        if isinstance(p, FP):
            return p.t
        if isinstance(p, TP):
            if p.cid in st.focus:
                self.unfocus(st, p.cid)
            if p.cid in st.res:
                return self.fold(st, st.res[p.cid], consume, seen)
            if p.cid not in st.chunks:
                self.fail(st, "use of a node after ownership of it was given up")
            if seen is not None:
                if ("k", p.cid) in seen:
                    self.fail(st, "one node reachable along two paths")
                seen.add(("k", p.cid))
            t = st.chunks[p.cid]
            if consume:
                del st.chunks[p.cid]
            return t
        if isinstance(p, S) and p.sort == "T":
            return p.t
        if isinstance(p, Ptr) and p.path == ():
            if seen is None:
                seen = set()
            if p.cell in seen:
                self.fail(st, "one node reachable along two paths")
            seen.add(p.cell)
            if p.cell not in st.cells:
                self.fail(st, "pointer to freed memory")
            nd = st.cells[p.cell]
            if not (isinstance(nd, Agg) and nd.name == "Node"):
                raise Unsupported("tree pointer to something that is not a node")
            g = lambda n: nd.fields[self.nf(n)]
            l = self.fold(st, g("left"), consume, seen)
            r = self.fold(st, g("right"), consume, seen)
            t = mk("T", "T::N", [l, st.addr[p.cell], self.term(st, g("key"), "K"), self.term(st, g("value"), "V"),
                                 self.color_bool(g("color")), self.term(st, g("subtree_hash"), "H"), r])
            if consume:
                del st.cells[p.cell]
                st.dead = st.dead | {p.cell}
            return t
        raise Unsupported("not a tree pointer: %r" % (p,))

    def is_tree_ptr(self, v):
        return isinstance(v, (Null, FP, TP)) or (isinstance(v, Ptr) and v.path == ())

    # ---------------------------------------------------------------- terms of values
    def term(self, st, v, sort):
        """Verus term of type `sort` for value v (references are transparent)"""
        while sort.startswith("Box<"):
            sort = inner(sort, "Box")
        if sort.startswith("custom:"):
            raise Unsupported(sort)
        h = self.hooks.get("term")
        if h and not isinstance(v, (S, Ref, Ptr)):
            r = h(self, st, v, sort)
            if r is not None:
                return r
        if isinstance(v, S) and v.sort == "K" and sort == "Q":
            # a key passed as its own borrowed form
            st.fact("rq(bq(%s)) == rk(%s)" % (v.t, v.t))
            return "bq(%s)" % v.t
        if isinstance(v, S):
            if v.sort != sort and not (v.sort in ("Color", "bool") and sort in ("Color", "bool")) and v.sort != "Box<%s>" % sort:
                raise Unsupported("value of sort %s where %s is expected: %s" % (v.sort, sort, v.t))
            return v.t
        if isinstance(v, Ref):
            return self.term(st, v.v, sort)
        if isinstance(v, BoxC):
            return self.term(st, self.cell_get(st, v.cell), sort)
        if sort == "T" and self.is_tree_ptr(v):
            return self.fold(st, v)
        if sort == "PV":
            if isinstance(v, IP):
                return v.addr
            if isinstance(v, Ptr) and v.cell in st.addr and v.path == (self.nf("value"),):
                return st.addr[v.cell]
            if isinstance(v, FPF) and v.field == self.nf("value"):
                return "(%s)->N_1" % v.t
            raise Unsupported("pointer %r is not a pointer to a value in the tree" % (v,))
        if isinstance(v, FPF):
            return self.term(st, self.fpf_read(st, v), sort)
        if isinstance(v, IP) and v.field is not None:
            return self.term(st, self.np_read(st, v), sort)
        if isinstance(v, Ptr):
            return self.term(st, self.read_loc(st, v), sort)
        if isinstance(v, Agg):
            a = adt(sort)
            if v.name == "Cow" and sort == "B":
                return self.term(st, v.fields[0], "B")
            if a is None:
                if sort == "bool" and v.name == "Color":
                    return "true" if v.var == "Red" else "false"
                cv = self.hooks.get("term")
                if cv:
                    r = cv(self, st, v, sort)
                    if r is not None:
                        return r
                raise Unsupported("no term of sort %s for %s" % (sort, v.name))
            if sort == "HT" and v.name == "HashTree" and v.var == "Fork":
                fi = v.fields[0]
                fi = self.cell_get(st, fi.cell) if isinstance(fi, BoxC) else fi
                if isinstance(fi, S):
                    return fi.t
                return mk("HT", "HT::Fork", [self.term(st, x, "HT") for x in fi.fields])
            want = rust_enum(sort)
            if want != v.name and not (want == "tuple" and v.name in ("tuple", "()")):
                raise Unsupported("value %s where sort %s is expected" % (v.name, sort))
            for ctor, fs in a:
                if ctor.split("::")[-1] == (v.var or ""):
                    return mk(sort, ctor, [self.term(st, x, s) for x, s in zip(v.fields, fs)])
            raise Unsupported("variant %s" % v.var)
        raise Unsupported("no term of sort %s for %r" % (sort, v))

    def expand(self, st, v):
        """symbolic algebraic value -> Agg with symbolic fields (splits)"""
        if isinstance(v, S):
            sort = v.sort
            while sort.startswith("Box<"):
                sort = inner(sort, "Box")
            if sort == "FI":      # contents of a fork node
                ctor, fs = self.shape_of(st, v.t, "HT")
                if ctor != "HT::Fork":
                    raise Unsupported("fork contents of a non-fork")
                return Agg("ForkInner", None, (S(fs[0], "HT"), S(fs[1], "HT")))
            if sort in Sorts.structs or sort in self.hooks.get("structs", {}):
                return self.hooks["structs"][sort](self, st, v)
            if adt(sort) is None:
                raise Unsupported("looking inside an opaque value of sort " + sort)
            ctor, fs = self.shape_of(st, v.t, sort)
            tys = dict(adt(sort))[ctor]
            name = rust_enum(sort)
            if name is None:
                raise Unsupported("no Rust view of sort " + sort)
            if sort == "HT" and ctor == "HT::Fork":
                return Agg("HashTree", "Fork", (S(v.t, "Box<FI>"),))
            return Agg(name, ctor.split("::")[-1] or None, tuple(S(f, s) for f, s in zip(fs, tys)))
        return v

    # ---------------------------------------------------------------- locations
    def cell_get(self, st, c):
        if c not in st.cells:
            self.fail(st, "access to freed memory")
        return st.cells[c]

    def read_loc(self, st, p):
        v = self.cell_get(st, p.cell)
        return self.read_path(st, v, p.path)

    def read_path(self, st, v, path):
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if isinstance(e, tuple) and e[0] == "v":     # downcast
            v = self.expand(st, v)
            if not isinstance(v, Agg) or v.var != e[1]:
                raise Unsupported("downcast %s of %r" % (e[1], v))
            return v
        if isinstance(v, S):
            if v.sort == "Ord":
                raise Unsupported("field of Ordering")
            v = self.expand(st, v)
        if isinstance(v, Clo):
            return v.caps[e]
        if isinstance(v, Agg):
            if e >= len(v.fields):
                raise Unsupported("field %s of %s" % (e, v.name))
            return v.fields[e]
        if isinstance(v, FP):
            return self.fpf_read(st, FPF(v.t, e))
        if isinstance(v, IP) and v.field is None:
            return self.np_read(st, IP(v.addr, e))
        if isinstance(v, BoxC) and e == 0:
            return v        # Box -> Unique -> NonNull -> pointer
        raise Unsupported("field %s of %r" % (e, v))

    def fpf_read(self, st, p):
        ctor, fs = self.shape_of(st, p.t, "T")
        if ctor == "T::L":
            self.fail(st, "null node dereferenced")
        l, a, k, v, c, h, r = fs
        vals = {"key": S(k, "K"), "value": S(v, "V"), "left": FP(l), "right": FP(r), "color": S(c, "Color"), "subtree_hash": S(h, "H")}
        if p.field is None:
            return Agg("Node", None, tuple(vals[n] for n in self.node_fields()))
        return vals[self.node_fields()[p.field]]

    def write_path(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if isinstance(e, tuple):
            v = self.expand(st, v)
            if v.var != e[1]:
                raise Unsupported("write through downcast")
            return self.write_path(st, v, path[1:], new)
        if isinstance(v, S):
            v = self.expand(st, v)
        if isinstance(v, Undef):
            raise Unsupported("write into uninitialised aggregate")
        if isinstance(v, Clo):
            return Clo(v.name, tuple(self.write_path(st, x, path[1:], new) if i == e else x for i, x in enumerate(v.caps)))
        if not isinstance(v, Agg):
            raise Unsupported("write into %r" % (v,))
        return Agg(v.name, v.var, tuple(self.write_path(st, x, path[1:], new) if i == e else x for i, x in enumerate(v.fields)))

    def np_map(self, st, ip):
        """the map whose tree holds the node with this address: (pointer to the map, its tree, rank of the entry's key)"""
        if ip.addr not in st.ghost.get("np", {}):
            raise Unsupported("access through a value address")
        mp, x = st.ghost["np"][ip.addr]
        rb = self.read_loc(st, mp)
        while isinstance(rb, Agg) and rb.name == "Map":
            rb = rb.fields[0]
        t = self.fold(st, rb.fields[self.prog.structs["RbTree"].index("root")], consume=False)
        self.emit(st, "C04 C17", "the entry's node is still the node of its key", "at(%s, %s) matches Some(e) && e.a == %s" % (t, x, ip.addr))
        return mp, rb, t, x

    def np_read(self, st, ip):
        mp, rb, t, x = self.np_map(st, ip)
        if ip.field == self.nf("value"):
            return S("at(%s, %s)->Some_0.v" % (t, x), "V")
        if ip.field == self.nf("key"):
            return S("at(%s, %s)->Some_0.k" % (t, x), "K")
        raise Unsupported("field of an entry's node")

    def np_write(self, st, ip, val):
        if ip.field != self.nf("value"):
            raise Unsupported("write to a field of an entry's node")
        mp, rb, t, x = self.np_map(st, ip)
        fl = self.prog.structs["RbTree"]
        t2 = self.fresh(st, "t", "T")
        st.fact("modv(%s, %s, %s, %s) && shape(%s, %s)" % (t, t2, x, self.term(st, val, "V"), t, t2))
        self.fold(st, rb.fields[fl.index("root")])
        p = Ptr(mp.cell, mp.path + (fl.index("root"),))
        self.write(st, ("cell", p.cell, p.path), self.new_chunk(st, t2))

    def write(self, st, loc, val):
        if loc[0] == "np" and loc[2] == ():
            return self.np_write(st, loc[1], val)
        if loc[0] == "val" and isinstance(loc[1], IP) and len(loc[2]) == 1:
            return self.np_write(st, IP(loc[1].addr, loc[2][0]), val)
        if loc[0] == "cell":
            v = self.cell_get(st, loc[1])
            st.cells[loc[1]] = self.write_path(st, v, loc[2], val)
        else:
            raise Unsupported("write through a read-only location")

    def read(self, st, loc):
        if loc[0] == "cell":
            return self.read_path(st, self.cell_get(st, loc[1]), loc[2])
        if loc[0] == "np":
            return self.read_path(st, self.np_read(st, loc[1]), loc[2])
        return self.read_path(st, loc[1], loc[2])

    def deref(self, st, v):
        """pointer value -> location"""
        if isinstance(v, TP):
            v = self.resolve_tp(st, v)
        if isinstance(v, Ptr):
            if v.cell not in st.cells:
                self.fail(st, "access to freed memory")
            return ("cell", v.cell, v.path)
        if isinstance(v, BoxC):
            return ("cell", v.cell, ())
        if isinstance(v, Null):
            self.fail(st, "null pointer dereferenced")
        if isinstance(v, FP):
            self.fpf_read(st, FPF(v.t, None))
            return ("val", v, ())
        if isinstance(v, FPF):
            return ("val", self.fpf_read(st, v), ())
        if isinstance(v, Ref):
            return ("val", v.v, ())
        if isinstance(v, S):
            if v.sort == "PV":
                d = self.hooks.get("deref_pv")
                if d:
                    return d(self, st, v)
                raise Unsupported("dereference of a value address")
            if v.sort.startswith("Box<"):
                return ("val", S(v.t, inner(v.sort, "Box")), ())
            return ("val", v, ())
        if isinstance(v, IP):
            if v.field is None:
                return ("val", v, ())
            return ("np", v, ())
        if isinstance(v, (FnP, Clo, Agg)):
            return ("val", v, ())
        raise Unsupported("dereference of %r" % (v,))

    def place(self, st, fr, p):
        k = p[0]
        if k == "local":
            return ("cell", fr[p[1]], ())
        if k == "deref":
            return self.deref(st, self.read(st, self.place(st, fr, p[1])))
        if k == "field":
            l = self.place(st, fr, p[1])
            return (l[0], l[1], l[2] + (p[2],))
        if k == "down":
            l = self.place(st, fr, p[1])
            return (l[0], l[1], l[2] + (("v", p[2]),))
        if k in ("index", "cindex"):
            b = self.read(st, self.place(st, fr, p[1]))
            while isinstance(b, Ref):
                b = b.v
            if isinstance(b, S) and b.sort in ("H", "B"):
                # a single byte of a digest or of a byte string: any byte
                x = self.fresh(st, "byte", "int")
                st.fact("0 <= %s <= 255" % x)
                return ("val", S(x, "int"), ())
            if k == "index" and isinstance(b, Agg) and b.name == "array":
                i = self.read(st, ("cell", fr[p[2]], ()))
                if isinstance(i, S) and re.match(r"\d+$", i.t) and int(i.t) < len(b.fields):
                    l = self.place(st, fr, p[1])
                    return (l[0], l[1], l[2] + (int(i.t),))
        if k == "cindex" and not p[3]:
            l = self.place(st, fr, p[1])
            return (l[0], l[1], l[2] + (p[2],))
        raise Unsupported("place %r" % (p,))

    def make_ref(self, st, loc, kind):
        if loc[0] == "cell":
            return Ptr(loc[1], loc[2])
        # read-only location
        base, path = loc[1], loc[2]
        if isinstance(base, IP):
            if base.field is not None and path == ():
                return base
            if base.field is None and len(path) == 1:
                self.np_map(st, base)
                return IP(base.addr, path[0])
            raise Unsupported("reference into an entry's node")
        if isinstance(base, FP) and len(path) == 0:
            return base
        if isinstance(base, FP) and len(path) == 1:
            return FPF(base.t, path[0])
        v = self.read_path(st, base, path)
        if isinstance(v, S):
            return v
        return Ref(v)

    # ---------------------------------------------------------------- operands and rvalues
    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            loc = self.place(st, fr, o[1])
            v = self.read(st, loc)
            if isinstance(v, Undef):
                raise Unsupported("read of an uninitialised local")
            if isinstance(v, S) and loc[0] == "cell" and v.sort in self.env.get("ownbox", ()):
                # a box in memory: what it owns gets a cell of its own, so that it can be changed through the box
                v = BoxC(self.new_cell(st, S(v.t, inner(v.sort, "Box"))))
                self.write(st, loc, v)
            return v
        return self.const(st, o[1])

    def const(self, st, c):
        if c in ("true", "false"):
            return S(c, "bool")
        if c == "()":
            return UNIT
        m = re.match(r"(-?\d+)_?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)?$", c)
        if m:
            return S(m.group(1), "int")
        if c.startswith('"'):
            return Agg("str", c, ())
        if c.startswith('b"'):
            return Agg("bytes", c, ())
        m = re.search(r"promoted\[\d+\]$", c)
        if m:
            f = self.find_promoted(c)
            if f is None:
                raise Unsupported("constant " + c)
            out = self.exec_fn(st, f, [])
            if len(out) != 1:
                raise Unsupported("constant " + c)
            for a in State.__slots__:
                setattr(st, a, getattr(out[0][0], a))
            return out[0][1]
        h = self.hooks.get("const")
        if h:
            r = h(self, st, c)
            if r is not None:
                return r
        m = re.match(r"(?:core|std)::num::<impl (u8|u16|u32|u64|usize)>::(MAX|MIN|BITS)$|(u8|u16|u32|u64|usize)::(MAX|MIN|BITS)$", c)
        if m:
            t, w = m.group(1) or m.group(3), m.group(2) or m.group(4)
            if w != "BITS" or t != "usize":
                return S(INTMAX[t] if w == "MAX" else "0" if w == "MIN" else t[1:], "int")
        m = re.match(r"'([ -&(-\[\]-~])'$", c)
        if m:
            return S(str(ord(m.group(1))), "int")
        f = self.prog.resolve(c)
        if f is not None:
            return FnP(c)
        if re.match(r"[\w:<>' ,{}#&\[\]@./]+$", c):
            if "ZeroSized" in c or "{closure@" in c:
                c2 = c.replace("ZeroSized: ", "").strip()
                if c2.startswith("{closure@"):
                    return Clo(c2, ())
            return FnP(c)
        raise Unsupported("constant " + c)

    def find_promoted(self, c):
        if c in self.prog.promoted:
            return self.prog.promoted[c]
        # match on the text of the enclosing function
        cur = self.stack[-1]
        n = re.search(r"promoted\[(\d+)\]$", c).group(1)
        k = cur.raw + "::promoted[%s]" % n
        return self.prog.promoted.get(k)

    def rvalue(self, st, fr, r, lhs_ty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            if r[2][0] == "deref":
                # reborrow: the same pointer (no access happens)
                q = self.read(st, self.place(st, fr, r[2][1]))
                if isinstance(q, (Ptr, IP, Ref, FPF)) or isinstance(q, S) and q.sort == "PV":
                    return q
            return self.make_ref(st, self.place(st, fr, r[2]), r[1])
        if k == "cast":
            return self.cast(st, fr, self.operand(st, fr, r[1]), r[2], r[3], r[1])
        if k == "fnptr":
            return FnP(r[1])
        if k == "discr":
            v = self.read(st, self.place(st, fr, r[1]))
            return S(self.discr(st, v), "int")
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[2])
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not" and isinstance(v, S) and v.sort == "bool":
                return S({"true": "false", "false": "true"}.get(v.t, "!(%s)" % v.t), "bool")
            ty = self.int_ty(None, r[2])
            if r[1] == "Not" and isinstance(v, S) and v.sort == "int" and ty in INTMAX:
                return S("(%s - %s)" % (INTMAX[ty], v.t), "int")
            raise Unsupported("operator " + r[1])
        if k == "tuple":
            return Agg("tuple", None, tuple(self.operand(st, fr, x) for x in r[1]))
        if k == "array":
            return Agg("array", None, tuple(self.operand(st, fr, x) for x in r[1]))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            h = self.hooks.get("repeat")
            if h:
                x = h(self, st, v, r[2])
                if x is not None:
                    return x
            m = re.match(r"(?:const )?(\d+)(?:_usize)?$", str(r[2]).strip())
            if m and int(m.group(1)) <= 64 and isinstance(v, S) and v.sort in ("int", "bool"):
                return Agg("array", None, (v,) * int(m.group(1)))
            raise Unsupported("array repeat")
        if k == "closure":
            return Clo(r[1], tuple(self.operand(st, fr, o) for _, o in r[2]))
        if k == "agg":
            return self.aggregate(st, fr, r)
        raise Unsupported("rvalue " + k)

    def discr(self, st, v):
        if isinstance(v, S) and v.sort == "Ord":
            x, y = v.t
            return {"lt": "255", "eq": "0", "gt": "1"}[self.cmp3(st, x, y)]
        if isinstance(v, S) and v.sort == "Color":
            # enum order of Color in the source
            vs = [n for n, _ in self.prog.enums["Color"]]
            b = self.split_bool(st, v.t)
            return str(vs.index("Red" if b else "Black"))
        v = self.expand(st, v)
        if isinstance(v, Agg) and v.name == "Ordering":
            return {"Less": "255", "Equal": "0", "Greater": "1"}[v.var]
        if isinstance(v, Agg) and v.var is not None:
            vs = [n for n, _ in self.enum_def(v.name)]
            return str(vs.index(v.var))
        raise Unsupported("discriminant of %r" % (v,))

    def enum_def(self, name):
        if name in BUILTIN_ENUMS:
            return BUILTIN_ENUMS[name]
        if name in self.prog.enums:
            return self.prog.enums[name]
        raise Unsupported("enum " + name)

    def aggregate(self, st, fr, r):
        _, path, kind, fields = r
        vals = [(n, self.operand(st, fr, o)) for n, o in fields]
        segs = M.strip_generics(path).split("::")
        last = segs[-1]
        prev = segs[-2] if len(segs) > 1 else None
        if prev and (prev in BUILTIN_ENUMS or prev in self.prog.enums):
            return self.mk_enum(prev, last, vals, kind)
        if last in self.prog.structs:
            order = self.prog.structs[last]
            if kind == "named":
                d = dict(vals)
                if set(d) != set(order):
                    raise Unsupported("fields of " + last)
                return Agg(last, None, tuple(d[n] for n in order))
            return Agg(last, None, tuple(v for _, v in vals))
        # variant imported by name
        cand = [e for e, vs in list(self.prog.enums.items()) + list(BUILTIN_ENUMS.items()) if any(n == last for n, _ in vs)]
        if len(cand) == 1:
            return self.mk_enum(cand[0], last, vals, kind)
        if not vals and kind is None:
            return Agg(last, None, ())
        if kind == "named" or kind == "pos":
            return Agg(last, None, tuple(v for _, v in vals))
        raise Unsupported("aggregate " + path)

    def mk_enum(self, en, var, vals, kind):
        if kind == "named":
            order = dict(self.enum_def(en))[var]
            d = dict(vals)
            return Agg(en, var, tuple(d[n] for n in order))
        return Agg(en, var, tuple(v for _, v in vals))

    def as_int(self, st, v):
        if isinstance(v, S) and v.sort == "int":
            return v.t
        if isinstance(v, S) and v.sort in ("bool", "Color"):
            return "(if %s { 1int } else { 0int })" % v.t
        raise Unsupported("integer expected: %r" % (v,))

    def int_ty(self, fr, o):
        if o[0] == "const":
            m = re.search(r"_(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$", o[1])
            return m.group(1) if m else None
        p = o[1]
        if p[0] == "local":
            return self.stack[-1].locals.get(p[1])
        if p[0] == "field":
            return p[3]
        return None

    def binop(self, st, op, a, b, oa=None):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, S) and isinstance(b, S) and a.sort == "int" and b.sort == "int":
                if re.match(r"-?\d+$", a.t) and re.match(r"-?\d+$", b.t):
                    x, y = int(a.t), int(b.t)
                    return S(str({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]).lower(), "bool")
                want = {"Eq": {"eq"}, "Ne": {"lt", "gt"}, "Lt": {"lt"}, "Le": {"lt", "eq"}, "Gt": {"gt"}, "Ge": {"gt", "eq"}}[op]
                return S("(%s %s %s)" % (a.t, {"Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}[op], b.t), "bool")
            if op in ("Eq", "Ne") and isinstance(a, S) and isinstance(b, S) and a.sort == b.sort == "bool":
                return S("(%s %s %s)" % (a.t, {"Eq": "==", "Ne": "!="}[op], b.t), "bool")
            if op in ("Eq", "Ne") and self.is_tree_ptr(a) and self.is_tree_ptr(b):
                na, nb = self.is_null(st, a), self.is_null(st, b)
                if na == "true" or nb == "true":
                    same = "true" if na == nb else "false"
                elif isinstance(a, Ptr) or isinstance(a, TP):
                    ra = self.resolve_tp(st, a) if isinstance(a, TP) else a
                    rb = self.resolve_tp(st, b) if isinstance(b, TP) else b
                    if isinstance(rb, FP) or isinstance(ra, FP):
                        raise Unsupported("pointer comparison")
                    same = "true" if ra == rb else "false"
                else:
                    raise Unsupported("pointer comparison")
                if op == "Ne":
                    same = {"true": "false", "false": "true"}[same]
                return S(same, "bool")
            raise Unsupported("comparison of %r and %r" % (a, b))
        if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, S) and isinstance(b, S) and a.sort == b.sort == "bool":
            if op == "BitXor":
                return S("(%s != %s)" % (a.t, b.t), "bool")
            return S("(%s %s %s)" % (a.t, {"BitAnd": "&&", "BitOr": "||"}[op], b.t), "bool")
        x, y = self.as_int(st, a), self.as_int(st, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            sym = {"A": "+", "S": "-", "M": "*"}[op[0]]
            ty = self.int_ty(None, oa) if oa else None
            mx = INTMAX.get(ty)
            if mx is None:
                raise Unsupported("arithmetic on " + str(ty))
            t = "(%s %s %s)" % (x, sym, y)
            if re.match(r"\d+$", x) and re.match(r"\d+$", y):
                n = {"+": int(x) + int(y), "-": int(x) - int(y), "*": int(x) * int(y)}[sym]
                # every usize has at least 32 bits
                if 0 <= n <= (0xffffffff if ty == "usize" else int(mx)):
                    return Agg("tuple", None, (S(str(n), "int"), S("false", "bool")))
            return Agg("tuple", None, (S(t, "int"), S("!(0 <= %s <= %s)" % (t, mx), "bool")))
        if op in ("Div", "Rem"):
            if re.match(r"\d+$", x):
                x += "int"
            return S("(%s %s %s)" % (x, {"Div": "/", "Rem": "%"}[op], y), "int")
        ty = self.int_ty(None, oa) if oa else None
        if ty in INTMAX and re.match(r"\d+$", x) and re.match(r"\d+$", y) and op in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor") and int(y) < (64 if op[0] == "S" else 1 << 64):
            n = {"Shl": lambda p, q: p << q, "Shr": lambda p, q: p >> q, "BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "BitXor": lambda p, q: p ^ q}[op](int(x), int(y))
            if n <= (int(INTMAX[ty]) if ty != "usize" else 0xffffffff):
                return S(str(n), "int")
        if ty in INTMAX:
            # unsigned operands
            if op == "BitAnd":
                for p, q in ((x, y), (y, x)):
                    if re.match(r"\d+$", q) and (int(q) + 1) & int(q) == 0:
                        return S("(%s %% %d)" % (p, int(q) + 1), "int")
            if op == "Shr" and re.match(r"\d+$", y) and int(y) < 64:
                return S("(%s / %d)" % (x, 1 << int(y)), "int")
            if op == "Shl" and re.match(r"\d+$", y) and int(y) < 64:
                return S("((%s * %dint) %% (%s + 1int))" % (x, 1 << int(y), INTMAX[ty]), "int")
            if op in ("BitAnd", "BitOr", "BitXor"):
                return S("((((%s) as u64) %s ((%s) as u64)) as int)" % (x, {"BitAnd": "&", "BitOr": "|", "BitXor": "^"}[op], y), "int")
            if op in ("Add", "Sub", "Mul"):
                if re.match(r"\d+$", x):
                    x += "int"
                return S("((%s %s %s) %% (%s + 1int))" % (x, {"A": "+", "S": "-", "M": "*"}[op[0]], y, INTMAX[ty]), "int")
        raise Unsupported("operator " + op)

    def cast(self, st, fr, v, ty, kind, src=None):
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute"):
            if kind == "Transmute" and isinstance(v, BoxC):
                return v
            return v
        h = self.hooks.get("cast")
        if h:
            r = h(self, st, v, ty, kind)
            if r is not None:
                return r
        if kind == "IntToInt" and isinstance(v, S) and v.sort == "int":
            if re.match(r"\d+$", v.t) and int(v.t) <= {"u32": 0xffffffff, "usize": 0xffffffff, "isize": 0x7fffffff}.get(ty, 1 << 62) and ty in ("usize", "u64", "u128", "u32", "i64", "isize", "i128"):
                return v
            # a type that holds every value of the operand's type (usize has at least 32 and at most 64 bits)
            sty = self.int_ty(None, src) if src else None
            lo = {"usize": 32, "isize": 31}
            hi = {"usize": 64}
            bits = lambda t, m: m[t] if t in m else int(t[1:]) - (t[0] == "i")
            if re.match(r"(u|i)(8|16|32|64|128|size)$", ty) and re.match(r"u(8|16|32|64|128|size)$", sty or "") and (sty == ty or bits(ty, lo) >= bits(sty, hi)):
                return v
            if ty in INTMAX and ty != "usize":
                m = int(INTMAX[ty]) + 1
                return S("(%s %% %d)" % (v.t, m), "int")
            if ty == "usize":
                return S("(%s %% (UMAX() + 1))" % v.t, "int")
        if kind == "IntToInt" and isinstance(v, S) and v.sort == "bool":
            return S({"true": "1", "false": "0"}.get(v.t, "(if %s { 1int } else { 0int })" % v.t), "int")
        raise Unsupported("cast to %s (%s)" % (ty, kind))

    # ---------------------------------------------------------------- running a function
    def loop_headers(self, f):
        if not hasattr(self, "_lh"):
            self._lh = {}
        if f.raw in self._lh:
            return self._lh[f.raw]
        succ = {}
        for b, (cl, st) in f.blocks.items():
            if cl:
                continue
            s = []
            for line in st:
                for m in re.finditer(r"(?:return: |success: |-> |\d+: |otherwise: )bb(\d+)", line):
                    if re.search(r" -> |^goto|^switchInt|^drop|^assert", line):
                        s.append(int(m.group(1)))
            succ[b] = [x for x in s if x in f.blocks and not f.blocks[x][0]]
        heads, color, bodies = set(), {}, {}
        def dfs(b):
            color[b] = 1
            for x in succ.get(b, []):
                if color.get(x) == 1:
                    heads.add(x)
                    bodies.setdefault(x, set()).update(natural(x, b))
                elif x not in color:
                    dfs(x)
            color[b] = 2
        pred = {}
        for b, xs in succ.items():
            for x in xs:
                pred.setdefault(x, []).append(b)
        def natural(h, b):
            body, work = {h}, [b]
            while work:
                y = work.pop()
                if y not in body:
                    body.add(y)
                    work += pred.get(y, [])
            return body
        dfs(0)
        self._lh[f.raw] = bodies
        return bodies

    def doomed(self, f):
        """blocks from which the function cannot return and that lead to a diverging call -> what is called"""
        if not hasattr(self, "_doom"):
            self._doom = {}
        if f.raw in self._doom:
            return self._doom[f.raw]
        succ, good, div = {}, set(), {}
        for b, (cl, st) in f.blocks.items():
            if cl:
                continue
            last = st[-1] if st else ""
            s = [int(x) for x in re.findall(r"(?:return: |success: |\d+: |otherwise: )bb(\d+)", last)] + [int(x) for x in re.findall(r"^goto -> bb(\d+)|^drop.*-> bb(\d+)", last) for x in x if x]
            succ[b] = s
            if last.startswith("return"):
                good.add(b)
            elif not s and "(" in last and not last.startswith("unreachable"):
                div[b] = re.sub(r"::<.*?>", "", last.split(" = ", 1)[-1])[:80]
        def back(seed):
            seen, work = set(seed), list(seed)
            while work:
                x = work.pop()
                for b, s in succ.items():
                    if x in s and b not in seen:
                        seen.add(b)
                        work.append(b)
            return seen
        ret, lead = back(good), back(div)
        out = {}
        for b in lead - ret:
            out[b] = next(iter(div.values())) if len(div) == 1 else div.get(b, "diverging call")
        self._doom[f.raw] = out
        return out

    def is_recursive(self, f):
        if not hasattr(self, "_rec"):
            self._rec = {}
        if f.raw in self._rec:
            return self._rec[f.raw]
        # reachability in the static call graph among crate functions
        seen, work, rec = set(), [f], False
        while work and not rec:
            g = work.pop()
            for c in self.callees(g):
                if c is f:
                    rec = True
                    break
                if c.raw not in seen:
                    seen.add(c.raw)
                    work.append(c)
        self._rec[f.raw] = rec
        return rec

    def callees(self, f):
        if not hasattr(self, "_cal"):
            self._cal = {}
        if f.raw in self._cal:
            return self._cal[f.raw]
        out = []
        for b, (cl, stm) in f.blocks.items():
            if cl:
                continue
            for line in stm:
                try:
                    s = M.parse_stmt(line)
                except Exception:
                    continue
                if s and s[0] == "call":
                    g = self.prog.resolve(s[2])
                    if g is not None:
                        out.append(g)
        self._cal[f.raw] = out
        return out

    def exec_fn(self, st, f, args):
        """-> list of (state, return value)"""
        if len(self.stack) > 40:
            raise Unsupported("call depth")
        fr = {}
        for n in list(f.locals) + [0]:
            fr[n] = self.new_cell(st, Undef())
        for (n, ty), v in zip(f.args, args):
            st.cells[fr[n]] = v
        self.stack.append(f)
        try:
            return self.run(st, f, fr)
        finally:
            self.stack.pop()

    def run(self, st, f, fr):
        heads = self.loop_headers(f)
        results = []
        work = [(st, 0, 0, frozenset())]
        parsed = {}
        while work:
            st, bb, i, active = work.pop()
            if bb not in parsed:
                parsed[bb] = [M.parse_stmt(x) for x in f.blocks[bb][1]]
            if i == 0 and bb in heads and bb not in active and self.loop_inv(f, bb) is None:
                # no invariant: a loop that goes round a fixed number of times is followed round by round, to its end
                k = ("round", f.raw, bb, len(self.stack))
                st.ghost[k] = st.ghost.get(k, 0) + 1
                if st.ghost[k] > 70:
                    raise Unsupported("loop without invariant in " + f.key)
            elif i == 0 and bb in heads:
                try:
                    if bb in active:
                        self.loop_end(st, f, fr, bb, heads[bb])
                        continue
                    sp, self_pending = self.pending, []
                    outer = self.pending
                    self.pending = []
                    s2 = st.copy()
                    try:
                        sts = self.loop_enter(s2, f, fr, bb, heads[bb])
                        self.commit(outer)
                    except NeedSplit as e:
                        self.pending = outer
                        for alt in e.alts:
                            s3 = st.copy()
                            alt(s3)
                            work.append((s3, bb, i, active))
                        continue
                    except PathEnd:
                        self.commit(outer)
                        continue
                    for s3 in sts:
                        w = self.stmts_from(s3, f, fr, bb, 0, active | {bb}, parsed)
                        self.drain(w, work, results)
                    continue
                finally:
                    pass
            w = self.stmts_from(st, f, fr, bb, i, active, parsed)
            self.drain(w, work, results)
            if len(work) + len(results) > self.maxpaths:
                raise Unsupported("too many paths")
        return results

    def commit(self, outer):
        p = self.pending
        self.pending = outer
        (outer if outer is not None else self.obls).extend(p)

    def drain(self, w, work, results):
        for item in w:
            if item[0] == "ret":
                results.append((item[1], item[2]))
            else:
                work.append(item[1:])

    def stmts_from(self, st, f, fr, bb, i, active, parsed):
        """execute until a branch; returns list of ('go', st, bb, i, active) / ('ret', st, v)"""
        if i == 0 and bb in self.doomed(f):
            # every way on from here panics
            self.emit(st, self.plabel(), "no panic: " + self.doomed(f)[bb], self.refuse or "false", "unreachable")
            return []
        stmts = parsed[bb]
        while i < len(stmts):
            s = stmts[i]
            if s is None or s[0] in ("PlaceMention",):
                i += 1
                continue
            outer = self.pending
            self.pending = []
            s2 = st.copy()
            try:
                res = self.step(s2, f, fr, s)
                self.commit(outer)
            except NeedSplit as e:
                self.pending = outer
                out = []
                for alt in e.alts:
                    s3 = st.copy()
                    alt(s3)
                    out.append(("go", s3, bb, i, active))
                return out
            except PathEnd:
                self.commit(outer)
                return []
            except:
                self.pending = outer
                raise
            if res is None:
                st = s2
                i += 1
                continue
            if res[0] == "goto":
                nb = res[1]
                return [("go", s2, nb, 0, active)]
            if res[0] == "many":
                return [("go", s3, res[2], 0, active) for s3 in res[1]]
            if res[0] == "ret":
                return [("ret", s2, res[1])]
            if res[0] == "end":
                return []
        raise Unsupported("block without terminator")

    def step(self, st, f, fr, s):
        k = s[0]
        if k == "assign":
            v = self.rvalue(st, fr, s[2], None)
            self.assign(st, fr, s[1], v)
            return None
        if k == "goto":
            return ("goto", s[1])
        if k == "return":
            v = st.cells[fr[0]]
            return ("ret", UNIT if isinstance(v, Undef) and f.ret == "()" else v)
        if k == "switch":
            v = self.operand(st, fr, s[1])
            if isinstance(v, S) and v.sort == "bool":
                b = 1 if self.split_bool(st, v.t) else 0
                for val, tgt in s[2]:
                    if val == b:
                        return ("goto", tgt)
                return ("goto", s[3])
            if isinstance(v, S) and v.sort == "int" and re.match(r"\d+$", v.t):
                for val, tgt in s[2]:
                    if val == int(v.t):
                        return ("goto", tgt)
                if s[3] is None:
                    raise Unsupported("switch")
                return ("goto", s[3])
            if isinstance(v, S) and v.sort == "int":
                for val, tgt in s[2]:
                    if self.split_bool(st, "(%s == %d)" % (v.t, val)):
                        return ("goto", tgt)
                return ("goto", s[3])
            raise Unsupported("switch on %r" % (v,))
        if k == "assert":
            v = self.operand(st, fr, s[1])
            t = v.t if s[2] else ("!(%s)" % v.t)
            if t.startswith("!(!(") and t.endswith("))") and balanced(t[4:-2]):
                t = t[4:-2]
            if t != "true":
                self.emit(st, "C04", "no panic: " + s[3][:70], t, "panic")
            st.fact(t)
            return ("goto", s[4])
        if k == "unreachable":
            # rustc's unreachable: exhaustive match; our discriminants are always valid
            return ("end",)
        if k == "resume":
            return ("end",)
        if k == "drop":
            loc = self.place(st, fr, s[1])
            v = self.read(st, loc)
            self.drop(st, v)
            return ("goto", s[2])
        if k == "call":
            return self.call(st, f, fr, s)
        if k == "setdiscr":
            raise Unsupported("set discriminant")
        if k == "assume":
            return None
        raise Unsupported("statement " + k)

    def assign(self, st, fr, place, v):
        if place[0] == "local":
            st.cells[fr[place[1]]] = v
            return
        loc = self.place(st, fr, place)
        self.write(st, loc, v)

    # ---------------------------------------------------------------- drops
    def drop(self, st, v):
        if isinstance(v, S) and v.sort == "SM":
            st.ghost["sm"] = v.t
        if isinstance(v, S) and v.sort == "FM":
            st.ghost["fm"] = v.t
        if isinstance(v, (S, Undef, Ref, FnP, Null, FP, FPF, IP, TP, Ptr)):
            return
        if isinstance(v, BoxC):
            if v.cell in st.cells:
                self.drop(st, st.cells[v.cell])
                del st.cells[v.cell]
                st.dead = st.dead | {v.cell}
            else:
                self.fail(st, "memory freed twice")
            return
        if isinstance(v, Clo):
            for x in v.caps:
                self.drop(st, x)
            return
        if isinstance(v, Agg):
            g = self.prog.get("<%s as Drop>::drop" % v.name)
            if g is not None:
                c = self.new_cell(st, v)
                self.call_user_single(st, g, [Ptr(c, ())])
                return
            if v.name in ("Node",):
                for x in v.fields:
                    if not isinstance(x, Undef):
                        self.drop(st, x)
                return
            for x in v.fields:
                self.drop(st, x)
            return
        raise Unsupported("drop of %r" % (v,))

    def call_user_single(self, st, g, args):
        key = g.key
        if key in self.contracts:
            outs = self.contracts[key].apply(self, st, args, g)
        elif self.is_recursive(g):
            raise Unsupported("recursive function without contract: " + key)
        else:
            outs = self.exec_fn(st, g, args)
        if len(outs) != 1:
            raise Unsupported("drop glue forks")
        s2, v = outs[0]
        for a in State.__slots__:
            setattr(st, a, getattr(s2, a))
        return v

    # ---------------------------------------------------------------- calls
    def is_null(self, st, p):
        if isinstance(p, Null):
            return "true"
        if isinstance(p, TP):
            return "true" if isinstance(self.resolve_tp(st, p), Null) else "false"
        if isinstance(p, FP):
            ctor, _ = self.shape_of(st, p.t, "T")
            return "true" if ctor == "T::L" else "false"
        if isinstance(p, (Ptr, BoxC, FPF)):
            return "false"
        if isinstance(p, IP):
            h = self.hooks.get("is_null_ip")
            if h:
                return h(self, st, p)
            return "false"
        raise Unsupported("is_null of %r" % (p,))

    def finish(self, st, fr, place, v, tgt):
        if tgt is None:
            return ("end",)
        self.assign(st, fr, place, v)
        return ("goto", tgt)

    def call(self, st, f, fr, s):
        _, dst, callee, ops, tgt = s
        args = [self.operand(st, fr, o) for o in ops]
        m = re.match(r"(?:move|copy) _(\d+)$", callee.strip())
        if m:
            outs = self.wrap(st, self.call_value(st, st.cells[fr[int(m.group(1))]], args))
        else:
            outs = self.call_any(st, callee, args, f)
        if tgt is None:
            return ("end",)
        if len(outs) == 1 and outs[0][0] is st:
            self.assign(st, fr, dst, outs[0][1])
            return ("goto", tgt)
        sts = []
        for s2, v in outs:
            self.assign(s2, fr, dst, v)
            sts.append(s2)
        return ("many", sts, tgt)

    def call_any(self, st, callee, args, f=None):
        """-> list of (state, value)"""
        c = callee.strip()
        if c.startswith("move ") or c.startswith("copy "):
            raise Unsupported("call through " + c)
        g = self.prog.resolve(c)
        # contract bound to callee text (traits without body in the crate)
        for rx, h in self.builtins:
            m = re.match(rx, c)
            if m:
                r = h(self, st, args, m)
                if r is not NotImplemented:
                    return self.wrap(st, r)
        if g is not None:
            return self.call_user(st, g, args, c)
        import builtins_ as Bi
        r = Bi.builtin(self, st, c, args)
        if r is NotImplemented:
            raise Unsupported("call of " + c)
        return self.wrap(st, r)

    def wrap(self, st, r):
        if isinstance(r, list):
            return r
        return [(st, r)]

    def call_user(self, st, g, args, text=""):
        con = self.contracts.get(g.key)
        if con is not None and not callable(con.ret) and (g.key not in self.hooks.get("inline", ())):
            old, into = st.copy(), self.pending if self.pending is not None else self.obls
            n = len(into)
            try:
                outs = con.apply(self, st, args, g)
                self.used_contracts.add(g.key)
                return outs
            except Unsupported:
                # not called the way its contract says: execute it in place
                if self.is_recursive(g):
                    raise
                del into[n:]
                for a in State.__slots__:
                    setattr(st, a, getattr(old, a))
        if self.is_recursive(g):
            raise Unsupported("recursive function without contract: " + g.key)
        self.inlined.add(g.key)
        return self.exec_fn(st, g, args)

    def call_value(self, st, fv, args):
        """call a function value (closure / fn item) with already-untupled args"""
        if isinstance(fv, Ref):
            return self.call_value(st, fv.v, args)
        if isinstance(fv, Ptr):
            v = self.read_loc(st, fv)
            if isinstance(v, Clo):
                return self.call_closure(st, v, fv, args)
            h = self.hooks.get("callM")
            if h and isinstance(v, S):
                r = h(self, st, fv, v, args)
                if r is not None:
                    return self.wrap(st, r)
            return self.call_value(st, v, args)
        if isinstance(fv, Clo):
            return self.call_closure(st, fv, None, args)
        if isinstance(fv, FnP):
            return self.call_any(st, fv.name, args)
        if isinstance(fv, S):
            h = self.hooks.get("callF")
            if h:
                r = h(self, st, fv, args)
                if r is not None:
                    return self.wrap(st, r)
        raise Unsupported("call of %r" % (fv,))

    def call_closure(self, st, clo, ptr, args):
        g = self.prog.closures.get(clo.name)
        if g is None:
            raise Unsupported("closure " + clo.name)
        ty = g.args[0][1]
        if ty.startswith("&"):
            if ptr is None:
                ptr = Ptr(self.new_cell(st, clo), ())
            first = ptr
        else:
            first = clo
        self.inlined.add(g.key)
        return self.exec_fn(st, g, [first] + list(args))

    # ---------------------------------------------------------------- loops
    def loop_key(self, f, bb):
        return f.key

    def loop_inv(self, f, bb):
        # a loop of a function that is executed in place belongs to the function under check, unless it has an invariant of its own
        own = f.key if f.key == self.fnname.split("#")[0] or f.key not in self.contracts else self.fnname.split("#")[0]
        inv = self.loops.get(own) or self.loops.get(self.fnname.split("#")[0]) or self.loops.get(f.key)
        if isinstance(inv, dict):
            inv = inv.get(sorted(self.loop_headers(f)).index(bb))
        return inv

    def loop_enter(self, st, f, fr, bb, body):
        inv = self.loop_inv(f, bb)
        if len(self.loop_headers(f)) > 1 and inv in self.loops.values():
            raise Unsupported("several loops in " + f.key)
        for lab, desc, goal in inv.goals(self, st, f, fr):
            self.emit(st, lab, "loop entry: " + desc, goal, "loop")
        st.ghost[("loop", f.raw, bb)] = inv
        for s2 in inv.havoc(self, st, f, fr, body):
            pass
        return [st]

    def loop_end(self, st, f, fr, bb, body):
        inv = st.ghost[("loop", f.raw, bb)]
        work = [st]
        while work:
            s = work.pop()
            outer = self.pending
            self.pending = []
            s2 = s.copy()
            try:
                for lab, desc, goal in inv.goals(self, s2, f, fr):
                    self.emit(s2, lab, "loop step: " + desc, goal, "loop")
                for lab, desc, goal in inv.decreases(self, s2, f, fr):
                    self.emit(s2, lab, "loop progress: " + desc, goal, "loop")
                self.commit(outer)
                self.paths += 1
            except NeedSplit as e:
                self.pending = outer
                for alt in e.alts:
                    s3 = s.copy()
                    alt(s3)
                    work.append(s3)
            except PathEnd:
                self.commit(outer)

    def reach(self, st, f, fr, body):
        """places a loop can get at: the locals it mentions, through references and what its closures capture -> [(local, place, value)]"""
        text = "\n".join(l for b in body for l in f.blocks[b][1] if not re.match(r"Storage(Live|Dead)", l))
        out, seen = [], set()
        def go(n, loc, v, depth):
            if depth > 6:
                return
            while isinstance(v, Ptr) and v.cell in st.cells:
                loc = (v.cell, v.path)
                try:
                    v = self.read_loc(st, v)
                except (PathEnd, Unsupported):
                    return
            if isinstance(v, Clo):
                for i, x in enumerate(v.caps):
                    go(n, (loc[0], loc[1] + (i,)), x, depth + 1)
            elif loc not in seen:
                seen.add(loc)
                out.append((n, loc, v))
        for n in sorted(fr):
            if re.search(r"\b_%d\b" % n, text):
                go(n, (fr[n], ()), st.cells[fr[n]], 0)
        return out

    def live_at(self, f, bb, body, n):
        """is local n read in the loop before it is written?"""
        seen, work = set(), [bb]
        while work:
            b = work.pop()
            if b in seen or b not in body:
                continue
            seen.add(b)
            killed = False
            for line in f.blocks[b][1]:
                if re.match(r"Storage(Live|Dead)", line):
                    continue
                m = re.match(r"_%d = (.*)" % n, line)
                if re.search(r"\b_%d\b" % n, m.group(1) if m else line):
                    return True
                if m:
                    killed = True
                    break
            if not killed and f.blocks[b][1]:
                work += [int(x) for x in re.findall(r"bb(\d+)", f.blocks[b][1][-1])]
        return False

    def locals_of_type(self, f, pred):
        return [n for n, ty in sorted(f.locals.items()) if pred(ty)]

    def assigned_in(self, f, body):
        out = set()
        for b in body:
            for line in f.blocks[b][1]:
                s = M.parse_stmt(line)
                if s and s[0] in ("assign", "call") and s[1][0] == "local":
                    out.add(s[1][1])
        return out

def balanced(s):
    d = 0
    for ch in s:
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
            if d < 0:
                return False
    return d == 0
