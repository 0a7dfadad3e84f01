"""Contracts: one declaration, used both to check a function and at every call of it."""
import re
from mirparse import Unsupported
from symex import *

ADAPTED = {}
def subst(text, env):
    return re.sub(r"\{(\w+)\}", lambda m: str(env[m.group(1)]), text)

def unwrap(rb):
    """RbTree inside the structs that only wrap it"""
    wraps = []
    while isinstance(rb, Agg) and rb.name in ("Map", "Paged") and len(rb.fields) == 1:
        wraps.append(rb.name)
        rb = rb.fields[0]
    if not (isinstance(rb, Agg) and rb.name == "RbTree"):
        raise Unsupported("RbTree expected")
    return wraps, rb

def rewrap(wraps, v):
    for w in reversed(wraps):
        v = Agg(w, None, (v,))
    return v

class Contract:
    """key: function;  params: parameter shapes;  ret: result shape;
    pre / post: [(label, text)] over the names introduced by the shapes ({name} in the text).
    measure: text of an integer term that decreases at recursive calls.

    shapes   own:t      owning tree pointer with tree t
             ro:t       pointer into a tree that is only read
             v:SORT:x   value (or shared reference to a value) with term x
             m:SORT:x   &mut to a value; its final value is x2
             rb:t:n     &RbTree with tree t and length n        (read only)
             rbm:t:n    &mut RbTree, final tree t2 and length n2
             rbd:t:n    &mut RbTree that is being dropped
             rom:u      pointer to a tree that is only read, in a place that changes: it finally points to u2
             vm:SORT:x  value in a place that changes (inside a struct behind &mut); finally x2
             pv:p       &mut V into the tree
             io:t       pointer to a tree that is changed in place; final tree t2
             np:p       pointer to the node with address p of a map's tree
             fm:g       a visitor closure with state g; its final state is g2
             ["struct", name, {field: shape}]
             any        ignored
    ghost: [(name, sort)] logical variables;  optional: the function need not exist (then it is not there to be wrong)
             ["agg", name, var, shapes...]"""
    def __init__(self, key, params, ret, pre=(), post=(), measure=None, hints=(), native=None, lemmas=(), setup=None, exc=None, extra=None, ghost=(), optional=False, refuse=None):
        self.ghost, self.optional = list(ghost), optional
        self.refuse = refuse        # text: the function panics exactly when this holds (postconditions say it did not hold)
        self.before = None          # run on every returned value before the final states are read
        self.extra = extra
        self.key, self.params, self.ret = key, params, ret
        self.pre, self.post, self.measure = list(pre), list(post), measure
        self.hints = list(hints)
        self.native = native
        self.setup = setup
        self.exc = exc

    def adapt(self, ex):
        """a precondition ("node", t) -- t is not empty -- is asked only when the body itself fails on the empty tree"""
        if not hasattr(self, "pre0"):
            self.pre0 = self.pre
        if not any(lab == "node" for lab, _ in self.pre0):
            return
        key = (id(ex.prog), self.key)
        if key not in ADAPTED:
            ADAPTED[key] = None
            g = ex.prog.get(self.key.split("#")[0])
            sub = Exec(ex.prog, ex.contracts, ex.env)
            sub.loops, sub.hooks, sub.pending = ex.loops, ex.hooks, None
            sub.fnname, sub.measure, sub.measure_keys = self.key, None, set()
            need = True
            try:
                st, env = State(), {}
                vals = [Null() if isinstance(sp, str) and sp.split(":")[1:] == [t for lab, t in self.pre0 if lab == "node"] else self.make(sub, st, sp, env) for sp in self.params]
                sub.cenv = env
                outs = sub.exec_fn(st, g, vals)
                need = bool(sub.obls) or not outs
            except (Unsupported, PathEnd, NeedSplit):
                pass
            ADAPTED[key] = need
        need = ADAPTED[key]
        self.pre = [(("C04", "isn({%s})" % t) if need is not False else None) if lab == "node" else (lab, t) for lab, t in self.pre0]
        self.pre = [x for x in self.pre if x]

    # ---------------------------------------------------------------- at a call
    def apply(self, ex, st, args, g):
        self.adapt(ex)
        if self.native:
            r = self.native(self, ex, st, args, g)
            if r is not NotImplemented:
                return r
        if len(args) != len(self.params):
            raise Unsupported("%s takes %d parameters, its contract %d" % (self.key, len(args), len(self.params)))
        env = {}
        late = []
        for a, sp in zip(args, self.params):
            self.take(ex, st, a, sp, env, late)
        for x, _ in self.ghost:
            # what the caller's own logical variable stands for is what it is called with
            if x not in env:
                if ex.cenv.get("t") is None or env.get("t") != ex.cenv["t"] or x not in ex.cenv:
                    raise Unsupported("no value for the logical variable of " + self.key)
                env[x] = ex.cenv[x]
        for lab, txt in self.pre:
            t = subst(txt, env)
            if lab != "assume" and t not in st.facts:
                ex.emit(st, lab, "precondition of %s: %s" % (self.key, txt), t, "pre")
        if self.measure and ex.measure and self.key in ex.measure_keys:
            ex.emit(st, "C04", "%s terminates: %s" % (self.key, self.measure), "%s < %s" % (subst(self.measure, env), ex.measure), "decreases")
        if self.refuse:
            t = subst(self.refuse, env)
            ex.emit(st, ex.plabel(), "%s refuses only what its caller refuses" % self.key, "(%s) ==> %s" % (t, ex.refuse or "false"), "pre")
            st.fact("!(%s)" % t)
        for fn in late:
            fn()
        r = self.give(ex, st, self.ret, env)
        for lab, txt in self.post:
            st.fact(subst(txt, env))
        return [(st, r)]

    def take(self, ex, st, a, sp, env, late, at=None):
        if isinstance(sp, list):
            if sp[0] == "agg":
                v = ex.expand(st, a)
                for x, s in zip(v.fields, sp[3:]):
                    self.take(ex, st, x, s, env, late)
                return
            if sp[0] == "struct":
                v = ex.expand(st, self.aggof(ex, st, a))
                for f, s in sp[2].items():
                    i = ex.prog.structs[sp[1]].index(f)
                    self.take(ex, st, v.fields[i], s, env, late, at and (at[0], at[1] + (i,)))
                return
            if sp[0] == "ref":
                if not isinstance(a, Ptr):
                    raise Unsupported("reference expected")
                self.take(ex, st, ex.read_loc(st, a), sp[1], env, late, (a.cell, a.path))
                return
            raise Unsupported("shape")
        k = sp.split(":")
        if k[0] in ("rom", "vm"):
            if at is None:
                raise Unsupported("place expected")
            x, sort = (k[1], "T") if k[0] == "rom" else (k[2], k[1])
            env[x] = ex.fold(st, a, consume=False) if k[0] == "rom" else ex.term(st, a, sort)
            n2 = env[x + "2"] = ex.fresh(st, x, sort)
            late.append(lambda: ex.write(st, ("cell",) + at, FP(n2) if k[0] == "rom" else S(n2, sort)))
            return
        if k[0] == "io":
            if isinstance(a, Null):
                env[k[1]] = env[k[1] + "2"] = "T::L"
                return
            if not isinstance(a, TP):
                raise Unsupported("%s is called on %r" % (self.key, a))
            env[k[1]] = ex.fold(st, a)
            st.res.pop(a.cid, None)
            t2 = ex.fresh(st, k[1], "T")
            env[k[1] + "2"] = t2
            late.append(lambda: st.chunks.__setitem__(a.cid, t2))
            return
        if k[0] == "own":
            env[k[1]] = ex.fold(st, a)
        elif k[0] == "ro":
            env[k[1]] = ex.fold(st, a, consume=False)
        elif k[0] == "v":
            env[k[2]] = ex.term(st, a, k[1])
        elif k[0] == "m":
            if not isinstance(a, Ptr):
                raise Unsupported("mutable reference expected")
            env[k[2]] = ex.term(st, ex.read_loc(st, a), k[1])
            n2 = ex.fresh(st, k[2], k[1])
            env[k[2] + "2"] = n2
            late.append(lambda: ex.write(st, ("cell", a.cell, a.path), S(n2, k[1])))
        elif k[0] in ("rb", "rbm"):
            p = a
            if isinstance(p, Ref):
                rb = p.v
            elif isinstance(p, Ptr):
                rb = ex.read_loc(st, p)
            else:
                raise Unsupported("reference to a tree expected")
            wraps, rb = unwrap(rb)
            fl = ex.prog.structs["RbTree"]
            il, ir = fl.index("len"), fl.index("root")
            env[k[1]] = ex.fold(st, rb.fields[ir], consume=(k[0] == "rbm"))
            env[k[2]] = ex.as_int(st, rb.fields[il])
            if k[0] == "rbm":
                t2, n2 = ex.fresh(st, "t", "T"), ex.fresh(st, "n", "int")
                env[k[1] + "2"], env[k[2] + "2"] = t2, n2
                def upd(t2=t2, n2=n2):
                    vals = {"len": S(n2, "int"), "root": ex.new_chunk(st, t2)}
                    v = rewrap(wraps, Agg("RbTree", None, tuple(vals[n] for n in fl)))
                    ex.write(st, ("cell", p.cell, p.path), v)
                late.append(upd)
        elif k[0] == "rbv":
            wraps, rb = unwrap(a)
            fl = ex.prog.structs["RbTree"]
            env[k[1]] = ex.fold(st, rb.fields[fl.index("root")])
            env[k[2]] = ex.as_int(st, rb.fields[fl.index("len")])
        elif k[0] == "rbd":
            rb = unwrap(ex.read_loc(st, a))[1]
            fl = ex.prog.structs["RbTree"]
            env[k[1]] = ex.fold(st, rb.fields[fl.index("root")])
            env[k[2]] = ex.as_int(st, rb.fields[fl.index("len")])
        elif k[0] == "any":
            pass
        else:
            raise Unsupported("shape " + sp)

    def aggof(self, ex, st, a):
        if isinstance(a, Ptr):
            return ex.read_loc(st, a)
        return a.v if isinstance(a, Ref) else a

    def give(self, ex, st, sp, env):
        if isinstance(sp, list) and sp[0] == "struct":
            return Agg(sp[1], None, tuple(self.give(ex, st, sp[2][f], env) for f in ex.prog.structs[sp[1]]))
        if isinstance(sp, list):
            return Agg(sp[1], sp[2], tuple(self.give(ex, st, s, env) for s in sp[3:]))
        k = sp.split(":")
        if k[0] == "own":
            t = ex.fresh(st, k[1], "T")
            env[k[1]] = t
            return ex.new_chunk(st, t)
        if k[0] == "ro":
            t = ex.fresh(st, k[1], "T")
            env[k[1]] = t
            return FP(t)
        if k[0] == "v":
            t = ex.fresh(st, k[2], k[1])
            env[k[2]] = t
            return S(t, k[1])
        if k[0] == "pv":
            t = ex.fresh(st, k[1], "int")
            env[k[1]] = t
            return IP(t, ex.nf("value"))
        if k[0] == "rbv":
            return self.mktree(ex, st, k, env, True)
        if k[0] == "unit":
            return UNIT
        if k[0] == "any":
            return Agg("PhantomData", None, ())
        raise Unsupported("shape " + str(sp))

    def mktree(self, ex, st, k, env, own):
        t = ex.fresh(st, k[1], "T"); env[k[1]] = t
        n = ex.fresh(st, k[2], "int"); env[k[2]] = n
        st.fact("0 <= %s <= UMAX()" % n)
        fl = ex.prog.structs["RbTree"]
        vals = {"len": S(n, "int"), "root": ex.new_chunk(st, t) if own else FP(t)}
        return rewrap(k[3].split("/") if len(k) > 3 else [], Agg("RbTree", None, tuple(vals[x] for x in fl)))

    # ---------------------------------------------------------------- checking the body
    def check(self, ex):
        g = ex.prog.get(self.key.split("#")[0])
        if g is None and self.optional:
            return 0
        if g is None:
            raise Unsupported("function not found: " + self.key)
        ex.fnname = self.key
        ex.paths = 0
        self.adapt(ex)
        st = State()
        env = {}
        for x, sort in self.ghost:
            env[x] = ex.fresh(st, x, sort)
        vals = [self.make(ex, st, sp, env) for sp in self.params]
        if len(vals) != len(g.args):
            raise Unsupported("%s takes %d parameters, its contract %d" % (self.key, len(g.args), len(vals)))
        for lab, txt in self.pre:
            st.fact(subst(txt, env))
        st.hints = tuple(subst(h, env) for h in self.hints)
        if self.setup:
            self.setup(ex, st, env, vals)
        ex.measure = subst(self.measure, env) if self.measure else None
        ex.measure_keys = {self.key}
        ex.refuse = subst(self.refuse, env) if self.refuse else None
        ex.rlabel = self.post[0][0] if self.refuse else ""
        entry = dict(env)
        ex.cenv = entry
        outs = ex.exec_fn(st, g, vals)
        n = 0
        work = [(s, v, 0) for s, v in outs]
        while work:
            s, v, _ = work.pop()
            ex.pending = []
            s2 = s.copy()
            try:
                self.finish(ex, s2, v, dict(entry), vals)
                for o in ex.pending:
                    ex.obls.append(o)
                ex.pending = None
                n += 1
            except NeedSplit as e:
                ex.pending = None
                for alt in e.alts:
                    s3 = s.copy()
                    alt(s3)
                    work.append((s3, v, 0))
            except PathEnd:
                for o in ex.pending:
                    ex.obls.append(o)
                ex.pending = None
                n += 1
            finally:
                ex.pending = None
        if n + ex.paths == 0:
            raise Unsupported("no path through " + self.key)
        return n

    def make(self, ex, st, sp, env):
        if isinstance(sp, list):
            if sp[0] == "struct":
                fl = ex.prog.structs.get(sp[1])
                if fl is None or set(fl) != set(sp[2]):
                    raise Unsupported("struct %s has fields %s" % (sp[1], fl))
                # in the order of the shape, so that later fields may refer to earlier ones
                vals = {f: self.make(ex, st, s, env) for f, s in sp[2].items()}
                return Agg(sp[1], None, tuple(vals[f] for f in fl))
            if sp[0] == "agg":
                return Agg(sp[1], sp[2], tuple(self.make(ex, st, s, env) for s in sp[3:]))
            if sp[0] == "ref":
                return Ptr(ex.new_cell(st, self.make(ex, st, sp[1], env)), ())
        k = sp.split(":")
        if k[0] in ("own", "io"):
            t = ex.fresh(st, k[1], "T"); env[k[1]] = t
            return ex.new_chunk(st, t)
        if k[0] == "ro":
            t = ex.fresh(st, k[1], "T"); env[k[1]] = t
            return FP(t)
        if k[0] == "np":
            t = ex.fresh(st, k[1], "int"); env[k[1]] = t
            return IP(t, None)
        if k[0] == "rom":
            t = ex.fresh(st, k[1], "T"); env[k[1]] = t
            return FP(t)
        if k[0] == "vm":
            t = ex.fresh(st, k[2], k[1]); env[k[2]] = t
            return S(t, k[1])
        if k[0] == "any":
            return Agg("PhantomData", None, ())
        if k[0] == "fm":
            t = ex.fresh(st, k[1], "FM"); env[k[1]] = t
            return S(t, "FM")
        if k[0] == "v":
            t = ex.fresh(st, k[2], k[1]); env[k[2]] = t
            return S(t, k[1])
        if k[0] == "m":
            t = ex.fresh(st, k[2], k[1]); env[k[2]] = t
            return Ptr(ex.new_cell(st, S(t, k[1])), ())
        if k[0] in ("rb", "rbm", "rbv", "rbd"):
            v = self.mktree(ex, st, k, env, k[0] != "rb")
            return Ptr(ex.new_cell(st, v), ()) if k[0] in ("rbm", "rbd") else Ref(v) if k[0] == "rb" else v
        if k[0] == "pv":
            t = ex.fresh(st, k[1], "int"); env[k[1]] = t
            return IP(t, ex.nf("value"))
        raise Unsupported("shape " + sp)

    def finish(self, ex, st, v, env, vals):
        """one path has returned v: emit the postconditions"""
        eqs = []
        folds = []
        # pointers to values inside the tree first (folding consumes the nodes)
        self.bind_ptrs(ex, st, self.ret, v, env)
        if self.before:
            self.before(self, ex, st, v, env)
        for a, sp in zip(vals, self.params):
            self.finals(ex, st, a, sp, env)
        self.bind(ex, st, self.ret, v, env)
        # the height theorem is a consequence of the red-black invariants: named wherever it is promised
        st.hints = st.hints + tuple("lemma_height(%s);" % env[x] for _, txt in self.post for x in re.findall(r"balanced\(\{(\w+)\}\)", txt))
        for lab, txt in self.post:
            ex.emit(st, lab, "postcondition of %s: %s" % (self.key, txt), subst(txt, env), "post")
        self.leaks(ex, st)
        ex.emit(st, "reach", "reachable return of " + self.key, "false", "reach")

    def leaks(self, ex, st):
        for cid in list(st.focus):
            ex.unfocus(st, cid)
        for cid, t in st.chunks.items():
            if t != "T::L":
                ex.emit(st, "C04", "%s does not lose nodes" % self.key, "%s is L" % t, "leak")
        for c, val in st.cells.items():
            if isinstance(val, Agg) and val.name == "Node" and c in st.addr:
                ex.emit(st, "C04", "%s does not lose a node" % self.key, "false", "leak")

    def finals(self, ex, st, a, sp, env):
        if isinstance(sp, list):
            if sp[0] == "ref":
                self.finals(ex, st, ex.read_loc(st, a), sp[1], env)
            elif sp[0] == "struct":
                for f, s in sp[2].items():
                    self.finals(ex, st, a.fields[ex.prog.structs[sp[1]].index(f)], s, env)
            elif sp[0] == "agg":
                for x, s in zip(a.fields, sp[3:]):
                    self.finals(ex, st, x, s, env)
            return
        k = sp.split(":")
        if k[0] == "io":
            env[k[1] + "2"] = self.name(ex, st, k[1], "T", ex.fold(st, a))
        if k[0] == "fm":
            if "fm" not in st.ghost:
                raise Unsupported("final state of the visitor")
            env[k[1] + "2"] = st.ghost["fm"]
        if k[0] == "m":
            env[k[2] + "2"] = self.name(ex, st, k[2], k[1], ex.term(st, ex.read_loc(st, a), k[1]))
        if k[0] == "rom":
            env[k[1] + "2"] = self.name(ex, st, k[1], "T", ex.fold(st, a, consume=False))
        if k[0] == "vm":
            env[k[2] + "2"] = self.name(ex, st, k[2], k[1], ex.term(st, a, k[1]))
        if k[0] == "rbm":
            rb = unwrap(ex.read_loc(st, a))[1]
            fl = ex.prog.structs["RbTree"]
            env[k[1] + "2"] = self.name(ex, st, k[1], "T", ex.fold(st, rb.fields[fl.index("root")]))
            env[k[2] + "2"] = self.name(ex, st, k[2], "int", ex.as_int(st, rb.fields[fl.index("len")]))

    def name(self, ex, st, hint, sort, term):
        if re.match(r"\w+$", term):
            return term
        x = ex.fresh(st, hint, sort)
        st.fact("%s == %s" % (x, term))
        return x

    def bind_ptrs(self, ex, st, sp, v, env):
        if callable(sp):
            return
        if isinstance(sp, list) and sp[0] == "struct":
            v = ex.expand(st, v)
            if not isinstance(v, Agg) or v.name != sp[1]:
                raise Unsupported("result of %s is %r" % (self.key, v))
            for f, s in sp[2].items():
                self.bind_ptrs(ex, st, s, v.fields[ex.prog.structs[sp[1]].index(f)], env)
            return
        if isinstance(sp, list):
            v = ex.expand(st, v)
            if not isinstance(v, Agg) or v.name != sp[1] or v.var != sp[2]:
                raise Unsupported("result of %s is %r" % (self.key, v))
            for s, x in zip(sp[3:], v.fields):
                self.bind_ptrs(ex, st, s, x, env)
        elif sp.startswith("pv:"):
            env[sp.split(":")[1]] = ex.term(st, v, "PV")
        elif sp.startswith("v:"):
            k = sp.split(":")
            env[k[2]] = self.name(ex, st, k[2], k[1], ex.term(st, v, k[1]))

    def bind(self, ex, st, sp, v, env):
        if callable(sp):
            sp(self, ex, st, v, env)
            return
        if isinstance(sp, list) and sp[0] == "struct":
            v = ex.expand(st, v)
            if not isinstance(v, Agg) or v.name != sp[1]:
                raise Unsupported("result of %s is %r" % (self.key, v))
            for f, s in sp[2].items():
                self.bind(ex, st, s, v.fields[ex.prog.structs[sp[1]].index(f)], env)
            return
        if isinstance(sp, list):
            v = ex.expand(st, v)
            for s, x in zip(sp[3:], v.fields):
                self.bind(ex, st, s, x, env)
            return
        k = sp.split(":")
        if k[0] == "rbv":
            rb = unwrap(v)[1]
            fl = ex.prog.structs["RbTree"]
            env[k[1]] = self.name(ex, st, k[1], "T", ex.fold(st, rb.fields[fl.index("root")]))
            env[k[2]] = self.name(ex, st, k[2], "int", ex.as_int(st, rb.fields[fl.index("len")]))
        if k[0] == "own":
            env[k[1]] = self.name(ex, st, k[1], "T", ex.fold(st, v))
        elif k[0] == "ro":
            env[k[1]] = self.name(ex, st, k[1], "T", ex.fold(st, v, consume=False))

