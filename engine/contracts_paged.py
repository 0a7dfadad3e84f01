"""Contracts of paged collections, over the contracts of the map, of prefix search and of sequences."""
import re, copy
from contract import Contract as C, subst
from symex import *
import builtins_ as Bi
from mirparse import Unsupported
import verus
import contracts_tree as CT
import contracts_wit as CW
import contracts_mod as CM
import contracts_pfx as CP
import contracts_seq as CS
import seqsem
CONTRACTS = dict(CT.CONTRACTS)
for k in CW.CONTRACTS:
    if k.startswith("Map::") or k.startswith("<Map as") or k.startswith("<RbTree as AsHashTree>") or k == "RbTree::witness":
        CONTRACTS[k] = CW.CONTRACTS[k]
for k in ("RbTree::new", "Map::new"):
    CONTRACTS[k] = CM.CONTRACTS[k]
for k in ("Seq::new", "Seq::with_capacity", "<Seq as Default>::default", "Seq::append", "Seq::len", "Seq::is_empty", "Seq::as_vec", "Seq::iter"):
    CONTRACTS[k] = CS.CONTRACTS[k]

def instance(c):
    """the contract of a function of the generic map at Q = the user key"""
    c = copy.copy(c)
    c.params = [p.replace("v:Q:", "v:UK:") for p in c.params]
    ren = lambda xs: [(l, verus.rename(t, "paged")) for l, t in xs]
    c.pre, c.post = ren(c.pre), ren(c.post)
    return c
for k in ("RbTree::max_entry_with_prefix", "RbTree::modify_max_with_prefix"):
    CONTRACTS[k] = instance(CP.CONTRACTS[k])
KEYS = []
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c

tree_inv = CT.tree_inv
def emit_pre(con, ex, st, env):
    for lab, txt in con.pre:
        t = subst(txt, env)
        if lab != "assume" and t not in st.facts:
            ex.emit(st, lab, "precondition of %s: %s" % (con.key, txt), t, "pre")

def modify_max(con, ex, st, args, g):
    """executes the caller's closure on the last entry with the prefix, if there is one"""
    f = args[2]
    if not isinstance(f, Clo):
        return NotImplemented
    env, late = CM.take_tree(con, ex, st, args[0])
    q = env["q"] = ex.term(st, args[1], "UK")
    emit_pre(con, ex, st, env)
    for fn in late:
        fn()
    st.fact("{n2} == {n}".format(**env))
    if env["t"] == ex.cenv.get("t") and "m" in ex.cenv:
        st.hints = st.hints + ("lemma_last(%s, %s, %s);" % (env["t"], ex.cenv["m"], q),)
    s0 = st.copy()
    s0.fact(subst("upmax({t}, {q}) is None && {t2} == {t}", env))
    out = [(s0, Bi.NONE)]
    s1 = st
    e = ex.fresh(s1, "entry", "E")
    s1.fact(subst("upmax({t}, {q}) == Some(%s)" % e, env))
    v = ex.fresh(s1, "val", "V")
    s1.fact("%s == %s.v" % (v, e))
    k = ex.fresh(s1, "key", "K")
    s1.fact("%s == %s.k" % (k, e))
    cell = ex.new_cell(s1, S(v, "V"))
    for s2, r in ex.call_value(s1, f, [S(k, "K"), Ptr(cell, ())]):
        e2 = dict(env)
        e2["nv"] = con.name(ex, s2, "nv", "V", ex.term(s2, s2.cells[cell], "V"))
        s2.fact(subst("umodp({t}, {t2}, {q}, {nv}) && shape({t}, {t2}) && hok({t2})", e2))
        for t in tree_inv("t2", "n2"):
            s2.fact(subst(t[1], e2))
        if isinstance(r, Ptr) and r.cell == cell:
            raise Unsupported("closure returns a reference")
        out.append((s2, Agg("Option", "Some", (r,))))
    return out
CONTRACTS["RbTree::modify_max_with_prefix"].native = modify_max

def get_with(con, ex, st, args, g):
    """the caller's comparator must order the position the caller means against every key's"""
    f = args[1]
    if isinstance(f, (Ptr, Ref)):
        f = Bi.val(ex, st, f)
    if not isinstance(f, Clo) or "cpos" not in ex.cenv:
        return NotImplemented
    x = subst(ex.cenv["cpos"], ex.cenv)
    env = {}
    con.take(ex, st, args[0], "rb:t:n", env, [])
    for lab, txt in con.pre:
        t = subst(txt, env)
        if t not in st.facts:
            ex.emit(st, lab, "precondition of %s: %s" % (con.key, txt), t, "pre")
    s1 = st.copy()
    k = ex.fresh(s1, "anykey", "K")
    for s2, r in ex.call_value(s1, f, [S(k, "K")]):
        if isinstance(r, S) and r.sort == "Ord":
            a, b = r.t
            ex.emit(s2, "C13", "the comparator of %s orders page keys by user key, then page" % ex.fnname,
                    "((%s) < (%s)) == (%s < rk(%s)) && ((%s) == (%s)) == (%s == rk(%s))" % (a, b, x, k, a, b, x, k))
        elif isinstance(r, Agg) and r.name == "Ordering":
            op = {"Less": "<", "Equal": "==", "Greater": ">"}[r.var]
            ex.emit(s2, "C13", "the comparator of %s orders page keys by user key, then page" % ex.fnname, "%s %s rk(%s)" % (x, op, k))
        else:
            raise Unsupported("comparator result %r" % (r,))
    r = ex.fresh(st, "found", "Option<V>")
    st.fact("%s == valof(at(%s, %s))" % (r, env["t"], x))
    return [(st, S(r, "Option<V>"))]
CONTRACTS["RbTree::get_with"] = copy.copy(CONTRACTS["RbTree::get_with"])
CONTRACTS["RbTree::get_with"].native = get_with

# ---- the page key
def ordret(con, ex, st, v, env):
    v = ex.expand(st, v) if not (isinstance(v, S) and v.sort == "Ord") else v
    if isinstance(v, Agg) and v.name == "Option":
        if v.var != "Some":
            env["lt"] = env["eq"] = "arbitrary()"
            return
        v = v.fields[0]
    if isinstance(v, S) and v.sort == "Ord":
        env["lt"], env["eq"] = "(%s) < (%s)" % v.t, "(%s) == (%s)" % v.t
    else:
        env["lt"], env["eq"] = str(v.var == "Less").lower(), str(v.var == "Equal").lower()
KP = ["ref", ["struct", "PagedKey", {"key": "v:UK:a", "page": "v:int:p"}]]
KP2 = ["ref", ["struct", "PagedKey", {"key": "v:UK:b", "page": "v:int:q"}]]
PG = [("assume", "pgn({p})"), ("assume", "pgn({q})")]
ORD = [("C13 C14", "({lt}) == (pos(urk({a}), {p}) < pos(urk({b}), {q}))"), ("C13 C14", "({eq}) == (pos(urk({a}), {p}) == pos(urk({b}), {q}))")]
add("<PagedKey as Ord>::cmp", [KP, KP2], ordret, pre=PG, post=ORD, hints=["lemma_lex(urk({a}), {p}, urk({b}), {q});"])
add("<PagedKey as PartialOrd>::partial_cmp", [KP, KP2], ordret, pre=PG, post=ORD, hints=["lemma_lex(urk({a}), {p}, urk({b}), {q});"])
for op, sym in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
    add("<PagedKey as PartialOrd>::" + op, [KP, KP2], "v:bool:r", pre=PG, post=[("C13 C14", "{r} == (pos(urk({a}), {p}) %s pos(urk({b}), {q}))" % sym)],
        hints=["lemma_lex(urk({a}), {p}, urk({b}), {q});"], optional=True)
add("<PagedKey as PartialEq>::eq", [KP, KP2], "v:bool:r", pre=PG, post=[("C13 C14", "{r} == (pos(urk({a}), {p}) == pos(urk({b}), {q}))")], hints=["lemma_lex(urk({a}), {p}, urk({b}), {q});"])
add("<PagedKey as Borrow>::borrow", [KP], "v:UK:r", pre=PG[:1], post=[("C13 C14", "{r} == {a}")])
add("label::Prefix::is_prefix", ["v:K:k", "v:UK:q"], "v:bool:r", post=[("C13 C14", "{r} == uisp({q}, {k})")])
add("<PagedKey as Prefix>::is_prefix", [KP, "v:UK:q"], "v:bool:r", pre=PG[:1], post=[("C13 C14", "{r} == (urk({a}) == urk({q}))")], optional=True)

# ---- the collection
PM = "rbm:t:n:Paged/Map"
PR = "rb:t:n:Paged/Map"
G = [("m", "M")]
INV = tree_inv("t", "n") + [("C13", "rep({t}, {m})")]
INV2 = tree_inv("t2", "n2")
for k in ("Paged::new", "<Paged as Default>::default"):
    add(k, [], "rbv:t:n:Paged/Map", post=tree_inv("t", "n") + [("C13", "rep({t}, nom())")], hints=["ax_sz();"], extra="lemma_empty();")
ITEMS = "{m}(urk({k}))"
add("Paged::insert", [PM, "v:UK:k", "v:I:x"], "unit", pre=INV + [("assume", "{n} < UMAX()"), ("assume", ITEMS + ".len() < CAP()")], ghost=G,
    post=INV2 + [("C13", "rep({t2}, upd({m}, urk({k}), %s.push({x})))" % ITEMS)],
    hints=["lemma_ins({t}, {m}, {k}, {x});", "ax_sz();"])
LAST = "lastpage(%s)" % ITEMS
def cpos(ex, st, env, vals):
    env["cpos"] = "pos(urk({k}), {p})"
add("Paged::get", [PR, "v:UK:k", "v:int:p"], "v:Option<V>:r", pre=INV + [("assume", "0 <= {p} <= UMAX()")], ghost=G, setup=cpos,
    post=[("C13", "valseq({r}) == page(%s, {p})" % ITEMS), ("C13", "{r} matches Some(v) ==> vs_h(v) == chain(vs_s(v))")], hints=["lemma_far({t}, {m}, {k}, {p});"],
    extra="broadcast use ax_pk_b, ax_mkpk_b;")
add("Paged::get_last_page_number", [PR, "v:UK:k"], "v:Option<int>:r", pre=INV, ghost=G, post=[("C13", "{r} == " + LAST)], hints=["lemma_last({t}, {m}, {k});"])
# ---- certification
WPRE = INV
AT = "at({t}, pos(urk({k}), {p}))"
add("Paged::witness", [PR, "v:UK:k", "v:int:p"], "v:HT:u", pre=WPRE + [("assume", "0 <= {p} <= UMAX()")], ghost=G, hints=["lemma_page({t}, {m}, {k}, {p});"],
    post=[("C14", "recon({u}) == nh({t})"),
          ("C14", "pgn({p}) && page(%s, {p}) is Some ==> view({u}) == seen({t}, Sel::One(pos(urk({k}), {p}), ALLV())) && shows({t}, pos(urk({k}), {p}), page(%s, {p})->Some_0)" % (ITEMS, ITEMS)),
          ("C14", "pgn({p}) && page(%s, {p}) is None ==> exists|lo: Option<KB>, hi: Option<KB>| is_lo({t}, pos(urk({k}), {p}), lo) && is_hi({t}, pos(urk({k}), {p}), hi) && view({u}) == #[trigger] seen({t}, Sel::R(lo, hi, FT::Wit))" % ITEMS)])
CONTRACTS["Paged::witness"].post.append(("C14", "!pgn({p}) ==> exists|lo: Option<KB>, hi: Option<KB>| is_lo({t}, pos(urk({k}), 4294967295), lo) && is_hi({t}, pos(urk({k}), 4294967295), hi) && view({u}) == #[trigger] seen({t}, Sel::R(lo, hi, FT::Wit))"))
add("Paged::witness_last_page_number", [PR, "v:UK:k"], "v:HT:u", pre=WPRE, ghost=G, hints=["lemma_last({t}, {m}, {k});", "lemma_page({t}, {m}, {k}, nextpage(%s));" % ITEMS],
    post=[("C14", "recon({u}) == nh({t})"),
          ("C14", "exists|lo: Option<KB>, hi: Option<KB>| view({u}) == #[trigger] seen({t}, Sel::R(lo, hi, FT::Wit)) && tells_last({t}, {k}, %s, lo, hi)" % LAST)])
add("<Paged as AsHashTree>::root_hash", [PR], "v:H:h", pre=WPRE, ghost=G, post=[("C14", "{h} == nh({t})")])
add("<Paged as AsHashTree>::as_hash_tree", [PR], "v:HT:u", pre=WPRE, ghost=G, post=[("C14", "recon({u}) == nh({t})"), ("C14", "view({u}) == seen({t}, Sel::R(None, None, FT::Data))")])

# ---- serializing (the derived implementations): a record of the pages; a page key is a record of the key and the page number
def word(t):
    return "seq![%s]" % ", ".join("'%s'" % c for c in t)
def rec(*fs):
    return "seq![%s]" % ", ".join("(%s, FV::%s)" % (word(n), x) for n, x in fs)
KS = ["ref", ["struct", "PagedKey", {"key": "v:UK:k", "page": "v:int:p"}]]
for key, prm, pre, gh, name, fs in (("Paged", PR, INV, G, "Paged", [("data", "Pages({t})")]),
                                    ("PagedKey", KS, PG[:1], [], "PagedKey", [("key", "Key({k})"), ("page", "Page({p})")])):
    add("<%s as Serialize>::serialize" % key, [prm, "v:Ser:s"], "v:Result<SOut, SErr>:r", pre=pre, ghost=gh,
        post=[("C19", "{r} is Ok ==> {r}->Ok_0 == recout({s}, %s, %d, %s)" % (word(name), len(fs), rec(*fs))), ("C19", "{r} is Err ==> given({r}->Err_0)")])
    def idl(con, ex, st, v, env):
        v = ex.expand(st, v)
        env["ok"] = "true" if v.var == "Ok" else "false"
        env["bad"] = "false" if v.var == "Ok" else "!given(%s)" % ex.term(st, v.fields[0], "SErr")
        s, got = st.ghost.get("rec", (None, ()))
        env["out"] = "seq![%s]" % ", ".join(got) if got else "Seq::<FV>::empty()"
        env["to"] = s or "arbitrary::<Ser>()"
    add("<%s as CandidType>::idl_serialize" % key, [prm, "v:Ser:s"], idl, pre=pre, ghost=gh,
        post=[("C19", "{ok} ==> {to} == {s} && {out} =~= seq![%s]" % ", ".join("FV::" + x for _, x in fs)), ("C19", "!{bad}")])
def fval(ex, st, v):
    for _ in range(9):
        v = Bi.val(ex, st, v)
        if not isinstance(v, BoxC):
            break
        v = ex.cell_get(st, v.cell)
    if isinstance(v, S) and v.sort == "UK":
        return "FV::Key(%s)" % v.t
    if isinstance(v, S) and v.sort == "int":
        return "FV::Page(%s)" % v.t
    if isinstance(v, Agg) and v.name in ("Map", "RbTree"):
        rb = v.fields[0] if v.name == "Map" else v
        return "FV::Pages(%s)" % ex.fold(st, rb.fields[ex.prog.structs["RbTree"].index("root")], consume=False)
    raise Unsupported("serialized form of %r" % (v,))
def serialize(ex, st, c, args):
    """what a record serializer is given; it may fail at every step, with an error of its own"""
    def bad():
        s2 = st.copy()
        e = ex.fresh(s2, "err", "SErr")
        s2.fact("given(%s)" % e)
        return (s2, Agg("Result", "Err", (S(e, "SErr"),)))
    text = lambda v: word(v.var.strip('"')) if isinstance(v, Agg) and v.name == "str" and re.match(r'"\w*"$', v.var) else None
    if re.match(r"<\w+ as (?:\w+::)*Serializer>::serialize_struct$", c) and isinstance(args[0], S) and args[0].sort == "Ser":
        b = bad()
        if len(args) == 1:
            st.ghost["rec"] = (args[0].t, ())
            return [b, (st, Agg("Result", "Ok", (Agg("Compound", None, ()),)))]
        name = text(Bi.val(ex, st, args[1]))
        if name is not None:
            return [b, (st, Agg("Result", "Ok", (Agg("StructSer", (args[0].t, name, ex.as_int(st, args[2])), ()),)))]
    if re.match(r"<<\w+ as (?:\w+::)*Serializer>::SerializeStruct as (?:\w+::)*SerializeStruct>::serialize_field(::<.*>)?$", c) and isinstance(args[0], Ptr):
        q, name = ex.read_loc(st, args[0]), text(Bi.val(ex, st, args[1]))
        if isinstance(q, Agg) and q.name == "StructSer" and name is not None:
            x = fval(ex, st, args[2])
            b = bad()
            ex.write(st, ("cell", args[0].cell, args[0].path), Agg("StructSer", q.var + ("(%s, %s)" % (name, x),), ()))
            return [b, (st, Agg("Result", "Ok", (UNIT,)))]
    if re.match(r"<<\w+ as (?:\w+::)*Serializer>::SerializeStruct as (?:\w+::)*SerializeStruct>::end$", c) and isinstance(args[0], Agg) and args[0].name == "StructSer":
        q = args[0].var
        fs = "seq![%s]" % ", ".join(q[3:]) if q[3:] else "Seq::empty()"
        return [bad(), (st, Agg("Result", "Ok", (S("recout(%s, %s, %s, %s)" % (q[0], q[1], q[2], fs), "SOut"),)))]
    if re.match(r"<<\w+ as (?:\w+::)*Serializer>::Compound as (?:\w+::)*Compound>::serialize_element(::<.*>)?$", c) and isinstance(args[0], Ptr) and "rec" in st.ghost:
        x = fval(ex, st, args[1])
        b = bad()
        st.ghost["rec"] = (st.ghost["rec"][0], st.ghost["rec"][1] + (x,))
        return [b, (st, Agg("Result", "Ok", (UNIT,)))]
    return NotImplemented

def structs_K(ex, st, v):
    return Agg("PagedKey", None, tuple({"key": S("pk(%s)" % v.t, "UK"), "page": S("pn(%s)" % v.t, "int")}[n] for n in fields(ex, "PagedKey", {"key", "page"})))
def structs_V(ex, st, v):
    return Agg("Seq", None, tuple({"hash": S("vs_h(%s)" % v.t, "H"), "items": S("vs_s(%s)" % v.t, "Seq<I>")}[n] for n in fields(ex, "Seq", {"hash", "items"})))
def fields(ex, name, want):
    f = ex.prog.structs.get(name)
    if f is None or set(f) != want:
        raise Unsupported("struct %s has fields %s" % (name, f))
    return f
def term(ex, st, v, sort):
    if isinstance(v, Agg) and v.name == "PagedKey" and sort in ("K", "Q"):
        f = fields(ex, "PagedKey", {"key", "page"})
        p = ex.as_int(st, v.fields[f.index("page")])
        t = "mkpk(%s, %s)" % (ex.term(st, v.fields[f.index("key")], "UK"), p)
        if sort == "K":
            return t
        st.fact("rq(bq(%s)) == rk(%s)" % (t, t))
        return "bq(%s)" % t
    if isinstance(v, Agg) and v.name == "Seq" and sort == "V":
        f = fields(ex, "Seq", {"hash", "items"})
        return "mkv(%s, %s)" % (ex.term(st, v.fields[f.index("hash")], "H"), ex.term(st, v.fields[f.index("items")], "Seq<I>"))
    if isinstance(v, (Clo, FnP)):
        return CW.term(ex, st, v, sort)
    return None
def rank(ex, st, v):
    if isinstance(v, S) and v.sort == "UK":
        return "urk(%s)" % v.t
    if isinstance(v, S) and v.sort == "K":
        return "rk(%s)" % v.t
    # tuples are ordered lexicographically; page numbers are u32
    if isinstance(v, Agg) and v.name == "tuple" and len(v.fields) == 2:
        a, b = (Bi.val(ex, st, x) for x in v.fields)
        if isinstance(a, S) and a.sort == "UK" and isinstance(b, S) and b.sort == "int":
            return "pos(urk(%s), %s)" % (a.t, b.t)
    if isinstance(v, Agg) and v.name == "PagedKey":
        f = fields(ex, "PagedKey", {"key", "page"})
        return "pos(%s, %s)" % (rank(ex, st, Bi.val(ex, st, v.fields[f.index("key")])), ex.as_int(st, v.fields[f.index("page")]))
    return None
def const(ex, st, c):
    if c in ("S", "{const S: usize}"):
        return S("SZ()", "int")
    m = re.match(r"core::num::<impl (u8|u16|u32|u64|usize)>::MAX$|(u8|u16|u32|u64|usize)::MAX$", c)
    if m:
        return S(INTMAX[m.group(1) or m.group(2)], "int")
    return None
def builtin(ex, st, c, args, last):
    v = lambda i: Bi.val(ex, st, args[i])
    m = re.match(r"<(u8|u16|u32|u64|usize) as (?:std::convert::)?TryFrom<(\w+)>>::try_from$", c) or re.match(r"<(\w+) as (?:std::convert::)?TryInto<(u8|u16|u32|u64|usize)>>::try_into$", c)
    if m:
        x = ex.as_int(st, v(0))
        ty = m.group(1) if "try_from" in c else m.group(2)
        if ex.split_bool(st, "0 <= %s <= %s" % (x, INTMAX[ty])):
            return Agg("Result", "Ok", (S(x, "int"),))
        return Agg("Result", "Err", (Agg("TryFromIntError", None, ()),))
    if re.match(r"(?:std::result::|core::result::)?Result::<", c):
        r = ex.expand(st, args[0])
        if last == "unwrap_or":
            return r.fields[0] if r.var == "Ok" else args[1]
        if last in ("unwrap_or_else", "map_or_else", "or_else") and r.var == "Ok" and last == "unwrap_or_else":
            return r.fields[0]
        if last == "unwrap_or_else":
            return ex.call_value(st, args[1], [r.fields[0]])
    r = serialize(ex, st, c, args)
    if r is not NotImplemented:
        return r
    return seqsem.builtin(ex, st, c, args, last)
def borrow(ex, st, c, x):
    # PagedKey: Borrow<user key> (its contract)
    if isinstance(x, S) and x.sort == "K":
        return S("ubk(%s)" % x.t, "UK")
def cast(ex, st, v, ty, kind):
    # a page number fits every wider type
    if kind == "IntToInt" and isinstance(v, S) and v.sort == "int" and ty in ("usize", "u64", "u128", "i64", "i128"):
        m = re.match(r"pn\(.*\)$", v.t)
        if m and balanced(v.t[3:-1]):
            return v
    return None
EXTRA = "broadcast use lemma_wide, lemma_at_bounds, ax_rank_b, ax_pk_b, ax_mkpk_b, ax_mkv_b, lemma_upmax_b, ax_vt_b;"
FUEL = []
LOOPS = {}
ENV = {"borrow": "exact"}
HOOKS = {"structs": {"K": structs_K, "V": structs_V}, "term": term, "rank": rank, "const": const, "builtin": builtin, "cast": cast, "borrow": borrow}
THEORY = ["tree.rs", "wit.rs", "mod.rs", "paged.rs", "pfx.rs:paged", "paged2.rs"]
ALL = KEYS
