"""Models of the library functions that handle bytes: slices, strings, Vec<u8>, Cow<[u8]>, SHA-256, number encodings, serializers."""
import re
from symex import *
import builtins_ as Bi

WIDTH = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "isize": 8, "f32": 4, "f64": 8}
SAME = {"as_slice", "as_bytes", "as_ref", "deref", "borrow", "into", "from", "to_vec", "to_owned", "into_boxed_slice", "into_vec", "as_str",
        "index", "clone", "into_owned", "into_bytes", "as_mut_slice", "into_boxed_str", "as_array", "to_string", "unwrap_or_clone", "into_string",
        "from_ref", "copied", "cloned", "from_utf8_unchecked"}

def lit(bs):
    return "seq![%s]" % ", ".join("%du8" % b for b in bs) if bs else "Seq::<u8>::empty()"

def strbytes(v):
    """bytes of a str or byte-string constant"""
    t = v.var[1:] if v.name == "bytes" else v.var
    t = t[1:-1]
    return list(bytes(t, "utf-8").decode("unicode_escape").encode("latin-1")) if "\\" in t else list(t.encode())

def is_bytes(v):
    return isinstance(v, S) and v.sort in ("B", "H", "Vec<u8>") or isinstance(v, Agg) and v.name in ("array", "Cow", "str", "bytes")

def chunks(ex, st, v):
    """list of pieces: bytes literals (python lists) and terms"""
    v = Bi.val(ex, st, v)
    if isinstance(v, S) and v.sort in ("B", "H"):
        return [v.t]
    if isinstance(v, Agg) and v.name in ("str", "bytes"):
        return [strbytes(v)]
    if isinstance(v, Agg) and v.name == "Cow":
        return chunks(ex, st, v.fields[0])
    if isinstance(v, Agg) and v.name == "array":
        out = []
        for x in v.fields:
            x = Bi.val(ex, st, x)
            if isinstance(x, S) and re.match(r"\d+$", x.t):
                out.append([int(x.t)])
            else:
                out.append("seq![(%s) as u8]" % ex.as_int(st, x))
        return out
    if isinstance(v, Agg) and v.name == "cat":
        return list(v.var)
    if isinstance(v, BoxC):
        return chunks(ex, st, ex.cell_get(st, v.cell))
    raise Unsupported("bytes expected: %r" % (v,))

def cat(parts):
    out = []
    for p in parts:
        if isinstance(p, list) and out and isinstance(out[-1], list):
            out[-1] = out[-1] + p
        elif p != []:
            out.append(p)
    ts = [lit(p) if isinstance(p, list) else p for p in out]
    if not ts:
        return lit([])
    t = ts[0]
    for x in ts[1:]:
        t = "%s + %s" % (t, x) if not t.startswith("if ") else "(%s) + %s" % (t, x)
    return t if len(ts) == 1 else "(%s)" % t

def term(ex, st, v, sort):
    if sort in ("B", "H") and (is_bytes(v) or isinstance(v, Agg) and v.name == "cat" or isinstance(v, BoxC)):
        return cat(chunks(ex, st, v))
    return None

def structs_nat(ex, st, v):
    return Agg("Nat", None, (S(v.t, "BigUint"),))
STRUCTS = {"Nat": structs_nat}

def cast(ex, st, v, ty, kind):
    if kind == "IntToInt" and isinstance(v, S) and v.sort == "int" and re.match(r"\d+$", v.t) and ty in INTMAX and ty != "usize":
        return S(str(int(v.t) % (int(INTMAX[ty]) + 1)), "int")
    if kind == "IntToInt" and isinstance(v, S) and v.sort == "bool":
        return S("1" if ex.split_bool(st, v.t) else "0", "int")
    return None

def boxless(ex, st, v):
    """the value behind references and boxes"""
    for _ in range(9):
        v = Bi.val(ex, st, v)
        if isinstance(v, BoxC):
            v = ex.cell_get(st, v.cell)
        elif isinstance(v, S) and v.sort.startswith("Box<"):
            v = S(v.t, inner(v.sort, "Box"))
        else:
            return v
    raise Unsupported("reference chain")

def cmp(ex, st, op, x, y):
    """equality of byte strings, hash trees and their parts"""
    if op not in ("eq", "ne"):
        return None
    x, y = boxless(ex, st, x), boxless(ex, st, y)
    g = None
    if isinstance(x, S) and x.sort == "HT" or isinstance(x, Agg) and x.name == "HashTree":
        g = ex.prog.get("<HashTree as PartialEq>::eq")
    elif isinstance(x, Agg) and x.name == "ForkInner" or isinstance(x, S) and x.sort == "FI":
        g = ex.prog.get("<ForkInner as PartialEq>::eq")
    if g is not None:
        c = "<_ as PartialEq>::eq"
        return [(s2, r if op == "eq" else S("!(%s)" % r.t, "bool")) for s2, r in ex.call_user(st, g, [Ref(x), Ref(y)], c)]
    if (is_bytes(x) or isinstance(x, Agg) and x.name == "cat") and (is_bytes(y) or isinstance(y, Agg) and y.name == "cat"):
        return S("(%s %s %s)" % (cat(chunks(ex, st, x)), "==" if op == "eq" else "!=", cat(chunks(ex, st, y))), "bool")
    return None

def doc(ex, st, v):
    """the serializer's view of a value"""
    v = boxless(ex, st, v)
    if isinstance(v, Agg) and v.name == "Bytes":
        return "Doc::Bytes(%s)" % cat(chunks(ex, st, v.fields[0]))
    if isinstance(v, S) and v.sort == "HT" or isinstance(v, Agg) and v.name == "HashTree":
        return "doc(%s)" % ex.term(st, v, "HT")
    if isinstance(v, S) and v.sort in ("V", "K"):
        return "Doc::%s(%s)" % ({"V": "Val", "K": "Key"}[v.sort], v.t)
    if isinstance(v, S) and v.sort == "int":
        return "Doc::U8(%s)" % v.t
    if isinstance(v, Agg) and v.name == "tuple":
        return "Doc::Tuple(seq![%s])" % ", ".join(doc(ex, st, x) for x in v.fields)
    if is_bytes(v):
        return "Doc::Ints(%s)" % cat(chunks(ex, st, v))
    raise Unsupported("serialized form of %r" % (v,))

def fails(ex, st, ok):
    """a serializer operation: it may fail, or goes on with ok(state)"""
    s2 = st.copy()
    e = ex.fresh(s2, "err", "SErr")
    return [(st, Agg("Result", "Ok", (ok(st),))), (s2, Agg("Result", "Err", (S(e, "SErr"),)))]

def builtin(ex, st, c, args, last):
    v = lambda i: Bi.val(ex, st, args[i])
    # ---- SHA-256
    if re.match(r"<(Sha256|sha2::Sha256|CoreWrapper.*) as (sha2::)?Digest>::new$", c) or re.match(r"<Sha256 as Default>::default$", c):
        return Agg("Sha256", (), ())
    if re.match(r"<Sha256 as (sha2::)?(Digest|digest::Update|Update)>::update", c) and isinstance(args[0], Ptr):
        h = ex.read_loc(st, args[0])
        ex.write(st, ("cell", args[0].cell, args[0].path), Agg("Sha256", h.var + tuple(map(freeze, chunks(ex, st, args[1]))), ()))
        return UNIT
    if re.match(r"<Sha256 as (sha2::)?Digest>::(chain|chain_update)::<", c):
        h = args[0]
        return Agg("Sha256", h.var + tuple(map(freeze, chunks(ex, st, args[1]))), ())
    if re.match(r"<Sha256 as (sha2::)?Digest>::finalize$", c):
        h = args[0]
        return S("sha(%s)" % cat([list(x) if isinstance(x, tuple) else x for x in h.var]), "H")
    if re.match(r"<Sha256 as (sha2::)?Digest>::digest::<", c):
        return S("sha(%s)" % cat(chunks(ex, st, args[0])), "H")
    # ---- number encodings
    m = re.match(r"core::(?:num|f32|f64)::<impl (\w+)>::to_(be|le|ne)_bytes$", c)
    if m and m.group(1) in WIDTH:
        x, w = v(0), WIDTH[m.group(1)]
        if m.group(1)[0] == "f":
            t = "flb(%s, %d)" % (ex.term(st, x, "FL"), w)
        elif m.group(1)[0] == "i":
            t = "be(tc(%s, %d), %d)" % (ex.as_int(st, x), w, w)
        else:
            t = "be(%s, %d)" % (ex.as_int(st, x), w)
        return S(t if m.group(2) == "be" else "rev(%s)" % t, "B")
    m = re.match(r"(?:num_bigint::)?(?:biguint::)?BigUint::to_bytes_(be|le)$", c)
    if m:
        x = v(0)
        if isinstance(x, S) and x.sort == "BigUint":
            return S("natb(%s)" % x.t if m.group(1) == "be" else "rev(natb(%s))" % x.t, "B")
    # ---- vec![..]
    if re.match(r"(?:std::boxed::)?Box::<\[u8; \d+\]>::new_uninit$", c):
        return BoxC(ex.new_cell(st, Agg("MaybeUninit", None, (UNIT, Agg("ManuallyDrop", None, (Agg("MaybeDangling", None, (Undef(),)),))))))
    if re.match(r"(?:std::boxed::)?box_assume_init_into_vec_unsafe::<u8, \d+>$", c):
        x = ex.cell_get(st, args[0].cell)
        del st.cells[args[0].cell]
        return x.fields[1].fields[0].fields[0]
    if re.match(r"core::str::<impl str>::len$|core::slice::<impl \[u8\]>::len$|(?:std::vec::)?Vec::<u8>::len$|String::len$", c):
        x = v(0)
        if isinstance(x, Agg) and x.name in ("str", "bytes"):
            return S(str(len(strbytes(x))), "int")
        if isinstance(x, Agg) and x.name == "array":
            return S(str(len(x.fields)), "int")
        return S("((%s).len() as int)" % ex.term(st, x, "B"), "int")
    if re.match(r"core::slice::<impl \[u8\]>::(starts_with|ends_with)$|core::str::<impl str>::starts_with::<", c):
        return S(("starts(%s, %s)" if last == "starts_with" else "ends(%s, %s)") % (ex.term(st, v(0), "B"), ex.term(st, v(1), "B")), "bool")
    if re.match(r"(?:std::vec::)?Vec::<u8>::(new|with_capacity)$", c):
        return Agg("cat", (), ())
    if re.match(r"(?:std::vec::)?Vec::<u8>::(extend_from_slice|push)$|<(?:std::vec::)?Vec<u8> as Extend<.*>>::extend::<", c) and isinstance(args[0], Ptr):
        x = ex.read_loc(st, args[0])
        y = [[int(v(1).t)] if re.match(r"\d+$", v(1).t) else "seq![(%s) as u8]" % v(1).t] if last == "push" else chunks(ex, st, args[1])
        ex.write(st, ("cell", args[0].cell, args[0].path), Agg("cat", tuple(map(freeze, chunks(ex, st, x))) + tuple(map(freeze, y)), ()))
        return UNIT
    if re.match(r"(?:serde_bytes::)?Bytes::new$", c):
        return Agg("Bytes", None, (v(0),))
    # ---- a serializer: what it is given is recorded, every step may fail
    m = re.match(r"<(\w+) as (?:.*::)?Serializer>::serialize_(seq|bytes|tuple)$", c)
    if m and isinstance(args[0], S) and args[0].sort == "Ser":
        s = args[0].t
        if m.group(2) == "bytes":
            return fails(ex, st, lambda q: S("emitted(%s, Doc::Bytes(%s))" % (s, cat(chunks(ex, q, args[1]))), "SOut"))
        if m.group(2) == "seq":
            o = ex.expand(st, args[1])
            n = "Option::<int>::None" if o.var == "None" else "Some(%s as int)" % ex.as_int(st, o.fields[0])
            return fails(ex, st, lambda q: Agg("SeqSer", (s, n), ()))
    if re.match(r"<<\w+ as (?:.*::)?Serializer>::SerializeSeq as (?:.*::)?SerializeSeq>::serialize_element(::<.*>)?$", c) and isinstance(args[0], Ptr):
        q = ex.read_loc(st, args[0])
        d = doc(ex, st, args[1])
        def ok(s2):
            ex.write(s2, ("cell", args[0].cell, args[0].path), Agg("SeqSer", q.var + (d,), ()))
            return UNIT
        s2 = st.copy()
        e = ex.fresh(s2, "err", "SErr")
        return [(st, Agg("Result", "Ok", (ok(st),))), (s2, Agg("Result", "Err", (S(e, "SErr"),)))]
    if re.match(r"<<\w+ as (?:.*::)?Serializer>::SerializeSeq as (?:.*::)?SerializeSeq>::end$", c):
        q = args[0]
        return fails(ex, st, lambda s2: S("emitted(%s, Doc::Seq(%s, seq![%s]))" % (q.var[0], q.var[1], ", ".join(q.var[2:])), "SOut"))
    if re.match(r"<.* as (label::)?Label>::as_label$", c) and is_bytes(v(0)):
        return v(0)
    if re.match(r"<.* as (as_hash_tree::)?AsHashTree>::(root_hash|as_hash_tree)$", c) and is_bytes(v(0)):
        t = ex.term(st, v(0), "B")
        return S("h_leaf(%s)" % t, "H") if last == "root_hash" else S("HT::Leaf(%s)" % t, "HT")
    # ---- a list of byte strings
    if re.match(r"(?:std::vec::)?Vec::<&\[u8\]>::(new|with_capacity)$", c):
        return S("Seq::<B>::empty()", "Bs")
    if re.match(r"(?:std::vec::)?Vec::<&\[u8\]>::(push|append|len|is_empty)$|<(?:std::vec::)?Vec<&\[u8\]> as Extend<.*>>::extend::<", c):
        x = v(0)
        if isinstance(x, S) and x.sort == "Bs":
            if last == "len":
                return S("(%s.len() as int)" % x.t, "int")
            if last == "is_empty":
                return S("(%s.len() == 0)" % x.t, "bool")
            y = Bi.val(ex, st, args[1])
            if last == "push":
                n = "%s.push(%s)" % (x.t, ex.term(st, y, "B"))
            elif isinstance(y, S) and y.sort == "Bs":
                n = "(%s + %s)" % (x.t, y.t)
            else:
                return NotImplemented
            ex.write(st, ("cell", args[0].cell, args[0].path), S(n, "Bs"))
            if last == "append":
                ex.write(st, ("cell", args[1].cell, args[1].path), S("Seq::<B>::empty()", "Bs"))
            return UNIT
    # ---- part of a byte string
    m = re.search(r"(?:^| as )(?:std::ops::)?Index<(?:std::ops::)?(usize|Range\w*(?:<usize>)?|RangeFull)>>::index$", c)
    if m and len(args) == 2 and m.group(1) != "RangeFull" and (is_bytes(v(0)) or isinstance(v(0), Agg) and v(0).name == "cat"):
        t = ex.term(st, v(0), "B")
        if len(t) > 30:
            n = ex.fresh(st, "bs", "B")
            st.fact("%s == %s" % (n, t))
            t = n
        i = v(1)
        if isinstance(i, S) and i.sort == "int":
            ex.emit(st, "C04", "index within bounds", "0 <= %s < %s.len()" % (i.t, t), "panic")
            return S("(%s[%s] as int)" % (t, i.t), "int")
        if isinstance(i, Agg) and i.name in ("RangeFrom", "RangeTo", "Range"):
            f = [ex.as_int(st, x) for x in i.fields]
            a = f[0] if i.name in ("RangeFrom", "Range") else "0"
            b = f[-1] if i.name in ("RangeTo", "Range") else "(%s.len() as int)" % t
            ex.emit(st, "C04", "range within bounds", "0 <= %s <= %s <= %s.len()" % (a, b, t), "panic")
            n = ex.fresh(st, "part", "B")
            st.fact("%s == %s.subrange(%s, %s)" % (n, t, a, b))
            st.fact("(%s == 0 && %s == %s.len()) ==> %s =~= %s" % (a, b, t, n, t))
            return S(n, "B")
    if re.match(r"core::str::<impl str>::is_empty$|core::slice::<impl \[u8\]>::is_empty$|(?:std::vec::)?Vec::<u8>::is_empty$|String::is_empty$", c):
        x = v(0)
        if isinstance(x, Agg) and x.name in ("str", "bytes", "array"):
            return S("true" if not chunks(ex, st, x) or chunks(ex, st, x) == [[]] else "false", "bool")
        return S("((%s).len() == 0)" % ex.term(st, x, "B"), "bool")
    # ---- views of the same bytes; smart pointers to an opaque value
    if last in SAME and args:
        x = v(0)
        if is_bytes(x) or isinstance(x, Agg) and x.name == "cat" or isinstance(x, S) and x.sort in ("V", "K"):
            if last == "index" and not re.search(r"Index<(std::ops::)?RangeFull>>::index$", c):
                return NotImplemented
            if last == "from" and re.match(r"<Cow<", c):
                return Agg("Cow", "Borrowed", (x,))
            return x
    return NotImplemented

def freeze(x):
    return tuple(x) if isinstance(x, list) else x
