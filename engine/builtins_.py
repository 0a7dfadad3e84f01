"""Models of the library functions the code calls (std, core, alloc, sha2).  Anything not listed is Unsupported."""
import re
import mirparse as M
from mirparse import Unsupported
from symex import *

def val(ex, st, v):
    """strip references"""
    n = 0
    while True:
        n += 1
        if n > 20:
            raise Unsupported("reference chain")
        if isinstance(v, Ptr):
            v = ex.read_loc(st, v)
        elif isinstance(v, Ref):
            v = v.v
        elif isinstance(v, FPF):
            v = ex.fpf_read(st, v)
        elif isinstance(v, IP) and v.field is not None:
            v = ex.np_read(st, v)
        else:
            return v

def rank(ex, st, v):
    """the integer a comparable value is ordered by"""
    v = val(ex, st, v)
    h = ex.hooks.get("rank")
    if h:
        r = h(ex, st, v)
        if r is not None:
            return r
    if isinstance(v, S):
        if v.sort == "K":
            return "rk(%s)" % v.t
        if v.sort == "Q":
            m = re.match(r"bq\((.*)\)$", v.t)
            if m and balanced(m.group(1)):
                return ("rk(%s)" if ex.env.get("borrow", "exact") == "exact" else "qk(%s)") % m.group(1)
            return "rq(%s)" % v.t
        if v.sort == "int":
            return v.t
    raise Unsupported("order of %r" % (v,))

REL = {"lt": {"lt"}, "le": {"lt", "eq"}, "gt": {"gt"}, "ge": {"gt", "eq"}, "eq": {"eq"}, "ne": {"lt", "gt"}}

def opt_some(x):
    return Agg("Option", "Some", (x,))
NONE = Agg("Option", "None", ())

def is_some(ex, st, o):
    o = ex.expand(st, o)
    if not (isinstance(o, Agg) and o.name in ("Option",)):
        raise Unsupported("option expected: %r" % (o,))
    return o.var == "Some", o

def cmp_rel(ex, st, op, a, b):
    a, b = val(ex, st, a), val(ex, st, b)
    h = ex.hooks.get("cmp")
    if h:
        r = h(ex, st, op, a, b)
        if r is not None:
            return r
    if isinstance(a, (Agg,)) and a.name == "Color" or isinstance(a, S) and a.sort == "Color" or isinstance(b, S) and b.sort == "Color":
        x, y = ex.color_bool(a), ex.color_bool(b)
        x, y = ("true", "false")[x == "false"] if x in ("true", "false") else x, y
        if y == "true": t = x
        elif y == "false": t = {"true": "false", "false": "true"}.get(x, "!(%s)" % x)
        elif x == "true": t = y
        elif x == "false": t = "!(%s)" % y
        else: t = "(%s == %s)" % (x, y)
        if op == "ne":
            t = {"true": "false", "false": "true"}.get(t, t[2:-1] if t.startswith("!(") and balanced(t[2:-1]) else "!(%s)" % t)
        return S(t, "bool")
    if isinstance(a, Agg) and a.name == "Ordering" or isinstance(b, Agg) and b.name == "Ordering":
        x, y = ex.discr(st, a), ex.discr(st, b)
        if op in ("eq", "ne"):
            return S(str((x == y) == (op == "eq")).lower(), "bool")
    if op in ("eq", "ne") and isinstance(a, S) and isinstance(b, S) and a.sort == b.sort == "bool":
        return S("(%s %s %s)" % (a.t, "==" if op == "eq" else "!=", b.t), "bool")
    if op in ("eq", "ne") and isinstance(a, S) and isinstance(b, S) and a.sort == b.sort and a.sort in ("H", "B"):
        return S("(%s %s %s)" % (a.t, "==" if op == "eq" else "!=", b.t), "bool")
    if op in ("eq", "ne") and any(isinstance(x, Agg) and x.name == "Option" or isinstance(x, S) and x.sort.startswith("Option<") for x in (a, b)):
        sa, a2 = is_some(ex, st, a)
        sb, b2 = is_some(ex, st, b)
        if sa != sb:
            return S("true" if op == "ne" else "false", "bool")
        if not sa:
            return S("true" if op == "eq" else "false", "bool")
        return cmp_rel(ex, st, op, a2.fields[0], b2.fields[0])
    return S("true" if ex.cmp_in(st, rank(ex, st, a), rank(ex, st, b), REL[op]) else "false", "bool")

def forgettable(x):
    if isinstance(x, S):
        return x.sort in ("int", "bool", "H", "Color")
    if isinstance(x, Agg):
        return all(forgettable(y) for y in x.fields)
    return isinstance(x, (TP, Null, Ptr, BoxC, FP, Ref, Undef))

SIZES = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "char": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16, "[u8; 32]": 32, "()": 0}

def builtin(ex, st, c, args):
    v = lambda i: val(ex, st, args[i])
    last = M.strip_generics(c).split("::")[-1]
    # ---- pointers
    if re.match(r"(std|core)::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) .*>::is_null$", c):
        return S(ex.is_null(st, args[0]), "bool")
    if re.match(r"(std::ptr::|core::ptr::)?null(_mut)?::<", c):
        return Null()
    if re.match(r"(std|core)::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) .*>::(cast|cast_mut|cast_const)", c):
        return args[0]
    if re.match(r"(std|core)::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) .*>::as_(ref|mut)(::<.*>)?$", c):
        return NONE if ex.is_null(st, args[0]) == "true" else opt_some(args[0])
    if re.match(r"Box::<.*>::new$", c) or re.match(r"std::boxed::Box::<.*>::new$", c):
        cell = ex.new_cell(st, args[0])
        if isinstance(args[0], Agg) and args[0].name == "Node":
            st.addr[cell] = ex.fresh(st, "addr", "int")
        return BoxC(cell)
    if re.match(r"(std::boxed::)?Box::<.*>::(into_raw|leak)$", c):
        if isinstance(args[0], BoxC):
            return Ptr(args[0].cell, ())
    if re.match(r"(std::boxed::)?Box::<.*>::from_raw$", c):
        p = args[0]
        if isinstance(p, TP):
            p = ex.resolve_tp(st, p)
        if isinstance(p, Null):
            ex.fail(st, "Box::from_raw(null)")
        if isinstance(p, Ptr) and p.path == ():
            if p.cell not in st.cells:
                ex.fail(st, "Box::from_raw of freed memory")
            return BoxC(p.cell)
    if re.match(r"<(std::boxed::)?Box<.*> as Drop>::drop$", c):
        p = args[0]
        b = ex.read_loc(st, p) if isinstance(p, Ptr) else p
        if isinstance(b, BoxC):
            if b.cell not in st.cells:
                ex.fail(st, "memory freed twice")
            nd = st.cells[b.cell]
            del st.cells[b.cell]
            st.dead = st.dead | {b.cell}
            return UNIT
        if isinstance(b, (S, Agg)):
            return UNIT
    if re.match(r"(std::mem|core::mem|mem)::swap::<", c):
        a, b = args
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            x, y = ex.read_loc(st, a), ex.read_loc(st, b)
            ex.write(st, ("cell", a.cell, a.path), y)
            ex.write(st, ("cell", b.cell, b.path), x)
            return UNIT
    if re.match(r"(std::mem|core::mem|mem)::replace::<", c) and isinstance(args[0], Ptr):
        x = ex.read_loc(st, args[0])
        ex.write(st, ("cell", args[0].cell, args[0].path), args[1])
        return x
    m = re.match(r"(?:std::mem|core::mem|mem)::take::<(.*)>$", c)
    if m and isinstance(args[0], Ptr):
        x = ex.read_loc(st, args[0])
        outs = ex.call_any(st, "<%s as Default>::default" % m.group(1), [])
        for s2, d in outs:
            ex.write(s2, ("cell", args[0].cell, args[0].path), d)
        return [(s2, x) for s2, _ in outs]
    if re.match(r"(std::mem|core::mem|mem)::drop::<|^drop::<", c):
        ex.drop(st, args[0])
        return UNIT
    if re.match(r"(std::mem|core::mem|mem)::forget::<", c) and forgettable(args[0]):
        # nodes that nobody owns any more are found by the check that no node is lost
        return UNIT
    # ---- what the code can ask about its environment: any answer is possible (for a built-in type the size is known)
    m = re.match(r"(?:std::mem|core::mem|mem|std::intrinsics|core::intrinsics)::(size_of|align_of|needs_drop|size_of_val|align_of_val|type_id)::<(.*)>$", c)
    if m:
        if m.group(1) == "needs_drop":
            if m.group(2) in INTMAX or m.group(2) in ("bool", "[u8; 32]"):
                return S("false", "bool")
            return S(ex.fresh(st, "nd", "bool"), "bool")
        if m.group(1) == "size_of" and m.group(2) in SIZES:
            return S(str(SIZES[m.group(2)]), "int")
        if m.group(1) in ("size_of", "align_of", "size_of_val", "align_of_val"):
            x = ex.fresh(st, "size", "int")
            st.fact("%d <= %s <= UMAX()" % (m.group(1).startswith("align_of"), x))
            return S(x, "int")
    if re.match(r"<&?(mut )?\w+ as (?:.*::)?(?:Des|S)erializer(<.*>)?>::is_human_readable$", c):
        return S(ex.fresh(st, "hr", "bool"), "bool")
    # a global the contracts say nothing about: what is read may be anything, what is written is forgotten
    m = re.match(r"(?:std::sync::atomic::|core::sync::atomic::)?Atomic::<(\w+)>::(load|store|swap|fetch_\w+)$", c)
    if m and (m.group(1) in INTMAX or m.group(1) == "bool") and last != "fetch_update":
        if m.group(2) == "store":
            return UNIT
        if m.group(1) == "bool":
            return S(ex.fresh(st, "glob", "bool"), "bool")
        x = ex.fresh(st, "glob", "int")
        st.fact("0 <= %s <= %s" % (x, INTMAX[m.group(1)]))
        return S(x, "int")
    # ---- comparisons
    m = re.match(r"<(.*) as (?:std::cmp::|core::cmp::)?(Ord|PartialOrd|PartialEq)(?:<.*>)?>::(cmp|partial_cmp|lt|le|gt|ge|eq|ne)$", c)
    if m:
        op = m.group(3)
        if op in ("cmp", "partial_cmp"):
            a, b = v(0), v(1)
            h = ex.hooks.get("cmp")
            r = h(ex, st, "cmp", a, b) if h else None
            if r is None:
                x, y = rank(ex, st, a), rank(ex, st, b)
                r = S((x, y), "Ord")
            return r if op == "cmp" else opt_some(r)
        return cmp_rel(ex, st, op, args[0], args[1])
    m = re.match(r"(?:std::cmp::|core::cmp::)?Ordering::(reverse|is_eq|is_ne|is_lt|is_gt|is_le|is_ge)$", c)
    if m:
        o = v(0)
        if isinstance(o, S) and o.sort == "Ord":
            if m.group(1) == "reverse":
                return S((o.t[1], o.t[0]), "Ord")
            return S("true" if ex.cmp_in(st, o.t[0], o.t[1], REL[m.group(1)[3:]]) else "false", "bool")
    m = re.match(r"(?:std::cmp::|core::cmp::)?Ordering::(then|then_with)(::<.*>)?$", c)
    if m:
        o = v(0)
        if isinstance(o, Agg) and o.name == "Ordering":
            eq = o.var == "Equal"
        elif isinstance(o, S) and o.sort == "Ord":
            eq = ex.cmp_in(st, o.t[0], o.t[1], {"eq"})
        else:
            raise Unsupported("ordering %r" % (o,))
        if not eq:
            return o
        return args[1] if m.group(1) == "then" else ex.call_value(st, args[1], [])
    m = re.match(r"(?:std::cmp::|core::cmp::)?(min|max)::<(\w+)>$|<(\w+) as (?:std::cmp::|core::cmp::)?Ord>::(min|max)$", c)
    if m and (m.group(2) or m.group(3)) in INTMAX:
        x, y = ex.as_int(st, v(0)), ex.as_int(st, v(1))
        return S("(if %s %s %s { %s } else { %s })" % (x, "<=" if last.startswith("min") else ">", y, x, y), "int")
    if re.match(r"(std::intrinsics::|core::intrinsics::)?discriminant_value::<", c) or re.match(r"(std::mem::|core::mem::)?discriminant::<", c):
        return S(ex.discr(st, v(0)), "int")
    # ---- generic traits
    if re.match(r"<.* as Borrow<.*>>::borrow$", c):
        x = v(0)
        h = ex.hooks.get("borrow")
        if h:
            r = h(ex, st, c, x)
            if r is not None:
                return r
        if isinstance(x, S) and x.sort == "K":
            if re.match(r"<(\w+) as Borrow<\1>>", c) or ex.env.get("borrow") == "id":
                return x
            return S("bq(%s)" % x.t, "Q")
        if not ex.hooks.get("builtin"):
            raise Unsupported("borrow of %r" % (x,))
    if re.match(r"<.* as (label::)?Label>::as_label$", c):
        x = v(0)
        if isinstance(x, S) and x.sort == "K":
            return S("lb(%s)" % x.t, "B")
    if re.match(r"core::slice::<impl \[u8\]>::(len|is_empty)$|(?:std::vec::)?Vec::<u8>::(len|is_empty)$", c) and args:
        x = v(0)
        if isinstance(x, Agg) and x.name == "Cow":
            x = x.fields[0]
        if isinstance(x, S) and x.sort == "B":
            if last == "is_empty":
                return S("((%s).len() == 0)" % x.t, "bool")
            st.fact("0 <= (%s).len() <= UMAX()" % x.t)
            return S("((%s).len() as int)" % x.t, "int")
    if re.match(r"<.* as (label::)?Prefix<.*>>::is_prefix$", c):
        x, y = v(0), v(1)
        if isinstance(x, S) and x.sort == "K" and isinstance(y, S) and y.sort == "Q":
            return S("isp(%s, %s)" % (y.t, x.t), "bool")
    if re.match(r"<.* as (as_hash_tree::)?AsHashTree>::root_hash$", c):
        x = v(0)
        if isinstance(x, S) and x.sort == "V":
            return S("vh(%s)" % x.t, "H")
    if re.match(r"<.* as (as_hash_tree::)?AsHashTree>::as_hash_tree$", c):
        x = v(0)
        if isinstance(x, S) and x.sort == "V":
            return S("vt(%s)" % x.t, "HT")
    m = re.match(r"<.* as (?:std::ops::|core::ops::)?(?:function::)?(FnOnce|FnMut|Fn)<.*>>::(call_once|call_mut|call)$", c)
    if m:
        tup = args[1]
        xs = list(tup.fields) if isinstance(tup, Agg) and tup.name in ("tuple", "()") else None
        if xs is None:
            raise Unsupported("closure arguments")
        return ex.call_value(st, args[0], xs)
    # ---- going through the elements of an array that is written out
    if args and re.match(r"core::slice::<impl \[.*\]>::len$", c) and not c.startswith("core::slice::<impl [u8]>"):
        x = v(0)
        if isinstance(x, Agg) and x.name == "array":
            return S(str(len(x.fields)), "int")
    if args and re.match(r"core::slice::<impl \[.*\]>::iter$|<&?\[.*; \d+\] as (?:std::iter::)?IntoIterator>::into_iter$|core::array::<impl \[.*; \d+\]>::(into_iter|iter)$", c):
        a, x = args[0], v(0)
        if isinstance(x, Agg) and x.name == "array" and len(x.fields) <= 64:
            if isinstance(a, Ptr):
                while isinstance(ex.read_loc(st, a), Ptr):
                    a = ex.read_loc(st, a)
                return Agg("elements", None, tuple(Ptr(a.cell, a.path + (i,)) for i in range(len(x.fields))))
            return Agg("elements", None, tuple(x.fields))
    if args and isinstance(args[0], Ptr) and re.match(r"<(?:std::slice::|core::slice::|std::array::|core::array::)?(?:Iter|IntoIter)<.*> as (?:std::iter::)?Iterator>::next$", c):
        x = ex.read_loc(st, args[0])
        if isinstance(x, Agg) and x.name == "elements":
            if not x.fields:
                return NONE
            ex.write(st, ("cell", args[0].cell, args[0].path), Agg("elements", None, x.fields[1:]))
            return opt_some(x.fields[0])
    if args and re.match(r"<(?:std::slice::|core::slice::|std::array::|core::array::)?(?:Iter|IntoIter)<.*> as (?:std::iter::)?IntoIterator>::into_iter$", c) and isinstance(args[0], Agg) and args[0].name == "elements":
        return args[0]
    if re.match(r"<Cow<.*> as (?:std::ops::)?Deref>::deref$", c) or re.match(r"<.* as AsRef<\[u8\]>>::as_ref$", c):
        x = v(0)
        if isinstance(x, Agg) and x.name == "Cow":
            return x.fields[0]
        if isinstance(x, S) and x.sort == "B":
            return x
    if re.match(r"<.* as (?:std::clone::)?Clone>::clone$", c):
        x = v(0)
        if isinstance(x, S):
            return x
    # ---- Option / Result
    m = re.match(r"(?:std::option::|core::option::)?Option::<", c)
    if m:
        op = last
        if op in ("is_some", "is_none"):
            b, _ = is_some(ex, st, v(0))
            return S(str(b == (op == "is_some")).lower(), "bool")
        if op in ("unwrap", "expect"):
            b, o = is_some(ex, st, args[0])
            if not b:
                ex.fail(st, "no panic: Option::%s on None" % op)
            return o.fields[0]
        if op == "unwrap_or":
            b, o = is_some(ex, st, args[0])
            return o.fields[0] if b else args[1]
        if op == "or":
            b, o = is_some(ex, st, args[0])
            return o if b else args[1]
        if op == "and":
            b, o = is_some(ex, st, args[0])
            return args[1] if b else NONE
        if op in ("or_else", "unwrap_or_else"):
            b, o = is_some(ex, st, args[0])
            if b:
                return o if op == "or_else" else o.fields[0]
            return ex.call_value(st, args[1], [])
        if op == "map":
            b, o = is_some(ex, st, args[0])
            if not b:
                return NONE
            return [(s2, opt_some(x)) for s2, x in ex.call_value(st, args[1], [o.fields[0]])]
        if op == "and_then":
            b, o = is_some(ex, st, args[0])
            if not b:
                return NONE
            return ex.call_value(st, args[1], [o.fields[0]])
        if op in ("is_some_and", "is_none_or"):
            b, o = is_some(ex, st, args[0])
            if not b:
                return S("true" if op == "is_none_or" else "false", "bool")
            return ex.call_value(st, args[1], [o.fields[0]])
        if op == "map_or_else":
            b, o = is_some(ex, st, args[0])
            return ex.call_value(st, args[2], [o.fields[0]]) if b else ex.call_value(st, args[1], [])
        if op == "ok_or_else":
            b, o = is_some(ex, st, args[0])
            if b:
                return Agg("Result", "Ok", o.fields)
            return [(s2, Agg("Result", "Err", (x,))) for s2, x in ex.call_value(st, args[1], [])]
        if op == "xor":
            a, o1 = is_some(ex, st, args[0])
            b, o2 = is_some(ex, st, args[1])
            return NONE if a == b else o1 if a else o2
        if op == "zip":
            a, o1 = is_some(ex, st, args[0])
            b, o2 = is_some(ex, st, args[1])
            return opt_some(Agg("tuple", None, (o1.fields[0], o2.fields[0]))) if a and b else NONE
        if op == "flatten":
            b, o = is_some(ex, st, args[0])
            return o.fields[0] if b else NONE
        if op == "filter":
            b, o = is_some(ex, st, args[0])
            if not b:
                return NONE
            x = o.fields[0]
            out = []
            for s2, r in ex.call_value(st, args[1], [x if isinstance(x, (Ptr, Ref, S)) else Ref(x)]):
                s3 = s2.copy()
                s2.fact(r.t)
                s3.fact("!(%s)" % r.t)
                out += [(s2, opt_some(x)), (s3, NONE)]
            return out
        if op == "map_or":
            b, o = is_some(ex, st, args[0])
            if not b:
                return args[1]
            return ex.call_value(st, args[2], [o.fields[0]])
        if op == "ok_or":
            b, o = is_some(ex, st, args[0])
            return Agg("Result", "Ok", o.fields) if b else Agg("Result", "Err", (args[1],))
        if op in ("take", "replace") and isinstance(args[0], Ptr):
            x = ex.read_loc(st, args[0])
            ex.write(st, ("cell", args[0].cell, args[0].path), NONE if op == "take" else opt_some(args[1]))
            return x
        if op == "insert" and isinstance(args[0], Ptr):
            ex.write(st, ("cell", args[0].cell, args[0].path), opt_some(args[1]))
            return Ptr(args[0].cell, args[0].path + (("v", "Some"), 0))
        if op in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
            p = args[0]
            b, o = is_some(ex, st, v(0))
            if not b:
                return NONE
            if isinstance(p, Ptr):
                return opt_some(Ptr(p.cell, p.path + (("v", "Some"), 0)))
            return opt_some(Ref(o.fields[0]) if not isinstance(o.fields[0], S) else o.fields[0])
        if op in ("cloned", "copied"):
            b, o = is_some(ex, st, args[0])
            return opt_some(val(ex, st, o.fields[0])) if b else NONE
    if re.match(r"<(?:std::option::)?Option<.*> as Try>::branch$", c):
        b, o = is_some(ex, st, args[0])
        return Agg("ControlFlow", "Continue", o.fields) if b else Agg("ControlFlow", "Break", (NONE,))
    if re.match(r"<(?:std::option::)?Option<.*> as FromResidual<(?:std::option::)?Option<Infallible>>>::from_residual$", c):
        return NONE
    if re.match(r"(?:std::result::|core::result::)?Result::<", c):
        r = ex.expand(st, v(0) if last in ("is_ok", "is_err") else args[0])
        if isinstance(r, Agg) and r.name == "Result":
            if last in ("is_ok", "is_err"):
                return S(str((r.var == "Ok") == (last == "is_ok")).lower(), "bool")
            if last == "ok":
                return opt_some(r.fields[0]) if r.var == "Ok" else NONE
            if last in ("unwrap", "expect"):
                if r.var != "Ok":
                    ex.fail(st, "no panic: Result::%s on Err" % last)
                return r.fields[0]
            good, x = r.var == "Ok", r.fields[0]
            again = lambda con, outs: [(s2, Agg("Result", con, (y,))) for s2, y in outs]
            if last == "err":
                return NONE if good else opt_some(x)
            if last == "map":
                return again("Ok", ex.call_value(st, args[1], [x])) if good else r
            if last == "map_err":
                return r if good else again("Err", ex.call_value(st, args[1], [x]))
            if last == "and_then":
                return ex.call_value(st, args[1], [x]) if good else r
            if last == "and":
                return args[1] if good else r
            if last == "unwrap_or":
                return x if good else args[1]
            if last == "map_or":
                return ex.call_value(st, args[2], [x]) if good else args[1]
            if last == "map_or_else":
                return ex.call_value(st, args[2], [x]) if good else ex.call_value(st, args[1], [x])
            if last in ("unwrap_or_else", "or_else"):
                return (x if last == "unwrap_or_else" else r) if good else ex.call_value(st, args[1], [x])
    if re.match(r"<(?:std::result::)?Result<.*> as Try>::branch$", c):
        r = ex.expand(st, args[0])
        return Agg("ControlFlow", "Continue", r.fields) if r.var == "Ok" else Agg("ControlFlow", "Break", (r,))
    if re.match(r"<(?:std::result::)?Result<.*> as FromResidual<(?:std::result::)?Result<Infallible, .*>>>::from_residual$", c):
        return ex.expand(st, args[0])
    # ---- panics
    if re.match(r"(core::panicking|std::rt|core::option|core::result|std::process)::|begin_panic|panic_fmt|unreachable_display", c):
        ex.fail(st, "no panic: " + re.sub(r"::<.*", "", c) + (" " + args[0].var[:60] if args and isinstance(args[0], Agg) and args[0].name == "str" else ""))
    if re.match(r"<PhantomData<.*> as Default>::default$", c):
        return Agg("PhantomData", None, ())
    m = re.match(r"(?:core::)?num::<impl (u8|u16|usize|u32|u64)>::(wrapping|saturating|checked|overflowing)_(add|sub|mul)$", c)
    if m:
        x, y = ex.as_int(st, v(0)), ex.as_int(st, v(1))
        mx = INTMAX[m.group(1)]
        t = "(%s %s %s)" % (x, {"add": "+", "sub": "-", "mul": "*"}[m.group(3)], y)
        ok = ex.split_bool(st, "0 <= %s <= %s" % (t, mx))
        if m.group(2) == "checked":
            return opt_some(S(t, "int")) if ok else NONE
        w = S(t if ok else mx if m.group(2) == "saturating" and m.group(3) != "sub" else "0" if m.group(2) == "saturating"
              else "(%s %% (%s + 1))" % (t, mx), "int")
        return Agg("tuple", None, (w, S(str(not ok).lower(), "bool"))) if m.group(2) == "overflowing" else w
    m = re.match(r"(?:core::)?num::<impl (u8|u16|usize|u32|u64)>::(abs_diff|div_ceil)$", c)
    if m:
        x, y = ex.as_int(st, v(0)), ex.as_int(st, v(1))
        if m.group(2) == "abs_diff":
            return S("(if %s <= %s { %s - %s } else { %s - %s })" % (x, y, y, x, x, y), "int")
        if not ex.split_bool(st, "%s != 0" % y):
            ex.fail(st, "no panic: division by zero")
        return S("((%s + %s - 1) / %s)" % (x, y, y), "int")
    h = ex.hooks.get("builtin")
    if h:
        r = h(ex, st, c, args, last)
        if r is not NotImplemented:
            return r
    if re.match(r"<(?:std::ops::|core::ops::)?(?:range::)?Range<\w+> as (?:std::iter::)?IntoIterator>::into_iter$", c):
        return args[0]
    if re.search(r"Range<\w+> as (?:std::iter::)?Iterator>::next$", c) and isinstance(args[0], Ptr):
        x = ex.read_loc(st, args[0])
        if isinstance(x, Agg) and x.name == "Range":
            a, b = [ex.as_int(st, y) for y in x.fields]
            if not ex.split_bool(st, "(%s < %s)" % (a, b)):
                return NONE
            ex.write(st, ("cell", args[0].cell, args[0].path), Agg("Range", None, (S(str(int(a) + 1) if a.isdigit() else "(%s + 1)" % a, "int"), S(b, "int"))))
            return opt_some(S(a, "int"))
    return internal(ex, st, c, args)

# an iterator method that runs a closure on every item is the loop it stands for
LOOP = """fn %(raw)s(_1: I, _2: %(t2)s, _3: F) -> R {
    let mut _0: R;
    let mut _4: &mut I;
    let mut _5: O;
    let mut _6: isize;
    let mut _7: X;
    let mut _8: &mut F;
    let mut _9: (X,);
    let mut _10: Y;
    let mut _11: isize;
    debug iter => _1;
    debug acc => _2;
    debug f => _3;
    bb0: {
        goto -> bb1;
    }
    bb1: {
        _4 = %(it)s;
        _5 = %(next)s(copy _4) -> [return: bb2, unwind continue];
    }
    bb2: {
        _6 = discriminant(_5);
        switchInt(move _6) -> [0: bb4, 1: bb3, otherwise: bb9];
    }
    bb3: {
        _7 = move ((_5 as Some).0: X);
        _8 = &mut _3;
        _9 = (%(args)s);
        %(into)s = <F as FnMut<(X,)>>::call_mut(copy _8, move _9) -> [return: bb5, unwind continue];
    }
    bb4: {
        %(end)s
        return;
    }
    bb5: {
        %(after)s
    }
    bb6: {
        _0 = move _10;
        return;
    }
    bb9: {
        unreachable;
    }
}
"""
LOOPFN = {}
def internal(ex, st, c, args):
    m = re.match(r"(<.* as (?:std::iter::|core::iter::)?Iterator>)::(for_each|fold|try_for_each|all|any)::<(.*)>$", c)
    if not m:
        return NotImplemented
    op, gen = m.group(2), M.split_top(m.group(3))
    if c not in LOOPFN:
        d = {"raw": "loop%d" % len(LOOPFN), "next": m.group(1) + "::next", "args": "move _7,", "into": "_10", "end": "_0 = const ();", "after": "goto -> bb1;", "t2": "()", "it": "&mut _1" if op in ("for_each", "fold") else "copy _1"}
        if op == "fold":
            d.update(args="move _2, move _7", into="_2", end="_0 = move _2;", t2="R")
        elif op == "try_for_each":
            ty = gen[-1]
            e = {"Result": "_0 = %s::Ok(const ());", "Option": "_0 = %s::Some(const ());"}.get(M.type_head(ty))
            if not e:
                return NotImplemented
            good, bad = (0, 1) if "Ok" in e else (1, 0)
            d.update(end=e % ty.replace("<", "::<", 1), after="_11 = discriminant(_10);\n        switchInt(move _11) -> [%d: bb1, %d: bb6, otherwise: bb9];" % (good, bad))
        elif op in ("all", "any"):
            d.update(end="_0 = const %s;" % ("true" if op == "all" else "false"), after="switchInt(copy _10) -> [0: %s, otherwise: %s];" % (("bb6", "bb1") if op == "all" else ("bb1", "bb6")))
        (f,) = M.parse_fn_text(LOOP % d)
        f.key = "iterator loop"
        LOOPFN[c] = f
    a = [args[0]] + ([UNIT] if op != "fold" else []) + list(args[1:])
    return ex.exec_fn(st, LOOPFN[c], a)
