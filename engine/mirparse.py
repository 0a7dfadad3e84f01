"""Parser for the textual MIR that rustc dumps (after drop elaboration)."""
import os, re, glob

class Unsupported(Exception):
    pass

class Fn:
    __slots__ = ("raw", "key", "args", "ret", "locals", "debug", "blocks", "file", "impl_at", "hdr", "line", "promoted_of")
    def __repr__(self):
        return "<Fn %s>" % self.key

OPEN = {"(": ")", "[": "]", "{": "}", "<": ">"}

def split_top(s, sep=","):
    """Split s at top-level separators (brackets <> () [] {} and string literals respected)."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        ch = s[i]
        if ch == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if ch in "([{<":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        elif ch == ">":
            if i > 0 and s[i - 1] in "-=":
                pass
            else:
                depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append("".join(cur).strip()); cur = []; i += len(sep); continue
        cur.append(ch); i += 1
    last = "".join(cur).strip()
    if last or out:
        out.append(last)
    return [x for x in out if x != ""] if sep == "," else out

def match_close(s, i):
    """index of the bracket matching the one at s[i]"""
    depth, n = 0, len(s)
    j = i
    while j < n:
        ch = s[j]
        if ch == '"':
            j += 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
        elif ch in "([{<":
            depth += 1
        elif ch in ")]}" or (ch == ">" and s[j - 1] not in "-="):
            depth -= 1
            if depth == 0:
                return j
        j += 1
    raise Unsupported("unbalanced: " + s[:80])

# ---- places: ("local", n) | ("deref", p) | ("field", p, i, ty) | ("down", p, variant) | ("index", p, local) | ("cindex", p, i, from_end) | ("sub", p, a, b)
def parse_place(s):
    p, rest = _place(s.strip())
    if rest.strip():
        raise Unsupported("place: " + s)
    return p

def _place(s):
    m = re.match(r"_(\d+)", s)
    if m:
        p, rest = ("local", int(m.group(1))), s[m.end():]
    elif s.startswith("("):
        j = match_close(s, 0)
        inner, rest = s[1:j], s[j + 1:]
        if inner.startswith("*"):
            q, r = _place(inner[1:])
            if r.strip():
                raise Unsupported("place: " + s)
            p = ("deref", q)
        else:
            q, r = _place(inner)
            r = r.strip()
            if r.startswith("."):
                m = re.match(r"\.(\d+): (.*)$", r, re.S)
                if not m:
                    raise Unsupported("place: " + s)
                p = ("field", q, int(m.group(1)), m.group(2).strip())
            elif r.startswith("as "):
                v = r[3:].strip()
                if v.startswith("variant#"):
                    raise Unsupported("place: " + s)
                p = ("down", q, v)
            elif r == "":
                p = q
            else:
                raise Unsupported("place: " + s)
    else:
        raise Unsupported("place: " + s)
    while rest.startswith("["):
        j = match_close(rest, 0)
        ix = rest[1:j]
        m = re.match(r"_(\d+)$", ix)
        m2 = re.match(r"(-?)(\d+) of (\d+)$", ix)
        if m:
            p = ("index", p, int(m.group(1)))
        elif m2:
            p = ("cindex", p, int(m2.group(2)), bool(m2.group(1)))
        else:
            raise Unsupported("place index: " + s)
        rest = rest[j + 1:]
    return p, rest

# ---- operands: ("copy", place) ("move", place) ("const", text)
def parse_operand(s):
    s = s.strip()
    if s.startswith("copy "):
        return ("copy", parse_place(s[5:]))
    if s.startswith("move "):
        return ("move", parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", s[6:].strip())
    if re.match(r"(<.* as .*>|[A-Za-z_]\w*(::.*)?)::\w+(::<.*>)?$", s):      # a function named without `const`
        return ("const", s)
    raise Unsupported("operand: " + s)

BINOPS = {"Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Lt", "Le", "Ne", "Ge", "Gt", "Cmp", "Offset",
          "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked"}
UNOPS = {"Not", "Neg", "PtrMetadata"}

def parse_rvalue(s):
    s = s.strip()
    m = re.match(r"(.*?) as (?:for<[^>]*> )?(?:unsafe )?(?:extern \"[^\"]*\" )?fn\(.* \(PointerCoercion\(ReifyFnPointer.*\)$", s)
    if m and not re.match(r"(copy|move|const) ", s):
        return ("fnptr", m.group(1).strip())
    if s.startswith("&"):
        for pre, kind in (("&raw const ", "rawc"), ("&raw mut ", "rawm"), ("&mut ", "mut"), ("&fake shallow ", "fake"), ("&fake ", "fake"), ("&", "shared")):
            if s.startswith(pre):
                return ("ref", kind, parse_place(s[len(pre):]))
    if s.startswith("deref_copy "):
        return ("use", ("copy", parse_place(s[11:])))
    if s.startswith("no_retag "):
        s = s[9:]
    m = re.match(r"(copy|move|const) ", s)
    if m:
        # cast?   <operand> as <type> (<Kind>)
        if s.endswith(")"):
            parts = split_top(s, " as ")
            if len(parts) >= 2 and not (m.group(1) != "const" and len(parts) == 1):
                op = " as ".join(parts[:-1])
                ty = parts[-1]
                k = ty.rfind(" (")
                # kinds may contain nested parens
                depth = 0
                for idx in range(len(ty) - 1, -1, -1):
                    if ty[idx] == ")":
                        depth += 1
                    elif ty[idx] == "(":
                        depth -= 1
                        if depth == 0:
                            k = idx
                            break
                kind = ty[k + 1:-1]
                try:
                    return ("cast", parse_operand(op), ty[:k].strip(), kind)
                except Unsupported:
                    pass
        return ("use", parse_operand(s))
    m = re.match(r"discriminant\(", s)
    if m:
        return ("discr", parse_place(s[m.end():match_close(s, m.end() - 1)]))
    m = re.match(r"Len\(", s)
    if m:
        return ("len", parse_place(s[m.end():-1]))
    m = re.match(r"([A-Z]\w+)\(", s)
    if m and m.group(1) in BINOPS and match_close(s, m.end() - 1) == len(s) - 1:
        a = split_top(s[m.end():-1])
        if len(a) == 2 and re.match(r"(copy|move|const) ", a[0]):
            return ("bin", m.group(1), parse_operand(a[0]), parse_operand(a[1]))
    if m and m.group(1) in UNOPS and match_close(s, m.end() - 1) == len(s) - 1:
        a = s[m.end():-1]
        if re.match(r"(copy|move|const) ", a):
            return ("un", m.group(1), parse_operand(a))
    if s.startswith("CopyForDeref("):
        return ("use", ("copy", parse_place(s[13:-1])))
    if s.startswith("("):
        return ("tuple", [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith("["):
        inner = s[1:-1]
        parts = split_top(inner, ";")
        if len(parts) == 2:
            return ("repeat", parse_operand(parts[0]), parts[1])
        return ("array", [parse_operand(x) for x in split_top(inner)])
    if s.startswith("{closure@"):
        j = match_close(s, 0)
        name = s[:j + 1]
        rest = s[j + 1:].strip()
        fields = []
        if rest.startswith("{"):
            for f in split_top(rest[1:-1]):
                k, v = f.split(":", 1)
                fields.append((k.strip(), parse_operand(v)))
        return ("closure", name, fields)
    # aggregates: Path { f: op, .. } / Path(op, ..) / Path
    j = find_agg(s)
    if j is None:
        return ("agg", s, None, [])
    if s[j] == "{":
        fields = []
        for f in split_top(s[j + 1:-1]):
            k, v = f.split(":", 1)
            fields.append((k.strip(), parse_operand(v)))
        return ("agg", s[:j].strip(), "named", fields)
    return ("agg", s[:j].strip(), "pos", [(i, parse_operand(x)) for i, x in enumerate(split_top(s[j + 1:-1]))])

def find_agg(s):
    depth = 0
    for i, ch in enumerate(s):
        if ch == "<":
            depth += 1
        elif ch == ">" and s[i - 1] not in "-=":
            depth -= 1
        elif ch in "({" and depth == 0:
            return i
        elif ch == "{" and depth > 0:
            depth += 1
        elif ch == "}" and depth > 0:
            depth -= 1
    return None

def parse_targets(s):
    """'[return: bb1, unwind: bb2]' / 'unwind continue' / 'bb3' -> (ret_block|None)"""
    m = re.search(r"return: bb(\d+)", s)
    if m:
        return int(m.group(1))
    m = re.search(r"success: bb(\d+)", s)
    if m:
        return int(m.group(1))
    m = re.match(r"bb(\d+)$", s.strip())
    if m:
        return int(m.group(1))
    return None

def split_arrow(s):
    """split 'lhs -> targets' at the last top-level ' -> '"""
    parts = split_top(s, " -> ")
    if len(parts) < 2:
        return s, None
    return " -> ".join(parts[:-1]), parts[-1]

def parse_stmt(line):
    """-> ("stmt", ...) or ("term", ...) or None"""
    s = line.strip()
    if s.endswith(";"):
        s = s[:-1]
    if re.match(r"(StorageLive|StorageDead|PlaceMention|FakeRead|AscribeUserType|Retag|nop|ConstEvalCounter|Coverage|BackwardIncompatibleDropHint)\b", s):
        return None
    if s == "return":
        return ("return",)
    if s == "unreachable":
        return ("unreachable",)
    if s in ("resume",) or s.startswith("terminate("):
        return ("resume",)
    if s.startswith("goto -> "):
        return ("goto", parse_targets(s[8:]))
    if s.startswith("switchInt("):
        j = match_close(s, 9)
        op = parse_operand(s[10:j])
        t = s[j + 1:].strip()
        t = t[t.index("[") + 1:t.rindex("]")]
        arms, other = [], None
        for part in split_top(t):
            k, v = part.split(":")
            b = int(v.strip()[2:])
            if k.strip() == "otherwise":
                other = b
            else:
                arms.append((int(k.strip()), b))
        return ("switch", op, arms, other)
    if s.startswith("drop("):
        j = match_close(s, 4)
        return ("drop", parse_place(s[5:j]), parse_targets(s[j + 1:].strip()[3:].strip()))
    if s.startswith("assert("):
        j = match_close(s, 6)
        args = split_top(s[7:j])
        c = args[0]
        exp = True
        if c.startswith("!"):
            exp, c = False, c[1:]
        return ("assert", parse_operand(c), exp, args[1] if len(args) > 1 else "", parse_targets(s[j + 1:].strip()[3:].strip()))
    if s.startswith("falseEdge") or s.startswith("falseUnwind"):
        raise Unsupported(s)
    m = re.match(r"discriminant\((.*)\) = (\d+)$", s)
    if m:
        return ("setdiscr", parse_place(m.group(1)), int(m.group(2)))
    if s.startswith("assume("):
        return ("assume", parse_operand(s[7:-1]))
    # assignment or call
    eq = split_top(s, " = ")
    if len(eq) < 2:
        raise Unsupported("stmt: " + s)
    lhs = parse_place(eq[0])
    rhs = " = ".join(eq[1:])
    body, tg = (rhs, None) if "PointerCoercion(" in rhs else split_arrow(rhs)
    if tg is not None and (tg.startswith("[return") or tg.startswith("unwind") or re.match(r"bb\d+$", tg)):
        # call:  callee(args)
        assert body.endswith(")")
        # find the opening paren of the argument list
        j = None
        depth = 0
        for i in range(len(body) - 1, -1, -1):
            ch = body[i]
            if ch in ")]}":
                depth += 1
            elif ch in "([{":
                depth -= 1
                if depth == 0:
                    j = i
                    break
        # strings inside args with brackets: fall back to forward scan
        try:
            if match_close(body, j) != len(body) - 1:
                raise Unsupported("")
        except Exception:
            j = forward_args(body)
        callee, args = body[:j].strip(), split_top(body[j + 1:-1])
        return ("call", lhs, callee, [parse_operand(a) for a in args], parse_targets(tg) if tg.startswith("[return") or tg.startswith("bb") else None)
    return ("assign", lhs, parse_rvalue(rhs))

def forward_args(body):
    depth, i, n = 0, 0, len(body)
    while i < n:
        ch = body[i]
        if ch == '"':
            i += 1
            while body[i] != '"':
                i += 2 if body[i] == "\\" else 1
        elif ch == "(" and depth == 0:
            if match_close(body, i) == n - 1:
                return i
            i = match_close(body, i)
        elif ch in "[{<":
            depth += 1
        elif ch in "]}" or (ch == ">" and body[i - 1] not in "-="):
            depth -= 1
        i += 1
    raise Unsupported("call: " + body)

def parse_fn_text(text):
    """Returns Fn objects contained in one dump file (parses headers and blocks lazily)."""
    lines = text.split("\n")
    fns, i = [], 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith("fn ") or ((ln.startswith("const ") or ln.startswith("static ")) and ln.rstrip().endswith("{")):
            f, i = parse_one(lines, i)
            if f is not None:
                fns.append(f)
        else:
            i += 1
    return fns

def parse_one(lines, i):
    hdr = lines[i].rstrip()
    f = Fn()
    f.line = i
    f.locals, f.debug, f.blocks = {}, {}, {}
    f.args = []
    f.promoted_of = None
    if hdr.startswith("fn "):
        h = hdr[3:-1].strip()
        j = header_args(h)
        k = match_close(h, j)
        f.raw = h[:j]
        for a in split_top(h[j + 1:k]):
            m = re.match(r"_(\d+): (.*)$", a, re.S)
            f.args.append((int(m.group(1)), m.group(2)))
        r = h[k + 1:].strip()
        f.ret = r[2:].strip() if r.startswith("->") else "()"
    else:
        h = hdr.split(" ", 1)[1]
        m = re.match(r"(.*?): (.*) = \{$", h)
        cut = h.rindex(" = {")
        nm = split_top(h[:cut], ": ")
        f.raw, f.ret = nm[0], ": ".join(nm[1:])
    for n, ty in f.args:
        f.locals[n] = ty
    i += 1
    cur = None
    while i < len(lines):
        ln = lines[i].strip()
        if lines[i].startswith("}"):
            i += 1
            break
        m = re.match(r"bb(\d+)( \(cleanup\))?: \{$", ln)
        if m:
            cur = int(m.group(1))
            stm = []
            i += 1
            while lines[i].strip() != "}":
                s = lines[i].strip()
                # multi-line statements do not occur; strip trailing comments
                s = re.sub(r"\s+// .*$", "", s) if '"' not in s else s
                if s and not s.startswith("//"):
                    stm.append(s)
                i += 1
            f.blocks[cur] = (bool(m.group(2)), stm)
            i += 1
            continue
        m = re.match(r"let (?:mut )?_(\d+): (.*);$", ln)
        if m:
            f.locals[int(m.group(1))] = m.group(2)
        m = re.match(r"debug (\S+) => (.*);$", ln)
        if m:
            f.debug.setdefault(m.group(1), []).append(m.group(2))
        i += 1
    return f, i

def header_args(h):
    depth = 0
    for i, ch in enumerate(h):
        if ch in "<{[":
            depth += 1
        elif ch in "}]" or (ch == ">" and h[i - 1] not in "-="):
            depth -= 1
        elif ch == "(" and depth == 0:
            return i
    raise Unsupported("header: " + h)

# ---------------------------------------------------------------- names
def strip_generics(s):
    """remove ::<...> and <...> that follow an identifier; keep leading <T as Trait> qualified paths"""
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == "<":
            j = match_close(s, i)
            i = j + 1
            if out[-2:] == [":", ":"]:
                out = out[:-2]
            continue
        out.append(s[i])
        i += 1
    return "".join(out)

def type_head(t):
    """'&mut rbtree::Node<K, V>' -> 'Node' ; '[u8; 32]' -> '[u8; 32]' ; 'Box<T>' -> 'Box'"""
    t = t.strip()
    t = re.sub(r"'\w+ ", "", t)
    if t.startswith("&"):
        return "&" + type_head(re.sub(r"^&(mut )?", "", t))
    if t.startswith("[") or t.startswith("("):
        return t
    if t.startswith("*"):
        return t
    if t.startswith("dyn "):
        return "dyn " + type_head(t[4:])
    return strip_generics(t).split("::")[-1].strip()

class Program:
    def __init__(self, mirdir, srcroot):
        self.srcroot = srcroot
        self.fns, self.promoted = [], {}
        self.src_cache = {}
        self.closures = {}
        for path in sorted(glob.glob(os.path.join(mirdir, "*.after.mir"))):
            with open(path) as fh:
                text = fh.read()
            for f in parse_fn_text(text):
                f.file = os.path.basename(path)
                # the header line may show a trimmed name; the comment above it has the full path
                m = re.match(r"// MIR for `(.*)` after", text)
                if m and "::" not in f.raw and "<impl at" in m.group(1) and m.group(1).endswith("::" + f.raw):
                    f.raw = m.group(1)
                self.register(f)
        self.index()
        self.parse_types()

    def src(self, rel):
        if rel not in self.src_cache:
            try:
                with open(os.path.join(self.srcroot, rel)) as fh:
                    self.src_cache[rel] = fh.read().split("\n")
            except OSError:
                self.src_cache[rel] = []
        return self.src_cache[rel]

    def impl_header(self, m):
        rel, l, c = m.group(1), int(m.group(2)) - 1, int(m.group(3)) - 1
        lines = self.src(rel)
        if l >= len(lines):
            return None
        text = lines[l][c:]
        k = l
        while "{" not in text and k + 1 < len(lines) and k < l + 12:
            k += 1
            text += "\n" + lines[k]
        text = text.split("{")[0]
        text = re.sub(r"\s+", " ", re.sub(r"//.*", "", text)).strip()
        return text

    def register(self, f):
        raw = f.raw
        m = re.search(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>", raw)
        f.impl_at, f.hdr = None, ""
        mp = re.search(r"::promoted\[(\d+)\]$", raw)
        if m:
            hdr = self.impl_header(m)
            f.impl_at = (m.group(1), int(m.group(2)))
            rest = raw[m.end():].lstrip(":")
            f.hdr = re.sub(r"'\w+ |\s", "", hdr or "")
            tr = ty = None
            if hdr and hdr.startswith("impl"):
                h = hdr[4:].strip()
                if h.startswith("<"):
                    h = h[match_close(h, 0) + 1:].strip()
                h = re.split(r"\bwhere\b", h)[0].strip()
                parts = split_top(h, " for ")
                if len(parts) == 2:
                    tr, ty = parts[0].strip(), parts[1].strip()
                else:
                    ty = parts[0].strip()
                if "$" in (ty or ""):
                    ty = f.args[0][1].lstrip("&") if f.args else ty
            elif f.args:
                # derive
                ty = re.sub(r"^&(mut )?", "", f.args[0][1])
                tr = "derive"
                lines = self.src(m.group(1))
                w = re.match(r"\w+", lines[int(m.group(2)) - 1][int(m.group(3)) - 1:]) if lines else None
                if w:
                    tr = w.group(0)
            elif f.ret != "()":
                # derive of a function without arguments
                ty = f.ret
                lines = self.src(m.group(1))
                w = re.match(r"\w+", lines[int(m.group(2)) - 1][int(m.group(3)) - 1:]) if lines else None
                tr = w.group(0) if w else "derive"
            seg = strip_generics(rest)
            if tr:
                f.key = "<%s as %s>::%s" % (type_head(ty), type_head(tr), seg)
            else:
                f.key = "%s::%s" % (type_head(ty or "?"), seg)
        else:
            f.key = strip_generics(raw)
        if mp:
            self.promoted[raw] = f
            return
        mc = re.search(r"\{closure#\d+\}$", f.raw)
        self.fns.append(f)
        if mc and f.args:
            t = re.search(r"\{closure@[^}]*\}", f.args[0][1])
            if t:
                self.closures[t.group(0)] = f

    def index(self):
        self.by_key, self.by_last = {}, {}
        for f in self.fns:
            self.by_key.setdefault(f.key, []).append(f)
            self.by_last.setdefault(f.key.split("::")[-1], []).append(f)

    def get(self, key):
        if "@" in key and not "{closure@" in key:       # the implementation whose first argument is of this type
            key, ty = key.split("@", 1)
            if ty.startswith("@"):                      # ... whose header contains this text
                c = [f for f in self.by_key.get(key, []) if re.sub(r"\s", "", ty[1:]) in f.hdr]
                return c[0] if len(c) == 1 else None
            c = [f for f in self.by_key.get(key, []) if f.args and f.args[0][1].endswith(ty)]
            return c[0] if len(c) == 1 else None
        c = self.by_key.get(key, [])
        if len(c) == 1:
            return c[0]
        if not c:
            c = [f for f in self.by_last.get(key.split("::")[-1], []) if f.key.endswith("::" + key)]
            if len(c) == 1:
                return c[0]
        return None

    def get_typed(self, key, argty):
        """pick among several implementations by the first argument's type"""
        c = [f for f in self.by_key.get(key, []) if f.args and f.args[0][1] == argty]
        return c[0] if len(c) == 1 else None

    def resolve(self, callee):
        """callee text -> user Fn or None"""
        s = callee
        if s.startswith("<"):
            j = match_close(s, 0)
            inner, rest = s[1:j], s[j + 1:].lstrip(":")
            parts = split_top(inner, " as ")
            m = re.match(r"\(?(dyn .*?)\)?$", inner)
            if len(parts) == 1 and m:          # inherent function of a trait object type
                c = self.by_key.get("%s::%s" % (type_head(split_top(m.group(1), " + ")[0]), strip_generics(rest)), [])
                return c[0] if len(c) == 1 else None
            if len(parts) != 2:
                return None
            ty, tr = parts
            m = re.match(r"(?:[\w]+::)*Into<(.*)>$", tr)
            if m and rest == "into":
                return self.resolve("<%s as From<%s>>::from" % (m.group(1), ty))
            key = "<%s as %s>::%s" % (type_head(ty), type_head(tr), strip_generics(rest))
            c = self.by_key.get(key, [])
            if len(c) == 1:
                a = re.match(r"(?:\w+::)*From<(.*)>$", tr)
                if a and c[0].args and type_head(a.group(1)) != type_head(c[0].args[0][1]):
                    return None
                return c[0]
            # several implementations of one trait for one type: they differ in the trait's parameter
            m = re.search(r"<(.*)>$", tr)
            if len(c) > 1 and m and type_head(tr) in ("From", "Extend"):
                h = [x for x in c if type_head(tr) == "From" and x.args and type_head(x.args[0][1]) == type_head(m.group(1))]
                if type_head(tr) == "Extend":
                    h = [x for x in c if ("Extend<&" in x.hdr) == m.group(1).startswith("&")]
                if len(h) == 1:
                    return h[0]
            if len(c) > 1 and m:
                a = split_top(m.group(1))[-1].strip()
                pick = [f for f in c if re.sub(r"^&('\w+ )?(mut )?", "", f.ret) == a]
                if not pick and re.match(r"[A-Z]\w*$", a):       # the implementation's own name for its parameter
                    pick = [f for f in c if re.match(r"&('\w+ )?(mut )?[A-Z]\w*$", f.ret)]
                if len(pick) == 1:
                    return pick[0]
            return None
        key = strip_generics(s)
        segs = key.split("::")
        for start in range(len(segs)):
            k = "::".join(segs[start:])
            c = self.by_key.get(k, [])
            if len(c) == 1:
                if start and segs[0] in ("std", "core", "alloc"):
                    return None
                return c[0]
        if segs[0] in ("std", "core", "alloc"):
            return None
        c = [f for f in self.by_last.get(segs[-1], []) if f.key == key or f.key.endswith("::" + key)]
        if len(segs) == 1:      # a bare name is never a method
            c = [f for f in c if len(f.key.split("::")) < 2 or re.match("[a-z_]", f.key.split("::")[-2])]
        if len(c) == 1:
            return c[0]
        return None

    # ------------------------------------------------ struct / enum definitions
    def parse_types(self):
        self.structs, self.enums = {}, {}
        for root, _, files in os.walk(os.path.join(self.srcroot, "src")):
            for fn in files:
                if fn.endswith(".rs"):
                    with open(os.path.join(root, fn)) as fh:
                        self._types(fh.read())

    def _types(self, text):
        text = re.sub(r"//[^\n]*", "", text)
        for m in re.finditer(r"\b(struct|enum)\s+(\w+)", text):
            i = m.end()
            # skip generics
            j = i
            while j < len(text) and text[j].isspace():
                j += 1
            if j < len(text) and text[j] == "<":
                j = match_close(text, j) + 1
            # where clause / body
            k = j
            while k < len(text) and text[k] not in "{(;":
                k += 1
            if k >= len(text) or text[k] == ";":
                self.structs.setdefault(m.group(2), [])
                continue
            try:
                e = match_close(text, k)
            except Unsupported:
                continue
            body = text[k + 1:e]
            if m.group(1) == "struct":
                if text[k] == "{":
                    self.structs[m.group(2)] = [self._fname(x) for x in split_top(body)]
                else:
                    self.structs[m.group(2)] = [str(n) for n, _ in enumerate(split_top(body))]
            else:
                vs = []
                for x in split_top(body):
                    x = re.sub(r"#\[[^\]]*\]", "", x).strip()
                    mm = re.match(r"(\w+)\s*(.*)$", x, re.S)
                    if not mm:
                        continue
                    b = mm.group(2).strip()
                    if b.startswith("{"):
                        flds = [self._fname(y) for y in split_top(b[1:-1])]
                    elif b.startswith("("):
                        flds = [str(n) for n, _ in enumerate(split_top(b[1:-1]))]
                    else:
                        flds = []
                    vs.append((mm.group(1), flds))
                self.enums[m.group(2)] = vs

    @staticmethod
    def _fname(x):
        x = re.sub(r"#\[[^\]]*\]", "", x).strip()
        x = x.split(":")[0].strip()
        return re.sub(r"^pub(\([^)]*\))?\s+", "", x)

if __name__ == "__main__":
    import sys
    p = Program(sys.argv[1], sys.argv[2])
    bad = 0
    for f in p.fns:
        for b, (cl, st) in f.blocks.items():
            for s in st:
                try:
                    parse_stmt(s)
                except Exception as e:
                    bad += 1
                    print(f.key, s, repr(e))
    print(len(p.fns), "functions", bad, "bad statements")
    if len(sys.argv) > 3:
        for f in p.fns: print(f.key)
        print(p.structs); print(p.enums)
