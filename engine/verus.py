"""Turns obligations into a Verus file, runs Verus, maps its answers back."""
import os, re, json, subprocess, time, hashlib
import mirparse as M

THEORY = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "theory")
VERUS = os.environ.get("VERUS", "verus")

def emit_fn(facts, goals, vars, hints, name, fuel, extra):
    """one proof function: on a path with these facts, every goal holds.  goals: [(id, text)]"""
    facts = [f for f in facts if f != "true"]
    text = " ".join(facts) + " " + " ".join(g for _, g in goals) + " " + " ".join(hints) + " " + extra
    names = set(re.findall(r"\b\w+\b", text))
    out = ["proof fn %s(%s)" % (name, ", ".join("%s: %s" % v for v in vars if v[0] in names))]
    if facts:
        out.append("    requires")
        for f in facts:
            out.append("        (%s)," % f)
    body = ["    reveal_with_fuel(%s, %d);" % x for x in fuel]
    if re.search(r"\bT::L\b", text):
        body.append("    unfl();")
    nodes = ctor_terms(text, "T::N(")
    body += ["    unf(%s);" % x for x in nodes]
    # nodes that differ only in colour and stored hash hold the same entries
    groups = {}
    for x in nodes:
        a = M.split_top(x[5:-1])
        groups.setdefault((a[1], a[2], a[3]), []).append(x)
    for g in groups.values():
        for y in g[1:]:
            body.append("    lemma_recol(%s, %s);" % (g[0], y))
    if any("UMAX()" in x for _, x in goals):
        body.append("    ax_umax();")
    body += ["    " + h for h in hints]
    if extra:
        body.append("    " + extra)
    out.append("{")
    out += body
    for i, g in goals:
        out.append("//@ %d" % i)
        out.append("    assert(%s);" % g)
    out.append("//@ -")
    out.append("}")
    return "\n".join(out) + "\n"

def ctor_terms(text, pat):
    """all subterms of the text that are built by this constructor"""
    out, i = [], 0
    while True:
        i = text.find(pat, i)
        if i < 0:
            return sorted(set(out), key=len)
        j, d = i + len(pat), 1
        while d:
            d += {"(": 1, ")": -1}.get(text[j], 0)
            j += 1
        x = text[i:j]
        if "|" not in x:
            out.append(x)
        i += len(pat)

class Result:
    pass

# instances of a generic theory file: its names, renamed ("file.rs:instance")
RENAME = {"paged": {"Q": "UK", "bq": "ubk", "rq": "urk", "qk": "uqk", "isp": "uisp", "ax_isp": "ax_uisp", "ax_borrow": "ax_uborrow", "pmax": "upmax", "modp": "umodp",
                    "lemma_pmax": "lemma_upmax", "lemma_pmax_b": "lemma_upmax_b"}}

def rename(text, inst):
    return re.sub(r"\b(%s)\b" % "|".join(RENAME[inst]), lambda m: RENAME[inst][m.group(1)], text)

def load_theory(files):
    out = []
    for f in files:
        name, _, inst = f.partition(":")
        text = open(os.path.join(THEORY, name)).read()
        out.append(rename(text, inst) if inst else text)
    return "\n".join(out)

def run(obls, theory_files, workdir, name, fuel=(), extra=lambda o: "", rlimit=30, timeout=800, procs=None, opts=(), check_theory=True):
    os.makedirs(workdir, exist_ok=True)
    procs = procs or min(8, os.cpu_count() or 4)
    # identical obligations are proved once; obligations of one point of a path share a proof function
    uniq, order = {}, []
    for o in obls:
        key = (o.goal, o.facts, o.hints)
        if key not in uniq:
            uniq[key] = []
            order.append(key)
        uniq[key].append(o)
    groups, rep = {}, {}
    for i, key in enumerate(order):
        o = uniq[key][0]
        rep[i] = key
        k = (o.facts, o.hints, extra(o), o.kind == "reach")
        groups.setdefault(k, []).append((i, o))
    fns = []
    for (facts, hints, ex, _), gs in groups.items():
        for c in range(0, len(gs), 8):
            part = gs[c:c + 8]
            vs, seen = [], set()
            for _, o in part:
                for v in o.vars:
                    if v not in seen:
                        seen.add(v)
                        vs.append(v)
            fns.append((emit_fn(facts, [(i, o.goal) for i, o in part], vs, hints, "o%d" % part[0][0], fuel, ex), [i for i, _ in part]))
    # spread over several files, balanced by size
    n = max(1, min(procs, (len(fns) + 3) // 4))
    bins = [[0, []] for _ in range(n)]
    for f in sorted(fns, key=lambda f: -len(f[0])):
        b = min(bins, key=lambda b: b[0])
        b[0] += len(f[0]) + 300
        b[1].append(f)
    theory = load_theory(theory_files)
    jobs = []
    for bi, (_, fs) in enumerate(bins):
        text = ["#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\npub mod theory {\nuse super::*;\n", theory, "\n}\npub mod m {\nuse super::*; use super::theory::*;\n"]
        text += [f[0] for f in fs]
        text.append("}\n}\nfn main() {}\n")
        path = os.path.join(workdir, "%s%d.rs" % (name, bi))
        text = "".join(text)
        with open(path, "w") as fh:
            fh.write(text)
        cmd = [VERUS, path, "--error-format=json", "--multiple-errors", "10", "--rlimit", str(rlimit), "--num-threads", "2", "--no-report-long-running"] + list(opts)
        if bi or not check_theory:
            cmd += ["--verify-module", "m"]
        jobs.append((path, text, cmd))
    t0 = time.time()
    r = Result()
    r.cmd = " ".join(jobs[0][2]) if jobs else ""
    r.paths = [j[0] for j in jobs]
    r.failed, r.errors, r.theory_failed = {}, [], []
    r.verified = r.nerr = 0
    r.timeout, r.out, r.smt_ms = False, "", 0
    ps = []
    for path, text, cmd in jobs:
        ps.append(subprocess.Popen(cmd, stdout=open(path + ".out", "w"), stderr=subprocess.STDOUT, cwd=workdir))
    for p, (path, text, cmd) in zip(ps, jobs):
        try:
            p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            r.timeout = True
        out = open(path + ".out", errors="replace").read()
        r.out += out
        digest(r, path, text, out)
    r.wall = time.time() - t0
    r.ok = not r.errors and not r.theory_failed and not r.timeout
    r.failed_obls = []
    for i in r.failed:
        for o in uniq[rep[i]]:
            r.failed_obls.append((o, r.failed[i]))
    r.nuniq = len(order)
    r.uniq = uniq
    return r

FAILRX = r"assertion failed|postcondition not satisfied|precondition not satisfied|rlimit|Resource limit|could not prove|decreases"

def digest(r, path, text, out):
    owner, inside, cur, curfn = {}, {}, None, None
    for ln, s in enumerate(text.split("\n"), 1):
        m = re.match(r"//@ (\d+|-)$", s)
        if m:
            cur = int(m.group(1)) if m.group(1) != "-" else None
            if cur is not None:
                inside.setdefault(curfn, []).append(cur)
        elif s.startswith("proof fn o"):
            curfn = ln
            cur = None
        owner[ln] = (cur, curfn)
    base = os.path.basename(path)
    found = 0
    for line in out.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting"):
            continue
        sp = [s for s in (d.get("spans") or []) if os.path.basename(s["file_name"]) == base]
        if re.search(FAILRX, d["message"]):
            ids = set()
            for s in sp:
                cur, fn = owner.get(s["line_start"], (None, None))
                if cur is not None:
                    ids.add(cur)
            if not ids:
                # resource limit of a whole function, or a lemma call inside it: nothing in it counts as proved
                for s in sp:
                    cur, fn = owner.get(s["line_start"], (None, None))
                    if fn is not None:
                        ids |= set(inside.get(fn, []))
            if ids:
                found += 1
                for i in ids:
                    r.failed.setdefault(i, []).append(d["message"])
            else:
                found += 1
                r.theory_failed.append(d.get("rendered") or d["message"])
        else:
            r.errors.append(d.get("rendered") or d["message"])
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    if not m:
        r.errors.append("verus gave no result for " + path + ": " + out[-300:])
        return
    r.verified += int(m.group(1))
    r.nerr += int(m.group(2))
    if int(m.group(2)) > 0 and not found:
        r.errors.append("verus reports errors that could not be attributed")
