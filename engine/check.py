#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree.

1. rustc dumps the MIR of the current source; every function under contract is executed symbolically along all
   of its paths, which yields proof obligations; Verus (Z3) decides them.
2. Alongside, the compiled crate is run on generated cases (a second, bounded layer that also supplies failing inputs).
exit 0: held.  exit 1 + VIOLATION line: broken.  exit 2: no answer."""
import sys, os, json, time, subprocess, re, signal, shutil, threading
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mirparse as M, symex, verus, units, lits, probes

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)

# ------------------------------------------------------------------------------- the compiled crate
def build_harness(profile):
    """the harness, with the crate built in the given profile (dev: with debug assertions; nodbg: without, as in a release)"""
    tgt = os.path.join(BUILD, "htarget")
    sub = "debug" if profile == "dev" else profile
    fp = os.path.join(tgt, sub, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if re.match(r"(certified-vars|harness)-", d):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    try:
        r = sh(["cargo", "build", "--offline", "--profile", profile, "--target-dir", tgt], cwd=os.path.join(ROOT, "harness"), env=env)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    exe = os.path.join(tgt, sub, "harness")
    return (exe if r.returncode == 0 else None), r.stdout[-3000:]

LITS = ""

class Search:
    """several processes of the harness, each with its own seed"""
    def __init__(self, exes, prop, ms, procs, tag, base):
        """exes: the binaries, used in turn"""
        self.prop, self.ms = prop, ms
        self.dir = os.path.join(BUILD, "run", prop)
        os.makedirs(self.dir, exist_ok=True)
        self.ps = []
        self.t0 = time.time()
        for i in range(procs):
            cf = os.path.join(self.dir, "case-%s-%d.txt" % (tag, i))
            of = os.path.join(self.dir, "out-%s-%d.txt" % (tag, i))
            if os.path.exists(cf):
                os.remove(cf)
            seed = (base * 1009 + i * 7919 + 1) % (1 << 40)
            exe = exes[i % len(exes)]
            p = subprocess.Popen([exe, "search", prop, str(seed), str(ms)], stdout=open(of, "w"), stderr=subprocess.DEVNULL,
                                 env=dict(os.environ, CASE_FILE=cf, LITS=LITS), cwd=self.dir, preexec_fn=limits)
            self.ps.append((p, exe, cf, of))
        self.n = self.distinct = 0
        self.samples, self.fails = [], []

    def wait(self):
        end = self.t0 + self.ms / 1000 + 60
        for p, exe, cf, of in self.ps:
            hung = False
            try:
                p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                hung = True
            out = open(of, errors="replace").read()
            m = re.match(r"DONE (\d+) (\d+)\n", out)
            if m and p.returncode == 0:
                self.n += int(m.group(1))
                self.distinct += int(m.group(2))
                if not self.samples:
                    self.samples = [out.split("\n", 1)[1].strip()]
                continue
            m = re.match(r"FAIL (.*)\n", out)
            if m and p.returncode == 1:
                self.fails.append((m.group(1), out.split("\n", 1)[1].strip(), exe))
                continue
            if os.path.exists(cf):
                case = open(cf, errors="replace").read()
                if self.bad(exe, case):
                    why = "does not terminate" if hung else "process ended by signal %d" % -p.returncode
                    self.fails.append((why, self.shrink(exe, case), exe))
        return self.fails

    def bad(self, exe, case, timeout=20):
        f = os.path.join(self.dir, "try.txt")
        with open(f, "w") as fh:
            fh.write(case)
        try:
            r = subprocess.run([exe, "replay", self.prop, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return True
        return r.returncode != 0

    def shrink(self, exe, case):
        lines = case.split("\n")
        end = time.time() + 25
        step = max(1, len(lines) // 2)
        while time.time() < end:
            i, any_ = 1, False
            while i < len(lines) and time.time() < end:
                c = lines[:i] + lines[i + step:]
                if self.bad(exe, "\n".join(c), 3):
                    lines, any_ = c, True
                else:
                    i += step
            if step == 1 and not any_:
                break
            step = step if any_ else max(1, step // 2)
        return "\n".join(lines)

    def stop(self):
        for p, _, _, _ in self.ps:
            if p.poll() is None:
                p.kill()

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

# ------------------------------------------------------------------------------- the proof
class Proof:
    def __init__(self, prop):
        self.prop = prop
        self.functions, self.lost, self.inlined = [], [], set()
        self.obl = self.dis = self.mine = 0
        self.failed, self.undecided, self.others = [], [], []
        self.errors, self.theory_failed = [], []
        self.cmds, self.smt, self.vacuous = [], 0.0, []
        self.by_label, self.lemmas = {}, 0
        self.assumed = set()
        self.variant = 0

def mine(label, prop):
    return prop in label.split()

def changed(a, b):
    """keys of the functions whose bodies are not the same in both programs (closures count for the function they are in)"""
    def bodies(p):
        d = {}
        for f in p.fns:
            d.setdefault(re.sub(r"::\{closure.*", "", f.key), []).append(repr((f.hdr, f.args, f.ret, f.locals, f.blocks)))
        return {k: sorted(v) for k, v in d.items()}
    x, y = bodies(a), bodies(b)
    return {k for k in set(x) | set(y) if x.get(k) != y.get(k)}

def prove(prop, prog, prog2, tier):
    """prog: the crate as built with debug assertions; prog2: without (None: not available)"""
    pr = Proof(prop)
    differ = changed(prog, prog2) if prog2 else set()
    for uname in units.PROPS.get(prop, []):
        u = units.UNITS[uname]
        try:
            mod = u.load()
        except M.Unsupported as e:
            pr.lost.append((uname, "*", str(e)))
            continue
        obls = []
        touched = set()
        for key, var in [(k, 0) for k in u.keys] + [(k, 1) for k in u.keys]:
            if var and key not in touched:
                continue
            con = mod.CONTRACTS[key]
            ex = symex.Exec(prog2 if var else prog, mod.CONTRACTS, dict(getattr(mod, "ENV", {})))
            ex.loops = getattr(mod, "LOOPS", {})
            ex.hooks.update(getattr(mod, "HOOKS", {}))
            try:
                con.check(ex)
            except M.Unsupported as e:
                pr.lost.append((uname, key, str(e)))
                continue
            except RecursionError as e:
                pr.lost.append((uname, key, "recursion"))
                continue
            except Exception as e:          # an extraction that breaks off decides nothing
                pr.lost.append((uname, key, "%s: %s" % (type(e).__name__, e)))
                continue
            if {re.sub(r"::\{closure.*|[@#].*", "", k) for k in {key} | ex.inlined} & differ:
                touched.add(key)
            if var:
                pr.variant += 1
                for o in ex.obls:
                    o.desc += " (built without debug assertions)"
                obls += [o for o in ex.obls if o.kind != "reach"]
                continue
            pr.functions.append(key)
            pr.inlined |= ex.inlined
            pr.assumed |= {k for k in ex.used_contracts if k not in u.keys}
            obls += ex.obls
        if not obls:
            continue
        goals = [o for o in obls if o.kind != "reach"]
        extra = lambda o: mod.CONTRACTS[o.fn].extra if mod.CONTRACTS[o.fn].extra is not None else mod.EXTRA
        wd = os.path.join(BUILD, "run", prop, uname)
        rl = 60 if tier == "thorough" else 30
        r = verus.run(goals, u.theory, wd, "p", fuel=mod.FUEL, extra=extra, rlimit=rl, timeout=500)
        pr.cmds.append(r.cmd)
        pr.smt += r.wall
        pr.errors += r.errors
        pr.theory_failed += r.theory_failed
        if r.timeout:
            pr.errors.append("Verus ran out of time")
        pr.obl += len(goals)
        pr.lemmas += len(re.findall(r"\bproof fn ", verus.load_theory(u.theory)))
        bad = {id(o) for o, _ in r.failed_obls}
        if not r.errors and not r.timeout:
            pr.dis += len(goals) - len(bad)
        for o in goals:
            for l in o.label.split():
                a = pr.by_label.setdefault(l, [0, 0])
                a[0] += 1
                a[1] += id(o) not in bad
        for o, msgs in r.failed_obls:
            res = all(re.search(r"rlimit|Resource limit", m) for m in msgs)
            (pr.undecided if res else pr.failed if mine(o.label, prop) else pr.others).append((uname, o, msgs))
        pr.mine += sum(1 for o in goals if mine(o.label, prop))
        # vacuity: some return of every function has to be reachable, so "false" must not follow there
        reach = {}
        for o in obls:
            if o.kind == "reach":
                reach.setdefault(o.fn, []).append(o)
        pick = []
        for fn, os_ in reach.items():
            os_ = sorted(os_, key=lambda o: len(o.facts))
            n = len(os_)
            pick += [os_[i] for i in sorted({0, n // 2, n - 1})]
        if pick:
            rr = verus.run(pick, u.theory, wd, "v", fuel=mod.FUEL, extra=extra, rlimit=4, timeout=200, check_theory=False)
            badr = {id(o) for o, _ in rr.failed_obls}
            if not rr.errors and not rr.timeout:
                for fn in reach:
                    if not any(id(o) in badr for o in pick if o.fn == fn):
                        pr.vacuous.append(fn)
    return pr

# ------------------------------------------------------------------------------- findings
def findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

TRUSTED = [
    "rustc (MIR of the current source, -Zdump-mir=ElaborateDrops) and Verus/Z3",
    "engine/: the symbolic executor that turns MIR into proof obligations (paths, memory model, models of the std functions called)",
    "K: Ord is a lawful total order, K: Borrow<Q> agrees with it, AsHashTree/Label of user types are functions of the value",
    "digests are treated as uninterpreted constructors outside C09's unit",
]

def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    rundir = os.path.join(BUILD, "run", prop)
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)

    # MIR (in a thread) and harness build
    res = {}
    def mir():
        try:
            res["mir"] = sh([os.path.join(ROOT, "tools", "dump.sh"), os.path.join(rundir, "mir"), os.path.join(BUILD, "target")], env=dict(os.environ, VERIF_REPO=REPO))
        except subprocess.TimeoutExpired:
            res["mir"] = None
        try:
            r2 = sh([os.path.join(ROOT, "tools", "dump.sh"), os.path.join(rundir, "mir2"), os.path.join(BUILD, "target"), "-C", "debug-assertions=off", "-C", "overflow-checks=on"], env=dict(os.environ, VERIF_REPO=REPO))
            res["mir2"] = r2.returncode == 0
        except subprocess.TimeoutExpired:
            res["mir2"] = False
    th = threading.Thread(target=mir)
    th.start()
    def second():
        try:
            res["exe2"] = build_harness("nodbg")[0]
        except Exception:
            res["exe2"] = None
    th2 = threading.Thread(target=second)
    th2.start()
    exe, hout = build_harness("dev")
    th.join()
    th2.join()
    exes = [exe, exe, res["exe2"] or exe]
    r = res.get("mir")
    if r is None or r.returncode != 0:
        print("the crate does not build:\n" + (r.stdout[-3000:] if r else "timeout"))
        sys.exit(2)

    global LITS
    LITS = lits.env(REPO, os.path.join(rundir, "mir"))
    search = None
    has_proof = bool(units.PROPS.get(prop))
    ms = {"quick": 12000, "thorough": 120000}[tier]
    if exe:
        search = Search(exes, prop, ms, 3 if has_proof else 6, "a", SEED)
    else:
        print("note: the harness does not build against the crate: " + hout[-600:])

    probe = {"accepted": {}, "rejected": 0, "other": {}}
    def probing():
        try:
            probe["accepted"], probe["rejected"], probe["other"] = probes.run(os.path.join(BUILD, "htarget", "debug", "deps"), os.path.join(rundir, "probes"))
        except Exception as e:
            probe["other"] = {"*": "%s: %s" % (type(e).__name__, e)}
    pth = threading.Thread(target=probing)
    if exe and prop == "C04":
        pth.start()

    pr = Proof(prop)
    if has_proof:
        try:
            prog = M.Program(os.path.join(rundir, "mir"), REPO)
            prog2 = M.Program(os.path.join(rundir, "mir2"), REPO) if res["mir2"] else None
            pr = prove(prop, prog, prog2, tier)
        except Exception as e:
            import traceback
            traceback.print_exc()
            pr.lost.append(("*", "*", "%s: %s" % (type(e).__name__, e)))
    fails = search.wait() if search else []
    if pth.ident:
        pth.join()
    extra = None
    if probe["accepted"]:
        pass
    elif (pr.failed or pr.undecided or pr.lost or pr.others) and not fails and exe:
        # something could not be shown: look harder for an input
        extra = Search(exes, prop, 45000 if pr.failed else 20000, 8, "b", SEED + 17)
        fails = extra.wait()
    n = (search.n if search else 0) + (extra.n if extra else 0)
    d = (search.distinct if search else 0) + (extra.distinct if extra else 0)

    viol = 0
    lines = []
    if fails:
        why, case, fexe = min(fails, key=lambda f: len(f[1]))
        rp = os.path.join(rundir, "replay.txt")
        with open(rp, "w") as fh:
            fh.write("# property %s: %s\n# run: %s replay %s %s\n" % (prop, why.replace("\n", " "), fexe, prop, rp))
            for un, o, msgs in pr.failed[:5]:
                fh.write("# failed obligation: [%s] %s: %s\n" % (o.label, o.fn, o.desc.replace("\n", " ")))
            fh.write(case + "\n")
        print("property %s fails: %s" % (prop, why))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        viol = 1
    elif probe["accepted"]:
        name = min(probe["accepted"])
        rp = probe["accepted"][name]
        print("property %s fails: the compiler accepts a safe program that uses memory after it was freed, moved or changed: %s" % (prop, ", ".join(sorted(probe["accepted"]))))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        viol = 1
    elif pr.failed:
        rp = os.path.join(rundir, "failed_obligations.txt")
        with open(rp, "w") as fh:
            for un, o, msgs in pr.failed:
                fh.write("FAILED OBLIGATION unit=%s function=%s property=%s\n  %s\n  goal: %s\n  on the path:\n" % (un, o.fn, o.label, o.desc, o.goal))
                for f in o.facts:
                    fh.write("    %s\n" % f)
                fh.write("  verifier: %s\n\n" % "; ".join(msgs))
        seen = []
        for un, o, _ in pr.failed:
            if (o.fn, o.desc) not in seen:
                seen.append((o.fn, o.desc))
        for fn, de in seen[:6]:
            print("failed obligation in %s: %s" % (fn, de))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        viol = 1

    for kid, what in findings(prop):
        if exe:
            try:
                k = subprocess.run([exe, "known", kid], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30)
                if k.returncode != 0:
                    print("KNOWN-FINDING: property=%s %s" % (prop, what))
            except subprocess.TimeoutExpired:
                pass

    for n, why in sorted(probe["other"].items())[:5]:
        print("probe %s decides nothing: %s" % (n, why[:200]))
    for un, key, why in pr.lost:
        print("not under contract in this run: %s (%s)" % (key, why))
    for un, o, msgs in pr.undecided[:5]:
        print("undecided (solver resource limit): %s: %s" % (o.fn, o.desc))
    if pr.others:
        print("%d obligations that belong to other properties are not discharged" % len(pr.others))
    if pr.vacuous:
        print("vacuous contracts: " + ", ".join(pr.vacuous))
    for e in pr.errors[:3] + pr.theory_failed[:3]:
        print("verifier: " + e[:1500])

    proved = has_proof and pr.mine > 0 and not (pr.failed or pr.undecided or pr.lost or pr.others or pr.errors or pr.theory_failed or pr.vacuous)
    cov = {}
    if has_proof:
        cov.update(obligations=pr.obl, discharged=pr.dis, checker_cmd=(pr.cmds[0] if pr.cmds else "none"), trusted_base=TRUSTED,
                   own_obligations=pr.mine, by_property={k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(pr.by_label.items())},
                   functions_under_contract=pr.functions, executed_in_place=sorted(pr.inlined), also_checked_without_debug_assertions=pr.variant, lemmas_verified=pr.lemmas,
                   assumed_contracts=sorted(pr.assumed), solver_wall_s=round(pr.smt, 1), back_end="Verus (Z3)",
                   not_under_contract=[list(x) for x in pr.lost], undecided=len(pr.undecided), all_discharged=proved)
    cov.update(evaluations=n, distinct_nontrivial=d, rule="random cases from engine seeds run on the compiled crate against an independent oracle; non-trivial: more than two lines (operations) and not seen before in its process",
               samples=(search.samples if search else []) or [""], bounded_layer="cases are of bounded size; this layer is exploration, never counted as proved")
    if prop == "C04":
        cov["lifetime_probes"] = {"rejected_by_the_borrow_checker": probe["rejected"], "accepted": sorted(probe["accepted"]), "not_applicable": probe["other"]}
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": LEVEL(prop), "coverage": cov,
          "assumptions": TRUSTED[2:], "wall_s": round(time.time() - t0, 1), "violations": viol}
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for l in lines:
        print(l)
    if viol:
        sys.exit(1)
    if pr.errors or pr.theory_failed:
        # the verifier gave no verdict; the bounded layer alone answers
        print("note: the proof layer gave no verdict in this run")
    print("%s: %s; %d obligations, %d discharged; %d cases" % (prop, "proved" if proved else "held on everything explored", pr.obl, pr.dis, n))
    shutil.rmtree(os.path.join(rundir, "mir"), ignore_errors=True)
    shutil.rmtree(os.path.join(rundir, "mir2"), ignore_errors=True)
    sys.exit(0)

def LEVEL(prop):
    return "proof" if units.PROPS.get(prop) else "exploration"

if __name__ == "__main__":
    main()
