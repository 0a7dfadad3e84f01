"""Constants of the current source that are not in base_lits.json (made when the checks were written).
They only steer the generated cases towards sizes, bytes and strings that the code treats specially; nothing is concluded from them."""
import os, re, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "base_lits.json")

def esc(s):
    try:
        return s.encode("latin1", "backslashreplace").decode("unicode_escape").encode("latin1")
    except Exception:
        return s.encode("utf8", "replace")

def scan(repo, mir=None):
    nums, strs = set(), set()
    texts = []
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            if f.endswith(".rs"):
                t = open(os.path.join(d, f), errors="replace").read()
                texts.append(re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S))
    for t in texts:
        for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', t):
            if len(m.group(1)) < 80:
                strs.add(m.group(1))
        u = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
        for m in re.finditer(r"b?'((?:[^'\\]|\\.))'", u):
            e = esc(m.group(1))
            nums.update(e[:1])
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)", u):
            try:
                nums.add(int(m.group(1).replace("_", ""), 0))
            except ValueError:
                pass
        for m in re.finditer(r"\b1(?:_?[ui](?:8|16|32|64|128|size))?\s*<<\s*([0-9]+)", u):
            nums.add(1 << min(int(m.group(1)), 63))
        for m in re.finditer(r"\b([0-9][0-9_]*)\s*\*\s*([0-9][0-9_]*)", u):
            nums.add(int(m.group(1).replace("_", "")) * int(m.group(2).replace("_", "")))
    if mir and os.path.isdir(mir):
        for f in os.listdir(mir):
            if f.endswith("ElaborateDrops.after.mir"):
                t = open(os.path.join(mir, f), errors="replace").read()
                for m in re.finditer(r"const (-?[0-9]+)_[iu](?:8|16|32|64|128|size)|; ([0-9]+)\]", t):
                    nums.add(abs(int(m.group(1) or m.group(2))))
                for m in re.finditer(r"switchInt\([^)]*\) -> \[([^\]]*)\]", t):
                    nums.update(int(x) for x in re.findall(r"([0-9]+): bb", m.group(1)))
    return {n for n in nums if n < 1 << 64}, strs

def env(repo, mir):
    """value of LITS for the harness"""
    try:
        base = json.load(open(BASE))
        n, s = scan(repo, mir)
        n = sorted(n - set(base["nums"]))[:60]
        s = sorted(s - set(base["strs"]))[:40]
        return "%s;%s" % (",".join(str(x) for x in n), ",".join(esc(x).hex() or "" for x in s if x))
    except Exception as e:
        return ""

if __name__ == "__main__":
    if sys.argv[1:2] == ["--write"]:
        n, s = scan(sys.argv[2], sys.argv[3])
        json.dump({"nums": sorted(n), "strs": sorted(s)}, open(BASE, "w"), indent=0)
    else:
        print(env(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
