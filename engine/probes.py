"""Memory safety at the API: lifetimes are not in MIR, so contracts cannot see a signature that lets a reference outlive
what it points to.  Each probe is a program in safe Rust that would use memory after it was freed, moved or changed under
a live reference.  The compiler has to reject it for that reason; a probe that compiles is itself the failing input."""
import os, re, json, glob, subprocess
from concurrent.futures import ThreadPoolExecutor

PRE = """#![allow(unused)]
use certified_vars::{rbtree::{RbTree, entry::{Entry, OccupiedEntry, VacantEntry}, iterator::RbTreeIterator}, AsHashTree, HashTree, Map, Seq, Paged, Group, GroupBuilder};
fn used<T>(_: T) {}
fn map() -> Map<String, String> { let mut m = Map::new(); m.insert("a".to_string(), "b".to_string()); m }
fn tree() -> RbTree<String, String> { let mut m = RbTree::new(); m.insert("a".to_string(), "b".to_string()); m }
"""
T, MP = "let mut t = tree(); ", "let mut t = map(); "
def after(get, how, t):
    return "%s let r = %s; %s used(r);" % (t, get, how)
PROBES = {}
def p(name, code):
    PROBES[name] = code
GONE = {"remove": 't.remove("a");', "drop": "drop(t);", "insert": 't.insert("c".to_string(), "d".to_string());'}
GONET = {"delete": 't.delete("a");', "drop": "drop(t);", "insert": 't.insert("c".to_string(), "d".to_string());', "modify": 't.modify("a", |v| *v = String::new());'}
for n, g in {"get": 't.get("a").unwrap()', "iter_item": "t.iter().next().unwrap()", "iter": "t.iter()", "get_mut": 't.get_mut("a").unwrap()', "witness": 't.witness("a")',
             "witness_keys": "t.witness_keys()", "witness_prefix": 't.witness_keys_with_prefix("a")', "as_tree_get": 't.as_tree().get("a").unwrap()', "as_hash_tree": "t.as_hash_tree()",
             "key_range": 't.witness_key_range::<str, str>(&"a".to_string(), &"b".to_string())', "value_range": 't.witness_value_range::<str, str>(&"a".to_string(), &"b".to_string())',
             "or_insert": 't.entry("a".to_string()).or_insert("x".to_string())', "or_insert_with": 't.entry("q".to_string()).or_insert_with(|| "x".to_string())', "or_default": 't.entry("q".to_string()).or_default()',
             "into_mut": 'match t.entry("a".to_string()) { Entry::Occupied(e) => e.into_mut(), _ => unreachable!() }', "vacant_insert": 'match t.entry("q".to_string()) { Entry::Vacant(e) => e.insert("x".to_string()), _ => unreachable!() }',
             "entry": 't.entry("a".to_string())', "and_modify": 't.entry("a".to_string()).and_modify(|_| {})'}.items():
    for h in ("remove", "drop"):
        p("map_%s_%s" % (n, h), after(g, GONE[h], MP))
for n, g in {"get": 't.get("a").unwrap()', "get_with": 't.get_with(|k| "a".cmp(k.as_str())).unwrap()', "max_entry": 't.max_entry_with_prefix("a").unwrap()', "insert": 't.insert("a".to_string(), "c".to_string()).1', "witness": 't.witness("a")',
             "nested": 't.nested_witness("a", |v| v.as_hash_tree())', "keys": "t.keys()", "key_range": 't.key_range("a", "b")', "value_range": 't.value_range("a", "b")', "prefix": 't.keys_with_prefix("a")',
             "iterator": "RbTreeIterator::new(&t)", "iter_item": "RbTreeIterator::new(&t).next().unwrap()", "entry": 't.entry("a".to_string())', "as_hash_tree": "t.as_hash_tree()"}.items():
    for h in ("delete", "drop", "modify"):
        p("tree_%s_%s" % (n, h), after(g, GONET[h], T))
p("modify_escape", T + 'let mut r: Option<&mut String> = None; t.modify("a", |v| r = Some(v)); t.delete("a"); used(r);')
p("modify_result", T + 'let r = t.modify::<str, &mut String>("a", |v| v); t.delete("a"); used(r);')
p("modify_max_escape", T + 'let mut r: Option<&mut String> = None; t.modify_max_with_prefix("a", |_, v| r = Some(v)); t.delete("a"); used(r);')
p("modify_max_key_escape", T + 'let mut r: Option<&String> = None; t.modify_max_with_prefix("a", |k, _| r = Some(k)); t.delete("a"); used(r);')
p("for_each_escape", T + 'let mut r = vec![]; t.for_each(|k, v| r.push((k, v))); t.delete("a"); used(r);')
p("and_modify_escape", MP + 'let mut r: Option<&mut String> = None; { t.entry("a".to_string()).and_modify(|v| r = Some(v)); } t.remove("a"); used(r);')
p("get_with_escape", T + 'let mut r: std::cell::Cell<Option<&String>> = Default::default(); { t.get_with(|k| { r.set(Some(k)); std::cmp::Ordering::Equal }); } t.delete("a"); used(r.get());')
p("nested_escape", T + 'let mut r: Option<&String> = None; { t.nested_witness("a", |v| { r = Some(v); HashTree::Empty }); } t.delete("a"); used(r);')
p("or_insert_with_key_escape", MP + 'let mut r: Option<&String> = None; { t.entry("q".to_string()).or_insert_with_key(|k| { r = Some(k); String::new() }); } t.remove("q"); used(r);')
p("occupied_get_remove", MP + 'if let Entry::Occupied(e) = t.entry("a".to_string()) { let r = e.get(); e.remove(); used(r); }')
p("occupied_get_mut_remove", MP + 'if let Entry::Occupied(mut e) = t.entry("a".to_string()) { let r = e.get_mut(); e.remove(); used(r); }')
p("occupied_get_mut_twice", MP + 'if let Entry::Occupied(mut e) = t.entry("a".to_string()) { let r = e.get_mut(); let s = e.get_mut(); used(r); used(s); }')
p("occupied_get_while_changed", MP + 'if let Entry::Occupied(mut e) = t.entry("a".to_string()) { let r = e.get(); *e.get_mut() = String::new(); used(r); }')
p("occupied_key_remove", MP + 'if let Entry::Occupied(e) = t.entry("a".to_string()) { let r = e.key(); e.remove_entry(); used(r); }')
p("vacant_key_into", MP + 'if let Entry::Vacant(e) = t.entry("q".to_string()) { let r = e.key(); e.into_key(); used(r); }')
p("vacant_key_insert", MP + 'if let Entry::Vacant(e) = t.entry("q".to_string()) { let r = e.key(); e.insert(String::new()); used(r); }')
p("two_entries", MP + 'let a = t.entry("a".to_string()); let b = t.entry("a".to_string()); used(a); used(b);')
p("get_mut_twice", MP + 'let a = t.get_mut("a"); let b = t.get_mut("a"); used(a); used(b);')
p("get_and_get_mut", MP + 'let a = t.get("a"); let b = t.get_mut("a"); used(b); used(a);')
p("get_and_clear", MP + 'let a = t.get("a"); t.clear(); used(a);')
p("iter_and_clear", MP + 'let mut a = t.iter(); t.clear(); used(a.next());')
p("iter_and_insert", MP + 'let mut a = t.iter(); t.insert("z".to_string(), String::new()); used(a.next());')
p("iter_out_of_scope", "let r = { let t = map(); let r = t.iter().next().unwrap().1; r }; used(r);")
p("seq_iter_append", "let mut s: Seq<u32> = vec![1, 2].into(); let r = s.iter(); s.append(3); used(r);")
p("seq_vec_clear", "let mut s: Seq<u32> = vec![1, 2].into(); let r = s.as_vec(); s.clear(); used(r);")
p("seq_index_drop", "let s: Seq<u32> = vec![1, 2].into(); let r = &s[0]; drop(s); used(r);")
p("seq_slice_drop", "let s: Seq<u32> = vec![1, 2].into(); let r: &[u32] = s.as_ref(); drop(s); used(r);")
p("seq_tree_append", "let mut s: Seq<u32> = vec![1, 2].into(); let r = s.iter().next(); s.append(3); used(r);")
PG = "let mut s: Paged<u32, u32, 2> = Paged::new(); s.insert(1, 2); "
p("paged_get_insert", PG + "let r = s.get(&1, 0); s.insert(1, 3); used(r);")
p("paged_witness_insert", PG + "let r = s.witness(&1, 0); s.insert(1, 3); used(r);")
p("paged_last_insert", PG + "let r = s.witness_last_page_number(&1); s.insert(1, 3); used(r);")
p("paged_tree_drop", PG + "let r = s.as_hash_tree(); drop(s); used(r);")
GR = 'let mut g = GroupBuilder::new().insert::<Map<u32, u32>, _, _>(vec!["a"], Map::new()).insert::<Map<u32, String>, _, _>(vec!["b"], Map::new()).build(); '
p("group_get_drop", GR + "let r = g.get::<Map<u32, u32>>(); drop(g); used(r);")
p("group_get_mut_twice", GR + "let r = g.get_mut::<Map<u32, u32>>(); let q = g.get_mut::<Map<u32, u32>>(); used(r); used(q);")
p("group_get_changed", GR + "let r = g.get::<Map<u32, u32>>().get(&1); g.get_mut::<Map<u32, u32>>().insert(1, 2); used(r);")
p("group_tree_changed", GR + "let r = g.as_hash_tree(); g.get_mut::<Map<u32, u32>>().insert(1, 2); used(r);")
p("group_witness_changed", GR + "let r = g.witness().full::<Map<u32, u32>>().build(); g.get_mut::<Map<u32, u32>>().insert(1, 2); used(r);")
p("group_ray_changed", GR + "let r = g.witness(); g.get_mut::<Map<u32, u32>>().insert(1, 2); used(r.build());")
p("group_partial_escape", GR + "let mut r: Option<&Map<u32, u32>> = None; { g.witness().partial::<Map<u32, u32>, _>(|m| { r = Some(m); m.as_hash_tree() }); } g.get_mut::<Map<u32, u32>>().insert(1, 2); used(r);")
for n, e in {"string": '"a".to_string()', "vec": "vec![1u8, 2]", "boxed": 'Box::new("a".to_string())', "rc": 'std::rc::Rc::new("a".to_string())', "option_like": "[1u8; 4]"}.items():
    p("value_tree_%s" % n, "let v = %s; let r = v.as_hash_tree(); drop(v); used(r);" % e if n != "option_like" else "let r = { let v = [1u8; 4]; v.as_hash_tree() }; used(r);")
    p("label_%s" % n, "use certified_vars::label::Label; let v = %s; let r = v.as_label(); drop(v); used(r);" % e if n != "option_like" else "use certified_vars::label::Label; let r = { let v = [1u8; 4]; v.as_label() }; used(r);")
p("static_from_tree", "fn f<'a>(t: &'a RbTree<String, String>) -> &'static String { t.get(\"a\").unwrap() } used(f(&tree()));")
p("static_from_iter", "fn f<'a>(t: &'a Map<String, String>) -> &'static String { t.iter().next().unwrap().1 } used(f(&map()));")
p("static_tree_from_map", "fn f<'a>(t: &'a Map<String, String>) -> HashTree<'static> { t.witness(\"a\") } used(f(&map()));")
# a map that holds something which must stay on its thread must itself stay there
CL = "struct C(std::cell::Cell<u32>); impl AsHashTree for C { fn as_hash_tree(&self) -> HashTree<'_> { HashTree::Empty } } fn send<T: Send>(_: T) {} fn sync<T: Sync>(_: T) {} type R = std::rc::Rc<String>; "
for n, t in {"tree_key": "RbTree<R, u32>", "tree_value": "RbTree<u32, R>", "map_key": "Map<R, u32>", "map_value": "Map<u32, R>", "seq": "Seq<R>", "paged": "Paged<u32, R, 2>", "paged_key": "Paged<R, u32, 2>", "group": "Group",
             "iter": "RbTreeIterator<'static, u32, R>", "occupied": "OccupiedEntry<'static, u32, R>", "vacant": "VacantEntry<'static, R, u32>"}.items():
    p("send_%s" % n, CL + "fn f(x: %s) { send(x) }" % t)
for n, t in {"tree": "RbTree<u32, C>", "map": "Map<u32, C>", "seq": "Seq<C>", "paged": "Paged<u32, C, 2>", "group": "Group", "iter": "RbTreeIterator<'static, u32, C>", "occupied": "OccupiedEntry<'static, u32, C>"}.items():
    p("sync_%s" % n, CL + "fn f(x: %s) { sync(x) }" % t)
    p("send_ref_%s" % n, CL + "fn f(x: &'static %s) { send(x) }" % t)
# what makes it the right rejection: borrow checking, lifetimes
LIFE = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0597", "E0716", "E0382", "E0373", "E0621", "E0310", "E0700", "E0308", None}

def rlib(deps):
    c = [f for f in glob.glob(os.path.join(deps, "libcertified_vars-*.rlib"))]
    return max(c, key=os.path.getmtime) if c else None

def run(deps, out, only=None):
    """-> (names that compile: {name: source file}, rejected, not applicable: {name: message})"""
    os.makedirs(out, exist_ok=True)
    lib = rlib(deps)
    def one(name):
        f = os.path.join(out, name + ".rs")
        with open(f, "w") as fh:
            fh.write(PRE + "fn main() { %s }\n" % PROBES[name])
        try:
            r = subprocess.run(["rustc", "--edition", "2021", "--crate-name", "probe", "--emit", "metadata", "-o", f[:-3] + ".rmeta", "--error-format", "json", "--extern", "certified_vars=" + lib,
                            "-L", "dependency=" + deps, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return name, "timeout"
        if r.returncode == 0:
            return name, "compiles"
        codes, msgs = set(), []
        for l in r.stderr.split("\n"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and "aborting" not in d["message"]:
                c = (d.get("code") or {}).get("code")
                codes.add(None if c == "E0277" and "between threads" in d["message"] else c)
                msgs.append(d["message"])
        if codes and codes <= LIFE and not (codes <= {None} and not any("lifetime" in m or "borrow" in m or "between threads" in m for m in msgs)):
            return name, "rejected"
        return name, "other: %s %s" % (sorted(map(str, codes)), msgs[:1])
    names = [n for n in PROBES if only is None or n in only]
    if lib is None:
        return {}, 0, {n: "no rlib" for n in names}
    with ThreadPoolExecutor(max_workers=6) as tp:
        res = dict(tp.map(one, names))
    comp = {n: os.path.join(out, n + ".rs") for n, r in res.items() if r == "compiles"}
    return comp, sum(r == "rejected" for r in res.values()), {n: r for n, r in res.items() if r not in ("compiles", "rejected")}

if __name__ == "__main__":
    import sys, time
    t = time.time()
    c, n, o = run(sys.argv[1], sys.argv[2], sys.argv[3:] or None)
    print("compiles:", c, "\nrejected:", n, "\nother:", *o.items(), sep="\n")
    print("%.1fs" % (time.time() - t))
