"""Contracts stated at byte level: digests, hash trees of the built-in values, labels, the serialized form of hash trees."""
from contract import Contract as C, subst
from symex import *
import bytesem
import contracts_hash
CONTRACTS = dict(contracts_hash.CONTRACTS)
KEYS = list(CONTRACTS)
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c
CONTRACTS["HashTree::reconstruct"].measure = "sz({t})"

BYTES = {"&[u8]": "B", "&str": "B", "Vec": "B", "String": "B", "Principal": "B"}
INTS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"]
def value(ty, sort, canon):
    add("<%s as AsHashTree>::root_hash" % ty, ["v:%s:x" % sort], "v:H:r", post=[("C10", "{r} == h_leaf(%s)" % canon)])
    add("<%s as AsHashTree>::as_hash_tree" % ty, ["v:%s:x" % sort], "v:HT:u", post=[("C10", "{u} == HT::Leaf(%s)" % canon)])
def canon_int(ty):
    w = bytesem.WIDTH[ty]
    return "be(tc({x}, %d), %d)" % (w, w) if ty[0] == "i" else "be({x}, %d)" % w
for ty in BYTES:
    value(ty, "B", "{x}")
for n in range(1, 33):
    value("[u8; %d]" % n, "B", "{x}")
value("bool", "bool", "boolb({x})")
value("Nat", "Nat", "natb({x})")
for ty in INTS:
    value(ty, "int", canon_int(ty))
for ty in ("f32", "f64"):
    value(ty, "FL", "flb({x}, %d)" % bytesem.WIDTH[ty])
for ty in ("Box", "Rc", "Arc", "NonNull"):
    add("<%s as AsHashTree>::root_hash" % ty, ["v:V:x"], "v:H:r", post=[("C10", "{r} == vh({x})")])
    add("<%s as AsHashTree>::as_hash_tree" % ty, ["v:V:x"], "v:HT:u", post=[("C10", "{u} == vt({x})")])
add("AsHashTree::root_hash", ["v:V:x"], "v:H:r", post=[("C10", "{r} == vh({x})")], hints=["ax_vt({x});"])

def label(key, sort, canon):
    add("<%s as Label>::as_label" % key, ["v:%s:x" % sort], "v:B:r", post=[("C11", "{r} == %s" % canon)])
for ty in ("Vec", "Principal", "String"):
    label(ty, "B", "{x}")
for n in range(1, 33):
    label("[u8; %d]" % n, "B", "{x}")
label("bool", "bool", "boolb({x})")
for ty in INTS:
    label(ty, "int", canon_int(ty))
for ty in ("Rc", "Arc", "NonNull"):
    label(ty, "K", "lb({x})")
for at, sort, canon in (("Box<[u8]>", "B", "{x}"), ("Box<T>", "K", "lb({x})")):
    add("<Box as Label>::as_label@" + at, ["v:%s:x" % sort], "v:B:r", post=[("C11", "{r} == %s" % canon)])
add("<PagedKey as Label>::as_label", [["ref", ["struct", "PagedKey", {"key": "v:K:k", "page": "v:int:p"}]]], "v:B:r", pre=[("assume", "0 <= {p} <= 4294967295")], post=[("C11 C14", "{r} == lb({k}) + be({p}, 4)")])
for ty in ["Vec", "Box", "String"] + ["[u8; %d]" % n for n in range(1, 33)]:
    add("<%s as Prefix>::is_prefix" % ty, ["v:B:x", "v:B:p"], "v:bool:r", post=[("C11", "{r} == starts({x}, {p})")])
add("label::Prefix::is_prefix", ["v:K:x", "v:Q:p"], "v:bool:r", post=[("C11", "{r} == (rq(bq({x})) == rq({p}))")])
add("labeled", ["v:B:l", "v:HT:t"], "v:HT:r", post=[("C09", "{r} == HT::Labeled({l}, Box::new({t}))")])
add("<HashTree as Serialize>::serialize", ["v:HT:t", "v:Ser:s"], "v:Result<SOut, SErr>:r", post=[("C20", "{r} is Ok ==> {r}->Ok_0 == emitted({s}, doc({t}))")])

# ---- reading hash trees
for fn, sp in (("get_labels", "labs"), ("get_leaf_values", "leaves")):
    add("HashTree::%s" % fn, ["v:HT:t"], "v:Bs:r", post=[("C22", "{r} =~= %s({t})" % sp)])
    add("HashTree::%s::go" % fn, ["m:Bs:x", "v:HT:t"], "unit", post=[("C22", "{x2} =~= {x} + %s({t})" % sp)], measure="sz({t})", optional=True)
add("<HashTree as PartialEq>::eq", ["v:HT:a", "v:HT:b"], "v:bool:r", post=[("C22", "{r} == ({a} == {b})")], measure="sz({a})")

FUEL = [("recon", 3), ("labs", 3), ("leaves", 3), ("sz", 3)]
EXTRA = ""
LOOPS = {}
ENV = {"borrow": "general"}
HOOKS = {"builtin": bytesem.builtin, "cmp": bytesem.cmp, "term": bytesem.term, "cast": bytesem.cast, "structs": bytesem.STRUCTS}
THEORY = ["bytes.rs"]
ALL = KEYS
