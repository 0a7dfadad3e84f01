"""Contracts of sequences: the hash chain over the items, and what the items are."""
from contract import Contract as C
from symex import *
import bytesem, seqsem
CONTRACTS = {}
KEYS = []
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c
def RF(h, s):
    return ["ref", ["struct", "Seq", {"hash": "vm:H:" + h, "items": "vm:Seq<I>:" + s}]]
def VAL(h, s):
    return ["struct", "Seq", {"hash": "v:H:" + h, "items": "v:Seq<I>:" + s}]
INV = [("C12", "{h} == chain({s})")]
INV2 = [("C12", "{h2} == chain({s2})")]
LEN = [("assume", "{s}.len() <= UMAX()")]
SAME = [("C12", "{h2} == {h} && {s2} == {s}")]
SELF = RF("h", "s")
ADD = ["lemma_chain({s}, {x});"]
NEW = ["lemma_prefix({s}, 0);"]
for k, ps in (("Seq::new", []), ("Seq::with_capacity", ["v:int:n"]), ("<Seq as Default>::default", [])):
    add(k, ps, VAL("h", "s"), post=INV + [("C12", "{s} == Seq::<I>::empty()")], hints=["lemma_prefix(Seq::empty(), 0);"])
add("Seq::append", [SELF, "v:I:x"], "unit", pre=INV, hints=ADD, post=INV2 + [("C12", "{s2} == {s}.push({x})")])
add("Seq::clear", [SELF], "unit", pre=INV, hints=["lemma_prefix(Seq::empty(), 0);"], post=INV2 + [("C12", "{s2} == Seq::<I>::empty()")])
add("Seq::shrink_to_fit", [SELF], "unit", pre=INV, post=INV2 + SAME)
for k in ("reserve", "reserve_exact"):
    add("Seq::" + k, [SELF, "v:int:n"], "unit", pre=INV, post=INV2 + SAME)
add("Seq::as_vec", [SELF], "v:Seq<I>:r", pre=INV, post=SAME + [("C12", "{r} == {s}")])
add("Seq::iter", [SELF], "v:Seq<I>:r", pre=INV, post=SAME + [("C12", "{r} == {s}")])
add("<Seq as AsRef>::as_ref", [SELF], "v:Seq<I>:r", pre=INV, post=SAME + [("C12", "{r} == {s}")])
add("<Seq as Borrow>::borrow", [SELF], "v:Seq<I>:r", pre=INV, post=SAME + [("C12", "{r} == {s}")])
add("Seq::is_empty", [SELF], "v:bool:r", pre=INV, post=SAME + [("C12", "{r} == ({s}.len() == 0)")])
add("Seq::len", [SELF], "v:int:r", pre=INV, post=SAME + [("C12", "{r} == {s}.len()")])
add("Seq::capacity", [SELF], "v:int:r", pre=INV, post=SAME + [("C12", "{r} >= {s}.len()")])
add("Seq::recompute_hash", [SELF, "v:int:p"], "unit", pre=[("C12", "0 <= {p} <= {s}.len()"), ("C12", "{h} == chain({s}.subrange(0, {p}))")], hints=["lemma_prefix({s}, {p});"],
    post=INV2 + [("C12", "{s2} == {s}")])
add("<Seq as AsHashTree>::root_hash", [SELF], "v:H:r", pre=INV, post=SAME + [("C12", "{r} == chain({s})")])
add("<Seq as AsHashTree>::as_hash_tree", [SELF], "v:HT:r", pre=INV, post=SAME + [("C12", "{r} == HT::Pruned(chain({s}))")])
FROM = INV + [("C12", "{s} == {x}")]
XIN = ["lemma_prefix({x}, 0);"]
for a in ("Vec<T>", "&[T]", "&mut [T]"):
    add("<Seq as From>::from@" + a, ["v:Seq<I>:x"], VAL("h", "s"), post=FROM, hints=XIN)
add("<Seq as FromIterator>::from_iter", ["v:Seq<I>:x"], VAL("h", "s"), post=FROM, hints=XIN)
add("<Vec as From>::from", [VAL("h", "s")], "v:Seq<I>:r", pre=INV, post=[("C12", "{r} == {s}")])
for a in ("Extend<&T>", "Extend<T>"):
    add("<Seq as Extend>::extend@@" + a, [SELF, "v:Seq<I>:x"], "unit", pre=INV, post=INV2 + [("C12", "{s2} == {s} + {x}")])
add("<Seq as Index>::index", [SELF, "v:Ix:i"], "v:IxOut:r", pre=INV, post=SAME + [("C12", "{r} == vix({s}, {i})")])
add("<Seq as Clone>::clone", [SELF], VAL("c", "d"), pre=INV, post=SAME + [("C12", "{c} == chain({d}) && {d} == {s}")])
add("<Seq as PartialEq>::eq", [SELF, RF("g", "u")], "v:bool:r", pre=INV + [("C12", "{g} == chain({u})")], post=[("C12", "{r} == (chain({s}) == chain({u}) && veq({s}, {u}))")])
add("<Seq as Serialize>::serialize", [SELF, "v:Ser:o"], "v:Result<SOut, SErr>:r", pre=INV, post=[("C19", "{r} == vser({s}, {o})")])
add("<Seq as CandidType>::idl_serialize", [SELF, "v:Ser:o"], "v:Result<SOut, SErr>:r", pre=INV, post=[("C19", "{r} == vidl({s}, {o})")])
def res(con, ex, st, v, env):
    v = ex.expand(st, v)
    env["ok"] = "true" if v.var == "Ok" else "false"
    env["h"], env["s"], env["err"] = "zero32()", "Seq::<I>::empty()", "arbitrary()"
    if v.var == "Ok":
        con.bind_ptrs(ex, st, VAL("h", "s"), v.fields[0], env)
    else:
        env["err"] = ex.term(st, v.fields[0], "SErr")
        env["h"] = "chain(Seq::empty())"
add("<Seq as Deserialize>::deserialize", ["v:De:d"], res, post=[("C12 C19", "{h} == chain({s})"), ("C19", "{ok} == (vde({d}) is Ok)"), ("C19", "{ok} ==> vde({d}) == Result::<Seq<I>, SErr>::Ok({s})"),
    ("C19", "!{ok} ==> vde({d}) == Result::<Seq<I>, SErr>::Err({err})")], hints=["lemma_prefix(vde({d})->Ok_0, 0);"])

def builtin(ex, st, c, args, last):
    r = seqsem.builtin(ex, st, c, args, last)
    return r if r is not NotImplemented else bytesem.builtin(ex, st, c, args, last)
FUEL = []
EXTRA = ""
LOOPS = {k: seqsem.AnyLoop() for k in set(k.split("@")[0] for k in KEYS)}
ENV = {"borrow": "general"}
HOOKS = {"builtin": builtin, "term": bytesem.term, "cast": bytesem.cast, "structs": bytesem.STRUCTS, "cmp": seqsem.cmp, "repeat": seqsem.repeat}
THEORY = ["bytes.rs", "seq.rs"]
ALL = KEYS
