"""Contracts of the map functions that reach into values which are sequences (Map<K, Seq<V>>)."""
from contract import Contract as C
from symex import *
import contracts_tree as CT
import contracts_mod as CM
import contracts_seq as CS
import contracts_paged as CPg
import seqsem
CONTRACTS = dict(CT.CONTRACTS)
for k in ("RbTree::modify", "RbTree::new", "Map::new"):
    CONTRACTS[k] = CM.CONTRACTS[k]
for k in ("Seq::new", "Seq::with_capacity", "<Seq as Default>::default", "Seq::append", "Seq::len", "Seq::is_empty", "Seq::as_vec", "Seq::iter"):
    CONTRACTS[k] = CS.CONTRACTS[k]
KEYS = []
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    KEYS.append(c.key)
    return c
MM = "rbm:t:n:Map"
INV = CT.tree_inv("t", "n") + [("C12", "allseq({t})")]
add("Map::append_deep", [MM, "v:K:k", "v:I:x"], "unit", pre=INV + [("assume", "{n} < UMAX()")],
    post=CT.tree_inv("t2", "n2") + [("C12", "allseq({t2})"), ("C02 C12 C18", "appended({t}, {t2}, rk({k}), {x})"),
                                    ("C02 C12", "{n2} == {n} + if has({t}, rk({k})) { 0int } else { 1int }")])
add("Map::len_deep", [MM, "v:Q:q"], "v:int:r", pre=INV, post=[("C02 C12", "{r} == items({t}, rq({q})).len()"), ("C02 C12 C18", "{t2} == {t} && {n2} == {n}")])
EXTRA = "broadcast use lemma_wide, lemma_at_bounds, ax_rank_b, ax_mkv_b;"
FUEL = []
LOOPS = {}
ENV = {"borrow": "general"}
HOOKS = {"structs": {"V": CPg.structs_V}, "term": CPg.term, "builtin": seqsem.builtin}
ALL = KEYS
THEORY = ["tree.rs", "mod.rs", "deep.rs"]
