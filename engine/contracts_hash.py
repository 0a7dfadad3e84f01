"""Contracts of the digest functions (checked against their byte-level definition by C09's unit)."""
from contract import Contract as C
CONTRACTS = {}
def add(*a, **kw):
    c = C(*a, **kw)
    CONTRACTS[c.key] = c
    return c
add("HashTree::reconstruct", ["v:HT:t"], "v:H:r", post=[("C09", "{r} == recon({t})")])
add("fork_hash", ["v:H:a", "v:H:b"], "v:H:r", post=[("C09", "{r} == h_fork({a}, {b})")])
add("labeled_hash", ["v:B:l", "v:H:h"], "v:H:r", post=[("C09", "{r} == h_lab({l}, {h})")])
add("leaf_hash", ["v:B:l"], "v:H:r", post=[("C09", "{r} == h_leaf({l})")])
add("fork", ["v:HT:a", "v:HT:b"], "v:HT:r", post=[("C09", "{r} == HT::Fork(Box::new({a}), Box::new({b}))")])
