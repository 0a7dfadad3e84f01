"""What is verified together, and which property needs what."""
import importlib

class Unit:
    def __init__(self, name, mod, theory, keys, lemmas=()):
        self.name, self.mod, self.theory, self._keys, self.lemmas = name, mod, theory, keys, lemmas
    @property
    def keys(self):
        return self._keys or self.load().KEYS
    def load(self):
        return importlib.import_module(self.mod)

TREE_KEYS = ["balance", "Node::subtree_hash", "RbTree::insert::go", "RbTree::insert", "RbTree::delete::min", "RbTree::delete::delete_min",
             "RbTree::delete::go", "Node::delete", "RbTree::get", "RbTree::get_with", "RbTree::delete"]

UNITS = {
    "tree": Unit("tree", "contracts_tree", ["tree.rs"], TREE_KEYS),
    "wit": Unit("wit", "contracts_wit", ["tree.rs", "wit.rs"], None),
    "mod": Unit("mod", "contracts_mod", ["tree.rs", "mod.rs"], None),
    "pfx": Unit("pfx", "contracts_pfx", ["tree.rs", "wit.rs", "mod.rs", "pfx.rs"], None),
    "iter": Unit("iter", "contracts_iter", ["tree.rs", "mod.rs", "iter.rs"], None),
    "map": Unit("map", "contracts_map", ["tree.rs", "mod.rs", "iter.rs", "map.rs"], None),
    "seq": Unit("seq", "contracts_seq", ["bytes.rs", "seq.rs"], None),
    "deep": Unit("deep", "contracts_deep", ["tree.rs", "mod.rs", "deep.rs"], None),
    "paged": Unit("paged", "contracts_paged", ["tree.rs", "wit.rs", "mod.rs", "paged.rs", "pfx.rs:paged", "paged2.rs"], None),
    "group": Unit("group", "contracts_group", ["tree.rs", "group.rs"], None),
    "builder": Unit("builder", "contracts_builder", ["tree.rs", "group.rs", "builder.rs", "layout.rs"], None),
    "bytes": Unit("bytes", "contracts_bytes", ["bytes.rs"], None),
}

# property -> (units whose obligations it rests on)
PROPS = {
    "C01": ["tree", "wit", "mod", "map", "deep"], "C02": ["tree", "mod", "map", "deep"], "C03": ["tree", "mod", "map"], "C04": ["tree", "wit", "mod", "pfx", "iter", "map", "seq", "paged", "deep", "group", "builder", "bytes"],
    "C05": ["wit"], "C06": ["wit"], "C07": ["wit"], "C08": ["wit"],
    "C09": ["bytes"], "C10": ["bytes"], "C11": ["bytes"], "C20": ["bytes"],
    "C17": ["tree", "mod", "map"], "C18": ["tree", "mod", "pfx", "map", "deep"],
    "C16": ["tree", "iter", "map"], "C19": ["tree", "iter", "map", "seq", "paged"], "C12": ["seq", "deep"],
    "C13": ["tree", "pfx", "seq", "paged"], "C14": ["tree", "wit", "pfx", "paged"], "C15": ["group", "builder"], "C21": ["builder"], "C22": ["bytes"],
}
ALL = ["C%02d" % i for i in range(1, 23)]

BASE = ("Contracts on the real functions, obligations from the current MIR, all discharged by Verus/Z3 for all inputs. "
        "Trusted: rustc's MIR, the executor in engine/ (incl. its models of std functions), lawful Ord/Borrow/AsHashTree of user types. "
        "Functions the property depends on that are not under contract are listed in DESIGN.md and covered by the bounded random layer only.")
NOTES = {p: BASE for p in PROPS}
