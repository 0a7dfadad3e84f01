//! Histories of operations on RbTree and Map, against a BTreeMap.
use crate::util::*;
use crate::{guard, Case};
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map};
use std::collections::{BTreeMap, BTreeSet};

pub type O = BTreeMap<Vec<u8>, Vec<u8>>;

pub trait Dut: AsHashTree {
    fn tree(&self) -> &RbTree<Kt, Vt>;
    fn insert(&mut self, k: Kt, v: Vt) -> Option<Vt>;
    fn delete(&mut self, k: &[u8]) -> Option<(Kt, Vt)>;
    fn remove(&mut self, k: &[u8]) -> Option<Vt>;
    fn get(&self, k: &[u8]) -> Option<&Vt>;
    fn entry(&mut self, k: Kt) -> Entry<'_, Kt, Vt>;
    fn modify(&mut self, k: &[u8], f: &mut dyn FnMut(&mut Vt)) -> Option<Option<()>>;
    fn modify_max(&mut self, _p: &[u8], _f: &mut dyn FnMut(&[u8], &mut Vt)) -> Option<Option<()>> {
        None
    }
    fn clear(&mut self);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn witness(&self, k: &[u8]) -> HashTree<'_>;
    fn keys(&self) -> HashTree<'_>;
    fn krange(&self, a: &Kt, b: &Kt) -> HashTree<'_>;
    fn vrange(&self, a: &Kt, b: &Kt) -> HashTree<'_>;
    fn pref(&self, p: &[u8]) -> HashTree<'_>;
    fn list(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String>;
    /// built in one go (collected, or read from CBOR)
    fn built(_e: &[(Vec<u8>, Vec<u8>)], _cbor: bool) -> Option<Self>
    where
        Self: Sized,
    {
        None
    }
}
/// `many`-keys: pattern asc, desc, mid, ends, rand<seed>
pub fn many(n: u32, pat: &str) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n).collect();
    match pat {
        "asc" => {}
        "desc" => v.reverse(),
        "mid" => v = (0..n).map(|i| if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - i / 2 - 1 }).map(|k| k.min(n)).collect(),
        "ends" => v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        x => {
            let mut r = Rng(x[4..].parse().unwrap_or(1));
            for i in (1..n as usize).rev() {
                v.swap(i, r.below(i + 1));
            }
        }
    }
    v
}
fn many_kv(k: u32) -> (Vec<u8>, Vec<u8>) {
    (k.to_be_bytes().to_vec(), vec![(k % 5) as u8])
}

fn walk<'a>(mk: impl Fn() -> certified_vars::rbtree::iterator::RbTreeIterator<'a, Kt, Vt>, n: usize) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    let mut it = mk();
    let mut out = vec![];
    loop {
        let h = it.size_hint();
        match it.next() {
            Some((k, v)) => {
                if h.1 != Some(h.0) {
                    return Err(format!("size_hint {:?} is not exact", h));
                }
                if n >= out.len() && h.0 != n - out.len() {
                    return Err(format!("size_hint says {} after {} of {} entries", h.0, out.len(), n));
                }
                out.push((k.b.clone(), v.b.clone()));
                if out.len() > n + 2 {
                    return Err("iteration yields more entries than the map has".into());
                }
            }
            None => {
                if h != (0, Some(0)) {
                    return Err(format!("size_hint {:?} at the end of the iteration", h));
                }
                if it.next().is_some() || it.next().is_some() {
                    return Err("the iterator goes on after its end".into());
                }
                ways(mk, &out)?;
                return Ok(out);
            }
        }
    }
}
/// the other methods of the iterator agree with repeated next()
fn ways<'a>(mk: impl Fn() -> certified_vars::rbtree::iterator::RbTreeIterator<'a, Kt, Vt>, out: &[(Vec<u8>, Vec<u8>)]) -> Result<(), String> {
    let n = out.len();
    let same = |a: Option<(&Kt, &Vt)>, b: Option<&(Vec<u8>, Vec<u8>)>| match (a, b) {
        (None, None) => true,
        (Some((k, v)), Some(p)) => k.b == p.0 && v.b == p.1,
        _ => false,
    };
    let e = |w: &str, i: usize| Err(format!("{} ({}) does not agree with next() on {} entries", w, i, n));
    if mk().count() != n {
        return e("count", 0);
    }
    if !same(mk().last(), out.last()) {
        return e("last", 0);
    }
    let mut seen = vec![];
    mk().for_each(|(k, v)| seen.push((k.b.clone(), v.b.clone())));
    if seen != out || mk().fold(0, |a, (k, _)| if out[a.min(n - 1)].0 == k.b { a + 1 } else { n + 9 }) != n {
        return e("for_each or fold", 0);
    }
    let step = if n > 64 { n / 9 } else { 1 };
    for i in (0..n + 2).step_by(step) {
        let mut it = mk();
        if !same(it.nth(i), out.get(i)) {
            return e("nth", i);
        }
        let left = n.saturating_sub(i + 1);
        if it.size_hint() != (left, Some(left)) || !same(it.next(), out.get(i + 1)) || it.count() != n.saturating_sub(i + 2) {
            return e("nth and then next, count", i);
        }
        let mut it = mk();
        for j in 0..i {
            if !same(it.next(), out.get(j)) {
                return e("next", j);
            }
        }
        if it.size_hint() != (n.saturating_sub(i), Some(n.saturating_sub(i))) || !same(it.last(), out.get(i..).and_then(|x| x.last())) {
            return e("last after some steps", i);
        }
        if !mk().skip(i).map(|(k, _)| &k.b).eq(out.iter().skip(i).map(|x| &x.0)) || !mk().step_by(i + 1).map(|(k, _)| &k.b).eq(out.iter().step_by(i + 1).map(|x| &x.0)) {
            return e("skip or step_by", i);
        }
        let mut it = mk();
        if !it.by_ref().take(i).map(|(k, _)| &k.b).eq(out.iter().take(i).map(|x| &x.0)) || it.map(|(_, v)| &v.b).ne(out.iter().skip(i).map(|x| &x.1)) {
            return e("take", i);
        }
    }
    Ok(())
}

impl Dut for RbTree<Kt, Vt> {
    fn tree(&self) -> &RbTree<Kt, Vt> {
        self
    }
    fn insert(&mut self, k: Kt, v: Vt) -> Option<Vt> {
        let b = v.b.clone();
        let (o, r) = RbTree::insert(self, k, v);
        if r.b != b {
            panic!("insert returned a reference to {:?}, not to the value inserted", r.b)
        }
        o
    }
    fn delete(&mut self, k: &[u8]) -> Option<(Kt, Vt)> {
        RbTree::delete(self, k)
    }
    fn remove(&mut self, k: &[u8]) -> Option<Vt> {
        RbTree::delete(self, &Kt::new(k)).map(|x| x.1)
    }
    fn get(&self, k: &[u8]) -> Option<&Vt> {
        RbTree::get(self, k)
    }
    fn entry(&mut self, k: Kt) -> Entry<'_, Kt, Vt> {
        RbTree::entry(self, k)
    }
    fn modify(&mut self, k: &[u8], f: &mut dyn FnMut(&mut Vt)) -> Option<Option<()>> {
        Some(RbTree::modify(self, k, |v| f(v)))
    }
    fn modify_max(&mut self, p: &[u8], f: &mut dyn FnMut(&[u8], &mut Vt)) -> Option<Option<()>> {
        Some(RbTree::modify_max_with_prefix(self, p, |k, v| f(&k.b, v)))
    }
    fn clear(&mut self) {
        *self = RbTree::default();
    }
    fn len(&self) -> usize {
        RbTree::len(self)
    }
    fn is_empty(&self) -> bool {
        RbTree::is_empty(self)
    }
    fn witness(&self, k: &[u8]) -> HashTree<'_> {
        RbTree::witness(self, k)
    }
    fn keys(&self) -> HashTree<'_> {
        RbTree::keys(self)
    }
    fn krange(&self, a: &Kt, b: &Kt) -> HashTree<'_> {
        RbTree::key_range(self, &a.b[..], b)
    }
    fn vrange(&self, a: &Kt, b: &Kt) -> HashTree<'_> {
        RbTree::value_range(self, a, &b.b[..])
    }
    fn pref(&self, p: &[u8]) -> HashTree<'_> {
        RbTree::keys_with_prefix(self, p)
    }
    fn list(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
        walk(|| certified_vars::rbtree::iterator::RbTreeIterator::new(self), RbTree::len(self))
    }
}
/// a map of the same entries with text keys, as JSON: a format that is human readable
fn json_ser(o: &O) -> Result<(), String> {
    let mut m = Map::<String, Vec<u8>>::new();
    for (k, v) in o.iter().rev() {
        m.insert(hex(k), v.clone());
    }
    let want = format!("{{{}}}", o.iter().map(|(k, v)| format!("\"{}\":{:?}", hex(k), v).replace(' ', "")).collect::<Vec<_>>().join(","));
    let got = guard("C19", &["C19"], "serializing to JSON", || serde_json::to_string(&m))?;
    match got {
        Some(Ok(g)) if g == want => json_de(&o.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()),
        Some(g) => Err(format!("a map of {} entries serializes to the JSON text {:?}, should be {}", o.len(), g, want)),
        None => Ok(()),
    }
}
/// a map of the same entries, as Candid: what it encodes to is a list of pairs
fn candid_ser(o: &O) -> Result<(), String> {
    let mut m = Map::<Vec<u8>, Vec<u8>>::new();
    let mut es: Vec<_> = o.iter().collect();
    es.sort_by_key(|e| sha(&[e.1, e.0]));
    for (k, v) in &es {
        m.insert(k.to_vec(), v.to_vec());
    }
    let want: Vec<(Vec<u8>, Vec<u8>)> = o.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let got = match guard("C19", &["C19"], "encoding as Candid", || candid::encode_one(&m).map_err(|e| e.to_string()))? {
        Some(Ok(b)) => b,
        Some(Err(e)) => return Err(format!("encoding as Candid fails: {}", e)),
        None => return Ok(()),
    };
    if got != candid::encode_one(&want).unwrap() {
        return Err(format!("a map of {} entries encodes to the Candid value {}", o.len(), hex(&got)));
    }
    // in the order of the entries and in another order, some twice
    for twice in [false, true] {
        let mut ps = want.clone();
        if twice {
            ps = es.iter().take(3).map(|(k, _)| (k.to_vec(), vec![9, 9])).collect();
            ps.extend(es.iter().map(|(k, v)| (k.to_vec(), v.to_vec())));
        }
        let b = candid::encode_one(&ps).unwrap();
        let m = match guard("C19", &["C19"], "decoding from Candid", || candid::decode_one::<Map<Vec<u8>, Vec<u8>>>(&b).map_err(|e| e.to_string()))? {
            Some(Ok(m)) => m,
            Some(Err(e)) => return Err(format!("decoding {} pairs from Candid fails: {}", ps.len(), e)),
            None => return Ok(()),
        };
        let got: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        if got != want || m.len() != want.len() {
            return Err(format!("{} pairs of {} keys decode from Candid to a map with the entries {:.200?}", ps.len(), want.len(), got));
        }
        if spec_recon(&m.as_hash_tree()) != m.root_hash() {
            return Err("the root hash of a map decoded from Candid does not certify its entries".into());
        }
    }
    Ok(())
}
fn json_de(ps: &[(Vec<u8>, Vec<u8>)]) -> Result<(), String> {
    let text = format!("{{{}}}", ps.iter().map(|(k, v)| format!("\"{}\":{:?}", hex(k), v)).collect::<Vec<_>>().join(","));
    let mut want = std::collections::BTreeMap::new();
    let mut plain = Map::<String, Vec<u8>>::new();
    for (k, v) in ps {
        want.insert(hex(k), v.clone());
    }
    for (k, v) in &want {
        plain.insert(k.clone(), v.clone());
    }
    for how in ["text", "value", "calls"] {
        let m = guard("C19", &["C19"], "deserializing from JSON", || match how {
            "text" => serde_json::from_str::<Map<String, Vec<u8>>>(&text).map_err(|e| e.to_string()),
            "value" => serde_json::from_str::<serde_json::Value>(&text).and_then(serde_json::from_value::<Map<String, Vec<u8>>>).map_err(|e| e.to_string()),
            _ => {
                use serde::Deserialize;
                let d = serde::de::value::MapDeserializer::<_, serde::de::value::Error>::new(ps.iter().map(|(k, v)| (hex(k), v.clone())));
                Map::<String, Vec<u8>>::deserialize(d).map_err(|e| e.to_string())
            }
        })?;
        let m = match m {
            Some(Ok(m)) => m,
            Some(Err(e)) => return Err(format!("the JSON map {} ({}) does not deserialize: {}", text, how, e)),
            None => continue,
        };
        let got: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        if got != want.clone().into_iter().collect::<Vec<_>>() || m.len() != want.len() {
            return Err(format!("the JSON map {} ({}) is read as {:?} (len {})", text, how, got, m.len()));
        }
        for (k, v) in &want {
            if m.get(k.as_str()) != Some(v) {
                return Err(format!("the JSON map {} ({}): {} is bound to {:?}", text, how, k, m.get(k.as_str())));
            }
        }
        // the shape of the tree may depend on the order, the hash is that of what is there
        if m.root_hash() != m.as_hash_tree().reconstruct() || (ps.len() < 2 && m.root_hash() != plain.root_hash()) {
            return Err(format!("the JSON map {} ({}) has the root hash {}", text, how, hex(&m.root_hash())));
        }
    }
    Ok(())
}
fn cbor_map(ps: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut b = vec![];
    cbor_head(&mut b, 5, ps.len() as u64);
    for (k, v) in ps {
        cbor_bytes(&mut b, k);
        cbor_bytes(&mut b, v);
    }
    b
}

impl Dut for Map<Kt, Vt> {
    fn built(ps: &[(Vec<u8>, Vec<u8>)], cbor: bool) -> Option<Self> {
        Some(if cbor { serde_cbor::from_slice::<Map<Kt, Vt>>(&cbor_map(ps)).unwrap() } else { ps.iter().map(|(k, v)| (Kt::new(k), Vt::new(v))).collect() })
    }
    fn tree(&self) -> &RbTree<Kt, Vt> {
        if self.root_hash()[0] % 2 == 0 {
            self.as_tree()
        } else {
            self.as_ref()
        }
    }
    fn insert(&mut self, k: Kt, v: Vt) -> Option<Vt> {
        Map::insert(self, k, v)
    }
    fn delete(&mut self, k: &[u8]) -> Option<(Kt, Vt)> {
        Map::remove_entry(self, k)
    }
    fn remove(&mut self, k: &[u8]) -> Option<Vt> {
        Map::remove(self, k)
    }
    fn get(&self, k: &[u8]) -> Option<&Vt> {
        Map::get(self, k)
    }
    fn entry(&mut self, k: Kt) -> Entry<'_, Kt, Vt> {
        Map::entry(self, k)
    }
    fn modify(&mut self, k: &[u8], f: &mut dyn FnMut(&mut Vt)) -> Option<Option<()>> {
        let mut hit = None;
        Map::entry(self, Kt::new(k)).and_modify(|v| {
            hit = Some(());
            f(v)
        });
        Some(hit)
    }
    fn clear(&mut self) {
        Map::clear(self)
    }
    fn len(&self) -> usize {
        Map::len(self)
    }
    fn is_empty(&self) -> bool {
        Map::is_empty(self)
    }
    fn witness(&self, k: &[u8]) -> HashTree<'_> {
        Map::witness(self, k)
    }
    fn keys(&self) -> HashTree<'_> {
        self.witness_keys()
    }
    fn krange(&self, a: &Kt, b: &Kt) -> HashTree<'_> {
        self.witness_key_range::<Kt, Kt>(a, b)
    }
    fn vrange(&self, a: &Kt, b: &Kt) -> HashTree<'_> {
        self.witness_value_range::<Kt, Kt>(a, b)
    }
    fn pref(&self, p: &[u8]) -> HashTree<'_> {
        self.witness_keys_with_prefix(p)
    }
    fn list(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
        walk(|| self.iter(), Map::len(self))
    }
}

pub const MAPS: &[&str] = &["C02", "C04"];

/// A key that can be looked up by its first byte: many keys borrow to the same view.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Kp(Vec<u8>);
fn view1(b: &[u8]) -> &[u8] {
    &b[..b.len().min(1)]
}
impl std::borrow::Borrow<[u8]> for Kp {
    fn borrow(&self) -> &[u8] {
        view1(&self.0)
    }
}
impl certified_vars::label::Label for Kp {
    fn as_label(&self) -> std::borrow::Cow<[u8]> {
        std::borrow::Cow::Borrowed(&self.0)
    }
}
impl certified_vars::label::Prefix<[u8]> for Kp {}

/// the same entries under keys that are looked up by their first byte
fn by_view(prop: &str, o: &O, p: &[u8], seed: u64) -> Result<(), String> {
    let is = |x: &str| prop == x;
    let mut t = RbTree::<Kp, Vt>::default();
    let mut es: Vec<_> = o.iter().collect();
    es.sort_by_key(|e| sha(&[e.0, &seed.to_be_bytes()]));
    for (k, v) in &es {
        t.insert(Kp(k.to_vec()), Vt::new(v));
    }
    // some go and come back: another shape
    for (k, v) in es.iter().take(seed as usize % 5) {
        t.delete(&Kp(k.to_vec()));
        if seed % 2 == 0 {
            t.insert(Kp(k.to_vec()), Vt::new(v));
        }
    }
    let mut o = o.clone();
    if seed % 2 == 1 {
        for (k, _) in es.iter().take(seed as usize % 5) {
            o.remove(*k);
        }
    }
    let p = view1(p);
    let mx = o.iter().filter(|e| view1(e.0) == p).next_back().map(|e| (e.0.clone(), e.1.clone()));
    if is("C02") || is("C04") {
        let g = guard(prop, &["C02", "C04"], "max_entry_with_prefix", || t.max_entry_with_prefix(p).map(|(k, v)| (k.0.clone(), v.b.clone())))?;
        if let (true, Some(g)) = (is("C02"), g) {
            if g != mx {
                return Err(format!("greatest entry with the view {}: {:?}, should be {:?}", hex(p), g, mx));
            }
        }
    }
    if is("C05") || is("C08") || is("C04") {
        let w = guard(prop, &["C04", "C05", "C08"], "prefix witness by a view", || t.keys_with_prefix(p))?;
        if let Some(w) = w {
            if is("C05") && spec_recon(&w) != t.root_hash() {
                return Err("the witness for a prefix that several keys borrow to does not reconstruct to the root hash".into());
            }
            if is("C08") {
                // the first key may border on what is hidden: Exact says that nothing before it has the prefix
                check_range(
                    &w,
                    &o,
                    &Want {
                        inside: &|k| view1(k) == p,
                        hidden: &|x, y| {
                            let below = |y: &[u8]| view1(y) < p;
                            !(y.map_or(false, below) || x.map_or(false, |x| view1(x) > p) || y.map_or(false, |y| view1(y) == p) && x.map_or(true, below))
                        },
                        values: false,
                    },
                )
                .map_err(|e| format!("prefix {} that several keys borrow to: {}", hex(p), e))?;
            }
        }
    }
    if is("C18") || is("C01") || is("C04") || is("C03") {
        let g = guard(prop, &["C18", "C04"], "modify_max_with_prefix", || t.modify_max_with_prefix(p, |k, v| {
            v.b = b"changed".to_vec();
            k.0.clone()
        }))?;
        if let Some(g) = g {
            if is("C18") && g != mx.as_ref().map(|m| m.0.clone()) {
                return Err(format!("modify_max_with_prefix changes {:?}, should be {:?}", g, mx));
            }
            if let Some(m) = mx {
                o.insert(m.0, b"changed".to_vec());
            }
            let mut got = vec![];
            t.for_each(|k, v| got.push((k.0.clone(), v.b.clone())));
            if is("C18") && got != o.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>() {
                return Err("modify_max_with_prefix changes something else".into());
            }
            if (is("C18") || is("C01")) && spec_recon(&t.as_hash_tree()) != t.root_hash() {
                return Err("the root hash after modify_max_with_prefix is not that of the tree".into());
            }
        }
    }
    Ok(())
}

/// which of the equal keys is in the map
fn stored_id(t: &RbTree<Kt, Vt>, k: &[u8]) -> Option<u64> {
    let mut out = None;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        t.for_each(|q, _| {
            if q.b == k {
                out = Some(q.id());
            }
        })
    }));
    out
}

pub fn run(prop: &str, case: &Case) -> Result<(), String> {
    if prop == "C04" {
        // memory that is still allocated after everything was dropped was lost
        run1(prop, case)?;
        let a = live_bytes();
        run1(prop, case)?;
        let b = live_bytes();
        run1(prop, case)?;
        let c = live_bytes();
        if c > b && b > a {
            return Err(format!("{} bytes are still allocated after the map was dropped", c - b));
        }
        return Ok(());
    }
    run1(prop, case)
}

fn run1(prop: &str, case: &Case) -> Result<(), String> {
    track_reset();
    let h: Vec<&str> = case[0].split(' ').collect();
    let every: usize = h.get(1).map_or(1, |x| x.parse().unwrap());
    let mut uni: BTreeSet<Vec<u8>> = BTreeSet::new();
    for l in &case[1..] {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "ins" | "del" | "rem" | "get" | "mod" | "wit" | "nwit" | "getw" => {
                uni.insert(unhex(w[1]));
            }
            "ent" => {
                uni.insert(unhex(w[1]));
            }
            "many" | "manycoll" | "manyde" => {
                uni.extend(many(w[1].parse().unwrap(), w[2]).into_iter().map(|k| many_kv(k).0));
            }
            "de" | "coll" | "fromc" | "fromde" => {
                for p in &w[1..] {
                    uni.insert(unhex(p.split(':').next().unwrap()));
                }
            }
            _ => {}
        }
    }
    let r = if h[0] == "map" {
        Ctx { prop, d: Map::<Kt, Vt>::new(), o: O::new(), uni, every, held: vec![] }.go(case)
    } else {
        Ctx { prop, d: RbTree::<Kt, Vt>::new(), o: O::new(), uni, every, held: vec![] }.go(case)
    };
    r?;
    if prop == "C04" {
        if let Some(b) = track_bad() {
            return Err(b);
        }
        if track_live() != 0 {
            return Err(format!("{} keys or values were never dropped", track_live()));
        }
    }
    Ok(())
}

struct Ctx<'p, D: Dut> {
    prop: &'p str,
    d: D,
    o: O,
    uni: BTreeSet<Vec<u8>>,
    every: usize,
    /// everything handed back by the map; dropped (and thereby checked) at the end
    held: Vec<(Option<Kt>, Option<Vt>)>,
}

fn show(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "nothing".into(),
        Some(x) => hex(x),
    }
}

/// order key for C08: what a verifier can conclude from two neighbouring labels
pub struct Want<'a> {
    pub inside: &'a dyn Fn(&[u8]) -> bool,
    /// may something hidden between these two labels lie inside?
    pub hidden: &'a dyn Fn(Option<&[u8]>, Option<&[u8]>) -> bool,
    pub values: bool,
}

pub fn check_range(w: &HashTree, o: &O, q: &Want) -> Result<(), String> {
    let items = flat_of(w);
    let mut labs: Vec<(&[u8], &Below)> = vec![];
    for it in &items {
        match it {
            Item::Lab(l, b) => labs.push((l, b)),
            Item::Gap => {}
            Item::Other => return Err("the witness contains something that is neither an entry nor pruned".into()),
        }
    }
    for p in labs.windows(2) {
        if p[0].0 >= p[1].0 {
            return Err(format!("labels {} and {} are out of order", hex(p[0].0), hex(p[1].0)));
        }
    }
    let mut before = 0;
    let mut after = 0;
    let mut seen = 0;
    for (l, b) in &labs {
        let v = match o.get(*l) {
            None => return Err(format!("the witness shows the label {} that is not a key", hex(l))),
            Some(v) => v,
        };
        if (q.inside)(l) {
            seen += 1;
            after = 0;
            entry_is(l, b, v, q.values)?;
        } else {
            if seen == 0 { before += 1 } else { after += 1 }
            match b {
                Below::Pruned(h) if *h == value_hash(v) => {}
                _ => return Err(format!("the label {} outside the range is not shown with its value pruned", hex(l))),
            }
        }
    }
    let total = o.keys().filter(|k| (q.inside)(k)).count();
    if seen != total {
        return Err(format!("{} of {} keys in the range are shown", seen, total));
    }
    // with nothing inside, the labels shown are one neighbour on each side
    let below = labs.iter().filter(|(l, _)| !(q.inside)(l) && o.keys().any(|k| (q.inside)(k) && k.as_slice() > *l)).count();
    let (nb, na) = if seen == 0 { (0, 0) } else { (before, after) };
    if (seen == 0 && labs.len() > 2) || nb > 1 || na > 1 || (seen > 0 && below > 1) {
        return Err("more than one label is disclosed on one side of the range".into());
    }
    hidden_ok(&items, q.hidden)
}

fn entry_is(l: &[u8], b: &Below, v: &[u8], values: bool) -> Result<(), String> {
    match (b, values) {
        (Below::Pruned(h), false) if *h == value_hash(v) => Ok(()),
        (Below::Tree(h, s), true) if *h == value_hash(v) && *s == format!("{:?}", value_tree(v)) => Ok(()),
        (_, true) => Err(format!("the label {} is not shown with its full value", hex(l))),
        _ => Err(format!("the label {} is not shown with its value pruned", hex(l))),
    }
}

pub fn hidden_ok(items: &[Item], hidden: &dyn Fn(Option<&[u8]>, Option<&[u8]>) -> bool) -> Result<(), String> {
    for (i, it) in items.iter().enumerate() {
        if *it == Item::Gap {
            let a = items[..i].iter().rev().find_map(|x| if let Item::Lab(l, _) = x { Some(&l[..]) } else { None });
            let b = items[i + 1..].iter().find_map(|x| if let Item::Lab(l, _) = x { Some(&l[..]) } else { None });
            if hidden(a, b) {
                return Err(format!("something is hidden between {} and {}", show(&a.map(|x| x.to_vec())), show(&b.map(|x| x.to_vec()))));
            }
        }
    }
    Ok(())
}

pub fn check_present(w: &HashTree, k: &[u8], below: &HashTree) -> Result<(), String> {
    let items = flat_of(w);
    let mut n = 0;
    for it in &items {
        match it {
            Item::Lab(l, b) => {
                n += 1;
                if l != k {
                    return Err(format!("the label {} is disclosed", hex(l)));
                }
                let ok = match (b, below) {
                    (Below::Pruned(h), HashTree::Pruned(g)) => h == g,
                    (Below::Tree(_, s), t) => *s == format!("{:?}", t),
                    _ => false,
                };
                if !ok {
                    return Err("the tree under the label is not the value's tree".into());
                }
            }
            Item::Gap => {}
            Item::Other => return Err("the witness discloses more than the entry".into()),
        }
    }
    if n != 1 {
        return Err(format!("the witness contains {} labels", n));
    }
    Ok(())
}

pub fn check_absent(w: &HashTree, pred: Option<(Vec<u8>, Hash)>, succ: Option<(Vec<u8>, Hash)>) -> Result<(), String> {
    let items = flat_of(w);
    let mut want = vec![];
    if let Some((l, h)) = &pred {
        want.push(Item::Lab(l.clone(), Below::Pruned(*h)));
    }
    if let Some((l, h)) = &succ {
        want.push(Item::Lab(l.clone(), Below::Pruned(*h)));
    }
    let labs: Vec<Item> = items.iter().filter(|x| **x != Item::Gap).cloned().collect();
    if labs != want {
        return Err(format!("the labels shown are {:?}, the neighbours are {:?}", labs, want));
    }
    let np = pred.is_some() as usize;
    // gaps may only lie left of the predecessor and right of the successor
    let mut seen = 0;
    for it in &items {
        if *it == Item::Gap {
            let left_ok = np == 1 && seen == 0;
            let right_ok = succ.is_some() && seen == np + 1;
            if !left_ok && !right_ok {
                return Err("something is hidden next to the key".into());
            }
        } else {
            seen += 1;
        }
    }
    Ok(())
}

impl<'p, D: Dut> Ctx<'p, D> {
    fn is(&self, p: &str) -> bool {
        self.prop == p
    }
    fn go(mut self, case: &Case) -> Result<(), String> {
        for (i, l) in case[1..].iter().enumerate() {
            let last = i + 2 == case.len();
            let full = i % self.every == self.every - 1 || last;
            self.op(l, full).map_err(|e| format!("op {} `{}`: {}", i, if l.len() > 60 { &l[..60] } else { l }, e))?;
            if self.prop == "C04" {
                if let Some(b) = track_bad() {
                    return Err(format!("op {} `{}`: {}", i, l, b));
                }
            }
        }
        let prop = self.prop;
        let Ctx { d, held, .. } = self;
        guard(prop, &["C04"], "dropping the map", || drop(d))?;
        drop(held);
        Ok(())
    }

    /// the root hash certifies what the map holds now
    fn root_ok(&self) -> Result<(), String> {
        let t = self.d.as_hash_tree();
        let r = self.d.root_hash();
        if self.o.is_empty() && self.d.is_empty() && r != dom("ic-hashtree-empty", &[]) {
            return Err("the root hash of the empty map is not that of the empty hash tree".into());
        }
        if spec_recon(&t) != r {
            return Err(format!("root hash {} but the full hash tree reconstructs to {}", hex(&r), hex(&spec_recon(&t))));
        }
        let mut n = 0;
        for it in flat_of(&t) {
            match it {
                Item::Lab(l, Below::Tree(h, _)) => {
                    n += 1;
                    match self.d.get(&l) {
                        Some(v) if value_hash(&v.b) == h => {}
                        Some(_) => return Err(format!("the full hash tree does not bind {} to its current value", hex(&l))),
                        None => return Err(format!("the full hash tree has the label {} that is not in the map", hex(&l))),
                    }
                }
                Item::Lab(l, _) => return Err(format!("the full hash tree has no value for {}", hex(&l))),
                _ => return Err("the full hash tree hides something".into()),
            }
        }
        let m = self.uni.iter().filter(|k| self.d.get(k).is_some()).count();
        if n != m {
            return Err(format!("the full hash tree has {} entries, the map {}", n, m));
        }
        Ok(())
    }

    fn dict_ok(&self, prop: &str) -> Result<(), String> {
        if self.d.len() != self.o.len() {
            return Err(format!("len() is {}, there are {} entries", self.d.len(), self.o.len()));
        }
        if self.d.is_empty() != self.o.is_empty() {
            return Err("is_empty() is wrong".into());
        }
        for k in &self.uni {
            let g = self.d.get(k).map(|v| v.b.clone());
            if g != self.o.get(k).cloned() {
                return Err(format!("key {} is bound to {}, should be {}", hex(k), show(&g), show(&self.o.get(k).cloned())));
            }
            let kt = Kt::new(k);
            let g = self.d.tree().get_with(|x| kt.cmp(x)).map(|v| v.b.clone());
            if g != self.o.get(k).cloned() {
                return Err(format!("get_with finds {} for key {}, should be {}", show(&g), hex(k), show(&self.o.get(k).cloned())));
            }
        }
        let _ = prop;
        Ok(())
    }

    fn height_ok(&self) -> Result<(), String> {
        let t = self.d.as_hash_tree();
        let n = flat_of(&t).len() as u128;
        let h = min_height(&t);
        if h >= 100 || (1u128 << h) > (n + 1) * (n + 1) {
            return Err(format!("the tree over {} entries has height {}", n, h));
        }
        Ok(())
    }

    fn sync(&mut self) {
        let mut o = O::new();
        for k in &self.uni {
            if let Some(v) = self.d.get(k) {
                o.insert(k.clone(), v.b.clone());
            }
        }
        self.o = o;
    }

    fn after(&mut self, full: bool, inplace: bool) -> Result<(), String> {
        match self.prop {
            "C01" if full => self.root_ok(),
            "C18" if inplace => self.root_ok(),
            "C02" if full => self.dict_ok("C02"),
            "C02" => {
                if self.d.len() != self.o.len() {
                    return Err(format!("len() is {}, there are {} entries", self.d.len(), self.o.len()));
                }
                Ok(())
            }
            "C17" if full => self.dict_ok("C17"),
            "C03" if full => self.height_ok(),
            "C04" if full => {
                for k in &self.uni {
                    let _ = self.d.get(k).map(|v| v.b.len());
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }

    fn wit_ok(&self, w: &HashTree) -> Result<(), String> {
        if self.is("C05") && spec_recon(w) != self.d.root_hash() {
            return Err(format!("the witness reconstructs to {}, the root hash is {}", hex(&spec_recon(w)), hex(&self.d.root_hash())));
        }
        if self.is("C05") && w.reconstruct() != self.d.root_hash() {
            return Err("reconstruct() of the witness is not the root hash".into());
        }
        Ok(())
    }

    fn neighbours(&self, k: &[u8]) -> (Option<(Vec<u8>, Hash)>, Option<(Vec<u8>, Hash)>) {
        let f = |x: (&Vec<u8>, &Vec<u8>)| (x.0.clone(), value_hash(x.1));
        (
            self.o.iter().filter(|x| x.0.as_slice() < k).next_back().map(f),
            self.o.iter().filter(|x| x.0.as_slice() > k).next().map(f),
        )
    }

    fn op(&mut self, l: &str, full: bool) -> Result<(), String> {
        let w: Vec<&str> = l.split(' ').collect();
        let prop = self.prop;
        let a = |i: usize| unhex(w[i]);
        let before = if self.is("C01") { Some(self.d.root_hash()) } else { None };
        match w[0] {
            "ins" => {
                let (k, v) = (a(1), a(2));
                let d = &mut self.d;
                let r = guard(prop, &["C02", "C04", "C01", "C03"], "insert", || d.insert(Kt::new(&k), Vt::new(&v)))?;
                let was = self.o.insert(k, v);
                if let Some(r) = r {
                    if self.is("C02") && r.as_ref().map(|x| x.b.clone()) != was {
                        return Err(format!("insert returned {}, the previous value was {}", show(&r.map(|x| x.b.clone())), show(&was)));
                    }
                    if let Some(r) = r {
                        self.held.push((None, Some(r)));
                    }
                }
                self.after(full, false)
            }
            "del" | "rem" => {
                let k = a(1);
                let d = &mut self.d;
                let only = w[0] == "rem";
                let stored = if prop == "C02" && self.o.len() < 200 { stored_id(d.tree(), &k) } else { None };
                let r = guard(prop, &["C02", "C04", "C01", "C03"], "removal", || if only { d.remove(&k).map(|v| (None, v)) } else { d.delete(&k).map(|(k, v)| (Some(k), v)) })?;
                let was = self.o.remove(&k);
                if let Some(r) = r {
                    if self.is("C02") && r.as_ref().map(|x| x.1.b.clone()) != was {
                        return Err(format!("removal returned {}, the value was {}", show(&r.map(|x| x.1.b.clone())), show(&was)));
                    }
                    if let Some((k2, v)) = r {
                        if let Some(k2) = &k2 {
                            if self.is("C02") && stored.map_or(false, |i| i != k2.id()) {
                                return Err("removal did not return the key that was in the map".into());
                            }
                            if self.is("C02") && k2.b != k {
                                return Err(format!("removal returned the key {}", hex(&k2.b)));
                            }
                        }
                        self.held.push((k2, Some(v)));
                    }
                }
                if was.is_none() && self.is("C01") && before != Some(self.d.root_hash()) {
                    return Err("removing an absent key changed the root hash".into());
                }
                self.after(full, false)
            }
            "fromc" | "fromde" | "manycoll" | "manyde" => {
                let ps: Vec<(Vec<u8>, Vec<u8>)> = if w[0].starts_with("many") {
                    many(w[1].parse().unwrap(), w[2]).into_iter().map(many_kv).collect()
                } else {
                    w[1..].iter().map(|p| p.split_once(':').unwrap()).map(|(k, v)| (unhex(k), unhex(v))).collect()
                };
                let cbor = w[0].ends_with("de");
                let r = guard(prop, &["C02", "C04", "C01", "C03", "C19"], "building a map", || D::built(&ps, cbor))?;
                if let Some(Some(d)) = r {
                    let was = std::mem::replace(&mut self.d, d);
                    guard(prop, &["C04"], "dropping the map", || drop(was))?;
                    self.o = ps.into_iter().collect();
                }
                self.after(true, false)
            }
            // many <n> <order>: n insertions; manydel <n> <order> <k>: the first k of them removed
            "many" | "manydel" => {
                let del = w[0] == "manydel";
                let mut ks = many(w[1].parse().unwrap(), w[2]);
                if del {
                    ks.truncate(w[3].parse().unwrap());
                }
                for k in ks {
                    let (k, v) = many_kv(k);
                    let d = &mut self.d;
                    if del {
                        let r = guard(prop, &["C02", "C04", "C01", "C03"], "removal", || d.delete(&k).map(|x| (x.0.b.clone(), x.1.b.clone())))?;
                        let was = self.o.remove(&k);
                        if let (true, Some(r)) = (self.is("C02"), r) {
                            if r != was.map(|v| (k.clone(), v)) {
                                return Err(format!("removal of {} returned {:?}", hex(&k), r));
                            }
                        }
                    } else {
                        let r = guard(prop, &["C02", "C04", "C01", "C03"], "insert", || d.insert(Kt::new(&k), Vt::new(&v)).map(|x| x.b.clone()))?;
                        let was = self.o.insert(k.clone(), v);
                        if let (true, Some(r)) = (self.is("C02"), r) {
                            if r != was {
                                return Err(format!("insertion of {} returned {}", hex(&k), show(&r)));
                            }
                        }
                    }
                }
                self.after(true, false)
            }
            "clear" => {
                let d = &mut self.d;
                guard(prop, &["C02", "C04"], "clear", || d.clear())?;
                self.o.clear();
                self.after(full, false)
            }
            "get" => {
                let k = a(1);
                let d = &self.d;
                let g = guard(prop, &["C02", "C04"], "get", || d.get(&k).map(|v| v.b.clone()))?;
                if let Some(g) = g {
                    if self.is("C02") && g != self.o.get(&k).cloned() {
                        return Err(format!("get returned {}, should be {}", show(&g), show(&self.o.get(&k).cloned())));
                    }
                }
                Ok(())
            }
            "mod" => {
                let (k, v) = (a(1), a(2));
                let d = &mut self.d;
                let mut n = 0;
                let mut saw = None;
                let r = guard(prop, &["C02", "C04", "C01", "C18"], "in-place update", || {
                    d.modify(&k, &mut |x| {
                        n += 1;
                        saw = Some(x.b.clone());
                        x.b = v.clone();
                    })
                })?;
                let there = self.o.contains_key(&k);
                if let (true, Some(Some(r))) = (self.is("C02"), r) {
                    if r.is_some() != there || n != there as usize || saw != self.o.get(&k).cloned() {
                        return Err(format!("update of {}: closure called {} times with {}", if there { "a present key" } else { "an absent key" }, n, show(&saw)));
                    }
                }
                if there {
                    self.o.insert(k, v);
                } else if self.is("C01") && before != Some(self.d.root_hash()) {
                    return Err("updating an absent key changed the root hash".into());
                }
                self.after(full, true)
            }
            "modmax" => {
                let (p, v) = (a(1), a(2));
                let d = &mut self.d;
                let mut saw = vec![];
                let r = guard(prop, &["C02", "C04", "C01", "C18"], "in-place update", || {
                    d.modify_max(&p, &mut |k, x| {
                        saw.push((k.to_vec(), x.b.clone()));
                        x.b = v.clone();
                    })
                })?;
                if let Some(None) = r {
                    return Ok(());
                }
                let m = self.o.iter().filter(|x| x.0.starts_with(&p)).next_back().map(|x| (x.0.clone(), x.1.clone()));
                if self.is("C02") && saw != m.iter().cloned().collect::<Vec<_>>() {
                    return Err(format!("the greatest entry with the prefix is {:?}, the closure was called with {:?}", m, saw));
                }
                match m {
                    Some((k, _)) => {
                        self.o.insert(k, v);
                    }
                    None => {
                        if self.is("C01") && before != Some(self.d.root_hash()) {
                            return Err("updating an absent key changed the root hash".into());
                        }
                    }
                }
                self.after(full, true)
            }
            "maxp" => {
                let p = a(1);
                let d = &self.d;
                let g = guard(prop, &["C02", "C04"], "max_entry_with_prefix", || d.tree().max_entry_with_prefix(&p[..]).map(|(k, v)| (k.b.clone(), v.b.clone())))?;
                let m = self.o.iter().filter(|x| x.0.starts_with(&p)).next_back().map(|x| (x.0.clone(), x.1.clone()));
                if let Some(g) = g {
                    if self.is("C02") && g != m {
                        return Err(format!("greatest entry with the prefix: {:?}, should be {:?}", g, m));
                    }
                }
                Ok(())
            }
            // a closure that panics: nothing has changed, and everything is still owned once
            "boom" => {
                let k = a(1);
                let how = w[2];
                let d = &mut self.d;
                let out = || std::panic::resume_unwind(Box::new("boom"));
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
                    "mod" => {
                        d.modify(&k, &mut |_| out());
                    }
                    "max" => {
                        d.modify_max(&k, &mut |_, _| out());
                    }
                    "each" => d.tree().for_each(|_, _| out()),
                    "andmod" => {
                        d.entry(Kt::new(&k)).and_modify(|_| out());
                    }
                    "orwith" if !self.o.contains_key(&k) => {
                        d.entry(Kt::new(&k)).or_insert_with(|| std::panic::resume_unwind(Box::new("boom")));
                    }
                    "orkey" if !self.o.contains_key(&k) => {
                        d.entry(Kt::new(&k)).or_insert_with_key(|_| std::panic::resume_unwind(Box::new("boom")));
                    }
                    _ => (),
                }));
                self.after(full, true)
            }
            "ent" => self.entry_op(&w, full),
            "wit" => {
                self.resync();
                let k = a(1);
                let d = &self.d;
                let t = match guard(prop, &["C04", "C05", "C06", "C07"], "witness", || d.witness(&k))? {
                    None => return Ok(()),
                    Some(t) => t,
                };
                self.wit_ok(&t)?;
                match self.o.get(&k) {
                    Some(v) if self.is("C06") => check_present(&t, &k, &value_tree(v)),
                    None if self.is("C07") => {
                        let (p, s) = self.neighbours(&k);
                        check_absent(&t, p, s)
                    }
                    _ => Ok(()),
                }
            }
            "nwit" => {
                self.resync();
                let k = a(1);
                let d = &self.d;
                let mut n = 0;
                let mut saw = None;
                let t = match guard(prop, &["C04", "C05", "C06", "C07"], "nested_witness", || {
                    d.tree().nested_witness(&k[..], |v| {
                        n += 1;
                        saw = Some(v.b.clone());
                        HashTree::Pruned(v.root_hash())
                    })
                })? {
                    None => return Ok(()),
                    Some(t) => t,
                };
                self.wit_ok(&t)?;
                match self.o.get(&k) {
                    Some(v) if self.is("C06") => {
                        if n != 1 || saw.as_ref() != Some(v) {
                            return Err(format!("the nested witness function was called {} times, with {}", n, show(&saw)));
                        }
                        check_present(&t, &k, &HashTree::Pruned(value_hash(v)))
                    }
                    None if self.is("C07") => {
                        if n != 0 {
                            return Err("the nested witness function was called for an absent key".into());
                        }
                        let (p, s) = self.neighbours(&k);
                        check_absent(&t, p, s)
                    }
                    _ => Ok(()),
                }
            }
            "keys" => {
                self.resync();
                let d = &self.d;
                let t = match guard(prop, &["C04", "C05", "C08"], "keys witness", || d.keys())? {
                    None => return Ok(()),
                    Some(t) => t,
                };
                self.wit_ok(&t)?;
                if self.is("C08") {
                    check_range(&t, &self.o, &Want { inside: &|_| true, hidden: &|_, _| true, values: false })?;
                }
                Ok(())
            }
            "full" => {
                let d = &self.d;
                let t = match guard(prop, &["C04", "C05", "C01"], "as_hash_tree", || d.as_hash_tree())? {
                    None => return Ok(()),
                    Some(t) => t,
                };
                self.wit_ok(&t)
            }
            "krange" | "vrange" => {
                self.resync();
                let (x, y) = (a(1), a(2));
                if x > y {
                    return Ok(());
                }
                let (kx, ky) = (Kt::new(&x), Kt::new(&y));
                let vals = w[0] == "vrange";
                let d = &self.d;
                let t = match guard(prop, &["C04", "C05", "C08"], "range witness", || if vals { d.vrange(&kx, &ky) } else { d.krange(&kx, &ky) })? {
                    None => return Ok(()),
                    Some(t) => t,
                };
                self.wit_ok(&t)?;
                if self.is("C08") {
                    check_range(
                        &t,
                        &self.o,
                        &Want {
                            inside: &|k| k >= &x[..] && k <= &y[..],
                            hidden: &|p, q| !(q.map_or(false, |q| q <= &x[..]) || p.map_or(false, |p| p >= &y[..])),
                            values: vals,
                        },
                    )?;
                }
                Ok(())
            }
            "pref" => {
                self.resync();
                let p = a(1);
                let d = &self.d;
                let t = match guard(prop, &["C04", "C05", "C08"], "prefix witness", || d.pref(&p))? {
                    None => return Ok(()),
                    Some(t) => t,
                };
                self.wit_ok(&t)?;
                if self.is("C08") {
                    check_range(
                        &t,
                        &self.o,
                        &Want {
                            inside: &|k| k.starts_with(&p),
                            hidden: &|x, q| !(q.map_or(false, |q| q <= &p[..]) || x.map_or(false, |x| x > &p[..] && !x.starts_with(&p))),
                            values: false,
                        },
                    )?;
                }
                Ok(())
            }
            "gview" => by_view(prop, &self.o, &a(1), w[2].parse().unwrap()),
            "iter" | "each" => {
                self.resync();
                let d = &self.d;
                let it = w[0] == "iter";
                let r = guard(prop, &["C16", "C04"], "iteration", || {
                    if it {
                        d.list()
                    } else {
                        let mut out = vec![];
                        d.tree().for_each(|k, v| out.push((k.b.clone(), v.b.clone())));
                        Ok(out)
                    }
                })?;
                if let (true, Some(r)) = (self.is("C16"), r) {
                    let r = r?;
                    let want: Vec<_> = self.o.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    if r != want {
                        return Err(format!("iteration yields {} entries that differ from the map's {}", r.len(), want.len()));
                    }
                }
                Ok(())
            }
            "de" | "coll" => {
                let ps: Vec<(Vec<u8>, Vec<u8>)> = w[1..].iter().map(|p| p.split_once(':').unwrap()).map(|(k, v)| (unhex(k), unhex(v))).collect();
                let coll = w[0] == "coll";
                if !coll && self.is("C19") && ps.len() <= 600 {
                    json_de(&ps)?;
                }
                let m = guard(prop, &["C19", "C04"], "reading a map", || {
                    if coll {
                        ps.iter().map(|(k, v)| (Kt::new(k), Vt::new(v))).collect::<Map<Kt, Vt>>()
                    } else {
serde_cbor::from_slice::<Map<Kt, Vt>>(&cbor_map(&ps)).unwrap()
                    }
                })?;
                if let Some(m) = m {
                    let o: O = ps.into_iter().collect();
                    if coll && self.is("C02") {
                        let mut c = Ctx { prop, d: m, o, uni: self.uni.clone(), every: 1, held: vec![] };
                        c.dict_ok("C02")?;
                        c.held.clear();
                    } else if self.is("C19") && !coll {
                        let c = Ctx { prop, d: m, o, uni: self.uni.clone(), every: 1, held: vec![] };
                        c.dict_ok("C19")?;
                        c.root_ok()?;
                    }
                }
                Ok(())
            }
            "ser" => {
                if !self.is("C19") {
                    return Ok(());
                }
                self.resync();
                let mut m = Map::<Kt, Vt>::new();
                let mut o = O::new();
                // the same entries, put into a Map in scrambled order
                let mut es: Vec<_> = self.o.iter().collect();
                es.sort_by_key(|e| sha(&[e.0]));
                for (k, v) in es {
                    m.insert(Kt::new(k), Vt::new(v));
                    o.insert(k.clone(), v.clone());
                }
                let got = match guard(prop, &["C19"], "serializing", || serde_cbor::to_vec(&m))? {
                    Some(Ok(b)) => b,
                    _ => return Err("serializing fails".into()),
                };
                let mut want = vec![];
                cbor_head(&mut want, 5, o.len() as u64);
                for (k, v) in &o {
                    cbor_bytes(&mut want, k);
                    cbor_bytes(&mut want, v);
                }
                if got != want {
                    return Err(format!("a map of {} entries serializes to {}, should be {}", o.len(), hex(&got), hex(&want)));
                }
                let back = match guard(prop, &["C19"], "deserializing", || serde_cbor::from_slice::<Map<Kt, Vt>>(&got))? {
                    Some(Ok(m)) => m,
                    _ => return Err("what was serialized does not deserialize".into()),
                };
                if o.len() <= 600 {
                    json_ser(&o)?;
                    candid_ser(&o)?;
                }
                let c = Ctx { prop, d: back, o, uni: self.uni.clone(), every: 1, held: vec![] };
                c.dict_ok("C19")?;
                c.root_ok()
            }
            x => panic!("unknown op {}", x),
        }
    }

    /// for the properties that do not depend on what is in the map, take what is
    fn resync(&mut self) {
        if matches!(self.prop, "C05" | "C06" | "C07" | "C08" | "C16" | "C19") {
            self.sync();
        }
    }

    fn entry_op(&mut self, w: &[&str], full: bool) -> Result<(), String> {
        let prop = self.prop;
        let k = unhex(w[1]);
        let how = w[2];
        let v = unhex(w[3]);
        let was = self.o.get(&k).cloned();
        let d = &mut self.d;
        let stored = if prop == "C17" { stored_id(d.tree(), &k) } else { None };
        let held = &mut self.held;
        let mut inplace = false;
        let serves = &["C17", "C04"][..];
        // (what was read through the entry, the binding afterwards)
        let r = guard(prop, serves, &format!("entry {}", how), || -> Result<Option<Option<Vec<u8>>>, String> {
            let mine = Kt::new(&k);
            let mine_id = mine.id();
            let e = d.entry(mine);
            if e.key().b != k {
                return Err(format!("the entry's key is {}", hex(&e.key().b)));
            }
            let (e, occ, cur) = match e {
                Entry::Occupied(o) => {
                    let c = o.get().b.clone();
                    (Entry::Occupied(o), true, Some(c))
                }
                Entry::Vacant(x) => (Entry::Vacant(x), false, None),
            };
            if occ != was.is_some() {
                return Err(format!("the entry is {}", if occ { "occupied" } else { "vacant" }));
            }
            if cur != was {
                return Err(format!("the entry holds {}, the key is bound to {}", show(&cur), show(&was)));
            }
            let mut calls = 0;
            let dflt = Vt::default().b.clone();
            Ok(match how {
                "get" => None,
                "getmut" => match e {
                    Entry::Occupied(mut o) => {
                        if Some(&o.get_mut().b) != was.as_ref() {
                            return Err("get_mut gives another value".into());
                        }
                        if o.key().b != k {
                            return Err("key() of the occupied entry".into());
                        }
                        None
                    }
                    _ => None,
                },
                "intomut" => match e {
                    Entry::Occupied(o) => {
                        let p = o.into_mut();
                        if Some(&p.b) != was.as_ref() {
                            return Err("into_mut gives another value".into());
                        }
                        None
                    }
                    _ => None,
                },
                "remove" | "rement" => match e {
                    Entry::Occupied(o) => {
                        if how == "remove" {
                            let x = o.remove();
                            let b = x.b.clone();
                            held.push((None, Some(x)));
                            if Some(&b) != was.as_ref() {
                                return Err(format!("remove returned {}", hex(&b)));
                            }
                        } else {
                            let (x, y) = o.remove_entry();
                            let (a, b) = (x.b.clone(), y.b.clone());
                            if stored.map_or(false, |i| i != x.id()) {
                                return Err("remove_entry did not return the key that was in the map".into());
                            }
                            held.push((Some(x), Some(y)));
                            if Some(&b) != was.as_ref() || a != k {
                                return Err(format!("remove_entry returned {} {}", hex(&a), hex(&b)));
                            }
                        }
                        Some(None)
                    }
                    _ => None,
                },
                "vins" => match e {
                    Entry::Vacant(x) => {
                        if x.key().b != k {
                            return Err("key() of the vacant entry".into());
                        }
                        let p = x.insert(Vt::new(&v));
                        if p.b != v {
                            return Err("insert refers to another value".into());
                        }
                        Some(Some(v.clone()))
                    }
                    _ => None,
                },
                "intokey" => match e {
                    Entry::Vacant(x) => {
                        let q = x.into_key();
                        let b = q.b.clone();
                        if q.id() != mine_id {
                            return Err("into_key is not the key that was given".into());
                        }
                        held.push((Some(q), None));
                        if b != k {
                            return Err("into_key".into());
                        }
                        None
                    }
                    _ => None,
                },
                "ordef" | "orins" | "orwith" | "orwithkey" => {
                    let new = if how == "ordef" { dflt } else { v.clone() };
                    let mut keyseen = k.clone();
                    let p: *const Vt = match how {
                        "ordef" => e.or_default(),
                        "orins" => e.or_insert(Vt::new(&v)),
                        "orwith" => e.or_insert_with(|| {
                            calls += 1;
                            Vt::new(&v)
                        }),
                        _ => e.or_insert_with_key(|q| {
                            calls += 1;
                            keyseen = q.b.clone();
                            Vt::new(&v)
                        }),
                    };
                    let got = unsafe { (*p).b.clone() };
                    if keyseen != k {
                        return Err("the closure was given another key".into());
                    }
                    if (how == "orwith" || how == "orwithkey") && calls != was.is_none() as usize {
                        return Err(format!("the closure was called {} times", calls));
                    }
                    let want = was.clone().unwrap_or(new);
                    if got != want {
                        return Err(format!("the reference is to {}, should be {}", hex(&got), hex(&want)));
                    }
                    match d.get(&k) {
                        Some(x) if std::ptr::eq(x as *const Vt, p) => {}
                        _ => return Err("the reference is not to the value stored for the key".into()),
                    }
                    Some(Some(want))
                }
                "andmod" => {
                    inplace = true;
                    let mut saw = None;
                    let e = e.and_modify(|x| {
                        calls += 1;
                        saw = Some(x.b.clone());
                        x.b = v.clone();
                    });
                    if calls != was.is_some() as usize || saw != was {
                        return Err(format!("and_modify called its closure {} times, with {}", calls, show(&saw)));
                    }
                    match (e, was.is_some()) {
                        (Entry::Occupied(o), true) => {
                            if o.get().b != v {
                                return Err("and_modify's entry does not hold the new value".into());
                            }
                            Some(Some(v.clone()))
                        }
                        (Entry::Vacant(_), false) => None,
                        _ => return Err("and_modify turned the entry over".into()),
                    }
                }
                "andmodor" => {
                    inplace = true;
                    let p: *const Vt = e.and_modify(|x| x.b = v.clone()).or_insert_with(|| {
                        calls += 1;
                        Vt::new(&v)
                    });
                    if calls != was.is_none() as usize || unsafe { (*p).b != v } {
                        return Err("and_modify().or_insert_with()".into());
                    }
                    Some(Some(v.clone()))
                }
                x => panic!("unknown entry op {}", x),
            })
        })?;
        match r {
            None => {}
            Some(Err(e)) => {
                if self.is("C17") {
                    return Err(e);
                }
                self.sync();
            }
            Some(Ok(None)) => {}
            Some(Ok(Some(None))) => {
                self.o.remove(&k);
            }
            Some(Ok(Some(Some(x)))) => {
                self.o.insert(k, x);
            }
        }
        self.after(full, inplace)
    }
}

// ---------------------------------------------------------------- generator
pub fn key(r: &mut Rng, style: usize) -> Vec<u8> {
    if let (true, Some(b)) = (r.chance(12), lit_bytes(r)) {
        return b;
    }
    match style {
        // long, alike but for a byte or the length
        9 => {
            let most = if r.chance(20) { 4000 } else { 300 };
            let n = scale(r, most);
            let mut k = vec![97u8; n];
            if n > 0 {
                let at = if r.chance(50) { r.below(n) } else { *r.pick(&[0, n - 1]) };
                k[at] = *r.pick(&[97, 98, 96, 255]);
            }
            k
        }
        // short strings over a tiny alphabet: prefixes of each other
        0 => (0..r.below(4)).map(|_| *r.pick(&[0u8, 1, 97, 98, 255])).collect(),
        1 => vec![r.below(9) as u8],
        2 => vec![r.below(40) as u8],
        3 => {
            let n = r.below(600) as u16;
            n.to_be_bytes().to_vec()
        }
        _ => (0..1 + r.below(5)).map(|_| *r.pick(&[0u8, 1, 2, 97, 98, 99, 127, 128, 254, 255])).collect(),
    }
}
pub fn value(r: &mut Rng) -> Vec<u8> {
    if let (true, Some(b)) = (r.chance(15), lit_bytes(r)) {
        return b;
    }
    (0..r.below(4)).map(|_| r.below(6) as u8).collect()
}

pub fn gen(prop: &str, r: &mut Rng, i: u64) -> Case {
    let kind = if r.chance(60) { "tree" } else { "map" };
    let mut out = vec![];
    let big = match prop {
        "C03" => i % 4 != 3,
        "C01" | "C02" | "C04" | "C16" => i % 64 == 63,
        _ => i % 200 == 199,
    };
    if big {
        return gen_big(prop, r, kind);
    }
    out.push(format!("{} 1", kind));
    let style = if i % 11 == 4 { 9 } else { r.below(5) };
    let lim = if r.chance(30) { 80 } else { 30 };
    let n = 4 + r.below(lim);
    let reads: &[&str] = match prop {
        "C05" => &["wit", "nwit", "keys", "full", "krange", "vrange", "pref", "wit", "krange", "gview"],
        "C06" | "C07" => &["wit", "wit", "nwit"],
        "C08" => &["krange", "vrange", "pref", "keys", "krange", "vrange", "pref", "gview"],
        "C16" => &["iter", "each"],
        "C17" => &["ent"],
        "C18" => &["mod", "modmax", "ent", "gview"],
        "C19" => &["ser", "de", "ser"],
        "C02" => &["get", "maxp", "get", "coll", "gview"],
        "C04" => &["wit", "krange", "vrange", "pref", "keys", "iter", "each", "maxp", "full", "nwit", "get", "coll", "de", "gview"],
        "C01" => &["get"],
        _ => &["get"],
    };
    let pread = match prop {
        "C01" | "C03" => 2,
        "C02" => 15,
        "C04" => 20,
        _ => 45,
    };
    let mut used: Vec<Vec<u8>> = vec![];
    if kind == "map" && r.chance(25) {
        // start from a map that was built in one go
        let m = r.below(24);
        let mut ps: Vec<(Vec<u8>, Vec<u8>)> = (0..m).map(|_| (key(r, style), value(r))).collect();
        if r.chance(60) {
            ps.sort();
            if r.chance(70) {
                ps.dedup_by(|a, b| a.0 == b.0);
            }
        }
        used.extend(ps.iter().map(|p| p.0.clone()));
        let l: String = ps.iter().map(|(k, v)| format!(" {}:{}", hex(k), hex(v))).collect();
        out.push(format!("{}{}", r.pick(&["fromc", "fromc", "fromde"]), l));
    }
    for _ in 0..n {
        let k = if !used.is_empty() && r.chance(45) { r.pick(&used).clone() } else { key(r, style) };
        let ops = ["ins", "ins", "ins", "ins", "ins", "del", "del", "rem", "mod", "modmax", "ent", "ent"];
        let o = if r.chance(pread) { *r.pick(reads) } else { *r.pick(&ops) };
        let kk = hex(&k);
        if prop == "C04" && r.chance(6) {
            out.push(format!("boom {} {}", kk, r.pick(&["mod", "mod", "max", "each", "andmod", "orwith", "orkey"])));
        }
        match o {
            "ins" => {
                used.push(k.clone());
                out.push(format!("ins {} {}", kk, hex(&value(r))));
            }
            "mod" => out.push(format!("mod {} {}", kk, hex(&value(r)))),
            "modmax" => {
                let p = k[..r.below(k.len() + 1)].to_vec();
                out.push(format!("modmax {} {}", hex(&p), hex(&value(r))));
            }
            "maxp" => {
                let p = k[..r.below(k.len() + 1)].to_vec();
                out.push(format!("maxp {}", hex(&p)));
            }
            "pref" => {
                let mut p = k[..r.below(k.len() + 1)].to_vec();
                if r.chance(20) {
                    p.push(r.below(256) as u8);
                }
                out.push(format!("pref {}", hex(&p)));
            }
            "krange" | "vrange" => {
                let k2 = if !used.is_empty() && r.chance(50) { r.pick(&used).clone() } else { key(r, style) };
                let (a, b) = if k <= k2 { (&k, &k2) } else { (&k2, &k) };
                out.push(format!("{} {} {}", o, hex(a), hex(b)));
            }
            "ent" => {
                let how = if prop == "C18" {
                    *r.pick(&["andmod", "andmodor"])
                } else {
                    *r.pick(&["get", "getmut", "intomut", "remove", "rement", "vins", "vins", "intokey", "ordef", "orins", "orwith", "orwithkey", "andmod", "andmodor"])
                };
                if how != "get" {
                    used.push(k.clone());
                }
                out.push(format!("ent {} {} {}", kk, how, hex(&value(r))));
            }
            "de" | "coll" => {
                let n = r.below(12);
                let mut l = o.to_string();
                for _ in 0..n {
                    l += &format!(" {}:{}", hex(&key(r, style)), hex(&value(r)));
                }
                out.push(l);
            }
            "gview" => out.push(format!("gview {} {}", kk, r.below(1000))),
            "keys" | "full" | "iter" | "each" | "ser" => out.push(o.to_string()),
            _ => out.push(format!("{} {}", o, kk)),
        }
        if r.chance(2) {
            out.push("clear".into());
            used.clear();
        }
    }
    // and once at the end
    match prop {
        "C05" | "C08" => out.extend(["keys".to_string(), "full".to_string()]),
        "C16" => out.extend(["iter".to_string(), "each".to_string()]),
        _ => {}
    }
    out
}

/// sizes near powers of two and near constants of the source
pub fn gen_scale(prop: &str, r: &mut Rng, huge: bool) -> Case {
    let kind = *r.pick(&["tree", "map"]);
    let mut out = vec![format!("{} 9999", kind)];
    let pat = |r: &mut Rng| match r.below(6) {
        0 => "asc".to_string(),
        1 | 2 => "desc".to_string(),
        3 => "mid".to_string(),
        4 => "ends".to_string(),
        _ => format!("rand{}", r.below(1000)),
    };
    let max = match prop {
        "C05" | "C06" | "C07" | "C08" => 1100,
        "C01" | "C02" | "C03" | "C04" | "C16" => 4200,
        _ => 1100,
    };
    let n = if huge && matches!(prop, "C05" | "C06" | "C07" | "C08" | "C17" | "C18" | "C19") { 5000 } else if huge { 20000 + r.below(16000) } else { scale(r, max) };
    let how = if kind == "map" && r.chance(50) { *r.pick(&["manycoll", "manyde"]) } else { "many" };
    out.push(format!("{} {} {}", how, n, if huge { r.pick(&["asc", "desc", "desc"]).to_string() } else if how != "many" && r.chance(60) { "asc".to_string() } else { pat(r) }));
    if !huge {
        if r.chance(60) {
            let k = r.below(n + 1);
            out.push(format!("manydel {} {} {}", n, pat(r), k));
        }
        if r.chance(30) {
            out.push(format!("many {} {}", r.below(n + 1), pat(r)));
        }
    }
    for _ in 0..8 {
        let k = |r: &mut Rng| hex(&(r.below(n + 2) as u32).to_be_bytes());
        let (a, b) = (k(r), k(r));
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        out.push(match r.below(4) {
            0 => format!("ins {} 09", a),
            1 => format!("del {}", a),
            2 => format!("mod {} 08", a),
            _ => match prop {
                "C05" => r.pick(&[format!("wit {}", a), format!("nwit {}", a), "keys".into(), "full".into(), format!("krange {} {}", a, b), format!("pref {}", &a[..6])]).clone(),
                "C06" | "C07" => format!("wit {}", a),
                "C08" => r.pick(&["keys".to_string(), format!("krange {} {}", a, b), format!("vrange {} {}", a, b), format!("pref {}", &a[..6])]).clone(),
                "C16" => r.pick(&["iter", "each"]).to_string(),
                "C17" => format!("ent {} {} 05", a, r.pick(&["get", "remove", "rement", "vins", "orins", "andmod"])),
                "C18" => format!("ent {} andmod 05", a),
                "C19" => "ser".to_string(),
                _ => format!("get {}", a),
            },
        });
    }
    out
}

fn gen_big(prop: &str, r: &mut Rng, kind: &str) -> Case {
    let n = *r.pick(&[12usize, 40, 100, 300, 900, 2000]);
    let every = if prop == "C03" { (n / 12).max(1) } else { n / 3 + 1 };
    let mut out = vec![format!("{} {}", kind, every)];
    let pat = r.below(6);
    let mut ks: Vec<u16> = (0..n as u16).collect();
    match pat {
        0 => {}
        1 => ks.reverse(),
        2 => {
            // alternate from both ends
            let mut v = vec![];
            for i in 0..n / 2 {
                v.push(i as u16);
                v.push((n - 1 - i) as u16);
            }
            ks = v;
        }
        3 => {
            for i in (1..n).rev() {
                ks.swap(i, r.below(i + 1));
            }
        }
        4 => {
            // from the middle outwards
            let mut v = vec![];
            for i in 0..n / 2 {
                v.push((n / 2 + i) as u16);
                v.push((n / 2 - i) as u16);
            }
            ks = v;
        }
        _ => {
            // runs
            let m = 1 + r.below(9);
            ks.sort_by_key(|k| (*k as usize % m, *k));
        }
    }
    let h = |k: u16| hex(&k.to_be_bytes());
    for k in &ks {
        out.push(format!("ins {} {}", h(*k), hex(&[(*k % 7) as u8])));
    }
    let del = r.below(5);
    let mut ds = ks.clone();
    ds.sort_unstable();
    ds.dedup();
    match del {
        0 => {}
        1 => ds.reverse(),
        2 => {
            for i in (1..ds.len()).rev() {
                ds.swap(i, r.below(i + 1));
            }
        }
        3 => {
            let m = ds.len() / 2;
            ds.rotate_left(m);
        }
        _ => ds.clear(),
    }
    let stop = ds.len() - ds.len() / (2 + r.below(8));
    for k in ds.iter().take(stop) {
        out.push(format!("del {}", h(*k)));
        if r.chance(3) {
            out.push(format!("ins {} 01", h(r.below(n) as u16)));
        }
    }
    match prop {
        "C16" => out.extend(["iter".to_string(), "each".to_string()]),
        "C05" | "C08" => out.extend(["keys".to_string(), "full".to_string()]),
        _ => {}
    }
    out
}
