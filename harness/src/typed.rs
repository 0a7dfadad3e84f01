//! Histories on RbTree and Map over many key and value types (sizes zero to large, with and without drop glue).
use crate::maps::{check_absent, check_present};
use crate::util::*;
use crate::{guard, Case};
use certified_vars::label::Label;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Seq};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C16", "C17", "C18"];

trait TK: Label + Ord + Clone + Debug + 'static {
    fn of(n: u32) -> Self;
}
trait TV: AsHashTree + Clone + PartialEq + Debug + 'static {
    fn of(n: u32) -> Self;
}
#[derive(Clone, PartialEq, Debug)]
pub struct Zst;
impl AsHashTree for Zst {
    fn as_hash_tree(&self) -> HashTree<'_> {
        HashTree::Leaf(Cow::Borrowed(b"unit"))
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Big([u64; 40]);
impl AsHashTree for Big {
    fn as_hash_tree(&self) -> HashTree<'_> {
        HashTree::Leaf(Cow::Owned(self.0.iter().flat_map(|x| x.to_be_bytes()).collect()))
    }
}
/// different values with the same hash tree
#[derive(Clone, PartialEq, Debug)]
pub struct Lossy(u32);
impl AsHashTree for Lossy {
    fn as_hash_tree(&self) -> HashTree<'_> {
        HashTree::Leaf(Cow::Owned(vec![(self.0 % 2) as u8]))
    }
}
/// no default hash function: its own digest
#[derive(Clone, PartialEq, Debug)]
pub struct Nested(Vec<u32>);
impl AsHashTree for Nested {
    fn root_hash(&self) -> Hash {
        spec_recon(&self.as_hash_tree())
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        let mut t = HashTree::Empty;
        for x in &self.0 {
            t = certified_vars::hashtree::fork(t, HashTree::Labeled(Cow::Owned(x.to_be_bytes().to_vec()), Box::new(HashTree::Empty)));
        }
        t
    }
}
macro_rules! tk { ($($t:ty => $n:ident $e:expr),* $(,)?) => { $( impl TK for $t { fn of($n: u32) -> $t { $e } } )* } }
macro_rules! tv { ($($t:ty => $n:ident $e:expr),* $(,)?) => { $( impl TV for $t { fn of($n: u32) -> $t { $e } } )* } }
tk! {
    u8 => n n as u8,
    u16 => n (n as u16) << 4,
    u32 => n n << 16,
    u64 => n (n as u64) << 30,
    u128 => n (n as u128) << 60,
    bool => n n % 2 == 0,
    String => n format!("k{}", n),
    Vec<u8> => n vec![n as u8; n as usize % 7],
    [u8; 1] => n [n as u8],
    [u8; 3] => n [0, n as u8, 3],
    [u8; 32] => n { let mut a = [0u8; 32]; a[31] = n as u8; a },
    Box<u64> => n Box::new(n as u64),
}
tv! {
    u8 => n n as u8,
    u64 => n n as u64,
    i64 => n -(n as i64),
    f64 => n n as f64 / 3.0,
    bool => n n % 3 == 0,
    String => n "v".repeat(n as usize % 9),
    Vec<u8> => n vec![n as u8; n as usize % 70],
    [u8; 32] => n [n as u8; 32],
    Box<u32> => n Box::new(n),
    Zst => _n Zst,
    Lossy => n Lossy(n),
    Big => n Big([n as u64; 40]),
    Nested => n Nested((0..n % 5).collect()),
    Seq<u32> => n (0..n % 4).collect(),
}

pub fn run(prop: &str, case: &Case) -> Result<(), String> {
    match case[0].split(' ').nth(1).unwrap() {
        "0" => both::<u8, Zst>(prop, case),
        "1" => both::<u64, Zst>(prop, case),
        "2" => both::<String, u64>(prop, case),
        "3" => both::<Vec<u8>, Vec<u8>>(prop, case),
        "4" => both::<[u8; 32], [u8; 32]>(prop, case),
        "5" => both::<[u8; 1], bool>(prop, case),
        "6" => both::<u128, Big>(prop, case),
        "7" => both::<bool, String>(prop, case),
        "8" => both::<u16, Nested>(prop, case),
        "9" => both::<u32, Seq<u32>>(prop, case),
        "10" => both::<Box<u64>, Box<u32>>(prop, case),
        "11" => both::<u8, u8>(prop, case),
        "12" => both::<u64, f64>(prop, case),
        "14" => both::<u64, Lossy>(prop, case),
        "15" => both::<Vec<u8>, Lossy>(prop, case),
        "16" => both::<[u8; 3], Lossy>(prop, case),
        _ => both::<String, i64>(prop, case),
    }
}
fn both<K: TK, V: TV>(prop: &str, case: &Case) -> Result<(), String> {
    let once = || {
        if case[0].ends_with("map") {
            go::<K, V, Map<K, V>>(prop, case)
        } else {
            go::<K, V, RbTree<K, V>>(prop, case)
        }
    };
    once()?;
    if prop == "C04" {
        let a = live_bytes();
        once()?;
        let b = live_bytes();
        once()?;
        let c = live_bytes();
        if c > b && b > a {
            return Err(format!("{} bytes are still allocated after the map was dropped", c - b));
        }
    }
    Ok(())
}

trait Dt<K: TK, V: TV>: AsHashTree {
    fn mk(ps: Vec<(K, V)>) -> Self;
    fn ins(&mut self, k: K, v: V) -> Option<V>;
    fn del(&mut self, k: &K) -> Option<(K, V)>;
    fn get(&self, k: &K) -> Option<&V>;
    fn len(&self) -> usize;
    fn tree(&self) -> &RbTree<K, V>;
    fn entry(&mut self, k: K) -> Entry<'_, K, V>;
    fn modify(&mut self, k: &K, v: V);
    fn iter(&self) -> Vec<(K, V)>;
}
impl<K: TK, V: TV> Dt<K, V> for RbTree<K, V> {
    fn mk(ps: Vec<(K, V)>) -> Self {
        let mut t = RbTree::new();
        for (k, v) in ps {
            t.insert(k, v);
        }
        t
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        RbTree::insert(self, k, v).0
    }
    fn del(&mut self, k: &K) -> Option<(K, V)> {
        RbTree::delete(self, k)
    }
    fn get(&self, k: &K) -> Option<&V> {
        RbTree::get(self, k)
    }
    fn len(&self) -> usize {
        RbTree::len(self)
    }
    fn tree(&self) -> &RbTree<K, V> {
        self
    }
    fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        RbTree::entry(self, k)
    }
    fn modify(&mut self, k: &K, v: V) {
        RbTree::modify(self, k, |x| *x = v);
    }
    fn iter(&self) -> Vec<(K, V)> {
        certified_vars::rbtree::iterator::RbTreeIterator::new(self).map(|(k, v)| (k.clone(), v.clone())).collect()
    }
}
impl<K: TK, V: TV> Dt<K, V> for Map<K, V> {
    fn mk(ps: Vec<(K, V)>) -> Self {
        ps.into_iter().collect()
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        Map::insert(self, k, v)
    }
    fn del(&mut self, k: &K) -> Option<(K, V)> {
        Map::remove_entry(self, k)
    }
    fn get(&self, k: &K) -> Option<&V> {
        Map::get(self, k)
    }
    fn len(&self) -> usize {
        Map::len(self)
    }
    fn tree(&self) -> &RbTree<K, V> {
        self.as_tree()
    }
    fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        Map::entry(self, k)
    }
    fn modify(&mut self, k: &K, v: V) {
        let _ = Map::entry(self, k.clone()).and_modify(|x| *x = v);
    }
    fn iter(&self) -> Vec<(K, V)> {
        Map::iter(self).map(|(k, v)| (k.clone(), v.clone())).collect()
    }
}

fn go<K: TK, V: TV, D: Dt<K, V>>(prop: &str, case: &Case) -> Result<(), String> {
    let mut d = D::mk(vec![]);
    let mut o: BTreeMap<K, V> = BTreeMap::new();
    let vh = |v: &V| spec_recon(&v.as_hash_tree());
    for (i, l) in case[1..].iter().enumerate() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |j: usize| w.get(j).and_then(|x| x.parse::<u32>().ok()).unwrap_or(0);
        let e = |m: String| Err(format!("op {} `{}`: {}", i, l, m));
        let dd = &mut d;
        let oo = &mut o;
        let serves: &[&str] = match w[0] {
            "wit" => &["C04", "C05", "C06", "C07"],
            "iter" => &["C16", "C04"],
            "mod" => &["C01", "C02", "C04", "C18"],
            "ent" => &["C04", "C17"],
            _ => &["C01", "C02", "C03", "C04"],
        };
        let r = guard(prop, serves, w[0], || -> Result<bool, String> {
            let (k, v) = (K::of(n(1)), V::of(n(2)));
            let was = oo.get(&k).cloned();
            match w[0] {
                "ins" => {
                    let got = dd.ins(k.clone(), v.clone());
                    oo.insert(k, v);
                    if prop == "C02" && got != was {
                        return Err(format!("insert returned {:?}, the previous value was {:?}", got, was));
                    }
                }
                "mk" => {
                    let ps: Vec<(K, V)> = w[1..].iter().map(|x| x.parse().unwrap()).map(|n: u32| (K::of(n), V::of(n + 1))).collect();
                    *dd = D::mk(ps.clone());
                    *oo = ps.into_iter().collect();
                }
                "del" => {
                    let got = dd.del(&k);
                    oo.remove(&k);
                    if prop == "C02" && got != was.map(|v| (k, v)) {
                        return Err(format!("removal returned {:?}", got));
                    }
                }
                "get" => {
                    if prop == "C02" && dd.get(&k).cloned() != was {
                        return Err(format!("get returned {:?}, should be {:?}", dd.get(&k), was));
                    }
                }
                "mod" => {
                    dd.modify(&k, v.clone());
                    if was.is_some() {
                        oo.insert(k, v);
                    }
                }
                "ent" => {
                    let occ = match dd.entry(k.clone()) {
                        Entry::Occupied(x) => {
                            if prop == "C17" && Some(x.get()) != was.as_ref() {
                                return Err(format!("the entry holds {:?}", x.get()));
                            }
                            if n(3) == 1 {
                                let got = x.remove_entry();
                                oo.remove(&k);
                                if prop == "C17" && Some(got) != was.clone().map(|v| (k.clone(), v)) {
                                    return Err("remove_entry returned another pair".into());
                                }
                            }
                            true
                        }
                        Entry::Vacant(x) => {
                            if *x.insert(v.clone()) != v && prop == "C17" {
                                return Err("insert refers to another value".into());
                            }
                            oo.insert(k.clone(), v.clone());
                            false
                        }
                    };
                    if prop == "C17" && occ != was.is_some() {
                        return Err(format!("the entry is {}", if occ { "occupied" } else { "vacant" }));
                    }
                }
                "wit" => {
                    let t = dd.tree().witness(&k);
                    if prop == "C05" && spec_recon(&t) != dd.root_hash() {
                        return Err("the witness does not reconstruct to the root hash".into());
                    }
                    let lab = k.as_label().to_vec();
                    let es = dd.iter();
                    let ne = |x: &(K, V)| (x.0.as_label().to_vec(), vh(&x.1));
                    match es.iter().find(|x| x.0 == k) {
                        Some((_, v)) if prop == "C06" => check_present(&t, &lab, &v.as_hash_tree())?,
                        None if prop == "C07" => check_absent(&t, es.iter().filter(|x| x.0 < k).next_back().map(ne), es.iter().find(|x| x.0 > k).map(ne))?,
                        _ => {}
                    }
                }
                _ => {
                    if prop == "C16" && dd.iter() != oo.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>() {
                        return Err("iteration does not yield the entries of the map".into());
                    }
                }
            }
            Ok(true)
        })?;
        match r {
            Some(Ok(_)) => {}
            Some(Err(m)) => return e(m),
            None => return Ok(()),
        }
        match prop {
            "C02" | "C17" => {
                if d.len() != o.len() {
                    return e(format!("len() is {}, there are {} entries", d.len(), o.len()));
                }
                for j in 0..40 {
                    let k = K::of(j);
                    if d.get(&k) != o.get(&k) {
                        return e(format!("key {:?} is bound to {:?}, should be {:?}", k, d.get(&k), o.get(&k)));
                    }
                }
            }
            "C01" | "C18" if prop == "C01" || w[0] == "mod" => {
                let t = d.as_hash_tree();
                if spec_recon(&t) != d.root_hash() {
                    return e("the root hash is not that of the full hash tree".into());
                }
                let mut n = 0;
                for it in flat_of(&t) {
                    if let Item::Lab(l, b) = it {
                        n += 1;
                        let h = match b {
                            Below::Pruned(h) | Below::Tree(h, _) => h,
                        };
                        if !(0..40).map(K::of).any(|k| k.as_label()[..] == l[..] && d.get(&k).map_or(false, |v| vh(v) == h)) {
                            return e(format!("the full hash tree binds the label {} to something else", hex(&l)));
                        }
                    }
                }
                if n != d.iter().len() {
                    return e(format!("the full hash tree has {} entries, the map {}", n, d.iter().len()));
                }
            }
            "C03" => {
                let t = d.as_hash_tree();
                let n = flat_of(&t).len() as u128;
                let h = min_height(&t);
                if h >= 100 || (1u128 << h) > (n + 1) * (n + 1) {
                    return e(format!("the tree over {} entries has height {}", n, h));
                }
            }
            _ => {}
        }
    }
    guard(prop, &["C04"], "dropping the map", || drop(d))?;
    Ok(())
}

pub fn gen(prop: &str, r: &mut Rng) -> Case {
    let mut out = vec![format!("typed {} {}", r.below(17), r.pick(&["map", "tree"]))];
    let m = *r.pick(&[4usize, 10, 40]);
    if r.chance(30) {
        let mut l = "mk".to_string();
        for j in 0..r.below(m) {
            l += &format!(" {}", if r.chance(70) { j } else { r.below(m) });
        }
        out.push(l);
    }
    let read = match prop {
        "C05" | "C06" | "C07" => "wit",
        "C16" => "iter",
        "C17" => "ent",
        "C18" => "mod",
        _ => "get",
    };
    for _ in 0..3 + r.below(60) {
        let o = if r.chance(35) { read } else { *r.pick(&["ins", "ins", "ins", "del", "mod", "ent", "wit", "iter", "get"]) };
        out.push(format!("{} {} {} {}", o, r.below(m), r.below(30), r.below(2)));
    }
    if !matches!(prop, "C01" | "C18") && r.chance(15) {
        // a large map at the end
        let mut l = "mk".to_string();
        for j in 0..60 + r.below(400) {
            l += &format!(" {}", j);
        }
        out.push(l);
        for _ in 0..r.below(4) {
            out.push(format!("{} {} {} {}", read, r.below(400), r.below(30), r.below(2)));
        }
    }
    out
}
