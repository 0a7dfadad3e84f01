//! Paged collections.
use crate::maps::{check_absent, check_present};
use crate::util::*;
use crate::{guard, Case};
use certified_vars::label::Label;
use certified_vars::{AsHashTree, Hash, HashTree, Paged};
use std::collections::BTreeMap;

trait PKey: Label + Ord + Clone + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned + candid::CandidType + 'static {
    fn of(n: u32) -> Self;
}
impl PKey for u32 {
    fn of(n: u32) -> u32 {
        n
    }
}
impl PKey for String {
    fn of(n: u32) -> String {
        // strings that are prefixes of each other
        if n < 12 {
            ["", "a", "ab", "abc", "b", "a\u{0}", "ab\u{1}", "zz", "z", "\u{0}"][n as usize % 10].to_string()
        } else {
            // keys of all lengths
            let n = n as usize - 12;
            (0..n / 2).map(|j| if j + 1 < n / 2 { 'k' } else if n % 2 == 0 { 'k' } else { 'm' }).collect()
        }
    }
}
impl PKey for [u8; 2] {
    fn of(n: u32) -> [u8; 2] {
        (n as u16).to_be_bytes()
    }
}

pub fn chain(items: &[Vec<u8>]) -> Hash {
    let mut h = [0u8; 32];
    for i in items {
        h = sha(&[&h, &spec_leaf(i)]);
    }
    h
}

pub fn run(prop: &str, case: &Case) -> Result<(), String> {
    let w: Vec<&str> = case[0].split(' ').collect();
    match (w[1], w[2]) {
        ("u32", "1") => go::<u32, 1>(prop, case),
        ("u32", "2") => go::<u32, 2>(prop, case),
        ("u32", "3") => go::<u32, 3>(prop, case),
        ("u32", _) => go::<u32, 5>(prop, case),
        ("str", "1") => go::<String, 1>(prop, case),
        ("str", "2") => go::<String, 2>(prop, case),
        ("str", _) => go::<String, 3>(prop, case),
        (_, "1") => go::<[u8; 2], 1>(prop, case),
        (_, _) => go::<[u8; 2], 4>(prop, case),
    }
}

fn label<K: PKey>(k: &K, p: u32) -> Vec<u8> {
    let mut l = k.as_label().to_vec();
    l.extend_from_slice(&p.to_be_bytes());
    l
}

fn go<K: PKey, const S: usize>(prop: &str, case: &Case) -> Result<(), String> {
    let mut d = Paged::<K, Vec<u8>, S>::new();
    let mut o: BTreeMap<K, Vec<Vec<u8>>> = BTreeMap::new();
    for (i, l) in case[1..].iter().enumerate() {
        let w: Vec<&str> = l.split(' ').collect();
        if w[0] == "many" {
            // many <n> <from> <to>: n insertions under the keys from, from+1, .., to, from, ..
            let (n, a, b): (u32, u32, u32) = (w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap());
            for j in 0..n {
                let k = K::of(a + j % (b.saturating_sub(a) + 1));
                let v = vec![(j % 7) as u8];
                let d = &mut d;
                guard(prop, &["C13", "C14"], "insert", || d.insert(k.clone(), v.clone()))?;
                o.entry(k).or_default().push(v);
            }
            continue;
        }
        let k = if w.len() > 1 { K::of(w[1].parse().unwrap()) } else { K::of(0) };
        let e = |m: String| Err(format!("op {} `{}`: {}", i, l, m));
        match w[0] {
            "ins" => {
                let v = unhex(w[2]);
                let d = &mut d;
                guard(prop, &["C13", "C14"], "insert", || d.insert(k.clone(), v.clone()))?;
                o.entry(k.clone()).or_default().push(v);
                if prop == "C13" {
                    read_ok::<K, S>(d, &k, o.get(&k)).or_else(|m| e(m))?;
                }
                if prop == "C18" || prop == "C14" {
                    root_ok::<K, S>(d).or_else(|m| e(m))?;
                }
            }
            "get" => {
                let p: usize = w[2].parse().unwrap();
                if prop == "C13" {
                    page_ok::<K, S>(&d, &k, p, o.get(&k)).or_else(|m| e(m))?;
                }
            }
            "last" => {
                if prop == "C13" {
                    read_ok::<K, S>(&d, &k, o.get(&k)).or_else(|m| e(m))?;
                }
            }
            "ser" => {
                if prop != "C19" {
                    continue;
                }
                let dd = &d;
                let what = if w[2] == "cbor" { "a CBOR round trip" } else { "a Candid round trip" };
                let back = guard(prop, &["C19"], what, || -> Result<Paged<K, Vec<u8>, S>, String> {
                    if w[2] == "cbor" {
                        serde_cbor::from_slice(&serde_cbor::to_vec(dd).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
                    } else {
                        candid::decode_one(&candid::encode_one(dd).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
                    }
                })?;
                match back {
                    None => continue,
                    Some(Err(x)) => return e(format!("{} fails: {}", what, x)),
                    Some(Ok(b)) => d = b,
                }
                for k in o.keys() {
                    read_ok::<K, S>(&d, k, o.get(k)).or_else(|m| e(format!("after {}: {}", what, m)))?;
                }
                all_ok::<K, S>(&d, &o).or_else(|m| e(format!("after {}: {}", what, m)))?;
            }
            "all" => {
                if prop == "C13" {
                    for n in 0..12 {
                        let k = K::of(n);
                        read_ok::<K, S>(&d, &k, o.get(&k)).or_else(|m| e(m))?;
                    }
                }
                if prop == "C14" || prop == "C11" {
                    all_ok::<K, S>(&d, &o).or_else(|m| e(m))?;
                }
            }
            "wit" | "witlast" => {
                if prop != "C14" {
                    continue;
                }
                let p: usize = if w[0] == "wit" {
                    w[2].parse().unwrap()
                } else {
                    (o.get(&k).map_or(0, |x| x.len()) + S - 1) / S
                };
                let dd = &d;
                let t = match guard(prop, &["C14"], w[0], || if w[0] == "wit" { dd.witness(&k, p) } else { dd.witness_last_page_number(&k) })? {
                    Some(t) => t,
                    None => continue,
                };
                if spec_recon(&t) != d.root_hash() {
                    return e("the witness does not reconstruct to the root hash".into());
                }
                let mut pages: Vec<(K, usize, Hash)> = vec![];
                for (k, items) in &o {
                    for (n, c) in items.chunks(S).enumerate() {
                        pages.push((k.clone(), n, chain(c)));
                    }
                }
                let at = (k.clone(), p);
                let lab = |x: &(K, usize, Hash)| (label(&x.0, x.1 as u32), x.2);
                match pages.iter().find(|x| (x.0.clone(), x.1) == at) {
                    Some(x) => check_present(&t, &label(&k, p as u32), &HashTree::Pruned(x.2)).or_else(|m| e(m))?,
                    None => check_absent(
                        &t,
                        pages.iter().filter(|x| (x.0.clone(), x.1) < at).next_back().map(lab),
                        pages.iter().filter(|x| (x.0.clone(), x.1) > at).next().map(lab),
                    )
                    .or_else(|m| e(m))?,
                }
            }
            x => panic!("unknown op {}", x),
        }
    }
    Ok(())
}

fn page_ok<K: PKey, const S: usize>(d: &Paged<K, Vec<u8>, S>, k: &K, p: usize, items: Option<&Vec<Vec<u8>>>) -> Result<(), String> {
    let want: Option<Vec<Vec<u8>>> = items.and_then(|x| x.chunks(S).nth(p).map(|c| c.to_vec()));
    let got = d.get(k, p).map(|s| s.as_vec().clone());
    if got != want {
        return Err(format!("page {} of key {:?} is {:?}, should be {:?}", p, k, got, want));
    }
    if let Some(s) = d.get(k, p) {
        if s.root_hash() != chain(s.as_vec()) {
            return Err(format!("page {} of key {:?} has a wrong hash", p, k));
        }
    }
    Ok(())
}

fn read_ok<K: PKey, const S: usize>(d: &Paged<K, Vec<u8>, S>, k: &K, items: Option<&Vec<Vec<u8>>>) -> Result<(), String> {
    let n = items.map_or(0, |x| (x.len() + S - 1) / S);
    for p in 0..n + 2 {
        page_ok::<K, S>(d, k, p, items)?;
    }
    for p in [1usize << 32, (1usize << 32) + 1, u32::MAX as usize, usize::MAX, usize::MAX - u32::MAX as usize] {
        page_ok::<K, S>(d, k, p, items)?;
    }
    let l = d.get_last_page_number(k);
    if l != n.checked_sub(1) {
        return Err(format!("last page number of key {:?} is {:?}, it has {} pages", k, l, n));
    }
    Ok(())
}

fn root_ok<K: PKey, const S: usize>(d: &Paged<K, Vec<u8>, S>) -> Result<(), String> {
    if spec_recon(&d.as_hash_tree()) != d.root_hash() {
        return Err("the root hash does not certify the pages".into());
    }
    Ok(())
}

fn all_ok<K: PKey, const S: usize>(d: &Paged<K, Vec<u8>, S>, o: &BTreeMap<K, Vec<Vec<u8>>>) -> Result<(), String> {
    let mut want = vec![];
    for (k, items) in o {
        for (n, c) in items.chunks(S).enumerate() {
            want.push(Item::Lab(label(k, n as u32), Below::Pruned(chain(c))));
        }
    }
    if flat_of(&d.as_hash_tree()) != want {
        return Err("the full hash tree does not hold the pages of all keys under their labels".into());
    }
    root_ok::<K, S>(d)
}

/// many pages of one key, or many keys
pub fn gen_scale(prop: &str, r: &mut Rng, huge: bool) -> Case {
    let ty = *r.pick(&["u32", "u32", "u32", "arr"]);
    let s = *r.pick(if ty == "u32" { &["1", "2", "3", "5"] } else { &["1", "4"] });
    let s = if huge { "1" } else { s };
    let mut out = vec![format!("paged {} {}", ty, s)];
    let n = if huge { 65538 } else { scale(r, 1300) };
    let size: usize = s.parse().unwrap();
    if huge || r.chance(60) {
        out.push(format!("many {} 3 3", n * size));
        for _ in 0..3 {
            out.push(format!("ins {} 07", r.below(6)));
        }
        out.push(format!("many {} 3 3", r.below(2 * size + 1)));
        for p in [0, 1, 255, 256, n - 1, n, n + 1] {
            out.push(format!("{} 3 {}", if prop == "C14" { "wit" } else { "get" }, p));
        }
    } else {
        out.push(format!("many {} 0 {}", n, n - 1));
        out.push(format!("many {} 0 {}", r.below(n), n + 3));
        for _ in 0..5 {
            out.push(format!("{} {} {}", if prop == "C14" { "wit" } else { "get" }, r.below(n), r.below(3)));
        }
    }
    out.push(format!("{} 3", if prop == "C14" { "witlast" } else { "last" }));
    if !huge {
        out.push("all".into());
    }
    out
}

pub fn gen(prop: &str, r: &mut Rng, i: u64) -> Case {
    let ty = *r.pick(&["u32", "u32", "str", "arr"]);
    let s = match ty {
        "u32" => *r.pick(&["1", "2", "3", "5"]),
        "str" => *r.pick(&["1", "2", "3"]),
        _ => *r.pick(&["1", "4"]),
    };
    let mut out = vec![format!("paged {} {}", ty, s)];
    let nk = 1 + r.below(8);
    let big = i % 50 == 49;
    let n = if big { 700 } else { 3 + r.below(60) };
    let nk = if big { 1 } else { nk };
    let alt: Vec<usize> = (0..3).map(|_| if ty == "str" { 12 + 2 * scale(r, 60) + r.below(2) } else { 12 + r.below(100) }).collect();
    for _ in 0..n {
        let k = if r.chance(10) { r.below(12) } else if r.chance(12) { *r.pick(&alt) } else { r.below(nk) };
        let x = r.below(100);
        if x < 70 || big {
            out.push(format!("ins {} {}", k, hex(&crate::maps::value(r))));
        } else if prop == "C19" {
            out.push(format!("ser {} {}", k, r.pick(&["cbor", "candid"])));
        } else if prop == "C14" {
            let p = match r.below(12) {
                0 => (1usize << 32) + r.below(3),
                1 => u32::MAX as usize,
                2 => usize::MAX,
                _ => r.below(6),
            };
            out.push(if x < 85 { format!("wit {} {}", k, p) } else { format!("witlast {}", k) });
        } else {
            out.push(format!("last {}", k));
        }
    }
    if prop == "C14" && big {
        for p in [0usize, 255, 256, 257, 699, 700] {
            out.push(format!("wit 0 {}", p));
        }
        out.push("witlast 0".into());
    }
    out.push("all".into());
    out
}
