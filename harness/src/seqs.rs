//! Sequences.
use crate::util::*;
use crate::{guard, Case};
use certified_vars::{AsHashTree, Hash, HashTree, Map, Seq};
use std::borrow::Borrow;

trait It: AsHashTree + Default + Clone + PartialEq + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned + candid::CandidType + 'static {
    fn of(b: &[u8]) -> Self;
    fn bytes(&self) -> Vec<u8>;
    fn cbor(&self, out: &mut Vec<u8>);
    fn extend_ref(_s: &mut Seq<Self>, _x: &[Self]) -> bool {
        false
    }
}
impl It for u32 {
    fn of(b: &[u8]) -> u32 {
        b.iter().fold(7u32, |a, x| a.wrapping_mul(31).wrapping_add(*x as u32))
    }
    fn bytes(&self) -> Vec<u8> {
        self.to_be_bytes().to_vec()
    }
    fn cbor(&self, out: &mut Vec<u8>) {
        cbor_head(out, 0, *self as u64)
    }
    fn extend_ref(s: &mut Seq<u32>, x: &[u32]) -> bool {
        // every other time the size hint tells nothing
        if x.len() % 2 == 0 {
            s.extend(x.iter().filter(|_| true))
        } else {
            s.extend(x.iter())
        }
        true
    }
}
impl It for String {
    fn of(b: &[u8]) -> String {
        hex(b)
    }
    fn bytes(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    fn cbor(&self, out: &mut Vec<u8>) {
        cbor_head(out, 3, self.len() as u64);
        out.extend_from_slice(self.as_bytes())
    }
}

/// an iterator over the items whose (truthful) size hint tells little, and
/// which yields again after it has ended
struct Hint<T> {
    xs: std::vec::IntoIter<T>,
    mode: usize,
    after: Vec<T>,
}
impl<T> Iterator for Hint<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.xs.next();
        if x.is_none() {
            self.xs = std::mem::take(&mut self.after).into_iter();
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.xs.len();
        match self.mode {
            0 => (0, None),
            1 => (0, Some(n)),
            2 => (n / 2, None),
            _ => (n - n / 3, Some(n + 7)),
        }
    }
}
fn hinted<T: It>(xs: &[T]) -> Hint<T> {
    let mode = xs.iter().flat_map(|x| x.bytes()).fold(xs.len(), |a, b| a + b as usize) % 4;
    // (only where the hint stays truthful does it yield after the end)
    Hint { xs: xs.to_vec().into_iter(), mode, after: if mode == 0 { vec![T::default(); 2] } else { vec![] } }
}

pub fn run(prop: &str, case: &Case) -> Result<(), String> {
    if case[0].ends_with("u32") {
        go::<u32>(prop, case)
    } else {
        go::<String>(prop, case)
    }
}

fn chain<T: It>(items: &[T]) -> Hash {
    let mut h = [0u8; 32];
    for i in items {
        h = sha(&[&h, &spec_leaf(&i.bytes())]);
    }
    h
}

fn ok<T: It>(s: &Seq<T>, o: &[T]) -> Result<(), String> {
    if s.root_hash() != chain(o) {
        return Err(format!("the root hash over {} items is {}, should be {}", o.len(), hex(&s.root_hash()), hex(&chain(o))));
    }
    if s.as_hash_tree() != HashTree::Pruned(chain(o)) {
        return Err("the hash tree is not the pruned root hash".into());
    }
    if s.as_vec().as_slice() != o || s.len() != o.len() || s.is_empty() != o.is_empty() {
        return Err(format!("{} items are read back, {} were added", s.len(), o.len()));
    }
    let r: &[T] = s.as_ref();
    let b: &[T] = s.borrow();
    if r != o || b != o || s.iter().cloned().collect::<Vec<_>>() != o || (!o.is_empty() && s[o.len() - 1] != o[o.len() - 1]) || &s[..] != o {
        return Err("the items read back differ from those added".into());
    }
    if Vec::from(s.clone()) != o {
        return Err("the vector made from the sequence differs".into());
    }
    Ok(())
}

fn go<T: It>(prop: &str, case: &Case) -> Result<(), String> {
    let mut s = Seq::<T>::new();
    let mut o: Vec<T> = vec![];
    for (i, l) in case[1..].iter().enumerate() {
        let w: Vec<&str> = l.split(' ').collect();
        // `many <n> <op> <seed>`: the operation with n items
        let (w, xs): (Vec<&str>, Vec<T>) = if w[0] == "many" {
            let mut r = Rng(w[3].parse().unwrap());
            (vec![w[2]], (0..w[1].parse().unwrap()).map(|_| T::of(&r.next().to_be_bytes()[..2])).collect())
        } else {
            (w.clone(), w[1..].iter().map(|x| T::of(&unhex(x))).collect())
        };
        let (sr, or) = (&mut s, &mut o);
        let r = guard(prop, &["C12", "C19"], w[0], || -> Result<(), String> {
            match w[0] {
                "append" => {
                    for x in xs {
                        sr.append(x.clone());
                        or.push(x);
                    }
                }
                "extend" => {
                    or.extend(xs.iter().cloned());
                    sr.extend(xs);
                }
                "exthint" => {
                    sr.extend(hinted(&xs));
                    or.extend(xs);
                }
                "collhint" => {
                    *sr = hinted(&xs).collect();
                    *or = xs;
                }
                "extref" => {
                    if T::extend_ref(sr, &xs) {
                        or.extend(xs);
                    }
                }
                "vec" => {
                    *sr = Seq::from(xs.clone());
                    *or = xs;
                }
                "slice" => {
                    *sr = Seq::from(&xs[..]);
                    *or = xs;
                }
                "mutslice" => {
                    let mut ys = xs.clone();
                    *sr = Seq::from(&mut ys[..]);
                    *or = xs;
                }
                "collect" => {
                    *sr = xs.iter().cloned().collect();
                    *or = xs;
                }
                "clone" => {
                    let c = sr.clone();
                    if c != *sr {
                        return Err("a clone differs from the original".into());
                    }
                    let mut d = Seq::<T>::default();
                    d.append(T::default());
                    d.clone_from(&c);
                    if d != *sr || !(d == *sr) {
                        return Err("clone_from makes something else".into());
                    }
                    *sr = d;
                }
                "clear" => {
                    sr.clear();
                    or.clear();
                }
                "new" => {
                    *sr = Seq::with_capacity(xs.len());
                    or.clear();
                }
                "default" => {
                    *sr = Seq::default();
                    or.clear();
                }
                "shrink" => {
                    sr.shrink_to_fit();
                    sr.reserve(3);
                    sr.reserve_exact(5);
                }
                "serde" => {
                    let b = serde_cbor::to_vec(&*sr).map_err(|e| e.to_string())?;
                    if prop == "C19" {
                        let mut want = vec![];
                        cbor_head(&mut want, 4, or.len() as u64);
                        for x in or.iter() {
                            x.cbor(&mut want);
                        }
                        if b != want {
                            return Err(format!("{} items serialize to {}, should be {}", or.len(), hex(&b), hex(&want)));
                        }
                    }
                    *sr = serde_cbor::from_slice(&b).map_err(|e| e.to_string())?;
                }
                "json" => {
                    let b = serde_json::to_string(&*sr).map_err(|e| e.to_string())?;
                    if prop == "C19" {
                        let v: Vec<T> = serde_json::from_str(&b).map_err(|e| e.to_string())?;
                        if v != *or {
                            return Err(format!("{} items serialize to the JSON {:.300}", or.len(), b));
                        }
                        let c: Seq<T> = serde_json::from_str::<serde_json::Value>(&b).and_then(serde_json::from_value).map_err(|e| e.to_string())?;
                        ok(&c, or)?;
                    }
                    *sr = serde_json::from_str(&b).map_err(|e| e.to_string())?;
                }
                "candid" => {
                    let b = candid::encode_one(&*sr).map_err(|e| e.to_string())?;
                    if prop == "C19" {
                        let v: Vec<T> = candid::decode_one(&b).map_err(|e| e.to_string())?;
                        if v != *or {
                            return Err("candid encodes other items".into());
                        }
                    }
                    *sr = candid::decode_one(&b).map_err(|e| e.to_string())?;
                }
                x => panic!("unknown op {}", x),
            }
            Ok(())
        })?;
        match r {
            Some(r) => r?,
            None => return Ok(()),
        }
        ok(&s, &o).map_err(|m| format!("op {} `{}`: {}", i, l, m))?;
    }
    Ok(())
}

pub fn gen_scale(prop: &str, r: &mut Rng, huge: bool) -> Case {
    let mut out = gen(prop, r, 0);
    out.truncate(4);
    let max = if huge { 70000 } else { 5000 };
    for _ in 0..1 + r.below(3) {
        let o = *r.pick(&["append", "extend", "extend", "exthint", "collhint", "extref", "vec", "slice", "mutslice", "collect"]);
        let n = if huge { 65530 + r.below(12) } else { scale(r, max) };
        out.push(format!("many {} {} {}", n, o, r.below(1000)));
        if prop == "C19" || r.chance(30) {
            out.push(r.pick(&["serde", "json", "candid", "clone"]).to_string());
        }
        if prop == "C12" && r.chance(25) {
            out.push(r.pick(&["clear", "shrink", "default", "new 01"]).to_string());
            out.push("append 02 03".into());
        }
        if r.chance(50) {
            out.push("append 01".into());
        }
    }
    out
}

pub fn gen(prop: &str, r: &mut Rng, _i: u64) -> Case {
    let mut out = vec![format!("seq {}", r.pick(&["u32", "str"]))];
    for _ in 0..1 + r.below(12) {
        let o = if prop == "C19" {
            *r.pick(&["append", "extend", "exthint", "collect", "serde", "json", "candid"])
        } else {
            *r.pick(&["append", "append", "append", "extend", "extend", "exthint", "collhint", "extref", "vec", "slice", "mutslice", "collect", "clone", "clear", "new", "default", "shrink", "serde", "json", "candid"])
        };
        let mut l = o.to_string();
        let n = match o {
            "append" => 1 + r.below(3),
            "clone" | "clear" | "serde" | "json" | "default" | "shrink" | "candid" => 0,
            _ => {
                if r.chance(10) {
                    r.below(40)
                } else {
                    r.below(5)
                }
            }
        };
        for _ in 0..n {
            l += &format!(" {}", hex(&crate::maps::value(r)));
        }
        out.push(l);
    }
    out
}

/// histories on maps whose values are sequences
pub fn deep(prop: &str, case: &Case) -> Result<(), String> {
    let mut m = Map::<u32, Seq<u32>>::new();
    let mut o = std::collections::BTreeMap::<u32, Vec<u32>>::new();
    for (i, l) in case[1..].iter().enumerate() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |j: usize| w.get(j).and_then(|x| x.parse::<u32>().ok()).unwrap_or(0);
        let (k, v) = (n(1), n(2));
        let (mr, or) = (&mut m, &mut o);
        let r = guard(prop, &["C01", "C02", "C04", "C12", "C18"], w[0], || -> Result<(), String> {
            match w[0] {
                "app" => {
                    mr.append_deep(k, v);
                    or.entry(k).or_default().push(v);
                }
                "manyapp" => {
                    for j in 0..k {
                        mr.append_deep(v, j);
                        or.entry(v).or_default().push(j);
                    }
                }
                "ins" => {
                    mr.insert(k, (0..v).collect());
                    or.insert(k, (0..v).collect());
                }
                "del" => {
                    mr.remove(&k);
                    or.remove(&k);
                }
                _ => {
                    let n = or.get(&k).map_or(0, |s| s.len());
                    if mr.len_deep(&k) != n && matches!(prop, "C02" | "C12") {
                        return Err(format!("len_deep is {}, {} items were appended", mr.len_deep(&k), n));
                    }
                }
            }
            Ok(())
        })?;
        let e = |m: String| Err(format!("op {} `{}`: {}", i, l, m));
        match r {
            Some(Ok(())) => {}
            Some(Err(m)) => return e(m),
            None => return Ok(()),
        }
        if prop == "C04" {
            continue;
        }
        if !matches!(prop, "C02" | "C12") {
        } else if m.len() != o.len() || m.iter().map(|(k, s)| (*k, s.as_vec().clone())).ne(o.iter().map(|(k, s)| (*k, s.clone()))) {
            return e("the sequences in the map are not those built by the history".into());
        }
        for (k, s) in m.iter() {
            if prop == "C12" && s.root_hash() != chain(s.as_vec()) {
                return e(format!("the hash of the sequence at {} is not that of its items", k));
            }
        }
        if prop == "C02" {
            continue;
        }
        let t = m.as_hash_tree();
        if spec_recon(&t) != m.root_hash() {
            return e("the root hash is not that of the full hash tree".into());
        }
        let mut want: Vec<_> = m.iter().map(|(k, s)| (k.to_be_bytes().to_vec(), s.root_hash())).collect();
        for it in flat_of(&t) {
            if let Item::Lab(l, Below::Pruned(h)) | Item::Lab(l, Below::Tree(h, _)) = it {
                if want.is_empty() || want.remove(0) != (l.to_vec(), h) {
                    return e("the full hash tree does not bind the keys to the hashes of their sequences".into());
                }
            }
        }
        if !want.is_empty() {
            return e("the full hash tree lacks entries".into());
        }
    }
    Ok(())
}

pub fn gen_deep(r: &mut Rng, scaled: bool) -> Case {
    let mut out = vec!["deep".to_string()];
    let m = *r.pick(&[2usize, 5, 30]);
    for _ in 0..1 + r.below(40) {
        let o = *r.pick(&["app", "app", "app", "app", "ins", "del", "len"]);
        out.push(format!("{} {} {}", o, r.below(m), r.below(6)));
    }
    if scaled {
        out.truncate(5);
        out.push(format!("manyapp {} {}", scale(r, 3000), r.below(m)));
        out.push(format!("app {} 1", r.below(m)));
    }
    out
}
