//! Digests, serialized hash trees, labels and values of the built-in types.
use crate::util::*;
use crate::{guard, Case};
use candid::{Nat, Principal};
use certified_vars::hashtree::{fork, fork_hash, labeled, labeled_hash, leaf_hash};
use certified_vars::label::{Label, Prefix};
use certified_vars::{AsHashTree, Hash, HashTree};
use std::borrow::Cow;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

/// hash trees written in prefix form: E | F t t | L hex t | V hex | P hex
fn parse<'a>(w: &mut std::slice::Iter<&str>) -> HashTree<'a> {
    match *w.next().unwrap_or(&"E") {
        "F" => {
            let l = parse(w);
            let r = parse(w);
            fork(l, r)
        }
        "L" => {
            let l = unhex(w.next().unwrap_or(&"-"));
            HashTree::Labeled(Cow::Owned(l), Box::new(parse(w)))
        }
        "V" => HashTree::Leaf(Cow::Owned(unhex(w.next().unwrap_or(&"-")))),
        "P" => {
            let b = unhex(w.next().unwrap_or(&"-"));
            let mut h = [0u8; 32];
            for (i, x) in b.iter().take(32).enumerate() {
                h[i] = *x;
            }
            HashTree::Pruned(h)
        }
        _ => HashTree::Empty,
    }
}
/// a byte string that is already in the tree
fn again(r: &mut Rng, out: &[String]) -> Option<String> {
    let o: Vec<&String> = out.iter().filter(|x| x.len() > 1).collect();
    if !o.is_empty() && r.chance(15) {
        return Some(if r.chance(50) { o[o.len() - 1].clone() } else { (*r.pick(&o)).clone() });
    }
    None
}
/// the same tree with one subtree pruned: it certifies the same and shows less
fn pruned<'a>(t: &'a HashTree<'a>, k: &mut usize) -> HashTree<'a> {
    *k = k.wrapping_sub(1);
    if *k == usize::MAX {
        return HashTree::Pruned(spec_recon(t));
    }
    match t {
        HashTree::Empty => HashTree::Empty,
        HashTree::Fork(f) => {
            let l = pruned(&f.0, k);
            fork(l, pruned(&f.1, k))
        }
        HashTree::Labeled(l, t) => HashTree::Labeled(Cow::Borrowed(&l[..]), Box::new(pruned(t, k))),
        HashTree::Leaf(b) => HashTree::Leaf(Cow::Borrowed(&b[..])),
        HashTree::Pruned(h) => HashTree::Pruned(*h),
    }
}
fn tree(r: &mut Rng, d: usize, out: &mut Vec<String>) {
    let bytes = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 1, 2, 3, 23, 24, 25, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 65535, 65536]);
        let n = if n > 2000 && !r.chance(8) { 5 } else { n };
        (0..n).map(|_| r.below(256) as u8).collect::<Vec<u8>>()
    };
    match r.below(if d == 0 { 3 } else { 7 }) {
        0 => out.push("E".into()),
        1 => {
            out.push("V".into());
            let b = again(r, out).unwrap_or_else(|| hex(&bytes(r)));
            out.push(b);
        }
        2 => {
            out.push("P".into());
            out.push(hex(&(0..32).map(|_| r.below(256) as u8).collect::<Vec<u8>>()));
        }
        3 | 4 => {
            out.push("L".into());
            let b = again(r, out).unwrap_or_else(|| hex(&bytes(r)));
            out.push(b);
            tree(r, d - 1, out);
        }
        _ => {
            out.push("F".into());
            tree(r, d - 1, out);
            tree(r, d - 1, out);
        }
    }
}

fn cbor(t: &HashTree, out: &mut Vec<u8>) {
    match t {
        HashTree::Empty => {
            cbor_head(out, 4, 1);
            cbor_head(out, 0, 0)
        }
        HashTree::Fork(f) => {
            cbor_head(out, 4, 3);
            cbor_head(out, 0, 1);
            cbor(&f.0, out);
            cbor(&f.1, out);
        }
        HashTree::Labeled(l, t) => {
            cbor_head(out, 4, 3);
            cbor_head(out, 0, 2);
            cbor_bytes(out, l);
            cbor(t, out);
        }
        HashTree::Leaf(b) => {
            cbor_head(out, 4, 2);
            cbor_head(out, 0, 3);
            cbor_bytes(out, b);
        }
        HashTree::Pruned(h) => {
            cbor_head(out, 4, 2);
            cbor_head(out, 0, 4);
            cbor_bytes(out, h);
        }
    }
}

fn json(t: &HashTree) -> serde_json::Value {
    use serde_json::json;
    match t {
        HashTree::Empty => json!([0]),
        HashTree::Fork(f) => json!([1, json(&f.0), json(&f.1)]),
        HashTree::Labeled(l, t) => json!([2, l.to_vec(), json(t)]),
        HashTree::Leaf(b) => json!([3, b.to_vec()]),
        HashTree::Pruned(h) => json!([4, h.to_vec()]),
    }
}

/// prefix form of a hash tree, as read by parse
fn words(t: &HashTree, out: &mut Vec<String>) {
    match t {
        HashTree::Empty => out.push("E".into()),
        HashTree::Fork(f) => {
            out.push("F".into());
            words(&f.0, out);
            words(&f.1, out);
        }
        HashTree::Labeled(l, t) => {
            out.extend(["L".to_string(), hex(l)]);
            words(t, out);
        }
        HashTree::Leaf(b) => out.extend(["V".to_string(), hex(b)]),
        HashTree::Pruned(h) => out.extend(["P".to_string(), hex(h)]),
    }
}
fn borrowed<'a>(t: &'a HashTree<'a>) -> HashTree<'a> {
    match t {
        HashTree::Empty => HashTree::Empty,
        HashTree::Fork(f) => fork(borrowed(&f.0), borrowed(&f.1)),
        HashTree::Labeled(l, t) => HashTree::Labeled(Cow::Borrowed(&l[..]), Box::new(borrowed(t))),
        HashTree::Leaf(b) => HashTree::Leaf(Cow::Borrowed(&b[..])),
        HashTree::Pruned(h) => HashTree::Pruned(*h),
    }
}
fn read(prop: &str, w: &[&str]) -> Result<(), String> {
    let two: Vec<&[&str]> = w.split(|x| *x == "|").collect();
    let (a, b) = (parse(&mut two[0].iter()), parse(&mut two.get(1).unwrap_or(&two[0]).iter()));
    let (mut wa, mut wb) = (vec![], vec![]);
    words(&a, &mut wa);
    words(&b, &mut wb);
    let of = |k: &str| -> Vec<Vec<u8>> { wa.windows(2).filter(|x| x[0] == k).map(|x| unhex(&x[1])).collect() };
    let aa = &a;
    let own = |x: Vec<&[u8]>| -> Vec<Vec<u8>> { x.iter().map(|b| b.to_vec()).collect() };
    if let Some(g) = guard(prop, &["C22"], "get_labels", || own(aa.get_labels()))? {
        if g != of("L") {
            return Err(format!("get_labels gives {} labels, {:.80?}.., the tree has {}: {:.80?}..", g.len(), g, of("L").len(), of("L")));
        }
    }
    if let Some(g) = guard(prop, &["C22"], "get_leaf_values", || own(aa.get_leaf_values()))? {
        if g != of("V") {
            return Err(format!("get_leaf_values gives {} values, {:.80?}.., the tree has {}: {:.80?}..", g.len(), g, of("V").len(), of("V")));
        }
    }
    for (x, y) in [(&a, &b), (&b, &a), (&borrowed(&a), &b), (&a, &borrowed(&b))] {
        if let Some((e, n)) = guard(prop, &["C22"], "==", || (x == y, x != y))? {
            if e != (wa == wb) || n == e {
                return Err(format!("== says {} and != says {} of trees that {}", e, n, if wa == wb { "are the same" } else { "differ" }));
            }
        }
    }
    Ok(())
}

fn val<T: AsHashTree>(what: &str, x: &T, bytes: &[u8]) -> Result<(), String> {
    match x.as_hash_tree() {
        HashTree::Leaf(b) if &b[..] == bytes => {}
        t => return Err(format!("the hash tree of {} is {:?}, should be the leaf {}", what, t, hex(bytes))),
    }
    let want = spec_leaf(bytes);
    if x.root_hash() != want {
        return Err(format!("the root hash of {} is {}, should be {}", what, hex(&x.root_hash()), hex(&want)));
    }
    Ok(())
}
fn vals<T: AsHashTree + Clone>(what: &str, x: &T, bytes: &[u8]) -> Result<(), String> {
    val(what, x, bytes)?;
    val(&format!("Box<{}>", what), &Box::new(x.clone()), bytes)?;
    val(&format!("Rc<{}>", what), &Rc::new(x.clone()), bytes)?;
    val(&format!("Arc<{}>", what), &Arc::new(x.clone()), bytes)?;
    let mut y = x.clone();
    val(&format!("NonNull<{}>", what), &NonNull::from(&mut y), bytes)?;
    val(&format!("Box<Rc<{}>>", what), &Box::new(Rc::new(x.clone())), bytes)
}
fn lab1<T: Label>(what: &str, x: &T, bytes: &[u8]) -> Result<(), String> {
    if &x.as_label()[..] != bytes {
        return Err(format!("the label of {} is {}, should be {}", what, hex(&x.as_label()), hex(bytes)));
    }
    Ok(())
}
/// label of x and y; their relation
fn labs<T: Label + Clone>(what: &str, x: &T, bx: &[u8], y: &T, by: &[u8], order: bool) -> Result<(), String> {
    for (a, b) in [(x, bx), (y, by)] {
        lab1(what, a, b)?;
        lab1(&format!("Box<{}>", what), &Box::new(a.clone()), b)?;
        lab1(&format!("Rc<{}>", what), &Rc::new(a.clone()), b)?;
        lab1(&format!("Arc<{}>", what), &Arc::new(a.clone()), b)?;
        let mut c = a.clone();
        lab1(&format!("NonNull<{}>", what), &NonNull::from(&mut c), b)?;
    }
    if (x == y) != (x.as_label() == y.as_label()) {
        return Err(format!("two {} that {} have {} labels", what, if x == y { "are equal" } else { "differ" }, if x == y { "different" } else { "equal" }));
    }
    if order && x.cmp(y) != x.as_label().cmp(&y.as_label()) {
        return Err(format!("labels {} and {} of {} do not sort as the keys do", hex(bx), hex(by), what));
    }
    Ok(())
}

macro_rules! num {
    ($f:ident, $t:ident, $x:expr, $y:expr, $order:expr) => {{
        let (x, y) = ($x as $t, $y as $t);
        // big-endian bytes, written down again
        let n = std::mem::size_of::<$t>();
        let be = |v: $t| (0..n).map(|i| ((v as i128 >> (8 * (n - 1 - i))) & 255) as u8).collect::<Vec<u8>>();
        $f(stringify!($t), &x, &be(x), &y, &be(y), $order)
    }};
}
fn vnum<T: AsHashTree + Clone>(what: &str, x: &T, bx: &[u8], _y: &T, _by: &[u8], _o: bool) -> Result<(), String> {
    vals(what, x, bx)
}

macro_rules! arrays {
    ($x:expr, $y:expr, $v:expr, $($n:literal),*) => {
        match $x.len() {
            $( $n => {
                let (mut a, mut b) = ([0u8; $n], [0u8; $n]);
                a.copy_from_slice(&$x);
                for (i, c) in $y.iter().take($n).enumerate() { b[i] = *c; }
                if $v { vals(concat!("[u8; ", $n, "]"), &a, &$x) } else { labs(concat!("[u8; ", $n, "]"), &a, &a.to_vec(), &b, &b.to_vec(), true) }
            } )*
            _ => Ok(()),
        }
    };
}

fn principal(b: &[u8]) -> Principal {
    Principal::from_slice(&b[..b.len().min(29)])
}

fn of_type(prop: &str, ty: &str, x: &[u8], y: &[u8]) -> Result<(), String> {
    let v = prop == "C10";
    let n = |b: &[u8]| b.iter().take(16).fold(0u128, |a, c| a << 8 | *c as u128) as i128;
    let (i, j) = (n(x), n(y));
    let s = |b: &[u8]| String::from_utf8_lossy(b).to_string();
    macro_rules! pick {
        ($t:ident, $o:expr) => {
            if v {
                num!(vnum, $t, i, j, true)
            } else {
                num!(labs, $t, i, j, $o)
            }
        };
    }
    match ty {
        "u8" => pick!(u8, true),
        "u16" => pick!(u16, true),
        "u32" => pick!(u32, true),
        "u64" => pick!(u64, true),
        "u128" => pick!(u128, true),
        "usize" => pick!(usize, true),
        // labels of signed numbers and principals sort differently from the keys: a listed finding
        "i8" => pick!(i8, false),
        "i16" => pick!(i16, false),
        "i32" => pick!(i32, false),
        "i64" => pick!(i64, false),
        "i128" => pick!(i128, false),
        "isize" => pick!(isize, false),
        "vec" => {
            if v {
                vals("Vec<u8>", &x.to_vec(), x)?;
                val("&[u8]", &x, x)
            } else {
                labs("Vec<u8>", &x.to_vec(), x, &y.to_vec(), y, true)?;
                labs("Box<[u8]>", &x.to_vec().into_boxed_slice(), x, &y.to_vec().into_boxed_slice(), y, true)
            }
        }
        "str" => {
            let (a, b) = (s(x), s(y));
            if v {
                vals("String", &a, a.as_bytes())?;
                val("&str", &a.as_str(), a.as_bytes())
            } else {
                labs("String", &a, a.as_bytes(), &b, b.as_bytes(), true)
            }
        }
        "bool" => {
            let (a, b) = (i % 2 != 0, j % 2 != 0);
            if v {
                vals("bool", &a, &[a as u8])
            } else {
                labs("bool", &a, &[a as u8], &b, &[b as u8], true)
            }
        }
        "principal" => {
            let (a, b) = (principal(x), principal(y));
            if v {
                vals("Principal", &a, &x[..x.len().min(29)])
            } else {
                labs("Principal", &a, &x[..x.len().min(29)], &b, &y[..y.len().min(29)], false)
            }
        }
        "nat" if v => {
            let i = i as u128;
            let mut b: Vec<u8> = i.to_be_bytes().to_vec();
            while b.len() > 1 && b[0] == 0 {
                b.remove(0);
            }
            vals("Nat", &Nat::from(i), &b)?;
            if x.len() > 16 {
                // a number wider than 128 bits
                let mut m = Nat::from(0u32);
                for c in x {
                    m = m * Nat::from(256u32) + Nat::from(*c as u32);
                }
                let mut b = x.to_vec();
                while b.len() > 1 && b[0] == 0 {
                    b.remove(0);
                }
                vals("Nat", &m, &b)?;
            }
            Ok(())
        }
        "f32" if v => {
            let f = f32::from_bits(i as u32);
            vals("f32", &f, &(i as u32).to_be_bytes())
        }
        "f64" if v => {
            let f = f64::from_bits(i as u64);
            vals("f64", &f, &(i as u64).to_be_bytes())
        }
        "arr" => arrays!(x, y, v, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32),
        _ => Ok(()),
    }
}

fn prefixes(x: &[u8], p: &[u8]) -> Result<(), String> {
    let want = x.len() >= p.len() && &x[..p.len()] == p;
    let chk = |what: &str, got: bool| if got != want { Err(format!("is_prefix says {} for {} and {} {}", got, hex(p), what, hex(x))) } else { Ok(()) };
    chk("the byte string", x.to_vec().is_prefix(p))?;
    chk("the boxed byte string", x.to_vec().into_boxed_slice().is_prefix(p))?;
    macro_rules! arr { ($($n:literal),*) => { match x.len() { $( $n => { let mut a = [0u8; $n]; a.copy_from_slice(x); chk("the array", a.is_prefix(p))? } )* _ => {} } } }
    arr!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32);
    if let (Ok(a), Ok(b)) = (std::str::from_utf8(x), std::str::from_utf8(p)) {
        chk("the string", a.to_string().is_prefix(b))?;
    }
    Ok(())
}

pub fn run(prop: &str, case: &Case) -> Result<(), String> {
    let kind = case[0].split(' ').next().unwrap();
    for l in &case[1..] {
        let w: Vec<&str> = l.split(' ').collect();
        let fail = |m: String| Err(format!("`{}`: {}", if l.len() > 80 { &l[..80] } else { l }, m));
        match kind {
            "digest" => {
                if w[0] == "T" {
                    let t = parse(&mut w[1..].iter());
                    let tt = &t;
                    let h = guard(prop, &["C09"], "reconstruct", || tt.reconstruct())?.unwrap_or([0; 32]);
                    if h != spec_recon(&t) {
                        return fail(format!("reconstruct gives {}, the specification {}", hex(&h), hex(&spec_recon(&t))));
                    }
                } else {
                    let b = unhex(w[1]);
                    let h: Hash = sha(&[&b]);
                    let g: Hash = sha(&[&h, &b]);
                    if leaf_hash(&b) != spec_leaf(&b) {
                        return fail("leaf_hash".into());
                    }
                    if labeled_hash(&b, &h) != spec_lab(&b, &h) {
                        return fail("labeled_hash".into());
                    }
                    if fork_hash(&g, &h) != spec_fork(&g, &h) {
                        return fail("fork_hash".into());
                    }
                    if labeled(&b, HashTree::Pruned(h)).reconstruct() != spec_lab(&b, &h) {
                        return fail("labeled".into());
                    }
                }
            }
            "cbor" => {
                let t = parse(&mut w[1..].iter());
                let tt = &t;
                let got = match guard(prop, &["C20"], "serialize", || serde_cbor::to_vec(tt))? {
                    Some(Ok(b)) => b,
                    _ => return fail("serializing fails".into()),
                };
                let mut want = vec![];
                cbor(&t, &mut want);
                if got != want {
                    return fail(format!("serializes to {}.., should be {}..", &hex(&got)[..got.len().min(40) * 2], &hex(&want)[..want.len().min(40) * 2]));
                }
                let got = match guard(prop, &["C20"], "serialize to JSON", || serde_json::to_value(tt))? {
                    Some(Ok(b)) => b,
                    _ => return fail("serializing to JSON fails".into()),
                };
                if got != json(&t) {
                    return fail(format!("serializes to the JSON {:.200}, should be {:.200}", got.to_string(), json(&t).to_string()));
                }
            }
            "read" => read(prop, &w[1..]).or_else(fail)?,
            "value" | "label" => {
                let (x, y) = (unhex(w[1]), unhex(w[2]));
                match guard(prop, &["C10", "C11"], w[0], || of_type(prop, w[0], &x, &y))? {
                    Some(r) => r.or_else(fail)?,
                    None => {}
                }
            }
            "prefix" => {
                let (x, y) = (unhex(w[1]), unhex(w[2]));
                match guard(prop, &["C11"], "is_prefix", || prefixes(&x, &y))? {
                    Some(r) => r.or_else(fail)?,
                    None => {}
                }
            }
            k => panic!("unknown {}", k),
        }
    }
    Ok(())
}

const TYPES: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "vec", "str", "bool", "principal", "nat", "f32", "f64", "arr"];

pub fn gen(prop: &str, r: &mut Rng, i: u64) -> Case {
    match prop {
        "C09" | "C20" | "C22" => {
            let mut out = vec![match prop { "C09" => "digest", "C20" => "cbor", _ => "read" }.to_string()];
            for _ in 0..3 {
                let mut t = vec!["T".to_string()];
                let d = r.below(6);
                tree(r, d, &mut t);
                if prop == "C22" && r.chance(80) {
                    // a tree to compare with: the same, or nearly
                    let mut u = t[1..].to_vec();
                    if r.chance(25) {
                        let ws: Vec<&str> = u.iter().map(|x| &x[..]).collect();
                        let a = parse(&mut ws.iter());
                        let n = u.iter().filter(|x| x.len() == 1).count();
                        let mut k = r.below(n);
                        let p = pruned(&a, &mut k);
                        let mut q = vec![];
                        words(&p, &mut q);
                        u = q;
                    } else if r.chance(75) {
                        let k = r.below(u.len());
                        match u[k].as_str() {
                            "E" | "V" | "P" | "F" => u[k] = r.pick(&["E", "V", "P", "L", "F"]).to_string(),
                            _ if u[k].len() > 2 => {
                                let mut b = unhex(&u[k]);
                                let j = r.below(b.len());
                                match r.below(4) {
                                    0 => b.truncate(j),
                                    1 => b.push(0),
                                    2 => b[j] = b[j].wrapping_add(1),
                                    _ => b[j] ^= 0x80,
                                }
                                u[k] = hex(&b);
                            }
                            _ => u[k] = "00".into(),
                        }
                    }
                    t.push("|".into());
                    t.extend(u);
                }
                out.push(t.join(" "));
            }
            if i % 5 == 1 {
                // a deep tree, a wide tree
                let n = scale(r, 600);
                let mut t = vec!["T".to_string()];
                let kind = r.below(3);
                for j in 0..n {
                    match if kind == 2 { r.below(2) } else { kind } {
                        0 => t.extend(["F".to_string(), "V".to_string(), hex(&[j as u8])]),
                        _ => t.extend(["L".to_string(), hex(&[(j % 251) as u8])]),
                    }
                }
                t.push("E".into());
                out.push(t.join(" "));
                let m = scale(r, 200);
                out.push(format!("T {} {}", vec!["F"; m].join(" "), (0..m + 1).map(|_| r.pick(&["E", "V 01", "L 61 E"]).to_string()).collect::<Vec<_>>().join(" ")));
            }
            if prop == "C09" && i % 7 == 2 {
                let n = scale(r, if i % 91 == 2 { 3_000_000 } else { 70000 });
                out.push(format!("B {}", hex(&long_bytes(r, n))));
            }
            if let Some(b) = lit_bytes(r) {
                out.push(format!("T L {} V {}", hex(&b), hex(&b)));
                if prop == "C09" {
                    out.push(format!("B {}", hex(&b)));
                }
            }
            if prop == "C09" {
                let n = (i % 400) as usize;
                out.push(format!("B {}", hex(&(0..n).map(|_| r.below(256) as u8).collect::<Vec<u8>>())));
            }
            out
        }
        _ => {
            let pre = prop == "C11" && i % 4 == 3;
            let mut out = vec![if pre { "prefix" } else if prop == "C10" { "value" } else { "label" }.to_string()];
            let bytes = |r: &mut Rng, ty: &str| -> Vec<u8> {
                if !matches!(ty, "arr" | "u8") {
                    if let (true, Some(b)) = (r.chance(35), lit_bytes(r)) {
                        return b;
                    }
                }
                let n = match ty {
                    "vec" | "str" | "nat" if r.chance(15) => {
                        let n = if r.chance(4) { scale(r, 140000) } else { scale(r, 3000) };
                        return long_bytes(r, n);
                    }
                    "arr" => 1 + r.below(32),
                    "u8" | "i8" => 1,
                    "u16" | "i16" => 2,
                    "u32" | "i32" | "f32" => 4,
                    "u64" | "i64" | "f64" | "usize" | "isize" => 8,
                    "u128" | "i128" => 16,
                    _ => r.below(34),
                };
                let mut b: Vec<u8> = (0..n).map(|_| if r.chance(50) { *r.pick(&[0u8, 1, 127, 128, 255, 97]) } else { r.below(256) as u8 }).collect();
                if r.chance(25) {
                    // a number of small magnitude
                    let (z, m) = (*r.pick(&[0u8, 0, 255]), r.below(n + 1));
                    b[..m].iter_mut().for_each(|x| *x = z);
                    if r.chance(20) {
                        b.reverse();
                    }
                }
                b
            };
            for _ in 0..8 {
                let ty = *r.pick(TYPES);
                let mut x = bytes(r, if pre { "vec" } else { ty });
                if pre && r.chance(50) {
                    // text
                    x.iter_mut().for_each(|b| *b &= 0x7f);
                }
                if ty == "principal" && !pre && r.chance(20) {
                    // the management canister, the anonymous and the self-authenticating principals
                    let n = 1 + r.below(29);
                    x = r.pick(&[&[][..], &[4][..], &[1][..], &[2; 29][..], &[7; 29][..]]).to_vec();
                    x.resize(if x.len() > 1 { n } else { x.len() }, *r.pick(&[0, 2, 4]));
                }
                let mut y = if r.chance(60) { x.clone() } else { bytes(r, if pre { "vec" } else { ty }) };
                if r.chance(40) && !y.is_empty() {
                    let k = if r.chance(30) { r.below(y.len().min(4)) } else { r.below(y.len()) };
                    y[k] = y[k].wrapping_add(1);
                }
                if pre {
                    if r.chance(70) {
                        let m = if r.chance(30) { y.len().saturating_sub(1 + r.below(8)) } else { r.below(y.len() + 1) };
                        y.truncate(m);
                    }
                    if r.chance(15) {
                        y.push(0);
                    }
                }
                out.push(format!("{} {} {}", if pre { "p" } else { ty }, hex(&x), hex(&y)));
            }
            out
        }
    }
}
