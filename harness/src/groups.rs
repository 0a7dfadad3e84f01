//! Groups: parts are P<0> .. P<71>.
use crate::util::*;
use crate::{guard, Case};
use certified_vars::hashtree::{fork, labeled};
use certified_vars::{AsHashTree, Group, GroupBuilder, HashTree};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct P<const N: usize>(pub Vec<u8>);

fn part_tree(b: &[u8]) -> HashTree<'_> {
    // two labelled halves
    let m = b.len() / 2;
    match b.first() {
        Some(1) => fork(labeled(b"x", HashTree::Leaf(Cow::Borrowed(&b[..m]))), labeled(b"y", HashTree::Leaf(Cow::Borrowed(&b[m..])))),
        Some(2) => HashTree::Empty,
        _ => HashTree::Leaf(Cow::Borrowed(b)),
    }
}
fn part_partial(b: &[u8]) -> HashTree<'_> {
    let m = b.len() / 2;
    match b.first() {
        Some(1) => fork(HashTree::Pruned(spec_recon(&labeled(b"x", HashTree::Leaf(Cow::Borrowed(&b[..m]))))), labeled(b"y", HashTree::Leaf(Cow::Borrowed(&b[m..])))),
        _ => HashTree::Pruned(spec_recon(&part_tree(b))),
    }
}
impl<const N: usize> AsHashTree for P<N> {
    fn as_hash_tree(&self) -> HashTree<'_> {
        part_tree(&self.0)
    }
}

macro_rules! with {
    ($n:expr, $f:ident, $($a:expr),*) => {
        match $n {
            0 => $f::<0>($($a),*), 1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*),
            4 => $f::<4>($($a),*), 5 => $f::<5>($($a),*), 6 => $f::<6>($($a),*), 7 => $f::<7>($($a),*),
            8 => $f::<8>($($a),*), 9 => $f::<9>($($a),*), 10 => $f::<10>($($a),*), 11 => $f::<11>($($a),*),
            12 => $f::<12>($($a),*), 13 => $f::<13>($($a),*), 14 => $f::<14>($($a),*), 15 => $f::<15>($($a),*),
            16 => $f::<16>($($a),*), 17 => $f::<17>($($a),*), 18 => $f::<18>($($a),*), 19 => $f::<19>($($a),*),
            20 => $f::<20>($($a),*), 21 => $f::<21>($($a),*), 22 => $f::<22>($($a),*), 23 => $f::<23>($($a),*),
            24 => $f::<24>($($a),*), 25 => $f::<25>($($a),*), 26 => $f::<26>($($a),*), 27 => $f::<27>($($a),*),
            28 => $f::<28>($($a),*), 29 => $f::<29>($($a),*), 30 => $f::<30>($($a),*), 31 => $f::<31>($($a),*),
            32 => $f::<32>($($a),*), 33 => $f::<33>($($a),*), 34 => $f::<34>($($a),*), 35 => $f::<35>($($a),*),
            36 => $f::<36>($($a),*), 37 => $f::<37>($($a),*), 38 => $f::<38>($($a),*), 39 => $f::<39>($($a),*),
            40 => $f::<40>($($a),*), 41 => $f::<41>($($a),*), 42 => $f::<42>($($a),*), 43 => $f::<43>($($a),*),
            44 => $f::<44>($($a),*), 45 => $f::<45>($($a),*), 46 => $f::<46>($($a),*), 47 => $f::<47>($($a),*),
            48 => $f::<48>($($a),*), 49 => $f::<49>($($a),*), 50 => $f::<50>($($a),*), 51 => $f::<51>($($a),*),
            52 => $f::<52>($($a),*), 53 => $f::<53>($($a),*), 54 => $f::<54>($($a),*), 55 => $f::<55>($($a),*),
            56 => $f::<56>($($a),*), 57 => $f::<57>($($a),*), 58 => $f::<58>($($a),*), 59 => $f::<59>($($a),*),
            60 => $f::<60>($($a),*), 61 => $f::<61>($($a),*), 62 => $f::<62>($($a),*), 63 => $f::<63>($($a),*),
            64 => $f::<64>($($a),*), 65 => $f::<65>($($a),*), 66 => $f::<66>($($a),*), 67 => $f::<67>($($a),*),
            68 => $f::<68>($($a),*), 69 => $f::<69>($($a),*), 70 => $f::<70>($($a),*),
            _ => $f::<71>($($a),*),
        }
    };
}
fn add<const N: usize>(b: GroupBuilder, path: &[String], v: &[u8]) -> GroupBuilder {
    if N % 2 == 0 {
        b.insert(path.to_vec(), P::<N>(v.to_vec()))
    } else {
        b.insert(path.iter().map(|x| x.as_str()), P::<N>(v.to_vec()))
    }
}
fn set<const N: usize>(g: &mut Group, v: &[u8]) -> bool {
    g.get_mut::<P<N>>().0 = v.to_vec();
    g.get::<P<N>>().0 == v
}
fn read<const N: usize>(g: &Group) -> Vec<u8> {
    g.get::<P<N>>().0.clone()
}
type Ray<'a> = certified_vars::collections::group::Ray<'a>;
fn full<'a, const N: usize>(r: Ray<'a>) -> Ray<'a> {
    r.full::<P<N>>()
}
fn partial<'a, const N: usize>(r: Ray<'a>) -> Ray<'a> {
    r.partial(|p: &P<N>| part_partial(&p.0))
}

type Parts = BTreeMap<usize, (Vec<String>, Vec<u8>)>;

/// the subtree under this label, not looking below other labels
fn find<'t, 'a>(t: &'t HashTree<'a>, l: &[u8]) -> Option<&'t HashTree<'a>> {
    match t {
        HashTree::Fork(f) => find(&f.0, l).or_else(|| find(&f.1, l)),
        HashTree::Labeled(x, u) if &x[..] == l => Some(u),
        _ => None,
    }
}
fn at<'t, 'a>(t: &'t HashTree<'a>, path: &[String]) -> Option<&'t HashTree<'a>> {
    path.iter().try_fold(t, |t, l| find(t, l.as_bytes()))
}

/// every label above the parts lies on a wanted path, everything else is pruned
fn only(t: &HashTree, pre: &mut Vec<String>, want: &BTreeSet<Vec<String>>) -> Result<usize, String> {
    if want.contains(pre) {
        return Ok(1);
    }
    match t {
        HashTree::Fork(f) => Ok(only(&f.0, pre, want)? + only(&f.1, pre, want)?),
        HashTree::Labeled(l, u) => {
            pre.push(String::from_utf8_lossy(l).to_string());
            if !want.iter().any(|w| w.starts_with(pre)) {
                return Err(format!("the path {:?} is disclosed", pre));
            }
            let n = only(u, pre, want)?;
            pre.pop();
            Ok(n)
        }
        HashTree::Pruned(_) => Ok(0),
        _ => Err("something besides the requested parts is disclosed".into()),
    }
}

fn dir(t: &HashTree, depth: usize, out: &mut Vec<(Vec<u8>, usize)>) -> Result<(), String> {
    match t {
        HashTree::Fork(f) => {
            dir(&f.0, depth + 1, out)?;
            dir(&f.1, depth + 1, out)
        }
        HashTree::Labeled(l, _) => {
            out.push((l.to_vec(), depth));
            Ok(())
        }
        _ => Err("a directory contains something that is not a label".into()),
    }
}
/// layout of the directory at `pre`
fn layout(t: &HashTree, pre: &[String], parts: &Parts) -> Result<(), String> {
    let mut kids: BTreeSet<String> = BTreeSet::new();
    for (p, _) in parts.values() {
        if p.len() > pre.len() && p.starts_with(pre) {
            kids.insert(p[pre.len()].clone());
        }
    }
    let mut got = vec![];
    dir(t, 0, &mut got)?;
    let names: Vec<Vec<u8>> = got.iter().map(|x| x.0.clone()).collect();
    let want: Vec<Vec<u8>> = kids.iter().map(|x| x.as_bytes().to_vec()).collect();
    if names != want {
        return Err(format!("the directory {:?} lists {:?}, should list {:?}", pre, names, kids));
    }
    let mut lim = 0;
    while (1usize << lim) < kids.len() {
        lim += 1;
    }
    if let Some(x) = got.iter().find(|x| x.1 > lim) {
        return Err(format!("{} siblings, one below {} forks", kids.len(), x.1));
    }
    for k in kids {
        let mut p = pre.to_vec();
        p.push(k.clone());
        if !parts.values().any(|x| x.0 == p) {
            layout(find(t, k.as_bytes()).unwrap(), &p, parts)?;
        }
    }
    Ok(())
}

fn build(decl: &[(usize, Vec<String>, Vec<u8>)]) -> Group {
    let mut b = GroupBuilder::new();
    for (n, p, v) in decl {
        b = with!(*n, add, b, p, v);
    }
    b.build()
}

pub fn run(prop: &str, case: &Case) -> Result<(), String> {
    let mut decl: Vec<(usize, Vec<String>, Vec<u8>)> = vec![];
    let mut i = 1;
    while i < case.len() && case[i].starts_with("part ") {
        let w: Vec<&str> = case[i].split(' ').collect();
        decl.push((w[1].parse().unwrap(), w[3].split('/').map(|x| if x == "-" { String::new() } else { x.to_string() }).collect(), unhex(w[2])));
        i += 1;
    }
    if decl.is_empty() {
        return Ok(());
    }
    // is the declaration sound?
    let mut bad = None;
    for (j, d) in decl.iter().enumerate() {
        for e in &decl[..j] {
            if d.0 == e.0 {
                bad = Some("a type declared twice");
            } else if d.1 == e.1 {
                bad = Some("a path used twice");
            } else if d.1.starts_with(&e.1) || e.1.starts_with(&d.1) {
                bad = Some("a part beneath another part");
            }
        }
    }
    if let Some(b) = bad {
        if prop == "C21" {
            for order in [0, 1] {
                let mut dd = decl.clone();
                if order == 1 {
                    dd.reverse();
                }
                if catch_unwind(AssertUnwindSafe(|| build(&dd))).is_ok() {
                    return Err(format!("{} is accepted", b));
                }
            }
        }
        return Ok(());
    }
    let mut g = match guard(prop, &["C15", "C21"], "building", || build(&decl))? {
        Some(g) => g,
        None => return Ok(()),
    };
    let mut parts: Parts = decl.iter().map(|d| (d.0, (d.1.clone(), d.2.clone()))).collect();
    for l in &case[i..] {
        let w: Vec<&str> = l.split(' ').collect();
        let fail = |m: String| Err(format!("`{}`: {}", l, m));
        match w[0] {
            "set" => {
                let n: usize = w[1].parse().unwrap();
                if !parts.contains_key(&n) {
                    continue;
                }
                let v = unhex(w[2]);
                let gg = &mut g;
                let r = guard(prop, &["C15"], "get_mut", || with!(n, set, gg, &v))?;
                if prop == "C15" && r == Some(false) {
                    return fail("get does not see what get_mut changed".into());
                }
                parts.get_mut(&n).unwrap().1 = v;
            }
            "check" => {
                let gg = &g;
                let t = match guard(prop, &["C15", "C21"], "as_hash_tree", || gg.as_hash_tree())? {
                    Some(t) => t,
                    None => return Ok(()),
                };
                if prop == "C15" {
                    let rh = match guard(prop, &["C15"], "root_hash", || gg.root_hash())? {
                        Some(h) => h,
                        None => return Ok(()),
                    };
                    if rh != spec_recon(&t) {
                        return fail("the root hash is not that of the full hash tree".into());
                    }
                    for (n, (p, v)) in &parts {
                        let gg = &g;
                        if with!(*n, read, gg) != *v {
                            return fail(format!("part {} reads back differently", n));
                        }
                        match at(&t, p) {
                            Some(x) if *x == part_tree(v) => {}
                            _ => return fail(format!("the full hash tree does not hold the part at {:?}", p)),
                        }
                    }
                }
                if prop == "C21" {
                    layout(&t, &[], &parts).or_else(fail)?;
                    for (p, v) in parts.values() {
                        match at(&t, p) {
                            Some(x) if *x == part_tree(v) => {}
                            _ => return fail(format!("no part at {:?}", p)),
                        }
                    }
                    // any other order of declaration gives the same tree
                    for rot in 0..3 {
                        let mut dd: Vec<_> = parts.iter().map(|(n, (p, v))| (*n, p.clone(), v.clone())).collect();
                        match rot {
                            0 => dd.reverse(),
                            1 => dd.sort_by_key(|d| sha(&[format!("{:?}", d).as_bytes()])),
                            _ => dd.sort_by_key(|d| std::cmp::Reverse(d.1.clone())),
                        }
                        let g2 = match guard(prop, &["C21"], "building in another order", || build(&dd))? {
                            Some(g) => g,
                            None => return Ok(()),
                        };
                        if g2.as_hash_tree() != t {
                            return fail("another order of declaration gives another tree".into());
                        }
                    }
                }
            }
            "wit" => {
                if prop != "C15" {
                    continue;
                }
                // wit f3 p5 ...
                let gg = &g;
                let mut asked: BTreeMap<usize, bool> = BTreeMap::new();
                let t = guard(prop, &["C15"], "group witness", || {
                    let mut r = gg.witness();
                    for x in &w[1..] {
                        let n: usize = x[1..].parse().unwrap();
                        if !parts.contains_key(&n) {
                            continue;
                        }
                        if x.starts_with('f') {
                            r = with!(n, full, r);
                        } else {
                            r = with!(n, partial, r);
                        }
                        asked.insert(n, x.starts_with('f'));
                    }
                    r.build()
                })?;
                let t = match t {
                    Some(t) => t,
                    None => return Ok(()),
                };
                if spec_recon(&t) != g.root_hash() {
                    return fail("the witness does not reconstruct to the root hash".into());
                }
                let mut want = BTreeSet::new();
                for (n, f) in &asked {
                    let (p, v) = &parts[n];
                    want.insert(p.clone());
                    let x = if *f { part_tree(v) } else { part_partial(v) };
                    match at(&t, p) {
                        Some(y) if *y == x => {}
                        _ => return fail(format!("the witness does not hold the part asked for at {:?}", p)),
                    }
                }
                let n = only(&t, &mut vec![], &want).or_else(|m| Err(format!("`{}`: {}", l, m)))?;
                if n != want.len() {
                    return fail(format!("{} parts shown, {} asked for", n, want.len()));
                }
            }
            x => panic!("unknown op {}", x),
        }
    }
    Ok(())
}

/// deep paths, wide directories, long names
pub fn gen_scale(prop: &str, r: &mut Rng) -> Case {
    let mut out = vec!["group".to_string()];
    let mut ids: Vec<usize> = (0..72).collect();
    for i in (1..72).rev() {
        ids.swap(i, r.below(i + 1));
    }
    let mut paths: Vec<String> = vec![];
    let val = |r: &mut Rng| {
        let n = if r.chance(20) { scale(r, 300) } else { r.below(4) };
        hex(&(0..=n).map(|_| r.below(4) as u8).collect::<Vec<u8>>())
    };
    let n;
    match r.below(4) {
        // one directory with many parts
        0 => {
            n = scale(r, 72);
            for j in 0..n {
                paths.push(format!("{}n{}", if r.chance(10) { "x/" } else { "" }, (j * 37) % 101));
            }
        }
        // deep paths that share a beginning
        1 | 2 => {
            n = 1 + r.below(5);
            let deep = scale(r, 140);
            for j in 0..n {
                let share = r.below(deep);
                let mut p: Vec<String> = (0..share).map(|_| "d".to_string()).collect();
                p.push(format!("b{}", j));
                while p.len() < deep && r.chance(97) {
                    p.push(r.pick(&["d", "e"]).to_string());
                }
                paths.push(p.join("/"));
            }
        }
        // long names
        _ => {
            n = 2 + r.below(8);
            let len = scale(r, 300);
            for j in 0..n {
                let mut s: Vec<u8> = vec![b'a'; len];
                let at = r.below(len.max(1));
                if len > 0 {
                    s[at] = b'b' + j as u8;
                }
                let mut s = String::from_utf8(s).unwrap();
                if r.chance(30) {
                    s.push('\u{e9}');
                }
                if r.chance(30) {
                    s += "/x";
                }
                paths.push(s);
            }
        }
    }
    let mut seen: Vec<String> = vec![];
    for (j, p) in paths.into_iter().enumerate() {
        let clash = seen.iter().any(|q| *q == p || format!("{}/", q).starts_with(&format!("{}/", p)) || format!("{}/", p).starts_with(&format!("{}/", q)));
        if !clash {
            out.push(format!("part {} {} {}", ids[j], val(r), p));
            seen.push(p);
        }
    }
    out.push("check".into());
    for _ in 0..6 {
        if r.chance(20) {
            out.push(format!("set {} {}", ids[r.below(n)], val(r)));
            out.push("check".into());
        }
        let mut l = "wit".to_string();
        let m = if r.chance(20) { n } else { r.below(5) };
        for _ in 0..m {
            l += &format!(" {}{}", r.pick(&["f", "f", "p"]), ids[r.below(n)]);
        }
        out.push(l);
    }
    let _ = prop;
    out
}

pub fn gen(prop: &str, r: &mut Rng, _i: u64) -> Case {
    let mut out = vec!["group".to_string()];
    let names = ["a", "b", "ab", "-", "z", "m", "0", "aa", "q", "c", "d", "e", "f", "g", "h", "k", "l", "n", "o", "p"];
    let lim = if r.chance(25) { 20 } else { 8 };
    let n = 1 + r.below(lim);
    let mut ids: Vec<usize> = (0..20).collect();
    for i in (1..20).rev() {
        ids.swap(i, r.below(i + 1));
    }
    let val = |r: &mut Rng| {
        let mut v = vec![r.below(4) as u8];
        for _ in 0..r.below(4) {
            v.push(r.below(4) as u8);
        }
        hex(&v)
    };
    let mut paths: Vec<String> = vec![];
    let sloppy = prop == "C21" && r.chance(35);
    let extra: Vec<String> = (0..3).filter_map(|_| lit_bytes(r)).filter_map(|b| String::from_utf8(b).ok()).filter(|s| !s.contains(|c: char| c == '/' || c.is_whitespace() || c.is_control())).collect();
    let width = if r.chance(30) { 20 } else { 4 };
    let depth = if r.chance(30) { 1 } else { 4 };
    for i in 0..n {
        let p: Vec<&str> = (0..1 + r.below(depth)).map(|_| if !extra.is_empty() && r.chance(20) { extra[r.below(extra.len())].as_str() } else { names[r.below(width)] }).collect();
        let p = p.join("/");
        let clash = paths.iter().any(|q| *q == p || format!("{}/", q).starts_with(&format!("{}/", p)) || format!("{}/", p).starts_with(&format!("{}/", q)));
        if clash && !sloppy {
            continue;
        }
        paths.push(p.clone());
        let id = if sloppy && r.chance(10) { ids[0] } else { ids[i] };
        out.push(format!("part {} {} {}", id, val(r), p));
    }
    out.push("check".into());
    for _ in 0..r.below(8) {
        if r.chance(30) {
            out.push(format!("set {} {}", ids[r.below(n)], val(r)));
            out.push("check".into());
        } else {
            let mut l = "wit".to_string();
            for _ in 0..r.below(5) {
                l += &format!(" {}{}", r.pick(&["f", "f", "p"]), ids[r.below(n)]);
            }
            out.push(l);
        }
    }
    out
}
