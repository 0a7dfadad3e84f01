//! Tools shared by the scenarios: random numbers, tracked keys and values, an independent digest.
use certified_vars::label::{Label, Prefix};
use certified_vars::{AsHashTree, Hash, HashTree};
use sha2::{Digest, Sha256};
use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::{Borrow, Cow};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::HashSet;

// ---------------------------------------------------------------- allocator: freed memory is poisoned and kept for a while
pub struct Poison;
const RING: usize = 4096;
static mut Q: [(usize, usize, usize); RING] = [(0, 0, 0); RING];
static mut QI: usize = 0;
static mut BYTES: i64 = 0;
pub fn live_bytes() -> i64 {
    unsafe { BYTES }
}
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES += l.size() as i64;
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES -= l.size() as i64;
        if l.size() <= 512 && l.size() >= 16 {
            // single-threaded program: no locking needed
            std::ptr::write_bytes(p, 0xD5, l.size());
            let i = QI % RING;
            QI += 1;
            let q = std::ptr::addr_of_mut!(Q);
            let (op, os, oa) = (*q)[i];
            (*q)[i] = (p as usize, l.size(), l.align());
            if op != 0 {
                System.dealloc(op as *mut u8, Layout::from_size_align_unchecked(os, oa));
            }
        } else {
            System.dealloc(p, l)
        }
    }
}

// ---------------------------------------------------------------- random numbers
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
}

// ---------------------------------------------------------------- sizes and bytes worth trying
/// constants of the current source that were not there when this was written (LITS="n,n,..;hex,hex,..")
pub struct Lits {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}
pub fn lits() -> &'static Lits {
    static L: std::sync::OnceLock<Lits> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let e = std::env::var("LITS").unwrap_or_default();
        let (a, b) = e.split_once(';').unwrap_or((&e, ""));
        Lits {
            nums: a.split(',').filter_map(|x| x.parse().ok()).collect(),
            strs: b.split(',').filter(|x| !x.is_empty()).map(unhex).collect(),
        }
    })
}
/// a size near a constant of the source or near a power of two
pub fn scale(r: &mut Rng, max: usize) -> usize {
    let near = |r: &mut Rng, n: usize| match r.below(6) {
        0 => n.saturating_sub(1),
        1 => n,
        2 | 3 => n + 1,
        4 => n + 2,
        _ => n * 2 + 1,
    };
    let ns: Vec<usize> = lits().nums.iter().map(|x| *x as usize).filter(|x| *x > 1 && *x <= max).collect();
    if !ns.is_empty() && r.chance(60) {
        let n = *r.pick(&ns);
        return near(r, n).min(max);
    }
    let mut k = 3;
    while 1usize << (k + 1) <= max && r.chance(75) {
        k += 1;
    }
    near(r, 1 << k).min(max)
}
/// bytes of some length, over few or all byte values
pub fn long_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let few = r.chance(50);
    (0..n).map(|_| if few { *r.pick(&[0u8, 1, 97, 255]) } else { r.below(256) as u8 }).collect()
}
/// a byte string taken from the source's new constants
pub fn lit_bytes(r: &mut Rng) -> Option<Vec<u8>> {
    let l = lits();
    if l.nums.is_empty() && l.strs.is_empty() {
        return None;
    }
    if !l.strs.is_empty() && r.chance(70) {
        let mut s = r.pick(&l.strs).clone();
        if r.chance(30) {
            s.push(r.below(256) as u8);
        } else if r.chance(20) {
            s.pop();
        }
        return Some(s);
    }
    if l.nums.is_empty() {
        return None;
    }
    let n = r.pick(&l.nums).wrapping_add(*r.pick(&[0, 0, 1, u64::MAX]));
    Some(match r.below(7) {
        4 | 5 => {
            // a length and bytes the source names
            let ls: Vec<usize> = l.nums.iter().filter(|x| **x > 0 && **x <= 300).map(|x| *x as usize).collect();
            let m = if !ls.is_empty() && r.chance(60) { r.pick(&ls).saturating_sub(r.below(2)) + r.below(2) } else { 1 + r.below(40) };
            (0..m).map(|_| if r.chance(50) { *r.pick(&l.nums) as u8 } else { *r.pick(&[0u8, 1, 97, 255]) }).collect()
        }
        6 => {
            let m = 1 + r.below(40);
            let mut b = long_bytes(r, m);
            let k = *r.pick(&[0, m - 1, m / 2]);
            b[k] = n as u8;
            b
        }
        0 => vec![n as u8],
        1 => vec![n as u8, r.below(3) as u8],
        2 => (n as u32).to_be_bytes().to_vec(),
        _ => n.to_be_bytes().to_vec(),
    })
}

pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// ---------------------------------------------------------------- object tracking
thread_local! {
    static NEXT: Cell<u64> = Cell::new(1);
    static LIVE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static BAD: RefCell<Option<String>> = RefCell::new(None);
}
pub fn track_reset() {
    LIVE.with(|l| l.borrow_mut().clear());
    BAD.with(|b| *b.borrow_mut() = None);
}
pub fn track_bad() -> Option<String> {
    BAD.with(|b| b.borrow().clone())
}
pub fn track_live() -> usize {
    LIVE.with(|l| l.borrow().len())
}
fn birth() -> u64 {
    let n = NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    LIVE.with(|l| l.borrow_mut().insert(n));
    n
}
fn death(n: u64, what: &str) {
    if !LIVE.with(|l| l.borrow_mut().remove(&n)) {
        bad(format!("{} dropped twice (or never created)", what));
    }
}
fn used(n: u64, what: &str) {
    if !LIVE.with(|l| l.borrow().contains(&n)) {
        bad(format!("{} used after it was dropped", what));
    }
}
fn bad(m: String) {
    BAD.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            *b = Some(m)
        }
    })
}

/// A key: byte string with the usual order.
#[derive(Debug)]
pub struct Kt {
    id: u64,
    pub b: Vec<u8>,
}
impl Kt {
    pub fn new(b: &[u8]) -> Kt {
        Kt { id: birth(), b: b.to_vec() }
    }
}
impl Kt {
    pub fn id(&self) -> u64 {
        self.id
    }
}
impl Clone for Kt {
    fn clone(&self) -> Kt {
        Kt::new(&self.b)
    }
}
impl Drop for Kt {
    fn drop(&mut self) {
        death(self.id, "a key")
    }
}
impl PartialEq for Kt {
    fn eq(&self, o: &Kt) -> bool {
        used(self.id, "a key");
        used(o.id, "a key");
        self.b == o.b
    }
}
impl Eq for Kt {}
impl PartialOrd for Kt {
    fn partial_cmp(&self, o: &Kt) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Kt {
    fn cmp(&self, o: &Kt) -> Ordering {
        used(self.id, "a key");
        used(o.id, "a key");
        self.b.cmp(&o.b)
    }
}
impl Borrow<[u8]> for Kt {
    fn borrow(&self) -> &[u8] {
        used(self.id, "a key");
        &self.b
    }
}
impl Label for Kt {
    fn as_label(&self) -> Cow<[u8]> {
        used(self.id, "a key");
        Cow::Borrowed(&self.b)
    }
}
impl Prefix<[u8]> for Kt {
    fn is_prefix(&self, p: &[u8]) -> bool {
        self.b.starts_with(p)
    }
}

/// A value whose hash tree is a leaf, or a small tree with labels of its own.
#[derive(Debug)]
pub struct Vt {
    id: u64,
    pub b: Vec<u8>,
}
impl Vt {
    pub fn new(b: &[u8]) -> Vt {
        Vt { id: birth(), b: b.to_vec() }
    }
}
impl Default for Vt {
    fn default() -> Vt {
        Vt::new(b"dflt")
    }
}
impl Drop for Vt {
    fn drop(&mut self) {
        death(self.id, "a value")
    }
}
pub fn value_tree(b: &[u8]) -> HashTree<'_> {
    if b.first().map_or(false, |x| x % 4 == 1) {
        certified_vars::hashtree::fork(certified_vars::hashtree::labeled(&b[..1], HashTree::Leaf(Cow::Borrowed(b))), HashTree::Empty)
    } else {
        HashTree::Leaf(Cow::Borrowed(b))
    }
}
pub fn value_hash(b: &[u8]) -> Hash {
    spec_recon(&value_tree(b))
}
impl AsHashTree for Vt {
    fn root_hash(&self) -> Hash {
        used(self.id, "a value");
        value_hash(&self.b)
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        used(self.id, "a value");
        value_tree(&self.b)
    }
}

// ---------------------------------------------------------------- the interface specification, written down again
pub fn sha(parts: &[&[u8]]) -> Hash {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn dom(name: &str, parts: &[&[u8]]) -> Hash {
    let mut v = vec![name.len() as u8];
    v.extend_from_slice(name.as_bytes());
    let mut all: Vec<&[u8]> = vec![&v];
    all.extend_from_slice(parts);
    sha(&all)
}
pub fn spec_fork(a: &Hash, b: &Hash) -> Hash {
    dom("ic-hashtree-fork", &[a, b])
}
pub fn spec_lab(l: &[u8], h: &Hash) -> Hash {
    dom("ic-hashtree-labeled", &[l, h])
}
pub fn spec_leaf(b: &[u8]) -> Hash {
    dom("ic-hashtree-leaf", &[b])
}
pub fn spec_recon(t: &HashTree) -> Hash {
    match t {
        HashTree::Empty => dom("ic-hashtree-empty", &[]),
        HashTree::Fork(f) => spec_fork(&spec_recon(&f.0), &spec_recon(&f.1)),
        HashTree::Labeled(l, t) => spec_lab(l, &spec_recon(t)),
        HashTree::Leaf(b) => spec_leaf(b),
        HashTree::Pruned(h) => *h,
    }
}

/// in-order contents of a witness, without looking below labels
#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    Lab(Vec<u8>, Below),
    Gap,
    Other,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Below {
    Pruned(Hash),
    Tree(Hash, String),
}
pub fn flat(t: &HashTree, out: &mut Vec<Item>) {
    match t {
        HashTree::Empty => {}
        HashTree::Fork(f) => {
            flat(&f.0, out);
            flat(&f.1, out);
        }
        HashTree::Labeled(l, t) => out.push(Item::Lab(
            l.to_vec(),
            match &**t {
                HashTree::Pruned(h) => Below::Pruned(*h),
                t => Below::Tree(spec_recon(t), format!("{:?}", t)),
            },
        )),
        HashTree::Leaf(_) => out.push(Item::Other),
        HashTree::Pruned(_) => {
            if out.last() != Some(&Item::Gap) {
                out.push(Item::Gap)
            }
        }
    }
}
pub fn flat_of(t: &HashTree) -> Vec<Item> {
    let mut v = vec![];
    flat(t, &mut v);
    v
}
pub fn label_depth(t: &HashTree, d: usize) -> usize {
    match t {
        HashTree::Fork(f) => label_depth(&f.0, d + 1).max(label_depth(&f.1, d + 1)),
        HashTree::Labeled(..) => d,
        _ => 0,
    }
}
/// least height a search tree can have that yields this full hash tree
pub fn min_height(t: &HashTree) -> usize {
    match t {
        HashTree::Labeled(..) => 1,
        HashTree::Fork(f) => {
            let mut best = usize::MAX;
            // (left, own entry)
            if let HashTree::Labeled(..) = f.1 {
                best = best.min(1 + min_height(&f.0));
            }
            // (own entry, right)
            if let HashTree::Labeled(..) = f.0 {
                best = best.min(1 + min_height(&f.1));
            }
            // (left, (own entry, right))
            if let HashTree::Fork(g) = &f.1 {
                if let HashTree::Labeled(..) = g.0 {
                    best = best.min(1 + min_height(&f.0).max(min_height(&g.1)));
                }
            }
            if best == usize::MAX { 0 } else { best }
        }
        _ => 0,
    }
}

// ---------------------------------------------------------------- CBOR, written down again
pub fn cbor_head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8)
    } else if n < 256 {
        out.push(m | 24);
        out.push(n as u8)
    } else if n < 65536 {
        out.push(m | 25);
        out.extend_from_slice(&(n as u16).to_be_bytes())
    } else if n < 1 << 32 {
        out.push(m | 26);
        out.extend_from_slice(&(n as u32).to_be_bytes())
    } else {
        out.push(m | 27);
        out.extend_from_slice(&n.to_be_bytes())
    }
}
pub fn cbor_bytes(out: &mut Vec<u8>, b: &[u8]) {
    cbor_head(out, 2, b.len() as u64);
    out.extend_from_slice(b);
}
struct BytesVisitor;
impl<'de> serde::de::Visitor<'de> for BytesVisitor {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "bytes")
    }
    fn visit_bytes<E>(self, b: &[u8]) -> Result<Vec<u8>, E> {
        Ok(b.to_vec())
    }
    fn visit_byte_buf<E>(self, b: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(b)
    }
}
impl serde::Serialize for Kt {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.b)
    }
}
impl serde::Serialize for Vt {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.b)
    }
}
impl<'de> serde::Deserialize<'de> for Kt {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Kt, D::Error> {
        Ok(Kt::new(&d.deserialize_bytes(BytesVisitor)?))
    }
}
impl<'de> serde::Deserialize<'de> for Vt {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Vt, D::Error> {
        Ok(Vt::new(&d.deserialize_bytes(BytesVisitor)?))
    }
}
