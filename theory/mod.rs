// ---- in-place change of one value ------------------------------------------------------------------
// t2 is t with the value at x (if any) replaced by nv; nothing else differs
pub open spec fn modv(t: T, t2: T, x: int, nv: V) -> bool {
    &&& forall|lo: int, hi: int| #![trigger bst(t, lo, hi)] #![trigger bst(t2, lo, hi)] bst(t, lo, hi) ==> bst(t2, lo, hi)
    &&& forall|y: int| #[trigger] at(t2, y) == if y == x { setv(at(t, y), nv) } else { at(t, y) }
}
pub open spec fn setv(o: Option<E>, nv: V) -> Option<E> { match o { None => None, Some(e) => Some(E { a: e.a, k: e.k, v: nv }) } }
pub open spec fn evof(o: Option<E>) -> V { o->Some_0.v }
// same number of entries, same balance
pub open spec fn shape(t: T, t2: T) -> bool { cnt(t2) == cnt(t) && bh(t2) == bh(t) && red(t2) == red(t) && ll(t2) == ll(t) && (t2 is L) == (t is L) }
pub open spec fn callr(o: Option<E>, f: F) -> Option<R> { match o { None => None, Some(e) => Some(fo_r(f, e.v)) } }
// a caller's function that makes a value, from nothing or from the key; the default value
pub uninterp spec fn fn0(f: F) -> V;
pub uninterp spec fn fn1(f: F, k: K) -> V;
pub uninterp spec fn defv() -> V;
pub open spec fn adr(o: Option<E>) -> Option<int> { match o { None => None, Some(e) => Some(e.a) } }
