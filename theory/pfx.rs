// ---- the last entry whose key has a prefix ------------------------------------------------------------------
pub open spec fn pmax(t: T, q: Q) -> Option<E> decreases t {
    match t { T::L => None, T::N(l,a,k,v,c,h,r) =>
        match pmax(*r, q) { Some(e) => Some(e), None => if isp(q, k) { Some(E { a, k, v }) } else { pmax(*l, q) } } }
}
pub proof fn lemma_pm_above(t: T, q: Q, k: K, hi: int)
    requires bst(t, rk(k), hi), qk(k) >= rq(q), !isp(q, k)
    ensures pmax(t, q) is None
    decreases t
{
    match t { T::L => {}, T::N(l,a,k2,v,c,h,r) => {
        lemma_pm_above(*l, q, k, rk(k2));
        ax_isp(q, k2, k);
        lemma_bst_wide(*r, rk(k2), hi, rk(k), hi);
        lemma_pm_above(*r, q, k, hi);
    } }
}
pub proof fn lemma_pm_below(t: T, q: Q, k: K, lo: int)
    requires bst(t, lo, rk(k)), qk(k) < rq(q)
    ensures pmax(t, q) is None
    decreases t
{
    match t { T::L => {}, T::N(l,a,k2,v,c,h,r) => {
        lemma_bst_wide(*l, lo, rk(k2), lo, rk(k));
        lemma_pm_below(*l, q, k, lo); lemma_pm_below(*r, q, k, rk(k2));
        ax_borrow(k2, k); ax_isp(q, k2, k2);
    } }
}
pub proof fn lemma_pm(t: T, q: Q)
    ensures bst(t, LO(), HI()) ==> (t matches T::N(l,a,k,v,c,h,r) ==> {
        &&& (isp(q, k) ==> pmax(t, q) == match pmax(*r, q) { Some(e) => Some(e), None => Some(E { a, k, v }) })
        &&& (qk(k) > rq(q) && !isp(q, k) ==> pmax(t, q) == pmax(*l, q))
        &&& (qk(k) < rq(q) ==> pmax(t, q) == pmax(*r, q))
    }), pmax(T::L, q) is None
{
    if bst(t, LO(), HI()) { match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        if qk(k) > rq(q) && !isp(q, k) { lemma_pm_above(*r, q, k, HI()); }
        if qk(k) < rq(q) { lemma_pm_below(*l, q, k, LO()); ax_isp(q, k, k); }
    } } }
}
// what pmax is: an entry of the tree with the prefix, and no later entry has it
pub proof fn lemma_pmax(t: T, q: Q, lo: int, hi: int)
    requires bst(t, lo, hi)
    ensures pmax(t, q) matches Some(e) ==> at(t, rk(e.k)) == Some(e) && isp(q, e.k) && lo < rk(e.k) < hi,
        forall|x: int| (#[trigger] at(t, x)) is Some && isp(q, at(t, x)->Some_0.k) ==> (pmax(t, q) matches Some(e) && x <= rk(e.k))
    decreases t
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        lemma_pmax(*l, q, lo, rk(k)); lemma_pmax(*r, q, rk(k), hi);
        assert forall|x: int| (#[trigger] at(t, x)) is Some && isp(q, at(t, x)->Some_0.k) implies (pmax(t, q) matches Some(e) && x <= rk(e.k)) by {
            if x < rk(k) { assert(at(*l, x) is Some); lemma_at_bounds(*l, lo, rk(k), x); } else if x > rk(k) { assert(at(*r, x) is Some); }
        }
    } }
}
pub broadcast proof fn lemma_pmax_b(t: T, q: Q)
    requires bst(t, LO(), HI())
    ensures #![trigger pmax(t, q)] pmax(t, q) matches Some(e) ==> at(t, rk(e.k)) == Some(e) && isp(q, e.k),
        forall|x: int| (#[trigger] at(t, x)) is Some && isp(q, at(t, x)->Some_0.k) ==> (pmax(t, q) matches Some(e) && x <= rk(e.k))
{ lemma_pmax(t, q, LO(), HI()); }
// t2 is t with the value of that entry replaced
pub open spec fn modp(t: T, t2: T, q: Q, nv: V) -> bool {
    &&& forall|lo: int, hi: int| #![trigger bst(t, lo, hi)] #![trigger bst(t2, lo, hi)] bst(t, lo, hi) ==> bst(t2, lo, hi)
    &&& forall|y: int| #[trigger] at(t2, y) == if (pmax(t, q) matches Some(e) && y == rk(e.k)) { setv(at(t, y), nv) } else { at(t, y) }
}
pub open spec fn callrk(o: Option<E>, f: F) -> Option<R> { match o { None => None, Some(e) => Some(fok_r(f, e.k, e.v)) } }
pub open spec fn opt(c: bool, f: F) -> Option<F> { if c { Some(f) } else { None } }
