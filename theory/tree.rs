// ---- generic sorts -------------------------------------------------------------------------
// K, V: the map's key and value types.  Q: a type K can be borrowed as.  F: a caller's closure.
#[verifier::external_body] pub struct K { _p: () }
#[verifier::external_body] pub struct V { _p: () }
#[verifier::external_body] pub struct Q { _p: () }
#[verifier::external_body] pub struct F { _p: () }
#[verifier::external_body] pub struct R { _p: () }
#[verifier::external_body] pub struct H { _p: () }
pub type B = Seq<u8>;

// Ord on K is a lawful total preorder: rk is its embedding in the integers, bounded by LO and HI.
pub uninterp spec fn rk(k: K) -> int;
pub uninterp spec fn LO() -> int;
pub uninterp spec fn HI() -> int;
// K: Borrow<Q>: the rank of the borrowed form, and the rank of a Q
pub uninterp spec fn bq(k: K) -> Q;
pub uninterp spec fn rq(q: Q) -> int;
// K: Label, V: AsHashTree
pub uninterp spec fn lb(k: K) -> B;
pub uninterp spec fn vh(v: V) -> H;
// the position a comparator closure (get_with) looks for
pub uninterp spec fn fpos(f: F) -> int;
// digest constructors (their byte-level definitions are C09's business)
pub uninterp spec fn h_empty() -> H;
pub uninterp spec fn h_fork(a: H, b: H) -> H;
pub uninterp spec fn h_lab(l: B, h: H) -> H;
pub uninterp spec fn h_leaf(l: B) -> H;
// a caller's closure on a value: new value and result
pub uninterp spec fn fo_v(f: F, v: V) -> V;
pub uninterp spec fn fo_r(f: F, v: V) -> R;
pub uninterp spec fn fok_v(f: F, k: K, v: V) -> V;
pub uninterp spec fn fok_r(f: F, k: K, v: V) -> R;

// hash trees and the digest they reconstruct to
pub enum HT { Empty, Fork(Box<HT>, Box<HT>), Labeled(B, Box<HT>), Leaf(B), Pruned(H) }
pub open spec fn recon(t: HT) -> H decreases t {
    match t {
        HT::Empty => h_empty(), HT::Fork(l, r) => h_fork(recon(*l), recon(*r)),
        HT::Labeled(b, u) => h_lab(b, recon(*u)), HT::Leaf(b) => h_leaf(b), HT::Pruned(h) => h,
    }
}
// V::as_hash_tree; AsHashTree is lawful: root_hash is the digest of as_hash_tree
pub uninterp spec fn vt(v: V) -> HT;
pub axiom fn ax_vt(v: V) ensures recon(vt(v)) == vh(v);
pub axiom fn ax_rank(k: K) ensures LO() < rk(k) < HI();
pub axiom fn ax_umax() ensures UMAX() >= 4294967295;
pub uninterp spec fn UMAX() -> int;

pub open spec fn dh(k: K, v: V) -> H { h_lab(lb(k), vh(v)) }

// ---- trees -----------------------------------------------------------------------------------
// N(left, address, key, value, is_red, stored hash, right)
pub enum T { L, N(Box<T>, int, K, V, bool, H, Box<T>) }
pub struct E { pub a: int, pub k: K, pub v: V }

pub open spec fn isn(t: T) -> bool { t is N }
pub open spec fn tl(t: T) -> T { match t { T::L => T::L, T::N(l,a,k,v,c,h,r) => *l } }
pub open spec fn tr(t: T) -> T { match t { T::L => T::L, T::N(l,a,k,v,c,h,r) => *r } }
pub open spec fn red(t: T) -> bool { match t { T::L => false, T::N(l,a,k,v,c,h,r) => c } }
pub open spec fn sh(t: T) -> H { match t { T::L => h_empty(), T::N(l,a,k,v,c,h,r) => h } }

pub open spec fn cnt(t: T) -> nat decreases t {
    match t { T::L => 0, T::N(l,a,k,v,c,h,r) => cnt(*l) + 1 + cnt(*r) }
}
pub open spec fn bst(t: T, lo: int, hi: int) -> bool decreases t {
    match t { T::L => true, T::N(l,a,k,v,c,h,r) => lo < rk(k) < hi && bst(*l, lo, rk(k)) && bst(*r, rk(k), hi) }
}
pub open spec fn at(t: T, x: int) -> Option<E> decreases t {
    match t { T::L => None, T::N(l,a,k,v,c,h,r) =>
        if x < rk(k) { at(*l, x) } else if x == rk(k) { Some(E { a, k, v }) } else { at(*r, x) } }
}
pub open spec fn node_hash(l: T, k: K, v: V, r: T) -> H {
    let d = dh(k, v);
    if l is L { if r is L { d } else { h_fork(d, sh(r)) } }
    else { if r is L { h_fork(sh(l), d) } else { h_fork(sh(l), h_fork(d, sh(r))) } }
}
// every stored hash is the hash of the entries below it
pub open spec fn hok(t: T) -> bool decreases t {
    match t { T::L => true, T::N(l,a,k,v,c,h,r) => hok(*l) && hok(*r) && h == node_hash(*l, k, v, *r) }
}
// all stored hashes strictly below the root are right
pub open spec fn hokc(t: T) -> bool { hok(tl(t)) && hok(tr(t)) }

// ---- left-leaning red-black shape ---------------------------------------------------------------
pub open spec fn bh(t: T) -> nat decreases t {
    match t { T::L => 0, T::N(l,a,k,v,c,h,r) => bh(*l) + if c { 0nat } else { 1nat } }
}
// ll: strict left-leaning red-black tree (the root may be red)
pub open spec fn ll(t: T) -> bool decreases t {
    match t { T::L => true, T::N(l,a,k,v,c,h,r) =>
        ll(*l) && ll(*r) && bh(*l) == bh(*r) && !red(*r) && (c ==> !red(*l)) }
}
// lls: as ll, but a red root may have a red left child
pub open spec fn lls(t: T) -> bool {
    match t { T::L => true, T::N(l,a,k,v,c,h,r) =>
        ll(*l) && ll(*r) && bh(*l) == bh(*r) && !red(*r) }
}

// ---- what "the same bindings" means ----------------------------------------------------------------
pub open spec fn same_map(t: T, u: T) -> bool {
    &&& forall|lo: int, hi: int| #![trigger bst(t, lo, hi)] #![trigger bst(u, lo, hi)] bst(t, lo, hi) ==> bst(u, lo, hi)
    &&& forall|x: int| bst(t, LO(), HI()) ==> #[trigger] at(u, x) == at(t, x)
}

pub open spec fn nh(t: T) -> H { match t { T::L => h_empty(), T::N(l,a,k,v,c,h,r) => node_hash(*l, k, v, *r) } }
pub open spec fn kv(o: Option<E>) -> Option<(K, V)> { match o { None => None, Some(e) => Some((e.k, e.v)) } }
pub open spec fn valof(o: Option<E>) -> Option<V> { match o { None => None, Some(e) => Some(e.v) } }
pub open spec fn keyof(o: Option<E>, k: K) -> K { match o { None => k, Some(e) => e.k } }
// t2 is t with x -> (k, v) bound at address p
pub open spec fn ins_map(t: T, t2: T, k: K, v: V, p: int) -> bool {
    &&& forall|lo: int, hi: int| #![trigger bst(t, lo, hi)] #![trigger bst(t2, lo, hi)] bst(t, lo, hi) && lo < rk(k) < hi ==> bst(t2, lo, hi)
    &&& forall|x: int| #[trigger] at(t2, x) == if x == rk(k) { Some(E { a: p, k: keyof(at(t, x), k), v }) } else { at(t, x) }
}
pub open spec fn del_b(t: T, t2: T) -> bool {
    forall|lo: int, hi: int| #![trigger bst(t, lo, hi)] #![trigger bst(t2, lo, hi)] bst(t, lo, hi) ==> bst(t2, lo, hi)
}
pub open spec fn del_at(t: T, t2: T, y: int) -> bool {
    forall|x: int| kv(#[trigger] at(t2, x)) == if x == y { None } else { kv(at(t, x)) }
}
pub open spec fn del_map(t: T, t2: T, y: int) -> bool { del_b(t, t2) && del_at(t, t2, y) }
pub open spec fn has(t: T, x: int) -> bool { at(t, x) is Some }
// leftmost entry
pub open spec fn minkv(t: T) -> (K, V) decreases t {
    match t { T::L => arbitrary(), T::N(l,a,k,v,c,h,r) => if *l is L { (k, v) } else { minkv(*l) } }
}
pub open spec fn setmin(t: T, nk: K, nv: V) -> T decreases t {
    match t { T::L => T::L, T::N(l,a,k,v,c,h,r) =>
        if *l is L { T::N(l, a, nk, nv, c, h, r) } else { T::N(Box::new(setmin(*l, nk, nv)), a, k, v, c, h, r) } }
}
// u is reached from t by going left only
pub open spec fn spine(t: T, u: T) -> bool decreases t {
    t == u || match t { T::L => false, T::N(l,a,k,v,c,h,r) => spine(*l, u) }
}
// stored hashes are right except possibly on the leftmost path
pub open spec fn hokm(t: T) -> bool decreases t {
    match t { T::L => true, T::N(l,a,k,v,c,h,r) => hokm(*l) && hok(*r) }
}
// ---- lemmas -------------------------------------------------------------------------------------
pub broadcast proof fn lemma_wide(t: T, lo: int, hi: int)
    requires #[trigger] bst(t, lo, hi), LO() <= lo, hi <= HI(),
    ensures bst(t, LO(), HI())
    decreases t
{ lemma_bst_wide(t, lo, hi, LO(), HI()); }
pub proof fn lemma_bst_wide(t: T, lo: int, hi: int, lo2: int, hi2: int)
    requires bst(t, lo, hi), lo2 <= lo, hi <= hi2
    ensures bst(t, lo2, hi2)
    decreases t
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => { lemma_bst_wide(*l, lo, rk(k), lo2, rk(k)); lemma_bst_wide(*r, rk(k), hi, rk(k), hi2); } }
}
// what is found in a search tree lies within its bounds
pub broadcast proof fn lemma_at_bounds(t: T, lo: int, hi: int, x: int)
    requires #[trigger] bst(t, lo, hi), (#[trigger] at(t, x)) is Some
    ensures lo < x < hi, rk(at(t, x)->Some_0.k) == x
    decreases t
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        if x < rk(k) { lemma_at_bounds(*l, lo, rk(k), x); } else if x > rk(k) { lemma_at_bounds(*r, rk(k), hi, x); } } }
}
pub proof fn lemma_min(t: T, lo: int, hi: int)
    requires bst(t, lo, hi), isn(t)
    ensures lo < rk(minkv(t).0) < hi, kv(at(t, rk(minkv(t).0))) == Some(minkv(t)),
        forall|x: int| has(t, x) ==> x >= rk(minkv(t).0)
    decreases t
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        if *l is L {
            assert forall|x: int| has(t, x) implies x >= rk(k) by { if x < rk(k) { assert(at(*l, x) is None); } }
        } else {
            lemma_min(*l, lo, rk(k));
            assert forall|x: int| has(t, x) implies x >= rk(minkv(t).0) by { if x < rk(k) { assert(has(*l, x)); } }
        } } }
}
pub proof fn lemma_min2(t: T)
    requires bst(t, LO(), HI()), isn(t)
    ensures LO() < rk(minkv(t).0) < HI(), kv(at(t, rk(minkv(t).0))) == Some(minkv(t)),
        forall|x: int| (#[trigger] at(t, x)) is Some ==> x >= rk(minkv(t).0),
        tl(t) is N ==> rk(minkv(t).0) < rk(t->N_2), tl(t) is N ==> minkv(t) == minkv(tl(t)), tl(t) is L ==> minkv(t) == (t->N_2, t->N_3)
{
    lemma_min(t, LO(), HI());
    assert forall|x: int| (#[trigger] at(t, x)) is Some implies x >= rk(minkv(t).0) by { assert(has(t, x)); }
    if tl(t) is N { lemma_min(tl(t), LO(), rk(t->N_2)); }
}
pub proof fn lemma_bst_members(t: T, lo: int, hi: int, lo2: int)
    requires bst(t, lo, hi), forall|x: int| has(t, x) ==> lo2 < x
    ensures bst(t, lo2, hi)
    decreases t
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        assert(has(t, rk(k)));
        assert forall|x: int| has(*l, x) implies lo2 < x by { lemma_at_bounds(*l, lo, rk(k), x); assert(has(t, x)); }
        lemma_bst_members(*l, lo, rk(k), lo2);
    } }
}
// putting the smaller key nk in the leftmost position
pub proof fn lemma_setmin(t: T, lo: int, hi: int, nk: K, nv: V)
    requires bst(t, lo, hi), isn(t), rk(nk) <= lo
    ensures bst(setmin(t, nk, nv), LO(), hi), minkv(setmin(t, nk, nv)) == (nk, nv), isn(setmin(t, nk, nv)),
        cnt(setmin(t, nk, nv)) == cnt(t), bh(setmin(t, nk, nv)) == bh(t), ll(setmin(t, nk, nv)) == ll(t), red(setmin(t, nk, nv)) == red(t),
        red(tl(setmin(t, nk, nv))) == red(tl(t)), (tl(setmin(t, nk, nv)) is L) == (tl(t) is L),
        hok(t) ==> hokm(setmin(t, nk, nv)),
        forall|x: int| kv(#[trigger] at(setmin(t, nk, nv), x)) == if x == rk(nk) { Some((nk, nv)) } else if x == rk(minkv(t).0) { None } else { kv(at(t, x)) }
    decreases t
{
    ax_rank(nk); reveal_with_fuel(bst, 2); reveal_with_fuel(hokm, 2);
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        let u = setmin(t, nk, nv);
        if *l is L {
            lemma_bst_wide(*r, rk(k), hi, rk(nk), hi);
            assert forall|x: int| kv(#[trigger] at(u, x)) == if x == rk(nk) { Some((nk, nv)) } else if x == rk(minkv(t).0) { None } else { kv(at(t, x)) } by {
                assert(at(*l, x) is None);
                if x <= rk(k) && at(*r, x) is Some { lemma_at_bounds(*r, rk(k), hi, x); }
            }
        } else {
            lemma_setmin(*l, lo, rk(k), nk, nv);
            lemma_min(*l, lo, rk(k));
            let l2 = setmin(*l, nk, nv);
            assert(tl(u) == l2);
            assert forall|x: int| kv(#[trigger] at(u, x)) == if x == rk(nk) { Some((nk, nv)) } else if x == rk(minkv(t).0) { None } else { kv(at(t, x)) } by {
                if x < rk(k) { assert(at(u, x) == at(l2, x)); assert(at(t, x) == at(*l, x)); }
            }
        } } }
}
pub broadcast proof fn ax_rank_b(k: K) ensures LO() < (#[trigger] rk(k)) < HI() { ax_rank(k); }
pub open spec fn rootkv(t: T) -> Option<(K, V)> { match t { T::L => None, T::N(l,a,k,v,c,h,r) => Some((k, v)) } }

// the recursive definitions, unfolded once at a given node
pub proof fn unf(t: T)
    ensures t matches T::N(l,a,k,v,c,h,r) ==> {
        &&& cnt(t) == cnt(*l) + 1 + cnt(*r)
        &&& (forall|lo: int, hi: int| #[trigger] bst(t, lo, hi) == (lo < rk(k) < hi && bst(*l, lo, rk(k)) && bst(*r, rk(k), hi)))
        &&& (forall|x: int| #[trigger] at(t, x) == if x < rk(k) { at(*l, x) } else if x == rk(k) { Some(E { a, k, v }) } else { at(*r, x) })
        &&& hok(t) == (hok(*l) && hok(*r) && h == node_hash(*l, k, v, *r))
        &&& hokm(t) == (hokm(*l) && hok(*r))
        &&& bh(t) == bh(*l) + if c { 0nat } else { 1nat }
        &&& ll(t) == (ll(*l) && ll(*r) && bh(*l) == bh(*r) && !red(*r) && (c ==> !red(*l)))
        &&& minkv(t) == if *l is L { (k, v) } else { minkv(*l) }
    }
{}
pub proof fn unfl()
    ensures cnt(T::L) == 0, bh(T::L) == 0, ll(T::L), hok(T::L), hokm(T::L),
        forall|lo: int, hi: int| #[trigger] bst(T::L, lo, hi),
        forall|x: int| #[trigger] at(T::L, x) == None::<E>,
{}

pub proof fn lemma_recol(t: T, u: T)
    ensures t is N && u is N && tl(t) == tl(u) && tr(t) == tr(u) && t->N_1 == u->N_1 && t->N_2 == u->N_2 && t->N_3 == u->N_3 ==> {
        &&& (forall|x: int| #![trigger at(t, x)] #![trigger at(u, x)] at(t, x) == at(u, x))
        &&& (forall|lo: int, hi: int| #![trigger bst(t, lo, hi)] #![trigger bst(u, lo, hi)] bst(t, lo, hi) == bst(u, lo, hi))
        &&& cnt(t) == cnt(u) && minkv(t) == minkv(u)
    }
{}

pub proof fn lemma_spine(t: T, u: T)
    requires spine(t, u)
    ensures isn(u) ==> spine(t, tl(u)), isn(u) && tl(u) is L ==> rootkv(u) == Some(minkv(t))
    decreases t
{
    reveal_with_fuel(spine, 2);
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => { if t != u { lemma_spine(*l, u); } } }
}
// the in-order successor trick of removal: r's leftmost entry replaced by the smaller (nk, nv), then removed
pub proof fn lemma_succ(r: T, nk: K, nv: V)
    ensures bst(r, rk(nk), HI()) && isn(r) ==> {
        let s = setmin(r, nk, nv);
        &&& bst(s, LO(), HI()) && minkv(s) == (nk, nv) && isn(s) && cnt(s) == cnt(r) && bh(s) == bh(r) && ll(s) == ll(r) && red(s) == red(r)
        &&& red(tl(s)) == red(tl(r)) && (tl(s) is L) == (tl(r) is L) && (hok(r) ==> hokm(s))
        &&& rk(nk) < rk(minkv(r).0)
        &&& kv(at(r, rk(minkv(r).0))) == Some(minkv(r))
        &&& (forall|x: int| kv(#[trigger] at(s, x)) == if x == rk(nk) { Some((nk, nv)) } else if x == rk(minkv(r).0) { None } else { kv(at(r, x)) })
        &&& (forall|x: int| #[trigger] at(r, x) is Some ==> x >= rk(minkv(r).0))
        &&& (forall|hi: int| #[trigger] bst(r, rk(nk), hi) ==> bst(s, LO(), hi))
        &&& (forall|u: T, hi: int| del_b(s, u) && (#[trigger] del_at(s, u, rk(nk))) && (#[trigger] bst(r, rk(nk), hi)) ==> bst(u, rk(minkv(r).0), hi))
        &&& (forall|w: T, lo: int| #[trigger] bst(w, lo, rk(nk)) ==> bst(w, lo, rk(minkv(r).0)))
    }
{
    if bst(r, rk(nk), HI()) && isn(r) {
        let s = setmin(r, nk, nv);
        let m = rk(minkv(r).0);
        lemma_setmin(r, rk(nk), HI(), nk, nv);
        lemma_min(r, rk(nk), HI());
        assert forall|x: int| #[trigger] at(r, x) is Some implies x >= m by { assert(has(r, x)); }
        assert forall|hi: int| #[trigger] bst(r, rk(nk), hi) implies bst(s, LO(), hi) by { lemma_setmin(r, rk(nk), hi, nk, nv); }
        assert forall|u: T, hi: int| del_b(s, u) && (#[trigger] del_at(s, u, rk(nk))) && (#[trigger] bst(r, rk(nk), hi)) implies bst(u, m, hi) by {
            assert(bst(s, LO(), hi));
            assert forall|x: int| has(u, x) implies m < x by { assert(kv(at(u, x)) == if x == rk(nk) { None } else { kv(at(s, x)) }); assert(kv(at(s, x)) is Some); assert(at(r, x) is Some); }
            lemma_bst_members(u, LO(), hi, m);
        }
        assert forall|w: T, lo: int| #[trigger] bst(w, lo, rk(nk)) implies bst(w, lo, m) by { lemma_bst_wide(w, lo, rk(nk), lo, m); }
    }
}

// what removal may be called on: a strict tree whose root or left child is red; or, on the way right
// after a rotation, a black root whose only red child is the right one
pub open spec fn delpre(t: T, y: int) -> bool {
    match t { T::L => false, T::N(l,a,k,v,c,h,r) =>
        (ll(t) && (c || red(*l)))
        || (ll(*l) && ll(*r) && bh(*l) == bh(*r) && !c && !red(*l) && red(*r) && y >= rk(k)) }
}

// ---- height ---------------------------------------------------------------------------------------
// the number of nodes on the longest way down
pub open spec fn ht(t: T) -> nat decreases t {
    match t { T::L => 0, T::N(l,a,k,v,c,h,r) => 1 + if ht(*l) > ht(*r) { ht(*l) } else { ht(*r) } }
}
pub open spec fn pw2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pw2((n - 1) as nat) } }
pub proof fn lemma_pw2(a: nat, b: nat) ensures pw2(a + b) == pw2(a) * pw2(b), a <= b ==> pw2(a) <= pw2(b) decreases a + b
{
    if a == 0 { lemma_pw2pos(b); assert(pw2(0) == 1); assert(pw2(a) * pw2(b) == pw2(b)) by (nonlinear_arith) requires pw2(a) == 1; }
    else {
        lemma_pw2((a - 1) as nat, b);
        let x = pw2((a - 1) as nat); let y = pw2(b);
        assert((a + b - 1) as nat == (a - 1) as nat + b);
        assert(pw2(a + b) == 2 * (x * y));
        assert(2 * (x * y) == (2 * x) * y) by (nonlinear_arith);
        if a <= b { lemma_pw2((a - 1) as nat, (b - 1) as nat); }
    }
}
pub proof fn lemma_pw2pos(b: nat) ensures pw2(b) >= 1 decreases b { if b > 0 { lemma_pw2pos((b - 1) as nat); } }
pub proof fn lemma_bhh(t: T) requires ll(t) ensures ht(t) <= 2 * bh(t) + if red(t) { 1nat } else { 0nat }, pw2(bh(t)) <= cnt(t) + 1 decreases t
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => { lemma_bhh(*l); lemma_bhh(*r); } }
}
// 2^height is at most the square of the number of entries plus one: height <= 2*log2(n+1)
pub open spec fn balanced(t: T) -> bool { pw2(ht(t)) <= (cnt(t) + 1) * (cnt(t) + 1) }
pub proof fn lemma_height(t: T) ensures ll(t) && !red(t) ==> balanced(t)
{
    if ll(t) && !red(t) {
        lemma_bhh(t);
        let b = bh(t);
        lemma_pw2(ht(t), 2 * b); lemma_pw2(b, b);
        let x = pw2(b); let n = cnt(t) + 1;
        assert(x * x <= n * n) by (nonlinear_arith) requires x <= n;
    }
}
