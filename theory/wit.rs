// ---- what a witness discloses ------------------------------------------------------------------
// A hash tree is read as the sequence of what it shows, in order: labelled entries, and gaps where
// something is pruned away.  Adjacent gaps are one gap.
pub enum It { Gap, Lab(B, HT), Raw(B) }
pub open spec fn m2(a: Seq<It>, b: Seq<It>) -> Seq<It> {
    if a.len() > 0 && b.len() > 0 && a[a.len() - 1] is Gap && b[0] is Gap { a + b.subrange(1, b.len() as int) } else { a + b }
}
pub open spec fn m3(a: Seq<It>, b: Seq<It>, c: Seq<It>) -> Seq<It> { m2(a, m2(b, c)) }
pub open spec fn gap() -> Seq<It> { seq![It::Gap] }
pub open spec fn nil() -> Seq<It> { Seq::<It>::empty() }
pub open spec fn view(t: HT) -> Seq<It> decreases t {
    match t {
        HT::Empty => nil(), HT::Fork(l, r) => m2(view(*l), view(*r)), HT::Labeled(b, u) => seq![It::Lab(b, *u)],
        HT::Leaf(b) => seq![It::Raw(b)], HT::Pruned(h) => gap(),
    }
}
pub open spec fn emp(t: HT) -> bool { t is Empty }
// digest of three parts of which the outer ones may be missing
pub open spec fn fork3(el: bool, er: bool, a: H, b: H, c: H) -> H {
    if el { if er { b } else { h_fork(b, c) } } else { if er { h_fork(a, b) } else { h_fork(a, h_fork(b, c)) } }
}

// bounds of a range, and the way values are shown
pub enum KB { Exact(K), Neighbor(K) }
pub enum FT { Data, Wit }
pub open spec fn kbk(b: KB) -> K { match b { KB::Exact(k) => k, KB::Neighbor(k) => k } }
pub open spec fn fnode(f: FT, k: K, v: V) -> HT {
    match f { FT::Data => HT::Labeled(lb(k), Box::new(vt(v))), FT::Wit => HT::Labeled(lb(k), Box::new(HT::Pruned(vh(v)))) }
}
// a caller's function from a value to its witness
pub uninterp spec fn fv(f: F, v: V) -> HT;
// what is asked for
pub enum Sel { R(Option<KB>, Option<KB>, FT), One(int, F) }
// what is to be seen of the entry (k, v)
pub open spec fn see(s: Sel, k: K, v: V) -> Seq<It> {
    match s {
        Sel::R(lo, hi, f) => {
            let below = lo matches Some(b) && rk(k) < rk(kbk(b));
            let above = hi matches Some(b) && rk(k) > rk(kbk(b));
            let exact = (lo matches Some(KB::Exact(x)) && rk(x) == rk(k)) || (hi matches Some(KB::Exact(x)) && rk(x) == rk(k));
            let border = (lo matches Some(KB::Neighbor(x)) && rk(x) == rk(k)) || (hi matches Some(KB::Neighbor(x)) && rk(x) == rk(k));
            if below || above { gap() } else if border && !exact { view(fnode(FT::Wit, k, v)) } else { view(fnode(f, k, v)) }
        },
        Sel::One(x, f) => if rk(k) == x { seq![It::Lab(lb(k), fv(f, v))] } else { gap() },
    }
}
// the entries of the tree in key order, each as it is to be seen
pub open spec fn seen(t: T, s: Sel) -> Seq<It> decreases t {
    match t { T::L => nil(), T::N(l,a,k,v,c,h,r) => m3(seen(*l, s), see(s, k, v), seen(*r, s)) }
}
pub open spec fn allgap(t: T) -> Seq<It> { if t is L { nil() } else { gap() } }
pub proof fn lemma_m()
    ensures forall|a: Seq<It>| #[trigger] m2(a, nil()) == a, forall|a: Seq<It>| #[trigger] m2(nil(), a) == a, m2(gap(), gap()) == gap(),
        forall|a: Seq<It>| #[trigger] m2(m2(a, gap()), gap()) == m2(a, gap()),
{
    assert forall|a: Seq<It>| #[trigger] m2(a, nil()) == a by { assert(m2(a, nil()) =~= a); }
    assert forall|a: Seq<It>| #[trigger] m2(nil(), a) == a by { assert(m2(nil(), a) =~= a); }
    assert(m2(gap(), gap()) =~= gap());
    assert forall|a: Seq<It>| #[trigger] m2(m2(a, gap()), gap()) == m2(a, gap()) by { assert(m2(m2(a, gap()), gap()) =~= m2(a, gap())); }
}
// nothing of a subtree is seen when all its keys are outside
pub open spec fn hid(s: Sel, x: int) -> bool {
    match s { Sel::R(lo, hi, f) => (lo matches Some(b) && x < rk(kbk(b))) || (hi matches Some(b) && x > rk(kbk(b))), Sel::One(y, f) => x != y }
}
pub proof fn lemma_hidden(t: T, s: Sel, lo: int, hi: int)
    requires bst(t, lo, hi), forall|x: int| lo < x < hi ==> hid(s, x)
    ensures seen(t, s) == allgap(t)
    decreases t
{
    lemma_m();
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        lemma_hidden(*l, s, lo, rk(k)); lemma_hidden(*r, s, rk(k), hi);
        assert(hid(s, rk(k)));
        assert(see(s, k, v) == gap());
    } }
}
// ranges: what lies beyond a border is hidden
pub open spec fn lohid(s: Sel, x: int) -> bool { match s { Sel::R(Some(b), _, f) => x <= rk(kbk(b)), Sel::One(y, f) => x <= y, _ => false } }
pub open spec fn hihid(s: Sel, x: int) -> bool { match s { Sel::R(_, Some(b), f) => x >= rk(kbk(b)), Sel::One(y, f) => x >= y, _ => false } }
pub proof fn lemma_hid(t: T, s: Sel)
    ensures forall|lo: int, hi: int| #![trigger bst(t, lo, hi)] bst(t, lo, hi) && (lohid(s, hi) || hihid(s, lo)) ==> seen(t, s) == allgap(t)
{
    assert forall|lo: int, hi: int| #![trigger bst(t, lo, hi)] bst(t, lo, hi) && (lohid(s, hi) || hihid(s, lo)) implies seen(t, s) == allgap(t) by {
        lemma_hidden(t, s, lo, hi);
    }
}
// widening a range to the right or left of everything in the subtree changes nothing
pub open spec fn same_see(s: Sel, u: Sel, x: int) -> bool {
    forall|k: K, v: V| rk(k) == x ==> #[trigger] see(s, k, v) == see(u, k, v)
}
pub proof fn lemma_seen_eq(t: T, s: Sel, u: Sel, lo: int, hi: int)
    requires bst(t, lo, hi), forall|x: int| lo < x < hi ==> #[trigger] same_see(s, u, x)
    ensures seen(t, s) == seen(t, u)
    decreases t
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        lemma_seen_eq(*l, s, u, lo, rk(k)); lemma_seen_eq(*r, s, u, rk(k), hi);
        assert(same_see(s, u, rk(k)));
        assert(see(s, k, v) == see(u, k, v));
    } }
}
// a border that lies beyond the subtree may be dropped
pub proof fn lemma_nolo(t: T, lo: Option<KB>, hi: Option<KB>, f: FT)
    ensures forall|a: int, b: int| #![trigger bst(t, a, b)] bst(t, a, b) && (lo matches Some(x) && a >= rk(kbk(x))) ==> seen(t, Sel::R(lo, hi, f)) == seen(t, Sel::R(None, hi, f))
{
    assert forall|a: int, b: int| #![trigger bst(t, a, b)] bst(t, a, b) && (lo matches Some(x) && a >= rk(kbk(x))) implies seen(t, Sel::R(lo, hi, f)) == seen(t, Sel::R(None, hi, f)) by {
        lemma_seen_eq(t, Sel::R(lo, hi, f), Sel::R(None, hi, f), a, b);
    }
}
pub proof fn lemma_nohi(t: T, lo: Option<KB>, hi: Option<KB>, f: FT)
    ensures forall|a: int, b: int| #![trigger bst(t, a, b)] bst(t, a, b) && (hi matches Some(x) && b <= rk(kbk(x))) ==> seen(t, Sel::R(lo, hi, f)) == seen(t, Sel::R(lo, None, f))
{
    assert forall|a: int, b: int| #![trigger bst(t, a, b)] bst(t, a, b) && (hi matches Some(x) && b <= rk(kbk(x))) implies seen(t, Sel::R(lo, hi, f)) == seen(t, Sel::R(lo, None, f)) by {
        lemma_seen_eq(t, Sel::R(lo, hi, f), Sel::R(lo, None, f), a, b);
    }
}
pub broadcast proof fn ax_vt_b(v: V) ensures recon(#[trigger] vt(v)) == vh(v) { ax_vt(v); }
pub proof fn unfs(t: T, s: Sel)
    ensures t matches T::N(l,a,k,v,c,h,r) ==> seen(t, s) == m3(seen(*l, s), see(s, k, v), seen(*r, s)), t is L ==> seen(t, s) == nil()
{}

// ---- borders: borrowed forms --------------------------------------------------------------------
// K: Borrow<Q>, lawful: the borrowed form keeps the order (several keys may borrow to one prefix)
pub open spec fn qk(k: K) -> int { rq(bq(k)) }
pub axiom fn ax_borrow(a: K, b: K) ensures rk(a) <= rk(b) ==> qk(a) <= qk(b);
// an ordinary borrowed form tells keys apart exactly as the keys themselves
pub axiom fn ax_exact(a: K) ensures qk(a) == rk(a);
pub broadcast proof fn ax_exact_b(a: K) ensures rq(#[trigger] bq(a)) == rk(a) { ax_exact(a); }
// Prefix<P>: the keys with a prefix are a run of keys starting at the first key that is not below the prefix
pub uninterp spec fn isp(q: Q, k: K) -> bool;
pub axiom fn ax_isp(q: Q, a: K, b: K)
    ensures isp(q, a) ==> qk(a) >= rq(q), qk(a) == rq(q) ==> isp(q, a),
        isp(q, a) && rk(b) <= rk(a) && qk(b) >= rq(q) ==> isp(q, b);
pub broadcast proof fn ax_borrow_b(a: K, b: K) ensures #![trigger bq(a), bq(b)] rk(a) <= rk(b) ==> qk(a) <= qk(b) { ax_borrow(a, b); }
pub broadcast proof fn ax_isp_b(q: Q, a: K, b: K)
    ensures #![trigger isp(q, a), isp(q, b)] isp(q, a) ==> qk(a) >= rq(q), qk(a) == rq(q) ==> isp(q, a), isp(q, a) && rk(b) <= rk(a) && qk(b) >= rq(q) ==> isp(q, b)
{ ax_isp(q, a, b); }
// the value itself as its witness
pub uninterp spec fn ALLV() -> F;
pub axiom fn ax_allv(v: V) ensures fv(ALLV(), v) == vt(v);
// k is a key of t
pub open spec fn ke(t: T, x: int) -> K { at(t, x)->Some_0.k }
pub open spec fn inn(t: T, k: K) -> bool { at(t, rk(k)) is Some && ke(t, rk(k)) == k }
// lower border for q: the first key equal to q, or else the greatest key below it
pub open spec fn is_lo(t: T, q: int, b: Option<KB>) -> bool {
    match b {
        None => forall|x: int| (#[trigger] at(t, x)) is Some ==> qk(ke(t, x)) > q,
        Some(KB::Exact(k)) => inn(t, k) && qk(k) == q && forall|x: int| (#[trigger] at(t, x)) is Some && x < rk(k) ==> qk(ke(t, x)) < q,
        Some(KB::Neighbor(k)) => inn(t, k) && qk(k) < q && forall|x: int| (#[trigger] at(t, x)) is Some && x > rk(k) ==> qk(ke(t, x)) > q,
    }
}
// upper border for the exact key q
pub open spec fn is_hi(t: T, q: int, b: Option<KB>) -> bool {
    match b {
        None => forall|x: int| (#[trigger] at(t, x)) is Some ==> x < q,
        Some(KB::Exact(k)) => inn(t, k) && rk(k) == q,
        Some(KB::Neighbor(k)) => inn(t, k) && rk(k) > q && forall|x: int| (#[trigger] at(t, x)) is Some && x < rk(k) ==> x < q,
    }
}
// upper border of the keys with prefix q: the first key above q that does not start with it
pub open spec fn is_phi(t: T, q: Q, b: Option<KB>) -> bool {
    match b {
        None => forall|x: int| (#[trigger] at(t, x)) is Some && qk(ke(t, x)) >= rq(q) ==> isp(q, ke(t, x)),
        Some(KB::Exact(k)) => false,
        Some(KB::Neighbor(k)) => inn(t, k) && qk(k) > rq(q) && !isp(q, k) && forall|x: int| (#[trigger] at(t, x)) is Some && x < rk(k) && qk(ke(t, x)) >= rq(q) ==> isp(q, ke(t, x)),
    }
}
// a function that shows every value by its own hash tree
pub open spec fn asis(f: F) -> bool { forall|v: V| #[trigger] fv(f, v) == vt(v) }
pub proof fn lemma_fn(t: T, x: int, f: F)
    requires asis(f)
    ensures seen(t, Sel::One(x, f)) == seen(t, Sel::One(x, ALLV()))
    decreases t
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => { lemma_fn(*l, x, f); lemma_fn(*r, x, f); assert(fv(f, v) == vt(v)); ax_allv(v); } }
}
pub proof fn lemma_fns(t: T, x: int)
    ensures forall|f: F| asis(f) ==> #[trigger] seen(t, Sel::One(x, f)) == seen(t, Sel::One(x, ALLV()))
{
    assert forall|f: F| asis(f) implies #[trigger] seen(t, Sel::One(x, f)) == seen(t, Sel::One(x, ALLV())) by { lemma_fn(t, x, f); }
}
