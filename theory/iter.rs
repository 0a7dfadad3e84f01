// ---- the entries in order ----------------------------------------------------------------------------
pub open spec fn ents(t: T) -> Seq<(K, V)> decreases t {
    match t { T::L => Seq::empty(), T::N(l,a,k,v,c,h,r) => ents(*l) + seq![(k, v)] + ents(*r) }
}
pub proof fn lemma_ents_len(t: T) ensures ents(t).len() == cnt(t) decreases t {
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => { lemma_ents_len(*l); lemma_ents_len(*r); } }
}
// they are sorted, lie within the bounds, and are exactly the bindings
pub open spec fn incr(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> rk((#[trigger] s[i]).0) < rk((#[trigger] s[j]).0) }
pub proof fn lemma_ents(t: T, lo: int, hi: int)
    requires bst(t, lo, hi)
    ensures incr(ents(t)), forall|i: int| 0 <= i < ents(t).len() ==> lo < rk((#[trigger] ents(t)[i]).0) < hi && kv(at(t, rk(ents(t)[i].0))) == Some(ents(t)[i]),
        forall|x: int| (#[trigger] at(t, x)) is Some ==> exists|i: int| 0 <= i < ents(t).len() && Some(#[trigger] ents(t)[i]) == kv(at(t, x)),
    decreases t
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        lemma_ents(*l, lo, rk(k)); lemma_ents(*r, rk(k), hi);
        let (s, p, q) = (ents(t), ents(*l), ents(*r));
        assert(s =~= p + seq![(k, v)] + q);
        assert forall|i: int| 0 <= i < s.len() implies lo < rk((#[trigger] s[i]).0) < hi && kv(at(t, rk(s[i].0))) == Some(s[i]) by {
            if i < p.len() { assert(s[i] == p[i]); } else if i > p.len() { assert(s[i] == q[i - p.len() - 1]); } else { assert(s[i] == (k, v)); }
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies rk((#[trigger] s[i]).0) < rk((#[trigger] s[j]).0) by {
            if j < p.len() { assert(s[i] == p[i] && s[j] == p[j]); }
            else if i > p.len() { assert(s[i] == q[i - p.len() - 1] && s[j] == q[j - p.len() - 1]); }
            else { if i < p.len() { assert(s[i] == p[i]); } if j > p.len() { assert(s[j] == q[j - p.len() - 1]); } }
        }
        assert forall|x: int| (#[trigger] at(t, x)) is Some implies exists|i: int| 0 <= i < s.len() && Some(#[trigger] s[i]) == kv(at(t, x)) by {
            if x < rk(k) { assert(at(*l, x) is Some); let i = choose|i: int| 0 <= i < p.len() && Some(#[trigger] p[i]) == kv(at(*l, x)); assert(s[i] == p[i]); }
            else if x > rk(k) { assert(at(*r, x) is Some); let i = choose|i: int| 0 <= i < q.len() && Some(#[trigger] q[i]) == kv(at(*r, x)); assert(s[i + p.len() + 1] == q[i]); }
            else { assert(s[p.len() as int] == (k, v)); }
        }
    } }
}
// a caller's visitor: its state after one call, after a sequence of calls
#[verifier::external_body] pub struct FM { _p: () }
pub uninterp spec fn fm(g: FM, k: K, v: V) -> FM;
pub open spec fn fms(g: FM, s: Seq<(K, V)>) -> FM decreases s.len() {
    if s.len() == 0 { g } else { fm(fms(g, s.drop_last()), s.last().0, s.last().1) }
}
pub proof fn lemma_fms_cat(g: FM, s: Seq<(K, V)>, u: Seq<(K, V)>)
    ensures fms(g, s + u) == fms(fms(g, s), u)
    decreases u.len()
{
    if u.len() == 0 { assert(s + u =~= s); } else {
        assert((s + u).drop_last() =~= s + u.drop_last());
        lemma_fms_cat(g, s, u.drop_last());
    }
}
pub proof fn lemma_fms(t: T)
    ensures t matches T::N(l,a,k,v,c,h,r) ==> (forall|g: FM| #[trigger] fms(g, ents(t)) == fms(fm(fms(g, ents(*l)), k, v), ents(*r))),
        t is L ==> (forall|g: FM| #[trigger] fms(g, ents(t)) == g)
{
    match t { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        assert forall|g: FM| #[trigger] fms(g, ents(t)) == fms(fm(fms(g, ents(*l)), k, v), ents(*r)) by {
            let s = ents(*l) + seq![(k, v)];
            lemma_fms_cat(g, s, ents(*r));
            assert(s.drop_last() =~= ents(*l));
            assert(ents(t) == s + ents(*r));
        }
    } }
}
// ---- the iterator: what is still to come, from its cursor and its stack ----------------------------------
pub open spec fn below(s: Seq<T>) -> Seq<(K, V)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        match s.last() { T::L => below(s.drop_last()), T::N(l,a,k,v,c,h,r) => seq![(k, v)] + ents(*r) + below(s.drop_last()) }
    }
}
pub open spec fn rest(u: T, s: Seq<T>) -> Seq<(K, V)> { ents(u) + below(s) }
pub open spec fn allnode(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is N }
pub proof fn lemma_below(s: Seq<T>)
    ensures s.len() == 0 ==> below(s) == Seq::<(K, V)>::empty(),
        s.len() > 0 && s.last() is N ==> below(s) == seq![(s.last()->N_2, s.last()->N_3)] + ents(tr(s.last())) + below(s.drop_last())
{}
pub proof fn lemma_push(u: T, s: Seq<T>)
    ensures u is N ==> rest(tl(u), s.push(u)) == rest(u, s), allnode(s) && u is N ==> allnode(s.push(u))
{
    match u { T::L => {}, T::N(l,a,k,v,c,h,r) => {
        lemma_below(s.push(u));
        assert(s.push(u).drop_last() =~= s);
        assert(rest(*l, s.push(u)) =~= rest(u, s));
    } }
}
pub proof fn lemma_pop(s: Seq<T>)
    ensures s.len() > 0 && s.last() is N ==> rest(T::L, s) == seq![(s.last()->N_2, s.last()->N_3)] + rest(tr(s.last()), s.drop_last()),
        rest(T::L, s) == below(s), s.len() == 0 ==> rest(T::L, s) == Seq::<(K, V)>::empty(), allnode(s) && s.len() > 0 ==> allnode(s.drop_last()),
        allnode(s) && s.len() > 0 ==> s.last() is N
{
    lemma_below(s);
    assert(rest(T::L, s) =~= below(s));
    if s.len() > 0 && s.last() is N {
        assert(below(s) =~= seq![(s.last()->N_2, s.last()->N_3)] + rest(tr(s.last()), s.drop_last()));
    }
}
pub open spec fn first(s: Seq<(K, V)>) -> Option<(K, V)> { if s.len() == 0 { None } else { Some(s[0]) } }
pub open spec fn tail(s: Seq<(K, V)>) -> Seq<(K, V)> { if s.len() == 0 { s } else { s.subrange(1, s.len() as int) } }
