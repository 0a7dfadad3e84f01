// ---- building a map from a sequence of bindings: the last value wins, the first key stays ------------------
pub open spec fn lastb(s: Seq<(K, V)>, x: int) -> Option<(K, V)> decreases s.len() {
    if s.len() == 0 { None } else {
        let p = lastb(s.drop_last(), x);
        let y = s.last();
        if rk(y.0) == x { Some((match p { Some(q) => q.0, None => y.0 }, y.1)) } else { p }
    }
}
pub proof fn lemma_lastb(s: Seq<(K, V)>, y: (K, V))
    ensures forall|x: int| #[trigger] lastb(s.push(y), x) == if rk(y.0) == x { Some((match lastb(s, x) { Some(q) => q.0, None => y.0 }, y.1)) } else { lastb(s, x) }
{ assert(s.push(y).drop_last() =~= s); }
pub open spec fn holds(t: T, s: Seq<(K, V)>) -> bool { forall|x: int| kv(#[trigger] at(t, x)) == lastb(s, x) }
pub proof fn lemma_lastb_in(s: Seq<(K, V)>, x: int)
    ensures lastb(s, x) matches Some(p) ==> rk(p.0) == x
    decreases s.len()
{ if s.len() > 0 { lemma_lastb_in(s.drop_last(), x); } }
pub proof fn lemma_lastb_incr(s: Seq<(K, V)>, i: int)
    requires incr(s), 0 <= i < s.len()
    ensures lastb(s, rk(s[i].0)) == Some(s[i])
    decreases s.len()
{
    let d = s.drop_last();
    assert(incr(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies rk((#[trigger] d[i]).0) < rk((#[trigger] d[j]).0) by { assert(d[i] == s[i] && d[j] == s[j]); } }
    if i < d.len() {
        assert(d[i] == s[i]);
        lemma_lastb_incr(d, i);
        assert(rk(s[i].0) < rk(s[s.len() - 1].0));
    } else {
        lemma_lastb_none(d, rk(s[i].0));
    }
}
pub proof fn lemma_lastb_none(s: Seq<(K, V)>, x: int)
    ensures (forall|i: int| 0 <= i < s.len() ==> rk((#[trigger] s[i]).0) != x) ==> lastb(s, x) is None
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_lastb_none(d, x);
        if forall|i: int| 0 <= i < s.len() ==> rk((#[trigger] s[i]).0) != x {
            assert forall|i: int| 0 <= i < d.len() implies rk((#[trigger] d[i]).0) != x by { assert(d[i] == s[i]); }
            assert(rk(s[s.len() - 1].0) != x);
        }
    }
}
// reading back what was written gives the same map
pub proof fn lemma_roundtrip(t: T, u: T)
    requires bst(t, LO(), HI()), holds(u, ents(t))
    ensures forall|x: int| kv(#[trigger] at(u, x)) == kv(at(t, x))
{
    lemma_ents(t, LO(), HI());
    let s = ents(t);
    assert forall|x: int| kv(#[trigger] at(u, x)) == kv(at(t, x)) by {
        if at(t, x) is Some {
            let i = choose|i: int| 0 <= i < s.len() && Some(#[trigger] s[i]) == kv(at(t, x));
            lemma_lastb_incr(s, i);
            lemma_at_bounds(t, LO(), HI(), x);
        } else {
            assert forall|i: int| 0 <= i < s.len() implies rk((#[trigger] s[i]).0) != x by { assert(kv(at(t, rk(s[i].0))) == Some(s[i])); }
            lemma_lastb_none(s, x);
        }
    }
}
// ---- a source of bindings: what it has handed out, what is still to come ---------------------------------------
#[verifier::external_body] pub struct IT { _p: () }
pub uninterp spec fn got(i: IT) -> Seq<(K, V)>;
pub uninterp spec fn todo(i: IT) -> Seq<(K, V)>;
pub open spec fn step(i: IT, j: IT) -> bool { todo(i).len() > 0 && got(j) == got(i).push(todo(i)[0]) && todo(j) == tail(todo(i)) }
pub proof fn lemma_step(i: IT, j: IT)
    ensures step(i, j) ==> got(j) + todo(j) =~= got(i) + todo(i) && todo(j).len() < todo(i).len() && (forall|x: int| #[trigger] lastb(got(j), x) == {
        let (s, y) = (got(i), todo(i)[0]);
        if rk(y.0) == x { Some((match lastb(s, x) { Some(q) => q.0, None => y.0 }, y.1)) } else { lastb(s, x) } }),
        todo(i).len() == 0 ==> got(i) + todo(i) =~= got(i)
{ if step(i, j) { lemma_lastb(got(i), todo(i)[0]); } }
pub proof fn lemma_got(i: IT) ensures got(i) == Seq::<(K, V)>::empty() ==> got(i) + todo(i) =~= todo(i), forall|x: int| lastb(Seq::<(K, V)>::empty(), x) is None {}
// the entries a deserializer holds
#[verifier::external_body] pub struct De { _p: () }
pub uninterp spec fn dsrc(d: De) -> Seq<(K, V)>;
// an error that the (de)serializer reported
pub uninterp spec fn given(e: SErr) -> bool;
// ---- a serializer for maps: the length announced, the entries given to it -----------------------------------------
#[verifier::external_body] pub struct Ser { _p: () }
#[verifier::external_body] pub struct SM { _p: () }
#[verifier::external_body] pub struct SOut { _p: () }
#[verifier::external_body] pub struct SErr { _p: () }
pub uninterp spec fn mlen(m: SM) -> Option<int>;
pub uninterp spec fn mlog(m: SM) -> Seq<(K, V)>;
pub uninterp spec fn mser(m: SM) -> Ser;
pub uninterp spec fn mpend(m: SM) -> Option<K>;
pub uninterp spec fn mapout(s: Ser, n: Option<int>, e: Seq<(K, V)>) -> SOut;
pub proof fn lemma_cat(s: Seq<(K, V)>, u: Seq<(K, V)>) ensures u.len() > 0 ==> s.push(u[0]) + tail(u) =~= s + u, u.len() == 0 ==> s + u =~= s, s.len() == 0 ==> s + u =~= u {}
