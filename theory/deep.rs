// ---- maps whose values are sequences ------------------------------------------------------------------
// Instance of the generic theory: V is Seq<I>.
#[verifier::external_body] pub struct I { _p: () }
// what a value is: the sequence's hash and its items
pub uninterp spec fn vs_h(v: V) -> H;
pub uninterp spec fn vs_s(v: V) -> Seq<I>;
pub uninterp spec fn mkv(h: H, s: Seq<I>) -> V;
pub uninterp spec fn chain(s: Seq<I>) -> H;
pub axiom fn ax_mkv(h: H, s: Seq<I>) ensures vs_h(mkv(h, s)) == h, vs_s(mkv(h, s)) == s;
pub broadcast proof fn ax_mkv_b(h: H, s: Seq<I>) ensures #![trigger mkv(h, s)] vs_h(mkv(h, s)) == h, vs_s(mkv(h, s)) == s { ax_mkv(h, s); }
// every value stored in t is a sequence whose hash is the chain of its items (what Seq's contracts keep)
pub open spec fn okv(o: Option<E>) -> bool { o matches Some(e) ==> vs_h(e.v) == chain(vs_s(e.v)) }
pub open spec fn allseq(t: T) -> bool { forall|y: int| okv(#[trigger] at(t, y)) }
// the items under the key at x; none if there is no such key
pub open spec fn items(t: T, x: int) -> Seq<I> { match at(t, x) { Some(e) => vs_s(e.v), None => Seq::empty() } }
// t2 is t with one more item at the end of x's sequence; every other key is as it was, with the value it had
pub open spec fn appended(t: T, t2: T, x: int, i: I) -> bool {
    &&& has(t2, x) && items(t2, x) == items(t, x).push(i)
    &&& forall|y: int| y != x ==> kv(#[trigger] at(t2, y)) == kv(at(t, y))
}
