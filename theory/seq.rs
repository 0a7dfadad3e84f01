// ---- a sequence: its items and the hash chain over them ---------------------------------------------------------
#[verifier::external_body] pub struct I { _p: () }
// the root hash of an item
pub uninterp spec fn ih(i: I) -> H;
pub uninterp spec fn it(i: I) -> HT;
pub open spec fn zero32() -> H { Seq::new(32, |i: int| 0u8) }
pub open spec fn link(h: H, i: I) -> H { sha(h + ih(i)) }
pub open spec fn chain(s: Seq<I>) -> H decreases s.len() { if s.len() == 0 { zero32() } else { link(chain(s.drop_last()), s.last()) } }
pub proof fn lemma_chain(s: Seq<I>, x: I) ensures chain(s.push(x)) == link(chain(s), x), chain(Seq::empty()) == zero32()
{ assert(s.push(x).drop_last() =~= s); }
// the items in front of position k, when the one at k is taken
pub proof fn lemma_prefix(s: Seq<I>, k: int)
    ensures 0 <= k < s.len() ==> chain(s.subrange(0, k + 1)) == link(chain(s.subrange(0, k)), s[k]) && s.subrange(k, s.len() as int)[0] == s[k]
            && s.subrange(k, s.len() as int).subrange(1, s.len() - k) =~= s.subrange(k + 1, s.len() as int),
        s.subrange(0, s.len() as int) =~= s, s.subrange(0, 0) =~= Seq::empty(), chain(s.subrange(0, 0)) == zero32()
{
    if 0 <= k < s.len() { assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k])); lemma_chain(s.subrange(0, k), s[k]); }
    assert(s.subrange(0, 0) =~= Seq::empty());
}
pub proof fn lemma_ext(s: Seq<I>, u: Seq<I>) ensures (s + u).subrange(0, s.len() as int) =~= s {}
// appending one by one is the same as chaining over the whole
pub open spec fn fold(h: H, u: Seq<I>) -> H decreases u.len() { if u.len() == 0 { h } else { link(fold(h, u.drop_last()), u.last()) } }
pub proof fn lemma_fold(s: Seq<I>, u: Seq<I>) ensures chain(s + u) == fold(chain(s), u) decreases u.len()
{
    if u.len() == 0 { assert(s + u =~= s); } else { lemma_fold(s, u.drop_last()); assert((s + u).drop_last() =~= s + u.drop_last()); assert((s + u).last() == u.last()); }
}
pub proof fn lemma_foldtail(s: Seq<I>, a: int) ensures 0 <= a <= s.len() ==> chain(s) == fold(chain(s.subrange(0, a)), s.subrange(a, s.len() as int)), chain(s) == fold(zero32(), s)
{
    if 0 <= a <= s.len() { lemma_fold(s.subrange(0, a), s.subrange(a, s.len() as int)); assert(s.subrange(0, a) + s.subrange(a, s.len() as int) =~= s); }
    lemma_fold(Seq::empty(), s); assert(Seq::<I>::empty() + s =~= s);
}
pub proof fn lemma_appendstep(s: Seq<I>, u: Seq<I>, k: int)
    ensures u.subrange(0, u.len() as int) =~= u, s + u.subrange(0, 0) =~= s,
        0 <= k < u.len() ==> (s + u.subrange(0, k)).push(u[k]) =~= s + u.subrange(0, k + 1) && u.subrange(k, u.len() as int)[0] == u[k]
            && u.subrange(k, u.len() as int).subrange(1, u.len() - k) =~= u.subrange(k + 1, u.len() as int)
            && chain(s + u.subrange(0, k + 1)) == link(chain(s + u.subrange(0, k)), u[k])
{
    if 0 <= k < u.len() { lemma_chain(s + u.subrange(0, k), u[k]); assert((s + u.subrange(0, k)).push(u[k]) =~= s + u.subrange(0, k + 1)); }
}
// equality of the items, as their type defines it; a lawful one does not tell equal items apart
pub uninterp spec fn veq(a: Seq<I>, b: Seq<I>) -> bool;
// how the items as a list are (de)serialized
#[verifier::external_body] pub struct De { _p: () }
pub uninterp spec fn vser(s: Seq<I>, r: Ser) -> Result<SOut, SErr>;
pub uninterp spec fn vidl(s: Seq<I>, r: Ser) -> Result<SOut, SErr>;
pub uninterp spec fn vde(d: De) -> Result<Seq<I>, SErr>;
pub uninterp spec fn vix(s: Seq<I>, i: Ix) -> IxOut;
// an index and what it selects, as the standard library defines them
#[verifier::external_body] pub struct Ix { _p: () }
#[verifier::external_body] pub struct IxOut { _p: () }
