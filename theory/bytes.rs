// ---- bytes and digests ---------------------------------------------------------------------
pub type B = Seq<u8>;
pub type H = Seq<u8>;
pub type Bs = Seq<Seq<u8>>;
#[verifier::external_body] pub struct K { _p: () }
#[verifier::external_body] pub struct V { _p: () }
#[verifier::external_body] pub struct Q { _p: () }
#[verifier::external_body] pub struct F { _p: () }
#[verifier::external_body] pub struct FL { _p: () }
pub type Nat = int;
pub uninterp spec fn UMAX() -> int;
pub axiom fn ax_umax() ensures UMAX() >= 4294967295;
// SHA-256 of a byte string: nothing is assumed about it
pub uninterp spec fn sha(b: B) -> H;
// the domain separators of the interface specification: one length byte, then the ASCII name
pub open spec fn sep_empty() -> B { seq![17u8, 105u8, 99u8, 45u8, 104u8, 97u8, 115u8, 104u8, 116u8, 114u8, 101u8, 101u8, 45u8, 101u8, 109u8, 112u8, 116u8, 121u8] }
pub open spec fn sep_fork() -> B { seq![16u8, 105u8, 99u8, 45u8, 104u8, 97u8, 115u8, 104u8, 116u8, 114u8, 101u8, 101u8, 45u8, 102u8, 111u8, 114u8, 107u8] }
pub open spec fn sep_lab() -> B { seq![19u8, 105u8, 99u8, 45u8, 104u8, 97u8, 115u8, 104u8, 116u8, 114u8, 101u8, 101u8, 45u8, 108u8, 97u8, 98u8, 101u8, 108u8, 101u8, 100u8] }
pub open spec fn sep_leaf() -> B { seq![16u8, 105u8, 99u8, 45u8, 104u8, 97u8, 115u8, 104u8, 116u8, 114u8, 101u8, 101u8, 45u8, 108u8, 101u8, 97u8, 102u8] }
pub open spec fn h_empty() -> H { sha(sep_empty()) }
pub open spec fn h_fork(a: H, b: H) -> H { sha(sep_fork() + a + b) }
pub open spec fn h_lab(l: B, h: H) -> H { sha(sep_lab() + l + h) }
pub open spec fn h_leaf(l: B) -> H { sha(sep_leaf() + l) }
pub enum HT { Empty, Fork(Box<HT>, Box<HT>), Labeled(B, Box<HT>), Leaf(B), Pruned(H) }
pub open spec fn recon(t: HT) -> H decreases t {
    match t {
        HT::Empty => h_empty(), HT::Fork(l, r) => h_fork(recon(*l), recon(*r)),
        HT::Labeled(b, u) => h_lab(b, recon(*u)), HT::Leaf(b) => h_leaf(b), HT::Pruned(h) => h,
    }
}
pub open spec fn sz(t: HT) -> nat decreases t {
    match t { HT::Fork(l, r) => 1 + sz(*l) + sz(*r), HT::Labeled(b, u) => 1 + sz(*u), _ => 1 }
}
// the labels and the leaves of a hash tree, in order
pub open spec fn labs(t: HT) -> Seq<B> decreases t {
    match t { HT::Fork(l, r) => labs(*l) + labs(*r), HT::Labeled(b, u) => seq![b] + labs(*u), _ => Seq::empty() }
}
pub open spec fn leaves(t: HT) -> Seq<B> decreases t {
    match t { HT::Fork(l, r) => leaves(*l) + leaves(*r), HT::Labeled(b, u) => leaves(*u), HT::Leaf(b) => seq![b], _ => Seq::empty() }
}
pub uninterp spec fn lb(k: K) -> B;
pub uninterp spec fn vh(v: V) -> H;
pub uninterp spec fn vt(v: V) -> HT;
pub axiom fn ax_vt(v: V) ensures recon(vt(v)) == vh(v);
pub uninterp spec fn rk(k: K) -> int;
pub uninterp spec fn bq(k: K) -> Q;
pub uninterp spec fn rq(q: Q) -> int;
pub open spec fn qk(k: K) -> int { rq(bq(k)) }

// ---- canonical bytes of values ---------------------------------------------------------------
// big-endian bytes of a number in [0, 256^w)
pub open spec fn be(n: int, w: nat) -> B decreases w {
    if w == 0 { Seq::empty() } else { be(n / 256, (w - 1) as nat).push((n % 256) as u8) }
}
pub open spec fn pow(w: nat) -> int decreases w { if w == 0 { 1 } else { 256 * pow((w - 1) as nat) } }
pub open spec fn rev(b: B) -> B { b.reverse() }
// two's complement
pub open spec fn tc(n: int, w: nat) -> int { if n < 0 { n + pow(w) } else { n } }
pub open spec fn boolb(b: bool) -> B { if b { seq![1u8] } else { seq![0u8] } }
// bytes of an arbitrarily large natural number; of a floating-point number
pub uninterp spec fn natb(n: int) -> B;
pub uninterp spec fn flb(f: FL, w: nat) -> B;
pub open spec fn starts(x: B, p: B) -> bool { p.len() <= x.len() && x.subrange(0, p.len() as int) == p }

// ---- order of byte strings -------------------------------------------------------------------
pub open spec fn lex(a: B, b: B) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { a[0] < b[0] } else { lex(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub proof fn lemma_be_len(n: int, w: nat) ensures be(n, w).len() == w decreases w { if w > 0 { lemma_be_len(n / 256, (w - 1) as nat); } }
pub proof fn lemma_pow(w: nat) ensures pow(w) > 0 decreases w { if w > 0 { lemma_pow((w - 1) as nat); } }
// lex on strings of equal length decides by the front part first
pub proof fn lemma_lex_push(a: B, b: B, x: u8, y: u8)
    requires a.len() == b.len()
    ensures lex(a.push(x), b.push(y)) == (lex(a, b) || (a == b && x < y))
    decreases a.len()
{
    let (p, q) = (a.push(x), b.push(y));
    if a.len() == 0 {
        assert(a =~= b);
        assert(p.subrange(1, p.len() as int) =~= Seq::<u8>::empty());
        assert(q.subrange(1, q.len() as int) =~= Seq::<u8>::empty());
        assert(p[0] == x && q[0] == y);
        assert(!lex(Seq::<u8>::empty(), Seq::<u8>::empty()));
    } else {
        let (a1, b1) = (a.subrange(1, a.len() as int), b.subrange(1, b.len() as int));
        assert(p.subrange(1, p.len() as int) =~= a1.push(x));
        assert(q.subrange(1, q.len() as int) =~= b1.push(y));
        lemma_lex_push(a1, b1, x, y);
        assert(p[0] == a[0] && q[0] == b[0]);
        if a[0] == b[0] {
            assert(a == b <==> a1 == b1) by {
                if a1 == b1 { assert(a =~= seq![a[0]] + a1); assert(b =~= seq![b[0]] + b1); }
            }
        }
    }
}
// big-endian labels of unsigned numbers are injective and sort like the numbers
pub proof fn lemma_be_order(a: int, b: int, w: nat)
    requires 0 <= a < pow(w), 0 <= b < pow(w)
    ensures lex(be(a, w), be(b, w)) == (a < b), (be(a, w) == be(b, w)) == (a == b)
    decreases w
{
    if w > 0 {
        let v = (w - 1) as nat;
        let (a1, b1, x, y) = (a / 256, b / 256, (a % 256) as u8, (b % 256) as u8);
        assert(0 <= a1 < pow(v) && 0 <= b1 < pow(v)) by (nonlinear_arith) requires 0 <= a < 256 * pow(v), 0 <= b < 256 * pow(v), a1 == a / 256, b1 == b / 256;
        lemma_be_order(a1, b1, v);
        lemma_be_len(a1, v); lemma_be_len(b1, v);
        lemma_lex_push(be(a1, v), be(b1, v), x, y);
        assert(be(a, w) == be(b, w) <==> be(a1, v) == be(b1, v) && x == y) by {
            if be(a, w) == be(b, w) {
                assert(be(a, w).drop_last() =~= be(a1, v)); assert(be(b, w).drop_last() =~= be(b1, v));
                assert(be(a, w).last() == x && be(b, w).last() == y);
            }
        }
    }
}
// big-endian labels of signed numbers are injective (their order is a known finding)
pub proof fn lemma_tc_inj(a: int, b: int, w: nat)
    requires w > 0, -pow(w) <= 2 * a < pow(w), -pow(w) <= 2 * b < pow(w)
    ensures (be(tc(a, w), w) == be(tc(b, w), w)) == (a == b)
{
    lemma_pow(w);
    lemma_be_order(tc(a, w), tc(b, w), w);
}
pub proof fn lemma_bool_order(a: bool, b: bool)
    ensures lex(boolb(a), boolb(b)) == (!a && b), (boolb(a) == boolb(b)) == (a == b)
{
    assert(boolb(a)[0] == if a { 1u8 } else { 0u8 }); assert(boolb(b)[0] == if b { 1u8 } else { 0u8 });
    assert(boolb(a).subrange(1, 1) =~= Seq::<u8>::empty()); assert(boolb(b).subrange(1, 1) =~= Seq::<u8>::empty());
    assert(!lex(Seq::<u8>::empty(), Seq::<u8>::empty()));
}
// a root hash and the tree it stands for agree for every leaf
pub proof fn lemma_leaf(b: B) ensures recon(HT::Leaf(b)) == h_leaf(b) {}

// ---- serialized form ---------------------------------------------------------------------------
#[verifier::external_body] pub struct Ser { _p: () }
#[verifier::external_body] pub struct SOut { _p: () }
#[verifier::external_body] pub struct SErr { _p: () }
// a value in the serializer's data model; a sequence carries the length announced for it
pub enum Doc { U8(int), Bytes(B), Ints(B), Seq(Option<int>, Seq<Doc>), Val(V), Key(K), Tuple(Seq<Doc>) }
pub uninterp spec fn emitted(s: Ser, d: Doc) -> SOut;
pub open spec fn doc(t: HT) -> Doc decreases t {
    match t {
        HT::Empty => Doc::Seq(Some(1), seq![Doc::U8(0)]),
        HT::Fork(l, r) => Doc::Seq(Some(3), seq![Doc::U8(1), doc(*l), doc(*r)]),
        HT::Labeled(b, u) => Doc::Seq(Some(3), seq![Doc::U8(2), Doc::Bytes(b), doc(*u)]),
        HT::Leaf(b) => Doc::Seq(Some(2), seq![Doc::U8(3), Doc::Bytes(b)]),
        HT::Pruned(h) => Doc::Seq(Some(2), seq![Doc::U8(4), Doc::Bytes(h)]),
    }
}
