// ---- paged collections: keys (user key, page), values sequences of items -----------------------------------------
// Instance of the generic theory: K is PagedKey, V is Seq<I>, the borrowed form of a key for prefix search is its
// user key (sort UK); for everything else it is the key itself.
#[verifier::external_body] pub struct UK { _p: () }
#[verifier::external_body] pub struct I { _p: () }
pub uninterp spec fn urk(q: UK) -> int;
pub uninterp spec fn pk(k: K) -> UK;
pub uninterp spec fn pn(k: K) -> int;
pub uninterp spec fn mkpk(q: UK, p: int) -> K;
pub uninterp spec fn SZ() -> int;
// lexicographic position of page p of a user key of rank x
pub open spec fn pos(x: int, p: int) -> int { 4294967296 * x + p }
pub open spec fn pgn(p: int) -> bool { 0 <= p <= 4294967295 }
// a struct value is its fields; the page size is at least one; keys are ordered by user key, then page (checked on the derived Ord)
pub axiom fn ax_mkpk(q: UK, p: int) ensures pgn(p) ==> pk(mkpk(q, p)) == q && pn(mkpk(q, p)) == p;
pub axiom fn ax_pk(k: K) ensures pgn(pn(k)), rk(k) == pos(urk(pk(k)), pn(k));
pub axiom fn ax_sz() ensures 0 < SZ() <= UMAX();
pub broadcast proof fn ax_mkpk_b(q: UK, p: int) ensures pgn(p) ==> pk(#[trigger] mkpk(q, p)) == q && pn(mkpk(q, p)) == p { ax_mkpk(q, p); }
pub broadcast proof fn ax_pk_b(k: K) ensures #![trigger rk(k)] #![trigger pk(k)] #![trigger pn(k)] pgn(pn(k)), rk(k) == pos(urk(pk(k)), pn(k)) { ax_pk(k); }
// ordering by position is ordering by user key, then page
pub proof fn lemma_lex(x: int, p: int, y: int, q: int)
    requires pgn(p), pgn(q)
    ensures pos(x, p) < pos(y, q) <==> (x < y || (x == y && p < q)), pos(x, p) == pos(y, q) <==> (x == y && p == q)
{}
// what a value is: the sequence's hash and its items
pub uninterp spec fn vs_h(v: V) -> H;
pub uninterp spec fn vs_s(v: V) -> Seq<I>;
pub uninterp spec fn mkv(h: H, s: Seq<I>) -> V;
pub uninterp spec fn chain(s: Seq<I>) -> H;
pub axiom fn ax_mkv(h: H, s: Seq<I>) ensures vs_h(mkv(h, s)) == h, vs_s(mkv(h, s)) == s;
pub axiom fn ax_eta(v: V) ensures mkv(vs_h(v), vs_s(v)) == v;
pub broadcast proof fn ax_mkv_b(h: H, s: Seq<I>) ensures #![trigger mkv(h, s)] vs_h(mkv(h, s)) == h, vs_s(mkv(h, s)) == s { ax_mkv(h, s); }
// Seq::root_hash (its contract, C12)
pub axiom fn ax_vsh(v: V) ensures vs_h(v) == chain(vs_s(v)) ==> vh(v) == chain(vs_s(v));
// the prefix relation between a user key and a page key (checked on the code of is_prefix)
pub open spec fn ubk(k: K) -> UK { pk(k) }
pub open spec fn uqk(k: K) -> int { urk(ubk(k)) }
pub open spec fn uisp(q: UK, k: K) -> bool { uqk(k) == urk(q) }
pub proof fn ax_uborrow(a: K, b: K) ensures rk(a) <= rk(b) ==> uqk(a) <= uqk(b) { ax_pk(a); ax_pk(b); lemma_lex(urk(pk(b)), pn(b), urk(pk(a)), pn(a)); }
pub proof fn ax_uisp(q: UK, a: K, b: K)
    ensures uisp(q, a) ==> uqk(a) >= urk(q), uqk(a) == urk(q) ==> uisp(q, a), uisp(q, a) && rk(b) <= rk(a) && uqk(b) >= urk(q) ==> uisp(q, b)
{ ax_uborrow(b, a); }
