// ---- the tree represents m: user key (by rank) -> all its items, in pages of SZ() ------------------------------------
pub type M = spec_fn(int) -> Seq<I>;
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn page(s: Seq<I>, p: int) -> Option<Seq<I>> {
    if 0 <= p && p * SZ() < s.len() { Some(s.subrange(p * SZ(), imin((p + 1) * SZ(), s.len() as int))) } else { None }
}
pub open spec fn pval(o: Option<E>) -> Option<Seq<I>> { match o { None => None, Some(e) => Some(vs_s(e.v)) } }
pub open spec fn okv(o: Option<E>) -> bool { o matches Some(e) ==> vs_h(e.v) == chain(vs_s(e.v)) }
pub open spec fn CAP() -> int { 4294967295 * SZ() }
pub open spec fn rep(t: T, m: M) -> bool {
    &&& forall|x: int, p: int| #![trigger at(t, pos(x, p))] pgn(p) ==> pval(at(t, pos(x, p))) == page(m(x), p) && okv(at(t, pos(x, p)))
    &&& forall|x: int| (#[trigger] m(x)).len() <= CAP()
}
pub open spec fn upd(m: M, x: int, s: Seq<I>) -> M { |y: int| if y == x { s } else { m(y) } }
pub open spec fn lastpage(s: Seq<I>) -> Option<int> { if s.len() == 0 { None } else { Some((s.len() - 1) / SZ()) } }
pub proof fn lemma_arith(n: int, p: int)
    ensures p * SZ() < n <= (p + 1) * SZ() && p >= 0 ==> p == (n - 1) / SZ(), (p + 1) * SZ() == p * SZ() + SZ(), SZ() > 0, 0 * SZ() == 0,
        p * SZ() < 4294967295 * SZ() ==> p < 4294967295
{
    ax_sz();
    assert((p + 1) * SZ() == p * SZ() + SZ()) by (nonlinear_arith);
    if p * SZ() < n <= (p + 1) * SZ() && p >= 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, SZ(), p, n - 1 - p * SZ());
    }
    if p * SZ() < 4294967295 * SZ() { assert(p < 4294967295) by (nonlinear_arith) requires p * SZ() < 4294967295 * SZ(), SZ() > 0; }
}
// the greatest entry with user key q is its last page
pub proof fn lemma_last(t: T, m: M, q: UK)
    requires bst(t, LO(), HI()), rep(t, m)
    ensures ({
        let s = m(urk(q));
        match upmax(t, q) {
            None => s.len() == 0,
            Some(e) => {
                let p = pn(e.k);
                &&& at(t, rk(e.k)) == Some(e) && rk(e.k) == pos(urk(q), p) && urk(pk(e.k)) == urk(q) && 0 <= p < 4294967295
                &&& p * SZ() < s.len() <= (p + 1) * SZ() && vs_s(e.v) == s.subrange(p * SZ(), s.len() as int) && vs_h(e.v) == chain(vs_s(e.v))
                &&& lastpage(s) == Some(p)
                &&& at(t, pos(urk(q), p + 1)) is None
            }
        }
    })
{
    let x = urk(q);
    let s = m(x);
    lemma_upmax(t, q, LO(), HI());
    ax_sz();
    match upmax(t, q) {
        None => {
            let o = at(t, pos(x, 0));
            lemma_arith(s.len() as int, 0);
            if o is Some {
                lemma_at_bounds(t, LO(), HI(), pos(x, 0));
                let k = o->Some_0.k;
                ax_pk(k);
                lemma_lex(urk(pk(k)), pn(k), x, 0);
                assert(uisp(q, k));
            }
            assert(page(s, 0) is None);
        },
        Some(e) => {
            let p = pn(e.k);
            ax_pk(e.k);
            assert(at(t, pos(x, p)) == Some(e));
            lemma_arith(s.len() as int, p);
            assert(page(s, p) is Some);
            assert(m(x).len() <= CAP());
            assert(p < 4294967295);
            lemma_arith(s.len() as int, p + 1);
            let o = at(t, pos(x, p + 1));
            if o is Some {
                lemma_at_bounds(t, LO(), HI(), pos(x, p + 1));
                let k = o->Some_0.k;
                ax_pk(k);
                lemma_lex(urk(pk(k)), pn(k), x, p + 1);
                assert(uisp(q, k));
            }
            assert(page(s, p + 1) is None);
        }
    }
}
// one item more: the last page grows by it, or there is a new page with just it
pub proof fn lemma_grow(t: T, t2: T, m: M, q: UK, i: I, p: int)
    ensures rep(t, m) && m(urk(q)).len() < CAP() && pgn(p) && ({
            let (x, s) = (urk(q), m(urk(q)));
            let u = s.push(i);
            &&& p * SZ() <= s.len() < (p + 1) * SZ()
            &&& (forall|y: int| y != pos(x, p) ==> #[trigger] at(t2, y) == at(t, y))
            &&& (at(t2, pos(x, p)) matches Some(e) && vs_s(e.v) == s.subrange(p * SZ(), s.len() as int).push(i) && vs_h(e.v) == chain(vs_s(e.v)))
        }) ==> rep(t2, upd(m, urk(q), m(urk(q)).push(i)))
{
    let (x, s) = (urk(q), m(urk(q)));
    let u = s.push(i);
    let m2 = upd(m, x, u);
    if rep(t, m) && m(urk(q)).len() < CAP() && pgn(p) && p * SZ() <= s.len() < (p + 1) * SZ()
        && (forall|y: int| y != pos(x, p) ==> #[trigger] at(t2, y) == at(t, y))
        && (at(t2, pos(x, p)) matches Some(e) && vs_s(e.v) == s.subrange(p * SZ(), s.len() as int).push(i) && vs_h(e.v) == chain(vs_s(e.v)))
    {
        assert forall|y: int, r: int| #![trigger at(t2, pos(y, r))] pgn(r) implies pval(at(t2, pos(y, r))) == page(m2(y), r) && okv(at(t2, pos(y, r))) by {
            lemma_lex(y, r, x, p);
            lemma_arith(s.len() as int, p);
            lemma_arith(s.len() as int, r);
            if y == x && r == p {
                assert(u.subrange(p * SZ(), u.len() as int) =~= s.subrange(p * SZ(), s.len() as int).push(i));
            } else {
                assert(pval(at(t, pos(y, r))) == page(m(y), r));
                if y == x {
                    if r < p {
                        assert((r + 1) * SZ() <= p * SZ()) by (nonlinear_arith) requires r + 1 <= p, SZ() > 0;
                        assert(u.subrange(r * SZ(), (r + 1) * SZ()) =~= s.subrange(r * SZ(), (r + 1) * SZ()));
                    } else {
                        assert(r * SZ() >= (p + 1) * SZ()) by (nonlinear_arith) requires r >= p + 1, SZ() > 0;
                    }
                }
            }
        }
    }
}
pub open spec fn nom() -> M { |x: int| Seq::<I>::empty() }
pub proof fn lemma_empty() ensures forall|t: T| t is L ==> #[trigger] rep(t, nom())
{
    ax_sz();
    assert forall|t: T| t is L implies #[trigger] rep(t, nom()) by {
        let m = nom();
        assert forall|x: int, p: int| #![trigger at(t, pos(x, p))] pgn(p) implies pval(at(t, pos(x, p))) == page(m(x), p) && okv(at(t, pos(x, p))) by {
            assert(p * SZ() >= 0) by (nonlinear_arith) requires p >= 0, SZ() > 0;
        }
        assert(0 <= 4294967295 * SZ());
    }
}
// insertion, in the two ways it may go: the last page takes the item, or a new page does
pub proof fn lemma_ins(t: T, m: M, q: UK, i: I)
    ensures bst(t, LO(), HI()) && rep(t, m) && m(urk(q)).len() < CAP() ==> {
        let (x, s) = (urk(q), m(urk(q)));
        let g = upd(m, x, s.push(i));
        &&& (forall|t2: T, nv: V| #[trigger] umodp(t, t2, q, nv) && (upmax(t, q) matches Some(e) && vs_s(e.v).len() < SZ() && vs_s(nv) == vs_s(e.v).push(i)) && vs_h(nv) == chain(vs_s(nv)) ==> rep(t2, g))
        &&& (upmax(t, q) matches Some(e) ==> 0 < vs_s(e.v).len() <= SZ())
        &&& (forall|t2: T, k: K, v: V, a: int| #[trigger] ins_map(t, t2, k, v, a) && urk(pk(k)) == x && vs_s(v) == Seq::<I>::empty().push(i) && vs_h(v) == chain(vs_s(v))
                && (match upmax(t, q) { None => pn(k) == 0, Some(e) => vs_s(e.v).len() == SZ() && pn(k) == pn(e.k) + 1 }) ==> rep(t2, g))
        &&& (forall|t1: T, t2: T, k: K, v: V, a: int, nv: V| #![trigger umodp(t, t1, q, nv), ins_map(t1, t2, k, v, a)] umodp(t, t1, q, nv) && ins_map(t1, t2, k, v, a) && urk(pk(k)) == x && vs_s(v) == Seq::<I>::empty().push(i) && vs_h(v) == chain(vs_s(v))
                && (upmax(t, q) matches Some(e) && vs_s(e.v).len() == SZ() && pn(k) == pn(e.k) + 1 && vs_s(nv) == vs_s(e.v) && vs_h(nv) == vs_h(e.v)) ==> rep(t2, g))
    }
{
    if bst(t, LO(), HI()) && rep(t, m) && m(urk(q)).len() < CAP() {
        let (x, s) = (urk(q), m(urk(q)));
        let g = upd(m, x, s.push(i));
        lemma_last(t, m, q);
        if upmax(t, q) is Some { lemma_arith(s.len() as int, pn(upmax(t, q)->Some_0.k)); }
        assert forall|t2: T, nv: V| #[trigger] umodp(t, t2, q, nv) && (upmax(t, q) matches Some(e) && vs_s(e.v).len() < SZ() && vs_s(nv) == vs_s(e.v).push(i)) && vs_h(nv) == chain(vs_s(nv)) implies rep(t2, g) by {
            let e = upmax(t, q)->Some_0;
            lemma_grow(t, t2, m, q, i, pn(e.k));
        }
        assert forall|t2: T, k: K, v: V, a: int| #[trigger] ins_map(t, t2, k, v, a) && urk(pk(k)) == x && vs_s(v) == Seq::<I>::empty().push(i) && vs_h(v) == chain(vs_s(v))
                && (match upmax(t, q) { None => pn(k) == 0, Some(e) => vs_s(e.v).len() == SZ() && pn(k) == pn(e.k) + 1 }) implies rep(t2, g) by {
            ax_pk(k);
            let p = pn(k);
            lemma_arith(s.len() as int, p);
            lemma_arith(s.len() as int, 0);
            assert(p * SZ() == s.len());
            assert(s.subrange(s.len() as int, s.len() as int) =~= Seq::<I>::empty());
            lemma_grow(t, t2, m, q, i, p);
        }
        assert forall|t1: T, t2: T, k: K, v: V, a: int, nv: V| #![trigger umodp(t, t1, q, nv), ins_map(t1, t2, k, v, a)] umodp(t, t1, q, nv) && ins_map(t1, t2, k, v, a) && urk(pk(k)) == x && vs_s(v) == Seq::<I>::empty().push(i) && vs_h(v) == chain(vs_s(v))
                && (upmax(t, q) matches Some(e) && vs_s(e.v).len() == SZ() && pn(k) == pn(e.k) + 1 && vs_s(nv) == vs_s(e.v) && vs_h(nv) == vs_h(e.v)) implies rep(t2, g) by {
            ax_pk(k);
            let e = upmax(t, q)->Some_0;
            ax_eta(nv); ax_eta(e.v);
            assert forall|y: int| #[trigger] at(t1, y) == at(t, y) by {}
            let p = pn(k);
            lemma_arith(s.len() as int, p);
            assert(p * SZ() == s.len());
            assert(s.subrange(s.len() as int, s.len() as int) =~= Seq::<I>::empty());
            assert forall|y: int| y != pos(x, p) implies #[trigger] at(t2, y) == at(t, y) by { assert(at(t1, y) == at(t, y)); }
            lemma_grow(t, t2, m, q, i, p);
        }
    }
}
pub open spec fn valseq(o: Option<V>) -> Option<Seq<I>> { match o { None => None, Some(v) => Some(vs_s(v)) } }
// pages beyond 2^32 do not exist
pub proof fn lemma_far(t: T, m: M, q: UK, p: int)
    ensures rep(t, m) ==> {
        &&& (p > 4294967295 ==> page(m(urk(q)), p) is None)
        &&& (pgn(p) ==> pval(at(t, pos(urk(q), p))) == page(m(urk(q)), p) && okv(at(t, pos(urk(q), p))))
    }
{
    ax_sz();
    if rep(t, m) {
        assert(m(urk(q)).len() <= CAP());
        if p > 4294967295 { assert(p * SZ() >= 4294967295 * SZ()) by (nonlinear_arith) requires p > 4294967295, SZ() > 0; }
    }
}

// ---- what the witnesses tell ---------------------------------------------------------------------------------------
pub open spec fn nextpage(s: Seq<I>) -> int { match lastpage(s) { None => 0, Some(p) => p + 1 } }
// the entry at this position is the page s, and what is certified of it is the hash chain over s
pub open spec fn shows(t: T, y: int, s: Seq<I>) -> bool { at(t, y) matches Some(e) && vs_s(e.v) == s && recon(vt(e.v)) == chain(s) }
pub proof fn lemma_page(t: T, m: M, q: UK, p: int)
    ensures bst(t, LO(), HI()) && rep(t, m) && pgn(p) ==> {
        &&& (at(t, pos(urk(q), p)) is Some) == (page(m(urk(q)), p) is Some)
        &&& (page(m(urk(q)), p) matches Some(s) ==> shows(t, pos(urk(q), p), s))
        &&& (p == nextpage(m(urk(q))) ==> forall|lo: Option<KB>, hi: Option<KB>| #[trigger] is_lo(t, pos(urk(q), p), lo) && #[trigger] is_hi(t, pos(urk(q), p), hi)
                ==> tells_last(t, q, lastpage(m(urk(q))), lo, hi))
    }
{
    if bst(t, LO(), HI()) && rep(t, m) && pgn(p) {
        let (x, s) = (urk(q), m(urk(q)));
        assert(pval(at(t, pos(x, p))) == page(s, p) && okv(at(t, pos(x, p))));
        if at(t, pos(x, p)) is Some { let e = at(t, pos(x, p))->Some_0; ax_vsh(e.v); ax_vt(e.v); }
        if p == nextpage(s) {
            lemma_last(t, m, q);
            assert forall|lo: Option<KB>, hi: Option<KB>| #[trigger] is_lo(t, pos(x, p), lo) && #[trigger] is_hi(t, pos(x, p), hi) implies tells_last(t, q, lastpage(s), lo, hi) by {
                lemma_tells(t, m, q, lo, hi);
            }
        }
    }
}
// between the two borders shown there is no page of q beyond the last one: below is q's last page (or another key, if q has none), above another key
pub open spec fn tells_last(t: T, q: UK, last: Option<int>, lo: Option<KB>, hi: Option<KB>) -> bool {
    let x = urk(q);
    let nx = match last { None => 0int, Some(p) => p + 1 };
    &&& is_lo(t, pos(x, nx), lo) && is_hi(t, pos(x, nx), hi)
    &&& (hi is None || (hi matches Some(KB::Neighbor(k)) && urk(pk(k)) > x))
    &&& match last {
        Some(p) => lo matches Some(KB::Neighbor(k)) && urk(pk(k)) == x && pn(k) == p && inn(t, k),
        None => lo is None || (lo matches Some(KB::Neighbor(k)) && urk(pk(k)) < x),
    }
}
pub proof fn lemma_tells(t: T, m: M, q: UK, lo: Option<KB>, hi: Option<KB>)
    requires bst(t, LO(), HI()), rep(t, m), is_lo(t, pos(urk(q), nextpage(m(urk(q)))), lo), is_hi(t, pos(urk(q), nextpage(m(urk(q)))), hi)
    ensures tells_last(t, q, lastpage(m(urk(q))), lo, hi)
{
    let (x, s) = (urk(q), m(urk(q)));
    let nx = nextpage(s);
    lemma_last(t, m, q);
    lemma_upmax(t, q, LO(), HI());
    let y = pos(x, nx);
    assert(at(t, y) is None) by {
        if upmax(t, q) is None && at(t, y) is Some { lemma_at_bounds(t, LO(), HI(), y); let k = at(t, y)->Some_0.k; ax_pk(k); lemma_lex(urk(pk(k)), pn(k), x, nx); assert(uisp(q, k)); }
    }
    match hi {
        Some(KB::Exact(k)) => { assert(at(t, rk(k)) is Some); assert(false); },
        Some(KB::Neighbor(k)) => {
            ax_pk(k); lemma_lex(x, nx, urk(pk(k)), pn(k));
            if urk(pk(k)) == x { assert(at(t, rk(k)) is Some && uisp(q, at(t, rk(k))->Some_0.k)); assert(false); }
        },
        None => {},
    }
    match lo {
        Some(KB::Exact(k)) => { ax_exact(k); assert(at(t, rk(k)) is Some); assert(false); },
        Some(KB::Neighbor(k)) => {
            ax_exact(k); ax_pk(k); lemma_lex(urk(pk(k)), pn(k), x, nx);
            if upmax(t, q) is Some {
                let e = upmax(t, q)->Some_0;
                ax_exact(e.k); ax_pk(e.k);
                lemma_lex(urk(pk(k)), pn(k), x, pn(e.k));
                if rk(k) < rk(e.k) { assert(at(t, rk(e.k)) is Some); assert(qk(ke(t, rk(e.k))) > pos(x, nx)); assert(false); }
                if rk(k) > rk(e.k) && urk(pk(k)) == x { assert(at(t, rk(k)) is Some && uisp(q, at(t, rk(k))->Some_0.k)); assert(false); }
            } else if urk(pk(k)) == x { assert(at(t, rk(k)) is Some && uisp(q, at(t, rk(k))->Some_0.k)); assert(false); }
        },
        None => {
            if upmax(t, q) is Some { let e = upmax(t, q)->Some_0; ax_exact(e.k); ax_pk(e.k); assert(at(t, rk(e.k)) is Some); assert(qk(ke(t, rk(e.k))) > y); lemma_lex(x, pn(e.k), x, nx); assert(false); }
        },
    }
}

// ---- serializing: a record of named fields (a serializer may fail at every step) --------------------------------
pub enum FV { Pages(T), Key(UK), Page(int) }
#[verifier::external_body] pub struct Ser { _p: () }
#[verifier::external_body] pub struct SOut { _p: () }
#[verifier::external_body] pub struct SErr { _p: () }
pub uninterp spec fn given(e: SErr) -> bool;
pub uninterp spec fn recout(s: Ser, name: Seq<char>, n: int, f: Seq<(Seq<char>, FV)>) -> SOut;
