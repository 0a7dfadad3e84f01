// ---- building groups: a directory tree of parts, its layout -------------------------------------------------------
#[verifier::external_body] pub struct PP { _p: () }        // a path as the caller gives it
#[verifier::external_body] pub struct CI { _p: () }        // one of its items
pub uninterp spec fn pls(p: PP) -> LP;                     // its labels
pub uninterp spec fn cs(c: CI) -> B;
pub enum BN { Directory(BL), Leaf(TY) }
// a directory's entries, by label
pub enum BL { Nil, Cons(B, Box<BN>, Box<BL>) }
pub type LP = Seq<B>;
pub type GQ = Seq<GN>;
// the order of labels
pub uninterp spec fn blt(a: B, b: B) -> bool;
pub axiom fn ax_blt() ensures forall|a: B| !(#[trigger] blt(a, a)), forall|a: B, b: B| #![trigger blt(a, b)] a == b || blt(a, b) || blt(b, a),
    forall|a: B, b: B, c: B| #![trigger blt(a, b), blt(b, c)] blt(a, b) && blt(b, c) ==> blt(a, c);
pub open spec fn rst(p: LP) -> LP { p.subrange(1, p.len() as int) }
pub open spec fn nodir() -> BN { BN::Directory(BL::Nil) }

pub open spec fn lget(l: BL, b: B) -> Option<BN> decreases l
{ match l { BL::Nil => None, BL::Cons(k, n, r) => if k == b { Some(*n) } else { lget(*r, b) } } }
pub open spec fn lput(l: BL, b: B, x: BN) -> BL decreases l {
    match l {
        BL::Nil => BL::Cons(b, Box::new(x), Box::new(BL::Nil)),
        BL::Cons(k, n, r) => if k == b { BL::Cons(k, Box::new(x), r) } else if blt(b, k) { BL::Cons(b, Box::new(x), Box::new(l)) } else { BL::Cons(k, n, Box::new(lput(*r, b, x))) },
    }
}
pub open spec fn above(l: BL, b: B) -> bool { l matches BL::Cons(k, n, r) ==> blt(b, k) }
// entries by increasing label, everywhere
pub open spec fn bsrt(n: BN) -> bool decreases n { match n { BN::Directory(l) => lsrt(l), BN::Leaf(t) => true } }
pub open spec fn lsrt(l: BL) -> bool decreases l { match l { BL::Nil => true, BL::Cons(k, n, r) => bsrt(*n) && above(*r, k) && lsrt(*r) } }
// no empty directory
pub open spec fn bfull(n: BN) -> bool decreases n { match n { BN::Directory(l) => !(l is Nil) && lfull(l), BN::Leaf(t) => true } }
pub open spec fn lfull(l: BL) -> bool decreases l { match l { BL::Nil => true, BL::Cons(k, n, r) => bfull(*n) && lfull(*r) } }
pub open spec fn binty(n: BN, ty: TY) -> bool decreases n { match n { BN::Directory(l) => linty(l, ty), BN::Leaf(t) => t == ty } }
pub open spec fn linty(l: BL, ty: TY) -> bool decreases l { match l { BL::Nil => false, BL::Cons(k, n, r) => binty(*n, ty) || linty(*r, ty) } }
// no type is used twice
pub open spec fn bdist(n: BN) -> bool decreases n { match n { BN::Directory(l) => ldist(l), BN::Leaf(t) => true } }
pub open spec fn ldist(l: BL) -> bool decreases l
{ match l { BL::Nil => true, BL::Cons(k, n, r) => bdist(*n) && ldist(*r) && forall|ty: TY| #![trigger binty(*n, ty)] #![trigger linty(*r, ty)] !(binty(*n, ty) && linty(*r, ty)) } }
pub open spec fn bsz(n: BN) -> int decreases n { match n { BN::Directory(l) => 1 + lsz(l), BN::Leaf(t) => 1 } }
pub open spec fn lsz(l: BL) -> int decreases l { match l { BL::Nil => 0, BL::Cons(k, n, r) => bsz(*n) + lsz(*r) } }
pub open spec fn lhas(l: BL, b: B, x: BN) -> bool decreases l { match l { BL::Nil => false, BL::Cons(k, n, r) => (k == b && *n == x) || lhas(*r, b, x) } }
pub open spec fn llen(l: BL) -> int decreases l { match l { BL::Nil => 0, BL::Cons(k, n, r) => 1 + llen(*r) } }

// ---- declaring a part
pub open spec fn child(l: BL, b: B) -> BN { match lget(l, b) { Some(c) => c, None => nodir() } }
pub open spec fn okins(n: BN, p: LP) -> bool decreases p.len() {
    match n {
        BN::Directory(l) => p.len() > 0 && if p.len() == 1 { lget(l, p[0]) is None } else { okins(child(l, p[0]), rst(p)) },
        BN::Leaf(t) => false,
    }
}
pub open spec fn bins(n: BN, p: LP, ty: TY) -> BN decreases p.len() {
    match n {
        BN::Directory(l) => if p.len() <= 1 { BN::Directory(lput(l, p[0], BN::Leaf(ty))) } else { BN::Directory(lput(l, p[0], bins(child(l, p[0]), rst(p), ty))) },
        BN::Leaf(t) => n,
    }
}
pub proof fn lemma_lput(l: BL, b: B, x: BN)
    requires lsrt(l)
    ensures forall|c: B| #[trigger] lget(lput(l, b, x), c) == if c == b { Some(x) } else { lget(l, c) },
        bsrt(x) ==> lsrt(lput(l, b, x)), lfull(l) && bfull(x) ==> lfull(lput(l, b, x)), !(lput(l, b, x) is Nil),
        forall|k: B| above(l, k) && blt(k, b) ==> #[trigger] above(lput(l, b, x), k)
    decreases l
{
    ax_blt();
    match l {
        BL::Nil => { reveal_with_fuel(lget, 3); reveal_with_fuel(lsrt, 3); reveal_with_fuel(lfull, 3); },
        BL::Cons(k, n, r) => {
            lemma_lput(*r, b, x);
            lemma_low(*r, k);
            if blt(b, k) { lemma_low(l, b); }
            let m = lput(l, b, x);
            assert forall|c: B| #[trigger] lget(m, c) == if c == b { Some(x) } else { lget(l, c) } by {
                assert(lget(lput(*r, b, x), c) == if c == b { Some(x) } else { lget(*r, c) });
                if k == b { assert(m == BL::Cons(k, Box::new(x), r)); }
                else if blt(b, k) { assert(m == BL::Cons(b, Box::new(x), Box::new(l))); }
                else { assert(m == BL::Cons(k, n, Box::new(lput(*r, b, x)))); }
            }
        },
    }
}
// nothing below the least label
pub proof fn lemma_low(l: BL, b: B) requires lsrt(l), above(l, b) ensures lget(l, b) is None, forall|c: B| blt(c, b) ==> #[trigger] lget(l, c) is None decreases l
{
    ax_blt();
    match l { BL::Nil => {}, BL::Cons(k, n, r) => { lemma_low(*r, k); assert(lget(*r, b) is None); assert forall|c: B| blt(c, b) implies #[trigger] lget(l, c) is None by { assert(lget(*r, c) is None); } } }
}
// a sorted list is determined by what it maps to
pub proof fn lemma_ext_bl(l: BL, m: BL) requires lsrt(l), lsrt(m), forall|c: B| #[trigger] lget(l, c) == lget(m, c) ensures l == m decreases l
{
    ax_blt();
    match l {
        BL::Nil => { if let BL::Cons(k, n, r) = m { assert(lget(l, k) == lget(m, k)); } },
        BL::Cons(k, n, r) => match m {
            BL::Nil => { assert(lget(l, k) == lget(m, k)); },
            BL::Cons(k2, n2, r2) => {
                assert(lget(l, k) == lget(m, k)); assert(lget(l, k2) == lget(m, k2));
                lemma_low(*r, k); lemma_low(*r2, k2);
                if blt(k, k2) { lemma_low(m, k); }
                if blt(k2, k) { lemma_low(l, k2); }
                assert(k == k2);
                assert forall|c: B| #[trigger] lget(*r, c) == lget(*r2, c) by { assert(lget(l, c) == lget(m, c)); }
                lemma_ext_bl(*r, *r2);
            },
        },
    }
}
pub proof fn lemma_child(l: BL, b: B)
    ensures lsrt(l) ==> bsrt(child(l, b)), lfull(l) ==> (lget(l, b) is Some ==> bfull(child(l, b))), lget(l, b) is Some ==> bsz(child(l, b)) <= lsz(l) && lhas(l, b, child(l, b))
    decreases l
{
    reveal_with_fuel(bsrt, 2); reveal_with_fuel(lsrt, 2);
    match l { BL::Nil => {}, BL::Cons(k, n, r) => { lemma_child(*r, b); lemma_bsz(*n); lemma_lsz(*r); } }
}
pub proof fn lemma_bsz(n: BN) ensures bsz(n) >= 1 decreases n { match n { BN::Directory(l) => { lemma_lsz(l); }, BN::Leaf(t) => {} } }
pub proof fn lemma_lsz(l: BL) ensures lsz(l) >= 0 decreases l { match l { BL::Nil => {}, BL::Cons(k, n, r) => { lemma_bsz(*n); lemma_lsz(*r); } } }
pub proof fn lemma_bins(n: BN, p: LP, ty: TY) requires bsrt(n), okins(n, p) ensures bsrt(bins(n, p, ty)), bins(n, p, ty) is Directory,
        (n matches BN::Directory(l) && lfull(l)) ==> bfull(bins(n, p, ty)) decreases p.len()
{
    match n {
        BN::Directory(l) => {
            lemma_child(l, p[0]);
            assert(bsrt(BN::Leaf(ty)) && bfull(BN::Leaf(ty)));
            if p.len() > 1 {
                let c = child(l, p[0]);
                assert(lfull(l) ==> (c matches BN::Directory(cl) ==> lfull(cl))) by { reveal_with_fuel(lfull, 2); }
                lemma_bins(c, rst(p), ty); lemma_lput(l, p[0], bins(c, rst(p), ty));
            } else { lemma_lput(l, p[0], BN::Leaf(ty)); }
        },
        _ => {},
    }
}
// two declarations may be made in either order
pub proof fn lemma_swap(n: BN, p: LP, a: TY, q: LP, b: TY)
    requires bsrt(n), okins(n, p), okins(bins(n, p, a), q)
    ensures okins(n, q), okins(bins(n, q, b), p), bins(bins(n, p, a), q, b) == bins(bins(n, q, b), p, a)
    decreases p.len()
{
    match n {
        BN::Directory(l) => {
            let x = if p.len() == 1 { BN::Leaf(a) } else { bins(child(l, p[0]), rst(p), a) };
            let lp = lput(l, p[0], x);
            assert(bins(n, p, a) == BN::Directory(lp));
            lemma_child(l, p[0]); lemma_child(l, q[0]);
            assert(bsrt(BN::Leaf(a)) && bsrt(BN::Leaf(b)) && bsrt(nodir())) by { reveal_with_fuel(bsrt, 2); reveal_with_fuel(lsrt, 2); }
            if p.len() > 1 { lemma_bins(child(l, p[0]), rst(p), a); }
            lemma_lput(l, p[0], x);
            assert(lget(lp, q[0]) == if q[0] == p[0] { Some(x) } else { lget(l, q[0]) });
            if p[0] == q[0] {
                if p.len() == 1 { assert(x is Leaf); assert(child(lp, q[0]) == x); assert(!okins(x, rst(q))); assert(!okins(bins(n, p, a), q)); }
                assert(q.len() > 1);
                let c = child(l, p[0]);
                assert(child(lp, q[0]) == x);
                lemma_swap(c, rst(p), a, rst(q), b);
                let y = bins(c, rst(q), b);
                let lq = lput(l, q[0], y);
                lemma_bins(c, rst(q), b);
                lemma_lput(l, q[0], y);
                assert(lget(lq, p[0]) == Some(y));
                assert(child(lq, p[0]) == y);
                let z = bins(x, rst(q), b);
                assert(z == bins(y, rst(p), a));
                lemma_bins(x, rst(q), b);
                lemma_lput(lp, q[0], z); lemma_lput(lq, p[0], z);
                assert forall|k: B| #[trigger] lget(lput(lp, q[0], z), k) == lget(lput(lq, p[0], z), k) by { assert(lget(lp, k) == if k == p[0] { Some(x) } else { lget(l, k) }); assert(lget(lq, k) == if k == q[0] { Some(y) } else { lget(l, k) }); }
                lemma_ext_bl(lput(lp, q[0], z), lput(lq, p[0], z));
            } else {
                let y = if q.len() == 1 { BN::Leaf(b) } else { bins(child(l, q[0]), rst(q), b) };
                assert(child(lp, q[0]) == child(l, q[0]));
                let lq = lput(l, q[0], y);
                if q.len() > 1 { lemma_bins(child(l, q[0]), rst(q), b); }
                lemma_lput(l, q[0], y);
                assert(lget(lq, p[0]) == lget(l, p[0]));
                assert(child(lq, p[0]) == child(l, p[0]));
                lemma_lput(lp, q[0], y); lemma_lput(lq, p[0], x);
                assert forall|k: B| #[trigger] lget(lput(lp, q[0], y), k) == lget(lput(lq, p[0], x), k) by { assert(lget(lp, k) == if k == p[0] { Some(x) } else { lget(l, k) }); assert(lget(lq, k) == if k == q[0] { Some(y) } else { lget(l, k) }); }
                lemma_ext_bl(lput(lp, q[0], y), lput(lq, p[0], x));
            }
        },
        _ => {},
    }
}
// all declarations of a program, in order
pub open spec fn insall(n: BN, s: Seq<(LP, TY)>) -> BN decreases s.len() { if s.len() == 0 { n } else { insall(bins(n, s[0].0, s[0].1), s.subrange(1, s.len() as int)) } }
pub open spec fn okall(n: BN, s: Seq<(LP, TY)>) -> bool decreases s.len() { s.len() == 0 || okins(n, s[0].0) && okall(bins(n, s[0].0, s[0].1), s.subrange(1, s.len() as int)) }
// moving one declaration to the front
pub proof fn lemma_front(n: BN, s: Seq<(LP, TY)>, k: int)
    requires bsrt(n), okall(n, s), 0 <= k < s.len()
    ensures ({ let r = seq![s[k]] + s.remove(k); okall(n, r) && insall(n, r) == insall(n, s) })
    decreases s.len()
{
    let r = seq![s[k]] + s.remove(k);
    let t = s.subrange(1, s.len() as int);
    let n1 = bins(n, s[0].0, s[0].1);
    lemma_bins(n, s[0].0, s[0].1);
    if k == 0 {
        assert(r =~= s);
    } else {
        lemma_front(n1, t, k - 1);
        let r1 = seq![t[k - 1]] + t.remove(k - 1);
        let u = t.remove(k - 1);
        assert(r1[0] == s[k]);
        assert(r1.subrange(1, r1.len() as int) =~= u);
        lemma_swap(n, s[0].0, s[0].1, s[k].0, s[k].1);
        let n2 = bins(n, s[k].0, s[k].1);
        assert(r[0] == s[k]);
        let r2 = r.subrange(1, r.len() as int);
        assert(r2 =~= seq![s[0]] + u);
        assert(r2[0] == s[0]);
        assert(r2.subrange(1, r2.len() as int) =~= u);
        assert(okall(n1, r1)); assert(insall(n1, r1) == insall(n1, t));
        assert(bins(n1, s[k].0, s[k].1) == bins(n2, s[0].0, s[0].1));
        assert(okall(bins(n1, s[k].0, s[k].1), u));
        assert(okall(n2, r2));
        assert(okins(n, r[0].0));
        assert(okall(n, r));
        assert(insall(n, r) == insall(n2, r2));
        assert(insall(n2, r2) == insall(bins(n2, s[0].0, s[0].1), u));
        assert(insall(n1, r1) == insall(bins(n1, s[k].0, s[k].1), u));
        assert(insall(n, s) == insall(n1, t));
    }
}
// the order of declaration does not matter: neither for what is built nor for what is refused
pub proof fn lemma_order(n: BN, s: Seq<(LP, TY)>, t: Seq<(LP, TY)>)
    requires bsrt(n), okall(n, s), s.to_multiset() == t.to_multiset()
    ensures okall(n, t), insall(n, t) == insall(n, s)
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len() && t.len() == t.to_multiset().len());
    if s.len() > 0 {
        assert(t.to_multiset().count(t[0]) > 0) by { assert(t.contains(t[0])); }
        assert(s.contains(t[0]));
        let k = choose|k: int| 0 <= k < s.len() && s[k] == t[0];
        lemma_front(n, s, k);
        let r = seq![s[k]] + s.remove(k);
        let u = s.remove(k);
        let t1 = t.subrange(1, t.len() as int);
        assert(r[0] == t[0]);
        assert(r.subrange(1, r.len() as int) =~= u);
        assert(t.remove(0) =~= t1);
        assert(u.to_multiset() =~= s.to_multiset().remove(s[k]));
        assert(t1.to_multiset() =~= t.to_multiset().remove(t[0]));
        lemma_bins(n, t[0].0, t[0].1);
        lemma_order(bins(n, t[0].0, t[0].1), u, t1);
    }
}
