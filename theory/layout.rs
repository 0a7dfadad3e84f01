// ---- the layout of a group ----------------------------------------------------------------------------------------
pub open spec fn pairup(s: GQ) -> GQ decreases s.len() {
    if s.len() >= 2 { seq![GN { id: 0, data: GD::Fork(Box::new(s[0]), Box::new(s[1])) }] + pairup(s.subrange(2, s.len() as int)) } else { s }
}
pub proof fn lemma_pairlen(s: GQ) ensures 2 * pairup(s).len() <= s.len() + 1, 2 * pairup(s).len() >= s.len() decreases s.len()
{ if s.len() >= 2 { lemma_pairlen(s.subrange(2, s.len() as int)); } }
pub open spec fn merge(s: GQ) -> GN decreases s.len() when s.len() >= 1 via merge_dec { if s.len() == 1 { s[0] } else { merge(pairup(s)) } }
#[via_fn] proof fn merge_dec(s: GQ) { lemma_pairlen(s); }
pub open spec fn gbuild(n: BN) -> GN decreases n { match n { BN::Directory(l) => merge(glst(l)), BN::Leaf(t) => GN { id: 0, data: GD::Leaf(t) } } }
pub open spec fn glab(b: B, n: BN) -> GN decreases n, 1int { GN { id: 0, data: GD::Labeled(b, Box::new(gbuild(n))) } }
pub open spec fn glst(l: BL) -> GQ decreases l { match l { BL::Nil => Seq::empty(), BL::Cons(k, n, r) => seq![GN { id: 0, data: GD::Labeled(k, Box::new(gbuild(*n))) }] + glst(*r) } }
// what the building loop keeps
pub proof fn lemma_pairstep(s: GQ, d: GQ)
    ensures s.len() >= 2 ==> d + pairup(s) == d.push(GN { id: 0, data: GD::Fork(Box::new(s[0]), Box::new(s[1])) }) + pairup(s.subrange(1, s.len() as int).subrange(1, s.len() - 1)),
        s.len() == 1 ==> d + pairup(s) == d.push(s[0]), s.len() == 0 ==> d + pairup(s) == d, Seq::<GN>::empty() + pairup(s) == pairup(s)
{
    assert(Seq::<GN>::empty() + pairup(s) =~= pairup(s));
    if s.len() >= 2 {
        assert(s.subrange(1, s.len() as int).subrange(1, s.len() - 1) =~= s.subrange(2, s.len() as int));
        assert(d + pairup(s) =~= d.push(GN { id: 0, data: GD::Fork(Box::new(s[0]), Box::new(s[1])) }) + pairup(s.subrange(2, s.len() as int)));
    } else if s.len() == 1 { assert(d + pairup(s) =~= d.push(s[0])); } else { assert(d + pairup(s) =~= d); }
}
pub proof fn lemma_entry(n: BN, k: B, x: BN)
    requires n matches BN::Directory(l) && lhas(l, k, x)
    ensures bsz(x) < bsz(n), bfull(n) ==> bfull(x)
{ if let BN::Directory(l) = n { lemma_entry_l(l, k, x); } }
pub proof fn lemma_entry_l(l: BL, k: B, x: BN) requires lhas(l, k, x) ensures bsz(x) <= lsz(l), lfull(l) ==> bfull(x) decreases l
{ match l { BL::Nil => {}, BL::Cons(b, n, r) => { lemma_bsz(*n); lemma_lsz(*r); if !(k == b && x == *n) { lemma_entry_l(*r, k, x); } } } }
pub proof fn lemma_glen(l: BL) ensures glst(l).len() == llen(l), !(l is Nil) <==> glst(l).len() >= 1 decreases l
{ match l { BL::Nil => {}, BL::Cons(k, n, r) => { lemma_glen(*r); } } }

// ---- siblings and forks
pub open spec fn sibs(g: GN) -> LP decreases g { match g.data { GD::Fork(l, r) => sibs(*l) + sibs(*r), GD::Labeled(b, n) => seq![b], GD::Leaf(t) => Seq::empty() } }
pub open spec fn sibq(s: GQ) -> LP decreases s.len() { if s.len() == 0 { Seq::empty() } else { sibs(s[0]) + sibq(s.subrange(1, s.len() as int)) } }
pub open spec fn names(l: BL) -> LP decreases l { match l { BL::Nil => Seq::empty(), BL::Cons(k, n, r) => seq![k] + names(*r) } }
pub proof fn lemma_sib_pair(s: GQ) ensures sibq(pairup(s)) == sibq(s) decreases s.len()
{
    if s.len() >= 2 {
        let u = s.subrange(2, s.len() as int);
        let p = pairup(s);
        lemma_sib_pair(u);
        assert(p.subrange(1, p.len() as int) =~= pairup(u));
        let s1 = s.subrange(1, s.len() as int);
        assert(s1[0] == s[1] && s1.subrange(1, s1.len() as int) =~= u);
        assert(p[0] == GN { id: 0, data: GD::Fork(Box::new(s[0]), Box::new(s[1])) });
        assert(sibs(p[0]) == sibs(s[0]) + sibs(s[1]));
        assert(sibq(s1) == sibs(s[1]) + sibq(u));
        assert(sibq(s) == sibs(s[0]) + sibq(s1));
        assert(sibq(s) == sibs(s[0]) + (sibs(s[1]) + sibq(u)));
        assert(sibq(p) =~= sibq(s));
    }
}
pub proof fn lemma_sib_merge(s: GQ) requires s.len() >= 1 ensures sibs(merge(s)) == sibq(s) decreases s.len()
{
    if s.len() == 1 { let e = s.subrange(1, 1); assert(e.len() == 0); assert(sibq(e) =~= Seq::<B>::empty()); assert(sibq(s) == sibs(s[0]) + sibq(e)); assert(sibq(s) =~= sibs(s[0])); } else { lemma_pairlen(s); lemma_sib_pair(s); lemma_sib_merge(pairup(s)); }
}
pub proof fn lemma_sib_lst(l: BL) ensures sibq(glst(l)) == names(l) decreases l
{ match l { BL::Nil => {}, BL::Cons(k, n, r) => { lemma_sib_lst(*r); let q = glst(l); assert(q.subrange(1, q.len() as int) =~= glst(*r)); assert(q[0].data == GD::Labeled(k, Box::new(gbuild(*n)))); } } }
pub open spec fn incr(p: LP) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> blt(#[trigger] p[i], #[trigger] p[j]) }
pub proof fn lemma_names(l: BL) requires lsrt(l) ensures incr(names(l)), names(l).len() == llen(l), forall|b: B| above(l, b) ==> forall|i: int| 0 <= i < names(l).len() ==> #[trigger] blt(b, names(l)[i]) decreases l
{
    ax_blt();
    match l {
        BL::Nil => {},
        BL::Cons(k, n, r) => {
            lemma_names(*r);
            let p = names(l); let q = names(*r);
            assert(p[0] == k);
            assert forall|i: int| 1 <= i < p.len() implies p[i] == q[i - 1] by {}
            assert(above(*r, k));
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies blt(#[trigger] p[i], #[trigger] p[j]) by { if i == 0 { assert(blt(k, q[j - 1])); } else { assert(blt(q[i - 1], q[j - 1])); } }
            assert forall|b: B| above(l, b) implies forall|i: int| 0 <= i < p.len() ==> #[trigger] blt(b, p[i]) by {
                assert forall|i: int| 0 <= i < p.len() implies #[trigger] blt(b, p[i]) by { if i > 0 { assert(blt(k, q[i - 1])); } }
            }
        },
    }
}
// the forks above the siblings
pub open spec fn fd(g: GN) -> int decreases g { match g.data { GD::Fork(l, r) => 1 + if fd(*l) > fd(*r) { fd(*l) } else { fd(*r) }, _ => 0 } }
pub open spec fn clog(n: int) -> int decreases n { if n <= 1 { 0 } else { 1 + clog((n + 1) / 2) } }
pub open spec fn fdq(s: GQ, k: int) -> bool { forall|i: int| 0 <= i < s.len() ==> fd(#[trigger] s[i]) <= k }
pub proof fn lemma_fd_pair(s: GQ, k: int) requires fdq(s, k), k >= 0 ensures fdq(pairup(s), k + 1) decreases s.len()
{
    if s.len() >= 2 {
        let u = s.subrange(2, s.len() as int);
        let p = pairup(s);
        lemma_fd_pair(u, k);
        assert forall|i: int| 0 <= i < p.len() implies fd(#[trigger] p[i]) <= k + 1 by {
            if i == 0 { assert(fd(s[0]) <= k && fd(s[1]) <= k); assert(p[0].data == GD::Fork(Box::new(s[0]), Box::new(s[1]))); } else { assert(p[i] == pairup(u)[i - 1]); }
        }
    }
}
pub proof fn lemma_fd_merge(s: GQ, k: int) requires s.len() >= 1, fdq(s, k), k >= 0 ensures fd(merge(s)) <= k + clog(s.len() as int) decreases s.len()
{
    if s.len() > 1 { lemma_pairlen(s); lemma_fd_pair(s, k); lemma_fd_merge(pairup(s), k + 1); assert(pairup(s).len() == (s.len() + 1) / 2); }
}
// ceil(log2): clog(n) is the least c with 2^c >= n
pub open spec fn p2(c: int) -> int decreases c { if c <= 0 { 1 } else { 2 * p2(c - 1) } }
pub proof fn lemma_clog(n: int) requires n >= 1 ensures clog(n) >= 0, p2(clog(n)) >= n, clog(n) > 0 ==> p2(clog(n) - 1) < n decreases n
{
    if n > 1 {
        lemma_clog((n + 1) / 2);
        if clog((n + 1) / 2) == 0 { assert(p2(0) == 1); } 
    }
}

// ---- parts and their paths
pub open spec fn part(n: BN, p: LP, ty: TY) -> bool decreases n, p.len() {
    match n { BN::Leaf(t) => p.len() == 0 && t == ty, BN::Directory(l) => p.len() > 0 && lpart(l, p, ty) }
}
pub open spec fn lpart(l: BL, p: LP, ty: TY) -> bool decreases l, p.len() { match l { BL::Nil => false, BL::Cons(k, n, r) => (k == p[0] && part(*n, rst(p), ty)) || lpart(*r, p, ty) } }
pub open spec fn gpart(g: GN, p: LP, ty: TY) -> bool decreases g {
    match g.data { GD::Fork(l, r) => gpart(*l, p, ty) || gpart(*r, p, ty), GD::Labeled(b, n) => p.len() > 0 && p[0] == b && gpart(*n, rst(p), ty), GD::Leaf(t) => p.len() == 0 && t == ty }
}
pub open spec fn qpart(s: GQ, p: LP, ty: TY) -> bool { exists|i: int| 0 <= i < s.len() && gpart(#[trigger] s[i], p, ty) }
pub proof fn lemma_part_pair(s: GQ, p: LP, ty: TY) ensures qpart(pairup(s), p, ty) == qpart(s, p, ty) decreases s.len()
{
    if s.len() >= 2 {
        let u = s.subrange(2, s.len() as int);
        let q = pairup(s);
        lemma_part_pair(u, p, ty);
        assert(q[0].data == GD::Fork(Box::new(s[0]), Box::new(s[1])));
        assert(gpart(q[0], p, ty) == (gpart(s[0], p, ty) || gpart(s[1], p, ty)));
        if qpart(s, p, ty) {
            let i = choose|i: int| 0 <= i < s.len() && gpart(#[trigger] s[i], p, ty);
            if i >= 2 { assert(u[i - 2] == s[i]); let j = choose|j: int| 0 <= j < pairup(u).len() && gpart(#[trigger] pairup(u)[j], p, ty); assert(q[j + 1] == pairup(u)[j]); } else { assert(gpart(q[0], p, ty)); }
        }
        if qpart(q, p, ty) {
            let i = choose|i: int| 0 <= i < q.len() && gpart(#[trigger] q[i], p, ty);
            if i > 0 { assert(pairup(u)[i - 1] == q[i]); let j = choose|j: int| 0 <= j < u.len() && gpart(#[trigger] u[j], p, ty); assert(s[j + 2] == u[j]); }
        }
    }
}
pub proof fn lemma_part_merge(s: GQ, p: LP, ty: TY) requires s.len() >= 1 ensures gpart(merge(s), p, ty) == qpart(s, p, ty) decreases s.len()
{ if s.len() > 1 { lemma_pairlen(s); lemma_part_pair(s, p, ty); lemma_part_merge(pairup(s), p, ty); } else { assert(gpart(s[0], p, ty) ==> qpart(s, p, ty)); } }
// every part sits under exactly its path
pub proof fn lemma_paths(n: BN, p: LP, ty: TY) requires bfull(n) ensures gpart(gbuild(n), p, ty) == part(n, p, ty) decreases n, p.len(), 1int
{
    match n {
        BN::Directory(l) => {
            lemma_glen(l);
            lemma_part_merge(glst(l), p, ty);
            lemma_paths_l(l, p, ty);
        },
        _ => {},
    }
}
pub proof fn lemma_paths_l(l: BL, p: LP, ty: TY) requires lfull(l) ensures qpart(glst(l), p, ty) == (p.len() > 0 && lpart(l, p, ty)) decreases l, p.len(), 0int
{
    match l {
        BL::Nil => {},
        BL::Cons(k, n, r) => {
            let q = glst(l); let u = glst(*r);
            lemma_paths_l(*r, p, ty);
            if p.len() > 0 { lemma_paths(*n, rst(p), ty); }
            assert(q[0].data == GD::Labeled(k, Box::new(gbuild(*n))));
            assert(gpart(q[0], p, ty) == (p.len() > 0 && p[0] == k && gpart(gbuild(*n), rst(p), ty)));
            if qpart(q, p, ty) { let i = choose|i: int| 0 <= i < q.len() && gpart(#[trigger] q[i], p, ty); if i > 0 { assert(u[i - 1] == q[i]); } }
            if qpart(u, p, ty) { let i = choose|i: int| 0 <= i < u.len() && gpart(#[trigger] u[i], p, ty); assert(q[i + 1] == u[i]); }
            if gpart(q[0], p, ty) { assert(qpart(q, p, ty)); }
        },
    }
}
// lookups and parts
pub proof fn lemma_lpart(l: BL, p: LP, ty: TY) requires lsrt(l), p.len() > 0
    ensures lpart(l, p, ty) == match lget(l, p[0]) { Some(c) => part(c, rst(p), ty), None => false } decreases l
{
    match l { BL::Nil => {}, BL::Cons(k, n, r) => { lemma_lpart(*r, p, ty); lemma_low(*r, k); } }
}
// declaring a part adds exactly it
pub proof fn lemma_bins_part(n: BN, p: LP, ty: TY, q: LP, t: TY) requires bsrt(n), okins(n, p) ensures part(bins(n, p, ty), q, t) == (part(n, q, t) || (q == p && t == ty)) decreases p.len()
{
    match n {
        BN::Directory(l) => {
            let x = if p.len() == 1 { BN::Leaf(ty) } else { bins(child(l, p[0]), rst(p), ty) };
            lemma_child(l, p[0]);
            assert(bsrt(BN::Leaf(ty)) && bsrt(nodir())) by { reveal_with_fuel(bsrt, 2); reveal_with_fuel(lsrt, 2); }
            if p.len() > 1 { lemma_bins(child(l, p[0]), rst(p), ty); lemma_bins_part(child(l, p[0]), rst(p), ty, rst(q), t); }
            lemma_lput(l, p[0], x);
            let m = lput(l, p[0], x);
            assert(bins(n, p, ty) == BN::Directory(m));
            if q.len() > 0 {
                lemma_lpart(l, q, t); lemma_lpart(m, q, t);
                assert(lget(m, q[0]) == if q[0] == p[0] { Some(x) } else { lget(l, q[0]) });
                if q[0] == p[0] && rst(q) == rst(p) { assert(p =~= seq![p[0]] + rst(p)); assert(q =~= seq![q[0]] + rst(q)); }
                if q[0] == p[0] {
                    if p.len() == 1 { assert(part(x, rst(q), t) == (rst(q).len() == 0 && t == ty)); if q.len() == 1 { assert(rst(q) =~= rst(p)); } }
                    else { assert(!part(nodir(), rst(q), t)) by { reveal_with_fuel(part, 2); reveal_with_fuel(lpart, 2); } }
                }
            }
        },
        _ => {},
    }
}
pub open spec fn pre(p: LP, q: LP) -> bool { p.len() <= q.len() && p =~= q.subrange(0, p.len() as int) }
pub open spec fn clash(n: BN, p: LP) -> bool { exists|q: LP, t: TY| #[trigger] part(n, q, t) && (pre(p, q) || pre(q, p)) }

// a program is refused exactly when a part of it would lie on or under another
pub proof fn lemma_room(p: LP) requires p.len() > 0 ensures okins(nodir(), p) decreases p.len()
{ assert(lget(BL::Nil, p[0]) is None); if p.len() > 1 { lemma_room(rst(p)); } }
pub proof fn lemma_some(n: BN) -> (r: (LP, TY)) requires bfull(n), bsrt(n) ensures part(n, r.0, r.1) decreases n
{
    match n {
        BN::Leaf(t) => (Seq::empty(), t),
        BN::Directory(l) => match l {
            BL::Nil => (Seq::empty(), arbitrary()),
            BL::Cons(k, c, r) => {
                let x = lemma_some(*c);
                let q = seq![k] + x.0;
                assert(rst(q) =~= x.0);
                assert(lpart(l, q, x.1));
                (q, x.1)
            },
        },
    }
}
pub proof fn lemma_pre(p: LP, q: LP)
    ensures p.len() > 0 && q.len() > 0 && p[0] == q[0] ==> pre(p, q) == pre(rst(p), rst(q)), p.len() > 0 && q.len() > 0 && pre(p, q) ==> p[0] == q[0]
{
    if p.len() > 0 && q.len() > 0 {
        if pre(p, q) { assert(q.subrange(0, p.len() as int)[0] == q[0]); assert(rst(p) =~= rst(q).subrange(0, p.len() - 1)) by { assert forall|i: int| 0 <= i < p.len() - 1 implies rst(p)[i] == rst(q)[i] by { assert(p[i + 1] == q.subrange(0, p.len() as int)[i + 1]); } } }
        if p[0] == q[0] && pre(rst(p), rst(q)) {
            assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { if i > 0 { assert(rst(p)[i - 1] == rst(q).subrange(0, p.len() - 1)[i - 1]); } }
            assert(p =~= q.subrange(0, p.len() as int));
        }
    }
}
pub proof fn lemma_refuse(n: BN, p: LP)
    requires bsrt(n), n matches BN::Directory(l) ==> lfull(l)
    ensures okins(n, p) == (p.len() > 0 && !clash(n, p))
    decreases p.len()
{
    match n {
        BN::Leaf(t) => { let q = Seq::<B>::empty(); assert(part(n, q, t)); assert(pre(q, p)) by { assert(q =~= p.subrange(0, 0)); } },
        BN::Directory(l) => if p.len() > 0 {
            lemma_child(l, p[0]);
            match lget(l, p[0]) {
                None => {
                    if p.len() > 1 { lemma_room(rst(p)); }
                    if clash(n, p) {
                        let (q, t) = choose|q: LP, t: TY| #[trigger] part(n, q, t) && (pre(p, q) || pre(q, p));
                        lemma_lpart(l, q, t); lemma_pre(p, q); lemma_pre(q, p);
                    }
                },
                Some(c) => {
                    if p.len() == 1 || c is Leaf {
                        let x = lemma_some(c);
                        let q = seq![p[0]] + x.0;
                        assert(rst(q) =~= x.0);
                        lemma_lpart(l, q, x.1);
                        assert(part(n, q, x.1));
                        lemma_pre(p, q); lemma_pre(q, p);
                        if p.len() == 1 { assert(rst(p) =~= rst(q).subrange(0, 0)); } else { assert(rst(q) =~= rst(p).subrange(0, 0)); }
                        assert(clash(n, p));
                        if p.len() > 1 { assert(!okins(c, rst(p))); }
                    } else {
                        lemma_refuse(c, rst(p));
                        if clash(c, rst(p)) {
                            let (u, t) = choose|u: LP, t: TY| #[trigger] part(c, u, t) && (pre(rst(p), u) || pre(u, rst(p)));
                            let q = seq![p[0]] + u;
                            assert(rst(q) =~= u);
                            lemma_lpart(l, q, t); lemma_pre(p, q); lemma_pre(q, p);
                            assert(part(n, q, t));
                        }
                        if clash(n, p) {
                            let (q, t) = choose|q: LP, t: TY| #[trigger] part(n, q, t) && (pre(p, q) || pre(q, p));
                            lemma_lpart(l, q, t); lemma_pre(p, q); lemma_pre(q, p);
                            assert(part(c, rst(q), t));
                        }
                    }
                },
            }
        },
    }
}
// ---- the siblings of a directory: in label order, under forks no deeper than necessary
pub proof fn lemma_fdq(l: BL) ensures fdq(glst(l), 0) decreases l
{
    match l { BL::Nil => {}, BL::Cons(k, n, r) => {
        lemma_fdq(*r);
        let q = glst(l);
        assert(q[0].data == GD::Labeled(k, Box::new(gbuild(*n))));
        assert forall|i: int| 0 <= i < q.len() implies fd(#[trigger] q[i]) <= 0 by { if i > 0 { assert(q[i] == glst(*r)[i - 1]); } }
    } }
}
pub proof fn lemma_level(l: BL) requires lsrt(l), !(l is Nil)
    ensures ({ let g = gbuild(BN::Directory(l)); sibs(g) == names(l) && incr(sibs(g)) && fd(g) <= clog(sibs(g).len() as int) })
{ lemma_glen(l); lemma_sib_merge(glst(l)); lemma_sib_lst(l); lemma_names(l); lemma_fdq(l); lemma_fd_merge(glst(l), 0); }
// everywhere in the group: siblings by increasing label, forks no deeper than necessary, below labels again a part or a level
pub open spec fn neat(g: GN) -> bool decreases g, 2int {
    match g.data { GD::Leaf(t) => true, _ => incr(sibs(g)) && fd(g) <= clog(sibs(g).len() as int) && neats(g) }
}
pub open spec fn neats(g: GN) -> bool decreases g, 1int {
    match g.data { GD::Fork(l, r) => !(l.data is Leaf) && !(r.data is Leaf) && neats(*l) && neats(*r), GD::Labeled(b, n) => neat(*n), GD::Leaf(t) => true }
}
pub open spec fn neatq(s: GQ) -> bool { forall|i: int| 0 <= i < s.len() ==> neats(#[trigger] s[i]) && !(s[i].data is Leaf) }
pub proof fn lemma_neat_pair(s: GQ) requires neatq(s) ensures neatq(pairup(s)) decreases s.len()
{
    if s.len() >= 2 {
        let u = s.subrange(2, s.len() as int); let p = pairup(s);
        lemma_neat_pair(u);
        assert forall|i: int| 0 <= i < p.len() implies neats(#[trigger] p[i]) && !(p[i].data is Leaf) by {
            if i == 0 { assert(neats(s[0]) && neats(s[1])); assert(p[0].data == GD::Fork(Box::new(s[0]), Box::new(s[1]))); } else { assert(p[i] == pairup(u)[i - 1]); }
        }
    }
}
pub proof fn lemma_neat_merge(s: GQ) requires s.len() >= 1, neatq(s) ensures neats(merge(s)), !(merge(s).data is Leaf) decreases s.len()
{ if s.len() > 1 { lemma_pairlen(s); lemma_neat_pair(s); lemma_neat_merge(pairup(s)); } else { assert(neats(s[0])); } }
pub proof fn lemma_neat(n: BN) requires bsrt(n), bfull(n) ensures neat(gbuild(n)) decreases n, 1int
{
    match n { BN::Leaf(t) => {}, BN::Directory(l) => { lemma_level(l); lemma_glen(l); lemma_neat_l(l); lemma_neat_merge(glst(l)); } }
}
pub proof fn lemma_neat_l(l: BL) requires lsrt(l), lfull(l) ensures neatq(glst(l)) decreases l, 0int
{
    match l { BL::Nil => {}, BL::Cons(k, n, r) => {
        lemma_neat_l(*r); lemma_neat(*n);
        let q = glst(l);
        assert(q[0].data == GD::Labeled(k, Box::new(gbuild(*n))));
        assert(neats(q[0]));
        assert forall|i: int| 0 <= i < q.len() implies neats(#[trigger] q[i]) && !(q[i].data is Leaf) by { if i > 0 { assert(q[i] == glst(*r)[i - 1]); } }
    } }
}
// ---- types
pub open spec fn qin(s: GQ, ty: TY) -> bool decreases s.len() { s.len() > 0 && (inty(s[0], ty) || qin(s.subrange(1, s.len() as int), ty)) }
pub open spec fn qdist(s: GQ) -> bool decreases s.len() {
    s.len() == 0 || dist(s[0]) && qdist(s.subrange(1, s.len() as int)) && forall|ty: TY| #![trigger inty(s[0], ty)] #![trigger qin(s.subrange(1, s.len() as int), ty)] !(inty(s[0], ty) && qin(s.subrange(1, s.len() as int), ty))
}
pub proof fn lemma_q_pair(s: GQ) ensures forall|ty: TY| #[trigger] qin(pairup(s), ty) == qin(s, ty), qdist(s) ==> qdist(pairup(s)) decreases s.len()
{
    if s.len() >= 2 {
        let u = s.subrange(2, s.len() as int); let p = pairup(s); let s1 = s.subrange(1, s.len() as int);
        lemma_q_pair(u);
        assert(p.subrange(1, p.len() as int) =~= pairup(u));
        assert(s1[0] == s[1] && s1.subrange(1, s1.len() as int) =~= u);
        assert(p[0].data == GD::Fork(Box::new(s[0]), Box::new(s[1])));
        assert forall|ty: TY| #[trigger] qin(p, ty) == qin(s, ty) by { assert(inty(p[0], ty) == (inty(s[0], ty) || inty(s[1], ty))); assert(qin(s1, ty) == (inty(s[1], ty) || qin(u, ty))); assert(qin(pairup(u), ty) == qin(u, ty)); }
        if qdist(s) {
            assert(qdist(s1)); assert(s1.len() > 0); assert(qdist(s1.subrange(1, s1.len() as int))); assert(qdist(u));
            assert forall|ty: TY| !(inty(s[0], ty) && inty(s[1], ty)) by { assert(qin(s1, ty) == (inty(s[1], ty) || qin(u, ty))); }
            assert(dist(p[0]));
            assert forall|ty: TY| #![trigger inty(p[0], ty)] !(inty(p[0], ty) && qin(pairup(u), ty)) by { assert(qin(pairup(u), ty) == qin(u, ty)); assert(qin(s1, ty) == (inty(s[1], ty) || qin(u, ty))); }
        }
    }
}
pub proof fn lemma_q_merge(s: GQ) requires s.len() >= 1 ensures forall|ty: TY| #[trigger] inty(merge(s), ty) == qin(s, ty), qdist(s) ==> dist(merge(s)) decreases s.len()
{
    if s.len() > 1 {
        lemma_pairlen(s); lemma_q_pair(s); lemma_q_merge(pairup(s));
        assert forall|ty: TY| #[trigger] inty(merge(s), ty) == qin(s, ty) by { assert(inty(merge(pairup(s)), ty) == qin(pairup(s), ty)); }
    } else {
        assert forall|ty: TY| #[trigger] inty(merge(s), ty) == qin(s, ty) by { assert(!qin(s.subrange(1, 1), ty)); }
    }
}
pub proof fn lemma_types(n: BN) requires bfull(n) ensures forall|ty: TY| #[trigger] inty(gbuild(n), ty) == binty(n, ty), bdist(n) ==> dist(gbuild(n)) decreases n, 1int
{ match n { BN::Leaf(t) => {}, BN::Directory(l) => {
    lemma_glen(l); lemma_types_l(l); lemma_q_merge(glst(l));
    assert forall|ty: TY| #[trigger] inty(gbuild(n), ty) == binty(n, ty) by { assert(qin(glst(l), ty) == linty(l, ty)); }
} } }
pub proof fn lemma_types_l(l: BL) requires lfull(l) ensures forall|ty: TY| #[trigger] qin(glst(l), ty) == linty(l, ty), ldist(l) ==> qdist(glst(l)) decreases l, 0int
{
    match l { BL::Nil => {}, BL::Cons(k, n, r) => {
        let q = glst(l);
        lemma_types(*n); lemma_types_l(*r);
        assert(q[0].data == GD::Labeled(k, Box::new(gbuild(*n))));
        assert(q.subrange(1, q.len() as int) =~= glst(*r));
        assert forall|ty: TY| #[trigger] qin(q, ty) == linty(l, ty) by { assert(inty(q[0], ty) == inty(gbuild(*n), ty)); assert(qin(glst(*r), ty) == linty(*r, ty)); }
        if ldist(l) {
            assert forall|ty: TY| #![trigger inty(q[0], ty)] #![trigger qin(glst(*r), ty)] !(inty(q[0], ty) && qin(glst(*r), ty)) by { assert(inty(q[0], ty) == inty(gbuild(*n), ty)); assert(qin(glst(*r), ty) == linty(*r, ty)); assert(inty(gbuild(*n), ty) == binty(*n, ty)); }
        }
    } }
}
// what a builder keeps: entries by label, no empty directory below the root, every type once and with its value
pub open spec fn binv(n: BN, d: DM) -> bool { n is Directory && bsrt(n) && lfull(n->Directory_0) && bdist(n) && typed(d) && forall|ty: TY| #[trigger] d.contains_key(ty) == binty(n, ty) }
pub proof fn lemma_start() ensures binv(nodir(), Map::empty())
{ reveal_with_fuel(bsrt, 2); reveal_with_fuel(lsrt, 2); reveal_with_fuel(lfull, 2); reveal_with_fuel(bdist, 2); reveal_with_fuel(ldist, 2); assert forall|ty: TY| !(#[trigger] binty(nodir(), ty)) by { reveal_with_fuel(linty, 2); } }
pub proof fn lemma_lput_ty(l: BL, b: B, x: BN)
    requires lsrt(l)
    ensures forall|ty: TY| #[trigger] linty(lput(l, b, x), ty) ==> linty(l, ty) || binty(x, ty), forall|ty: TY| #[trigger] binty(x, ty) ==> linty(lput(l, b, x), ty),
        forall|ty: TY| #[trigger] linty(l, ty) ==> linty(lput(l, b, x), ty) || binty(child(l, b), ty)
    decreases l
{
    let m = lput(l, b, x);
    match l { BL::Nil => { assert(m == BL::Cons(b, Box::new(x), Box::new(BL::Nil))); reveal_with_fuel(linty, 3); }, BL::Cons(k, n, r) => {
        ax_blt(); lemma_lput_ty(*r, b, x);
        let rm = lput(*r, b, x);
        if k == b { assert(m == BL::Cons(k, Box::new(x), r)); } else if blt(b, k) { assert(m == BL::Cons(b, Box::new(x), Box::new(l))); } else { assert(m == BL::Cons(k, n, Box::new(rm))); }
        assert forall|ty: TY| #[trigger] linty(m, ty) implies linty(l, ty) || binty(x, ty) by { if k != b && !blt(b, k) && linty(rm, ty) { } }
        assert forall|ty: TY| #[trigger] binty(x, ty) implies linty(m, ty) by { if k != b && !blt(b, k) { assert(linty(rm, ty)); } }
        assert forall|ty: TY| #[trigger] linty(l, ty) implies linty(lput(l, b, x), ty) || binty(child(l, b), ty) by { lemma_low(*r, k); if blt(b, k) {} else if k != b { assert(child(l, b) == child(*r, b)); assert(linty(*r, ty) ==> linty(lput(*r, b, x), ty) || binty(child(*r, b), ty)); } }
    } }
}
// x has the types of the entry it replaces, and perhaps ty, which is not yet there
pub proof fn lemma_lput_dist(l: BL, b: B, x: BN, ty: TY)
    requires lsrt(l), ldist(l), bdist(x), !(linty(l, ty)), forall|t: TY| #[trigger] binty(x, t) == (binty(child(l, b), t) || t == ty)
    ensures ldist(lput(l, b, x)), forall|t: TY| #[trigger] linty(lput(l, b, x), t) == (linty(l, t) || t == ty)
    decreases l
{
    ax_blt();
    assert(forall|t: TY| !(#[trigger] binty(nodir(), t))) by { assert forall|t: TY| !(#[trigger] binty(nodir(), t)) by { reveal_with_fuel(linty, 2); } }
    lemma_lput_ty(l, b, x);
    let m = lput(l, b, x);
    match l {
        BL::Nil => {
            assert(m == BL::Cons(b, Box::new(x), Box::new(BL::Nil)));
            reveal_with_fuel(ldist, 3); reveal_with_fuel(linty, 3);
            assert(child(l, b) == nodir());
            assert forall|t: TY| #[trigger] linty(m, t) == (linty(l, t) || t == ty) by { assert(binty(x, t) == (binty(child(l, b), t) || t == ty)); }
        },
        BL::Cons(k, n, r) => {
            lemma_low(*r, k);
            if k == b {
                assert(m == BL::Cons(k, Box::new(x), r));
                assert(child(l, b) == *n);
                assert forall|t: TY| #![trigger binty(x, t)] #![trigger linty(*r, t)] !(binty(x, t) && linty(*r, t)) by { assert(!(binty(*n, t) && linty(*r, t))); assert(!linty(l, ty)); }
                assert(ldist(m));
            } else if blt(b, k) {
                lemma_low(l, b);
                assert(m == BL::Cons(b, Box::new(x), Box::new(l)));
                assert(child(l, b) == nodir());
                assert forall|t: TY| #![trigger binty(x, t)] #![trigger linty(l, t)] !(binty(x, t) && linty(l, t)) by {}
                assert(ldist(m));
            } else {
                assert(child(l, b) == child(*r, b));
                assert(!linty(*r, ty)) by { assert(!linty(l, ty)); }
                lemma_lput_dist(*r, b, x, ty);
                let rm = lput(*r, b, x);
                assert(m == BL::Cons(k, n, Box::new(rm)));
                assert forall|t: TY| #![trigger binty(*n, t)] #![trigger linty(rm, t)] !(binty(*n, t) && linty(rm, t)) by { assert(linty(rm, t) == (linty(*r, t) || t == ty)); assert(!(binty(*n, t) && linty(*r, t))); assert(!linty(l, ty)); }
                assert(ldist(m));
            }
            assert forall|t: TY| #[trigger] linty(m, t) == (linty(l, t) || t == ty) by {
                if linty(l, t) { assert(linty(m, t) || binty(child(l, b), t)); if binty(child(l, b), t) { assert(binty(x, t)); } }
                if t == ty { assert(binty(x, t)); }
                if linty(m, t) && !linty(l, t) { assert(binty(x, t)); lemma_lget_ty(l, b, t); }
            }
        },
    }
}
pub proof fn lemma_lget_ty(l: BL, b: B, t: TY) ensures lget(l, b) is Some && binty(child(l, b), t) ==> linty(l, t), lget(l, b) is None ==> !binty(child(l, b), t) decreases l
{ match l { BL::Nil => { reveal_with_fuel(linty, 2); }, BL::Cons(k, n, r) => { lemma_lget_ty(*r, b, t); assert(!binty(nodir(), t)) by { reveal_with_fuel(linty, 2); } } } }
pub proof fn lemma_ldist(l: BL, b: B) requires ldist(l) ensures bdist(child(l, b)) decreases l
{ match l { BL::Nil => { reveal_with_fuel(bdist, 2); }, BL::Cons(k, n, r) => { lemma_ldist(*r, b); reveal_with_fuel(bdist, 2); reveal_with_fuel(ldist, 2); } } }
pub proof fn lemma_bins_ty(n: BN, p: LP, ty: TY)
    requires bsrt(n), okins(n, p), bdist(n), !binty(n, ty)
    ensures bdist(bins(n, p, ty)), forall|t: TY| #[trigger] binty(bins(n, p, ty), t) == (binty(n, t) || t == ty)
    decreases p.len()
{
    match n { BN::Leaf(t) => {}, BN::Directory(l) => {
        lemma_child(l, p[0]); lemma_ldist(l, p[0]); lemma_lget_ty(l, p[0], ty);
        let c = child(l, p[0]);
        let x = if p.len() == 1 { BN::Leaf(ty) } else { bins(c, rst(p), ty) };
        assert(!linty(l, ty));
        if p.len() > 1 { assert(!binty(c, ty)); lemma_bins_ty(c, rst(p), ty); }
        assert forall|t: TY| #[trigger] binty(x, t) == (binty(child(l, p[0]), t) || t == ty) by { if p.len() == 1 { assert(lget(l, p[0]) is None); lemma_lget_ty(l, p[0], t); } }
        lemma_lput_dist(l, p[0], x, ty);
        let m = lput(l, p[0], x);
        assert(bins(n, p, ty) == BN::Directory(m));
        assert forall|t: TY| #[trigger] binty(bins(n, p, ty), t) == (binty(n, t) || t == ty) by { assert(linty(m, t) == (linty(l, t) || t == ty)); }
    } }
}
// declaring a part whose type is new keeps what a builder keeps
pub proof fn lemma_declare(n: BN, d: DM, p: LP, v: V)
    requires binv(n, d)
    ensures okins(n, p) && !d.contains_key(vty(v)) ==> binv(bins(n, p, vty(v)), d.insert(vty(v), v)), okins(n, p) == (p.len() > 0 && !clash(n, p))
{
    lemma_refuse(n, p);
    if okins(n, p) && !d.contains_key(vty(v)) {
        let ty = vty(v);
        assert(!binty(n, ty));
        lemma_bins(n, p, ty); lemma_bins_ty(n, p, ty);
        let m = bins(n, p, ty); let e = d.insert(ty, v);
        assert forall|t: TY| #[trigger] e.contains_key(t) == binty(m, t) by { assert(binty(m, t) == (binty(n, t) || t == ty)); assert(d.contains_key(t) == binty(n, t)); }
        assert forall|t: TY| #[trigger] e.contains_key(t) implies vty(e[t]) == t by { if t != ty { assert(d.contains_key(t)); } }
    }
}
// what is built from a builder with at least one part is a group of exactly its parts
pub proof fn lemma_built(n: BN, d: DM)
    requires binv(n, d), n != nodir()
    ensures dist(gbuild(n)), typed(d), hasall(gbuild(n), d), forall|ty: TY| #[trigger] inty(gbuild(n), ty) == d.contains_key(ty), neat(gbuild(n)), bfull(n), bsrt(n),
        forall|p: LP, ty: TY| #[trigger] gpart(gbuild(n), p, ty) == part(n, p, ty)
{
    lemma_types(n); lemma_neat(n);
    assert forall|p: LP, ty: TY| #[trigger] gpart(gbuild(n), p, ty) == part(n, p, ty) by { lemma_paths(n, p, ty); }
    assert forall|ty: TY| #[trigger] inty(gbuild(n), ty) == d.contains_key(ty) by { assert(inty(gbuild(n), ty) == binty(n, ty)); assert(d.contains_key(ty) == binty(n, ty)); }
}
// numbering does not move parts
pub proof fn lemma_numb_lay(g: GN, i: int)
    ensures sibs(numb(g, i)) == sibs(g), fd(numb(g, i)) == fd(g), neats(numb(g, i)) == neats(g), neat(numb(g, i)) == neat(g), forall|p: LP, ty: TY| #[trigger] gpart(numb(g, i), p, ty) == gpart(g, p, ty)
    decreases g
{
    match g.data {
        GD::Fork(l, r) => {
            lemma_numb_lay(*l, i + 1); lemma_numb_lay(*r, i + 1 + gcnt(*l));
            assert forall|p: LP, ty: TY| #[trigger] gpart(numb(g, i), p, ty) == gpart(g, p, ty) by { assert(gpart(numb(*l, i + 1), p, ty) == gpart(*l, p, ty)); assert(gpart(numb(*r, i + 1 + gcnt(*l)), p, ty) == gpart(*r, p, ty)); }
        },
        GD::Labeled(b, n) => {
            lemma_numb_lay(*n, i + 1);
            assert forall|p: LP, ty: TY| #[trigger] gpart(numb(g, i), p, ty) == gpart(g, p, ty) by { assert(gpart(numb(*n, i + 1), rst(p), ty) == gpart(*n, rst(p), ty)); }
        },
        GD::Leaf(t) => {},
    }
}
// ---- in terms of the calls
pub open spec fn refused(n: BN, d: DM, p: LP, ty: TY) -> bool { d.contains_key(ty) || p.len() == 0 || clash(n, p) }
pub proof fn lemma_nopart() ensures forall|q: LP, t: TY| !(#[trigger] part(nodir(), q, t))
{ assert forall|q: LP, t: TY| !(#[trigger] part(nodir(), q, t)) by { reveal_with_fuel(part, 2); reveal_with_fuel(lpart, 2); } }
pub proof fn lemma_adds(n: BN, d: DM, p: LP, ty: TY)
    requires binv(n, d)
    ensures okins(n, p) ==> bins(n, p, ty) != nodir() && forall|q: LP, t: TY| #[trigger] part(bins(n, p, ty), q, t) == (part(n, q, t) || (q == p && t == ty))
{
    if okins(n, p) {
        lemma_bins(n, p, ty);
        assert(bfull(bins(n, p, ty)));
        assert forall|q: LP, t: TY| #[trigger] part(bins(n, p, ty), q, t) == (part(n, q, t) || (q == p && t == ty)) by { lemma_bins_part(n, p, ty, q, t); }
    }
}
pub proof fn lemma_bfull(n: BN) ensures bfull(n) ==> (n matches BN::Directory(l) ==> !(l is Nil) && glst(l).len() >= 1)
{ match n { BN::Directory(l) => { lemma_glen(l); }, _ => {} } }
pub proof fn lemma_group(n: BN, d: DM)
    requires binv(n, d), n != nodir()
    ensures ({ let g = numb(gbuild(n), 0); neat(g) && (forall|q: LP, t: TY| #[trigger] gpart(g, q, t) == part(n, q, t)) && (forall|t: TY| #[trigger] inty(g, t) == d.contains_key(t)) })
{
    let h = gbuild(n); let g = numb(h, 0);
    lemma_built(n, d); lemma_numb_lay(h, 0); lemma_numb(h, 0);
    assert forall|q: LP, t: TY| #[trigger] gpart(g, q, t) == part(n, q, t) by { assert(gpart(g, q, t) == gpart(h, q, t)); assert(gpart(h, q, t) == part(n, q, t)); }
    assert forall|t: TY| #[trigger] inty(g, t) == d.contains_key(t) by { assert(inty(h, t) == inty(g, t)); assert(inty(h, t) == d.contains_key(t)); }
}
// the loop over a directory's entries
pub open spec fn ltail(l: BL, m: BL) -> bool decreases m { l == m || (m matches BL::Cons(k, n, r) && ltail(l, *r)) }
pub proof fn lemma_entrystep(l: BL, d: GQ)
    ensures l matches BL::Cons(k, n, r) ==> d.push(GN { id: 0, data: GD::Labeled(k, Box::new(gbuild(*n))) }) + glst(*r) == d + glst(l), l is Nil ==> d + glst(l) == d, Seq::<GN>::empty() + glst(l) == glst(l), llen(l) >= 0
{
    lemma_glen(l);
    assert(Seq::<GN>::empty() + glst(l) =~= glst(l));
    match l { BL::Nil => { assert(d + glst(l) =~= d); }, BL::Cons(k, n, r) => { assert(d.push(GN { id: 0, data: GD::Labeled(k, Box::new(gbuild(*n))) }) + glst(*r) =~= d + glst(l)); } }
}
pub proof fn lemma_sub(l: BL, m: BL) ensures ltail(l, m) ==> lsz(l) <= lsz(m) && (lfull(m) ==> lfull(l)), ltail(l, m) ==> (l matches BL::Cons(k, n, r) ==> ltail(*r, m) && bsz(*n) <= lsz(l)) decreases m
{
    match l { BL::Cons(k, n, r) => { lemma_bsz(*n); lemma_lsz(*r); reveal_with_fuel(ltail, 2); }, _ => {} }
    match m { BL::Nil => {}, BL::Cons(k, n, r) => { lemma_bsz(*n); lemma_sub(l, *r); } }
}
