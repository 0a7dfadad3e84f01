// ---- groups: a tree of forks and labels over typed parts ---------------------------------------------------------
#[verifier::external_body] pub struct TY { _p: () }
// the type asked for (TypeId::of::<T>()), and the type of a part
pub uninterp spec fn tid() -> TY;
pub uninterp spec fn vty(v: V) -> TY;
pub struct GN { pub id: int, pub data: GD }
pub enum GD { Fork(Box<GN>, Box<GN>), Labeled(B, Box<GN>), Leaf(TY) }
pub type DM = Map<TY, V>;
pub type PM = Map<TY, Seq<int>>;
pub type LM = Map<TY, HT>;
pub type IS = Set<int>;
pub type PS = Seq<int>;
pub uninterp spec fn fw(f: F, v: V) -> HT;

pub open spec fn inty(g: GN, ty: TY) -> bool decreases g {
    match g.data { GD::Fork(l, r) => inty(*l, ty) || inty(*r, ty), GD::Labeled(b, n) => inty(*n, ty), GD::Leaf(t) => t == ty }
}
pub open spec fn disj(l: GN, r: GN) -> bool { forall|ty: TY| #![trigger inty(l, ty)] #![trigger inty(r, ty)] !(inty(l, ty) && inty(r, ty)) }
// no type is used twice
pub open spec fn dist(g: GN) -> bool decreases g {
    match g.data { GD::Fork(l, r) => disj(*l, *r) && dist(*l) && dist(*r), GD::Labeled(b, n) => dist(*n), GD::Leaf(t) => true }
}
pub open spec fn gcnt(g: GN) -> int decreases g {
    match g.data { GD::Fork(l, r) => 1 + gcnt(*l) + gcnt(*r), GD::Labeled(b, n) => 1 + gcnt(*n), GD::Leaf(t) => 1 }
}
// nodes numbered in preorder from i on
pub open spec fn numb(g: GN, i: int) -> GN decreases g {
    match g.data {
        GD::Fork(l, r) => GN { id: i, data: GD::Fork(Box::new(numb(*l, i + 1)), Box::new(numb(*r, i + 1 + gcnt(*l)))) },
        GD::Labeled(b, n) => GN { id: i, data: GD::Labeled(b, Box::new(numb(*n, i + 1))) },
        GD::Leaf(t) => GN { id: i, data: GD::Leaf(t) },
    }
}
// ids from g down to the part of type ty
pub open spec fn pth(g: GN, ty: TY) -> PS decreases g {
    match g.data {
        GD::Fork(l, r) => seq![g.id] + (if inty(*l, ty) { pth(*l, ty) } else { pth(*r, ty) }),
        GD::Labeled(b, n) => seq![g.id] + pth(*n, ty),
        GD::Leaf(t) => seq![g.id],
    }
}
// the table of all parts' ids
pub open spec fn deps(g: GN, path: PS, d: PM) -> PM decreases g {
    match g.data {
        GD::Fork(l, r) => deps(*r, path.push(g.id), deps(*l, path.push(g.id), d)),
        GD::Labeled(b, n) => deps(*n, path.push(g.id), d),
        GD::Leaf(t) => d.insert(t, path.push(g.id)),
    }
}
pub proof fn lemma_cnt(g: GN) ensures gcnt(g) >= 1 decreases g
{ match g.data { GD::Fork(l, r) => { lemma_cnt(*l); lemma_cnt(*r); }, GD::Labeled(b, n) => { lemma_cnt(*n); }, GD::Leaf(t) => {} } }
pub broadcast proof fn lemma_cnt_b(g: GN) ensures #[trigger] gcnt(g) >= 1 { lemma_cnt(g); }
pub proof fn lemma_numb(g: GN, i: int)
    ensures gcnt(numb(g, i)) == gcnt(g), numb(numb(g, i), i) == numb(g, i), dist(numb(g, i)) == dist(g), forall|ty: TY| inty(#[trigger] numb(g, i), ty) == inty(g, ty)
    decreases g
{
    match g.data {
        GD::Fork(l, r) => {
            lemma_numb(*l, i + 1); lemma_numb(*r, i + 1 + gcnt(*l));
            let a = numb(*l, i + 1); let b = numb(*r, i + 1 + gcnt(*l));
            assert forall|ty: TY| inty(numb(g, i), ty) == inty(g, ty) by { assert(inty(a, ty) == inty(*l, ty)); assert(inty(b, ty) == inty(*r, ty)); }
            assert forall|ty: TY| !(inty(a, ty) && inty(b, ty)) == !(inty(*l, ty) && inty(*r, ty)) by { assert(inty(a, ty) == inty(*l, ty)); assert(inty(b, ty) == inty(*r, ty)); }
            if disj(*l, *r) { assert forall|ty: TY| !(inty(a, ty) && inty(b, ty)) by { assert(!(inty(*l, ty) && inty(*r, ty))); } }
            if disj(a, b) { assert forall|ty: TY| !(inty(*l, ty) && inty(*r, ty)) by { assert(!(inty(a, ty) && inty(b, ty))); } }
        },
        GD::Labeled(b, n) => { lemma_numb(*n, i + 1); assert forall|ty: TY| inty(numb(g, i), ty) == inty(g, ty) by { assert(inty(numb(*n, i + 1), ty) == inty(*n, ty)); } },
        GD::Leaf(t) => {},
    }
}
pub proof fn lemma_deps(g: GN, path: PS, d: PM)
    requires dist(g)
    ensures forall|ty: TY| #![trigger deps(g, path, d).contains_key(ty)] #![trigger inty(g, ty)]
        if inty(g, ty) { deps(g, path, d).contains_key(ty) && deps(g, path, d)[ty] == path + pth(g, ty) }
        else { deps(g, path, d).contains_key(ty) == d.contains_key(ty) && deps(g, path, d)[ty] == d[ty] }
{
    assert forall|ty: TY| #![trigger deps(g, path, d).contains_key(ty)] #![trigger inty(g, ty)]
        if inty(g, ty) { deps(g, path, d).contains_key(ty) && deps(g, path, d)[ty] == path + pth(g, ty) }
        else { deps(g, path, d).contains_key(ty) == d.contains_key(ty) && deps(g, path, d)[ty] == d[ty] } by { lemma_deps_at(g, path, d, ty); }
}
pub proof fn lemma_deps_at(g: GN, path: PS, d: PM, ty: TY)
    requires dist(g)
    ensures inty(g, ty) ==> deps(g, path, d).contains_key(ty) && deps(g, path, d)[ty] == path + pth(g, ty),
        !inty(g, ty) ==> deps(g, path, d).contains_key(ty) == d.contains_key(ty) && deps(g, path, d)[ty] == d[ty]
    decreases g
{
    let p = path.push(g.id);
    match g.data {
        GD::Fork(l, r) => {
            let d1 = deps(*l, p, d);
            lemma_deps_at(*l, p, d, ty); lemma_deps_at(*r, p, d1, ty);
            assert(deps(g, path, d) == deps(*r, p, d1));
            assert(p + pth(*l, ty) =~= path + (seq![g.id] + pth(*l, ty)));
            assert(p + pth(*r, ty) =~= path + (seq![g.id] + pth(*r, ty)));
            assert(!(inty(*l, ty) && inty(*r, ty)));
        },
        GD::Labeled(b, n) => { lemma_deps_at(*n, p, d, ty); assert(p + pth(*n, ty) =~= path + (seq![g.id] + pth(*n, ty))); },
        GD::Leaf(t) => { assert(p =~= path + seq![g.id]); },
    }
}

// ---- what a group certifies --------------------------------------------------------------------------------------
pub open spec fn gh(g: GN, d: DM) -> H decreases g {
    match g.data { GD::Fork(l, r) => h_fork(gh(*l, d), gh(*r, d)), GD::Labeled(b, n) => h_lab(b, gh(*n, d)), GD::Leaf(t) => vh(d[t]) }
}
pub open spec fn gt(g: GN, d: DM) -> HT decreases g {
    match g.data {
        GD::Fork(l, r) => HT::Fork(Box::new(gt(*l, d)), Box::new(gt(*r, d))), GD::Labeled(b, n) => HT::Labeled(b, Box::new(gt(*n, d))), GD::Leaf(t) => vt(d[t]),
    }
}
pub proof fn lemma_gt(g: GN, d: DM) ensures recon(gt(g, d)) == gh(g, d) decreases g
{ match g.data { GD::Fork(l, r) => { lemma_gt(*l, d); lemma_gt(*r, d); }, GD::Labeled(b, n) => { lemma_gt(*n, d); }, GD::Leaf(t) => { ax_vt(d[t]); } } }
// is a part that was asked for below g
pub open spec fn touch(g: GN, a: LM) -> bool decreases g {
    match g.data { GD::Fork(l, r) => touch(*l, a) || touch(*r, a), GD::Labeled(b, n) => touch(*n, a), GD::Leaf(t) => a.contains_key(t) }
}
// the witness: what was asked for under its labels, everything else pruned
pub open spec fn gsel(g: GN, d: DM, a: LM) -> HT decreases g {
    if !touch(g, a) { HT::Pruned(gh(g, d)) } else {
        match g.data {
            GD::Fork(l, r) => HT::Fork(Box::new(gsel(*l, d, a)), Box::new(gsel(*r, d, a))), GD::Labeled(b, n) => HT::Labeled(b, Box::new(gsel(*n, d, a))), GD::Leaf(t) => a[t],
        }
    }
}
pub open spec fn lawful(a: LM, d: DM) -> bool { forall|ty: TY| #[trigger] a.contains_key(ty) ==> recon(a[ty]) == vh(d[ty]) }
pub proof fn lemma_gsel(g: GN, d: DM, a: LM) requires lawful(a, d) ensures recon(gsel(g, d, a)) == gh(g, d) decreases g
{ match g.data { GD::Fork(l, r) => { lemma_gsel(*l, d, a); lemma_gsel(*r, d, a); }, GD::Labeled(b, n) => { lemma_gsel(*n, d, a); }, GD::Leaf(t) => {} } }
// the marked nodes are those above what was asked for
pub open spec fn okv(g: GN, vis: IS, a: LM) -> bool decreases g {
    &&& vis.contains(g.id) == touch(g, a)
    &&& match g.data { GD::Fork(l, r) => okv(*l, vis, a) && okv(*r, vis, a), GD::Labeled(b, n) => okv(*n, vis, a), GD::Leaf(t) => true }
}
// what is left of the answers once g has used its own
pub open spec fn rest(g: GN, a: LM) -> LM decreases g {
    match g.data { GD::Fork(l, r) => rest(*r, rest(*l, a)), GD::Labeled(b, n) => rest(*n, a), GD::Leaf(t) => a.remove(t) }
}
pub open spec fn agree(g: GN, a: LM, b: LM) -> bool { forall|ty: TY| #[trigger] inty(g, ty) ==> a.contains_key(ty) == b.contains_key(ty) && (a.contains_key(ty) ==> a[ty] == b[ty]) }
pub proof fn lemma_rest(g: GN, a: LM)
    ensures forall|ty: TY| #![trigger rest(g, a).contains_key(ty)] #![trigger inty(g, ty)] rest(g, a).contains_key(ty) == (a.contains_key(ty) && !inty(g, ty)) && (rest(g, a).contains_key(ty) ==> rest(g, a)[ty] == a[ty]),
        !touch(g, a) ==> rest(g, a) =~= a
    decreases g
{
    match g.data {
        GD::Fork(l, r) => {
            let a1 = rest(*l, a);
            lemma_rest(*l, a); lemma_rest(*r, a1);
            assert forall|ty: TY| rest(g, a).contains_key(ty) == (a.contains_key(ty) && !inty(g, ty)) && (rest(g, a).contains_key(ty) ==> rest(g, a)[ty] == a[ty]) by {
                assert(a1.contains_key(ty) == (a.contains_key(ty) && !inty(*l, ty)));
                assert(rest(*r, a1).contains_key(ty) == (a1.contains_key(ty) && !inty(*r, ty)));
            }
            if !touch(g, a) { assert(a1 =~= a); }
        },
        GD::Labeled(b, n) => {
            lemma_rest(*n, a);
            assert forall|ty: TY| rest(g, a).contains_key(ty) == (a.contains_key(ty) && !inty(g, ty)) && (rest(g, a).contains_key(ty) ==> rest(g, a)[ty] == a[ty]) by {
                assert(rest(*n, a).contains_key(ty) == (a.contains_key(ty) && !inty(*n, ty)));
            }
        },
        GD::Leaf(t) => {},
    }
}
pub proof fn lemma_agree(g: GN, vis: IS, d: DM, a: LM, b: LM)
    requires agree(g, a, b)
    ensures touch(g, a) == touch(g, b), okv(g, vis, a) == okv(g, vis, b), gsel(g, d, a) == gsel(g, d, b)
    decreases g
{
    match g.data {
        GD::Fork(l, r) => {
            assert(agree(*l, a, b)) by { assert forall|ty: TY| #[trigger] inty(*l, ty) implies a.contains_key(ty) == b.contains_key(ty) && (a.contains_key(ty) ==> a[ty] == b[ty]) by { assert(inty(g, ty)); } }
            assert(agree(*r, a, b)) by { assert forall|ty: TY| #[trigger] inty(*r, ty) implies a.contains_key(ty) == b.contains_key(ty) && (a.contains_key(ty) ==> a[ty] == b[ty]) by { assert(inty(g, ty)); } }
            lemma_agree(*l, vis, d, a, b); lemma_agree(*r, vis, d, a, b);
        },
        GD::Labeled(l, n) => {
            assert(agree(*n, a, b)) by { assert forall|ty: TY| #[trigger] inty(*n, ty) implies a.contains_key(ty) == b.contains_key(ty) && (a.contains_key(ty) ==> a[ty] == b[ty]) by { assert(inty(g, ty)); } }
            lemma_agree(*n, vis, d, a, b);
        },
        GD::Leaf(t) => { assert(inty(g, t)); },
    }
}
// the steps of a witness
pub proof fn lemma_wit(g: GN, vis: IS, d: DM, a: LM)
    requires dist(g)
    ensures okv(g, vis, a) && !touch(g, a) ==> rest(g, a) =~= a,
        g.data matches GD::Fork(l, r) ==> ({
            let a1 = rest(*l, a);
            &&& okv(*r, vis, a1) == okv(*r, vis, a)
            &&& gsel(*r, d, a1) == gsel(*r, d, a)
        })
{
    lemma_rest(g, a);
    match g.data {
        GD::Fork(l, r) => {
            let a1 = rest(*l, a);
            lemma_rest(*l, a);
            assert(agree(*r, a1, a)) by { assert forall|ty: TY| #[trigger] inty(*r, ty) implies a1.contains_key(ty) == a.contains_key(ty) && (a1.contains_key(ty) ==> a1[ty] == a[ty]) by { assert(!inty(*l, ty)); } }
            lemma_agree(*r, vis, d, a1, a);
        },
        _ => {},
    }
}

// ---- the invariants ------------------------------------------------------------------------------------------------
pub open spec fn typed(d: DM) -> bool { forall|ty: TY| #[trigger] d.contains_key(ty) ==> vty(d[ty]) == ty }
pub open spec fn hasall(g: GN, d: DM) -> bool { forall|ty: TY| #[trigger] inty(g, ty) ==> d.contains_key(ty) }
pub open spec fn paths(g: GN, p: PM) -> bool { forall|ty: TY| #[trigger] inty(g, ty) ==> p.contains_key(ty) && p[ty] == pth(g, ty) }
pub open spec fn ginv(g: GN, d: DM, p: PM) -> bool { g == numb(g, 0) && dist(g) && typed(d) && hasall(g, d) && paths(g, p) }
pub open spec fn onpath(p: PM, a: LM, ty: TY, i: int) -> bool { a.contains_key(ty) && p[ty].contains(i) }
pub open spec fn rinv(g: GN, d: DM, p: PM, vis: IS, a: LM) -> bool {
    &&& forall|ty: TY| #[trigger] a.contains_key(ty) ==> inty(g, ty)
    &&& forall|i: int| #[trigger] vis.contains(i) <==> exists|ty: TY| onpath(p, a, ty, i)
    &&& lawful(a, d)
}
// a freshly numbered tree
pub proof fn lemma_init(g: GN, d: DM)
    requires dist(g), typed(d), hasall(g, d)
    ensures ginv(numb(g, 0), d, deps(numb(g, 0), Seq::empty(), Map::empty())), gh(numb(g, 0), d) == gh(g, d), gt(numb(g, 0), d) == gt(g, d)
{
    let n = numb(g, 0);
    lemma_numb(g, 0);
    lemma_deps(n, Seq::empty(), Map::empty());
    assert forall|ty: TY| #[trigger] inty(n, ty) implies d.contains_key(ty) by { assert(inty(g, ty)); }
    assert forall|ty: TY| #[trigger] inty(n, ty) implies deps(n, Seq::empty(), Map::empty())[ty] == pth(n, ty) by { assert(Seq::<int>::empty() + pth(n, ty) =~= pth(n, ty)); }
    lemma_numb_h(g, 0, d);
}
pub proof fn lemma_numb_h(g: GN, i: int, d: DM) ensures gh(numb(g, i), d) == gh(g, d), gt(numb(g, i), d) == gt(g, d) decreases g
{ match g.data { GD::Fork(l, r) => { lemma_numb_h(*l, i + 1, d); lemma_numb_h(*r, i + 1 + gcnt(*l), d); }, GD::Labeled(b, n) => { lemma_numb_h(*n, i + 1, d); }, GD::Leaf(t) => {} } }
// ids on the way to a part are those of its own subtree
pub proof fn lemma_range(g: GN, i: int, ty: TY)
    requires g == numb(g, i), inty(g, ty)
    ensures forall|j: int| #[trigger] pth(g, ty).contains(j) ==> i <= j < i + gcnt(g), pth(g, ty).contains(i)
    decreases g
{
    assert(pth(g, ty)[0] == i);
    match g.data {
        GD::Fork(l, r) => {
            lemma_cnt(*l); lemma_cnt(*r);
            if inty(*l, ty) { lemma_range(*l, i + 1, ty); } else { lemma_range(*r, i + 1 + gcnt(*l), ty); }
            let q = if inty(*l, ty) { pth(*l, ty) } else { pth(*r, ty) };
            assert forall|j: int| #[trigger] pth(g, ty).contains(j) implies i <= j < i + gcnt(g) by {
                let k = choose|k: int| 0 <= k < pth(g, ty).len() && pth(g, ty)[k] == j;
                if k > 0 { assert(q[k - 1] == j); assert(q.contains(j)); }
            }
        },
        GD::Labeled(b, n) => {
            lemma_cnt(*n);
            lemma_range(*n, i + 1, ty);
            assert forall|j: int| #[trigger] pth(g, ty).contains(j) implies i <= j < i + gcnt(g) by {
                let k = choose|k: int| 0 <= k < pth(g, ty).len() && pth(g, ty)[k] == j;
                if k > 0 { assert(pth(*n, ty)[k - 1] == j); assert(pth(*n, ty).contains(j)); }
            }
        },
        GD::Leaf(t) => {},
    }
}
pub open spec fn below(g: GN, a: LM, ty: TY, j: int) -> bool { a.contains_key(ty) && inty(g, ty) && pth(g, ty).contains(j) }
pub open spec fn marked(g: GN, i: int, vis: IS, a: LM) -> bool { forall|j: int| i <= j < i + gcnt(g) ==> (#[trigger] vis.contains(j) <==> exists|ty: TY| below(g, a, ty, j)) }
pub proof fn lemma_touch(g: GN, a: LM) ensures touch(g, a) <==> exists|ty: TY| a.contains_key(ty) && #[trigger] inty(g, ty) decreases g
{
    match g.data {
        GD::Fork(l, r) => {
            lemma_touch(*l, a); lemma_touch(*r, a);
            if touch(*l, a) { let ty = choose|ty: TY| a.contains_key(ty) && #[trigger] inty(*l, ty); assert(inty(g, ty)); }
            if touch(*r, a) { let ty = choose|ty: TY| a.contains_key(ty) && #[trigger] inty(*r, ty); assert(inty(g, ty)); }
        },
        GD::Labeled(b, n) => { lemma_touch(*n, a); if touch(*n, a) { let ty = choose|ty: TY| a.contains_key(ty) && #[trigger] inty(*n, ty); assert(inty(g, ty)); } },
        GD::Leaf(t) => { if a.contains_key(t) { assert(inty(g, t)); } },
    }
    if exists|ty: TY| a.contains_key(ty) && #[trigger] inty(g, ty) {
        let ty = choose|ty: TY| a.contains_key(ty) && #[trigger] inty(g, ty);
        match g.data {
            GD::Fork(l, r) => { if inty(*l, ty) { assert(touch(*l, a)); } else { assert(inty(*r, ty)); assert(touch(*r, a)); } },
            GD::Labeled(b, n) => { assert(inty(*n, ty)); assert(touch(*n, a)); },
            GD::Leaf(t) => {},
        }
    }
}
pub proof fn lemma_marked(g: GN, i: int, vis: IS, a: LM)
    requires g == numb(g, i), dist(g), marked(g, i, vis, a)
    ensures okv(g, vis, a)
    decreases g
{
    lemma_touch(g, a);
    lemma_cnt(g);
    assert(vis.contains(i) == touch(g, a)) by {
        if touch(g, a) { let ty = choose|ty: TY| a.contains_key(ty) && #[trigger] inty(g, ty); lemma_range(g, i, ty); assert(below(g, a, ty, i)); }
        if vis.contains(i) { let ty = choose|ty: TY| below(g, a, ty, i); assert(inty(g, ty)); }
    }
    match g.data {
        GD::Fork(l, r) => {
            lemma_cnt(*l); lemma_cnt(*r);
            assert(marked(*l, i + 1, vis, a)) by { assert forall|j: int| i + 1 <= j < i + 1 + gcnt(*l) implies (#[trigger] vis.contains(j) <==> exists|ty: TY| below(*l, a, ty, j)) by { lemma_down(g, *l, i, i + 1, a, j, vis); } }
            assert(marked(*r, i + 1 + gcnt(*l), vis, a)) by { assert forall|j: int| i + 1 + gcnt(*l) <= j < i + 1 + gcnt(*l) + gcnt(*r) implies (#[trigger] vis.contains(j) <==> exists|ty: TY| below(*r, a, ty, j)) by { lemma_down(g, *r, i, i + 1 + gcnt(*l), a, j, vis); } }
            lemma_marked(*l, i + 1, vis, a);
            lemma_marked(*r, i + 1 + gcnt(*l), vis, a);
        },
        GD::Labeled(b, n) => {
            lemma_cnt(*n);
            assert(marked(*n, i + 1, vis, a)) by { assert forall|j: int| i + 1 <= j < i + 1 + gcnt(*n) implies (#[trigger] vis.contains(j) <==> exists|ty: TY| below(*n, a, ty, j)) by { lemma_down(g, *n, i, i + 1, a, j, vis); } }
            lemma_marked(*n, i + 1, vis, a);
        },
        GD::Leaf(t) => {},
    }
}
// a child c of g, whose ids start at k
pub proof fn lemma_down(g: GN, c: GN, i: int, k: int, a: LM, j: int, vis: IS)
    requires g == numb(g, i), dist(g), c == numb(c, k), k <= j < k + gcnt(c), vis.contains(j) <==> exists|ty: TY| below(g, a, ty, j),
        (g.data matches GD::Fork(l, r) && ((c == *l && k == i + 1) || (c == *r && k == i + 1 + gcnt(*l)))) || (g.data matches GD::Labeled(b, n) && c == *n && k == i + 1)
    ensures vis.contains(j) <==> exists|ty: TY| below(c, a, ty, j)
{
    lemma_cnt(c);
    if exists|ty: TY| below(g, a, ty, j) {
        let ty = choose|ty: TY| below(g, a, ty, j);
        let z = choose|z: int| 0 <= z < pth(g, ty).len() && pth(g, ty)[z] == j;
        assert(pth(g, ty)[0] == i) by { assert(numb(g, i).id == i); match g.data { GD::Fork(l, r) => { assert((seq![g.id] + (if inty(*l, ty) { pth(*l, ty) } else { pth(*r, ty) }))[0] == g.id); }, GD::Labeled(b, n) => { assert((seq![g.id] + pth(*n, ty))[0] == g.id); }, GD::Leaf(t) => {} } }
        assert(j != i) by { match g.data { GD::Fork(l, r) => { lemma_cnt(*l); }, _ => {} } }
        assert(z > 0);
        match g.data {
            GD::Fork(l, r) => {
                lemma_cnt(*l); lemma_cnt(*r);
                let q = if inty(*l, ty) { *l } else { *r };
                let qi = if inty(*l, ty) { i + 1 } else { i + 1 + gcnt(*l) };
                assert(inty(q, ty));
                assert(pth(q, ty)[z - 1] == j);
                assert(pth(q, ty).contains(j));
                lemma_range(q, qi, ty);
                assert(qi == k);
                assert(q == c);
            },
            GD::Labeled(b, n) => { assert(pth(*n, ty)[z - 1] == j); assert(pth(*n, ty).contains(j)); },
            GD::Leaf(t) => {},
        }
        assert(below(c, a, ty, j));
    }
    if exists|ty: TY| below(c, a, ty, j) {
        let ty = choose|ty: TY| below(c, a, ty, j);
        let z = choose|z: int| 0 <= z < pth(c, ty).len() && pth(c, ty)[z] == j;
        match g.data {
            GD::Fork(l, r) => { if inty(*l, ty) { assert(!inty(*r, ty)); } assert(pth(g, ty)[z + 1] == j); },
            GD::Labeled(b, n) => { assert(pth(g, ty)[z + 1] == j); },
            GD::Leaf(t) => {},
        }
        assert(inty(g, ty));
        assert(pth(g, ty).contains(j));
        assert(below(g, a, ty, j));
    }
}
pub proof fn lemma_ray(g: GN, d: DM, p: PM, vis: IS, a: LM)
    requires ginv(g, d, p), rinv(g, d, p, vis, a)
    ensures okv(g, vis, a), recon(gsel(g, d, a)) == gh(g, d)
{
    assert(marked(g, 0, vis, a)) by {
        assert forall|j: int| 0 <= j < 0 + gcnt(g) implies (#[trigger] vis.contains(j) <==> exists|ty: TY| below(g, a, ty, j)) by {
            if vis.contains(j) { let ty = choose|ty: TY| onpath(p, a, ty, j); assert(inty(g, ty)); assert(below(g, a, ty, j)); }
            if exists|ty: TY| below(g, a, ty, j) { let ty = choose|ty: TY| below(g, a, ty, j); assert(onpath(p, a, ty, j)); }
        }
    }
    lemma_marked(g, 0, vis, a);
    lemma_gsel(g, d, a);
}
pub open spec fn addall(vis: IS, s: PS) -> IS decreases s.len() { if s.len() == 0 { vis } else { addall(vis, s.drop_last()).insert(s.last()) } }
pub proof fn lemma_addall(vis: IS, s: PS) ensures forall|i: int| #[trigger] addall(vis, s).contains(i) <==> vis.contains(i) || s.contains(i) decreases s.len()
{
    if s.len() > 0 {
        lemma_addall(vis, s.drop_last());
        assert forall|i: int| #[trigger] addall(vis, s).contains(i) <==> vis.contains(i) || s.contains(i) by {
            if s.contains(i) && i != s.last() { let k = choose|k: int| 0 <= k < s.len() && s[k] == i; assert(s.drop_last()[k] == i); }
            if s.drop_last().contains(i) { let k = choose|k: int| 0 <= k < s.drop_last().len() && s.drop_last()[k] == i; assert(s[k] == i); }
            assert(s[s.len() - 1] == s.last());
            assert(addall(vis, s.drop_last()).contains(i) <==> vis.contains(i) || s.drop_last().contains(i));
        }
    }
}
pub proof fn lemma_addstep(vis: IS, s: PS, k: int)
    ensures 0 <= k < s.len() ==> addall(vis, s.subrange(0, k + 1)) == addall(vis, s.subrange(0, k)).insert(s[k]) && s.subrange(k, s.len() as int)[0] == s[k]
            && s.subrange(k, s.len() as int).subrange(1, s.len() - k) =~= s.subrange(k + 1, s.len() as int),
        s.subrange(0, s.len() as int) =~= s, s.subrange(0, 0) =~= Seq::empty(), addall(vis, s.subrange(0, 0)) == vis
{
    if 0 <= k < s.len() { assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k])); assert(s.subrange(0, k).push(s[k]).drop_last() =~= s.subrange(0, k)); }
    assert(s.subrange(0, 0) =~= Seq::empty());
}
// asking for one more part
pub proof fn lemma_ask(g: GN, d: DM, p: PM, vis: IS, a: LM, ty: TY, u: HT)
    requires ginv(g, d, p), rinv(g, d, p, vis, a), inty(g, ty), recon(u) == vh(d[ty])
    ensures rinv(g, d, p, addall(vis, p[ty]), a.insert(ty, u)), p.contains_key(ty), d.contains_key(ty), vty(d[ty]) == ty
{
    let v2 = addall(vis, p[ty]);
    let a2 = a.insert(ty, u);
    lemma_addall(vis, p[ty]);
    assert forall|i: int| #[trigger] v2.contains(i) <==> exists|t: TY| onpath(p, a2, t, i) by {
        assert(vis.contains(i) <==> exists|t: TY| onpath(p, a, t, i));
        if vis.contains(i) { let t = choose|t: TY| onpath(p, a, t, i); assert(onpath(p, a2, t, i)); }
        if p[ty].contains(i) { assert(onpath(p, a2, ty, i)); }
        if exists|t: TY| onpath(p, a2, t, i) { let t = choose|t: TY| onpath(p, a2, t, i); if t != ty { assert(onpath(p, a, t, i)); } }
    }
}
// a ray that has marked all of a part's ancestors
pub proof fn lemma_full(vis: IS, s: PS) ensures s.subrange(0, s.len() as int) =~= s, addall(vis, s.subrange(0, s.len() - 0)) == addall(vis, s)
{ assert(s.subrange(0, s.len() as int) =~= s); }
pub proof fn lemma_pushpop(s: PS, i: int) ensures s.push(i).drop_last() == s, s.push(i).len() > 0 { assert(s.push(i).drop_last() =~= s); }
pub proof fn lemma_parts(g: GN, d: DM)
    ensures g.data matches GD::Fork(l, r) ==> gcnt(*l) >= 1 && gcnt(*r) >= 1, hasall(g, d) ==> (match g.data { GD::Fork(l, r) => hasall(*l, d) && hasall(*r, d), GD::Labeled(b, n) => hasall(*n, d), GD::Leaf(t) => d.contains_key(t) })
{
    match g.data { GD::Fork(l, r) => { lemma_cnt(*l); lemma_cnt(*r); }, _ => {} }
    if hasall(g, d) {
        match g.data {
            GD::Fork(l, r) => {
                assert forall|ty: TY| #[trigger] inty(*l, ty) implies d.contains_key(ty) by { assert(inty(g, ty)); }
                assert forall|ty: TY| #[trigger] inty(*r, ty) implies d.contains_key(ty) by { assert(inty(g, ty)); }
            },
            GD::Labeled(b, n) => { assert forall|ty: TY| #[trigger] inty(*n, ty) implies d.contains_key(ty) by { assert(inty(g, ty)); } },
            GD::Leaf(t) => { assert(inty(g, t)); },
        }
    }
}
