// Lemmas about generalized indices, and the tree a built proof has to spell (C04).
verus! {
global size_of usize == 8;
use vstd::arithmetic::power2::*;
pub open spec fn two64() -> nat { 0x1_0000_0000_0000_0000 }
pub open spec fn room(g: nat) -> nat { if g < two64() { (two64() - g) as nat } else { 0 } }
/// a lies in the subtree at h
pub open spec fn under(a: nat, h: nat) -> bool decreases a { a == h || (a > h && under(a / 2, h)) }
pub open spec fn nsib(h: nat) -> nat { if h % 2 == 0 { h + 1 } else { (h - 1) as nat } }
pub proof fn under_trans(a: nat, b: nat, c: nat) requires under(a, b), under(b, c) ensures under(a, c), c <= a decreases a
{ if a != b { under_trans(a / 2, b, c); } else if b != c { under_le(b / 2, c); } }
pub proof fn under_le(a: nat, h: nat) requires under(a, h) ensures h <= a decreases a { if a != h { under_le(a / 2, h); } }
pub proof fn under_one(a: nat) requires a >= 1 ensures under(a, 1) decreases a { if a > 1 { under_one(a / 2); } }
/// below a node there are its children
pub proof fn under_step(a: nat, h: nat) requires h >= 1
    ensures (a != h && under(a, h)) <==> (under(a, 2 * h) || under(a, 2 * h + 1)), !(under(a, 2 * h) && under(a, 2 * h + 1)) decreases a
{
    assert(under(h, h) && under(2 * h, 2 * h) && under(2 * h + 1, 2 * h + 1));
    if a > h {
        under_step(a / 2, h);
        if a / 2 == h { if under(a, 2 * h) && a != 2 * h { under_le(a / 2, 2 * h); } if under(a, 2 * h + 1) && a != 2 * h + 1 { under_le(a / 2, 2 * h + 1); } }
        else if under(a / 2, h) { if under(a / 2, 2 * h) { under_le(a / 2, 2 * h); } else { under_le(a / 2, 2 * h + 1); } }
    } else { if under(a, 2 * h) { under_le(a, 2 * h); } if under(a, 2 * h + 1) { under_le(a, 2 * h + 1); } }
}
/// siblings lie below the same nodes, except themselves
pub proof fn under_sib(h: nat, g: nat) requires g >= 1, h > 1, under(h, g), h != g ensures under(nsib(h), g), nsib(h) != g, nsib(h) > 1
{ assert(nsib(h) / 2 == h / 2); under_le(h / 2, g); }
pub open spec fn occ(s: Set<usize>, h: nat) -> bool { exists|a: usize| s.contains(a) && #[trigger] under(a as nat, h) }
/// a set of indices a proof can be built for
pub open spec fn antichain(s: Set<usize>) -> bool {
    &&& forall|a: usize| #[trigger] s.contains(a) ==> a > 1
    &&& forall|a: usize, b: usize| #[trigger] s.contains(a) && #[trigger] s.contains(b) && a != b ==> !under(a as nat, b as nat)
}
pub open spec fn okset(s: Set<usize>) -> bool { antichain(s) && exists|a: usize| s.contains(a) }
/// a sibling on the way up that no requested index lies below
pub open spec fn helper(s: Set<usize>, h: nat) -> bool { h > 1 && occ(s, nsib(h)) && !occ(s, h) }
pub open spec fn member(s: Set<usize>, h: nat) -> bool { h < two64() && s.contains(h as usize) }
pub open spec fn wanted(s: Set<usize>, h: nat) -> bool { member(s, h) || helper(s, h) }
pub open spec fn strict(s: Set<usize>, h: nat) -> bool { exists|a: usize| s.contains(a) && a as nat != h && #[trigger] under(a as nat, h) }
pub open spec fn ptree(f: spec_fn(nat) -> Seq<u8>, s: Set<usize>, g: nat) -> Tree decreases room(g) {
    if g == 0 || g >= two64() || !strict(s, g) { Tree::Leaf(f(g)) } else { Tree::Node(Box::new(ptree(f, s, 2 * g)), Box::new(ptree(f, s, 2 * g + 1))) }
}
pub proof fn wanted_fits(s: Set<usize>, h: nat) requires wanted(s, h) ensures h < two64()
{ if helper(s, h) { let a = choose|a: usize| s.contains(a) && #[trigger] under(a as nat, nsib(h)); under_le(a as nat, nsib(h)); } }
/// nothing is wanted strictly below an index nothing lies strictly below
proof fn wanted_strict(s: Set<usize>, g: nat, h: nat) requires g >= 1, antichain(s), wanted(s, h), under(h, g), h != g, h > 1 ensures strict(s, g)
{
    if member(s, h) { assert(under((h as usize) as nat, g)); } else {
        let a = choose|a: usize| s.contains(a) && #[trigger] under(a as nat, nsib(h));
        under_sib(h, g); under_trans(a as nat, nsib(h), g);
        under_le(a as nat, nsib(h)); under_le(nsib(h), g);
    }
}
proof fn strict_children(s: Set<usize>, g: nat) requires g >= 1, strict(s, g) ensures 2 * g + 1 < two64(), occ(s, 2 * g) || occ(s, 2 * g + 1), occ(s, g)
{
    let a = choose|a: usize| s.contains(a) && a as nat != g && #[trigger] under(a as nat, g);
    under_step(a as nat, g);
    if under(a as nat, 2 * g) { under_le(a as nat, 2 * g); } else { under_le(a as nat, 2 * g + 1); }
}
/// the leaves of the tree are the requested indices and the helpers
pub proof fn tree_members(f: spec_fn(nat) -> Seq<u8>, s: Set<usize>, g: nat)
    requires 1 <= g < two64(), antichain(s), occ(s, g),
    ensures forall|h: nat| #[trigger] gidx(ptree(f, s, g), g).contains(h) <==> under(h, g) && wanted(s, h),
    decreases room(g), 0nat,
{
    let t = ptree(f, s, g);
    if !strict(s, g) {
        let a = choose|a: usize| s.contains(a) && #[trigger] under(a as nat, g);
        assert(a as nat == g);
        assert(member(s, g));
        assert(gidx(t, g) == seq![g]);
        assert(seq![g][0] == g);
        assert forall|h: nat| #[trigger] gidx(t, g).contains(h) <==> under(h, g) && wanted(s, h) by {
            if under(h, g) && wanted(s, h) && h != g { under_le(h, g); wanted_strict(s, g, h); }
        }
    } else {
        strict_children(s, g);
        child_members(f, s, 2 * g); child_members(f, s, 2 * g + 1);
        let (l, r) = (ptree(f, s, 2 * g), ptree(f, s, 2 * g + 1));
        let (gl, gr) = (gidx(l, 2 * g), gidx(r, 2 * g + 1));
        assert(gidx(t, g) == gl + gr);
        assert forall|h: nat| #[trigger] gidx(t, g).contains(h) <==> under(h, g) && wanted(s, h) by {
            under_step(h, g);
            if gl.contains(h) { let i = choose|i: int| 0 <= i < gl.len() && gl[i] == h; assert((gl + gr)[i] == h); }
            if gr.contains(h) { let i = choose|i: int| 0 <= i < gr.len() && gr[i] == h; assert((gl + gr)[gl.len() + i] == h); }
            if (gl + gr).contains(h) { let i = choose|i: int| 0 <= i < (gl + gr).len() && (gl + gr)[i] == h; if i < gl.len() { assert(gl[i] == h); } else { assert(gr[i - gl.len()] == h); } }
            assert(!wanted(s, g)) by {
                let a = choose|a: usize| s.contains(a) && a as nat != g && #[trigger] under(a as nat, g);
                if member(s, g) { assert(!under(a as nat, (g as usize) as nat)); }
            }
        }
    }
}
proof fn child_members(f: spec_fn(nat) -> Seq<u8>, s: Set<usize>, c: nat)
    requires 1 < c < two64(), antichain(s), occ(s, c) || occ(s, nsib(c)),
    ensures forall|h: nat| #[trigger] gidx(ptree(f, s, c), c).contains(h) <==> under(h, c) && wanted(s, h),
    decreases room(c), 1nat,
{
    if occ(s, c) { tree_members(f, s, c); } else {
        assert(!strict(s, c));
        assert(helper(s, c));
        assert(gidx(ptree(f, s, c), c) == seq![c]);
        assert(seq![c][0] == c);
        assert forall|h: nat| #[trigger] gidx(ptree(f, s, c), c).contains(h) <==> under(h, c) && wanted(s, h) by {
            if under(h, c) && wanted(s, h) && h != c { under_le(h, c); wanted_strict(s, c, h); }
        }
    }
}
pub proof fn tree_leaves(f: spec_fn(nat) -> Seq<u8>, s: Set<usize>, g: nat)
    ensures leaves(ptree(f, s, g)).len() == gidx(ptree(f, s, g), g).len(), forall|i: int| 0 <= i < leaves(ptree(f, s, g)).len() ==> #[trigger] leaves(ptree(f, s, g))[i] == f(gidx(ptree(f, s, g), g)[i]),
    decreases room(g),
{
    if !(g == 0 || g >= two64() || !strict(s, g)) {
        tree_leaves(f, s, 2 * g); tree_leaves(f, s, 2 * g + 1);
        let (l, r) = (ptree(f, s, 2 * g), ptree(f, s, 2 * g + 1));
        assert(leaves(ptree(f, s, g)) == leaves(l) + leaves(r));
        assert(gidx(ptree(f, s, g), g) == gidx(l, 2 * g) + gidx(r, 2 * g + 1));
    }
}
pub proof fn gidx_under(t: Tree, g: nat) requires g >= 1 ensures forall|i: int| 0 <= i < gidx(t, g).len() ==> under(#[trigger] gidx(t, g)[i], g) decreases t
{
    match t { Tree::Leaf(_) => {}, Tree::Node(l, r) => {
        gidx_under(*l, 2 * g); gidx_under(*r, 2 * g + 1);
        assert forall|i: int| 0 <= i < gidx(t, g).len() implies under(#[trigger] gidx(t, g)[i], g) by { under_step(gidx(t, g)[i], g); if i < gidx(*l, 2 * g).len() { assert(gidx(t, g)[i] == gidx(*l, 2 * g)[i]); } else { assert(gidx(t, g)[i] == gidx(*r, 2 * g + 1)[i - gidx(*l, 2 * g).len()]); } }
    } }
}
// ---- the order ----
pub open spec fn bl(a: nat) -> nat decreases a { if a == 0 { 0 } else { 1 + bl(a / 2) } }
pub open spec fn width(a: nat) -> nat { pow2((64 - bl(a)) as nat) }
pub open spec fn sh(a: nat) -> nat { a * width(a) }
pub open spec fn before(a: nat, b: nat) -> bool { sh(a) < sh(b) || (sh(a) == sh(b) && bl(a) < bl(b)) }
pub proof fn bl_bound(a: nat) ensures a < pow2(bl(a)), a > 0 ==> bl(a) >= 1 && a >= pow2((bl(a) - 1) as nat) decreases a
{
    if a > 0 { bl_bound(a / 2); lemma_pow2_unfold(bl(a)); if bl(a) >= 2 { lemma_pow2_unfold((bl(a) - 1) as nat); assert(a / 2 > 0); } else { lemma2_to64(); } }
    else { lemma2_to64(); }
}
pub proof fn bl_64(a: nat) requires a < two64() ensures bl(a) <= 64
{ bl_bound(a); lemma2_to64(); lemma2_to64_rest(); if bl(a) > 64 { if bl(a) > 65 { lemma_pow2_strictly_increases(64, (bl(a) - 1) as nat); } assert(pow2((bl(a) - 1) as nat) >= pow2(64)); assert(pow2(64) == two64()); } }
pub proof fn bl_mono(a: nat, h: nat) requires under(a, h), h >= 1 ensures bl(h) <= bl(a) decreases a { if a != h { bl_mono(a / 2, h); } }
pub proof fn under_interval(a: nat, h: nat) requires under(a, h), 1 <= h, bl(a) <= 64 ensures sh(h) <= sh(a), sh(a) + width(a) <= sh(h) + width(h) decreases a
{
    if a != h {
        let p = a / 2;
        under_le(p, h);
        under_interval(p, h);
        lemma_pow2_unfold((64 - bl(p)) as nat);
        assert(width(p) == 2 * width(a));
        let w = width(a);
        assert(sh(p) == p * (2 * w));
        assert(p * (2 * w) == (2 * p) * w) by (nonlinear_arith);
        if a == 2 * p { assert(sh(a) == (2 * p) * w); } else { assert(a == 2 * p + 1); assert((2 * p + 1) * w == (2 * p) * w + w) by (nonlinear_arith); }
    }
}
/// what lies below the left child comes before what lies below the right child
pub proof fn left_before_right(x: nat, y: nat, g: nat) requires g >= 1, under(x, 2 * g), under(y, 2 * g + 1), x < two64(), y < two64() ensures before(x, y)
{
    bl_64(x); bl_64(y);
    under_interval(x, 2 * g); under_interval(y, 2 * g + 1);
    assert(bl(2 * g) == bl(2 * g + 1));
    let w = width(2 * g);
    assert((2 * g) * w + w == (2 * g + 1) * w) by (nonlinear_arith);
    lemma_pow2_pos((64 - bl(x)) as nat);
}
/// numbers of one bit length are ordered as numbers
pub proof fn before_total(a: nat, b: nat) requires a < two64(), b < two64() ensures before(a, b) || before(b, a) || a == b
{
    if sh(a) == sh(b) && bl(a) == bl(b) {
        let w = width(a); bl_64(a);
        lemma_pow2_pos((64 - bl(a)) as nat);
        assert(a * w == b * w);
        assert(a == b) by (nonlinear_arith) requires a * w == b * w, w > 0;
    }
}
pub open spec fn ordered(s: Seq<nat>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> before(#[trigger] s[i], #[trigger] s[j]) }
pub proof fn gidx_ordered(t: Tree, g: nat) requires g >= 1, forall|i: int| 0 <= i < gidx(t, g).len() ==> #[trigger] gidx(t, g)[i] < two64() ensures ordered(gidx(t, g)) decreases t
{
    match t { Tree::Leaf(_) => {}, Tree::Node(l, r) => {
        let (gl, gr) = (gidx(*l, 2 * g), gidx(*r, 2 * g + 1));
        assert forall|i: int| 0 <= i < gl.len() implies #[trigger] gl[i] < two64() by { assert(gidx(t, g)[i] == gl[i]); }
        assert forall|i: int| 0 <= i < gr.len() implies #[trigger] gr[i] < two64() by { assert(gidx(t, g)[gl.len() + i] == gr[i]); }
        gidx_ordered(*l, 2 * g); gidx_ordered(*r, 2 * g + 1);
        gidx_under(*l, 2 * g); gidx_under(*r, 2 * g + 1);
        assert forall|i: int, j: int| 0 <= i < j < gidx(t, g).len() implies before(#[trigger] gidx(t, g)[i], #[trigger] gidx(t, g)[j]) by {
            let (n, x, y) = (gl.len() as int, gidx(t, g)[i], gidx(t, g)[j]);
            if j < n { assert(x == gl[i] && y == gl[j]); } else if i >= n { assert(x == gr[i - n] && y == gr[j - n]); } else { assert(x == gl[i] && y == gr[j - n]); left_before_right(x, y, g); }
        }
    } }
}
/// one set has one ordered listing
pub proof fn ordered_unique(a: Seq<nat>, b: Seq<nat>) requires ordered(a), ordered(b), forall|h: nat| #[trigger] a.contains(h) <==> b.contains(h) ensures a == b decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else if b.len() == 0 { assert(a.contains(a[0])); }
    else {
        assert(a.contains(a[0]) && b.contains(b[0])); assert(b.contains(a[0]) && a.contains(b[0]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a[0];
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[0];
        if i > 0 { assert(before(b[0], b[i])); if j > 0 { assert(before(a[0], a[j])); } }
        let (x, y) = (a.skip(1), b.skip(1));
        assert(a[0] == b[0]);
        assert forall|h: nat| #[trigger] x.contains(h) <==> y.contains(h) by {
            if x.contains(h) { let k = choose|k: int| 0 <= k < x.len() && x[k] == h; assert(a[k + 1] == h); assert(before(a[0], a[k + 1])); assert(a.contains(h)); let m = choose|m: int| 0 <= m < b.len() && b[m] == h; assert(y[m - 1] == h); }
            if y.contains(h) { let k = choose|k: int| 0 <= k < y.len() && y[k] == h; assert(b[k + 1] == h); assert(before(b[0], b[k + 1])); assert(b.contains(h)); assert(a.contains(h)); let m = choose|m: int| 0 <= m < a.len() && a[m] == h; assert(x[m - 1] == h); }
        }
        assert forall|i: int, j: int| 0 <= i < j < x.len() implies before(#[trigger] x[i], #[trigger] x[j]) by { assert(before(a[i + 1], a[j + 1])); }
        assert forall|i: int, j: int| 0 <= i < j < y.len() implies before(#[trigger] y[i], #[trigger] y[j]) by { assert(before(b[i + 1], b[j + 1])); }
        ordered_unique(x, y);
        assert(a == seq![a[0]] + x); assert(b == seq![b[0]] + y);
    }
}
// ---- the shape ----
pub open spec fn tz(a: nat) -> nat decreases a { if a == 0 { 64 } else if a % 2 == 1 { 0 } else { 1 + tz(a / 2) } }
pub open spec fn zeros(n: nat) -> Seq<bool> { Seq::new(n, |i: int| false) }
pub open spec fn shape(s: Seq<nat>) -> Seq<bool> decreases s.len() { if s.len() == 0 { Seq::empty() } else { shape(s.drop_last()) + zeros(tz(s.last())) + seq![true] } }
pub proof fn shape_add(a: Seq<nat>, b: Seq<nat>) ensures shape(a + b) == shape(a) + shape(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b == a); assert(shape(a) + shape(b) =~= shape(a)); } else {
        assert((a + b).drop_last() == a + b.drop_last()); shape_add(a, b.drop_last());
        assert(shape(a + b) =~= shape(a) + shape(b));
    }
}
pub proof fn shape_tree(t: Tree, g: nat) requires g >= 1 ensures shape(gidx(t, g)) == zeros(tz(g)) + enc(t) decreases t
{
    match t {
        Tree::Leaf(_) => { assert(seq![g].drop_last() == Seq::<nat>::empty()); assert(shape(Seq::<nat>::empty()) =~= Seq::<bool>::empty()); assert(shape(seq![g]) =~= zeros(tz(g)) + enc(t)); }
        Tree::Node(l, r) => {
            shape_tree(*l, 2 * g); shape_tree(*r, 2 * g + 1); shape_add(gidx(*l, 2 * g), gidx(*r, 2 * g + 1));
            assert(tz(2 * g) == 1 + tz(g)); assert(tz(2 * g + 1) == 0);
            assert(zeros(1 + tz(g)) =~= zeros(tz(g)) + seq![false]);
            assert(shape(gidx(t, g)) =~= zeros(tz(g)) + enc(t));
        }
    }
}
} // verus!
