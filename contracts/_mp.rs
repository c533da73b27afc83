// The compact multiproof (ssz-multiproofs/src/multiproof.rs).
verus! {
// ---- models of the surrounding types ----
// bitvec::BitVec<u32, Lsb0> is a sequence of bits
pub type Descriptor = Vec<bool>;
pub mod ssz_rs { pub struct MerkleizationError { } }
//@item ssz-multiproofs/src/error.rs | enum | Error
pub type Result<T> = core::result::Result<T, Error>;
/// an iterator that yields view() and then None, or, if poison(), panics instead of ending
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PIter<T> { v: Vec<T> }
impl<T> View for PIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> PIter<T> { pub uninterp spec fn poison(&self) -> bool; }
impl<T> Iterator for PIter<T> {
    type Item = T;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@ && !old(self).poison(),
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
            final(self).poison() == old(self).poison(),
    { unimplemented!() }
}
impl<T> IteratorSpecImpl for PIter<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic] open spec fn remaining(&self) -> Seq<T> { self@ }
    #[verifier::prophetic] open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self@.len()) }
    open spec fn peek(&self, i: int) -> Option<T> { if 0 <= i < self@.len() { Some(self@[i]) } else { None } }
}
// ---- spec ----
pub enum Tree { Leaf(Seq<u8>), Node(Box<Tree>, Box<Tree>) }
pub open spec fn enc(t: Tree) -> Seq<bool> decreases t {
  match t { Tree::Leaf(_) => seq![true], Tree::Node(l, r) => seq![false] + enc(*l) + enc(*r) }
}
pub open spec fn leaves(t: Tree) -> Seq<Seq<u8>> decreases t {
  match t { Tree::Leaf(c) => seq![c], Tree::Node(l, r) => leaves(*l) + leaves(*r) }
}
pub open spec fn troot(t: Tree) -> Seq<u8> decreases t {
  match t { Tree::Leaf(c) => c, Tree::Node(l, r) => sha256(troot(*l) + troot(*r)) }
}
pub open spec fn chunk(data: Seq<u8>, i: int) -> Seq<u8> { data.subrange(32 * i, 32 * i + 32) }
pub open spec fn proves(t: Tree, data: Seq<u8>, d: Seq<bool>) -> bool {
  &&& t is Node
  &&& enc(t) == d
  &&& leaves(t).len() * 32 <= data.len()
  &&& forall|i: int| 0 <= i < leaves(t).len() ==> #[trigger] leaves(t)[i] == chunk(data, i)
}
pub open spec fn valid(data: Seq<u8>, d: Seq<bool>) -> bool { exists|t: Tree| proves(t, data, d) }

// ---- machine ----
pub type St = Seq<Option<Tree>>;
pub open spec fn reducible(s: St) -> bool { s.len() >= 3 && s[s.len()-1] is Some && s[s.len()-2] is Some && s[s.len()-3] is None }
pub open spec fn reduce1(s: St) -> St { s.take(s.len()-3).push(Some(Tree::Node(Box::new(s[s.len()-2]->0), Box::new(s[s.len()-1]->0)))) }
pub open spec fn reduce(s: St) -> St decreases s.len() {
  if reducible(s) { reduce(reduce1(s)) } else { s }
}
pub open spec fn step(s: St, b: bool, c: Seq<u8>) -> St { if b { reduce(s.push(Some(Tree::Leaf(c)))) } else { s.push(None) } }
pub open spec fn ones(d: Seq<bool>) -> nat decreases d.len() { if d.len() == 0 { 0 } else { ones(d.drop_last()) + if d.last() { 1nat } else { 0nat } } }
pub open spec fn run(s: St, d: Seq<bool>, data: Seq<u8>, k: int) -> St decreases d.len() {
  if d.len() == 0 { s } else { step(run(s, d.drop_last(), data, k), d.last(), chunk(data, k + ones(d.drop_last()))) }
}
proof fn run_push(s: St, d: Seq<bool>, b: bool, data: Seq<u8>, k: int)
  ensures run(s, d.push(b), data, k) == step(run(s, d, data, k), b, chunk(data, k + ones(d))), ones(d.push(b)) == ones(d) + if b {1nat} else {0nat}
{ assert(d.push(b).drop_last() == d); }
proof fn ones_add(a: Seq<bool>, b: Seq<bool>) ensures ones(a + b) == ones(a) + ones(b) decreases b.len()
{
  if b.len() == 0 { assert(a + b == a); } else { assert((a + b).drop_last() == a + b.drop_last()); ones_add(a, b.drop_last()); }
}
proof fn run_add(s: St, a: Seq<bool>, b: Seq<bool>, data: Seq<u8>, k: int)
  ensures run(s, a + b, data, k) == run(run(s, a, data, k), b, data, k + ones(a)) decreases b.len()
{
  if b.len() == 0 { assert(a + b == a); } else {
    assert((a + b).drop_last() == a + b.drop_last()); run_add(s, a, b.drop_last(), data, k); ones_add(a, b.drop_last());
  }
}
proof fn enc_ones(t: Tree) ensures ones(enc(t)) == leaves(t).len(), enc(t).len() == 2 * leaves(t).len() - 1, leaves(t).len() >= 1 decreases t
{
  match t { Tree::Leaf(c) => { assert(seq![true].drop_last() == Seq::<bool>::empty()); assert(ones(seq![true].drop_last()) == 0); }
    Tree::Node(l, r) => { enc_ones(*l); enc_ones(*r); ones_add(seq![false] + enc(*l), enc(*r)); ones_add(seq![false], enc(*l));
      assert(seq![false].drop_last() == Seq::<bool>::empty()); assert(ones(seq![false].drop_last()) == 0); } }
}
/// completeness of the machine: running the encoding of t leaves t on the stack
proof fn run_enc(s: St, t: Tree, data: Seq<u8>, k: int)
  requires forall|i: int| 0 <= i < leaves(t).len() ==> #[trigger] leaves(t)[i] == chunk(data, k + i),
  ensures run(s, enc(t), data, k) == reduce(s.push(Some(t))) decreases t
{
  match t {
    Tree::Leaf(c) => {
      assert(leaves(t)[0] == chunk(data, k + 0));
      run_push(s, Seq::empty(), true, data, k);
      assert(Seq::<bool>::empty().push(true) == seq![true]);
      assert(c == chunk(data, k));
    }
    Tree::Node(l, r) => {
      let e = seq![false];
      assert(e == Seq::<bool>::empty().push(false));
      run_push(s, Seq::empty(), false, data, k);
      assert(run(s, e, data, k) == s.push(None));
      assert(ones(e) == 0);
      run_add(s, e + enc(*l), enc(*r), data, k);
      run_add(s, e, enc(*l), data, k);
      ones_add(e, enc(*l)); enc_ones(*l);
      assert forall|i: int| 0 <= i < leaves(*l).len() implies #[trigger] leaves(*l)[i] == chunk(data, k + i) by { assert(leaves(t)[i] == leaves(*l)[i]); }
      assert forall|i: int| 0 <= i < leaves(*r).len() implies #[trigger] leaves(*r)[i] == chunk(data, k + leaves(*l).len() + i) by { assert(leaves(t)[leaves(*l).len() + i] == leaves(*r)[i]); }
      let s1 = s.push(None);
      run_enc(s1, *l, data, k);
      let s2 = s1.push(Some(*l));
      assert(!reducible(s2));
      run_enc(s2, *r, data, k + leaves(*l).len());
      let s3 = s2.push(Some(*r));
      assert(reducible(s3));
      assert(reduce1(s3) == s.push(Some(t))) by { assert(s3.take(s3.len()-3) == s); }
    }
  }
}
pub open spec fn cat_enc(s: St) -> Seq<bool> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat_enc(s.drop_last()) + match s.last() { None => seq![false], Some(t) => enc(t) } } }
pub open spec fn cat_lv(s: St) -> Seq<Seq<u8>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat_lv(s.drop_last()) + match s.last() { None => Seq::empty(), Some(t) => leaves(t) } } }
proof fn reduce_cat(s: St) ensures cat_enc(reduce(s)) == cat_enc(s), cat_lv(reduce(s)) == cat_lv(s) decreases s.len()
{
  if reducible(s) {
    let n = s.len();
    reveal_with_fuel(cat_enc, 5); reveal_with_fuel(cat_lv, 5);
    let b = s.take(n - 3); let l = s[n-2]->0; let r = s[n-1]->0;
    reduce_cat(reduce1(s));
    assert(reduce1(s).drop_last() == b);
    assert(s.drop_last().drop_last().drop_last() == b);
    assert(s.drop_last().last() == s[n-2]); assert(s.drop_last().drop_last().last() == s[n-3]);
    assert(cat_enc(s) =~= cat_enc(b) + (seq![false] + enc(l) + enc(r)));
    assert(cat_lv(s) =~= cat_lv(b) + (leaves(l) + leaves(r)));
  }
}
/// soundness of the machine: the stack always spells the bits read so far and the chunks used so far
proof fn run_cat(d: Seq<bool>, data: Seq<u8>)
  ensures cat_enc(run(Seq::empty(), d, data, 0)) == d, cat_lv(run(Seq::empty(), d, data, 0)) =~= Seq::new(ones(d), |i: int| chunk(data, i)) decreases d.len()
{
  if d.len() > 0 {
    let p = d.drop_last(); run_cat(p, data);
    let s = run(Seq::empty(), p, data, 0);
    let c = chunk(data, ones(p) as int);
    if d.last() { reduce_cat(s.push(Some(Tree::Leaf(c)))); assert(s.push(Some(Tree::Leaf(c))).drop_last() == s); }
    else { assert(s.push(None).drop_last() == s); }
    assert(p.push(d.last()) == d);
    assert(cat_enc(run(Seq::empty(), d, data, 0)) =~= d);
  }
}
pub open spec fn mrun(d: Seq<bool>, data: Seq<u8>) -> St { run(Seq::empty(), d, data, 0) }
proof fn machine_valid(t: Tree, data: Seq<u8>, d: Seq<bool>) requires proves(t, data, d) ensures mrun(d, data) == seq![Some(t)], ones(d) == leaves(t).len()
{ run_enc(Seq::empty(), t, data, 0); enc_ones(t); assert(Seq::<Option<Tree>>::empty().push(Some(t)) == seq![Some(t)]); }
proof fn machine_sound(t: Tree, data: Seq<u8>, d: Seq<bool>) requires mrun(d, data) == seq![Some(t)], t is Node, ones(d) * 32 <= data.len() ensures proves(t, data, d)
{ run_cat(d, data); let s = seq![Some(t)]; reveal_with_fuel(cat_enc, 3); reveal_with_fuel(cat_lv, 3); assert(s.drop_last() == Seq::<Option<Tree>>::empty()); assert(cat_enc(s) =~= enc(t)); assert(cat_lv(s) =~= leaves(t)); }
proof fn valid_ones(data: Seq<u8>, d: Seq<bool>) requires valid(data, d) ensures ones(d) * 32 <= data.len()
{ let t = choose|t: Tree| proves(t, data, d); machine_valid(t, data, d); }
proof fn ones_le(d: Seq<bool>, k: int) requires 0 <= k <= d.len() ensures ones(d.take(k)) <= ones(d) 
{ ones_add(d.take(k), d.skip(k)); assert(d.take(k) + d.skip(k) == d); }


//@item ssz-multiproofs/src/multiproof.rs | const | CHUNK_SIZE
//@item ssz-multiproofs/src/multiproof.rs | enum | TreeNode

impl TreeNode<'_> {
//@fn ssz-multiproofs/src/multiproof.rs | TreeNode::has_value
//@ensures
        vr == !(self is Internal),
//@end
//@fn ssz-multiproofs/src/multiproof.rs | TreeNode::is_internal
//@ensures
        vr == (self is Internal),
//@end
}
pub open spec fn item_ok(n: TreeNode, m: Option<Tree>) -> bool {
    match n {
        TreeNode::Leaf(b) => m == Some(Tree::Leaf(b@)),
        TreeNode::Computed(h) => m is Some && m->0 is Node && troot(m->0) == h@,
        TreeNode::Internal => m is None,
    }
}
pub open spec fn stack_ok(s: Seq<TreeNode>, m: St) -> bool { s.len() == m.len() && forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i], m[i]) }

//@fn ssz-multiproofs/src/multiproof.rs | calculate_compact_multi_merkle_root
//@reject !valid(data@, descriptor@)
//@requires
        data@.len() <= isize::MAX, // every Rust slice
//@ensures
        forall|t: Tree| #[trigger] proves(t, data@, descriptor@) ==> vr is Ok && vr->Ok_0@ == troot(t),
        vr is Ok ==> exists|t: Tree| #[trigger] proves(t, data@, descriptor@) && troot(t) == vr->Ok_0@,
//@begin
    broadcast use {lemma_empty_add, axiom_shape_limit};
//@loop 0
        invariant
            data@.len() <= isize::MAX,
            stack_ok(stack@, mrun(descriptor@.take(it.index@), data@)),
            us(node_index) == ones(descriptor@.take(it.index@)),
            us(node_index) * 32 <= data@.len(),
            hasher@ == Seq::<u8>::empty(),
            it.seq().len() == descriptor@.len(),
            forall|i: int| 0 <= i < descriptor@.len() ==> *it.seq()[i] == descriptor@[i],
//@loop-begin 0
        proof {
            let d = descriptor@; let k = it.index@;
            assert(d.take(k).push(d[k]) == d.take(k + 1));
            run_push(Seq::empty(), d.take(k), d[k], data@, 0);
            ones_le(d, k + 1);
            if valid(data@, d) { valid_ones(data@, d); }
        }
//@loop 1
                invariant
                    exists|mm: St| stack_ok(stack@, mm) && #[trigger] reduce(mm) == mrun(descriptor@.take(it.index@ + 1), data@),
                    hasher@ == Seq::<u8>::empty(),
                decreases stack@.len()
//@loop-begin 1
                let ghost mm = choose|mm: St| stack_ok(stack@, mm) && #[trigger] reduce(mm) == mrun(descriptor@.take(it.index@ + 1), data@);
//@loop-end 1
                proof {
                    let n = mm.len() as int;
                    assert(mm[n-1] is Some && mm[n-2] is Some && mm[n-3] is None);
                    let l = mm[n-2]->0; let r = mm[n-1]->0;
                    assert(reducible(mm));
                    assert(stack@.len() == n - 2);
                    assert(stack@[n-3] is Computed);
                    assert(stack@[n-3]->Computed_0@ == sha256(troot(l) + troot(r)));
                    assert(troot(reduce1(mm)[n-3]->0) == sha256(troot(l) + troot(r)));
                    assert(stack_ok(stack@, reduce1(mm)));
                    assert(reduce(reduce1(mm)) == reduce(mm));
                }
//@loop-after 0
    proof {
        assert(descriptor@.take(descriptor@.len() as int) == descriptor@);
        assert forall|t: Tree| #[trigger] proves(t, data@, descriptor@) implies mrun(descriptor@, data@) == seq![Some(t)] by { machine_valid(t, data@, descriptor@); }
        if stack@.len() == 1 && stack@[0] is Computed {
            let t = mrun(descriptor@, data@)[0]->0;
            assert(mrun(descriptor@, data@) == seq![Some(t)]);
            machine_sound(t, data@, descriptor@);
        }
    }
//@end

pub type Cow<'a, T> = &'a T;
//@item ssz-multiproofs/src/multiproof.rs | struct | Multiproof
impl<'a> Multiproof<'a> {
    /// the slice limit of Rust
    pub open spec fn inv(&self) -> bool { self.data@.len() <= isize::MAX }
}
/// the limit of Rust's vectors; a bit vector's is lower
pub broadcast axiom fn axiom_shape_limit(d: Vec<bool>) ensures #[trigger] d@.len() <= isize::MAX;
/// Vec::with_capacity: it fails on what no address space holds
#[verifier::external_body]
pub fn vf_capacity<T>(n: usize) -> (r: Vec<T>) requires n <= isize::MAX ensures r@ == Seq::<T>::empty() { unimplemented!() }
pub trait VMin: Sized { fn vf_minm(self, o: Self) -> Self; }
impl VMin for usize {
    fn vf_minm(self, o: usize) -> (r: usize) ensures r <= self, r <= o, r == self || r == o { if self < o { self } else { o } } }

// ---- generalized indices ----
pub open spec fn gidx(t: Tree, g: nat) -> Seq<nat> decreases t {
    match t { Tree::Leaf(_) => seq![g], Tree::Node(l, r) => gidx(*l, 2 * g) + gidx(*r, 2 * g + 1) }
}
pub open spec fn fits(t: Tree, g: nat) -> bool { forall|i: int| 0 <= i < gidx(t, g).len() ==> #[trigger] gidx(t, g)[i] <= u64::MAX }
/// indices still to come; stops where an index would not fit 64 bits
pub open spec fn gi(d: Seq<bool>, idx: int, cur: u64, st: Seq<u64>) -> Seq<u64> decreases d.len() - idx {
    if idx < 0 || idx >= d.len() { Seq::empty() }
    else if !d[idx] { if 2 * cur > u64::MAX { Seq::empty() } else { gi(d, idx + 1, (2 * cur) as u64, st.push(cur)) } }
    else if st.len() == 0 { Seq::empty() }
    else { seq![cur] + gi(d, idx + 1, (2 * st.last() + 1) as u64, st.drop_last()) }
}
/// ... and whether that happens
pub open spec fn gi_over(d: Seq<bool>, idx: int, cur: u64, st: Seq<u64>) -> bool decreases d.len() - idx {
    if idx < 0 || idx >= d.len() { false }
    else if !d[idx] { if 2 * cur > u64::MAX { true } else { gi_over(d, idx + 1, (2 * cur) as u64, st.push(cur)) } }
    else if st.len() == 0 { false }
    else { gi_over(d, idx + 1, (2 * st.last() + 1) as u64, st.drop_last()) }
}
proof fn gidx_len(t: Tree, g: nat) ensures gidx(t, g).len() == leaves(t).len(), gidx(t, g).len() >= 1, forall|i: int| 0 <= i < gidx(t, g).len() ==> #[trigger] gidx(t, g)[i] >= g decreases t
{ match t { Tree::Leaf(_) => {}, Tree::Node(l, r) => { gidx_len(*l, 2 * g); gidx_len(*r, 2 * g + 1); } } }
pub open spec fn to64(s: Seq<nat>) -> Seq<u64> { Seq::new(s.len(), |i: int| s[i] as u64) }
/// every index produced is the true one, as a number
pub open spec fn pre64(a: Seq<u64>, b: Seq<nat>) -> bool { a.len() < b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] as nat == b[i] }
proof fn gi_tree(d: Seq<bool>, idx: int, t: Tree, cur: u64, st: Seq<u64>)
    requires
        0 <= idx, idx + enc(t).len() <= d.len(), d.subrange(idx, idx + enc(t).len() as int) == enc(t), st.len() > 0, 2 * st.last() + 1 <= u64::MAX,
    ensures
        fits(t, cur as nat) ==> gi(d, idx, cur, st) == to64(gidx(t, cur as nat)) + gi(d, idx + enc(t).len(), (2 * st.last() + 1) as u64, st.drop_last()),
        fits(t, cur as nat) ==> gi_over(d, idx, cur, st) == gi_over(d, idx + enc(t).len(), (2 * st.last() + 1) as u64, st.drop_last()),
        !fits(t, cur as nat) ==> gi_over(d, idx, cur, st) && pre64(gi(d, idx, cur, st), gidx(t, cur as nat)),
    decreases t
{
    let g = cur as nat;
    assert(enc(t)[0] == d[idx]) by { enc_ones(t); assert(enc(t)[0] == d.subrange(idx, idx + enc(t).len() as int)[0]); }
    match t {
        Tree::Leaf(_) => { assert(gidx(t, g)[0] == g); assert(fits(t, g)); assert(to64(gidx(t, g)) =~= seq![cur]); }
        Tree::Node(l, r) => {
            let (el, er) = (enc(*l), enc(*r));
            assert(enc(t) == seq![false] + el + er);
            gidx_len(*l, 2 * g); gidx_len(*r, 2 * g + 1);
            let s = d.subrange(idx, idx + enc(t).len() as int);
            if 2 * cur > u64::MAX {
                assert(gidx(t, g)[0] == gidx(*l, 2 * g)[0]);
                assert(!fits(t, g));
            } else {
                let i1 = idx + 1; let i2 = i1 + el.len();
                assert(d.subrange(i1, i2) =~= el) by { assert forall|i: int| 0 <= i < el.len() implies d[i1 + i] == el[i] by { assert(s[1 + i] == d[i1 + i]); assert(enc(t)[1 + i] == el[i]); } }
                assert(d.subrange(i2, i2 + er.len() as int) =~= er) by { assert forall|i: int| 0 <= i < er.len() implies d[i2 + i] == er[i] by { assert(s[1 + el.len() + i] == d[i2 + i]); assert(enc(t)[1 + el.len() + i] == er[i]); } }
                let c2 = (2 * cur) as u64; let s2 = st.push(cur);
                assert(s2.drop_last() == st);
                gi_tree(d, i1, *l, c2, s2);
                gi_tree(d, i2, *r, (2 * cur + 1) as u64, st);
                let (gl, gr) = (gidx(*l, 2 * g), gidx(*r, 2 * g + 1));
                assert forall|i: int| 0 <= i < gl.len() implies gl[i] == gidx(t, g)[i] by {}
                assert forall|i: int| 0 <= i < gr.len() implies gr[i] == gidx(t, g)[gl.len() + i] by {}
                if fits(t, g) {
                    assert(fits(*l, 2 * g)) by { assert forall|i: int| 0 <= i < gl.len() implies #[trigger] gl[i] <= u64::MAX by { assert(gidx(t, g)[i] == gl[i]); } }
                    assert(fits(*r, 2 * g + 1)) by { assert forall|i: int| 0 <= i < gr.len() implies #[trigger] gr[i] <= u64::MAX by { assert(gidx(t, g)[gl.len() + i] == gr[i]); } }
                    assert(to64(gidx(t, g)) =~= to64(gl) + to64(gr));
                    assert(gi(d, idx, cur, st) =~= to64(gl) + (to64(gr) + gi(d, idx + enc(t).len(), (2 * st.last() + 1) as u64, st.drop_last())));
                    assert(gi(d, idx, cur, st) =~= to64(gidx(t, g)) + gi(d, idx + enc(t).len(), (2 * st.last() + 1) as u64, st.drop_last()));
                } else {
                    if fits(*l, 2 * g) && fits(*r, 2 * g + 1) {
                        assert forall|i: int| 0 <= i < gidx(t, g).len() implies #[trigger] gidx(t, g)[i] <= u64::MAX by {
                            if i < gl.len() { assert(gidx(t, g)[i] == gl[i]); } else { assert(gidx(t, g)[i] == gr[i - gl.len()]); }
                        }
                    }
                    if fits(*l, 2 * g) {
                        let a = gi(d, i2, (2 * cur + 1) as u64, st); let x = gi(d, idx, cur, st);
                        assert(x == to64(gl) + a);
                        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] as nat == gidx(t, g)[i] by {
                            if i >= gl.len() { assert(x[i] == a[i - gl.len()]); } else { assert(gl[i] <= u64::MAX); }
                        }
                    } else {
                        let x = gi(d, idx, cur, st);
                        assert(x == gi(d, i1, c2, s2));
                        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] as nat == gidx(t, g)[i] by { assert(gl[i] == gidx(t, g)[i]); }
                    }
                }
            }
        }
    }
}
/// C02: the iterator's sequence is the list of leaf indices of the tree
pub open spec fn spells(t: Tree, d: Seq<bool>) -> bool { enc(t) == d }
proof fn gi_root(t: Tree, d: Seq<bool>)
    requires spells(t, d),
    ensures
        fits(t, 1) ==> gi(d, 0, 1, seq![1u64]) == to64(gidx(t, 1)) && !gi_over(d, 0, 1, seq![1u64]),
        !fits(t, 1) ==> gi_over(d, 0, 1, seq![1u64]) && pre64(gi(d, 0, 1, seq![1u64]), gidx(t, 1)),
{
    assert(d.subrange(0, d.len() as int) == d);
    gi_tree(d, 0, t, 1, seq![1u64]);
    assert(gi(d, d.len() as int, 3, seq![1u64].drop_last()) == Seq::<u64>::empty());
    assert(to64(gidx(t, 1)) + Seq::<u64>::empty() =~= to64(gidx(t, 1)));
}

//@item ssz-multiproofs/src/multiproof.rs | struct | GIndexIterator
impl<'a> GIndexIterator<'a> {
    pub open spec fn wf(&self) -> bool {
        self.descriptor_index <= self.descriptor@.len() && forall|i: int| 0 <= i < self.stack@.len() ==> 2 * #[trigger] self.stack@[i] + 1 <= u64::MAX
    }
    pub open spec fn rem(&self) -> Seq<u64> { gi(self.descriptor@, self.descriptor_index as int, self.current_gindex, self.stack@) }
    pub open spec fn over(&self) -> bool { gi_over(self.descriptor@, self.descriptor_index as int, self.current_gindex, self.stack@) }
//@fn ssz-multiproofs/src/multiproof.rs | GIndexIterator::new
//@ensures
        vr.wf(), vr.stack@ =~= seq![1u64], vr.descriptor@ == descriptor@, vr.descriptor_index == 0, vr.current_gindex == 1,
//@end
//@fn ssz-multiproofs/src/multiproof.rs | Iterator for GIndexIterator::next | {"types": {"Self::Item": "u64"}}
//@reject over0
//@requires
        old(self).wf(),
//@ensures
        final(self).wf(),
        final(self).descriptor == old(self).descriptor,
        vr is Some ==> old(self).rem().len() > 0 && vr->0 == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1) && final(self).over() == old(self).over(),
        vr is None ==> old(self).rem().len() == 0 && !old(self).over(),
//@begin
    let ghost over0 = old(self).over();
//@loop 0
            invariant
                self.wf(), self.descriptor == old(self).descriptor,
                over0 == old(self).over(), self.over() == over0, self.rem() == old(self).rem(),
            decreases self.descriptor@.len() - self.descriptor_index
//@end
    // Iterator::zip, with the items of repeated next() calls
    #[verifier::external_body]
    pub fn zip<B>(self, b: VIter<B>) -> (r: PIter<(u64, B)>)
        requires self.wf(),
        ensures r@ == szip(self.rem(), b@), r.poison() == (self.over() && self.rem().len() <= b@.len()),
    { unimplemented!() }
}

impl<T> PIter<T> {
    #[verifier::external_body]
    pub fn zip<B>(self, b: VIter<B>) -> (r: PIter<(T, B)>)
        ensures r@ == szip(self@, b@), r.poison() == (self.poison() && self@.len() <= b@.len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> Option<B>>) -> (r: PIter<B>)
        requires all_req1(f, self@), impl1(f, p, self@),
        ensures r@ == sfilter_map(self@, p), r.poison() == self.poison(),
    { unimplemented!() }
}
pub open spec fn chunks32(data: Seq<u8>) -> Seq<Seq<u8>> { Seq::new((data.len() / 32) as nat, |i: int| chunk(data, i)) }
pub trait VChunks {
    spec fn vf_bytes(&self) -> Seq<u8>;
    fn vf_chunks_exact(&self, n: usize) -> (r: VIter<&[u8]>)
        requires n > 0,
        ensures r@.len() == self.vf_bytes().len() / n as nat, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.vf_bytes().subrange(n * i, n * i + n);
}
impl VChunks for [u8] {
    open spec fn vf_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vf_chunks_exact(&self, n: usize) -> (r: VIter<&[u8]>) { unimplemented!() }
}
pub uninterp spec fn arr32<'a>(s: Seq<u8>) -> &'a [u8; 32];
#[verifier::external_body]
pub broadcast proof fn axiom_arr32(s: Seq<u8>) requires s.len() == 32 ensures (#[trigger] arr32(s))@ == s {}
pub trait VTryInto<'a> { fn vf_try_into(self) -> core::result::Result<&'a [u8; 32], ()>; }
impl<'a> VTryInto<'a> for &'a [u8] {
    #[verifier::external_body]
    fn vf_try_into(self) -> (r: core::result::Result<&'a [u8; 32], ()>)
        ensures r is Ok <==> self@.len() == 32, r is Ok ==> r->Ok_0 == arr32(self@),
    { unimplemented!() }
}

// ---- C02: nodes ----
pub type Item<'a> = (u64, &'a [u8; 32]);
/// enumeration of the nodes by shape and chunks
pub open spec fn node_seq<'a>(d: Seq<bool>, data: Seq<u8>) -> Seq<Item<'a>> { szip(gi(d, 0, 1, seq![1u64]), smap(chunks32(data), |c: Seq<u8>| arr32(c))) }
pub open spec fn node_poison(d: Seq<bool>, data: Seq<u8>) -> bool { gi_over(d, 0, 1, seq![1u64]) && gi(d, 0, 1, seq![1u64]).len() <= data.len() / 32 }
/// C02: each leaf chunk with the generalized index of its position, or no end without a rejection
proof fn nodes_of_tree(t: Tree, d: Seq<bool>, data: Seq<u8>)
    requires spells(t, d), leaves(t).len() * 32 <= data.len(),
    ensures
        fits(t, 1) ==> !node_poison(d, data) && node_seq(d, data) =~= Seq::new(leaves(t).len(), |i: int| (gidx(t, 1)[i] as u64, arr32(chunk(data, i)))),
        !fits(t, 1) ==> node_poison(d, data) && node_seq(d, data).len() < leaves(t).len(),
        forall|i: int| 0 <= i < node_seq(d, data).len() ==> (#[trigger] node_seq(d, data)[i]).0 as nat == gidx(t, 1)[i] && node_seq(d, data)[i].1 == arr32(chunk(data, i)),
{
    gi_root(t, d); gidx_len(t, 1);
    if fits(t, 1) {
        assert forall|i: int| 0 <= i < node_seq(d, data).len() implies (#[trigger] node_seq(d, data)[i]).0 as nat == gidx(t, 1)[i] by { assert(gidx(t, 1)[i] <= u64::MAX); }
    }
}
pub open spec fn masked<'a>(x: (Item<'a>, &bool)) -> Option<Item<'a>> { if *x.1 { Some(x.0) } else { None } }
/// the values: the nodes whose mask bit is set
pub open spec fn value_seq<'a>(m: &Multiproof<'_>) -> Seq<Item<'a>> {
    sfilter_map(szip(node_seq(m.descriptor@, m.data@), srefs(m.value_mask@)), |x: (Item<'a>, &bool)| masked(x))
}
proof fn sfilter_map_len<A, B>(a: Seq<A>, p: spec_fn(A) -> Option<B>) ensures sfilter_map(a, p).len() <= a.len() decreases a.len()
{ if a.len() > 0 { sfilter_map_len(a.skip(1), p); } }
pub proof fn value_seq_len(m: &Multiproof<'_>) ensures value_seq(m).len() <= m.data@.len() / 32
{ sfilter_map_len(szip(node_seq(m.descriptor@, m.data@), srefs(m.value_mask@)), |x: (Item<'_>, &bool)| masked(x)); }
proof fn sfilter_map_from<A, B>(a: Seq<A>, p: spec_fn(A) -> Option<B>, i: int) -> (j: int)
    requires 0 <= i < sfilter_map(a, p).len(),
    ensures 0 <= j < a.len(), p(a[j]) == Some(sfilter_map(a, p)[i]),
    decreases a.len(),
{
    if p(a[0]) is Some { if i == 0 { 0 } else { sfilter_map_from(a.skip(1), p, i - 1) + 1 } } else { sfilter_map_from(a.skip(1), p, i) + 1 }
}
/// leaf j of t sits at generalized index g and carries c
pub open spec fn leaf_is(t: Tree, j: int, g: int, c: Seq<u8>) -> bool { 0 <= j < leaves(t).len() && gidx(t, 1)[j] == g && leaves(t)[j] == c }
pub open spec fn has_leaf(t: Tree, g: int, c: Seq<u8>) -> bool { exists|j: int| leaf_is(t, j, g, c) }
/// every value is a leaf of the tree the proof shows: that leaf's generalized index and that leaf's chunk
pub proof fn value_leaf(m: &Multiproof<'_>, t: Tree, i: int)
    requires proves(t, m.data@, m.descriptor@), 0 <= i < value_seq(m).len(),
    ensures has_leaf(t, value_seq(m)[i].0 as int, value_seq(m)[i].1@),
{
    broadcast use axiom_arr32;
    let n = node_seq(m.descriptor@, m.data@);
    let j = sfilter_map_from(szip(n, srefs(m.value_mask@)), |x: (Item<'_>, &bool)| masked(x), i);
    assert(value_seq(m)[i] == n[j]);
    nodes_of_tree(t, m.descriptor@, m.data@);
    assert(n[j].0 as nat == gidx(t, 1)[j] && n[j].1 == arr32(chunk(m.data@, j)));
    assert(j < leaves(t).len()) by { if !fits(t, 1) { assert(n.len() < leaves(t).len()); } }
    assert(leaves(t)[j] == chunk(m.data@, j));
    assert(leaf_is(t, j, value_seq(m)[i].0 as int, value_seq(m)[i].1@));
}
#[verifier::reject_recursive_types(CHUNK_SIZE)]
#[verifier::reject_recursive_types(I)]
//@item ssz-multiproofs/src/multiproof.rs | struct | ValueIterator
impl<'a, I, const CHUNK_SIZE: usize> ValueIterator<'a, I, CHUNK_SIZE>
where
    I: Iterator<Item = (u64, &'a [u8; CHUNK_SIZE])>,
{
//@fn ssz-multiproofs/src/multiproof.rs | ValueIterator::new
//@ensures
        vr.inner == inner,
//@end
//@fn ssz-multiproofs/src/multiproof.rs | ValueIterator::next_assert_gindex
//@requires
        old(self).inner.obeys_prophetic_iter_laws(),
//@ensures
        ({
            let s = old(self).inner.remaining();
            match vr {
                Ok(node) => s.len() > 0 && s[0].0 == gindex && node == s[0].1 && final(self).inner.remaining() == s.skip(1),
                Err(Error::MissingValue) => s.len() == 0,
                Err(Error::GIndexMismatch { expected, actual }) => s.len() > 0 && s[0].0 != gindex && expected == gindex && actual == s[0].0 && final(self).inner.remaining() == s.skip(1),
                _ => false,
            }
        }),
//@end
//@fn ssz-multiproofs/src/multiproof.rs | Iterator for ValueIterator::next | {"types": {"Option<Self::Item>": "Option<(u64, &'a [u8; CHUNK_SIZE])>"}}
//@requires
        old(self).inner.obeys_prophetic_iter_laws(),
//@ensures
        ({
            let s = old(self).inner.remaining();
            if s.len() == 0 { vr is None } else { vr == Some(s[0]) && final(self).inner.remaining() == s.skip(1) }
        }),
//@end
    // Iterator::find, over the items of repeated next() calls
    #[verifier::external_body]
    pub fn find<F: Fn(&(u64, &'a [u8; CHUNK_SIZE])) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn((u64, &'a [u8; CHUNK_SIZE])) -> bool>) -> (r: Option<(u64, &'a [u8; CHUNK_SIZE])>)
        requires
            self.inner.obeys_prophetic_iter_laws(),
            forall|x: (u64, &'a [u8; CHUNK_SIZE])| call_requires(f, (&x,)),
            forall|x: (u64, &'a [u8; CHUNK_SIZE]), b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x),
        ensures r == sfind(self.inner.remaining(), p),
    { unimplemented!() }
}
impl<'a> Multiproof<'a> {
//@fn ssz-multiproofs/src/multiproof.rs | Multiproof::nodes | {"iter_type": "PIter", "methods": {"chunks_exact": "vf_chunks_exact"}}
//@requires
        self.inv(),
//@ensures
        vr@ == node_seq(self.descriptor@, self.data@),
        vr.poison() == node_poison(self.descriptor@, self.data@),
//@begin
        broadcast use axiom_arr32;
//@closure 0
        |$0: &[u8]| -> (r: &[u8; CHUNK_SIZE])
            requires $0@.len() == 32,
            ensures r == arr32($0@)
//@closure-ghost 0
        |c: &[u8]| arr32(c@)
//@after-let nodes
        proof { assert(nodes@ =~= smap(chunks32(self.data@), |c: Seq<u8>| arr32(c))); }
//@end

//@fn ssz-multiproofs/src/multiproof.rs | Multiproof::calculate_root
//@reject !valid(self.data@, self.descriptor@)
//@requires
        self.inv(),
//@ensures
        forall|t: Tree| #[trigger] proves(t, self.data@, self.descriptor@) ==> vr is Ok && vr->Ok_0@ == troot(t),
        vr is Ok ==> exists|t: Tree| #[trigger] proves(t, self.data@, self.descriptor@) && troot(t) == vr->Ok_0@,
//@end
//@fn ssz-multiproofs/src/multiproof.rs | Multiproof::verify
//@requires
        self.inv(),
//@ensures
        vr is Ok ==> exists|t: Tree| #[trigger] proves(t, self.data@, self.descriptor@) && troot(t) == root@,
        forall|t: Tree| #[trigger] proves(t, self.data@, self.descriptor@) && troot(t) == root@ ==> vr is Ok,
//@end
//@fn ssz-multiproofs/src/multiproof.rs | Multiproof::values | {"iter_type": "PIter", "methods": {"iter": "vf_iter"}}
//@requires
        self.inv(),
//@ensures
        vr.inner@ == value_seq(self),
        vr.inner.poison() == (node_poison(self.descriptor@, self.data@) && node_seq(self.descriptor@, self.data@).len() <= self.value_mask@.len()),
//@closure 0
        |$0: (Item<'_>, &bool)| -> (r: Option<Item<'_>>)
            ensures r == masked($0)
//@closure-ghost 0
        |x: (Item<'_>, &bool)| masked(x)
//@end
//@fn ssz-multiproofs/src/multiproof.rs | Multiproof::get
//@requires
        self.inv(),
//@ensures
        match sfind(value_seq(self), |x: Item<'_>| x.0 == gindex) { Some(x) => vr == Some(x.1), None => vr is None },
//@closure 0
        |$0: &Item<'_>| -> (r: bool)
            ensures r == ($0.0 == gindex)
//@closure-ghost 0
        |x: Item<'_>| x.0 == gindex
//@closure 1
        |$0: Item<'_>| -> (r: &[u8; CHUNK_SIZE])
            ensures r == $0.1
//@end
}
} // verus!
