//! C01-C05: multiproofs.
use crate::check;
use crate::common::*;
use bitvec::prelude::*;
use ssz_multiproofs::{Error, Multiproof, MultiproofBuilder};
use ssz_rs::{GeneralizedIndexable, MerkleizationError, Node, Path, PathElement, Prove};
use std::collections::{BTreeMap, BTreeSet};

/// The serialized form of a multiproof; lets any private field value be put into the real type. The order of the fields
/// is the one the real type declares.
#[derive(Clone, Copy, PartialEq)]
enum Field { Data, Mask, Shape, Hint }
fn order() -> &'static [Field] {
    static ORDER: std::sync::OnceLock<Vec<Field>> = std::sync::OnceLock::new();
    ORDER.get_or_init(|| {
        let all = [("data", Field::Data), ("value_mask", Field::Mask), ("descriptor", Field::Shape), ("max_stack_depth", Field::Hint)];
        let names = FieldNames::of();
        let mut got: Vec<Option<Field>> = names.iter().map(|n| all.iter().find(|(m, _)| m == n).map(|x| x.1)).collect();
        let missing: Vec<Field> = all.iter().map(|x| x.1).filter(|f| !got.contains(&Some(*f))).collect();
        let mut m = missing.into_iter();
        for g in got.iter_mut() { if g.is_none() { *g = m.next(); } }
        let got: Vec<Field> = got.into_iter().flatten().collect();
        if names.len() == 4 && got.len() == 4 { got } else { all.iter().map(|x| x.1).collect() }
    })
}
/// a deserializer that only records the field names it is asked for
struct FieldNames<'a>(&'a std::cell::RefCell<Vec<&'static str>>);
impl FieldNames<'_> {
    fn of() -> Vec<&'static str> {
        let c = std::cell::RefCell::new(vec![]);
        let _ = <Multiproof as serde::Deserialize>::deserialize(FieldNames(&c));
        c.into_inner()
    }
}
impl<'de> serde::Deserializer<'de> for FieldNames<'_> {
    type Error = serde::de::value::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, _: V) -> Result<V::Value, Self::Error> { Err(serde::de::Error::custom("names only")) }
    fn deserialize_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, Self::Error> {
        *self.0.borrow_mut() = fields.to_vec();
        self.deserialize_any(v)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map enum identifier ignored_any }
}

#[derive(Clone, Debug)]
pub struct Parts { pub data: Vec<u8>, pub mask: Vec<bool>, pub shape: Vec<bool>, pub hint: usize }
impl Parts {
    pub fn bytes(&self) -> Vec<u8> {
        let bv = |v: &[bool]| bincode::serialize(&v.iter().collect::<BitVec<u32, Lsb0>>()).unwrap();
        let mut out = vec![];
        for f in order() {
            out.extend(match f { Field::Data => bincode::serialize(&self.data[..]).unwrap(), Field::Mask => bv(&self.mask), Field::Shape => bv(&self.shape), Field::Hint => bincode::serialize(&self.hint).unwrap() });
        }
        out
    }
    pub fn with<T>(&self, f: impl FnOnce(Multiproof<'_>) -> T) -> T { let b = self.bytes(); f(bincode::deserialize(&b).expect("multiproof bytes")) }
    pub fn owned(&self) -> Multiproof<'static> { bincode::deserialize(Box::leak(self.bytes().into_boxed_slice())).expect("multiproof bytes") }
    /// a shape of any kind with chunks, mask and hint of any kind
    pub fn any(rng: &mut Rng) -> Self {
        let shape = gen_shape(rng);
        let n = shape.iter().filter(|b| **b).count();
        Parts { data: data_for(rng, n), mask: (0..n).map(|_| rng.bool()).collect(), shape, hint: rng.corner() as usize }
    }
    pub fn show(&self) -> String { format!("shape={} mask={} data={} hint={}", bits(&self.shape), bits(&self.mask), hex(&self.data), self.hint) }
}

/// Oracle: the full binary tree a shape encodes, as the leaves' paths; None if it encodes none.
pub fn parse(shape: &[bool]) -> Option<Vec<Vec<bool>>> {
    // a pre-order encoding is exactly a word whose open-slot count first reaches zero at its end
    let mut path: Vec<bool> = vec![];
    let mut leaves = vec![];
    let mut done = false;
    for &b in shape {
        if done { return None; }
        if !b { path.push(false); continue; }
        leaves.push(path.clone());
        loop {
            match path.pop() { None => { done = true; break; } Some(true) => continue, Some(false) => { path.push(true); break; } }
        }
    }
    done.then_some(leaves)
}
/// Oracle: generalized index of a path, None if it does not fit 64 bits.
pub fn gindex(path: &[bool]) -> Option<u64> { (path.len() < 64).then(|| path.iter().fold(1u64, |g, b| g * 2 + *b as u64)) }
/// Oracle: root of a well-formed shape over its leading chunks.
pub fn root(shape: &[bool], data: &[u8]) -> Option<Chunk> {
    let mut chunks = data.chunks_exact(32);
    let mut open: Vec<Option<Chunk>> = vec![]; // the inner nodes still open, each with its left child's hash once that is known
    let mut whole = None;
    for &b in shape {
        if whole.is_some() { return None; }
        if !b { open.push(None); continue; }
        let mut x: Chunk = chunks.next()?.try_into().unwrap();
        loop {
            match open.pop() {
                None => { whole = Some(x); break; }
                Some(Some(l)) => x = h2(&l, &x),
                Some(None) => { open.push(Some(x)); break; }
            }
        }
    }
    if shape.len() < 2 { return None; } // a lone leaf has no root to compute
    whole
}

pub fn random_shape(rng: &mut Rng, leaves: usize) -> Vec<bool> {
    fn go(rng: &mut Rng, n: usize, style: u64, out: &mut Vec<bool>) {
        if n == 1 { out.push(true); return; }
        out.push(false);
        let l = match style { 0 => 1, 1 => n - 1, 2 => n / 2, 3 => if rng.bool() { 1 } else { n - 1 }, _ => rng.range(1, n as u64 - 1) as usize };
        go(rng, l, style, out);
        go(rng, n - l, style, out);
    }
    let mut out = vec![];
    let style = rng.below(6);
    go(rng, leaves, style, &mut out);
    out
}
fn mutate(rng: &mut Rng, s: &mut Vec<bool>) {
    for _ in 0..rng.range(1, 2) {
        let n = s.len() as u64;
        match rng.below(5) {
            0 if n > 0 => { let i = rng.below(n) as usize; s[i] = !s[i]; }
            1 => s.push(rng.bool()),
            2 => { s.pop(); }
            3 => { let i = rng.below(n + 1) as usize; s.insert(i, rng.bool()); }
            _ if n > 1 => { let i = rng.below(n - 1) as usize; s.swap(i, i + 1); }
            _ => {}
        }
    }
}
fn data_for(rng: &mut Rng, want: usize) -> Vec<u8> {
    let n = match rng.below(8) { 0 => want.saturating_sub(1), 1 => want + 1, 2 => want + rng.below(3) as usize, _ => want };
    // sometimes chunks repeat or have special values
    let pool = rng.chance(1, 4).then(|| [[0; 32], [0xff; 32], rng.chunk(), h2(&[0; 32], &[0; 32])]);
    let mut d: Vec<u8> = (0..n).flat_map(|_| match &pool { Some(p) => *rng.pick(p), None => rng.chunk() }).collect();
    if rng.chance(1, 10) { let cut = rng.below(32) as usize; d.truncate(d.len().saturating_sub(cut)); }
    if rng.chance(1, 10) { d.extend(&rng.chunk()[..rng.below(32) as usize]); }
    d
}
fn gen_shape(rng: &mut Rng) -> Vec<bool> {
    let leaves = match rng.below(12) { 0 => 1, 1 => 2, 2 if rng.chance(1, 40) => rng.range(250, 1100), 2 => rng.range(50, 90), _ => rng.range(2, 24) } as usize;
    random_shape(rng, leaves)
}

pub const EXHAUSTIVE: u64 = (1 << 13) - 1; // every shape of up to 12 bits
fn exhaustive_shape(case: u64) -> Option<Vec<bool>> {
    if case >= EXHAUSTIVE { return None; }
    let x = case + 1;
    let n = 63 - x.leading_zeros();
    Some((0..n).rev().map(|i| (x >> i) & 1 == 1).collect())
}

/// balanced, more than 2^16 leaves
fn huge_shape(rng: &mut Rng) -> Vec<bool> {
    fn go(n: usize, out: &mut Vec<bool>) { if n == 1 { out.push(true); return; } out.push(false); go(n / 2, out); go(n - n / 2, out); }
    let mut out = vec![];
    go((1 << 16) + rng.range(1, 3000) as usize, &mut out);
    out
}
/// deeper than 2^16 levels, leaning left or right
fn deep_shape(rng: &mut Rng, left: bool) -> Vec<bool> {
    let n = (1 << 16) + rng.range(1, 3000) as usize;
    if left { let mut s = vec![false; n]; s.extend(vec![true; n + 1]); s } else { (0..2 * n).map(|i| i % 2 == 1).chain([true]).collect() }
}
/// what the provided methods of an iterator give must agree with what it yields one by one
fn same_iter<T: PartialEq + Clone, I: Iterator<Item = T>>(rng: &mut Rng, what: &str, want: &[T], make: impl Fn() -> I) -> Case {
    let n = want.len();
    let (lo, hi) = make().size_hint();
    check!(lo <= n && hi.is_none_or(|h| h >= n), "{what}: size_hint ({lo}, {hi:?}) for {n} items");
    let k = rng.below(n as u64 + 2) as usize;
    let mut it = make();
    check!(it.nth(k).as_ref() == want.get(k), "{what}: nth({k}) is not item {k} of {n}");
    if k < n { check!(it.next().as_ref() == want.get(k + 1), "{what}: the item after nth({k}) is not item {} of {n}", k + 1); }
    check!(make().count() == n, "{what}: count() is not {n}");
    check!(make().last().as_ref() == want.last(), "{what}: last() is not the last of {n}");
    check!(make().skip(k).collect::<Vec<_>>() == want[k.min(n)..], "{what}: skip({k}) differs");
    check!(make().step_by(k + 1).collect::<Vec<_>>() == want.iter().step_by(k + 1).cloned().collect::<Vec<_>>(), "{what}: step_by({}) differs", k + 1);
    check!(make().fold(vec![], |mut a, x| { a.push(x); a }) == want, "{what}: fold differs");
    let mut it = make();
    let mut a: Vec<T> = it.by_ref().take(k).collect();
    a.extend(it);
    check!(a == want, "{what}: taking {k} and then the rest differs");
    Ok(String::new())
}
/// indices close to g
fn near(rng: &mut Rng, g: u64) -> u64 {
    match rng.below(6) { 0 => g ^ (1 << rng.below(64)), 1 => g.wrapping_add(1 << 32), 2 => g.wrapping_add(1), 3 => g.wrapping_sub(1), 4 => g & 0xffff_ffff, _ => g >> 1 }
}

pub fn c01(rng: &mut Rng, case: u64) -> Case {
    let (shape, data) = match exhaustive_shape(case) {
        Some(s) => { let n = s.iter().filter(|b| **b).count(); let d = (0..n).flat_map(|_| rng.chunk()).collect::<Vec<u8>>(); (s, d) }
        None => {
            let mut s = match case - EXHAUSTIVE { 0 => huge_shape(rng), d @ (1 | 2) => deep_shape(rng, d == 1), _ => gen_shape(rng) };
            if case > EXHAUSTIVE + 2 && rng.chance(1, 3) { mutate(rng, &mut s); }
            let n = s.iter().filter(|b| **b).count();
            let d = if matches!(case - EXHAUSTIVE, 1 | 2) { (0..n).flat_map(|_| rng.chunk()).collect() } else { data_for(rng, n) };
            (s, d)
        }
    };
    let hint = *rng.pick(&[0usize, 1, 3, 7, 64, 1000, usize::MAX]);
    let mask: Vec<bool> = (0..shape.len()).map(|_| rng.bool()).collect();
    let p = Parts { data, mask, shape, hint };
    let want = root(&p.shape, &p.data);
    let got = guard(|| p.with(|m| m.calculate_root()));
    match (&want, &got) {
        (Some(w), Ok(Ok(g))) => check!(w == g, "calculate_root returned {} but the tree's root is {}; {}", hex(g), hex(w), p.show()),
        (Some(w), other) => return Err(format!("calculate_root rejected a well-formed proof with root {}: {:?}; {}", hex(w), other, p.show())),
        (None, Ok(Ok(g))) => return Err(format!("calculate_root returned {} for a shape/data that encodes no tree; {}", hex(g), p.show())),
        (None, _) => {}
    }
    let mut r = want.unwrap_or_else(|| rng.chunk());
    if want.is_some() {
        check!(matches!(guard(|| p.with(|m| m.verify(&r))), Ok(Ok(()))), "verify refused the correct root; {}", p.show());
        match rng.below(8) {
            0 => r = [0; 32],
            1 => r = [0xff; 32],
            2 => r.reverse(),
            3 => r[31] ^= 1 << rng.below(8),
            4 => { let k = rng.range(1, 31) as usize; for b in &mut r[k..] { *b = 0; } }
            5 if p.data.len() >= 32 => r.copy_from_slice(&p.data[..32]),
            _ => { let i = rng.below(32) as usize; r[i] ^= 1 << rng.below(8); }
        }
    } else if rng.chance(1, 4) {
        r = match rng.below(3) { 0 => [0; 32], 1 if p.data.len() >= 32 => p.data[..32].try_into().unwrap(), _ => sha(&[&p.data]) };
    }
    if want != Some(r) { check!(!matches!(guard(|| p.with(|m| m.verify(&r))), Ok(Ok(()))), "verify accepted the wrong root {}; {}", hex(&r), p.show()); }
    Ok(format!("{}", if want.is_some() { "accepted" } else { "rejected" }))
}

pub fn c02(rng: &mut Rng, case: u64) -> Case {
    let shape = match exhaustive_shape(case) {
        Some(s) => s,
        None if case == EXHAUSTIVE => huge_shape(rng),
        None if rng.chance(1, 3) => { let n = rng.range(60, 75) as usize; random_shape(rng, n) }
        None => gen_shape(rng),
    };
    let Some(leaves) = parse(&shape) else { return Ok(String::new()) };
    let n = leaves.len();
    let data = data_for(rng, n);
    let p = Parts { data, mask: vec![true; n], shape, hint: rng.below(8) as usize };
    let avail = n.min(p.data.len() / 32);
    let want: Vec<(Option<u64>, Chunk)> = leaves.iter().take(avail).enumerate().map(|(i, l)| (gindex(l), p.data[i * 32..i * 32 + 32].try_into().unwrap())).collect();
    let fits = leaves.iter().all(|l| gindex(l).is_some());
    // collect outside the closure so that what was yielded before a rejection is seen too
    let mut got: Vec<(u64, Chunk)> = vec![];
    let end = guard(|| p.with(|m| for (g, c) in m.nodes().take(n + 5) { got.push((g, *c)); }));
    for (i, (g, c)) in got.iter().enumerate() {
        check!(i < want.len(), "nodes() yields more items than leaves; {}", p.show());
        check!(Some(*g) == want[i].0 && *c == want[i].1, "node {i} is ({g}, {}) but should be ({:?}, {}); {}", hex(c), want[i].0, hex(&want[i].1), p.show());
    }
    if fits {
        check!(end.is_ok(), "nodes() rejected a well-formed shape: {:?}; {}", end, p.show());
        check!(got.len() == want.len(), "nodes() yielded {} of {} nodes; {}", got.len(), want.len(), p.show());
        if case < 64 || rng.chance(1, 8) {
            let r = guard(|| p.with(|m| same_iter(rng, "nodes()", &got.iter().map(|(g, c)| (*g, c)).collect::<Vec<_>>(), || m.nodes())));
            match r { Ok(Ok(_)) => {}, Ok(Err(e)) | Err(e) => return Err(format!("{e}; {}", p.show())) }
        }
    }
    Ok(if fits { "fits".into() } else { "overflowing".into() })
}

pub fn c03(rng: &mut Rng, case: u64) -> Case {
    let mut shape = exhaustive_shape(case).unwrap_or_else(|| if case == EXHAUSTIVE { huge_shape(rng) } else { gen_shape(rng) });
    if case != EXHAUSTIVE && rng.chance(1, 8) { mutate(rng, &mut shape); }
    let n = shape.iter().filter(|b| **b).count();
    let data = data_for(rng, n);
    let dense = rng.below(4);
    let mlen = match rng.below(6) { 0 => n.saturating_sub(rng.below(3) as usize), 1 => n + rng.below(40) as usize, _ => n };
    let mask: Vec<bool> = (0..mlen).map(|_| rng.below(4) < dense.max(1)).collect();
    let p = Parts { data, mask, shape, hint: 4 };
    let well = parse(&p.shape);
    if well.as_ref().is_some_and(|l| l.iter().any(|x| gindex(x).is_none())) { return Ok(String::new()); }
    // reference nodes: the oracle's for well-formed shapes, the code's own otherwise
    let nodes: Vec<(u64, Chunk)> = match &well {
        Some(l) => l.iter().take(p.data.len() / 32).enumerate().map(|(i, x)| (gindex(x).unwrap(), p.data[i * 32..i * 32 + 32].try_into().unwrap())).collect(),
        None => match guard(|| p.with(|m| m.nodes().map(|(g, c)| (g, *c)).collect::<Vec<_>>())) { Ok(v) => v, Err(_) => return Ok(String::new()) },
    };
    let want: Vec<(u64, Chunk)> = nodes.iter().zip(&p.mask).filter(|(_, m)| **m).map(|(n, _)| *n).collect();
    let got = guard(|| p.with(|m| m.values().map(|(g, c)| (g, *c)).take(nodes.len() + 5).collect::<Vec<_>>()));
    check!(got.as_ref().ok() == Some(&want), "values() gave {:?} instead of the {} masked nodes; {}", got.as_ref().map(|v| v.iter().map(|x| x.0).collect::<Vec<_>>()), want.len(), p.show());
    if well.is_some() && (case < 64 || rng.chance(1, 8)) {
        let r = guard(|| p.with(|m| same_iter(rng, "values()", &want.iter().map(|(g, c)| (*g, c)).collect::<Vec<_>>(), || m.values())));
        match r { Ok(Ok(_)) => {}, Ok(Err(e)) | Err(e) => return Err(format!("{e}; {}", p.show())) }
    }
    let mut asked: Vec<u64> = vec![0, 1, 2, 3, rng.u64(), rng.below(64)];
    if !nodes.is_empty() { for _ in 0..4 { let g = rng.pick(&nodes).0; asked.push(near(rng, g)); } }
    if nodes.len() <= 100 { asked.extend(nodes.iter().map(|x| x.0)); } else { for _ in 0..20 { asked.push(rng.pick(&nodes).0); } }
    for q in asked {
        let w = want.iter().find(|x| x.0 == q).map(|x| x.1);
        let g = guard(|| p.with(|m| m.get(q).copied()));
        check!(g == Ok(w), "get({q}) gave {:?} instead of {:?}; {}", g, w.map(|c| hex(&c)), p.show());
    }
    // reads with an expected index
    let script: Vec<(bool, u64)> = (0..want.len() + 2).map(|i| (rng.chance(1, 3), if rng.chance(1, 6) { match want.get(i) { Some(e) if rng.bool() => near(rng, e.0), _ => rng.u64() } } else { 0 })).collect();
    let r = guard(|| p.with(|m| -> Case {
        let mut it = m.values();
        for (i, (plain, wrong)) in script.iter().enumerate() {
            let exp = want.get(i);
            if exp.is_none() && well.is_none() { return Ok(String::new()); } // past the end of a shape that is no tree
            if *plain {
                let g = it.next().map(|(g, c)| (g, *c));
                check!(g == exp.copied(), "value {i}: next() gave {g:?}, expected {exp:?}");
                continue;
            }
            let ask = if *wrong != 0 { *wrong } else { exp.map(|e| e.0).unwrap_or(5) };
            match (it.next_assert_gindex(ask), exp) {
                (Ok(c), Some(e)) => check!(e.0 == ask && *c == e.1, "read {i} at {ask} returned {} but the next value is {e:?}", hex(c)),
                (Ok(_), None) => return Err(format!("read {i} at {ask} succeeded after the last value")),
                (Err(Error::MissingValue), None) => {}
                (Err(Error::GIndexMismatch { expected, actual }), Some(e)) => {
                    check!(e.0 != ask && expected == ask && actual == e.0, "read {i} at {ask} reported mismatch {expected}/{actual}, next is {e:?}");
                    return Ok(String::new()); // what a refused read consumes is not specified
                }
                (Err(e), x) => return Err(format!("read {i} at {ask} gave error {e:?} with next value {x:?}")),
            }
        }
        Ok(String::new())
    }));
    match r { Ok(Ok(_)) => {}, Ok(Err(e)) => return Err(format!("{e}; {}", p.show())), Err(e) => return Err(format!("reading values panicked: {e}; {}", p.show())) }
    Ok(if want.is_empty() { String::new() } else { "values".into() })
}

// ---------------------------------------------------------------------------------------------
/// A container given by the chunks of a finite set of its nodes, with consistent hashes.
pub struct Container { nodes: BTreeMap<u64, Chunk> }
impl Container {
    /// `tops`: an antichain covering what is asked for; everything needed above it is computed.
    fn new(rng: &mut Rng, tops: &BTreeSet<u64>) -> Self {
        // sometimes chunks repeat, as the zero chunks of a real container do
        let pool = rng.chance(1, 3).then(|| [[0; 32], rng.chunk(), h2(&[0; 32], &[0; 32])]);
        let mut nodes = BTreeMap::new();
        let mut all: BTreeSet<u64> = BTreeSet::from([1]);
        for &g in tops { let mut x = g; while x > 1 { all.insert(x); all.insert(x ^ 1); x /= 2; } }
        for &g in all.iter().rev() {
            let kids = g.checked_mul(2).and_then(|l| Some((*nodes.get(&l)?, *nodes.get(&(l + 1))?)));
            let c = match (kids, &pool) { (Some((l, r)), _) => h2(&l, &r), (None, Some(p)) if rng.chance(3, 4) => *rng.pick(p), _ => rng.chunk() };
            nodes.insert(g, c);
        }
        Container { nodes }
    }
}
impl GeneralizedIndexable for Container {
    fn generalized_index(path: Path) -> Result<usize, MerkleizationError> {
        match path { [PathElement::Index(i)] => Ok(*i), _ => Err(MerkleizationError::InvalidPath) }
    }
}
impl Prove for Container {
    fn chunk(&self, index: usize) -> Result<Node, MerkleizationError> { self.nodes.get(&(index as u64)).map(|c| Node(*c)).ok_or(MerkleizationError::NoNode(index)) }
}
/// depth-first, left-to-right order of antichain members
pub fn dfs_key(g: u64) -> (u64, u32) { (g << g.leading_zeros(), 64 - g.leading_zeros()) }

fn antichain(rng: &mut Rng, case: u64) -> BTreeSet<u64> {
    let mut set = BTreeSet::new();
    let (n, deep) = match case % 40 { 0 => (1, true), 1..=3 => (2, true), 4 => (rng.range(200, 900), false), _ => (rng.range(1, 20), rng.chance(1, 2)) };
    let mut tries = 0;
    while (set.len() as u64) < n && tries < n * 20 {
        tries += 1;
        let depth = if deep { rng.range(1, 63) } else { rng.range(1, 12) };
        let mut g = (1u64 << depth) | (rng.u64() & ((1u64 << depth) - 1));
        if rng.chance(1, 3) && !set.is_empty() {
            // near an existing member: sibling, cousin
            let v: Vec<u64> = set.iter().copied().collect();
            let b = *rng.pick(&v);
            g = match rng.below(3) { 0 => b ^ 1, 1 => b ^ 2, _ => b.wrapping_add(1) };
        }
        if rng.chance(1, 10) { g = 1u64 << depth; }
        if rng.chance(1, 10) { g = (1u64 << depth) | ((1u64 << depth) - 1); }
        let anc = |a: u64, b: u64| { let (da, db) = (a.leading_zeros(), b.leading_zeros()); da >= db && b >> (da - db) == a };
        if g > 1 && set.iter().all(|&o| !anc(o, g) && !anc(g, o)) { set.insert(g); }
    }
    set
}

pub fn c04(rng: &mut Rng, case: u64) -> Case {
    let mut set = antichain(rng, case);
    if case == 7 || case == 1007 { // past the parallel chunk size
        set = BTreeSet::new();
        let d = if case == 7 { 15 } else { 17 };
        for i in 0..(1u64 << d) { if rng.chance(4, 5) { set.insert((1 << d) | i); } }
    }
    if set.is_empty() { return Ok(String::new()); }
    let cont = Container::new(rng, &set);
    let mut order: Vec<u64> = set.iter().copied().collect();
    rng.shuffle(&mut order);
    let style = rng.below(5);
    let cuts: Vec<u64> = (0..order.len()).map(|_| rng.below(4)).collect();
    let desc = if set.len() > 60 { format!("{} indices", set.len()) } else { format!("indices {:?}", order) };
    let built = guard(|| {
        let mut b = MultiproofBuilder::new();
        match style {
            0 => for &g in &order { b = b.with_gindex(g as usize); },
            1 => b = b.with_gindices(order.iter().map(|g| *g as usize)),
            3 => {
                // a mixture of calls
                let mut i = 0;
                while i < order.len() {
                    let j = (i + 1 + (cuts[i] as usize) * order.len() / 4).min(order.len());
                    match cuts[i] { 0 => b = b.with_gindex(order[i] as usize), 1 => b = b.with_path::<Container>(&[(order[i] as usize).into()]), _ => { b = b.with_gindices(order[i..j].iter().map(|g| *g as usize)); i = j; continue; } }
                    i += 1;
                }
            }
            2 => for &g in &order { b = b.with_path::<Container>(&[(g as usize).into()]); },
            _ => { for &g in &order { b = b.with_gindex(g as usize); } b = b.with_gindices(order.iter().rev().map(|g| *g as usize)); }
        }
        b.build(&cont)
    });
    let proof = match built { Ok(Ok(p)) => p, other => return Err(format!("build failed: {other:?}; {desc}")) };
    // minimal node set: the members plus siblings on the way up that are not ancestors-or-members
    let mut path: BTreeSet<u64> = BTreeSet::new();
    for &g in &set { let mut x = g; while x > 1 { path.insert(x); x /= 2; } }
    let mut want: Vec<u64> = set.iter().copied().chain(path.iter().map(|x| x ^ 1).filter(|x| !path.contains(x))).collect::<BTreeSet<_>>().into_iter().collect();
    want.sort_by_key(|g| dfs_key(*g));
    let got = guard(|| proof.nodes().map(|(g, c)| (g, *c)).collect::<Vec<_>>());
    let wantn: Vec<(u64, Chunk)> = want.iter().map(|g| (*g, cont.nodes[g])).collect();
    check!(got.as_ref().ok() == Some(&wantn), "proof nodes {:?} instead of {:?}; {desc}", got.as_ref().map(|v| v.iter().map(|x| x.0).collect::<Vec<_>>()), want);
    let wantv: Vec<(u64, Chunk)> = wantn.iter().filter(|x| set.contains(&x.0)).copied().collect();
    let gotv = guard(|| proof.values().map(|(g, c)| (g, *c)).collect::<Vec<_>>());
    check!(gotv.as_ref().ok() == Some(&wantv), "values {:?} instead of the requested indices; {desc}", gotv.as_ref().map(|v| v.iter().map(|x| x.0).collect::<Vec<_>>()));
    let r = guard(|| proof.verify(&cont.nodes[&1]));
    check!(matches!(r, Ok(Ok(()))), "built proof does not verify against the container's root: {r:?}; {desc}");
    Ok("built".into())
}

pub fn c05(rng: &mut Rng, case: u64) -> Case {
    if case % 8 == 0 {
        // a proof of the builder
        let set = antichain(rng, 5 + case);
        if set.is_empty() { return Ok(String::new()); }
        let cont = Container::new(rng, &set);
        let m = match guard(|| MultiproofBuilder::new().with_gindices(set.iter().map(|g| *g as usize)).build(&cont)) { Ok(Ok(m)) => m, _ => return Ok(String::new()) };
        let desc = || if set.len() > 60 { format!("built for {} indices", set.len()) } else { format!("built for indices {set:?}") };
        let r = guard(|| { let b = bincode::serialize(&m).map_err(|e| e.to_string())?; let m2: Multiproof = bincode::deserialize(&b).map_err(|e| e.to_string())?; Ok::<_, String>((m == m2, view(&m) == view(&m2))) });
        check!(r == Ok(Ok((true, true))), "round trip changed the multiproof: {r:?}; {}", desc());
        return Ok("built".into());
    }
    let shape = gen_shape(rng);
    let n = shape.iter().filter(|b| **b).count();
    let data = data_for(rng, n);
    let mlen = match rng.below(6) { 0 => 0, 1 => n.saturating_sub(1), 2 => n + rng.below(40) as usize, _ => n };
    let tail = rng.chance(1, 4); // ends in zeros
    let p = Parts { data, mask: (0..mlen).map(|i| rng.bool() && !(tail && i > mlen / 2)).collect(), shape, hint: match rng.below(4) { 0 => 0, 1 => rng.below(100) as usize, 2 => usize::MAX - rng.below(3) as usize, _ => rng.u64() as usize } };
    let b = p.bytes();
    let Ok(m) = bincode::deserialize::<Multiproof>(&b) else { return Ok(String::new()) }; // another format: the built proofs decide
    let r = guard(|| { let b2 = bincode::serialize(&m).map_err(|e| e.to_string())?; let m2: Multiproof = bincode::deserialize(&b2).map_err(|e| e.to_string())?; Ok::<_, String>((m == m2, b2 == b)) });
    check!(r == Ok(Ok((true, true))), "round trip changed the multiproof: {r:?}; {}", p.show());
    check!(guard(|| m.clone() == m) == Ok(true), "a copy of the multiproof is not equal to it; {}", p.show());
    // a change of one part is a different multiproof
    let mut q = p.clone();
    let what = match rng.below(4) {
        0 if !q.data.is_empty() => { let i = rng.below(q.data.len() as u64) as usize; q.data[i] ^= 1 << rng.below(8); "chunk" }
        1 if !q.mask.is_empty() => { let i = rng.below(q.mask.len() as u64) as usize; q.mask[i] ^= true; "mask" }
        2 if !q.shape.is_empty() => { let i = rng.below(q.shape.len() as u64) as usize; q.shape[i] ^= true; "shape" }
        _ => { q.hint = q.hint.wrapping_add(1); "hint" }
    };
    let r = guard(|| q.with(|x| x == m));
    check!(r == Ok(false), "multiproofs with different {what} compare equal: {r:?}; {}", p.show());
    Ok("roundtrip".into())
}
/// what a multiproof shows
fn view(m: &Multiproof) -> (Result<Vec<(u64, Chunk)>, String>, Result<Vec<(u64, Chunk)>, String>, Result<Option<Chunk>, String>) {
    (guard(|| m.nodes().map(|(g, c)| (g, *c)).collect()), guard(|| m.values().map(|(g, c)| (g, *c)).collect()), guard(|| m.calculate_root().ok()))
}
