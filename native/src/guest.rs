//! C16-C20, C22, C23: the guest input, the reader built from it, and the guest program.
use crate::check;
use crate::common::*;
use crate::cs::{enc, show_st, state, total, unst, Cp, St};
use crate::mp::{gindex, parse, root, Parts};
use crate::verify::{attest, key, oracle_fork, oracle_verify, View};
use alloy_primitives::B256;
use beacon_types::{Attestation, MinimalEthSpec};
use bls::PublicKey;
use std::collections::{BTreeMap, BTreeSet};
use z_core::{ChainSpec, Config, Epoch, EthSpec, GuestInput, InputReader, StatePatch, ValidatorInfo};

type E = MinimalEthSpec;
const SPE: u64 = 8;
const FAR: u64 = u64::MAX;

// --------------------------------------------------------------------------------------------- trees and proofs
/// A Merkle tree given by some of its nodes; what is not given is arbitrary but consistent.
pub struct Tree { nodes: BTreeMap<u64, Chunk> }
impl Tree {
    pub fn new(rng: &mut Rng, leaves: &BTreeMap<u64, Chunk>) -> Self {
        let mut all = BTreeSet::from([1]);
        for &g in leaves.keys() { let mut x = g; while x > 1 { all.insert(x); all.insert(x ^ 1); x /= 2; } }
        let mut nodes: BTreeMap<u64, Chunk> = BTreeMap::new();
        for &g in all.iter().rev() {
            let c = match (nodes.get(&(g * 2)), nodes.get(&(g * 2 + 1))) { (Some(l), Some(r)) => h2(l, r), _ => leaves.get(&g).copied().unwrap_or_else(|| rng.chunk()) };
            nodes.insert(g, c);
        }
        Tree { nodes }
    }
    pub fn root(&self) -> Chunk { self.nodes[&1] }
    /// A proof of the given indices.
    pub fn prove(&self, want: &BTreeSet<u64>) -> Parts {
        let mut anc = BTreeSet::new();
        for &g in want { let mut x = g / 2; while x > 0 { anc.insert(x); x /= 2; } }
        let mut p = Parts { data: vec![], mask: vec![], shape: vec![], hint: 8 };
        let mut todo = vec![1u64];
        while let Some(g) = todo.pop() {
            if anc.contains(&g) && !want.contains(&g) { p.shape.push(false); todo.push(g * 2 + 1); todo.push(g * 2); continue; }
            p.shape.push(true);
            p.mask.push(want.contains(&g));
            p.data.extend(self.nodes[&g]);
        }
        p
    }
}
/// Oracle: the values of a proof with their positions, and its root.
fn values(p: &Parts) -> Option<(Chunk, Vec<(u64, Chunk)>)> {
    let r = root(&p.shape, &p.data)?;
    let mut out = vec![];
    for (i, l) in parse(&p.shape)?.iter().enumerate() {
        let g = gindex(l)?;
        if p.mask.get(i) == Some(&true) { out.push((g, p.data[i * 32..i * 32 + 32].try_into().unwrap())); }
    }
    Some((r, out))
}
fn le(c: &Chunk) -> u64 { u64::from_le_bytes(c[..8].try_into().unwrap()) }
/// a little-endian number; the rest of the chunk is not looked at
fn num(rng: &mut Rng, x: u64) -> Chunk { let mut c = if rng.chance(1, 8) { rng.chunk() } else { [0; 32] }; c[..8].copy_from_slice(&x.to_le_bytes()); c }

// --------------------------------------------------------------------------------------------- the input
#[derive(Clone)]
pub struct Input {
    pub spec: ChainSpec, pub block: Parts, pub state: Parts, pub registry: Parts, pub keys: Vec<PublicKey>,
    pub patches: BTreeMap<u64, (BTreeMap<u32, Chunk>, BTreeMap<usize, u64>)>,
    pub start: St, pub atts: Vec<Attestation<E>>, pub slots: Vec<Parts>,
}
impl Input {
    pub fn real(&self) -> GuestInput<'static, E> {
        GuestInput {
            beacon_block: self.block.owned(), beacon_state: self.state.owned(), active_validators: self.registry.owned(), public_keys: self.keys.clone(),
            patches: self.patches.iter().map(|(e, p)| (Epoch::new(*e), StatePatch { randao_mixes: p.0.iter().map(|(i, c)| (*i, B256::from(*c))).collect(), validator_exits: p.1.iter().map(|(i, e)| (*i, Epoch::new(*e))).collect() })).collect(),
            consensus_state: state(self.start), attestations: self.atts.clone(), block_slot_proofs: self.slots.iter().map(|p| p.owned()).collect(),
        }
    }
    fn show(&self) -> String {
        format!("start {} block [{}] state [{}] registry [{}] patches {:?} slots {:?} spec(min_activation {} increment {} churn {}/{} lookahead {})", show_st(&self.start), show(&self.block), show(&self.state), show(&self.registry),
            self.patches.iter().map(|(e, p)| (*e, &p.1)).collect::<Vec<_>>(), self.slots.iter().map(show).collect::<Vec<_>>(), self.spec.min_activation_balance, self.spec.effective_balance_increment, self.spec.min_per_epoch_churn_limit_electra, self.spec.churn_limit_quotient, self.spec.max_seed_lookahead)
    }
}
fn show(p: &Parts) -> String { match values(p) { Some((_, v)) => v.iter().map(|(g, c)| format!("{}={}", g, le(c))).collect::<Vec<_>>().join(" "), None => format!("malformed {}", p.show()) } }

/// What an accepted input must look like from the outside.
pub struct Model { pub spec: ChainSpec, pub gvr: Chunk, pub validators: BTreeMap<usize, ValidatorInfo>, pub patches: BTreeMap<u64, (BTreeMap<u32, Chunk>, BTreeMap<usize, u64>)>, pub start: St, pub atts: Vec<Attestation<E>>, pub slots: BTreeMap<Chunk, u64> }
impl View<E> for Model {
    fn spec(&self) -> &ChainSpec { &self.spec }
    fn start(&self) -> St { self.start }
    fn atts(&self) -> &[Attestation<E>] { &self.atts }
    fn active(&self, epoch: u64) -> Option<BTreeMap<usize, ValidatorInfo>> {
        let exits = self.patches.get(&epoch).map(|p| &p.1);
        Some(self.validators.iter().filter(|(i, v)| v.activation_epoch.as_u64() <= epoch && epoch < v.exit_epoch.as_u64() && exits.and_then(|x| x.get(i)).is_none_or(|x| epoch < *x)).map(|(i, v)| (*i, v.clone())).collect())
    }
    fn mix(&self, epoch: u64, idx: u32) -> Option<Chunk> { self.patches.get(&epoch)?.0.get(&idx).copied() }
    fn slot(&self, r: &Chunk) -> Option<u64> { self.slots.get(r).copied() }
    fn gvr(&self) -> Chunk { self.gvr }
}
/// Err is a rejection; Ok(None) means the input is outside what the property decides.
fn model(inp: &Input) -> Result<Option<Model>, String> {
    let (jus, fin) = inp.start;
    let (r, v) = values(&inp.block).ok_or("block proof malformed")?;
    if r != fin.1 { return Err("block root".into()); }
    let [(11, state_root)] = v[..] else { return Err("block values".into()) };
    let (r, v) = values(&inp.state).ok_or("state proof malformed")?;
    if r != state_root { return Err("state root".into()); }
    let gs: Vec<u64> = v.iter().map(|x| x.0).collect();
    if gs != [65, 66, 268, 269, 270, 75, 168, 95, 97] { return Err("state values".into()); }
    let (gvr, slot, prev, cur, fe, vroot) = (v[0].1, le(&v[1].1), v[2].1, v[3].1, le(&v[4].1), v[5].1);
    let (pfin, exit1, exit2) = (le(&v[6].1), le(&v[7].1), le(&v[8].1));
    let (r, v) = values(&inp.registry).ok_or("registry proof malformed")?;
    if r != vroot { return Err("registry root".into()); }
    let mut validators = BTreeMap::new();
    let mut keys = inp.keys.iter();
    let (mut at, mut i) = (0, 0u64);
    loop {
        let b = (1u64 << 41) + i;
        let (g, c) = v.get(at).ok_or("registry without a length")?;
        if *g == 3 { if le(c) != i || v.len() != at + 1 { return Err("registry length".into()); } break; }
        if *g == b * 8 + 6 { if le(c) > fin.0 { return Err("not exited".into()); } at += 1; i += 1; continue; }
        let pk = keys.next().ok_or("missing key")?;
        let f = v.get(at..at + 7).ok_or("registry entry cut")?;
        if f.iter().map(|x| x.0).collect::<Vec<_>>() != [b * 16, b * 16 + 1, b * 8 + 2, b * 8 + 3, b * 8 + 4, b * 8 + 5, b * 8 + 6] { return Err("registry entry".into()); }
        let ser = pk.serialize();
        if f[0].1 != ser[..32] || f[1].1[..16] != ser[32..] || f[1].1[16..] != [0; 16] { return Err("key".into()); }
        if f[3].1[1..] != [0; 31] || f[3].1[0] > 1 { return Err("slashed flag".into()); }
        validators.insert(i as usize, ValidatorInfo { pubkey: pk.clone(), effective_balance: le(&f[2].1), slashed: f[3].1[0] == 1, activation_eligibility_epoch: Epoch::new(le(&f[4].1)), activation_epoch: Epoch::new(le(&f[5].1)), exit_epoch: Epoch::new(le(&f[6].1)) });
        at += 7; i += 1;
    }
    let se = slot / SPE;
    let (_, p, c, e) = oracle_fork(&inp.spec, se);
    if prev[..4] != p || cur[..4] != c || fe != e { return Err("fork".into()); }
    let sl = inp.spec.max_seed_lookahead.as_u64();
    let later = |e: u64| e.checked_add(1).and_then(|x| x.checked_add(sl));
    if se <= jus.0 && jus.0 - se > 1000 { return Ok(None); }
    for e in se..=jus.0 {
        let f = if e < jus.0 { pfin } else { fin.0 };
        let act = later(e).ok_or("epoch overflow")?;
        for v in validators.values_mut() {
            if v.activation_eligibility_epoch.as_u64() == FAR && v.effective_balance >= inp.spec.min_activation_balance { v.activation_eligibility_epoch = Epoch::new(e.saturating_add(1)); }
            if v.activation_eligibility_epoch.as_u64() <= f && v.activation_epoch.as_u64() == FAR { v.activation_epoch = Epoch::new(act); }
        }
    }
    // patches
    let all = total(&inp.spec, validators.values().filter(|v| v.activation_epoch.as_u64() <= fin.0 && fin.0 < v.exit_epoch.as_u64()).map(|v| v.effective_balance)).ok_or("balance overflow")?;
    if inp.spec.churn_limit_quotient == 0 || inp.spec.effective_balance_increment == 0 { return Err("spec".into()); }
    let churn = inp.spec.min_per_epoch_churn_limit_electra.max(all / inp.spec.churn_limit_quotient);
    let churn = (churn - churn % inp.spec.effective_balance_increment).checked_mul(2).ok_or("churn overflow")?;
    let mut earliest = exit1.min(exit2).max(later(fin.0).ok_or("epoch overflow")?);
    let mut wide = false;
    let verdict = (|| {
        for (e, p) in &inp.patches {
            if *e < fin.0 { return Err("old patch".to_string()); }
            let mut budget = churn as u128;
            let mut exits: Vec<(usize, u64)> = p.1.iter().map(|x| (*x.0, *x.1)).collect();
            exits.sort_by_key(|x| x.1);
            for (i, x) in exits {
                let v = validators.get(&i).ok_or("patched validator unknown")?;
                let before = e.checked_sub(1).and_then(|b| inp.patches.get(&b)).and_then(|p| p.1.get(&i)).copied().unwrap_or(v.exit_epoch.as_u64());
                if before == x { continue; }
                if before != FAR { return Err("exit changed twice".into()); }
                if x < earliest { return Err("exit too early".into()); }
                budget += (x - earliest) as u128 * churn as u128;
                if budget > u64::MAX as u128 { wide = true; return Ok(()); }
                earliest = x;
                if budget < v.effective_balance as u128 { return Err("churn".into()); }
                budget -= v.effective_balance as u128;
            }
        }
        Ok(())
    })();
    if wide { return Ok(None); }
    verdict?;
    let mut slots = BTreeMap::new();
    for p in &inp.slots {
        let (r, v) = values(p).ok_or("slot proof malformed")?;
        let Some((8, c)) = v.first() else { return Err("slot proof values".into()) };
        slots.insert(r, le(c));
    }
    Ok(Some(Model { spec: inp.spec.clone(), gvr, validators, patches: inp.patches.clone(), start: inp.start, atts: inp.atts.clone(), slots }))
}
/// Build the reader from the input and compare everything it answers.
fn compare_reader(rng: &mut Rng, inp: &Input) -> Case {
    let want = model(inp);
    if matches!(want, Ok(None)) { return Ok(String::new()); }
    let real = inp.real();
    let got = guard(|| real.into_reader(inp.spec.clone()));
    let r = match (got, &want) {
        (Ok(Ok(_)), Err(why)) => return Err(format!("accepted an input that must be rejected ({why}); {}", inp.show())),
        (_, Err(why)) => return Ok(format!("rejected:{why}")),
        (Ok(Ok(r)), _) => r,
        (Ok(Err(e)), _) => return Err(format!("rejected ({e}) a correct input; {}", inp.show())),
        (Err(e), _) => return Err(format!("rejected (panic: {e}) a correct input; {}", inp.show())),
    };
    let Ok(Some(m)) = want else { unreachable!() };
    let fin = inp.start.1.0;
    check!(r.genesis_validators_root().ok() == Some(m.gvr.into()), "genesis validators root {:?} instead of {}; {}", r.genesis_validators_root().ok(), hex(&m.gvr), inp.show());
    check!(r.consensus_state().ok().map(|s| unst(&s)) == Some(inp.start), "consensus state {:?}; {}", r.consensus_state().ok(), inp.show());
    check!(r.attestations().ok().map(|a| a.cloned().collect::<Vec<_>>()).as_ref() == Some(&inp.atts), "attestations differ; {}", inp.show());
    check!(r.chain_spec() == &inp.spec, "chain spec differs");
    let mut epochs: BTreeSet<u64> = (0..14).map(|d| fin.saturating_add(d).saturating_sub(2)).collect();
    for (e, p) in &inp.patches { epochs.extend([*e, e.saturating_add(1), e.saturating_sub(1)]); for x in p.1.values() { epochs.extend([*x, x.wrapping_sub(1)]); } }
    epochs.extend([0, rng.corner(), FAR, FAR - 1]);
    for v in m.validators.values() { for x in [v.activation_epoch, v.exit_epoch] { epochs.extend([x.as_u64(), x.as_u64().wrapping_sub(1)]); } }
    for e in epochs {
        let w: Vec<(usize, ValidatorInfo)> = m.active(e).unwrap().into_iter().collect();
        let g = guard(|| r.active_validators(Epoch::new(e)).map(|i| i.map(|(i, v)| (i, v.clone())).collect::<Vec<_>>()));
        let ok = matches!(&g, Ok(Ok(g)) if *g == w);
        check!(ok, "active validators at epoch {e}: {} instead of {}; {}", match &g { Ok(Ok(g)) => brief(g), other => format!("{:?}", other.as_ref().map(|x| x.is_ok())) }, brief(&w), inp.show());
        let f = oracle_fork(&inp.spec, e);
        let g = r.fork(Epoch::new(e));
        check!(g.as_ref().is_ok_and(|g| (g.previous_version, g.current_version, g.epoch.as_u64()) == (f.1, f.2, f.3)), "fork at epoch {e}: {g:?}");
        for i in [0u32, 1, 63, 64, rng.below(70) as u32].into_iter().chain(inp.patches.values().flat_map(|p| p.0.keys().copied())) {
            let g = r.randao_mix(Epoch::new(e), i);
            check!(g.as_ref().ok().map(|g| g.map(|x| x.0)) == Some(m.mix(e, i)), "mix {i} of epoch {e}: {g:?} instead of {:?}", m.mix(e, i).map(|c| hex(&c)));
        }
    }
    let mut asked: Vec<Chunk> = m.slots.keys().copied().collect();
    asked.extend([rng.chunk(), [0; 32], inp.start.0.1, inp.start.1.1]);
    for c in asked {
        let g = r.slot_for_block(&c.into());
        check!(g.as_ref().ok().copied() == m.slots.get(&c).copied(), "slot of block {}: {g:?} instead of {:?}; {}", hex(&c), m.slots.get(&c), inp.show());
    }
    Ok("accepted".into())
}
fn brief(v: &[(usize, ValidatorInfo)]) -> String { v.iter().map(|(i, v)| format!("{i}:{:?} balance {} slashed {} epochs {}/{}/{}", v.pubkey, v.effective_balance, v.slashed, v.activation_eligibility_epoch, v.activation_epoch, v.exit_epoch)).collect::<Vec<_>>().join("; ") }

// --------------------------------------------------------------------------------------------- generators
#[derive(Clone, Copy, PartialEq)]
pub enum Focus { Bind, Registry, Lookahead, Patches, Active, Slots, Entry }

fn spec(rng: &mut Rng, f: Focus, fin: u64) -> ChainSpec {
    let mut s = crate::verify::small_spec(rng);
    s.max_seed_lookahead = Epoch::new(*rng.pick(&[4, 4, 1, 0, 2]));
    if f == Focus::Lookahead || f == Focus::Active || f == Focus::Patches {
        s.min_activation_balance = *rng.pick(&[32_000_000_000, 32, 1]);
        s.effective_balance_increment = *rng.pick(&[1_000_000_000, 1, 3]);
    }
    if f == Focus::Patches {
        s.min_per_epoch_churn_limit_electra = *rng.pick(&[128_000_000_000, 10, 7, 100, 1]);
        s.churn_limit_quotient = *rng.pick(&[65_536, 1, 2, 10]);
        if rng.chance(1, 40) { s.churn_limit_quotient = 0; }
        if rng.chance(1, 40) { s.effective_balance_increment = 0; }
    }
    for (i, k) in s.forks.iter_mut().enumerate() { k.2 = Epoch::new(match i { 0..5 => 0, 5 => fin.saturating_sub(1 + i as u64 % 3), _ => fin.saturating_add(rng.below(4)).saturating_sub(1) }); k.1 = [i as u8, 3, 1, i as u8]; }
    for i in 1..s.forks.len() { s.forks[i].2 = s.forks[i].2.max(s.forks[i - 1].2); }
    s
}
fn balance(rng: &mut Rng, s: &ChainSpec) -> u64 {
    match rng.below(8) { 0 => s.min_activation_balance.saturating_sub(1), 1 => s.min_activation_balance, 2 => s.min_activation_balance + 1, 3 => rng.below(100), 4 => rng.range(1, 64) * 1_000_000_000, _ => s.min_activation_balance.saturating_mul(rng.range(1, 3)) }
}
pub fn scenario(rng: &mut Rng, f: Focus) -> Input {
    let top = f == Focus::Lookahead && rng.chance(1, 20);
    let t = if top { u64::MAX / SPE - rng.below(4) } else { *rng.pick(&[0u64, 1, 2, 10, 100, 364_100]) };
    let mut fin: Cp = (t, [0; 32]);
    let jus: Cp = { (t.saturating_add(rng.range(1, if f == Focus::Lookahead { 5 } else { 3 })), rng.chunk()) };
    let mut spec = spec(rng, f, t);
    if top { spec.max_seed_lookahead = Epoch::new(rng.corner()); }
    let slot = match (f, rng.below(6)) {
        (Focus::Lookahead | Focus::Bind, 0) => (t * SPE).saturating_sub(rng.range(1, 20)),
        (Focus::Lookahead | Focus::Bind, 1) => (t * SPE).saturating_add(rng.below(SPE * 6)),
        (_, 2) => t * SPE + rng.below(SPE),
        _ => t * SPE,
    };
    
    let se = slot / SPE;
    let pfin = match rng.below(5) { 0 => 0, 1 => se, _ => se.saturating_sub(rng.below(4)) };
    // validators
    let n = match f { Focus::Bind | Focus::Slots => rng.below(3), Focus::Entry => rng.range(4, 20), _ => rng.below(9) };
    let mut leaves: BTreeMap<u64, Chunk> = BTreeMap::new();
    let mut want: BTreeSet<u64> = BTreeSet::from([3]);
    let mut keys = vec![];
    let mut infos = vec![];
    for i in 0..n {
        let b = (1u64 << 41) + i;
        let (elig, act, exit, bal) = match f {
            Focus::Entry => if rng.chance(1, 10) { (0, 0, t.saturating_sub(rng.below(2)), 32_000_000_000) } else { (0, 0, FAR, rng.range(16, 64) * 1_000_000_000) },
            Focus::Bind | Focus::Slots => (0, 0, FAR, 32_000_000_000),
            _ => {
                let elig = match rng.below(6) { 0 | 1 => FAR, 2 => pfin.saturating_add(rng.below(3)).saturating_sub(1), 3 => t.saturating_add(rng.below(3)).saturating_sub(1), 4 => rng.corner(), _ => 0 };
                let act = match rng.below(5) { 0 | 1 => FAR, 2 => t.saturating_add(rng.below(4)).saturating_sub(1), 3 => 0, _ => rng.corner() };
                let exit = match rng.below(6) { 0 => t.saturating_add(rng.below(4)).saturating_sub(1), 1 => jus.0.saturating_add(rng.below(5)), 2 => rng.corner(), _ => FAR };
                (elig, if f == Focus::Patches && rng.chance(2, 3) { 0 } else { act }, if f == Focus::Patches && rng.chance(1, 2) { FAR } else { exit }, balance(rng, &spec))
            }
        };
        let pk = key(i + 500 * rng.below(2));
        let ser = pk.serialize();
        let mut k1 = [0; 32];
        k1[..16].copy_from_slice(&ser[32..]);
        let mut sl = [0; 32];
        sl[0] = rng.chance(1, 5) as u8;
        let full = exit > t || rng.chance(1, 3);
        leaves.insert(b * 16, ser[..32].try_into().unwrap());
        leaves.insert(b * 16 + 1, k1);
        leaves.insert(b * 8 + 2, num(rng, bal)); leaves.insert(b * 8 + 3, sl); leaves.insert(b * 8 + 4, num(rng, elig)); leaves.insert(b * 8 + 5, num(rng, act)); leaves.insert(b * 8 + 6, num(rng, exit));
        if full { want.extend([b * 16, b * 16 + 1, b * 8 + 2, b * 8 + 3, b * 8 + 4, b * 8 + 5]); keys.push(pk); infos.push((i as usize, bal, exit)); }
        want.insert(b * 8 + 6);
    }
    leaves.insert(3, num(rng, n));
    if f == Focus::Registry && rng.chance(2, 3) {
        let i = rng.below(n + 1);
        let b = (1u64 << 41) + i;
        let fld = *rng.pick(&[b * 16, b * 16 + 1, b * 8 + 2, b * 8 + 3, b * 8 + 4, b * 8 + 5, b * 8 + 6]);
        match rng.below(17) {
            0 => { leaves.insert(3, num(rng, n + 1)); }
            1 => { leaves.insert(3, num(rng, n.wrapping_sub(1))); }
            2 => { want.remove(&3); }
            3 => { want.remove(&fld); }
            4 => { want.retain(|g| *g == 3 || g >> (63 - g.leading_zeros() - 41) != b); } // a validator left out, keys kept
            5 if i < n => { want.retain(|g| *g == 3 || g >> (63 - g.leading_zeros() - 41) != b); let full = want.len(); let _ = full; if (i as usize) < keys.len() { keys.remove(i as usize); } }
            6 => { keys.pop(); }
            7 => { if keys.len() > 1 { let a = rng.below(keys.len() as u64) as usize; keys.swap(0, a); } }
            8 => { if !keys.is_empty() { let a = rng.below(keys.len() as u64) as usize; keys[a] = key(9999); } }
            9 => { let mut c = [0; 32]; c[0] = rng.range(2, 255) as u8; if leaves.contains_key(&(b * 8 + 3)) { leaves.insert(b * 8 + 3, c); } }
            10 => { let mut c = [0; 32]; c[0] = rng.bool() as u8; c[rng.range(1, 31) as usize] = 1; if leaves.contains_key(&(b * 8 + 3)) { leaves.insert(b * 8 + 3, c); } }
            11 => { if let Some(c) = leaves.get_mut(&(b * 16 + 1)) { let i = rng.range(16, 31) as usize; let x = *rng.pick(&[1, 2, 16, 64, 128, 255]); c[i] = x; let j = rng.range(16, 31) as usize; if j != i && rng.bool() { c[j] = if rng.bool() { x } else { x.wrapping_neg() }; } } }
            12 => { if let Some(c) = leaves.get_mut(&(b * 16 + 1)) { c[rng.below(16) as usize] ^= 1; } }
            13 => { if let Some(c) = leaves.get_mut(&(b * 16)) { c[rng.below(32) as usize] ^= 128; } }
            14 => { // leave the record out but keep only the exit epoch
                want.retain(|g| *g == 3 || g >> (63 - g.leading_zeros() - 41) != b || *g == b * 8 + 6); if i < n && rng.bool() && !keys.is_empty() { let k = (i as usize).min(keys.len() - 1); keys.remove(k); } }
            15 => { // an extra field
                let g = *rng.pick(&[b * 8 + 7, b * 8 + 1]); leaves.entry(g).or_insert([0; 32]); want.insert(g); }
            _ => { // a surplus entry after the end
                let b = (1u64 << 41) + n + rng.below(2); let g = b * 8 + 6; leaves.insert(g, num(rng, 0)); want.insert(g); }
        }
    }
    let vt = Tree::new(rng, &leaves);
    let mut registry = vt.prove(&want);
    // state
    let mut st: BTreeMap<u64, Chunk> = BTreeMap::new();
    let (_, pv, cv, fe) = oracle_fork(&spec, se);
    let ver = |rng: &mut Rng, v: [u8; 4]| { let mut c = if rng.chance(1, 4) { rng.chunk() } else { [0; 32] }; c[..4].copy_from_slice(&v); c };
    st.insert(65, rng.chunk()); st.insert(66, num(rng, slot)); st.insert(268, ver(rng, pv)); st.insert(269, ver(rng, cv)); st.insert(270, num(rng, fe));
    st.insert(75, vt.root()); st.insert(168, num(rng, pfin));
    let act = t.saturating_add(1).saturating_add(spec.max_seed_lookahead.as_u64());
    let ex = |rng: &mut Rng| match rng.below(5) { 0 => rng.corner(), 1 => 0, _ => act.saturating_add(rng.below(5)).saturating_sub(2) };
    let (e1, e2) = (ex(rng), ex(rng));
    st.insert(95, num(rng, e1)); st.insert(97, num(rng, e2));
    let mut sw: BTreeSet<u64> = st.keys().copied().collect();
    if f == Focus::Bind && rng.chance(1, 2) {
        let k = *rng.pick(&[65u64, 66, 268, 269, 270, 75, 168, 95, 97]);
        match rng.below(8) {
            0 => { sw.remove(&k); }
            1 => { let g = *rng.pick(&[64u64, 67 * 4 + 3, 76, 169, 127, 94, 96]); st.entry(g).or_insert_with(|| [1; 32]); sw.insert(g); }
            2 => { st.insert(268, { let mut c = st[&268]; c[rng.below(4) as usize] ^= 1; c }); }
            3 => { st.insert(269, { let mut c = st[&269]; c[rng.below(4) as usize] ^= 1; c }); }
            4 => { st.insert(270, num(rng, fe.wrapping_add(1))); }
            5 => { let (a, b) = (*rng.pick(&[66u64, 270, 168, 95, 97, 269, 268]), k); let x = st[&a]; let y = st[&b]; st.insert(a, y); st.insert(b, x); }
            6 => { st.insert(75, rng.chunk()); }
            _ => { let i = rng.below(8) as usize; let mut c = st[&k]; c[i] ^= 1 << rng.below(8); st.insert(k, c); }
        }
    }
    let stt = Tree::new(rng, &st);
    let mut state = stt.prove(&sw);
    // block
    let mut bl: BTreeMap<u64, Chunk> = BTreeMap::from([(8, num(rng, slot)), (11, stt.root())]);
    let mut bw = BTreeSet::from([11]);
    if f == Focus::Bind && rng.chance(1, 6) {
        match rng.below(5) { 0 => { bw.insert(8); } 1 => { bw = BTreeSet::from([10]); } 2 => { bw.insert(12); } 3 => { let r = rng.chunk(); bl.insert(11, r); } _ => { bl.insert(10, stt.root()); bw = BTreeSet::from([10]); } }
    }
    for g in [9, 10, 12] { bl.entry(g).or_insert_with(|| [g as u8; 32]); }
    let bt = Tree::new(rng, &bl);
    let mut block = bt.prove(&bw);
    fin.1 = bt.root();
    if f == Focus::Bind && rng.chance(1, 10) { fin.1 = match rng.below(3) { 0 => stt.root(), 1 => rng.chunk(), _ => { let mut c = fin.1; c[rng.below(32) as usize] ^= 1; c } }; }
    // tampering with a finished proof
    if (f == Focus::Bind || f == Focus::Registry) && rng.chance(1, 6) {
        let p = match rng.below(3) { 0 => &mut block, 1 => &mut state, _ => &mut registry };
        match rng.below(5) {
            0 => { let i = rng.below(p.data.len() as u64) as usize; p.data[i] ^= 1 << rng.below(8); }
            1 => { let i = rng.below(p.mask.len() as u64) as usize; p.mask[i] = !p.mask[i]; }
            2 => { p.mask.push(true); p.data.extend(rng.chunk()); }
            3 => { p.data.truncate(p.data.len() - 32); }
            _ => { let n = p.mask.len() as u64; let (a, b) = (rng.below(n) as usize, rng.below(n) as usize); p.mask.swap(a, b); }
        }
    }
    let mut inp = Input { spec, block, state, registry, keys, patches: Default::default(), start: (jus, fin), atts: vec![], slots: vec![] };
    if f == Focus::Patches || f == Focus::Active { patches(rng, &mut inp, f, &infos, act.max(e1.min(e2))); }
    if f == Focus::Slots || f == Focus::Entry || rng.chance(1, 10) {
        for _ in 0..rng.below(4) {
            let b: BTreeMap<u64, Chunk> = BTreeMap::from([(8, { let x = rng.corner(); num(rng, x) }), (11, rng.chunk())]);
            let t = Tree::new(rng, &b);
            let mut w = BTreeSet::from([8]);
            if f == Focus::Slots { match rng.below(24) { 0 => { w = BTreeSet::from([9]); } 1 => { w = BTreeSet::from([11]); } 2 => { w = BTreeSet::from([4]); } _ => {} } }
            let mut p = t.prove(&w);
            if f == Focus::Slots && rng.chance(1, 12) { match rng.below(4) { 0 => { p.shape.push(true); } 1 => { p.mask = vec![false; p.mask.len()]; } 2 => { p.data.truncate(40); } _ => { let i = rng.below(p.data.len() as u64) as usize; p.data[i] ^= 4; } } }
            inp.slots.push(p);
        }
    }
    inp
}
fn patches(rng: &mut Rng, inp: &mut Input, f: Focus, infos: &[(usize, u64, u64)], earliest: u64) {
    let (jus, fin) = inp.start;
    let mut prev: BTreeMap<usize, u64> = BTreeMap::new();
    let mut last = None;
    let from = match rng.below(8) { 0 => fin.0.saturating_sub(1), _ => fin.0.saturating_add(rng.below(3)) };
    let mut floor = earliest;
    for k in 0..rng.range(1, 4) {
        let e = if k == 0 { from } else { from.saturating_add(k * if rng.chance(1, 5) { 2 } else { 1 }) };
        if last == Some(e) { continue; }
        let mut exits = if rng.chance(7, 8) { prev.clone() } else { BTreeMap::new() };
        for &(i, _, exit) in infos {
            match rng.below(if f == Focus::Active { 6 } else { 8 }) {
                0 | 1 if exit == FAR && !prev.contains_key(&i) => {
                    let x = match rng.below(10) { 0 => floor.wrapping_sub(1), 1 => floor.saturating_add(rng.below(3)), 2 => earliest.saturating_add(rng.below(10)), 3 if f == Focus::Patches => rng.corner(), 4 if f == Focus::Patches => e.saturating_add(1), _ => floor };
                    exits.insert(i, x);
                }
                2 if rng.chance(1, 3) => { exits.insert(i, exit); }
                3 if rng.chance(1, 6) => { exits.insert(i, floor); }
                4 if rng.chance(1, 8) => { exits.remove(&i); }
                _ => {}
            }
        }
        if rng.chance(1, 25) { exits.insert(rng.below(12) as usize, floor); }
        if let Some(m) = exits.values().filter(|x| **x < FAR).max() { floor = floor.max(*m); }
        let mut mixes = BTreeMap::new();
        for _ in 0..rng.below(3) { mixes.insert(rng.below(66) as u32, rng.chunk()); }
        prev = exits.clone();
        inp.patches.insert(e, (mixes, exits));
        last = Some(e);
    }
    let _ = jus;
    // a budget near what is being spent
    if f == Focus::Patches && rng.chance(1, 2) {
        let spent: u64 = inp.patches.values().next().map(|p| p.1.keys().filter_map(|i| infos.iter().find(|x| x.0 == *i)).fold(0u64, |a, x| a.saturating_add(x.1))).unwrap_or(0);
        inp.spec.churn_limit_quotient = u64::MAX;
        inp.spec.effective_balance_increment = *rng.pick(&[1, 1, 1, 5]);
        inp.spec.min_per_epoch_churn_limit_electra = (spent / 2 + rng.below(3)).saturating_sub(1);
    }
}
fn run(rng: &mut Rng, f: Focus) -> Case { let i = scenario(rng, f); compare_reader(rng, &i) }
pub fn c16(rng: &mut Rng, _: u64) -> Case { run(rng, Focus::Bind) }
pub fn c17(rng: &mut Rng, _: u64) -> Case { run(rng, Focus::Registry) }
pub fn c18(rng: &mut Rng, _: u64) -> Case { run(rng, Focus::Lookahead) }
pub fn c19(rng: &mut Rng, _: u64) -> Case { run(rng, Focus::Patches) }
pub fn c20(rng: &mut Rng, _: u64) -> Case { run(rng, Focus::Active) }
pub fn c22(rng: &mut Rng, _: u64) -> Case { run(rng, Focus::Slots) }

/// The whole guest program, on serialized input.
pub fn c23(rng: &mut Rng, _: u64) -> Case {
    let focus = if rng.chance(1, 5) { *rng.pick(&[Focus::Bind, Focus::Registry]) } else { Focus::Entry };
    let mut inp = scenario(rng, focus);
    inp.spec.config_name = Some("test".into());
    inp.spec.forks.iter_mut().for_each(|k| if k.0 >= beacon_types::ForkName::Gloas { k.2 = Epoch::new(FAR) });
    let mut cfg: Config = z_core::DEFAULT_CONFIG.clone();
    cfg.min_version = beacon_types::ForkName::Deneb;
    let jus = inp.start.0;
    let hist = E::epochs_per_historical_vector() as u64;
    // a chain of links to the next finalization
    let mut links = vec![];
    let mut cur = jus;
    if rng.chance(1, 3) { let t = (cur.0 + 2, rng.chunk()); links.push((cur, t)); }
    // the last source becomes finalized: give its block a provable slot
    let slot = rng.corner();
    let b = BTreeMap::from([(8, num(rng, slot)), (11, rng.chunk())]);
    let bt = Tree::new(rng, &b);
    if let Some(l) = links.last_mut() { let l: &mut (Cp, Cp) = l; l.1.1 = bt.root(); cur = l.1; } else { inp.start.0.1 = bt.root(); cur = inp.start.0; }
    if !rng.chance(1, 12) { inp.slots.push(bt.prove(&BTreeSet::from([8]))); }
    if !rng.chance(1, 10) { links.push((cur, (cur.0 + 1, rng.chunk()))); }
    for (_, t) in &links {
        let i = ((t.0 + hist - inp.spec.min_seed_lookahead.as_u64() - 1) % hist) as u32;
        if !rng.chance(1, 20) { inp.patches.entry(t.0).or_default().0.insert(i, rng.chunk()); }
    }
    if let Ok(Some(m)) = model(&inp) {
        for (s, t) in &links {
            let ids: BTreeSet<usize> = m.active(t.0).unwrap().keys().copied().filter(|_| !rng.chance(1, 40)).collect();
            let a = attest(rng, &m, *s, *t, &ids);
            inp.atts.extend(a);
        }
    }
    if rng.chance(1, 12) && !inp.atts.is_empty() { let i = rng.below(inp.atts.len() as u64) as usize; if let Attestation::Electra(a) = &mut inp.atts[i] { a.signature = Default::default(); } }
    let want = match model(&inp) { Ok(None) => return Ok(String::new()), Ok(Some(m)) => oracle_verify(&cfg, &m), Err(e) => Err(e) };
    let bytes = bincode::serialize(&inp.real()).map_err(|e| format!("serializing the input failed: {e}"))?;
    risc0_zkvm::guest::env::set_frames(vec![bytes]);
    let r = guard(|| beacon_guest::entry::<E>(inp.spec.clone(), &cfg));
    let commits = risc0_zkvm::guest::env::take_commits();
    match (&r, &want) {
        (_, Err(why)) => { check!(commits.is_empty(), "the guest committed {:?} for an input that must be rejected ({why}); {}", commits.iter().map(|c| hex(c)).collect::<Vec<_>>(), inp.show()); Ok("rejected".into()) }
        (Ok(()), Ok((s, slot))) => {
            let mut w = [0u8; 32]; w[24..].copy_from_slice(&slot.to_be_bytes());
            let w = [enc(&inp.start), enc(s), w.to_vec()].concat();
            check!(commits == [w.clone()], "the guest committed {:?} instead of {}; {}", commits.iter().map(|c| hex(c)).collect::<Vec<_>>(), hex(&w), inp.show());
            Ok("committed".into())
        }
        (Err(e), Ok((s, slot))) => Err(format!("the guest rejected ({e}) an input that must publish {} slot {slot}; {}", show_st(s), inp.show())),
    }
}

/// Any guest input at all, encoded as the host does and decoded as the guest does.
pub fn c29(rng: &mut Rng, case: u64) -> Case {
    let inp = if case % 6 == 0 { scenario(rng, Focus::Entry) } else {
        let start = loop { let c = |rng: &mut Rng| (rng.corner(), if rng.chance(1, 5) { [0; 32] } else { rng.chunk() }); let s = (c(rng), c(rng)); if s.0 .0 > s.1 .0 { break s; } if rng.chance(1, 20) { break ((0, [0; 32]), (0, [0; 32])); } };
        let c = |rng: &mut Rng| beacon_types::Checkpoint { epoch: Epoch::new(rng.corner()), root: rng.chunk().into() };
        let atts = (0..rng.below(4)).map(|_| {
            let data = beacon_types::AttestationData { slot: beacon_types::Slot::new(rng.corner()), index: rng.corner(), beacon_block_root: rng.chunk().into(), source: c(rng), target: c(rng) };
            let long = if rng.chance(1, 40) { 9000 } else { 40 };
            let agg = beacon_types::BitList((0..rng.below(long)).map(|_| rng.bool()).collect());
            let mut signature = bls::AggregateSignature::default();
            for k in 0..rng.below(4) { signature.sign(rng.chunk().into(), &key(k)); }
            if rng.chance(1, 3) { Attestation::Base(beacon_types::AttestationBase { aggregation_bits: agg, data, signature, _p: std::marker::PhantomData }) }
            else { Attestation::Electra(beacon_types::AttestationElectra { aggregation_bits: agg, data, signature, committee_bits: beacon_types::BitList((0..64).map(|_| rng.bool()).collect()), _p: std::marker::PhantomData }) }
        }).collect();
        let patches = (0..rng.below(5)).map(|_| (rng.corner(), ((0..rng.below(4)).map(|_| (rng.corner() as u32, rng.chunk())).collect(), (0..rng.below(5)).map(|_| (rng.corner() as usize, rng.corner())).collect()))).collect();
        let slots = (0..rng.below(4)).map(|_| Parts::any(rng)).collect();
        Input { spec: ChainSpec::mainnet(), block: Parts::any(rng), state: Parts::any(rng), registry: Parts::any(rng), keys: (0..rng.below(6)).map(|_| { let k = rng.below(4); key(k) }).collect(), patches, start, atts, slots }
    };
    let a = inp.real();
    let bytes = match guard(|| bincode::serialize(&a).map_err(|e| e.to_string())) { Ok(Ok(b)) => b, r => return Err(format!("the input is not written: {r:?}; {}", inp.show())) };
    let b: GuestInput<E> = match guard(|| bincode::deserialize(&bytes).map_err(|e| e.to_string())) { Ok(Ok(b)) => b, Ok(Err(e)) | Err(e) => return Err(format!("what was written is not read: {e}; {}", inp.show())) };
    let diff = [
        ("beacon_block", a.beacon_block == b.beacon_block), ("beacon_state", a.beacon_state == b.beacon_state), ("active_validators", a.active_validators == b.active_validators),
        ("public_keys", a.public_keys.iter().map(|k| k.serialize()).eq(b.public_keys.iter().map(|k| k.serialize()))),
        ("patches", a.patches.iter().map(|(e, p)| (e.as_u64(), &p.randao_mixes, p.validator_exits.iter().map(|(i, e)| (*i, e.as_u64())).collect::<Vec<_>>())).eq(b.patches.iter().map(|(e, p)| (e.as_u64(), &p.randao_mixes, p.validator_exits.iter().map(|(i, e)| (*i, e.as_u64())).collect::<Vec<_>>())))),
        ("consensus_state", unst(&a.consensus_state) == unst(&b.consensus_state)), ("attestations", a.attestations == b.attestations), ("block_slot_proofs", a.block_slot_proofs == b.block_slot_proofs),
    ];
    let bad: Vec<&str> = diff.iter().filter(|d| !d.1).map(|d| d.0).collect();
    check!(bad.is_empty(), "{} differ after the round trip; {}", bad.join(", "), inp.show());
    Ok("roundtrip".into())
}
