//! C06, C07, C15, C21: the finality state machine, balances, public encodings.
use crate::check;
use crate::common::*;
use alloy_primitives::B256;
use z_core::{abi, get_total_balance, ChainSpec, Checkpoint, ConsensusState, Epoch, Link, ValidatorInfo};

/// Oracle checkpoints and states: (epoch, root) and (justified, finalized).
pub type Cp = (u64, Chunk);
pub type St = (Cp, Cp);
pub const ZERO: Cp = (0, [0; 32]);

pub fn cp(c: Cp) -> Checkpoint { Checkpoint::new(Epoch::new(c.0), B256::from(c.1)) }
pub fn uncp(c: &Checkpoint) -> Cp { (c.epoch().as_u64(), c.root().0) }
pub fn unst(s: &ConsensusState) -> St { (uncp(&s.current_justified_checkpoint()), uncp(&s.finalized_checkpoint())) }
pub fn valid(s: &St) -> bool { s.1.0 < s.0.0 || *s == (ZERO, ZERO) }
pub fn state(s: St) -> ConsensusState { ConsensusState::new(cp(s.0), cp(s.1)) }
pub fn show_cp(c: &Cp) -> String { format!("({},{})", c.0, hex(&c.1[..2])) }
pub fn show_st(s: &St) -> String { format!("[justified {} finalized {}]", show_cp(&s.0), show_cp(&s.1)) }
/// Oracle: the two Casper FFG rules.
pub fn apply(s: &St, source: &Cp, target: &Cp) -> Option<St> {
    if s.0 != *source || target.0 <= source.0 { return None; }
    Some((*target, if target.0 - source.0 == 1 { *source } else { s.1 }))
}

fn epoch(rng: &mut Rng, mode: u64) -> u64 {
    match mode { 0 => rng.below(5), 1 => u64::MAX - rng.below(5), 2 => *rng.pick(&[0, 1, 2, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX]), _ => rng.corner() }
}
fn root(rng: &mut Rng) -> Chunk { match rng.below(4) { 0 => [0; 32], 1 => { let mut r = [0; 32]; r[31] = 1; r } 2 => [7; 32], _ => { let mut r = [7; 32]; r[0] = 8; r } } }
fn state_any(rng: &mut Rng, mode: u64) -> St {
    loop {
        if rng.chance(1, 12) { return (ZERO, ZERO); }
        let s = ((epoch(rng, mode), root(rng)), (epoch(rng, mode), root(rng)));
        if valid(&s) { return s; }
    }
}
/// every pair over a tiny domain first
const POOL_E: u64 = 5;
fn pool(i: u64) -> Cp { let mut r = [0; 32]; if i % 2 == 1 { r[5] = 9; } (i / 2, r) }

pub fn c06(rng: &mut Rng, case: u64) -> Case {
    let n = POOL_E * 2;
    let (s, l) = if case < n * n * n * n {
        ((pool(case % n), pool(case / n % n)), (pool(case / n / n % n), pool(case / n / n / n)))
    } else {
        let mode = rng.below(4);
        let s = state_any(rng, mode);
        let src = if rng.chance(5, 6) { s.0 } else if rng.bool() { s.1 } else { (s.0.0, root(rng)) };
        let te = match rng.below(4) { 0 => src.0.wrapping_add(1), 1 => src.0.wrapping_add(rng.below(4)), 2 => src.0.wrapping_sub(rng.below(3)), _ => epoch(rng, mode) };
        (s, (src, (te, root(rng))))
    };
    let built = guard(|| ConsensusState::new(cp(s.0), cp(s.1)));
    if !valid(&s) {
        check!(built.is_err(), "ConsensusState::new accepts the invalid state {}", show_st(&s));
        return Ok(String::new());
    }
    let Ok(st) = built else { return Err(format!("ConsensusState::new rejects the valid state {}", show_st(&s))) };
    check!(unst(&st) == s, "state accessors give {} for {}", show_st(&unst(&st)), show_st(&s));
    check!(st.is_valid(), "is_valid() is false for the valid state {}", show_st(&s));
    let want = apply(&s, &l.0, &l.1);
    let got = guard(|| st.state_transition(&Link { source: cp(l.0), target: cp(l.1) }));
    let what = format!("link {}->{} on {}", show_cp(&l.0), show_cp(&l.1), show_st(&s));
    match (&got, &want) {
        (Ok(Ok(g)), Some(w)) => {
            check!(unst(g) == *w, "{what} gave {} instead of {}", show_st(&unst(g)), show_st(w));
            check!(g.is_valid(), "{what} gave the invalid state {}", show_st(w));
        }
        (Ok(Ok(g)), None) => return Err(format!("{what} was accepted, giving {}", show_st(&unst(g)))),
        (Ok(Err(e)), Some(w)) => return Err(format!("{what} was refused ({e:?}) but must give {}", show_st(w))),
        (Ok(Err(_)), None) => {}
        (Err(p), _) => return Err(format!("{what} panicked: {p}")),
    }
    check!(unst(&st) == s, "{what} changed its input state");
    Ok(if want.is_some() { "accepted" } else { "refused" }.into())
}

pub fn c07(rng: &mut Rng, case: u64) -> Case {
    let n = POOL_E * 2;
    let (a, b) = if case < n * n * n * n {
        ((pool(case % n), pool(case / n % n)), (pool(case / n / n % n), pool(case / n / n / n)))
    } else {
        let mode = rng.below(4);
        let a = state_any(rng, mode);
        let b = match rng.below(3) {
            0 => state_any(rng, mode),
            1 => {
                let t = (a.0.0.saturating_add(rng.range(1, 3)), root(rng));
                let f = match rng.below(4) { 0 => a.0, 1 => a.1, 2 => (a.0.0, root(rng)), _ => (a.1.0.saturating_add(rng.below(2)), root(rng)) };
                (t, f)
            }
            _ => (a.0, (a.1.0.wrapping_add(rng.below(3)), root(rng))),
        };
        (a, b)
    };
    if !valid(&a) || !valid(&b) { return Ok(String::new()); }
    let (sa, sb) = (state(a), state(b));
    let what = format!("link from {} to {}", show_st(&a), show_st(&b));
    let got = match guard(|| sa.transition_link(&sb)) { Ok(g) => g, Err(p) => return Err(format!("{what}: panicked: {p}")) };
    let exists = apply(&a, &a.0, &b.0) == Some(b);
    match (&got, a == b, exists) {
        (Ok(None), true, _) => Ok("equal".into()),
        (Ok(Some(l)), false, true) => {
            check!(uncp(&l.source) == a.0 && uncp(&l.target) == b.0, "{what}: reconstructed {l}, which does not lead there");
            // the real transition must agree
            let back = guard(|| sa.state_transition(l));
            check!(matches!(&back, Ok(Ok(s)) if unst(s) == b), "{what}: applying the reconstructed link {l} gives {back:?}");
            Ok("link".into())
        }
        (Err(_), false, false) => Ok("refused".into()),
        (g, _, _) => Err(format!("{what}: got {g:?}; states {}, a single link {}", if a == b { "equal" } else { "differ" }, if exists { "connects them" } else { "does not connect them" })),
    }
}

// ---------------------------------------------------------------------------------------------
fn word(x: u64) -> Chunk { let mut w = [0; 32]; w[24..].copy_from_slice(&x.to_be_bytes()); w }
pub fn enc(s: &St) -> Vec<u8> { [word(s.0.0), s.0.1, word(s.1.0), s.1.1].concat() }

pub fn c21(rng: &mut Rng, case: u64) -> Case {
    let mode = rng.below(4);
    let any = |rng: &mut Rng| -> St {
        let r = |rng: &mut Rng| if rng.bool() { rng.chunk() } else { root(rng) };
        ((epoch(rng, mode), r(rng)), (epoch(rng, mode), r(rng)))
    };
    let n = 6u64;
    let s = if case < n * n * n * n { ((pool(case % n)), pool(case / n % n)) } else { any(rng) };
    let bytes = enc(&s);
    let dec = guard(|| ConsensusState::abi_decode(&bytes));
    let what = format!("{} ({})", show_st(&s), hex(&bytes));
    if valid(&s) {
        let st = state(s);
        let e = guard(|| st.abi_encode());
        check!(e.as_ref() == Ok(&bytes), "encoding of {what} is {:?}", e.map(|b| hex(&b)));
        check!(ConsensusState::abi_encoded_size() == 128, "encoded size is {}", ConsensusState::abi_encoded_size());
        check!(matches!(&dec, Ok(Ok(d)) if unst(d) == s), "decoding {what} gave {dec:?}");
        let cut = rng.below(128) as usize;
        let d = guard(|| ConsensusState::abi_decode(&bytes[..cut]));
        check!(matches!(d, Ok(Err(_))), "decoding the first {cut} bytes of {what} gave {d:?}");
        let mut p;
        loop { p = any(rng); if valid(&p) { break; } }
        let slot = rng.corner();
        let j = guard(|| { let j = abi::Journal::new(&st, &state(p), slot); (j.encode(), j.encoded_size()) });
        let want = [bytes.clone(), enc(&p), word(slot).to_vec()].concat();
        check!(j == Ok((want, 288)), "journal of {what}, {}, slot {slot} is {:?}", show_st(&p), j.map(|x| (hex(&x.0), x.1)));
        Ok("valid".into())
    } else {
        check!(matches!(dec, Ok(Err(_))), "decoding the invalid state {what} gave {dec:?}, not an error");
        Ok("invalid".into())
    }
}

pub fn validator(key: u64, balance: u64) -> ValidatorInfo {
    ValidatorInfo { pubkey: crate::verify::key(key), effective_balance: balance, slashed: false, activation_eligibility_epoch: Epoch::new(0), activation_epoch: Epoch::new(0), exit_epoch: Epoch::new(u64::MAX) }
}
pub fn total(spec: &ChainSpec, balances: impl IntoIterator<Item = u64>) -> Option<u64> {
    let sum: u128 = balances.into_iter().map(|b| b as u128).sum();
    Some(u64::try_from(sum).ok()?.max(spec.effective_balance_increment))
}
pub fn c15(rng: &mut Rng, case: u64) -> Case {
    let mut spec = ChainSpec::mainnet();
    if rng.bool() { spec.effective_balance_increment = rng.corner(); }
    let n = if case == 0 { 0 } else { rng.below(9) };
    let big = rng.below(3);
    let vs: Vec<ValidatorInfo> = (0..n).map(|i| {
        let b = match big { 0 => rng.corner(), 1 => u64::MAX / n.max(1) + rng.below(3) - (rng.below(3)), _ => rng.below(spec.effective_balance_increment.saturating_mul(2).max(1)) };
        let mut v = validator(i, b);
        v.slashed = rng.bool();
        if rng.bool() { v.exit_epoch = Epoch::new(rng.below(3)); }
        v
    }).collect();
    let want = total(&spec, vs.iter().map(|v| v.effective_balance));
    let got = guard(|| get_total_balance(&spec, vs.iter()));
    let what = format!("total of {:?} with increment {}", vs.iter().map(|v| v.effective_balance).collect::<Vec<_>>(), spec.effective_balance_increment);
    match (&got, want) {
        (Ok(Ok(g)), Some(w)) if *g == w => Ok("sum".into()),
        (Ok(Err(_)), None) => Ok("overflow".into()),
        _ => Err(format!("{what}: got {got:?}, expected {want:?}")),
    }
}
