//! C30: the store of beacon states, over the real file system, inside a directory of its own.
use crate::check;
use crate::common::*;
use alloy_primitives::B256;
use beacon_types::MinimalEthSpec;
use ethereum_consensus::electra::{BeaconState as State, Checkpoint};
use ethereum_consensus::phase0::{BeaconBlockHeader, Fork, Validator};
use ethereum_consensus::primitives::{BlsPublicKey, Bytes32};
use host::mainnet::BeaconState;
use host::{BeaconClient, FileProvider, PersistentApiStateProvider, StateProvider, StateProviderError, StateRef};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use z_core::{Epoch, Slot};

type E = MinimalEthSpec;
const SPE: u64 = 8;
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn a_state(rng: &mut Rng, slot: u64) -> BeaconState {
    let h = |rng: &mut Rng| B256::from(rng.chunk());
    let validators: Vec<Validator> = (0..rng.below(24)).map(|_| Validator { public_key: BlsPublicKey(vec![rng.u64() as u8; 48]), withdrawal_credentials: Bytes32(rng.chunk().to_vec()), effective_balance: rng.u64(), slashed: rng.bool(), activation_eligibility_epoch: rng.corner(), activation_epoch: rng.corner(), exit_epoch: rng.corner(), withdrawable_epoch: rng.corner() }).collect();
    let s = State { leaves: (0..37).map(|_| rng.chunk()).collect(), slot, genesis_validators_root: h(rng), fork: Fork { previous_version: [1; 4], current_version: [2; 4], epoch: rng.corner() },
        latest_block_header: BeaconBlockHeader { slot: rng.corner(), proposer_index: rng.below(9) as usize, parent_root: h(rng), state_root: h(rng), body_root: h(rng) },
        validators: validators.into(), randao_mixes: (0..rng.below(9)).map(|_| Bytes32(rng.chunk().to_vec())).collect(), finalized: Checkpoint { epoch: rng.corner(), root: h(rng) }, earliest_exit_epoch: rng.corner(), earliest_consolidation_epoch: rng.corner() };
    match rng.below(3) { 0 => BeaconState::Deneb(s), 1 => BeaconState::Electra(s), _ => BeaconState::Fulu(s) }
}
fn bytes(s: &BeaconState) -> Vec<u8> { ssz_rs::serialize(s).expect("encodes") }
/// The process that is stopped while it saves: native C30-save DIR FILE
pub fn save(dir: &str, file: &str) -> i32 {
    let Ok(b) = std::fs::read(file) else { return 9 };
    let (Ok(s), Ok(p)) = (ssz_rs::deserialize::<BeaconState>(&b), FileProvider::<E>::new(dir)) else { return 9 };
    if p.save_state(&s).is_ok() { 0 } else { 1 }
}
type Saved = BTreeMap<u64, Vec<u8>>;
fn found(r: Result<StateRef, StateProviderError>) -> Result<Option<Vec<u8>>, String> {
    match r { Ok(s) => Ok(Some(bytes(&s))), Err(StateProviderError::NotFound(_)) => Ok(None), Err(e) => Err(format!("{e:?}")) }
}
fn len(x: &Result<Option<Vec<u8>>, String>) -> String { match x { Ok(None) => "no state".into(), Ok(Some(b)) => format!("a state (slot {:?}, {} bytes, {})", slot_in(b), b.len(), &hex(&sha(&[b]))[..8]), Err(e) => format!("error {e}") } }
fn slot_in(b: &[u8]) -> Option<u64> { Some(u64::from_le_bytes(b.get(1..9)?.try_into().ok()?)) }

/// the store is what it should be
fn same(dir: &Path, saved: &Saved, slots: &[u64], log: &[String]) -> Result<(), String> {
    let p = FileProvider::<E>::new(dir).map_err(|e| format!("{log:?}: the directory is not accepted: {e}"))?;
    for s in slots {
        let got = found(p.state_at_slot(Slot::new(*s)));
        check!(got.as_ref() == Ok(&saved.get(s).cloned()), "after {log:?}: slot {s} has {}, want {}", len(&got), len(&Ok(saved.get(s).cloned())));
    }
    Ok(())
}

pub fn c30(rng: &mut Rng, case: u64) -> Case {
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let dir = Scratch(base.join(format!("signal-store-{}-{case}", std::process::id())));
    std::fs::create_dir_all(dir.0.join("d")).map_err(|e| e.to_string())?;
    let d = dir.0.join("d");
    let mut saved = Saved::new();
    let base = *rng.pick(&[0u64, 1, 9, 95, 1000, 1 << 33]);
    let mut slots: Vec<u64> = (0..rng.range(2, 6)).map(|_| match rng.below(8) { 0 => rng.corner(), 1 => base * 10 + rng.below(3), _ => base + rng.below(3 * SPE) }).collect();
    slots.sort(); slots.dedup();
    for n in ["notes.txt", "x_beacon_state.ssz", "index"] { if rng.chance(1, 6) { std::fs::write(d.join(n), b"?").map_err(|e| e.to_string())?; } }
    if rng.chance(1, 10) { std::fs::create_dir(d.join("sub")).map_err(|e| e.to_string())?; }
    check!(FileProvider::<E>::new(dir.0.join("absent")).is_err(), "a directory that is not there is accepted");
    let client = BeaconClient::default();
    let open = || FileProvider::<E>::new(&d);
    let (mut file, mut api) = (open().map_err(|e| e.to_string())?, PersistentApiStateProvider::<E>::new(&d, client.clone()).map_err(|e| e.to_string())?);
    let (mut log, mut tags) = (Vec::<String>::new(), std::collections::BTreeSet::<&str>::new());
    for _ in 0..rng.range(2, 9) {
        let slot = *rng.pick(&slots);
        match rng.below(12) {
            0..=3 => {
                let s = a_state(rng, slot);
                let r = file.save_state(&s);
                log.push(format!("save {slot}"));
                if saved.contains_key(&slot) { check!(r.is_err(), "{log:?}: a second state was saved"); tags.insert("again"); }
                else { check!(r.is_ok(), "{log:?}: {:?}", r.err()); saved.insert(slot, bytes(&s)); tags.insert("save"); }
            }
            4 | 5 => {
                let got = found(file.state_at_slot(Slot::new(slot)));
                log.push(format!("get {slot}"));
                check!(got.as_ref() == Ok(&saved.get(&slot).cloned()), "{log:?}: {}, want {}", len(&got), len(&Ok(saved.get(&slot).cloned())));
                if let Err(StateProviderError::NotFound(k)) = file.state_at_slot(Slot::new(slot)) { check!(k.as_u64() == slot, "{log:?}: slot {k} is reported missing"); }
                tags.insert("get");
            }
            6 | 7 => {
                let e = match rng.below(5) { 0 => rng.corner(), _ => (slot / SPE).saturating_add(rng.below(2)) };
                let r = if rng.bool() { file.clear_states_before(Epoch::new(e)) } else { api.clear_states_before(Epoch::new(e)) };
                log.push(format!("clear before epoch {e}"));
                check!(r.is_ok(), "{log:?}: {:?}", r.err());
                let n = saved.len();
                saved.retain(|s, _| *s >= e.saturating_mul(SPE));
                tags.insert(if saved.len() < n { "clear" } else { "clear none" });
            }
            8..=10 => {
                // the node's answer, or none
                let answer = match rng.below(6) { 0 => None, 1 => { let other = *rng.pick(&slots); Some(a_state(rng, other)) } _ => Some(a_state(rng, slot)) };
                { let mut m = client.states.lock().unwrap(); m.clear(); if let Some(a) = &answer { m.insert(slot.to_string(), a.clone()); } }
                client.asked.lock().unwrap().clear();
                let r = api.state_at_slot(Slot::new(slot));
                let asked = client.asked.lock().unwrap().clone();
                log.push(format!("ask the API-backed store for {slot}, node has {:?}", answer.as_ref().map(|a| a.slot())));
                match (saved.get(&slot), &answer) {
                    (Some(b), _) => { let got = found(r); check!(got.as_ref() == Ok(&Some(b.clone())), "{log:?}: {}, want {}", len(&got), len(&Ok(Some(b.clone())))); tags.insert("api kept"); }
                    (None, None) => { check!(r.is_err(), "{log:?}: a state from nowhere"); tags.insert("api none"); }
                    (None, Some(a)) => {
                        check!(asked == [slot.to_string()], "{log:?}: the node was asked for {asked:?}");
                        if saved.contains_key(&a.slot()) { check!(r.is_err(), "{log:?}: a second state was saved"); tags.insert("api again"); }
                        else { let got = found(r); check!(got == Ok(Some(bytes(a))), "{log:?}: {}, want {}", len(&got), len(&Ok(Some(bytes(a))))); saved.insert(a.slot(), bytes(a)); tags.insert("api new"); }
                    }
                }
            }
            _ => {
                // a process that fails, or is ended, while it saves
                let s = a_state(rng, slot);
                let b = bytes(&s);
                let input = dir.0.join("input");
                std::fs::write(&input, &b).map_err(|e| e.to_string())?;
                let (blocks, trap) = (rng.below(b.len() as u64 / 512 + 2), if rng.bool() { "trap '' XFSZ; " } else { "" });
                let exe = std::env::current_exe().map_err(|e| e.to_string())?;
                let r = Command::new("sh").arg("-c").arg(format!("ulimit -c 0; ulimit -f {blocks}; {trap}exec \"$@\"")).arg("sh").arg(exe).arg("C30-save").arg(&d).arg(&input).output().map_err(|e| e.to_string())?;
                log.push(format!("save {slot} ({} bytes) in a process that may write {} bytes to a file: {}", b.len(), blocks * 512, r.status));
                if !saved.contains_key(&slot) {
                    match r.status.code() {
                        Some(0) => { saved.insert(slot, b); tags.insert("save in a process"); }
                        _ => { tags.insert(if trap.is_empty() { "ended while saving" } else { "write fails" }); }
                    }
                } else { check!(!r.status.success(), "{log:?}: a second state was saved"); }
                same(&d, &saved, &slots, &log)?;
            }
        }
        if rng.chance(1, 4) { file = open().map_err(|e| e.to_string())?; api = PersistentApiStateProvider::<E>::new(&d, client.clone()).map_err(|e| e.to_string())?; }
    }
    same(&d, &saved, &slots, &log)?;
    tags.retain(|t| ["ended while saving", "write fails", "clear", "api new", "again"].contains(t));
    Ok(tags.into_iter().collect::<Vec<_>>().join(", "))
}
