// Public encodings (core/src/abi.rs).
verus! {
pub mod alloy_sol_types {
    use super::*;
    pub struct Error { }
    impl Error {
        #[verifier::external_body]
        pub fn custom(s: String) -> Error { unimplemented!() }
    }
}
// ---- C21: ABI layout: every field one 32-byte word, structures inline ----
pub trait AbiWords { spec fn words(self) -> Seq<u8>; }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn be8(x: u64) -> Seq<u8> {
    seq![(x / 0x100000000000000 % 256) as u8, (x / 0x1000000000000 % 256) as u8, (x / 0x10000000000 % 256) as u8, (x / 0x100000000 % 256) as u8,
         (x / 0x1000000 % 256) as u8, (x / 0x10000 % 256) as u8, (x / 0x100 % 256) as u8, (x % 256) as u8]
}
impl AbiWords for u64 { open spec fn words(self) -> Seq<u8> { zeros(24) + be8(self) } }
impl AbiWords for B256 { open spec fn words(self) -> Seq<u8> { bytes_of(self) } }
//@item core/src/abi.rs | sol | Checkpoint
//@item core/src/abi.rs | sol | State
//@item core/src/abi.rs | sol | Journal
// alloy-sol-types: encoding writes the words; decoding of a structure without dynamic parts inverts it and needs all of them
pub trait SolEncode: AbiWords + Sized {
    fn abi_encode(&self) -> (r: Vec<u8>) ensures r@ == self.words();
}
impl<T: AbiWords> SolEncode for T {
    #[verifier::external_body]
    fn abi_encode(&self) -> Vec<u8> { unimplemented!() }
}
impl AbiState {
    #[verifier::external_body]
    pub fn sol_decode(data: &[u8]) -> (r: Result<AbiState, alloy_sol_types::Error>)
        ensures
            forall|x: AbiState| data@ == #[trigger] x.words() ==> r == Ok::<AbiState, alloy_sol_types::Error>(x),
            forall|x: AbiState| data@.len() < (#[trigger] x.words()).len() ==> r is Err,
    { unimplemented!() }
}
pub trait VTryFrom<T>: Sized {
    type Error;
    spec fn try_spec(t: T, r: Result<Self, Self::Error>) -> bool;
    fn vtry_from(t: T) -> (r: Result<Self, Self::Error>) ensures Self::try_spec(t, r);
}
pub trait VTryInto<U: VTryFrom<Self>>: Sized {
    fn vf_try_into(self) -> (r: Result<U, U::Error>) ensures U::try_spec(self, r);
}
impl<T, U: VTryFrom<T>> VTryInto<U> for T {
    fn vf_try_into(self) -> (r: Result<U, U::Error>) { U::vtry_from(self) }
}
pub open spec fn cp_words(c: Checkpoint) -> Seq<u8> { zeros(24) + be8(c.e() as u64) + bytes_of(c.r()) }
pub open spec fn state_words(s: ConsensusState) -> Seq<u8> { cp_words(s.current_justified_checkpoint) + cp_words(s.finalized_checkpoint) }
pub open spec fn journal_words(a: ConsensusState, b: ConsensusState, slot: u64) -> Seq<u8> { state_words(a) + state_words(b) + (zeros(24) + be8(slot)) }
pub open spec fn cp_abi(c: Checkpoint) -> AbiCheckpoint { AbiCheckpoint { epoch: c.0.epoch.v, root: c.0.root } }
pub open spec fn cp_of(c: AbiCheckpoint) -> Checkpoint { Checkpoint::mk(c.epoch, c.root) }
pub open spec fn state_abi(s: ConsensusState) -> AbiState { AbiState { current_justified: cp_abi(s.current_justified_checkpoint), finalized: cp_abi(s.finalized_checkpoint) } }
pub open spec fn state_of(s: AbiState) -> ConsensusState { ConsensusState { current_justified_checkpoint: cp_of(s.current_justified), finalized_checkpoint: cp_of(s.finalized) } }
proof fn state_layout(s: ConsensusState)
    ensures state_abi(s).words() == state_words(s), state_words(s).len() == 128, state_of(state_abi(s)) == s,
{
    broadcast use axiom_b256;
    assert(state_abi(s).words() =~= state_words(s));
}
pub mod abi {
use super::*;
pub use super::{AbiCheckpoint as Checkpoint, AbiState as State, AbiJournal as Journal};
impl<'a> VFrom<&'a crate::Checkpoint> for Checkpoint {
    open spec fn from_spec(value: &'a crate::Checkpoint) -> Self { cp_abi(*value) }
//@fn core/src/abi.rs | From<&crate::Checkpoint> for Checkpoint::from | {"rename": "vfrom", "vis": ""}
//@end
}
impl VFrom<Checkpoint> for crate::Checkpoint {
    open spec fn from_spec(value: Checkpoint) -> Self { cp_of(value) }
//@fn core/src/abi.rs | From<Checkpoint> for Checkpoint::from | {"rename": "vfrom", "vis": ""}
//@end
}
impl<'a> VFrom<&'a crate::ConsensusState> for State {
    open spec fn from_spec(value: &'a crate::ConsensusState) -> Self { state_abi(*value) }
//@fn core/src/abi.rs | From<&crate::ConsensusState> for State::from | {"rename": "vfrom", "vis": ""}
//@end
}
impl VTryFrom<State> for crate::ConsensusState {
    type Error = ConsensusError;
    open spec fn try_spec(t: State, r: Result<Self, ConsensusError>) -> bool { match r { Ok(s) => s == state_of(t) && valid(s), Err(_) => !valid(state_of(t)) } }
//@fn core/src/abi.rs | TryFrom<State> for ConsensusState::try_from | {"rename": "vtry_from", "vis": ""}
//@end
}
impl Journal {
//@fn core/src/abi.rs | Journal::new
//@ensures
        vr.words() =~= journal_words(*pre_state, *post_state, finalized_slot),
//@end
//@fn core/src/abi.rs | Journal::encode
//@ensures
        vr@ == self.words(),
//@end
}
}
impl ConsensusState {
//@fn core/src/consensus_state.rs | ConsensusState::abi_encode
//@reject !valid(*self)
//@ensures
        valid(*self), vr@ == state_words(*self), vr@.len() == 128,
//@begin
        proof { state_layout(*self); }
//@end
//@fn core/src/consensus_state.rs | ConsensusState::abi_decode
//@ensures
        forall|s: ConsensusState| data@ == #[trigger] state_words(s) ==> (vr is Ok <==> valid(s)) && (valid(s) ==> vr->Ok_0 == s),
        vr is Ok ==> valid(vr->Ok_0) && data@.len() >= 128,
//@begin
        proof { assert forall|s: ConsensusState| state_abi(s).words() == #[trigger] state_words(s) && state_words(s).len() == 128 && state_of(state_abi(s)) == s by { state_layout(s); }
            state_layout(zero_state()); }
//@end
}
pub open spec fn zero_state() -> ConsensusState { ConsensusState { current_justified_checkpoint: zero_cp(), finalized_checkpoint: zero_cp() } }
} // verus!
