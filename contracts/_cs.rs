// Checkpoints, links and the finality state machine (core/src/lib.rs, consensus_state.rs, abi.rs).
verus! {
//@item core/src/lib.rs | struct | Checkpoint | PartialEq, Eq, Structural, Clone, Copy
//@item core/src/lib.rs | struct | Link | PartialEq, Eq, Structural
//@item core/src/consensus_state.rs | struct | ConsensusState | PartialEq, Eq, Structural, Clone, Copy
//@item core/src/consensus_state.rs | enum | ConsensusError
impl vstd::std_specs::convert::FromSpecImpl<ArithError> for ConsensusError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(err: ArithError) -> Self { ConsensusError::ArithError(err) }
}
impl From<ArithError> for ConsensusError {
//@fn core/src/consensus_state.rs | From<ArithError> for ConsensusError::from | {"vis": ""}
//@ensures
        vr == ConsensusError::ArithError(err),
//@end
}
impl Checkpoint {
    pub open spec fn e(self) -> int { self.0.epoch.v as int }
    pub open spec fn r(self) -> Root { self.0.root }
    pub open spec fn mk(e: u64, r: Root) -> Self { Checkpoint(beacon_types::Checkpoint { epoch: Epoch { v: e }, root: r }) }
//@fn core/src/lib.rs | Checkpoint::new
//@ensures
        vr.0.epoch == epoch, vr.0.root == root,
//@end
//@fn core/src/lib.rs | Checkpoint::epoch
//@ensures
        vr.v == self.e(), vr == self.0.epoch,
//@end
//@fn core/src/lib.rs | Checkpoint::root
//@ensures
        vr == self.r(),
//@end
//@fn core/src/lib.rs | Checkpoint::less_or_equal
//@ensures
        vr == (self.e() < other.e() || *self == *other),
//@end
}

impl VFrom<beacon_types::Checkpoint> for Checkpoint {
    open spec fn from_spec(checkpoint: beacon_types::Checkpoint) -> Self { Checkpoint(checkpoint) }
//@fn core/src/lib.rs | From<beacon_types::Checkpoint> for Checkpoint::from | {"rename": "vfrom", "vis": ""}
//@end
}
// ---- specification: the two Casper FFG rules ----
pub open spec fn zero_cp() -> Checkpoint { Checkpoint::mk(0, B256 { w0: 0, w1: 0, w2: 0, w3: 0 }) }
pub open spec fn valid(s: ConsensusState) -> bool {
    s.finalized_checkpoint.e() < s.current_justified_checkpoint.e() || (s.finalized_checkpoint == zero_cp() && s.current_justified_checkpoint == zero_cp())
}
pub open spec fn applied(s: ConsensusState, l: Link) -> Option<ConsensusState> {
    if l.source == s.current_justified_checkpoint && l.target.e() > l.source.e() {
        Some(ConsensusState {
            current_justified_checkpoint: l.target,
            finalized_checkpoint: if l.target.e() == l.source.e() + 1 { l.source } else { s.finalized_checkpoint },
        })
    } else { None }
}
/// C06: results are valid and never move backwards
proof fn applied_valid(s: ConsensusState, l: Link)
    requires valid(s), applied(s, l) is Some,
    ensures
        applied(s, l)->0.finalized_checkpoint.e() < applied(s, l)->0.current_justified_checkpoint.e(),
        applied(s, l)->0.finalized_checkpoint.e() >= s.finalized_checkpoint.e(),
        applied(s, l)->0.current_justified_checkpoint.e() > s.current_justified_checkpoint.e(),
{}
// derive(Default): every number and byte zero
#[verifier::external_body]
pub fn cs_default() -> (r: ConsensusState) ensures r == (ConsensusState { current_justified_checkpoint: zero_cp(), finalized_checkpoint: zero_cp() }) { unimplemented!() }

impl ConsensusState {
//@fn core/src/consensus_state.rs | ConsensusState::new
//@reject !valid(ConsensusState { current_justified_checkpoint, finalized_checkpoint })
//@ensures
        vr == (ConsensusState { current_justified_checkpoint, finalized_checkpoint }), valid(vr),
//@end
//@fn core/src/consensus_state.rs | ConsensusState::try_new
//@ensures
        match vr {
            Ok(s) => s == (ConsensusState { current_justified_checkpoint, finalized_checkpoint }) && valid(s),
            Err(e) => !valid(ConsensusState { current_justified_checkpoint, finalized_checkpoint }),
        },
//@end
//@fn core/src/consensus_state.rs | ConsensusState::finalized_checkpoint
//@ensures
        vr == self.finalized_checkpoint,
//@end
//@fn core/src/consensus_state.rs | ConsensusState::current_justified_checkpoint
//@ensures
        vr == self.current_justified_checkpoint,
//@end
//@fn core/src/consensus_state.rs | ConsensusState::is_valid
//@ensures
        vr == valid(*self),
//@end
//@fn core/src/consensus_state.rs | ConsensusState::state_transition
//@reject !valid(*self)
//@ensures
        match vr { Ok(n) => applied(*self, *link) == Some(n) && valid(*self) && valid(n), Err(_) => applied(*self, *link) is None || !valid(*self) },
//@begin
        proof { if valid(*self) && applied(*self, *link) is Some { applied_valid(*self, *link); } }
//@end
//@fn core/src/consensus_state.rs | ConsensusState::transition_link
//@reject !valid(*self)
//@ensures
        match vr {
            Ok(Some(l)) => applied(*self, l) == Some(*other) && valid(*other),
            Ok(None) => *self == *other,
            Err(_) => *self != *other && forall|l: Link| applied(*self, l) != Some(*other),
        },
        forall|l: Link| #[trigger] applied(*self, l) == Some(*other) ==> vr == Ok::<Option<Link>, ConsensusError>(Some(l)),
//@begin
        proof { assert forall|l: Link| #[trigger] applied(*self, l) is Some && valid(*self) implies valid(applied(*self, l)->0) by { applied_valid(*self, l); } }
//@end
//@fn core/src/consensus_state.rs | ConsensusState::less_or_equal
//@ensures
        vr == ((self.finalized_checkpoint.e() < other.finalized_checkpoint.e() || self.finalized_checkpoint == other.finalized_checkpoint)
            && (self.current_justified_checkpoint.e() < other.current_justified_checkpoint.e() || self.current_justified_checkpoint == other.current_justified_checkpoint)),
//@end
}

} // verus!
