// Serialization of the guest input: C29.
//@include base
//@include core
//@config {"expanded": ["ssz-multiproofs", "z-core"], "methods": {"into": "vf_into"}, "types": {"BitVec<u32,Lsb0>": "Bits", "Descriptor": "Bits", "Cow<'a,[u8]>": "CowBytes<'a>", "Multiproof<'_>": "Multiproof<'_>"}, "paths": {"AttestationRefOnDisk::from": "AttestationRefOnDisk::vfrom"}}
//@props C29: SerializeAs<PublicKey> for UncompressedPublicKey::serialize_as; DeserializeAs<'de,PublicKey> for UncompressedPublicKey::deserialize_as
//@props C29: SerializeAs<Epoch> for U64::serialize_as; DeserializeAs<'de,Epoch> for U64::deserialize_as; SerializeAs<Slot> for U64::serialize_as; DeserializeAs<'de,Slot> for U64::deserialize_as
//@props C29: SerializeAs for DiskAttestation::serialize_as; DeserializeAs for DiskAttestation::deserialize_as
//@props C29: Checkpoint::new; Checkpoint::epoch; Checkpoint::root; Serialize for Checkpoint::serialize; Deserialize for Checkpoint::deserialize; Serialize for EncCheckpoint::serialize; Deserialize for DecCheckpoint::deserialize; Serialize for ConsensusState::serialize; Deserialize for ConsensusState::deserialize
//@props C29: Serialize for StatePatch::serialize; Deserialize for StatePatch::deserialize; Serialize for GuestInput::serialize; Deserialize for GuestInput::deserialize; Visitor for __Visitor::visit_seq
//@props C29: Serialize for __SerializeWith_BTreeMapValidatorIndexEpoch::serialize; Deserialize for __DeserializeWith_BTreeMapValidatorIndexEpoch::deserialize
//@props C29: Serialize for __SerializeWith_VecPublicKey::serialize; Deserialize for __DeserializeWith_VecPublicKey::deserialize; Serialize for __SerializeWith_BTreeMapEpochStatePatch::serialize; Deserialize for __DeserializeWith_BTreeMapEpochStatePatch::deserialize; Serialize for __SerializeWith_VecAttestationE::serialize; Deserialize for __DeserializeWith_VecAttestationE::deserialize
//@props C29: Serialize for Multiproof::serialize; Deserialize for Multiproof::deserialize; Deserialize for __DeserializeWith_Cowau8::deserialize
//@include sd
//@include gi
fn main() {}
