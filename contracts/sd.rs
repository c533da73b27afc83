// Serialization of the multiproof: C05.
//@include base
//@config {"expanded": ["ssz-multiproofs"], "types": {"BitVec<u32,Lsb0>": "Bits", "Descriptor": "Bits", "Cow<'a,[u8]>": "CowBytes<'a>", "Multiproof<'_>": "Multiproof<'_>"}}
//@props C05: Serialize for Multiproof::serialize; Deserialize for Multiproof::deserialize; Visitor for __Visitor::visit_seq; Deserialize for __DeserializeWith_Cowau8::deserialize; PartialEq for Multiproof::eq
//@include sd
fn main() {}
