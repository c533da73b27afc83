verus! {
pub use _serde as serde;
pub use _serde::{Serialize, Serializer, Deserialize, Deserializer};
pub use _serde::ser::Enc;
pub use _serde::de::Dec;

// ---- std and dependency types that are written by themselves (trusted: serde, alloy, std) ----
pub uninterp spec fn word_of(b: B256) -> Seq<u64>;
pub axiom fn axiom_word(a: B256, b: B256) requires word_of(a) == word_of(b) ensures a == b;
impl B256 {
    pub const ZERO: B256 = B256 { w0: 0, w1: 0, w2: 0, w3: 0 };
    pub fn is_zero(&self) -> (r: bool) ensures r == (*self == Self::ZERO) { *self == Self::ZERO }
}
impl Epoch { pub fn default() -> (r: Epoch) ensures r.v == 0 { Epoch { v: 0 } } }
impl Checkpoint { pub fn default() -> (r: Checkpoint) ensures r.0.epoch.v == 0, r.0.root == B256::ZERO { Checkpoint(BeaconCheckpoint { epoch: Epoch { v: 0 }, root: B256::ZERO }) } }
impl Enc for B256 { open spec fn enc(&self) -> Val { Val::Word(word_of(*self)) } }
impl Enc for u64 { open spec fn enc(&self) -> Val { Val::U64(*self) } }
impl Enc for u32 { open spec fn enc(&self) -> Val { Val::U32(*self) } }
impl<T: Enc> Enc for &T { open spec fn enc(&self) -> Val { (**self).enc() } }
impl Dec for B256 { open spec fn decodes(v: Val) -> bool { exists|x: B256| v == #[trigger] x.enc() } open spec fn is(&self, v: Val) -> bool { v == self.enc() } }
impl Dec for u64 { open spec fn decodes(v: Val) -> bool { v is U64 } open spec fn is(&self, v: Val) -> bool { v == self.enc() } }
impl Dec for u32 { open spec fn decodes(v: Val) -> bool { v is U32 } open spec fn is(&self, v: Val) -> bool { v == self.enc() } }
impl<'de> Deserialize<'de> for u64 {
    #[verifier::external_body]
    fn deserialize<__D: Deserializer<'de>>(d: __D) -> (r: Result<Self, __D::Error>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for u32 {
    #[verifier::external_body]
    fn deserialize<__D: Deserializer<'de>>(d: __D) -> (r: Result<Self, __D::Error>) { unimplemented!() }
}
/// an ordered map: its entries in the order of their keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
pub open spec fn map_val<K, V, KA: serde_with::EncAs<K>, VA: serde_with::EncAs<V>>(s: Seq<(K, V)>) -> Val {
    Val::Map(s.map_values(|e: (K, V)| KA::enc_as(e.0)), s.map_values(|e: (K, V)| VA::enc_as(e.1)))
}
pub open spec fn vec_val<T, A: serde_with::EncAs<T>>(s: Seq<T>) -> Val { Val::Seq(s.map_values(|t: T| A::enc_as(t))) }
impl<K: Enc, V: Enc> Enc for BTreeMap<K, V> { open spec fn enc(&self) -> Val { map_val::<K, V, serde_with::Same, serde_with::Same>(self@) } }
impl<K: Enc, V: Enc> Dec for BTreeMap<K, V> { open spec fn decodes(v: Val) -> bool { exists|x: BTreeMap<K, V>| v == #[trigger] x.enc() } open spec fn is(&self, v: Val) -> bool { v == self.enc() } }
impl<T: Enc> Enc for Vec<T> { open spec fn enc(&self) -> Val { vec_val::<T, serde_with::Same>(self@) } }
impl<T: Enc> Dec for Vec<T> { open spec fn decodes(v: Val) -> bool { exists|x: Vec<T>| v == #[trigger] x.enc() } open spec fn is(&self, v: Val) -> bool { v == self.enc() } }

// ---- serde_with: a conversion says how a value is written; vectors and maps convert their elements (trusted) ----
pub mod serde_with {
    #[allow(unused_imports)]
    use super::*;
    pub trait EncAs<T> { spec fn enc_as(t: T) -> Val; }
    pub open spec fn written_as<T, A: EncAs<T>>(v: Val) -> bool { exists|t: T| v == #[trigger] A::enc_as(t) }
    pub trait SerializeAs<T>: EncAs<T> {
        fn serialize_as<S: Serializer>(source: &T, serializer: S) -> (r: Result<S::Ok, S::Error>)
            ensures r is Ok ==> S::written(r->Ok_0) == Self::enc_as(*source);
    }
    pub trait DeserializeAs<'de, T>: EncAs<T> + Sized {
        fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> (r: Result<T, D::Error>)
            ensures (exists|t: T| deserializer.val() == #[trigger] Self::enc_as(t)) ==> r is Ok && Self::enc_as(r->Ok_0) == deserializer.val();
    }
    pub struct Same { }
    impl<T: Enc> EncAs<T> for Same { open spec fn enc_as(t: T) -> Val { t.enc() } }
    impl<T, A: EncAs<T>> EncAs<Vec<T>> for Vec<A> { open spec fn enc_as(t: Vec<T>) -> Val { vec_val::<T, A>(t@) } }
    impl<K, V, KA: EncAs<K>, VA: EncAs<V>> EncAs<BTreeMap<K, V>> for BTreeMap<KA, VA> { open spec fn enc_as(t: BTreeMap<K, V>) -> Val { map_val::<K, V, KA, VA>(t@) } }
    pub struct As<A> { x: core::marker::PhantomData<A> }
    impl<A> As<A> {
        #[verifier::external_body]
        pub fn serialize<T, S: Serializer>(t: &T, s: S) -> (r: Result<S::Ok, S::Error>) where A: EncAs<T>
            ensures r is Ok ==> S::written(r->Ok_0) == A::enc_as(*t),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn deserialize<'de, T, D: Deserializer<'de>>(d: D) -> (r: Result<T, D::Error>) where A: EncAs<T>
            ensures written_as::<T, A>(d.val()) ==> r is Ok && A::enc_as(r->Ok_0) == d.val(),
        { unimplemented!() }
    }
    pub struct Bytes { }
    impl Bytes {
        #[verifier::external_body]
        pub fn deserialize_as<'de, D: Deserializer<'de>>(d: D) -> (r: Result<&'de [u8], D::Error>)
            ensures d.val() is Bytes ==> r is Ok && Val::Bytes(r->Ok_0@) == d.val(),
        { unimplemented!() }
    }
}
pub mod serde_arrays {
    #[allow(unused_imports)]
    use super::*;
    #[verifier::external_body]
    pub fn serialize<S: Serializer, const N: usize>(a: &[u8; N], s: S) -> (r: Result<S::Ok, S::Error>)
        ensures r is Ok ==> S::written(r->Ok_0) == Val::Tuple(a@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize<'de, D: Deserializer<'de>, const N: usize>(d: D) -> (r: Result<[u8; N], D::Error>)
        ensures d.val() is Tuple && d.val()->Tuple_0.len() == N ==> r is Ok && r->Ok_0@ == d.val()->Tuple_0,
    { unimplemented!() }
}

// ---- keys and attestations (trusted: bls, beacon_types) ----
pub trait EthSpec: Sized { }
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;
#[verifier::external_body]
pub struct PublicKey { x: u8 }
#[verifier::external_body]
pub struct BlsError { x: u8 }
impl PublicKey {
    /// the point, uncompressed: it determines the key
    pub uninterp spec fn raw(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn serialize_uncompressed(&self) -> (r: [u8; PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN]) ensures r@ == self.raw() { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize_uncompressed(b: &[u8]) -> (r: Result<PublicKey, BlsError>)
        ensures (exists|k: PublicKey| #[trigger] k.raw() == b@) ==> r is Ok && r->Ok_0.raw() == b@,
    { unimplemented!() }
}
pub axiom fn axiom_key_len(k: PublicKey) ensures k.raw().len() == 96;
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
pub struct Attestation<E: EthSpec> { x: core::marker::PhantomData<E> }
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
pub struct AttestationRef<E: EthSpec> { x: core::marker::PhantomData<E> }
impl<E: EthSpec> AttestationRef<E> { pub uninterp spec fn of(&self) -> Attestation<E>; }
impl<E: EthSpec> Attestation<E> {
    /// the on-disk encoding (SSZ, with the fork's variant): it determines the attestation
    pub uninterp spec fn disk(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_ref(&self) -> (r: AttestationRef<E>) ensures r.of() == *self { unimplemented!() }
}
pub struct SszError { }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct BeaconCheckpoint { pub epoch: Epoch, pub root: Root }
pub mod beacon_types {
    #[allow(unused_imports)]
    use super::*;
    pub use super::BeaconCheckpoint as Checkpoint;
    pub use super::Attestation;
    pub mod attestation {
        #[allow(unused_imports)]
        use super::super::*;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(E)]
        pub struct AttestationRefOnDisk<E: EthSpec> { x: core::marker::PhantomData<E> }
        impl<E: EthSpec> AttestationRefOnDisk<E> {
            pub uninterp spec fn of(&self) -> Attestation<E>;
            #[verifier::external_body]
            pub fn from(r: AttestationRef<E>) -> (s: Self) ensures s.of() == r.of() { unimplemented!() }
            #[verifier::external_body]
            pub fn as_ssz_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.of().disk() { unimplemented!() }
        }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(E)]
        pub struct AttestationOnDisk<E: EthSpec> { x: core::marker::PhantomData<E> }
        impl<E: EthSpec> AttestationOnDisk<E> {
            pub uninterp spec fn of(self) -> Attestation<E>;
            #[verifier::external_body]
            pub fn from_ssz_bytes(b: &[u8]) -> (r: Result<Self, SszError>)
                ensures (exists|a: Attestation<E>| #[trigger] a.disk() == b@) ==> r is Ok && r->Ok_0.of().disk() == b@,
            { unimplemented!() }
        }
        impl<E: EthSpec> VFrom<AttestationOnDisk<E>> for Attestation<E> {
            open spec fn from_spec(t: AttestationOnDisk<E>) -> Self { t.of() }
            #[verifier::external_body]
            fn vfrom(t: AttestationOnDisk<E>) -> Self { unimplemented!() }
        }
    }
}
pub type ValidatorIndex = usize;
pub type RandaoMixIndex = u32;

// ---- the conversions of the guest input ----
pub mod serde_utils {
    #[allow(unused_imports)]
    use super::*;
    #[allow(unused_imports)]
    use super::serde_with::{EncAs, SerializeAs, DeserializeAs};
//@item core/src/serde_utils.rs | struct | UncompressedPublicKey
//@item core/src/serde_utils.rs | struct | U64
//@item core/src/serde_utils.rs | struct | DiskAttestation
impl EncAs<PublicKey> for UncompressedPublicKey { open spec fn enc_as(t: PublicKey) -> Val { Val::Tuple(t.raw()) } }
impl EncAs<Epoch> for U64 { open spec fn enc_as(t: Epoch) -> Val { Val::U64(t.v) } }
impl EncAs<Slot> for U64 { open spec fn enc_as(t: Slot) -> Val { Val::U64(t.v) } }
impl<E: EthSpec> EncAs<Attestation<E>> for DiskAttestation { open spec fn enc_as(t: Attestation<E>) -> Val { Val::Bytes(t.disk()) } }
impl SerializeAs<PublicKey> for UncompressedPublicKey {
//@fn core/src/serde_utils.rs | SerializeAs<PublicKey> for UncompressedPublicKey::serialize_as | {"vis": ""}
//@end
}
impl<'de> DeserializeAs<'de, PublicKey> for UncompressedPublicKey {
//@fn core/src/serde_utils.rs | DeserializeAs<'de,PublicKey> for UncompressedPublicKey::deserialize_as | {"vis": ""}
//@begin
        proof { if let Val::Tuple(b) = deserializer.val() { if exists|k: PublicKey| Val::Tuple(b) == #[trigger] Self::enc_as(k) { let k = choose|k: PublicKey| Val::Tuple(b) == #[trigger] Self::enc_as(k); axiom_key_len(k); assert(k.raw() == b); } } }
//@end
}
impl SerializeAs<Epoch> for U64 {
//@fn core/src/serde_utils.rs | SerializeAs<Epoch> for U64::serialize_as | {"vis": ""}
//@end
}
impl<'de> DeserializeAs<'de, Epoch> for U64 {
//@fn core/src/serde_utils.rs | DeserializeAs<'de,Epoch> for U64::deserialize_as | {"vis": ""}
//@end
}
impl SerializeAs<Slot> for U64 {
//@fn core/src/serde_utils.rs | SerializeAs<Slot> for U64::serialize_as | {"vis": ""}
//@end
}
impl<'de> DeserializeAs<'de, Slot> for U64 {
//@fn core/src/serde_utils.rs | DeserializeAs<'de,Slot> for U64::deserialize_as | {"vis": ""}
//@end
}
impl<E: EthSpec> SerializeAs<beacon_types::Attestation<E>> for DiskAttestation {
//@fn core/src/serde_utils.rs | SerializeAs for DiskAttestation::serialize_as | {"vis": ""}
//@end
}
impl<'de, E: EthSpec> DeserializeAs<'de, beacon_types::Attestation<E>> for DiskAttestation {
//@fn core/src/serde_utils.rs | DeserializeAs for DiskAttestation::deserialize_as | {"vis": ""}
//@begin
        proof { if exists|a: Attestation<E>| deserializer.val() == #[trigger] Self::enc_as(a) { let a = choose|a: Attestation<E>| deserializer.val() == #[trigger] Self::enc_as(a); assert(a.disk() == deserializer.val()->Bytes_0); } }
//@end
}
}
pub use serde_utils::DiskAttestation;

// ---- checkpoints ----
//@item core/src/lib.rs | struct | Checkpoint | PartialEq, Eq, Structural, Clone, Copy
impl Checkpoint {
//@fn core/src/lib.rs | Checkpoint::new
//@ensures
        vr.0.epoch == epoch, vr.0.root == root,
//@end
//@fn core/src/lib.rs | Checkpoint::epoch
//@ensures
        vr == self.0.epoch,
//@end
//@fn core/src/lib.rs | Checkpoint::root
//@ensures
        vr == self.0.root,
//@end
}
pub open spec fn cp_vals(epoch: u64, root: B256) -> Seq<Val> { seq![/*order EncCheckpoint*/
        Val::U64(epoch) /*epoch*/,
        Val::Word(word_of(root)) /*root*/,
    /*order*/] }
impl Enc for Checkpoint { open spec fn enc(&self) -> Val { Val::Struct(cp_vals(self.0.epoch.v, self.0.root)) } }
impl Dec for Checkpoint { open spec fn decodes(v: Val) -> bool { exists|x: Checkpoint| v == #[trigger] x.enc() } open spec fn is(&self, v: Val) -> bool { v == self.enc() } }
pub mod m_cp {
    #[allow(unused_imports)]
    use super::*;
//@item @expanded/checkpoint.rs | struct | EncCheckpoint
//@item @expanded/checkpoint.rs | struct | DecCheckpoint
impl<'a> Enc for EncCheckpoint<'a> { closed spec fn enc(&self) -> Val { Val::Struct(cp_vals(self.epoch, *self.root)) } }
impl Serialize for Checkpoint {
//@fn @expanded/checkpoint.rs | Serialize for Checkpoint::serialize | {"vis": ""}
//@end
}
impl<'a> _serde::Serialize for EncCheckpoint<'a> {
//@fn @expanded/enc_checkpoint.rs | Serialize for EncCheckpoint::serialize | {"vis": ""}
//@tail
        proof { assert(_serde::ser::SerializeStruct::fields(&__serde_state) =~= cp_vals(self.epoch, *self.root)); }
//@end
}
pub closed spec fn dec_vals(m: DecCheckpoint) -> Seq<Val> { cp_vals(m.epoch, m.root) }
pub open spec fn seen(v: Seq<Val>) -> bool { exists|e: u64, r: B256| v == #[trigger] cp_vals(e, r) }
impl Dec for DecCheckpoint {
    open spec fn decodes(v: Val) -> bool { v is Struct && seen(v->Struct_0) }
    closed spec fn is(&self, v: Val) -> bool { v == Val::Struct(dec_vals(*self)) }
}
impl<'de> Deserialize<'de> for Checkpoint {
//@fn @expanded/checkpoint.rs | Deserialize for Checkpoint::deserialize | {"vis": ""}
//@end
}
//@item @expanded/dec_checkpoint.rs | struct | __Visitor
impl<'de> _serde::de::Visitor<'de> for __Visitor<'de> {
    type Value = DecCheckpoint;
    open spec fn accepts(v: Seq<Val>) -> bool { seen(v) }
    closed spec fn yields(m: DecCheckpoint, v: Seq<Val>) -> bool { v == dec_vals(m) }
//@fn @expanded/dec_checkpoint.rs | Visitor for __Visitor::visit_seq | {"vis": ""}
//@begin
        let ghost v = _serde::de::SeqAccess::rem(&__seq);
        proof { if seen(v) { let (e, r) = choose|e: u64, r: B256| v == #[trigger] cp_vals(e, r); assert(v[1] == r.enc()); } }
//@result
        proof { if seen(v) { assert(v =~= dec_vals(vf_r->Ok_0)); } }
//@end
}
impl<'de> _serde::Deserialize<'de> for DecCheckpoint {
//@fn @expanded/dec_checkpoint.rs | Deserialize for DecCheckpoint::deserialize | {"vis": ""}
//@tail
        proof {
            let v = _serde::de::Deserializer::val(&__deserializer);
            if v is Struct { assert(v->Struct_0.take(v->Struct_0.len() as int) =~= v->Struct_0); }
        }
//@end
}
}

// ---- the consensus state ----
//@item core/src/consensus_state.rs | struct | ConsensusState | PartialEq, Eq, Structural, Clone, Copy
pub open spec fn cs_vals(m: ConsensusState) -> Seq<Val> { seq![/*order ConsensusState*/
        m.current_justified_checkpoint.enc() /*current_justified_checkpoint*/,
        m.finalized_checkpoint.enc() /*finalized_checkpoint*/,
    /*order*/] }
pub open spec fn cs_seen(v: Seq<Val>) -> bool { exists|m: ConsensusState| v == #[trigger] cs_vals(m) }
impl Enc for ConsensusState { open spec fn enc(&self) -> Val { Val::Struct(cs_vals(*self)) } }
impl Dec for ConsensusState { open spec fn decodes(v: Val) -> bool { v is Struct && cs_seen(v->Struct_0) } open spec fn is(&self, v: Val) -> bool { v == self.enc() } }
pub mod m_cs {
    #[allow(unused_imports)]
    use super::*;
impl _serde::Serialize for ConsensusState {
//@fn @expanded/consensus_state.rs | Serialize for ConsensusState::serialize | {"vis": ""}
//@tail
        proof { assert(_serde::ser::SerializeStruct::fields(&__serde_state) =~= cs_vals(*self)); }
//@end
}
//@item @expanded/consensus_state.rs | struct | __Visitor
impl<'de> _serde::de::Visitor<'de> for __Visitor<'de> {
    type Value = ConsensusState;
    open spec fn accepts(v: Seq<Val>) -> bool { cs_seen(v) }
    open spec fn yields(m: ConsensusState, v: Seq<Val>) -> bool { v == cs_vals(m) }
//@fn @expanded/consensus_state.rs | Visitor for __Visitor::visit_seq | {"vis": ""}
//@begin
        let ghost v = _serde::de::SeqAccess::rem(&__seq);
//@result
        proof { if cs_seen(v) { assert(v =~= cs_vals(vf_r->Ok_0)); } }
//@end
}
impl<'de> _serde::Deserialize<'de> for ConsensusState {
//@fn @expanded/consensus_state.rs | Deserialize for ConsensusState::deserialize | {"vis": ""}
//@tail
        proof {
            let v = _serde::de::Deserializer::val(&__deserializer);
            if v is Struct { assert(v->Struct_0.take(v->Struct_0.len() as int) =~= v->Struct_0); }
        }
//@end
}
}

// ---- state patches ----
//@item core/src/state_patch.rs | struct | StatePatch
pub type ExitsAs = BTreeMap<serde_with::Same, serde_utils::U64>;
pub open spec fn exits_val(m: BTreeMap<ValidatorIndex, Epoch>) -> Val { <ExitsAs as serde_with::EncAs<BTreeMap<ValidatorIndex, Epoch>>>::enc_as(m) }
pub open spec fn sp_vals(m: StatePatch) -> Seq<Val> { seq![/*order StatePatch*/
        m.randao_mixes.enc() /*randao_mixes*/,
        exits_val(m.validator_exits) /*validator_exits*/,
    /*order*/] }
pub open spec fn sp_seen(v: Seq<Val>) -> bool { exists|m: StatePatch| v == #[trigger] sp_vals(m) }
impl Enc for StatePatch { open spec fn enc(&self) -> Val { Val::Struct(sp_vals(*self)) } }
impl Dec for StatePatch { open spec fn decodes(v: Val) -> bool { v is Struct && sp_seen(v->Struct_0) } open spec fn is(&self, v: Val) -> bool { v == self.enc() } }
pub mod m_sp {
    #[allow(unused_imports)]
    use super::*;
//@item @expanded/state_patch.rs | struct | __SerializeWith_BTreeMapValidatorIndexEpoch
impl<'__a> Enc for __SerializeWith_BTreeMapValidatorIndexEpoch<'__a> { closed spec fn enc(&self) -> Val { exits_val(*self.values.0) } }
impl<'__a> _serde::Serialize for __SerializeWith_BTreeMapValidatorIndexEpoch<'__a> {
//@fn @expanded/state_patch.rs | Serialize for __SerializeWith_BTreeMapValidatorIndexEpoch::serialize | {"vis": ""}
//@end
}
//@item @expanded/state_patch.rs | struct | __DeserializeWith_BTreeMapValidatorIndexEpoch
impl<'de> Dec for __DeserializeWith_BTreeMapValidatorIndexEpoch<'de> { open spec fn decodes(v: Val) -> bool { exists|t: BTreeMap<ValidatorIndex, Epoch>| v == #[trigger] exits_val(t) } closed spec fn is(&self, v: Val) -> bool { v == exits_val(self.value) } }
impl<'de> _serde::Deserialize<'de> for __DeserializeWith_BTreeMapValidatorIndexEpoch<'de> {
//@fn @expanded/state_patch.rs | Deserialize for __DeserializeWith_BTreeMapValidatorIndexEpoch::deserialize | {"vis": ""}
//@end
}
impl _serde::Serialize for StatePatch {
//@fn @expanded/state_patch.rs | Serialize for StatePatch::serialize | {"vis": ""}
//@tail
        proof { assert(_serde::ser::SerializeStruct::fields(&__serde_state) =~= sp_vals(*self)); }
//@end
}
//@item @expanded/state_patch.rs | struct | __Visitor
impl<'de> _serde::de::Visitor<'de> for __Visitor<'de> {
    type Value = StatePatch;
    open spec fn accepts(v: Seq<Val>) -> bool { sp_seen(v) }
    open spec fn yields(m: StatePatch, v: Seq<Val>) -> bool { v == sp_vals(m) }
//@fn @expanded/state_patch.rs | Visitor for __Visitor::visit_seq | {"vis": ""}
//@begin
        let ghost v = _serde::de::SeqAccess::rem(&__seq);
//@closure 0
        |$0: __DeserializeWith_BTreeMapValidatorIndexEpoch<'de>| -> (r: BTreeMap<ValidatorIndex, Epoch>) ensures r == $0.value
//@result
        proof { if sp_seen(v) { assert(v =~= sp_vals(vf_r->Ok_0)); } }
//@end
}
impl<'de> _serde::Deserialize<'de> for StatePatch {
//@fn @expanded/state_patch.rs | Deserialize for StatePatch::deserialize | {"vis": ""}
//@tail
        proof {
            let v = _serde::de::Deserializer::val(&__deserializer);
            if v is Struct { assert(v->Struct_0.take(v->Struct_0.len() as int) =~= v->Struct_0); }
        }
//@end
}
}

// ---- the guest input ----
//@item core/src/input_reader/guest_input_reader.rs | struct | GuestInput
pub open spec fn keys_val(m: Vec<PublicKey>) -> Val { <Vec<serde_utils::UncompressedPublicKey> as serde_with::EncAs<Vec<PublicKey>>>::enc_as(m) }
pub open spec fn patches_val(m: BTreeMap<Epoch, StatePatch>) -> Val { <BTreeMap<serde_utils::U64, serde_with::Same> as serde_with::EncAs<BTreeMap<Epoch, StatePatch>>>::enc_as(m) }
pub open spec fn atts_val<E: EthSpec>(m: Vec<Attestation<E>>) -> Val { <Vec<DiskAttestation> as serde_with::EncAs<Vec<Attestation<E>>>>::enc_as(m) }
pub open spec fn gi_vals<E: EthSpec>(m: GuestInput<'_, E>) -> Seq<Val> { seq![/*order GuestInput*/
        m.beacon_block.enc() /*beacon_block*/,
        m.beacon_state.enc() /*beacon_state*/,
        m.active_validators.enc() /*active_validators*/,
        keys_val(m.public_keys) /*public_keys*/,
        patches_val(m.patches) /*patches*/,
        m.consensus_state.enc() /*consensus_state*/,
        atts_val(m.attestations) /*attestations*/,
        m.block_slot_proofs.enc() /*block_slot_proofs*/,
    /*order*/] }
pub open spec fn gi_seen<E: EthSpec>(v: Seq<Val>) -> bool { exists|m: GuestInput<'_, E>| v == #[trigger] gi_vals(m) }
impl<'a, E: EthSpec> Enc for GuestInput<'a, E> { open spec fn enc(&self) -> Val { Val::Struct(gi_vals(*self)) } }
impl<'a, E: EthSpec> Dec for GuestInput<'a, E> { open spec fn decodes(v: Val) -> bool { v is Struct && gi_seen::<E>(v->Struct_0) } open spec fn is(&self, v: Val) -> bool { v == self.enc() } }
pub mod m_gi {
    #[allow(unused_imports)]
    use super::*;
//@item @expanded/guest_input.rs | struct | __SerializeWith_VecPublicKey
impl<'__a, 'a: '__a, E: EthSpec + '__a> Enc for __SerializeWith_VecPublicKey<'__a, 'a, E> { closed spec fn enc(&self) -> Val { keys_val(*self.values.0) } }
impl<'__a, 'a: '__a, E: EthSpec + '__a> _serde::Serialize for __SerializeWith_VecPublicKey<'__a, 'a, E> {
//@fn @expanded/guest_input.rs | Serialize for __SerializeWith_VecPublicKey::serialize | {"vis": ""}
//@end
}
//@item @expanded/guest_input.rs | struct | __DeserializeWith_VecPublicKey
impl<'de: 'a, 'a, E: EthSpec> Dec for __DeserializeWith_VecPublicKey<'de, 'a, E> { open spec fn decodes(v: Val) -> bool { exists|t: Vec<PublicKey>| v == #[trigger] keys_val(t) } closed spec fn is(&self, v: Val) -> bool { v == keys_val(self.value) } }
impl<'de: 'a, 'a, E: EthSpec> _serde::Deserialize<'de> for __DeserializeWith_VecPublicKey<'de, 'a, E> {
//@fn @expanded/guest_input.rs | Deserialize for __DeserializeWith_VecPublicKey::deserialize | {"vis": ""}
//@end
}
//@item @expanded/guest_input.rs | struct | __SerializeWith_BTreeMapEpochStatePatch
impl<'__a, 'a: '__a, E: EthSpec + '__a> Enc for __SerializeWith_BTreeMapEpochStatePatch<'__a, 'a, E> { closed spec fn enc(&self) -> Val { patches_val(*self.values.0) } }
impl<'__a, 'a: '__a, E: EthSpec + '__a> _serde::Serialize for __SerializeWith_BTreeMapEpochStatePatch<'__a, 'a, E> {
//@fn @expanded/guest_input.rs | Serialize for __SerializeWith_BTreeMapEpochStatePatch::serialize | {"vis": ""}
//@end
}
//@item @expanded/guest_input.rs | struct | __DeserializeWith_BTreeMapEpochStatePatch
impl<'de: 'a, 'a, E: EthSpec> Dec for __DeserializeWith_BTreeMapEpochStatePatch<'de, 'a, E> { open spec fn decodes(v: Val) -> bool { exists|t: BTreeMap<Epoch, StatePatch>| v == #[trigger] patches_val(t) } closed spec fn is(&self, v: Val) -> bool { v == patches_val(self.value) } }
impl<'de: 'a, 'a, E: EthSpec> _serde::Deserialize<'de> for __DeserializeWith_BTreeMapEpochStatePatch<'de, 'a, E> {
//@fn @expanded/guest_input.rs | Deserialize for __DeserializeWith_BTreeMapEpochStatePatch::deserialize | {"vis": ""}
//@end
}
//@item @expanded/guest_input.rs | struct | __SerializeWith_VecAttestationE
impl<'__a, 'a: '__a, E: EthSpec + '__a> Enc for __SerializeWith_VecAttestationE<'__a, 'a, E> { closed spec fn enc(&self) -> Val { atts_val::<E>(*self.values.0) } }
impl<'__a, 'a: '__a, E: EthSpec + '__a> _serde::Serialize for __SerializeWith_VecAttestationE<'__a, 'a, E> {
//@fn @expanded/guest_input.rs | Serialize for __SerializeWith_VecAttestationE::serialize | {"vis": ""}
//@end
}
//@item @expanded/guest_input.rs | struct | __DeserializeWith_VecAttestationE
impl<'de: 'a, 'a, E: EthSpec> Dec for __DeserializeWith_VecAttestationE<'de, 'a, E> { open spec fn decodes(v: Val) -> bool { exists|t: Vec<Attestation<E>>| v == #[trigger] atts_val::<E>(t) } closed spec fn is(&self, v: Val) -> bool { v == atts_val::<E>(self.value) } }
impl<'de: 'a, 'a, E: EthSpec> _serde::Deserialize<'de> for __DeserializeWith_VecAttestationE<'de, 'a, E> {
//@fn @expanded/guest_input.rs | Deserialize for __DeserializeWith_VecAttestationE::deserialize | {"vis": ""}
//@end
}
impl<'a, E: EthSpec> _serde::Serialize for GuestInput<'a, E> {
//@fn @expanded/guest_input.rs | Serialize for GuestInput::serialize | {"vis": ""}
//@tail
        proof { assert(_serde::ser::SerializeStruct::fields(&__serde_state) =~= gi_vals(*self)); }
//@end
}
//@item @expanded/guest_input.rs | struct | __Visitor
impl<'de: 'a, 'a, E: EthSpec> _serde::de::Visitor<'de> for __Visitor<'de, 'a, E> {
    type Value = GuestInput<'a, E>;
    open spec fn accepts(v: Seq<Val>) -> bool { gi_seen::<E>(v) }
    open spec fn yields(m: GuestInput<'a, E>, v: Seq<Val>) -> bool { v == gi_vals(m) }
//@fn @expanded/guest_input.rs | Visitor for __Visitor::visit_seq | {"vis": ""}
//@begin
        let ghost v = _serde::de::SeqAccess::rem(&__seq);
//@closure 0
        |$0: __DeserializeWith_VecPublicKey<'de, 'a, E>| -> (r: Vec<PublicKey>) ensures r == $0.value
//@closure 1
        |$0: __DeserializeWith_BTreeMapEpochStatePatch<'de, 'a, E>| -> (r: BTreeMap<Epoch, StatePatch>) ensures r == $0.value
//@closure 2
        |$0: __DeserializeWith_VecAttestationE<'de, 'a, E>| -> (r: Vec<Attestation<E>>) ensures r == $0.value
//@result
        proof { if gi_seen::<E>(v) { assert(v =~= gi_vals(vf_r->Ok_0)); } }
//@end
}
impl<'de: 'a, 'a, E: EthSpec> _serde::Deserialize<'de> for GuestInput<'a, E> {
//@fn @expanded/guest_input.rs | Deserialize for GuestInput::deserialize | {"vis": ""}
//@tail
        proof {
            let v = _serde::de::Deserializer::val(&__deserializer);
            if v is Struct { assert(v->Struct_0.take(v->Struct_0.len() as int) =~= v->Struct_0); }
        }
//@end
}
}

// ---- the property: what the host writes, the guest reads as the same input ----
pub open spec fn same_proofs(a: Seq<Multiproof<'_>>, b: Seq<Multiproof<'_>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same(#[trigger] a[i], b[i])
}
pub open spec fn same_patch(a: StatePatch, b: StatePatch) -> bool {
    a.randao_mixes@ == b.randao_mixes@ && a.validator_exits@ == b.validator_exits@
}
pub open spec fn same_patches(a: Seq<(Epoch, StatePatch)>, b: Seq<(Epoch, StatePatch)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i].0 == b[i].0 && same_patch(a[i].1, b[i].1)
}
pub open spec fn same_input<E: EthSpec>(a: GuestInput<'_, E>, b: GuestInput<'_, E>) -> bool {
    &&& same(a.beacon_block, b.beacon_block) && same(a.beacon_state, b.beacon_state) && same(a.active_validators, b.active_validators)
    &&& a.public_keys@.len() == b.public_keys@.len() && forall|i: int| 0 <= i < a.public_keys@.len() ==> #[trigger] a.public_keys@[i].raw() == b.public_keys@[i].raw()
    &&& same_patches(a.patches@, b.patches@)
    &&& a.consensus_state == b.consensus_state
    &&& a.attestations@.len() == b.attestations@.len() && forall|i: int| 0 <= i < a.attestations@.len() ==> #[trigger] a.attestations@[i].disk() == b.attestations@[i].disk()
    &&& same_proofs(a.block_slot_proofs@, b.block_slot_proofs@)
}
proof fn lemma_vec<T, A: serde_with::EncAs<T>>(a: Seq<T>, b: Seq<T>)
    requires vec_val::<T, A>(a) == vec_val::<T, A>(b),
    ensures a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] A::enc_as(a[i]) == A::enc_as(b[i]),
{
    let (x, y) = (a.map_values(|t: T| A::enc_as(t)), b.map_values(|t: T| A::enc_as(t)));
    assert(vec_val::<T, A>(a)->Seq_0 == x && vec_val::<T, A>(b)->Seq_0 == y);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] A::enc_as(a[i]) == A::enc_as(b[i]) by { assert(x[i] == y[i]); }
}
proof fn lemma_map<K, V, KA: serde_with::EncAs<K>, VA: serde_with::EncAs<V>>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires map_val::<K, V, KA, VA>(a) == map_val::<K, V, KA, VA>(b),
    ensures a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> KA::enc_as((#[trigger] a[i]).0) == KA::enc_as(b[i].0) && VA::enc_as(a[i].1) == VA::enc_as(b[i].1),
{
    let (x, y) = (a.map_values(|e: (K, V)| KA::enc_as(e.0)), b.map_values(|e: (K, V)| KA::enc_as(e.0)));
    let (z, w) = (a.map_values(|e: (K, V)| VA::enc_as(e.1)), b.map_values(|e: (K, V)| VA::enc_as(e.1)));
    assert(map_val::<K, V, KA, VA>(a)->Map_0 == x && map_val::<K, V, KA, VA>(b)->Map_0 == y);
    assert(map_val::<K, V, KA, VA>(a)->Map_1 == z && map_val::<K, V, KA, VA>(b)->Map_1 == w);
    assert forall|i: int| 0 <= i < a.len() implies KA::enc_as((#[trigger] a[i]).0) == KA::enc_as(b[i].0) && VA::enc_as(a[i].1) == VA::enc_as(b[i].1) by { assert(x[i] == y[i] && z[i] == w[i]); }
}
proof fn lemma_cp(a: Checkpoint, b: Checkpoint)
    requires a.enc() == b.enc(),
    ensures a == b,
{
    let (x, y) = (cp_vals(a.0.epoch.v, a.0.root), cp_vals(b.0.epoch.v, b.0.root));
    assert(a.enc()->Struct_0 == x && b.enc()->Struct_0 == y);
    assert(x[0] == y[0] && x[1] == y[1]);
    axiom_word_all();
}
proof fn axiom_word_all()
    ensures forall|a: B256, b: B256| #[trigger] word_of(a) == #[trigger] word_of(b) ==> a == b,
{
    assert forall|a: B256, b: B256| #[trigger] word_of(a) == #[trigger] word_of(b) implies a == b by { axiom_word(a, b); }
}
proof fn lemma_patch(a: StatePatch, b: StatePatch)
    requires a.enc() == b.enc(),
    ensures same_patch(a, b),
{
    let (x, y) = (sp_vals(a), sp_vals(b));
    assert(a.enc()->Struct_0 == x && b.enc()->Struct_0 == y);
    assert(x[0] == y[0] && x[1] == y[1]);
    lemma_map::<RandaoMixIndex, B256, serde_with::Same, serde_with::Same>(a.randao_mixes@, b.randao_mixes@);
    lemma_map::<ValidatorIndex, Epoch, serde_with::Same, serde_utils::U64>(a.validator_exits@, b.validator_exits@);
    axiom_word_all();
    assert(a.randao_mixes@ =~= b.randao_mixes@);
    assert(a.validator_exits@ =~= b.validator_exits@);
}
pub proof fn round_trip_input<E: EthSpec>(a: GuestInput<'_, E>, b: GuestInput<'_, E>, v: Val)
    requires v == a.enc(), b.is(v),
    ensures same_input(a, b),
{
    let (x, y) = (gi_vals(a), gi_vals(b));
    assert(a.enc()->Struct_0 == x && b.enc()->Struct_0 == y);
    assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4] && x[5] == y[5] && x[6] == y[6] && x[7] == y[7]);
    round_trip(a.beacon_block, b.beacon_block, a.beacon_block.enc());
    round_trip(a.beacon_state, b.beacon_state, a.beacon_state.enc());
    round_trip(a.active_validators, b.active_validators, a.active_validators.enc());
    lemma_vec::<PublicKey, serde_utils::UncompressedPublicKey>(a.public_keys@, b.public_keys@);
    assert forall|i: int| 0 <= i < a.public_keys@.len() implies #[trigger] a.public_keys@[i].raw() == b.public_keys@[i].raw() by {
        assert(<serde_utils::UncompressedPublicKey as serde_with::EncAs<PublicKey>>::enc_as(a.public_keys@[i]) == <serde_utils::UncompressedPublicKey as serde_with::EncAs<PublicKey>>::enc_as(b.public_keys@[i]));
    }
    lemma_map::<Epoch, StatePatch, serde_utils::U64, serde_with::Same>(a.patches@, b.patches@);
    assert forall|i: int| 0 <= i < a.patches@.len() implies #[trigger] a.patches@[i].0 == b.patches@[i].0 && same_patch(a.patches@[i].1, b.patches@[i].1) by { lemma_patch(a.patches@[i].1, b.patches@[i].1); }
    let (p, q) = (cs_vals(a.consensus_state), cs_vals(b.consensus_state));
    assert(a.consensus_state.enc()->Struct_0 == p && b.consensus_state.enc()->Struct_0 == q);
    assert(p[0] == q[0] && p[1] == q[1]);
    lemma_cp(a.consensus_state.current_justified_checkpoint, b.consensus_state.current_justified_checkpoint);
    lemma_cp(a.consensus_state.finalized_checkpoint, b.consensus_state.finalized_checkpoint);
    lemma_vec::<Attestation<E>, DiskAttestation>(a.attestations@, b.attestations@);
    assert forall|i: int| 0 <= i < a.attestations@.len() implies #[trigger] a.attestations@[i].disk() == b.attestations@[i].disk() by {
        assert(<DiskAttestation as serde_with::EncAs<Attestation<E>>>::enc_as(a.attestations@[i]) == <DiskAttestation as serde_with::EncAs<Attestation<E>>>::enc_as(b.attestations@[i]));
    }
    lemma_vec::<Multiproof, serde_with::Same>(a.block_slot_proofs@, b.block_slot_proofs@);
    assert forall|i: int| 0 <= i < a.block_slot_proofs@.len() implies same(#[trigger] a.block_slot_proofs@[i], b.block_slot_proofs@[i]) by {
        assert(<serde_with::Same as serde_with::EncAs<Multiproof>>::enc_as(a.block_slot_proofs@[i]) == <serde_with::Same as serde_with::EncAs<Multiproof>>::enc_as(b.block_slot_proofs@[i]));
        round_trip(a.block_slot_proofs@[i], b.block_slot_proofs@[i], a.block_slot_proofs@[i].enc());
    }
}
} // verus!
