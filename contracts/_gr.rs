// The guest reader (core/src/input_reader/guest_input_reader.rs).
verus! {
use core::marker::PhantomData;
use ssz_multiproofs::{Tree, proves, troot, gidx, leaves};
#[verifier::reject_recursive_types(E)]
//@item core/src/input_reader/guest_input_reader.rs | struct | GuestInputReader
#[verifier::external_body]
pub fn vf_take<T>(x: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(x)@, final(x)@ == Seq::<T>::empty() { unimplemented!() }
pub fn vf_epoch_from(x: u64) -> (r: Epoch) ensures r.v == x { Epoch { v: x } }
#[verifier::external_body]
pub fn vf_b256_array(b: &B256) -> (r: &[u8; 32]) ensures r@ == bytes_of(*b) { unimplemented!() }
// ---- proofs against a root ----
pub open spec fn shows(p: &Multiproof<'_>, t: Tree) -> bool { proves(t, p.data@, p.descriptor@) }
pub open spec fn proves_root(p: &Multiproof<'_>, root: Root) -> bool { exists|t: Tree| #[trigger] shows(p, t) && troot(t) == bytes_of(root) }
pub open spec fn root_of(p: &Multiproof<'_>) -> Option<Root> {
    if exists|t: Tree| shows(p, t) { Some(b256_of(troot(choose|t: Tree| shows(p, t)))) } else { None }
}
impl<'a> Multiproof<'a> {
    // the call coerces &B256 to &[u8; 32]
    pub fn vf_verify(&self, root: &B256) -> (r: core::result::Result<(), ssz_multiproofs::Error>)
        requires self.inv(),
        ensures r is Ok <==> proves_root(self, *root),
    {
        let r = self.verify(vf_b256_array(root));
        proof {
            if r is Ok { let t = choose|t: Tree| #[trigger] proves(t, self.data@, self.descriptor@) && troot(t) == bytes_of(*root); assert(shows(self, t)); }
        }
        r
    }
    pub fn vf_root(&self) -> (r: core::result::Result<[u8; 32], ssz_multiproofs::Error>)
        requires self.inv(),
        ensures match r { Ok(x) => root_of(self) == Some(b256_of(x@)), Err(_) => root_of(self) is None },
    {
        let r = self.calculate_root();
        proof {
            if r is Ok { let t = choose|t: Tree| #[trigger] proves(t, self.data@, self.descriptor@) && troot(t) == r->Ok_0@; assert(shows(self, t)); }
            if root_of(self) is Some { let t = choose|t: Tree| shows(self, t); assert(proves(t, self.data@, self.descriptor@)); }
        }
        r
    }
}
pub trait WithContext<T>: Sized {
    spec fn context_is(self, r: Result<T, GuestReaderError>) -> bool;
    fn context(self, msg: &'static str) -> (r: Result<T, GuestReaderError>) ensures self.context_is(r);
}
impl<T> WithContext<T> for core::result::Result<T, ssz_multiproofs::Error> {
    open spec fn context_is(self, r: Result<T, GuestReaderError>) -> bool { match self { Ok(x) => r == Ok::<T, GuestReaderError>(x), Err(_) => r is Err } }
//@fn core/src/input_reader/guest_input_reader.rs | WithContext<T> for Result::context | {"vis": ""}
//@end
}
// ---- C16: the state the reader trusts ----
pub open spec fn trusted_state(block: &Multiproof<'_>, state: &Multiproof<'_>, root: Root) -> Option<StateInfo> {
    if !proves_root(block, root) || block_s(value_seq(block)) is None { None }
    else if !proves_root(state, block_s(value_seq(block))->0) { None }
    else if exists|s: StateInfo| state_is(value_seq(state), s) { Some(choose|s: StateInfo| state_is(value_seq(state), s)) } else { None }
}
pub proof fn one_state(v: Seq<Item<'_>>, a: StateInfo, b: StateInfo)
    requires state_is(v, a), state_is(v, b),
    ensures a == b,
{
    assert(a.fork.previous_version@ =~= b.fork.previous_version@); assert(a.fork.current_version@ =~= b.fork.current_version@);
    assert(a.fork.previous_version =~= b.fork.previous_version); assert(a.fork.current_version =~= b.fork.current_version);
    assert(a.fork == b.fork);
}
// ---- C18: the registry after the epochs up to the justified one ----
pub open spec fn ahead(vals: Seq<(usize, ValidatorInfo)>, s: ChainSpec, proven_fin: Epoch, trusted: Epoch, from: int, to: int, k: int) -> Seq<(usize, ValidatorInfo)> decreases k {
    if k <= 0 { vals } else {
        updated(ahead(vals, s, proven_fin, trusted, from, to, k - 1), s, if from + k - 1 < to { proven_fin } else { trusted }, Epoch { v: (from + k - 1) as u64 })
    }
}
pub proof fn ahead_keys(vals: Seq<(usize, ValidatorInfo)>, s: ChainSpec, proven_fin: Epoch, trusted: Epoch, from: int, to: int, k: int)
    ensures ({ let m = ahead(vals, s, proven_fin, trusted, from, to, k); m.len() == vals.len() && (forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 == vals[i].0) && (sorted_keys(vals) ==> sorted_keys(m)) }),
    decreases k,
{
    reveal(sorted_keys);
    if k > 0 { ahead_keys(vals, s, proven_fin, trusted, from, to, k - 1); }
    let m = ahead(vals, s, proven_fin, trusted, from, to, k);
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).0 == vals[i].0 by { if k > 0 { assert(ahead(vals, s, proven_fin, trusted, from, to, k - 1)[i].0 == vals[i].0); } }
}
pub open spec fn epochs_between(from: int, to: int) -> int { if from <= to { to - from + 1 } else { 0 } }
// ---- C22 ----
/// the slot field shown by a block proof
pub open spec fn slot_in(p: &Multiproof<'_>) -> Option<u64> { if value_seq(p).len() > 0 && value_seq(p)[0].0 == 8 { Some(le_val(value_seq(p)[0].1@)) } else { None } }
pub open spec fn slots_ok(ps: Seq<Multiproof<'_>>, k: int) -> bool { forall|i: int| 0 <= i < k ==> root_of(#[trigger] &ps[i]) is Some && slot_in(&ps[i]) is Some }
pub open spec fn slot_at(ps: Seq<Multiproof<'_>>, k: int, r: Root) -> Option<u64> decreases k {
    if k <= 0 { None } else if root_of(&ps[k - 1]) == Some(r) { slot_in(&ps[k - 1]) } else { slot_at(ps, k - 1, r) }
}
// ---- the reader an input gives ----
impl<'a, E: EthSpec> GuestInput<'a, E> {
    pub open spec fn state_s(self) -> Option<StateInfo> { trusted_state(&self.beacon_block, &self.beacon_state, self.consensus_state.finalized_checkpoint.0.root) }
    pub open spec fn registry_s(self) -> Option<Seq<(usize, ValidatorInfo)>> {
        match self.state_s() {
            None => None,
            Some(st) => if !proves_root(&self.active_validators, st.validators_root) { None } else { registry(&self.active_validators, self.public_keys@, self.consensus_state.finalized_checkpoint.0.epoch) },
        }
    }
    pub open spec fn from_epoch(self) -> int { self.state_s()->0.slot.v as int / spe::<E>() as int }
    pub open spec fn to_epoch(self) -> int { self.consensus_state.current_justified_checkpoint.0.epoch.v as int }
    pub open spec fn ahead_s(self, s: ChainSpec, k: int) -> Seq<(usize, ValidatorInfo)> {
        ahead(self.registry_s()->0, s, self.state_s()->0.finalized_checkpoint_epoch, self.consensus_state.finalized_checkpoint.0.epoch, self.from_epoch(), self.to_epoch(), k)
    }
    pub open spec fn validators_s(self, s: ChainSpec) -> Seq<(usize, ValidatorInfo)> { self.ahead_s(s, epochs_between(self.from_epoch(), self.to_epoch())) }
    /// everything but the patches
    pub open spec fn basis_ok(self, s: ChainSpec) -> bool {
        &&& self.registry_s() is Some
        &&& self.state_s()->0.fork == fork_s(s, Epoch { v: self.from_epoch() as u64 })
        &&& (self.from_epoch() <= self.to_epoch() ==> self.to_epoch() + 1 + s.max_seed_lookahead.v <= u64::MAX)
        &&& slots_ok(self.block_slot_proofs@, self.block_slot_proofs@.len() as int)
    }
    pub open spec fn patches_s(self, s: ChainSpec) -> bool { patches_ok(s, self.consensus_state.finalized_checkpoint, self.state_s()->0, self.validators_s(s), self.patches@) }
    pub open spec fn patches_fit_s(self, s: ChainSpec) -> bool { patches_fit(s, self.consensus_state.finalized_checkpoint, self.state_s()->0, self.validators_s(s), self.patches@) }
    pub open spec fn wf(self) -> bool {
        self.beacon_block.inv() && self.beacon_state.inv() && self.active_validators.inv() && self.active_validators.data@.len() < 0x10_0000_0000
            && forall|i: int| 0 <= i < self.block_slot_proofs@.len() ==> (#[trigger] self.block_slot_proofs@[i]).inv()
    }
//@fn core/src/input_reader/guest_input_reader.rs | GuestInput::into_reader | {"methods": {"verify": "vf_verify", "calculate_root": "vf_root"}}
//@requires
        self.wf(), // every Rust slice; and a validator proof below 64 GiB (the guest addresses 4 GiB)
//@reject !(self.basis_ok(spec) && self.patches_fit_s(spec))
//@ensures
        vr is Ok ==> self.state_s() is Some && proves_root(&self.active_validators, self.state_s()->0.validators_root), //[C16]
        vr is Ok ==> self.state_s()->0.fork == fork_s(spec, Epoch { v: self.from_epoch() as u64 }), //[C16]
        vr is Ok ==> vr->Ok_0.genesis_validators_root == self.state_s()->0.genesis_validators_root, //[C16]
        vr is Ok ==> self.registry_s() is Some, //[C17]
        vr is Ok ==> (self.from_epoch() <= self.to_epoch() ==> self.to_epoch() + 1 + spec.max_seed_lookahead.v <= u64::MAX), //[C18]
        vr is Ok ==> vr->Ok_0.validators@ == self.validators_s(spec), //[C18]
        vr is Ok ==> self.patches_s(spec), //[C19]
        vr is Ok ==> vr->Ok_0.patches == self.patches, //[C14 C20]
        vr is Ok ==> slots_ok(self.block_slot_proofs@, self.block_slot_proofs@.len() as int), //[C22]
        vr is Ok ==> forall|b: Root| #[trigger] lookup(vr->Ok_0.block_slots@, b) == slot_at(self.block_slot_proofs@, self.block_slot_proofs@.len() as int, b), //[C22]
        vr is Ok ==> vr->Ok_0.spec == spec && vr->Ok_0.consensus_state == self.consensus_state, //[C09 C23]
        vr is Ok ==> vr->Ok_0.attestations == self.attestations, //[C11]
        vr is Ok ==> self.basis_ok(spec) && vr->Ok_0.rwf(), //[C16]
        vr is Err ==> !(self.basis_ok(spec) && self.patches_s(spec)), //[C16]
//@begin
        let ghost g = self;
        let ghost fine = self.basis_ok(spec) && self.patches_s(spec);
//@after-let state
        proof { one_state(value_seq(&g.beacon_state), state, choose|s: StateInfo| state_is(value_seq(&g.beacon_state), s)); assert(g.state_s() == Some(state)); } //[C16]
//@after-let validators
        proof {
            value_len(&g.active_validators);
            sorted_empty(Seq::<(usize, ValidatorInfo)>::empty());
            c17_registry(value_seq(&g.active_validators), g.public_keys@, 0, trusted_checkpoint.0.epoch, Seq::empty());
            assert(g.registry_s() == Some(validators@)); //[C17]
            assert(validators@.len() <= 0x7fff_ffff && sorted_keys(validators@)); //[C17]
        }
//@loop 0
        invariant
            it.seq().len() == epochs_between(g.from_epoch(), g.to_epoch()), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == g.from_epoch() + i, //[C18]
            g.state_s() == Some(state), trusted_checkpoint == g.consensus_state.finalized_checkpoint, current_justified_epoch.v == g.to_epoch(), g.from_epoch() >= 0,
            g.registry_s() is Some, g.registry_s()->0.len() <= 0x7fff_ffff, sorted_keys(g.registry_s()->0),
            validators@ == g.ahead_s(spec, it.index@), //[C18]
            it.index@ > 0 ==> g.from_epoch() + it.index@ - 1 + 1 + spec.max_seed_lookahead.v <= u64::MAX, //[C18]
//@loop-after 0
        proof {
            broadcast use lookup_empty; //[C22]
            ahead_keys(g.registry_s()->0, spec, state.finalized_checkpoint_epoch, trusted_checkpoint.0.epoch, g.from_epoch(), g.to_epoch(), epochs_between(g.from_epoch(), g.to_epoch()));
        }
//@loop 1
        invariant
            g == self, g.wf(), it.seq() == srefs(g.block_slot_proofs@),
            fine == (g.basis_ok(spec) && g.patches_s(spec)),
            slots_ok(g.block_slot_proofs@, it.index@), //[C22]
            forall|b: Root| #[trigger] lookup(block_slots@, b) == slot_at(g.block_slot_proofs@, it.index@, b), //[C22]
//@loop-begin 1
            proof { assert(*proof == g.block_slot_proofs@[it.index@]); assert(fine ==> root_of(&g.block_slot_proofs@[it.index@]) is Some && slot_in(&g.block_slot_proofs@[it.index@]) is Some); } //[C22]
//@end
}
impl<E: EthSpec> GuestInputReader<E> {
    pub open spec fn rwf(&self) -> bool { sorted_keys(self.validators@) && self.validators@.len() <= 0x7fff_ffff }
}
/// C20: active at the epoch and not recorded as exiting at or before it by that epoch's patch
pub open spec fn is_active_now(patch: Option<StatePatch>, x: (usize, ValidatorInfo), e: Epoch) -> bool { match patch { Some(p) => patched_active(p, x.0, x.1, e), None => active_at(x.1, e) } }
pub open spec fn active_now(vals: Seq<(usize, ValidatorInfo)>, patch: Option<StatePatch>, e: Epoch) -> Seq<(usize, ValidatorInfo)> { sfilter(vals, |x: (usize, ValidatorInfo)| is_active_now(patch, x, e)) }
pub open spec fn by_index<'a>(vals: Seq<(usize, ValidatorInfo)>) -> Seq<(usize, &'a ValidatorInfo)> { smap(pair_refs(vals), |x: (&'a usize, &'a ValidatorInfo)| (*x.0, x.1)) }
pub open spec fn keep<'a>(patch: Option<StatePatch>, e: Epoch) -> spec_fn((usize, &'a ValidatorInfo)) -> bool { |x: (usize, &'a ValidatorInfo)| is_active_now(patch, (x.0, *x.1), e) }
pub proof fn active_lemma(vals: Seq<(usize, ValidatorInfo)>, patch: Option<StatePatch>, e: Epoch)
    ensures
        actives_are(sfilter(by_index(vals), keep(patch, e)), active_now(vals, patch, e)),
        active_now(vals, patch, e).len() <= vals.len(),
        sorted_keys(vals) ==> sorted_keys(active_now(vals, patch, e)),
        vals.len() > 0 && sorted_keys(vals) ==> forall|i: int| 0 <= i < active_now(vals, patch, e).len() ==> (#[trigger] active_now(vals, patch, e)[i]).0 >= vals[0].0,
    decreases vals.len(),
{
    reveal(sorted_keys);
    if vals.len() > 0 {
        let t = vals.skip(1);
        active_lemma(t, patch, e);
        assert(by_index(vals).skip(1) =~= by_index(t));
        let (a, b) = (sfilter(by_index(t), keep(patch, e)), active_now(t, patch, e));
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] a[i]).0 == b[i].0 && *a[i].1 == b[i].1 by { assert(a[i].0 == b[i].0); }
        if sorted_keys(vals) { assert(sorted_keys(t)); assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 > vals[0].0 by { assert(t.len() > 0); assert(t[0] == vals[1]); assert(b[i].0 >= t[0].0); } }
    }
}
impl<E: EthSpec> InputReader for GuestInputReader<E> {
    type Error = GuestReaderError;
    type Spec = E;
    open spec fn s_chain(&self) -> ChainSpec { self.spec }
    open spec fn s_gvr(&self) -> Option<Root> { Some(self.genesis_validators_root) }
    open spec fn s_fork(&self, e: Epoch) -> Option<Fork> { Some(fork_s(self.spec, e)) }
    open spec fn s_active(&self, e: Epoch) -> Option<Seq<(usize, ValidatorInfo)>> { Some(active_now(self.validators@, lookup(self.patches@, e), e)) }
    open spec fn s_mix(&self, e: Epoch, i: u32) -> Option<Option<B256>> { Some(match lookup(self.patches@, e) { Some(p) => lookup(p.randao_mixes@, i), None => None }) }
    open spec fn s_atts(&self) -> Option<Seq<Attestation<E>>> { Some(self.attestations@) }
    open spec fn s_state(&self) -> Option<ConsensusState> { Some(self.consensus_state) }
    open spec fn s_slot(&self, r: Root) -> Option<u64> { lookup(self.block_slots@, r) }
    open spec fn s_wf(&self) -> bool { self.rwf() }
//@fn core/src/input_reader/guest_input_reader.rs | InputReader for GuestInputReader::chain_spec | {"vis": ""}
//@end
//@fn core/src/input_reader/guest_input_reader.rs | InputReader for GuestInputReader::genesis_validators_root | {"vis": ""}
//@end
//@fn core/src/input_reader/guest_input_reader.rs | InputReader for GuestInputReader::fork | {"vis": ""}
//@end
//@fn core/src/input_reader/guest_input_reader.rs | InputReader for GuestInputReader::active_validators | {"vis": "", "statics": ["EMPTY_STATE_PATCH"]}
//@begin
        let ghost pat = lookup(self.patches@, epoch);
        proof { broadcast use lookup_empty; active_lemma(self.validators@, pat, epoch); }
//@closure 0
        |$0: (&usize, &ValidatorInfo)| -> (r: (usize, &ValidatorInfo)) ensures r == (*$0.0, $0.1)
//@closure-ghost 0
|x: (&usize, &ValidatorInfo)| (*x.0, x.1)
//@closure 1
        |$0: &(usize, &ValidatorInfo)| -> (r: bool) ensures r == is_active_now(pat, ($0.0, *$0.1), epoch)
//@closure-ghost 1
keep(pat, epoch)
//@end
//@fn core/src/input_reader/guest_input_reader.rs | InputReader for GuestInputReader::randao_mix | {"vis": "", "statics": ["EMPTY_STATE_PATCH"]}
//@begin
        proof { broadcast use lookup_empty; }
//@end
//@fn core/src/input_reader/guest_input_reader.rs | InputReader for GuestInputReader::attestations | {"vis": ""}
//@end
//@fn core/src/input_reader/guest_input_reader.rs | InputReader for GuestInputReader::consensus_state | {"vis": ""}
//@end
//@fn core/src/input_reader/guest_input_reader.rs | InputReader for GuestInputReader::slot_for_block | {"vis": ""}
//@end
}
} // verus!
