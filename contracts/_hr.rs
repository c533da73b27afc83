// The host reader's answers (host/src/input_reader/host_input_reader.rs) and the state cache.
verus! {
pub struct VClone;
impl<K, V> FrozenMap<K, V> {
    /// map_get(k, Clone::clone)
    #[verifier::external_body]
    pub fn map_get(&self, k: &K, f: VClone) -> (r: Option<V>) ensures r is Some ==> self.inv(*k, r->0) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_map(self) -> (r: FrozenEntries<K, V>) ensures forall|k: K, v: V| #[trigger] r.holds(k, v) ==> self.inv(k, v) { unimplemented!() }
}
impl<K, V> Clone for FrozenMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures forall|k: K, v: V| #[trigger] r.inv(k, v) == self.inv(k, v) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct FrozenEntries<K, V> { x: Vec<(K, V)> }
impl<K, V> FrozenEntries<K, V> {
    pub uninterp spec fn holds(&self, k: K, v: V) -> bool;
    #[verifier::external_body]
    pub fn values(&self) -> (r: VIter<&V>) ensures forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> exists|k: K| self.holds(k, *r@[i]) { unimplemented!() }
}
//@item host/src/state_provider/cache_provider.rs | struct | CacheStateProvider
impl<P: StateProvider> CacheStateProvider<P> {
    pub open spec fn cwf(&self) -> bool { self.inner.source_wf() && forall|k: Slot, s: StateRef| #[trigger] self.cache.inv(k, s) <==> self.inner.gives(k.v, s.s) }
//@fn host/src/state_provider/cache_provider.rs | CacheStateProvider::new
//@requires
        provider.source_wf(),
//@ensures
        vr.source_wf(), vr.inner == provider,
//@result
    proof { empty_map_inv(vf_r.cache, |k: Slot, s: StateRef| vf_r.inner.gives(k.v, s.s)); }
//@end
}
impl<P: StateProvider> StateSource for CacheStateProvider<P> {
    type Spec = P::Spec;
    open spec fn gives(&self, slot: u64, s: BeaconState) -> bool { self.inner.gives(slot, s) }
    open spec fn lacks(&self, slot: u64) -> bool { self.inner.lacks(slot) }
    open spec fn source_wf(&self) -> bool { self.cwf() }
}
impl<P: StateProvider> StateProvider for CacheStateProvider<P> {
//@fn host/src/state_provider/cache_provider.rs | StateProvider for CacheStateProvider::state_at_slot | {"vis": ""}
//@end
//@fn host/src/state_provider/cache_provider.rs | StateProvider for CacheStateProvider::genesis_validators_root | {"vis": ""}
//@begin
        proof { assert(forall|slot: u64, s: BeaconState| #[trigger] self.inner.gives(slot, s) ==> self.gives(slot, s)); }
//@end
}
impl<E: EthSpec, P: StateProvider, CR: ChainReader> StateSource for HostInputReader<E, P, CR> {
    type Spec = P::Spec;
    open spec fn gives(&self, slot: u64, s: BeaconState) -> bool { self.provider.gives(slot, s) }
    open spec fn lacks(&self, slot: u64) -> bool { self.provider.lacks(slot) }
    open spec fn source_wf(&self) -> bool { self.rwf() }
}
impl<E: EthSpec, P: StateProvider, CR: ChainReader> StateProvider for HostInputReader<E, P, CR> {
//@fn host/src/input_reader/host_input_reader.rs | StateProvider for HostInputReader::state_at_slot | {"vis": ""}
//@end
}
impl PublicKey {
    #[verifier::external_body]
    pub fn deserialize(b: &BlsBytes) -> (r: Result<PublicKey, AnyError>) ensures match key_of(*b) { Some(k) => r is Ok && r->Ok_0 == k, None => r is Err } { unimplemented!() }
}
impl TryAsBeaconType<ValidatorInfo> for Validator {
    open spec fn bt(&self) -> Option<ValidatorInfo> { info_of(*self) }
//@fn host/src/conversions.rs | TryAsBeaconType<ValidatorInfo> for Validator::try_as_beacon_type | {"vis": "", "types": {"Result<ValidatorInfo>": "Result<ValidatorInfo, AnyError>"}}
//@closure 0
        |$0: AnyError| -> (r: AnyError)
//@end
}
//@fn host/src/input_reader/host_input_reader.rs | is_active_validator
//@ensures
        vr == record_active(*validator, Epoch { v: epoch }),
//@end
pub open spec fn act<'a>(e: Epoch) -> spec_fn((usize, &'a Validator)) -> bool { |x: (usize, &'a Validator)| record_active(*x.1, e) }
pub open spec fn asc<T>(a: Seq<(usize, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).0 < (#[trigger] a[j]).0 }
/// what a filter keeps of an ascending sequence
pub proof fn filter_keeps<T>(a: Seq<(usize, T)>, p: spec_fn((usize, T)) -> bool)
    requires asc(a),
    ensures
        asc(sfilter(a, p)),
        forall|i: int| 0 <= i < sfilter(a, p).len() ==> p(#[trigger] sfilter(a, p)[i]) && a.contains(sfilter(a, p)[i]),
        forall|j: int| 0 <= j < a.len() && p(#[trigger] a[j]) ==> sfilter(a, p).contains(a[j]),
    decreases a.len(),
{
    if a.len() > 0 {
        let t = a.skip(1);
        filter_keeps(t, p);
        let f = sfilter(a, p); let g = sfilter(t, p);
        assert forall|i: int| 0 <= i < f.len() implies p(#[trigger] f[i]) && a.contains(f[i]) by {
            let k = if p(a[0]) { i - 1 } else { i };
            if k < 0 { assert(a[0] == f[i]); } else { assert(f[i] == g[k]); assert(t.contains(g[k])); let m = choose|m: int| 0 <= m < t.len() && t[m] == g[k]; assert(a[m + 1] == f[i]); }
        }
        assert forall|j: int| 0 <= j < a.len() && p(#[trigger] a[j]) implies f.contains(a[j]) by {
            if j == 0 { assert(f[0] == a[0]); } else { assert(t[j - 1] == a[j]); assert(g.contains(a[j])); let m = choose|m: int| 0 <= m < g.len() && g[m] == a[j]; assert(f[if p(a[0]) { m + 1 } else { m }] == a[j]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 < (#[trigger] f[j]).0 by {
            if p(a[0]) {
                assert(f[j] == g[j - 1]); assert(t.contains(g[j - 1]));
                let m = choose|m: int| 0 <= m < t.len() && t[m] == g[j - 1];
                if i == 0 { assert(a[m + 1] == f[j]); assert(a[0].0 < a[m + 1].0); } else { assert(f[i] == g[i - 1]); assert(g[i - 1].0 < g[j - 1].0); }
            } else { assert(f[i] == g[i] && f[j] == g[j]); }
        }
    }
}
pub proof fn actives_lemma(reg: Seq<Validator>, e: Epoch, r: Seq<(usize, ValidatorInfo)>)
    requires
        reg.len() <= usize::MAX,
        r.len() == sfilter(senum(srefs(reg)), act(e)).len(),
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == sfilter(senum(srefs(reg)), act(e))[i].0 && info_of(*sfilter(senum(srefs(reg)), act(e))[i].1) == Some(r[i].1),
    ensures actives_of(r, reg, e),
{
    let a = senum(srefs(reg)); let f = sfilter(a, act(e));
    filter_keeps(a, act(e));
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 < reg.len() && record_active(reg[r[i].0 as int], e) && info_of(reg[r[i].0 as int]) == Some(r[i].1) by {
        assert(act(e)(f[i]) && a.contains(f[i]));
        let m = choose|m: int| 0 <= m < a.len() && a[m] == f[i];
        assert(a[m] == (m as usize, &reg[m]));
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 < (#[trigger] r[j]).0 by { assert(f[i].0 < f[j].0); }
    assert forall|k: int| 0 <= k < reg.len() && record_active(#[trigger] reg[k], e) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k by {
        assert(a[k] == (k as usize, &reg[k])); assert(act(e)(a[k])); assert(f.contains(a[k]));
        let m = choose|m: int| 0 <= m < f.len() && f[m] == a[k];
        assert(r[m].0 == k);
    }
}
impl<T> VIter<T> {
    /// map with a closure known by its contract only
    #[verifier::external_body]
    pub fn vf_map_c<B, F: Fn(T) -> B>(self, f: F) -> (r: VIter<B>)
        requires all_req1(f, self@),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
}
pub trait VMapC<T, E> { fn vf_map_c<B, F: FnOnce(T) -> B>(self, f: F) -> (r: Result<B, E>)
    requires self.ok_s() is Ok ==> call_requires(f, (self.ok_s()->Ok_0,)),
    ensures match self.ok_s() { Ok(x) => r is Ok && call_ensures(f, (x,), r->Ok_0), Err(e) => r == Err::<B, E>(e) };
    spec fn ok_s(self) -> Result<T, E>; }
impl<T, E> VMapC<T, E> for Result<T, E> { open spec fn ok_s(self) -> Result<T, E> { self }
    fn vf_map_c<B, F: FnOnce(T) -> B>(self, f: F) -> (r: Result<B, E>) { match self { Ok(x) => Ok(f(x)), Err(e) => Err(e) } } }
pub open spec fn unrefs(s: Seq<(usize, &ValidatorInfo)>) -> Seq<(usize, ValidatorInfo)> { Seq::new(s.len(), |i: int| (s[i].0, *s[i].1)) }
impl<E: EthSpec, P: StateProvider, CR: ChainReader> HostInputReader<E, P, CR> {
//@fn host/src/input_reader/host_input_reader.rs | HostInputReader::state
//@requires
        self.rwf(),
//@ensures
        match vr { Ok(s) => self.provider.gives(epoch_slot::<P>(epoch), s.s), Err(_) => self.provider.lacks(epoch_slot::<P>(epoch)) },
//@end
//@fn host/src/input_reader/host_input_reader.rs | InputReader for HostInputReader::chain_spec | {"vis": "pub "}
//@ensures
        *vr == self.spec,
//@end
//@fn host/src/input_reader/host_input_reader.rs | InputReader for HostInputReader::genesis_validators_root | {"vis": "pub "}
//@requires
        self.rwf(),
//@ensures
        match vr { Ok(x) => exists|slot: u64, s: BeaconState| #[trigger] self.provider.gives(slot, s) && x == gvr_of(s), Err(_) => self.provider.lacks(0) },
//@end
//@fn host/src/input_reader/host_input_reader.rs | InputReader for HostInputReader::fork | {"vis": "pub "}
//@requires
        self.rwf(),
//@ensures
        match vr {
            Ok(f) => exists|s: BeaconState| #[trigger] self.provider.gives(epoch_slot::<P>(epoch), s) && f == (Fork { previous_version: fork_of(s).previous_version, current_version: fork_of(s).current_version, epoch: Epoch { v: fork_of(s).epoch } }),
            Err(_) => self.provider.lacks(epoch_slot::<P>(epoch)),
        },
//@end
//@fn host/src/input_reader/host_input_reader.rs | InputReader for HostInputReader::active_validators | {"vis": "pub ", "methods": {"map": "vf_map_c"}}
//@requires
        self.rwf(),
//@ensures
        match vr {
            Ok(it) => cached_ok(self.provider, epoch, unrefs(it@)),
            Err(_) => self.provider.lacks(epoch_slot::<P>(epoch)) || exists|s: BeaconState, k: int| #[trigger] self.provider.gives(epoch_slot::<P>(epoch), s) && 0 <= k < registry_of(s).len() && record_active(#[trigger] registry_of(s)[k], epoch) && info_of(registry_of(s)[k]) is None,
        },
//@after-let beacon_state
                let ghost reg = registry_of(beacon_state.s);
                let ghost kept = sfilter(senum(srefs(reg)), act(epoch));
                proof { registry_fits(beacon_state.s); filter_keeps(senum(srefs(reg)), act(epoch)); }
//@after-let validators
                proof { actives_lemma(reg, epoch, validators@); }
//@after-let iter
        let ghost found = choose|v: Vec<(ValidatorIndex, ValidatorInfo)>| #[trigger] self.validator_cache.inv(epoch, v) && iter@ == srefs(v@);
//@result
        proof { assert(unrefs(vf_r->Ok_0@) =~= found@); }
//@closure 0
        |$0: &(usize, &Validator)| -> (r: bool) ensures r == record_active(*$0.1, epoch)
//@closure-ghost 0
act(epoch)
//@closure 1
        |$0: (usize, &Validator)| -> (r: Result<(usize, ValidatorInfo), AnyError>) ensures match info_of(*$0.1) { Some(v) => r == Ok::<(usize, ValidatorInfo), AnyError>(($0.0, v)), None => r is Err }
//@closure 2
        |$0: ValidatorInfo| -> (r: (usize, ValidatorInfo)) ensures r == (idx, $0)
//@closure 3
        |$0: &(usize, ValidatorInfo)| -> (r: (usize, &ValidatorInfo)) ensures r.0 == $0.0, *r.1 == $0.1
//@end
//@fn host/src/input_reader/host_input_reader.rs | InputReader for HostInputReader::randao_mix | {"vis": "pub "}
//@requires
        self.rwf(),
//@ensures
        match vr {
            Ok(m) => exists|s: BeaconState| #[trigger] self.provider.gives(epoch_slot::<P>(epoch), s) && m == (if idx < mixes_of(s).len() { Some(b256_of(mixes_of(s)[idx as int].b@)) } else { None::<B256> }),
            Err(_) => self.provider.lacks(epoch_slot::<P>(epoch)),
        },
//@closure 0
        |$0: &Mix| -> (r: B256) ensures r == b256_of($0.b@)
//@end
//@fn host/src/input_reader/host_input_reader.rs | InputReader for HostInputReader::attestations | {"vis": "pub "}
//@ensures
        vr is Ok && vr->Ok_0@ == srefs(self.attestation_cache@),
//@end
//@fn host/src/input_reader/host_input_reader.rs | InputReader for HostInputReader::consensus_state | {"vis": "pub "}
//@ensures
        vr is Ok && vr->Ok_0 == self.consensus_state,
//@end
//@fn host/src/input_reader/host_input_reader.rs | InputReader for HostInputReader::slot_for_block | {"vis": "pub "}
//@ensures
        match vr {
            Ok(s) => exists|h: SignedBeaconBlockHeader| #[trigger] self.chain_reader.heads(shown_root(*block_root), Some(h)) && s == h.message.slot,
            Err(_) => self.chain_reader.fails(shown_root(*block_root)) || self.chain_reader.heads(shown_root(*block_root), None),
        },
//@end
}
pub fn vf_block_on<T>(x: T) -> (r: T) ensures r == x { x }
} // verus!
