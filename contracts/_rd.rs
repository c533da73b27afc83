// The reader interface, the seed and the total balance (core/src/input_reader.rs).
verus! {
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct B32 { pub b0: u8, pub b1: u8, pub b2: u8, pub b3: u8 }
impl VBytes for B32 { open spec fn vbytes(&self) -> Seq<u8> { seq![self.b0, self.b1, self.b2, self.b3] } }
impl VFrom<[u8; 4]> for B32 { open spec fn from_spec(t: [u8; 4]) -> Self { B32 { b0: t[0], b1: t[1], b2: t[2], b3: t[3] } } fn vfrom(t: [u8; 4]) -> (r: Self) { B32 { b0: t[0], b1: t[1], b2: t[2], b3: t[3] } } }
impl VBytes for B256 { open spec fn vbytes(&self) -> Seq<u8> { bytes_of(*self) } }
impl VFrom<[u8; 32]> for B256 { open spec fn from_spec(t: [u8; 32]) -> Self { b256_of(t@) }
    #[verifier::external_body]
    fn vfrom(t: [u8; 32]) -> (r: Self) { unimplemented!() } }
pub fn vf_sha_array(o: ShaOut) -> (r: [u8; 32]) ensures r == o.d { o.d }
pub open spec fn le8(n: u64) -> Seq<u8> {
    seq![(n % 256) as u8, (n / 0x100 % 256) as u8, (n / 0x10000 % 256) as u8, (n / 0x1000000 % 256) as u8,
         (n / 0x100000000 % 256) as u8, (n / 0x10000000000 % 256) as u8, (n / 0x1000000000000 % 256) as u8, (n / 0x100000000000000 % 256) as u8]
}
pub open spec fn le4(n: u32) -> Seq<u8> { seq![(n % 256) as u8, (n / 0x100 % 256) as u8, (n / 0x10000 % 256) as u8, (n / 0x1000000 % 256) as u8] }
pub trait VLeBytes { type R; spec fn le_is(self, r: Self::R) -> bool; fn vf_le_bytes(self) -> (r: Self::R) ensures self.le_is(r); }
impl VLeBytes for u64 { type R = [u8; 8]; open spec fn le_is(self, r: [u8; 8]) -> bool { r@ == le8(self) }
    #[verifier::external_body]
    fn vf_le_bytes(self) -> [u8; 8] { unimplemented!() } }
impl VLeBytes for u32 { type R = [u8; 4]; open spec fn le_is(self, r: [u8; 4]) -> bool { r@ == le4(self) }
    #[verifier::external_body]
    fn vf_le_bytes(self) -> [u8; 4] { unimplemented!() } }
pub trait VOrd: Sized { spec fn ord_s(self) -> int;
    fn vf_max2(a: Self, b: Self) -> (r: Self) ensures r == if a.ord_s() <= b.ord_s() { b } else { a };
    fn vf_min2(a: Self, b: Self) -> (r: Self) ensures r == if a.ord_s() <= b.ord_s() { a } else { b }; }
impl VOrd for u64 { open spec fn ord_s(self) -> int { self as int } fn vf_max2(a: u64, b: u64) -> (r: u64) { if a <= b { b } else { a } } fn vf_min2(a: u64, b: u64) -> (r: u64) { if a <= b { a } else { b } } }
impl VOrd for Epoch { open spec fn ord_s(self) -> int { self.v as int } fn vf_max2(a: Epoch, b: Epoch) -> (r: Epoch) { if a.v <= b.v { b } else { a } } fn vf_min2(a: Epoch, b: Epoch) -> (r: Epoch) { if a.v <= b.v { a } else { b } } }
pub fn vf_max<T: VOrd>(a: T, b: T) -> (r: T) ensures r == if a.ord_s() <= b.ord_s() { b } else { a } { T::vf_max2(a, b) }
pub fn vf_min<T: VOrd>(a: T, b: T) -> (r: T) ensures r == if a.ord_s() <= b.ord_s() { a } else { b } { T::vf_min2(a, b) }

/// C14: the position the seed's mix is read from
pub open spec fn seed_pos(spec: ChainSpec, n: int, e: Epoch) -> Option<u32> {
    if e.v + n > u64::MAX || e.v + n - spec.min_seed_lookahead.v - 1 < 0 { None } else { Some(((e.v + n - spec.min_seed_lookahead.v - 1) % n) as u32) }
}
pub open spec fn seed_value(dom: Seq<u8>, e: Epoch, mix: B256) -> B256 { b256_of(sha256(dom + le8(e.v) + bytes_of(mix))) }
/// active set as the reader supplies it: ascending, and the records themselves
pub open spec fn actives_are(r: Seq<(usize, &ValidatorInfo)>, s: Seq<(usize, ValidatorInfo)>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]).0 == s[i].0 && *r[i].1 == s[i].1
}
pub trait InputReader: Sized {
    type Error: From<ArithError>;
    type Spec: EthSpec;
    spec fn s_chain(&self) -> ChainSpec;
    spec fn s_gvr(&self) -> Option<Root>;
    spec fn s_fork(&self, e: Epoch) -> Option<Fork>;
    spec fn s_active(&self, e: Epoch) -> Option<Seq<(usize, ValidatorInfo)>>;
    spec fn s_mix(&self, e: Epoch, i: u32) -> Option<Option<B256>>;
    spec fn s_atts(&self) -> Option<Seq<Attestation<Self::Spec>>>;
    spec fn s_state(&self) -> Option<ConsensusState>;
    spec fn s_slot(&self, r: Root) -> Option<u64>;
    /// what the constructor of the reader guarantees
    spec fn s_wf(&self) -> bool;
    fn chain_spec(&self) -> (r: &ChainSpec) ensures *r == self.s_chain();
    fn genesis_validators_root(&self) -> (r: Result<Root, Self::Error>) ensures match self.s_gvr() { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err };
    fn fork(&self, epoch: Epoch) -> (r: Result<beacon_types::Fork, Self::Error>) ensures match self.s_fork(epoch) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err };
    fn active_validators(&self, epoch: Epoch) -> (r: Result<VIter<(ValidatorIndex, &ValidatorInfo)>, Self::Error>)
        requires self.s_wf(),
        ensures match self.s_active(epoch) { Some(x) => r is Ok && actives_are(r->Ok_0@, x) && sorted_keys(x) && x.len() <= 0x7fff_ffff, None => r is Err };
    fn randao_mix(&self, epoch: Epoch, idx: RandaoMixIndex) -> (r: Result<Option<B256>, Self::Error>) ensures match self.s_mix(epoch, idx) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err };
    fn attestations(&self) -> (r: Result<VIter<&Attestation<Self::Spec>>, Self::Error>) ensures match self.s_atts() { Some(x) => r is Ok && r->Ok_0@ == srefs(x), None => r is Err };
    fn consensus_state(&self) -> (r: Result<ConsensusState, Self::Error>) ensures match self.s_state() { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err };
    fn slot_for_block(&self, block_root: &Root) -> (r: Result<u64, Self::Error>) ensures match self.s_slot(*block_root) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err };
//@fn core/src/input_reader.rs | trait InputReader::get_randao_mix
//@reject self.s_mix(state_epoch, (epoch.v as int % ephv::<Self::Spec>()) as u32) == Some(None::<B256>)
//@ensures
        match self.s_mix(state_epoch, (epoch.v as int % ephv::<Self::Spec>()) as u32) { Some(Some(m)) => vr is Ok && vr->Ok_0 == m, _ => vr is Err },
//@end
//@fn core/src/input_reader.rs | trait InputReader::get_seed
//@reject seed_pos(self.s_chain(), ephv::<Self::Spec>(), epoch) is Some && self.s_mix(epoch, seed_pos(self.s_chain(), ephv::<Self::Spec>(), epoch)->0) == Some(None::<B256>)
//@ensures
        match seed_pos(self.s_chain(), ephv::<Self::Spec>(), epoch) {
            Some(i) => match self.s_mix(epoch, i) { Some(Some(m)) => vr is Ok && vr->Ok_0 == seed_value(domain_type.vbytes(), epoch, m), _ => vr is Err },
            None => vr is Err,
        },
//@end
}

/// C15
pub open spec fn balances<T: VAsRef<ValidatorInfo>>(s: Seq<T>) -> int decreases s.len() { if s.len() == 0 { 0 } else { balances(s.drop_last()) + s.last().ref_s().effective_balance } }
pub open spec fn total_s(spec: ChainSpec, sum: int) -> Option<u64> { if sum > u64::MAX { None } else { Some(max_i(sum, spec.effective_balance_increment as int) as u64) } }
pub open spec fn add_balance<T: VAsRef<ValidatorInfo>>() -> spec_fn(u64, T) -> core::result::Result<u64, ArithError> { |a: u64, v: T| chk::<u64>(a + v.ref_s().effective_balance) }
pub proof fn balances_front<T: VAsRef<ValidatorInfo>>(s: Seq<T>)
    requires s.len() > 0,
    ensures balances(s) == s[0].ref_s().effective_balance + balances(s.skip(1)), balances(s) >= 0,
    decreases s.len(),
{
    if s.len() > 1 {
        balances_front(s.drop_last());
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
        assert(s.skip(1).last() == s.last());
        assert(s.drop_last()[0] == s[0]);
    } else { assert(s.drop_last() =~= Seq::<T>::empty()); assert(s.skip(1) =~= Seq::<T>::empty()); }
}
pub proof fn fold_balances<T: VAsRef<ValidatorInfo>>(s: Seq<T>, a: u64)
    ensures
        balances(s) >= 0,
        a + balances(s) <= u64::MAX ==> stry_fold(s, a, add_balance::<T>()) == Ok::<u64, ArithError>((a + balances(s)) as u64),
        a + balances(s) > u64::MAX ==> stry_fold(s, a, add_balance::<T>()) == Err::<u64, ArithError>(ArithError::Overflow),
    decreases s.len(),
{
    if s.len() > 0 {
        balances_front(s);
        if s.len() > 1 { balances_front(s.skip(1)); }
        let b = a + s[0].ref_s().effective_balance;
        if b <= u64::MAX { fold_balances(s.skip(1), b as u64); }
    }
}
//@fn core/src/input_reader.rs | get_total_balance
//@ensures
        match total_s(*spec, balances(validators.vseq())) { Some(t) => vr == Ok::<u64, ArithError>(t), None => vr is Err },
//@begin
        proof { fold_balances(validators.vseq(), 0); }
//@closure 0
        |$0: u64, $1: I::Item| -> (r: core::result::Result<u64, ArithError>) ensures r == add_balance::<I::Item>()($0, $1)
//@closure-ghost 0
add_balance::<I::Item>()
//@end
//@fn core/src/input_reader.rs | uint64_to_bytes
//@ensures
        vr@ == le8(n),
//@end
} // verus!
