// The guest program (methods/guest/src/lib.rs).
verus! {
#[verifier::external_body]
pub fn vf_drop<T>(x: T) {}
/// the environment of the guest: the frames still to read and the public output so far
#[verifier::external_body]
pub struct VfEnv { x: u8 }
impl VfEnv { pub uninterp spec fn frames(&self) -> Seq<Seq<u8>>; pub uninterp spec fn out(&self) -> Seq<Seq<u8>>; }
pub mod env {
    use super::*;
    #[verifier::external_body]
    pub fn log(s: &str) { }
    #[verifier::external_body]
    pub fn vf_log<T>(s: T) { }
    /// guest memory is 32 bits wide
    #[verifier::external_body]
    pub fn read_frame(e: &mut VfEnv) -> (r: Vec<u8>)
        ensures
            old(e).frames().len() > 0, r@ == old(e).frames()[0], r@.len() <= 0xffff_ffff, final(e).out() == old(e).out(), final(e).frames() == old(e).frames().skip(1),
    { unimplemented!() }
    /// output may be published only where `p` holds of it
    #[verifier::external_body]
    pub fn commit_slice(b: &[u8], e: &mut VfEnv, Ghost(p): Ghost<spec_fn(Seq<u8>) -> bool>)
        requires p(b@),
        ensures final(e).out() == old(e).out().push(b@), final(e).frames() == old(e).frames(),
    { unimplemented!() }
}
pub uninterp spec fn decoded<'a, E: EthSpec>(b: Seq<u8>) -> Option<GuestInput<'a, E>>;
pub mod bincode {
    use super::*;
    /// a decoded input borrows its proofs from the bytes it was decoded from
    #[verifier::external_body]
    pub fn deserialize<'a, E: EthSpec>(b: &'a [u8]) -> (r: core::result::Result<GuestInput<'a, E>, ()>)
        ensures
            match r { Ok(g) => decoded::<E>(b@) == Some(g), Err(_) => decoded::<E>(b@) is None },
            r is Ok ==> r->Ok_0.beacon_block.data@.len() <= b@.len() && r->Ok_0.beacon_state.data@.len() <= b@.len() && r->Ok_0.active_validators.data@.len() <= b@.len()
                && forall|i: int| 0 <= i < r->Ok_0.block_slot_proofs@.len() ==> (#[trigger] r->Ok_0.block_slot_proofs@[i]).data@.len() <= b@.len(),
    { unimplemented!() }
}
// ---- C23 ----
/// r is a reader into_reader gives for input g
pub open spec fn reader_of<'a, E: EthSpec>(g: GuestInput<'a, E>, s: ChainSpec, r: GuestInputReader<E>) -> bool {
    &&& g.basis_ok(s) && g.patches_s(s)
    &&& r.spec == s && r.patches == g.patches && r.consensus_state == g.consensus_state && r.attestations == g.attestations
    &&& r.genesis_validators_root == g.state_s()->0.genesis_validators_root
    &&& r.validators@ == g.validators_s(s)
    &&& forall|b: Root| #[trigger] lookup(r.block_slots@, b) == slot_at(g.block_slot_proofs@, g.block_slot_proofs@.len() as int, b)
}
/// output that may be published: the journal of an input that was fully verified
#[verifier::opaque]
pub open spec fn publishable<E: EthSpec>(frame: Seq<u8>, s: ChainSpec, cfg: Config, out: Seq<u8>) -> bool {
    decoded::<E>(frame) is Some && exists|r: GuestInputReader<E>| {
        &&& #[trigger] reader_of(decoded::<E>(frame)->0, s, r)
        &&& verified(cfg, r) is Some
        &&& out == journal_words(decoded::<E>(frame)->0.consensus_state, verified(cfg, r)->Some_0.0, verified(cfg, r)->Some_0.1)
    }
}
pub proof fn publishes<E: EthSpec>(frame: Seq<u8>, s: ChainSpec, cfg: Config, out: Seq<u8>, r: GuestInputReader<E>)
    requires
        decoded::<E>(frame) is Some, reader_of(decoded::<E>(frame)->0, s, r), verified(cfg, r) is Some,
        out == journal_words(decoded::<E>(frame)->0.consensus_state, verified(cfg, r)->Some_0.0, verified(cfg, r)->Some_0.1),
    ensures publishable::<E>(frame, s, cfg, out),
{ reveal(publishable); }
/// the program may stop without output: the bytes are no input, or not one that gives a reader, or the reader does not verify
pub open spec fn stops<E: EthSpec>(frame: Seq<u8>, s: ChainSpec, cfg: Config) -> bool {
    decoded::<E>(frame) is None || !(decoded::<E>(frame)->0.basis_ok(s) && decoded::<E>(frame)->0.patches_s(s)) || exists|r: GuestInputReader<E>| #[trigger] reader_of(decoded::<E>(frame)->0, s, r) && verified(cfg, r) is None
}
//@fn methods/guest/src/lib.rs | entry | {"rename": "guest_entry", "extra_param": "vf_env: &mut VfEnv", "extra_args": {"env::read_frame": "vf_env", "env::commit_slice": "vf_env, Ghost(may)"}, "paths": {"env::log": "env::vf_log"}}
//@requires
        config.justification_threshold_quotient > 0,
        old(vf_env).frames().len() > 0,
//@reject stops::<E>(frame, s0, *config)
//@ensures
        final(vf_env).out().len() == old(vf_env).out().len() + 1, // exactly once
        final(vf_env).out().drop_last() =~= old(vf_env).out(),
        publishable::<E>(old(vf_env).frames()[0], spec, *config, final(vf_env).out().last()),
//@begin
        let ghost s0 = spec;
        let ghost frame = vf_env.frames()[0];
        let ghost may = |b: Seq<u8>| publishable::<E>(frame, s0, *config, b);
//@after-let state_reader
        proof { assert(reader_of(decoded::<E>(frame)->0, s0, state_reader)); }
//@after-let journal
        proof {
            let g = decoded::<E>(frame)->0;
            let v = verified(*config, state_reader)->Some_0;
            let w = journal_words(g.consensus_state, v.0, v.1);
            publishes::<E>(frame, s0, *config, w, state_reader);
            assert forall|b: Seq<u8>| b =~= w implies #[trigger] may(b) by { assert(b == w); }
        }
//@end
// ---- the programs for the two networks ----
pub struct MainnetEthSpec { }
/// the preset of the main network, shared by its test networks
pub struct P32 { }
pub struct P65536 { }
impl Unsigned for P32 { open spec fn val() -> u64 { 32 } fn to_u64() -> u64 { 32 } fn to_usize() -> usize { 32 } }
impl Unsigned for P65536 { open spec fn val() -> u64 { 65536 } fn to_u64() -> u64 { 65536 } fn to_usize() -> usize { 65536 } }
impl EthSpec for MainnetEthSpec {
    type SlotsPerEpoch = P32;
    type EpochsPerHistoricalVector = P65536;
    proof fn vf_bounds() { }
    #[verifier::external_body]
    fn slots_per_epoch() -> u64 { 32 }
    #[verifier::external_body]
    fn epochs_per_historical_vector() -> usize { 65536 }
    #[verifier::external_body]
    fn get_committee_count_per_slot(n: usize, spec: &ChainSpec) -> core::result::Result<usize, BtError> { unimplemented!() }
}
pub enum Net { Mainnet, Sepolia }
pub uninterp spec fn net_spec(n: Net) -> ChainSpec;
pub mod chainspec {
    use super::*;
    #[verifier::external_body]
    pub fn mainnet_spec() -> (r: ChainSpec) ensures r == net_spec(Net::Mainnet) { unimplemented!() }
    #[verifier::external_body]
    pub fn sepolia_spec() -> (r: ChainSpec) ensures r == net_spec(Net::Sepolia) { unimplemented!() }
}
/// thresholds: 85% on the main network, more than two thirds on the test network
pub open spec fn net_cfg(n: Net, c: Config) -> bool {
    c.justification_threshold_quotient > 0 && match n {
        Net::Mainnet => c.justification_threshold_factor * 100 >= c.justification_threshold_quotient * 85,
        Net::Sepolia => c.justification_threshold_factor * 3 > c.justification_threshold_quotient * 2,
    }
}
pub open spec fn net_out(n: Net, frame: Seq<u8>, out: Seq<u8>) -> bool { exists|c: Config| net_cfg(n, c) && #[trigger] publishable::<MainnetEthSpec>(frame, net_spec(n), c, out) }
//@fn methods/guest/src/bin/mainnet.rs | main | {"rename": "mainnet_main", "extra_param": "vf_env: &mut VfEnv", "extra_args": {"beacon_guest::entry": "vf_env"}, "paths": {"beacon_guest::entry": "guest_entry"}, "statics": ["DEFAULT_CONFIG", "SEPOLIA_CONFIG"]}
//@requires
        old(vf_env).frames().len() > 0,
//@ensures
        final(vf_env).out().len() == old(vf_env).out().len() + 1, final(vf_env).out().drop_last() =~= old(vf_env).out(),
        net_out(Net::Mainnet, old(vf_env).frames()[0], final(vf_env).out().last()),
//@end
//@fn methods/guest/src/bin/sepolia.rs | main | {"rename": "sepolia_main", "extra_param": "vf_env: &mut VfEnv", "extra_args": {"beacon_guest::entry": "vf_env"}, "paths": {"beacon_guest::entry": "guest_entry"}, "statics": ["DEFAULT_CONFIG", "SEPOLIA_CONFIG"]}
//@requires
        old(vf_env).frames().len() > 0,
//@ensures
        final(vf_env).out().len() == old(vf_env).out().len() + 1, final(vf_env).out().drop_last() =~= old(vf_env).out(),
        net_out(Net::Sepolia, old(vf_env).frames()[0], final(vf_env).out().last()),
//@end
} // verus!
