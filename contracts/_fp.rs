// The store of beacon states (host/src/state_provider/file_provider.rs, persistant_api_provider.rs) over a model of the
// file system.
#[allow(unused_imports)]
pub use core::marker::PhantomData;
verus! {
pub type Text = Seq<char>;
// ---- strings ----
#[verifier::external_body]
pub struct VStr { x: u8 }
impl View for VStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vf_empty() -> (r: VStr) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vf_lit(s: &str, slash: bool) -> (r: VStr) ensures r@ == s@, r@.contains('/') == slash { unimplemented!() }
#[verifier::external_body]
pub fn vf_cat(a: VStr, b: VStr) -> (r: VStr) ensures r@ == a@ + b@ { unimplemented!() }
pub trait VDisplay { spec fn shown(&self) -> Text; }
/// the decimal notation of a number, and its reading
pub uninterp spec fn dec(n: u64) -> Text;
pub uninterp spec fn undec(s: Text) -> Option<u64>;
#[verifier::external_body]
pub broadcast proof fn axiom_dec(n: u64)
    ensures undec(#[trigger] dec(n)) == Some(n), dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> '0' <= #[trigger] dec(n)[i] <= '9' {}
impl VDisplay for u64 { open spec fn shown(&self) -> Text { dec(*self) } }
impl VDisplay for Slot { open spec fn shown(&self) -> Text { dec(self.v) } }
impl VDisplay for Epoch { open spec fn shown(&self) -> Text { dec(self.v) } }
#[verifier::external_body]
pub fn vf_shown<T: VDisplay>(x: &T) -> (r: VStr) ensures r@ == x.shown() { unimplemented!() }
pub open spec fn before(s: Text, c: char) -> Text decreases s.len() { if s.len() == 0 || s[0] == c { Seq::empty() } else { seq![s[0]] + before(s.skip(1), c) } }
pub proof fn before_cat(a: Text, b: Text, c: char)
    requires b.len() > 0, b[0] == c, forall|i: int| 0 <= i < a.len() ==> a[i] != c,
    ensures before(a + b, c) == a,
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(a =~= Seq::empty()); } else {
        before_cat(a.skip(1), b, c);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(seq![a[0]] + a.skip(1) =~= a);
    }
}
#[verifier::external_body]
pub struct VSplit { x: u8 }
impl VSplit {
    pub uninterp spec fn first(&self) -> Option<Text>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&VStr>) ensures match old(self).first() { Some(t) => r is Some && r->0@ == t, None => true }, final(self).first() is None { unimplemented!() }
}
pub trait VParse: Sized { spec fn parsed(s: Text) -> Option<Self>; }
impl VParse for u64 { open spec fn parsed(s: Text) -> Option<u64> { undec(s) } }
impl VParse for Slot { open spec fn parsed(s: Text) -> Option<Slot> { match undec(s) { Some(n) => Some(Slot { v: n }), None => None } } }
impl VStr {
    #[verifier::external_body]
    pub fn split(&self, c: char) -> (r: VSplit) ensures r.first() == Some(before(self@, c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_once(&self, c: char) -> (r: Option<(&VStr, &VStr)>)
        ensures match r { Some(p) => self@.contains(c) && p.0@ == before(self@, c) && self@ == p.0@ + seq![c] + p.1@, None => !self@.contains(c) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: VParse>(&self) -> (r: Result<T, AnyError>) ensures match T::parsed(self@) { Some(x) => r == Ok::<T, AnyError>(x), None => r is Err } { unimplemented!() }
}
pub trait VThen<T>: Sized { spec fn op_s(self) -> Option<T>;
    fn vf_and_then<B, F: FnOnce(T) -> Option<B>>(self, f: F) -> (r: Option<B>)
        requires self.op_s() is Some ==> call_requires(f, (self.op_s()->0,)),
        ensures match self.op_s() { Some(x) => call_ensures(f, (x,), r), None => r is None }; }
impl<T> VThen<T> for Option<T> { open spec fn op_s(self) -> Option<T> { self } fn vf_and_then<B, F: FnOnce(T) -> Option<B>>(self, f: F) -> (r: Option<B>) { match self { Some(x) => f(x), None => None } } }

// ---- errors: their wording is not modelled ----
#[verifier::external_body]
pub struct AnyError { x: u8 }
#[verifier::external_body]
pub fn vf_anyhow() -> AnyError { unimplemented!() }
pub mod anyhow { pub use super::AnyError as Error; }
pub trait VContext<T> { spec fn ok_s(self) -> Option<T>; fn vf_context(self) -> (r: Result<T, AnyError>) ensures match self.ok_s() { Some(x) => r == Ok::<T, AnyError>(x), None => r is Err }; }
impl<T, E> VContext<T> for Result<T, E> { open spec fn ok_s(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    #[verifier::external_body]
    fn vf_context(self) -> (r: Result<T, AnyError>) { unimplemented!() } }
//@item host/src/state_provider.rs | enum | StateProviderError
// thiserror #[from]
impl vstd::std_specs::convert::FromSpecImpl<AnyError> for StateProviderError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: AnyError) -> Self { StateProviderError::Other(e) }
}
#[verifier::external_body]
pub broadcast proof fn axiom_other(e: AnyError, r: StateProviderError) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<StateProviderError, AnyError>(e, r) ==> r == StateProviderError::Other(e) {}
impl From<AnyError> for StateProviderError {
    fn from(e: AnyError) -> (r: Self) { StateProviderError::Other(e) }
}

// ---- states ----
#[verifier::external_body]
pub struct BeaconState { x: u8 }
pub uninterp spec fn slot_of(s: BeaconState) -> u64;
impl BeaconState {
    #[verifier::external_body]
    pub fn slot(&self) -> (r: u64) ensures r == slot_of(*self) { unimplemented!() }
}
pub struct StateRef { pub s: BeaconState }
impl VFrom<BeaconState> for StateRef { open spec fn from_spec(t: BeaconState) -> Self { StateRef { s: t } } fn vfrom(t: BeaconState) -> (r: Self) { StateRef { s: t } } }
/// the SSZ form of a state, and its reading
pub uninterp spec fn ssz_of(s: BeaconState) -> Option<Seq<u8>>;
pub uninterp spec fn unssz(b: Seq<u8>) -> Option<BeaconState>;
pub trait VRead: Sized { spec fn read_s(b: Seq<u8>) -> Option<Self>; }
impl VRead for BeaconState { open spec fn read_s(b: Seq<u8>) -> Option<BeaconState> { unssz(b) } }
pub mod ssz_rs {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn serialize(s: &BeaconState) -> (r: Result<Vec<u8>, AnyError>) ensures match ssz_of(*s) { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err } { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize<T: VRead>(b: &Vec<u8>) -> (r: Result<T, AnyError>) ensures match T::read_s(b@) { Some(s) => r == Ok::<T, AnyError>(s), None => r is Err } { unimplemented!() }
    }
}
#[verifier::external_body]
pub broadcast proof fn axiom_ssz(s: BeaconState) ensures #[trigger] ssz_of(s) is Some ==> unssz(ssz_of(s)->0) == Some(s) {}
pub fn vf_slot_from(t: u64) -> (r: Slot) ensures r.v == t { Slot { v: t } }

// ---- the file system: the files by path. `allowed` are the contents it may have whenever the process is interrupted ----
#[verifier::external_body]
pub struct PathBuf { x: u8 }
impl View for PathBuf { type V = Text; uninterp spec fn view(&self) -> Text; }
/// the path of the entry of this name in a directory
pub uninterp spec fn joined(dir: Text, name: Text) -> Text;
pub open spec fn plain(n: Text) -> bool { n.len() > 0 && !n.contains('/') && n != seq!['.'] && n != seq!['.', '.'] }
#[verifier::external_body]
pub proof fn axiom_joined(dir: Text, a: Text, b: Text) requires plain(a), plain(b), joined(dir, a) == joined(dir, b) ensures a == b {}
pub trait VName { spec fn name_s(&self) -> Text; }
impl VName for VStr { open spec fn name_s(&self) -> Text { self@ } }
impl VName for &VStr { open spec fn name_s(&self) -> Text { (**self)@ } }
pub trait VPath { spec fn path_s(&self) -> Text; }
impl VPath for PathBuf { open spec fn path_s(&self) -> Text { self@ } }
impl VPath for &PathBuf { open spec fn path_s(&self) -> Text { (**self)@ } }
impl VBytes for Vec<u8> { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl VBytes for &Vec<u8> { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
pub type Files = Map<Text, Seq<u8>>;
#[verifier::external_body]
pub struct VfDisk { x: u8 }
impl VfDisk {
    pub uninterp spec fn files(&self) -> Files;
    pub uninterp spec fn allowed(&self, m: Files) -> bool;
    pub open spec fn same_rule(&self, o: VfDisk) -> bool { forall|m: Files| #[trigger] self.allowed(m) == o.allowed(m) }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn join<N: VName>(&self, n: N) -> (r: PathBuf) ensures r@ == joined(self@, n.name_s()) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self, d: &mut VfDisk) -> (r: bool) ensures r == old(d).files().dom().contains(self@), *final(d) == *old(d) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self, d: &mut VfDisk) -> (r: bool) ensures *final(d) == *old(d) { unimplemented!() }
}
#[verifier::external_body]
pub struct DirEntry { x: u8 }
impl DirEntry {
    /// its name, where it is Unicode
    pub uninterp spec fn name(&self) -> Option<Text>;
    pub uninterp spec fn path_s(&self) -> Text;
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: OsString) ensures r.text() == self.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r@ == self.path_s() { unimplemented!() }
}
#[verifier::external_body]
pub struct OsString { x: u8 }
impl OsString {
    pub uninterp spec fn text(&self) -> Option<Text>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&VStr>) ensures match self.text() { Some(t) => r is Some && r->0@ == t, None => r is None } { unimplemented!() }
}
pub open spec fn names(l: Seq<Result<DirEntry, AnyError>>, n: Text) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Ok && l[i]->Ok_0.name() == Some(n) }
/// l are the entries of a directory
pub open spec fn listing(l: Seq<Result<DirEntry, AnyError>>, dir: Text, m: Files) -> bool {
    &&& forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Ok && l[i]->Ok_0.name() is Some ==> plain(l[i]->Ok_0.name()->0) && l[i]->Ok_0.path_s() == joined(dir, l[i]->Ok_0.name()->0)
    &&& (forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Ok) ==> forall|n: Text| plain(n) && #[trigger] m.dom().contains(joined(dir, n)) ==> names(l, n)
}
/// this entry is dealt with
pub open spec fn settled(x: Result<DirEntry, AnyError>, m: Files, dir: Text, slot: u64) -> bool {
    x is Ok && (x->Ok_0.name() is Some && name_slot(x->Ok_0.name()->0) is Some && name_slot(x->Ok_0.name()->0)->0 < slot ==> !m.dom().contains(joined(dir, x->Ok_0.name()->0)))
}
pub open spec fn partly(b: Files, p: Text, c: Seq<u8>, m: Files) -> bool { m == b || exists|k: int| 0 <= k <= c.len() && m == b.insert(p, #[trigger] c.take(k)) }
pub mod fs {
    use super::*;
    verus! {
    /// creates or replaces the file; interrupted or failing, it leaves any beginning of the content
    #[verifier::external_body]
    pub fn write<P: VPath, C: VBytes>(p: P, c: C, d: &mut VfDisk) -> (r: Result<(), AnyError>)
        requires forall|m: Files| partly(old(d).files(), p.path_s(), c.vbytes(), m) ==> #[trigger] old(d).allowed(m),
        ensures
            final(d).same_rule(*old(d)),
            match r { Ok(_) => final(d).files() == old(d).files().insert(p.path_s(), c.vbytes()), Err(_) => partly(old(d).files(), p.path_s(), c.vbytes(), final(d).files()) },
    { unimplemented!() }
    /// in one step
    #[verifier::external_body]
    pub fn rename<P: VPath, Q: VPath>(p: P, q: Q, d: &mut VfDisk) -> (r: Result<(), AnyError>)
        requires
            old(d).files().dom().contains(p.path_s()) ==> old(d).allowed(old(d).files().remove(p.path_s()).insert(q.path_s(), old(d).files()[p.path_s()])),
        ensures
            final(d).same_rule(*old(d)),
            match r { Ok(_) => old(d).files().dom().contains(p.path_s()) && final(d).files() == old(d).files().remove(p.path_s()).insert(q.path_s(), old(d).files()[p.path_s()]), Err(_) => final(d).files() == old(d).files() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file<P: VPath>(p: P, d: &mut VfDisk) -> (r: Result<(), AnyError>)
        requires old(d).allowed(old(d).files().remove(p.path_s())),
        ensures
            final(d).same_rule(*old(d)),
            match r { Ok(_) => final(d).files() == old(d).files().remove(p.path_s()), Err(_) => final(d).files() == old(d).files() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read<P: VPath>(p: P, d: &mut VfDisk) -> (r: Result<Vec<u8>, AnyError>)
        ensures *final(d) == *old(d), r is Ok ==> old(d).files().dom().contains(p.path_s()) && r->Ok_0@ == old(d).files()[p.path_s()],
    { unimplemented!() }
    /// every entry, unless an entry could not be read
    #[verifier::external_body]
    pub fn read_dir<P: VPath>(p: P, d: &mut VfDisk) -> (r: Result<VIter<Result<DirEntry, AnyError>>, AnyError>)
        ensures
            *final(d) == *old(d),
            r is Ok ==> listing(r->Ok_0@, p.path_s(), old(d).files()),
    { unimplemented!() }
    }
}

// ---- the store: the file of a slot's state ----
pub open spec fn suffix() -> Text { "_beacon_state.ssz"@ }
pub open spec fn state_name(slot: u64) -> Text { dec(slot) + suffix() }
pub open spec fn state_path(dir: Text, slot: u64) -> Text { joined(dir, state_name(slot)) }
/// what the store holds for a slot
pub open spec fn held(m: Files, dir: Text, slot: u64) -> Option<Seq<u8>> { if m.dom().contains(state_path(dir, slot)) { Some(m[state_path(dir, slot)]) } else { None } }
pub open spec fn same_store(a: Files, b: Files, dir: Text) -> bool { forall|k: u64| #[trigger] held(a, dir, k) == held(b, dir, k) }
pub open spec fn plus(a: Files, b: Files, dir: Text, s: BeaconState) -> bool {
    ssz_of(s) is Some && forall|k: u64| #[trigger] held(b, dir, k) == if k == slot_of(s) { ssz_of(s) } else { held(a, dir, k) }
}
/// only entries of this directory differ
pub open spec fn within(a: Files, b: Files, dir: Text) -> bool {
    forall|p: Text| #![trigger a.dom().contains(p)] #![trigger b.dom().contains(p)] (forall|n: Text| plain(n) ==> p != #[trigger] joined(dir, n)) ==> (a.dom().contains(p) == b.dom().contains(p) && (a.dom().contains(p) ==> a[p] == b[p]))
}
/// the number a file name begins with
pub open spec fn name_slot(n: Text) -> Option<u64> { undec(before(n, '_')) }
pub proof fn name_lemma(slot: u64)
    ensures name_slot(state_name(slot)) == Some(slot), plain(state_name(slot)), state_name(slot).last() == 'z',
{
    broadcast use axiom_dec;
    reveal_strlit("_beacon_state.ssz");
    let n = state_name(slot);
    before_cat(dec(slot), suffix(), '_');
    assert(n.len() == dec(slot).len() + 17);
    assert(n[n.len() - 1] == suffix()[16]);
    assert(!n.contains('/')) by { if n.contains('/') { let i = choose|i: int| 0 <= i < n.len() && n[i] == '/'; if i < dec(slot).len() { assert(n[i] == dec(slot)[i]); } else { assert(n[i] == suffix()[i - dec(slot).len()]); } } }
}
/// the names of the store's files: a number and more
pub proof fn plain_names(slot: u64)
    ensures forall|l: Text| l.len() > 0 && !l.contains('/') ==> #[trigger] plain(dec(slot) + l),
{
    broadcast use axiom_dec;
    assert forall|l: Text| l.len() > 0 && !l.contains('/') implies #[trigger] plain(dec(slot) + l) by {
        let n = dec(slot) + l;
        assert(n[0] == dec(slot)[0]);
        if n.contains('/') { let i = choose|i: int| 0 <= i < n.len() && n[i] == '/'; if i < dec(slot).len() { assert(n[i] == dec(slot)[i]); } else { assert(n[i] == l[i - dec(slot).len()]); assert(l.contains('/')); } }
    }
}
/// a name is the name of one slot's state at most, the one it begins with; names that end otherwise are no state's
pub proof fn names_apart(dir: Text)
    ensures
        forall|k: u64, n: Text| plain(n) && #[trigger] state_path(dir, k) == #[trigger] joined(dir, n) ==> n == state_name(k) && name_slot(n) == Some(k) && n.last() == 'z',
        forall|k: u64, n: Text| n == #[trigger] state_name(k) ==> #[trigger] joined(dir, n) == state_path(dir, k),
        forall|k: u64, j: u64| #[trigger] state_path(dir, k) == #[trigger] state_path(dir, j) ==> k == j,
        forall|k: u64| #![trigger state_name(k)] plain(state_name(k)) && name_slot(state_name(k)) == Some(k),
{
    assert forall|k: u64| #![trigger state_name(k)] plain(state_name(k)) && name_slot(state_name(k)) == Some(k) by { name_lemma(k); }
    assert forall|k: u64, n: Text| plain(n) && #[trigger] state_path(dir, k) == #[trigger] joined(dir, n) implies n == state_name(k) && name_slot(n) == Some(k) && n.last() == 'z' by { name_lemma(k); axiom_joined(dir, state_name(k), n); }
    assert forall|k: u64, j: u64| #[trigger] state_path(dir, k) == #[trigger] state_path(dir, j) implies k == j by { name_lemma(k); name_lemma(j); axiom_joined(dir, state_name(k), state_name(j)); }
}
/// interrupted while it is saved
pub open spec fn while_saving(d: VfDisk, dir: Text, s: BeaconState) -> bool {
    forall|m: Files| within(d.files(), m, dir) && (same_store(d.files(), m, dir) || (held(d.files(), dir, slot_of(s)) is None && plus(d.files(), m, dir, s))) ==> #[trigger] d.allowed(m)
}
/// the states before a slot cleared, all or some
pub open spec fn cleared(a: Files, b: Files, dir: Text, slot: u64, all: bool) -> bool {
    &&& within(a, b, dir)
    &&& forall|k: u64| k >= slot ==> #[trigger] held(b, dir, k) == held(a, dir, k)
    &&& forall|k: u64| k < slot ==> (#[trigger] held(b, dir, k) is None || (!all && held(b, dir, k) == held(a, dir, k)))
}
pub proof fn clear_step(a: Files, b: Files, dir: Text, slot: u64, n: Text)
    requires cleared(a, b, dir, slot, false), plain(n), name_slot(n) is Some, name_slot(n)->0 < slot,
    ensures cleared(a, b.remove(joined(dir, n)), dir, slot, false),
{
    let c = b.remove(joined(dir, n));
    names_apart(dir);
    assert forall|p: Text| (forall|m: Text| plain(m) ==> p != #[trigger] joined(dir, m)) implies c.dom().contains(p) == #[trigger] b.dom().contains(p) by { assert(p != joined(dir, n)); }
    assert forall|k: u64| k >= slot implies #[trigger] held(c, dir, k) == held(a, dir, k) by { assert(held(b, dir, k) == held(a, dir, k)); }
    assert forall|k: u64| k < slot implies (#[trigger] held(c, dir, k) is None || held(c, dir, k) == held(a, dir, k)) by { assert(held(b, dir, k) is None || held(b, dir, k) == held(a, dir, k)); }
}
pub proof fn clear_steps(a: Files, b: Files, dir: Text, slot: u64)
    requires cleared(a, b, dir, slot, false),
    ensures forall|n: Text| plain(n) && name_slot(n) is Some && name_slot(n)->0 < slot ==> cleared(a, #[trigger] b.remove(joined(dir, n)), dir, slot, false),
{ assert forall|n: Text| plain(n) && name_slot(n) is Some && name_slot(n)->0 < slot implies cleared(a, #[trigger] b.remove(joined(dir, n)), dir, slot, false) by { clear_step(a, b, dir, slot, n); } }
//@item host/src/state_provider/file_provider.rs | struct | FileProvider
impl<E: EthSpec> FileProvider<E> {
//@fn host/src/state_provider/file_provider.rs | FileProvider::new | {"extra_param": "vf_disk: &mut VfDisk", "ghost_methods": {"is_dir": "vf_disk"}, "types": {"implInto<PathBuf>": "impl VInto<PathBuf>"}}
//@requires
        true,
//@ensures
        *final(vf_disk) == *old(vf_disk),
        vr is Ok ==> vr->Ok_0.directory == directory.into_spec(),
//@end
//@fn host/src/state_provider/file_provider.rs | FileProvider::save_state | {"format": "cat", "extra_param": "vf_disk: &mut VfDisk", "ghost_methods": {"exists": "vf_disk"}, "extra_args": {"fs::write": "vf_disk", "fs::rename": "vf_disk", "fs::remove_file": "vf_disk"}}
//@requires
        while_saving(*old(vf_disk), self.directory@, *state),
//@ensures
        final(vf_disk).same_rule(*old(vf_disk)),
        within(old(vf_disk).files(), final(vf_disk).files(), self.directory@),
        match vr {
            Ok(_) => held(old(vf_disk).files(), self.directory@, slot_of(*state)) is None && plus(old(vf_disk).files(), final(vf_disk).files(), self.directory@, *state),
            Err(_) => same_store(old(vf_disk).files(), final(vf_disk).files(), self.directory@),
        },
//@begin
        broadcast use lemma_empty_add, axiom_ssz;
        proof { name_lemma(slot_of(*state)); plain_names(slot_of(*state)); names_apart(self.directory@); }
//@end
//@fn host/src/state_provider/file_provider.rs | FileProvider::clear_states_before | {"extra_param": "vf_disk: &mut VfDisk", "extra_args": {"fs::read_dir": "vf_disk", "fs::remove_file": "vf_disk"}, "methods": {"and_then": "vf_and_then"}}
//@requires
        forall|m: Files| cleared(old(vf_disk).files(), m, self.directory@, sat(epoch.v * spe::<E>()) as u64, false) ==> #[trigger] old(vf_disk).allowed(m),
//@ensures
        final(vf_disk).same_rule(*old(vf_disk)),
        cleared(old(vf_disk).files(), final(vf_disk).files(), self.directory@, sat(epoch.v * spe::<E>()) as u64, vr is Ok),
//@closure 0
        |$0: &VStr| -> (r: Option<Slot>) ensures r == Slot::parsed($0@)
//@begin
        proof { names_apart(self.directory@); }
        let ghost bound = sat(epoch.v * spe::<E>()) as u64;
//@loop 0
        invariant
            bound == sat(epoch.v * spe::<E>()), slot.v == bound,
            vf_disk.same_rule(*old(vf_disk)),
            cleared(old(vf_disk).files(), vf_disk.files(), self.directory@, bound, false),
            forall|p: Text| #[trigger] vf_disk.files().dom().contains(p) ==> old(vf_disk).files().dom().contains(p),
            listing(it.seq(), self.directory@, old(vf_disk).files()),
            forall|i: int| 0 <= i < it.index@ ==> settled(#[trigger] it.seq()[i], vf_disk.files(), self.directory@, bound),
//@loop-begin 0
            let ghost cur = it.seq()[it.index@];
            proof { clear_steps(old(vf_disk).files(), vf_disk.files(), self.directory@, bound); }
//@loop-end 0
            proof {
                assert(settled(cur, vf_disk.files(), self.directory@, bound));
            }
//@end
//@fn host/src/state_provider/file_provider.rs | StateProvider for FileProvider::state_at_slot | {"format": "cat", "extra_param": "vf_disk: &mut VfDisk", "ghost_methods": {"exists": "vf_disk"}, "extra_args": {"fs::read": "vf_disk"}, "vis": "pub "}
//@ensures
        *final(vf_disk) == *old(vf_disk),
        match vr {
            Ok(s) => held(old(vf_disk).files(), self.directory@, slot.v) is Some && unssz(held(old(vf_disk).files(), self.directory@, slot.v)->0) == Some(s.s),
            Err(StateProviderError::NotFound(k)) => k == slot && held(old(vf_disk).files(), self.directory@, slot.v) is None,
            Err(_) => held(old(vf_disk).files(), self.directory@, slot.v) is Some,
        },
//@begin
        broadcast use lemma_empty_add, axiom_other;
        proof { name_lemma(slot.v); names_apart(self.directory@); }
//@end
}

// ---- answers from the store, else from the node, which the store then keeps ----
#[verifier::external_body]
pub struct BeaconClient { x: u8 }
impl BeaconClient {
    /// the node sent state s for the state identifier id. Nothing is assumed about what it sends
    pub uninterp spec fn sent(&self, id: Text, s: BeaconState) -> bool;
    #[verifier::external_body]
    pub fn get_beacon_state<D: VDisplay>(&self, id: D) -> (r: Result<BeaconState, AnyError>) ensures r is Ok ==> self.sent(id.shown(), r->Ok_0) { unimplemented!() }
}
pub struct Handle;
impl Handle {
    pub fn current() -> Handle { Handle }
    pub fn block_on<T>(&self, x: T) -> (r: T) ensures r == x { x }
}
pub fn vf_block_in_place<R, F: FnOnce() -> R>(f: F) -> (r: R) requires call_requires(f, ()), ensures call_ensures(f, (), r) { f() }
//@item host/src/state_provider/persistant_api_provider.rs | struct | PersistentApiStateProvider
impl<E: EthSpec> PersistentApiStateProvider<E> {
//@fn host/src/state_provider/persistant_api_provider.rs | PersistentApiStateProvider::new | {"extra_param": "vf_disk: &mut VfDisk", "extra_args": {"FileProvider::new": "vf_disk"}, "types": {"implInto<PathBuf>": "impl VInto<PathBuf>"}}
//@ensures
        *final(vf_disk) == *old(vf_disk),
        vr is Ok ==> vr->Ok_0.file_provider.directory == dir.into_spec() && vr->Ok_0.client == client,
//@end
//@fn host/src/state_provider/persistant_api_provider.rs | PersistentApiStateProvider::clear_states_before | {"extra_param": "vf_disk: &mut VfDisk", "ghost_methods": {"clear_states_before": "vf_disk"}}
//@requires
        forall|m: Files| cleared(old(vf_disk).files(), m, self.file_provider.directory@, sat(epoch.v * spe::<E>()) as u64, false) ==> #[trigger] old(vf_disk).allowed(m),
//@ensures
        final(vf_disk).same_rule(*old(vf_disk)),
        cleared(old(vf_disk).files(), final(vf_disk).files(), self.file_provider.directory@, sat(epoch.v * spe::<E>()) as u64, vr is Ok),
//@end
//@fn host/src/state_provider/persistant_api_provider.rs | StateProvider for PersistentApiStateProvider::state_at_slot | {"extra_param": "vf_disk: &mut VfDisk", "ghost_methods": {"state_at_slot": "vf_disk", "save_state": "vf_disk"}, "vis": "pub ", "paths": {"tokio::task::block_in_place": "vf_block_in_place"}}
//@requires
        forall|s: BeaconState| self.client.sent(slot.shown(), s) ==> #[trigger] while_saving(*old(vf_disk), self.file_provider.directory@, s),
//@ensures
        final(vf_disk).same_rule(*old(vf_disk)),
        within(old(vf_disk).files(), final(vf_disk).files(), self.file_provider.directory@),
        match vr {
            Ok(s) => match held(old(vf_disk).files(), self.file_provider.directory@, slot.v) {
                Some(b) => unssz(b) == Some(s.s) && final(vf_disk).files() == old(vf_disk).files(),
                None => self.client.sent(slot.shown(), s.s) && held(old(vf_disk).files(), self.file_provider.directory@, slot_of(s.s)) is None && plus(old(vf_disk).files(), final(vf_disk).files(), self.file_provider.directory@, s.s),
            },
            Err(_) => same_store(old(vf_disk).files(), final(vf_disk).files(), self.file_provider.directory@),
        },
//@closure 0
        || -> (r: Result<BeaconState, AnyError>) ensures r is Ok ==> self.client.sent(slot.shown(), r->Ok_0)
//@end
}
} // verus!
