// Validator records (core/src/lib.rs).
verus! {
//@item core/src/lib.rs | struct | ValidatorInfo
pub trait VAsRef<T> { spec fn ref_s(&self) -> T; fn vf_as_ref(&self) -> (r: &T) ensures *r == self.ref_s(); }
impl<'a, U, T: VAsRef<U>> VAsRef<U> for &'a T { open spec fn ref_s(&self) -> U { (**self).ref_s() } fn vf_as_ref(&self) -> (r: &U) { (**self).vf_as_ref() } }
impl VAsRef<ValidatorInfo> for ValidatorInfo {
    open spec fn ref_s(&self) -> ValidatorInfo { *self }
//@fn core/src/lib.rs | AsRef<ValidatorInfo> for ValidatorInfo::as_ref | {"rename": "vf_as_ref", "vis": ""}
//@end
}
pub open spec fn queue_eligible(v: ValidatorInfo, s: ChainSpec) -> bool { v.activation_eligibility_epoch == s.far_future_epoch && v.effective_balance >= s.min_activation_balance }
pub open spec fn activation_eligible(v: ValidatorInfo, s: ChainSpec, fin: Epoch) -> bool { v.activation_eligibility_epoch.v <= fin.v && v.activation_epoch == s.far_future_epoch }
pub open spec fn active_at(v: ValidatorInfo, e: Epoch) -> bool { v.activation_epoch.v <= e.v && e.v < v.exit_epoch.v }
impl ValidatorInfo {
//@fn core/src/lib.rs | ValidatorInfo::is_eligible_for_activation_queue
//@ensures
        vr == queue_eligible(*self, *spec),
//@end
//@fn core/src/lib.rs | ValidatorInfo::is_eligible_for_activation
//@ensures
        vr == activation_eligible(*self, *spec, finalized_checkpoint_epoch),
//@end
//@fn core/src/lib.rs | ValidatorInfo::is_active_at
//@ensures
        vr == active_at(*self, epoch),
//@end
}
} // verus!
