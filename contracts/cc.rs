// Committees and attesting indices: C12, C13.
//@include base
//@include iter
//@include core
//@include chain
//@include coll
//@config {"methods": {"iter": "vf_iter", "into_iter": "vf_into_iter", "get": "vf_get", "into": "vf_into", "to_string": "vf_to_string", "then_some": "vf_then_some", "peek": "vf_peek"}, "paths": {"<_>::default": "VDefault::vdefault"}}
//@props C12: get_attesting_indices; CommitteeCache::get_beacon_committee; CommitteeCache::get_committee_count_per_slot
//@props C13: CommitteeCache::initialized; CommitteeCache::is_initialized_at; CommitteeCache::shuffling; CommitteeCache::get_beacon_committee; CommitteeCache::get_beacon_committees_at_slot; CommitteeCache::active_validator_count; CommitteeCache::epoch_committee_count; CommitteeCache::get_committee_count_per_slot; CommitteeCache::compute_committee; CommitteeCache::compute_committee_range; CommitteeCache::shuffled_position
//@props C11: get_attesting_indices
//@include cc
//@include at
fn main() {}
