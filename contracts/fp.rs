// The store of beacon states: C30.
//@include base
//@include iter
//@include core
//@include chain
//@config {"methods": {"into": "vf_into", "context": "vf_context", "with_context": "vf_context"}, "drop_args": ["context", "with_context"], "paths": {"Slot::from": "vf_slot_from"}}
//@props C30: FileProvider::new; FileProvider::save_state; FileProvider::clear_states_before; StateProvider for FileProvider::state_at_slot
//@props C30: PersistentApiStateProvider::new; PersistentApiStateProvider::clear_states_before; StateProvider for PersistentApiStateProvider::state_at_slot
//@include fp
fn main() {}
