//! The host's readers, providers and patch builder: the sources of /repo/host around stand-ins for the network client
//! and the fork-specific beacon state types.
mod beacon_client;
mod beacon_state;
mod chain_reader;
mod conversions;
mod input_reader;
mod state_patch_builder;
mod state_provider;

pub use beacon_client::*;
pub use beacon_state::*;
pub use chain_reader::*;
pub use input_reader::*;
pub use state_patch_builder::*;
pub use state_provider::*;
