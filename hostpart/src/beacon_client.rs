//! Stand-in: there is no network.
use crate::ChainReader;
use ethereum_consensus::{electra::mainnet::SignedBeaconBlockHeader, types::mainnet::BeaconBlock};
use std::fmt::Display;
use z_core::ConsensusState;
use crate::mainnet::BeaconState;
use std::{collections::BTreeMap, sync::{Arc, Mutex}};
/// What it answers for a state identifier, and what it was asked.
#[derive(Clone, Default)]
pub struct BeaconClient { pub states: Arc<Mutex<BTreeMap<String, BeaconState>>>, pub asked: Arc<Mutex<Vec<String>>> }
impl BeaconClient {
    pub async fn get_beacon_state(&self, id: impl Display) -> Result<BeaconState, anyhow::Error> {
        let id = id.to_string();
        self.asked.lock().unwrap().push(id.clone());
        self.states.lock().unwrap().get(&id).cloned().ok_or_else(|| anyhow::anyhow!("no state {id}"))
    }
}
impl ChainReader for BeaconClient {
    async fn get_block_header(&self, _: impl Display) -> Result<Option<SignedBeaconBlockHeader>, anyhow::Error> { anyhow::bail!("no network") }
    async fn get_block(&self, _: impl Display) -> Result<Option<BeaconBlock>, anyhow::Error> { anyhow::bail!("no network") }
    async fn get_consensus_state(&self, _: impl Display) -> Result<ConsensusState, anyhow::Error> { anyhow::bail!("no network") }
}
