#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays readable)."""
import json, os
MP="ssz-multiproofs/src/multiproof.rs"; BU="ssz-multiproofs/src/builder.rs"
CS="core/src/consensus_state.rs"; VE="core/src/verify.rs"; AT="core/src/attestation.rs"
CC="core/src/committee_cache.rs"; IR="core/src/input_reader.rs"; GR="core/src/input_reader/guest_input_reader.rs"
SP="core/src/state_patch.rs"; AB="core/src/abi.rs"; CF="core/src/config.rs"; LB="core/src/lib.rs"; GI="core/src/guest_gindices.rs"
SU="core/src/serde_utils.rs"; ME="methods/guest/src/lib.rs"; BL="core/src/bls.rs"
HI="host/src/input_reader/host_input_reader.rs"; HP="host/src/state_patch_builder.rs"; PF="host/src/input_reader/preflight_input_reader.rs"
FPR="host/src/state_provider/file_provider.rs"; PAP="host/src/state_provider/persistant_api_provider.rs"
P=[]
def p(id,title,st,text,why,files,mech,over=("inputs",),state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","A multiproof root commits to one full tree and all its leaves",
 "Computing the root of a multiproof yields a value only if the shape bits (0 = inner node, 1 = leaf, pre-order) encode exactly one full binary tree with at least one inner node and there is a 32-byte chunk for every leaf; the value is then the SHA-256 Merkle root of that tree over the chunks taken left to right, and for every such input it is produced, whatever depth hint the proof carries. Every other shape or a missing chunk is rejected (error or panic), never answered with a root. Verification against a root succeeds exactly when this computed root equals it.",
 "every data buffer, every shape bit string of any length, every expected root",
 "The only runnable test iterates the indices of one fixed 11-bit shape and computes no root; soundness is a statement about every shape a prover can send.",
 [MP],[("calculate_compact_multi_merkle_root",MP),("Multiproof::calculate_root",MP),("Multiproof::verify",MP)],
 state=[("descriptor","pre-order shape bits",MP),("data","32-byte chunks of the leaves",MP)],obs=["Multiproof::verify","Multiproof::calculate_root"],
 hook="constructing a multiproof from arbitrary private fields")
p("C02","Every proof node carries the generalized index of its tree position",
 "For a shape that encodes a full binary tree, enumerating a multiproof's nodes yields, in left-to-right order, each leaf chunk together with the generalized index of its position (root 1, children of g are 2g and 2g+1). A shape in which a node's index does not fit 64 bits must not produce a wrapped, aliasing index in any build profile: enumeration is rejected instead.",
 "every well-formed shape of every depth, every data buffer, debug and release arithmetic",
 "The single existing test covers one shape of depth 5; index aliasing needs a shape deeper than 63 in a build without overflow checks.",
 [MP],[("GIndexIterator::next",MP),("Multiproof::nodes",MP)],state=[("stack/current_gindex","path of the traversal",MP)],obs=["Multiproof::nodes"],hook="constructing a multiproof from arbitrary private fields")
p("C03","Values are exactly the masked nodes, in order, and lookup is exact",
 "The values of a multiproof are exactly the nodes whose mask bit is 1, each with its own index and chunk, in proof order, nothing skipped, repeated or invented. Looking up an index returns the chunk of the first value with that index and nothing if there is none. Reading the next value at an expected index succeeds only if a value remains and it has that index, returns that value's chunk, consumes exactly one value, and otherwise reports a missing value or an index mismatch.",
 "every multiproof (data, mask, shape), every queried index, every sequence of reads",
 "No runnable test reads a value; the combinations of mask, shape and read order are unbounded.",
 [MP],[("Multiproof::values",MP),("Multiproof::get",MP),("ValueIterator::next_assert_gindex",MP),("ValueIterator::next",MP)],obs=["Multiproof::values","Multiproof::get"],hook="constructing a multiproof from arbitrary private fields")
p("C04","A built multiproof verifies and yields exactly the requested indices",
 "For every non-empty set of generalized indices greater than 1, none an ancestor of another, the builder's proof is minimal and well-formed: its nodes are exactly the requested indices plus the siblings needed to reach the root, in depth-first left-to-right order, each carrying the container's chunk at that index; its shape bits encode exactly that tree. Such a proof verifies against the container's root and its values are exactly the requested indices, each once.",
 "every antichain of generalized indices, every container, any registration order",
 "The builder's tests need dependencies that are not available and sample three single-index proofs; ordering and helper selection must be right for every set.",
 [BU,MP],[("compute_proof_indices_and_value_mask",BU),("cmp_binary_lexicographically",BU),("compute_proof_descriptor",BU),("get_branch_indices",BU),("get_path_indices",BU),("MultiproofBuilder::build",BU)],obs=["MultiproofBuilder::build"],hook="calling the private helper functions of the builder")
p("C05","The multiproof round-trips through serialization",
 "Serializing a multiproof in the binary encoding used for guest input and deserializing the result succeeds and gives an equal multiproof: the same chunks, mask, shape and hint. Multiproofs that differ in any of these four are not equal.",
 "every multiproof","A derived or hand-written encoding has to keep every field for every value; the tests that exercise it sample a few proofs.",[MP],[("derive(Serialize, Deserialize) for Multiproof",MP)])
p("C06","The finality state machine follows the two Casper FFG rules and nothing else",
 "Applying a link to a valid consensus state succeeds exactly when the link's source is the current justified checkpoint (epoch and root) and its target epoch is later; the target becomes the justified checkpoint, and the source becomes finalized exactly when the target is the very next epoch, otherwise the finalized checkpoint is unchanged. The result is again a valid state (finalized epoch before justified epoch), checkpoints never move backwards, and every other link is refused with an error and no new state.",
 "every valid state and every link, over all 64-bit epochs and 32-byte roots","The unit tests sample 12 states with small epochs and zero roots and never run here.",
 [CS,LB],[("ConsensusState::state_transition",CS),("ConsensusState::is_valid",CS)],over=("inputs","histories"),state=[("current_justified_checkpoint, finalized_checkpoint","the finality state",CS)],obs=["ConsensusState::state_transition"])
p("C07","Reconstructing a link inverts applying it",
 "For valid states, the reconstructed link between two states is a link whose application to the first gives exactly the second; if a link application leads from the first to the second then it is that link that is reconstructed; equal states give no link. Pairs that no single link connects are reported as errors, never as a link or as 'no change'.",
 "every pair of valid states and every link","The tests check the inverse on a handful of recorded mainnet pairs and never run here.",
 [CS,LB],[("ConsensusState::transition_link",CS),("ConsensusState::less_or_equal",CS),("Checkpoint::less_or_equal",LB)],obs=["ConsensusState::transition_link"])
p("C08","A link is accepted only with a true supermajority of unslashed stake",
 "An otherwise valid link advances the state exactly when the effective balance of the distinct, unslashed validators that attested to it, times the configured quotient, is at least the total active balance of the target epoch times the configured factor, and that balance is also at least two thirds of the total; the comparison never wraps or rounds, and a balance too large for it is an error. Each validator counts once however many attestations it appears in, slashed validators count nothing, attestations for other links count nothing, and the shipped configurations require more than two thirds.",
 "every validator set, every multiset of attestations, every configuration and balance","Existing tests need beacon-chain harness dependencies that are not available; boundary balances, duplicates across attestations and slashed members are combinations they do not sample.",
 [VE,IR,CF],[("verify",VE),("get_total_balance",IR),("DEFAULT_CONFIG, SEPOLIA_CONFIG",CF)],obs=["verify"],hook="in-memory input reader")
p("C09","Verification advances through chained links to exactly one new finalization",
 "A successful verification starts from the input's consensus state and applies, in order, the link of each consecutive group of attestations sharing source and target, every one of which passed all link, attestation and stake checks against its own target epoch. It succeeds only if the finalized checkpoint changes, and does so at the last group; the returned state is the result of those applications and the returned slot is the one recorded for the newly finalized block root. Otherwise it fails, with no state returned.",
 "every input: every sequence of attestation groups and starting state","No runnable test calls verification; the property is about every sequence of links.",
 [VE],[("verify",VE)],over=("inputs","histories"),obs=["verify"],hook="in-memory input reader")
p("C10","Only links inside the supported forks and the look-ahead window are processed",
 "A link is processed only if the fork active at its target epoch lies between the configured minimum and maximum (both included) and its target epoch is at most the configured limit ahead of the finalized checkpoint the verification started from. Both boundaries are accepted, everything beyond them is refused with an error, and no target epoch wraps around the comparison.",
 "every configuration, fork schedule, trusted checkpoint and target epoch","No runnable test exercises either boundary.",
 [VE,CF],[("validate_link",VE),("Config::is_supported_version",CF)],over=("inputs","configurations"),obs=["verify"],hook="calling the private link check")
p("C11","An attestation counts only with a valid signature of exactly its attesters",
 "An attestation contributes only if it is of the current format, its slot lies in its target epoch, its committee index field is zero, it has at least one attester, every attester is an active validator of the target epoch, and its aggregate signature verifies under the public keys of exactly those attesters, over exactly this attestation data, in the attester domain of the fork at the target epoch and of the trusted genesis validators root. The validators credited are exactly those attesters.",
 "every attestation, validator set, fork schedule and signature","Signature, domain and membership handling are only tested end to end with unavailable dependencies.",
 [VE],[("process_attestation",VE),("is_valid_indexed_attestation",VE)],obs=["verify"],hook="calling the private attestation checks")
p("C12","Attesting indices are exactly the set bits mapped through the committees",
 "The attesters of an attestation are exactly the validators at the positions whose aggregation bit is set in the concatenation, in ascending order, of the committees selected by its committee bits at its slot. An attestation that selects a committee beyond the committee count, selects a committee with no set bit, or whose bit list is shorter or longer than the selected committees together, is rejected.",
 "every aggregation and committee bit pattern, every committee layout","No runnable test; bit/offset pairing must hold for every layout.",
 [AT],[("get_attesting_indices",AT)],obs=["get_attesting_indices"])
p("C13","Committees partition the shuffled active validators of the epoch",
 "For an epoch the committees of all slots and indices, in order, are consecutive slices that together are exactly the shuffled active validator list for the epoch's seed: every active validator is in exactly one committee, committee k of n covering positions len*k/n up to len*(k+1)/n. A committee is only handed out for a slot of the initialized epoch and an index below the committee count; the position lookup of a validator is its index in the shuffled list, and nothing for others.",
 "every validator count, seed, committee count, slot and index","No runnable test; the slice arithmetic must be right for every count.",
 [CC,VE],[("CommitteeCache::initialized",CC),("get_beacon_committee",CC),("get_beacon_committees_at_slot",CC),("compute_committee",CC),("shuffled_position",CC),("compute_committees",VE)],obs=["CommitteeCache"])
p("C14","The committee seed is derived from the right randomness mix",
 "The seed for an epoch is SHA-256 of the four domain bytes, the epoch as eight little-endian bytes and the randomness mix supplied for that epoch's state at position (epoch + history length - seed look-ahead - 1) modulo the history length. If that arithmetic overflows, an error is returned; if the mix is missing the computation is rejected; committees for a target epoch always use that epoch's seed with the attester domain.",
 "every epoch, domain, specification and mix table","No runnable test computes a seed.",
 [IR,VE],[("get_seed",IR),("get_randao_mix",IR),("compute_committees",VE)],obs=["InputReader::get_seed"])
p("C15","Total balance is the exact sum, floored at one increment",
 "The total balance of a set of validators is the exact sum of their effective balances, or the effective-balance increment if that is larger; if the sum exceeds 64 bits an arithmetic error is returned instead of a wrapped value.",
 "every sequence of validators and every increment","No runnable test; overflow and the floor are corner cases.",
 [IR],[("get_total_balance",IR)],obs=["get_total_balance"])
p("C16","Trusted state fields are bound to the trusted block root",
 "A reader is built only if the block proof verifies against the trusted finalized root, the state proof against the state root proven in that block, and the validator proof against the validators root proven in that state. The genesis validators root, slot, fork, validators root, finalized epoch and earliest exit and consolidation epochs used are the little-endian or raw contents of the chunks at those fields' own generalized indices, each read once and with no value left over, and the proven fork must be the one the chain specification schedules for the state's epoch.",
 "every guest input, honest or adversarial","No runnable test builds a reader; the property is about every adversarial proof.",
 [GR,GI],[("GuestInput::into_reader",GR),("extract_beacon_block_multiproof",GR),("extract_beacon_state_multiproof",GR),("u64_from_chunk",GR),("gindex constants",GI)],obs=["GuestInput::into_reader"],hook="calling the private extraction functions")
p("C17","The validator registry is complete and field-exact",
 "The validator set extracted from a validator proof covers every index from zero up to the proven list length: each index is either proven already exited at the trusted epoch and left out, or entered with its proven effective balance, slashed flag and epochs and with a supplied public key whose compressed form equals the two proven key chunks. A skipped, repeated, reordered or surplus entry, a missing key, a bad flag chunk, or a length different from the number of entries is rejected.",
 "every validator proof and key list","No runnable test; completeness against adversarial proofs quantifies over all of them.",
 [GR,GI,BL],[("extract_validators_multiproof",GR),("has_compressed_chunks",BL),("bool_from_chunk",GR),("validator gindex functions",GI)],obs=["GuestInput::into_reader"],hook="calling the private extraction functions")
p("C18","Registry look-ahead performs exactly the per-epoch registry updates",
 "From the trusted state's epoch through the current justified epoch, both included, the reader applies for each epoch exactly the protocol's registry updates: a validator not yet queued with enough balance becomes eligible in the next epoch, and a validator eligible no later than the finalized epoch and not yet activated is given as activation epoch the current epoch plus one plus the seed look-ahead of the specification. The finalized epoch used is the proven one for every earlier epoch and the trusted checkpoint's for the last; no other field or validator changes.",
 "every registry, specification and epoch range","No runnable test; epoch-by-epoch order and boundaries matter only for particular registries.",
 [GR,LB],[("process_registry_updates",GR),("GuestInput::into_reader",GR),("ValidatorInfo::is_eligible_for_activation_queue",LB),("ValidatorInfo::is_eligible_for_activation",LB)],over=("inputs","histories"),obs=["InputReader::active_validators"],hook="calling the private update function")
p("C19","State patches can only add exits within the churn limit",
 "A patch set is accepted exactly when (allowances fitting 64 bits) no patch is older than the trusted epoch and every changed exit in a patch concerns a known validator whose exit epoch in the preceding epoch's patch, or else in the proven state, was still unset, is no earlier than the earliest exit epoch then allowed, and fits a budget of twice the per-epoch balance churn (allowance accumulating with each later exit epoch, consumed by each exit in exit-epoch order). Re-stating an exit already present in the preceding patch or in the proven state is free; violating sets are rejected, and an accepted set never lets more balance exit per patch than that budget.",
 "every patch set, registry and specification","No runnable test; adversarial patches are unbounded in number and arrangement.",
 [GR,SP],[("validate_state_patches",GR),("get_balance_churn_limit",GR)],obs=["GuestInput::into_reader"],hook="calling the private patch validation")
p("C20","The active set is the registry filtered by activity and patches",
 "The active validators at an epoch are, in ascending index order, exactly the registry entries with activation epoch at or before and exit epoch after it, minus those for which the epoch's patch records an exit at or before it; each comes with its own unmodified record. A patch can only remove validators, never add one, and a patch of another epoch has no effect.",
 "every registry, patch set and epoch","No runnable test queries the active set.",
 [GR,SP,LB],[("active_validators",GR),("StatePatch::is_active_validator",SP),("ValidatorInfo::is_active_at",LB),("randao_mix",GR)],obs=["InputReader::active_validators"])
p("C21","Public encodings are exact and invalid states decode to errors",
 "The ABI encoding of a consensus state is the four 32-byte words justified epoch, justified root, finalized epoch, finalized root, and of a journal the pre-state, the post-state and the finalized slot, epochs and slot as left-padded big-endian 64-bit numbers. Decoding inverts encoding for every valid state; bytes that are too short, or that encode a state violating the finality invariant, give an error and never a state or a panic.",
 "every state, journal and byte string","No runnable test; decoding is an on-chain trust boundary with unbounded inputs.",
 [AB,CS],[("Journal::new, Journal::encode",AB),("TryFrom<State> for ConsensusState",AB),("ConsensusState::abi_encode, abi_decode",CS)],obs=["ConsensusState::abi_decode","Journal::encode"])
p("C22","The finalized slot comes from a proof against that block's own root",
 "The slot reported for a block root is the slot field proven by a supplied block proof whose computed root is that block root; a root without such a proof gives an error.",
 "every list of slot proofs and every queried root","No runnable test builds a reader.",
 [GR,GI],[("GuestInput::into_reader",GR),("slot_for_block",GR)],obs=["InputReader::slot_for_block"],hook="reading a built reader")
p("C23","The guest publishes a journal only for a fully verified input",
 "The guest program commits public output exactly once and only after the input was turned into a reader and verified successfully; the committed bytes are the encoded journal of the input's own starting state, the verified resulting state and the verified finalized slot. The mainnet and Sepolia programs use their own network's chain specification, with a justification threshold of at least 85% on mainnet and above two thirds on Sepolia.",
 "every input frame","The guest runs only inside the zkVM toolchain, which is not available.",
 [ME,AB,"methods/guest/src/bin/mainnet.rs","methods/guest/src/bin/sepolia.rs"],[("entry",ME)],obs=["journal bytes"])
p("C24","Collected links form an unbroken chain to the next finalization",
 "Given the consensus states a beacon node reports at successive epoch starts, the host's collected links, applied in order to the initial state, lead through the reported states to the first reported state whose finalized checkpoint differs, which is the one returned; no link is missing, repeated or out of order, and the initial state is the first one after the trusted checkpoint that reports it finalized. If a step is not a single supported link or the trusted checkpoint is skipped, an error is returned.",
 "every sequence of states reported by the beacon node","Host tests need network access and unavailable dependencies.",
 [HI],[("get_justifications_until_new_finality",HI),("find_finalization_epoch",HI)],over=("inputs","histories"))
p("C25","Collected attestations are complete and grouped by link in chain order",
 "The attestations collected for a list of links are, for each link in list order, all attestations with that source and target contained in the blocks of the searched slot range, in block order, and no others. The searched range runs from the start of the earliest target epoch to the first slot after the latest one, and a block of an unsupported format is an error.",
 "every list of links and every content of the blocks","Host tests need network access and unavailable dependencies.",
 [HI],[("collect_attestations_for_links",HI)])
p("C26","State patches record exactly the exits and mixes of the future state",
 "A state patch built from a state relative to the trusted registry contains the exit epoch of exactly those validators whose exit epoch differs from the trusted one, and for each requested position the state's randomness mix at that position; a position outside the mix table is an error.",
 "every pair of registries and every requested position","Host tests need unavailable dependencies.",
 [HP],[("StatePatchBuilder::validator_diff",HP),("StatePatchBuilder::randao_mix",HP)])
p("C27","Preflight input carries exactly what was queried",
 "The input preflight produces for the guest proves, against the trusted block root, that block's state root; against that state root, the state's genesis validators root, slot, three fork fields, validators root, finalized epoch and the two earliest-epoch fields; and against that validators root, the registry's length and for each validator its exit epoch alone if it had exited by the trusted epoch, else also its key, balance, slashed flag and activation epochs. It carries the keys of exactly the validators not exited, in order. It has a patch for exactly the epochs whose mixes, or (other than the trusted epoch's) whose validators, were queried: exactly the queried mixes of that epoch's state and, where validators were queried, exactly the exits that differ from the trusted registry. It has a slot proof for exactly the blocks whose slot was queried, each against the block's root, and the host reader's start state and attestations. The answers during preflight are the host reader's. What cannot be proven gives an error and no input.",
 "every beacon state, host reader, chain and sequence of queries","Needs full beacon states and network-backed providers; preflight is only run by hand.",
 [PF],[("PreflightInputReader::to_input",PF),("InputReader for PreflightInputReader",PF),("build_state_multiproof",PF)],over=("inputs","histories"))
p("C28","The host reader answers from the beacon state of the queried epoch",
 "Every answer of the host reader, cached or not, comes from a state its provider returns for the first slot of the queried epoch: the validators of that state's registry active at the epoch, each once and in ascending order with its decoded key; that state's fork; and that state's randomness mix at the position, or none beyond the mix table. The slot of a block is that of the header the beacon node returns for its root, and a checkpoint gives the state of its epoch only if that state's newest block is the checkpoint's root. A missing state or header gives an error.",
 "every collection of states and headers and every sequence of queries","Host tests need network access and unavailable dependencies.",
 [HI,"host/src/state_provider/cache_provider.rs","host/src/state_provider.rs"],[("InputReader for HostInputReader",HI),("CacheStateProvider",  "host/src/state_provider/cache_provider.rs"),("StateProvider::state_at_epoch_boundary, state_at_checkpoint","host/src/state_provider.rs")],over=("inputs","histories"))
p("C29","The guest input the host writes is the one the guest reads",
 "Encoding a guest input in the binary format used between host and guest and decoding the bytes gives an input with the same three proofs and the same slot proofs in the same order (each with the same chunks, mask, shape and hint), the same public keys in the same order, the same patches under the same epochs with the same randomness mixes and exit epochs, the same starting consensus state, and the same attestations, of either format, in the same order. Nothing is lost, added, exchanged or altered, whatever the values: epochs and indices up to the maximum, empty collections, repeated keys.",
 "every guest input","Most fields have conversions of their own; the one test that encodes an input needs unavailable dependencies and samples a single input without attestations or slot proofs.",
 [GR,SU,LB,CS,SP,MP],[("derive(Serialize, Deserialize) for GuestInput",GR),("SerializeAs and DeserializeAs conversions",SU),("Serialize, Deserialize for Checkpoint",LB),("derive(Serialize, Deserialize) for ConsensusState",CS),("derive(Serialize, Deserialize) for StatePatch",SP),("derive(Serialize, Deserialize) for Multiproof",MP)],obs=["bincode::serialize, bincode::deserialize of GuestInput"])
p("C30","The store of beacon states returns what was saved, whatever interrupts it",
 "After a state has been saved, asking the store for its slot gives an equal state, until it is cleared; a slot without a saved state is reported as not found, never answered by another slot's state. A second save for a slot that has a state is refused and changes nothing. A save that fails or is interrupted at any point (an error, a full disk, the process ending) leaves the store answering as before, or as after the complete save: never a truncated or unreadable state under the slot. Clearing before an epoch removes exactly the states of slots before that epoch's first slot and leaves every other state readable. A provider backed by a node answers from the store where it has the slot; otherwise it gives the node's state for the slot, having saved it; if the node or the save fails, that is an error.",
 "every state, every history of saves, reads and clears, every point at which a save ends early","The repository tests none of the providers with a store on disk; partial writes need a fault at a particular point.",
 [FPR,PAP],[("FileProvider::save_state",FPR),("FileProvider::state_at_slot",FPR),("FileProvider::clear_states_before",FPR),("PersistentApiStateProvider::state_at_slot",PAP),("PersistentApiStateProvider::clear_states_before",PAP)],over=("inputs","histories","crash_points"),
 state=[("<slot>_beacon_state.ssz","the saved state of a slot",FPR)],obs=["StateProvider::state_at_slot"])
P.sort(key=lambda x:x["id"])
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
