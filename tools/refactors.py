#!/usr/bin/env python3
"""Developer tool: behaviour-preserving edits; the checks named must stay quiet on each.
  refactors.py [NAME...]     runs them on scratch copies.  No check uses this."""
import os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MP, VF, CC, CS, AT, GR, SP, LB, AB, EN = ("ssz-multiproofs/src/multiproof.rs", "core/src/verify.rs", "core/src/committee_cache.rs", "core/src/consensus_state.rs", "core/src/attestation.rs",
    "core/src/input_reader/guest_input_reader.rs", "core/src/state_patch.rs", "core/src/lib.rs", "core/src/abi.rs", "methods/guest/src/lib.rs")
IR, GG = "core/src/input_reader.rs", "core/src/guest_gindices.rs"
R = []
def r(name, props, f, *pairs): R.append((name, props.split(), f, pairs))

r("mp-helper", "C01", MP, ("""                match left {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
""", """                absorb(&mut hasher, left)?;
                absorb(&mut hasher, right)?;
"""), ("/// Compute the root of a compact", """fn absorb(hasher: &mut Sha256, node: TreeNode<'_>) -> Result<()> {
    match node {
        TreeNode::Leaf(node) => hasher.update(node),
        TreeNode::Computed(node) => hasher.update(node),
        _ => return Err(Error::UnexpectedInternalNode),
    }
    Ok(())
}

/// Compute the root of a compact"""))
r("mp-while", "C01 C02", MP, ("""            while stack.len() >= 3
                && stack[stack.len() - 1].has_value()
                && stack[stack.len() - 2].has_value()
                && stack[stack.len() - 3].is_internal()
            {
                let right""", """            loop {
                let n = stack.len();
                if n < 3
                    || !stack[n - 1].has_value()
                    || !stack[n - 2].has_value()
                    || !stack[n - 3].is_internal()
                {
                    break;
                }
                let right"""))
r("mp-reorder", "C01", MP, ("""    let mut stack = Vec::with_capacity(stack_depth_hint.min(descriptor.len()));
    let mut node_index = 0;
    let mut hasher = Sha256::new();
""", """    let mut hasher = Sha256::new();
    let mut node_index = 0;
    let mut stack = Vec::with_capacity(stack_depth_hint.min(descriptor.len()));
"""))
r("mp-offset", "C01", MP, ("""            stack.push(TreeNode::Leaf(
                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
            ));
            node_index += 1;
""", """            let start = node_index * CHUNK_SIZE;
            let end = start + CHUNK_SIZE;
            stack.push(TreeNode::Leaf(&data[start..end]));
            node_index += 1;
"""))
r("mp-get", "C03", MP, ("""        self.values()
            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)
""", """        for (g, node) in self.values() {
            if g == gindex {
                return Some(node);
            }
        }
        None
"""))
r("mp-next", "C02 C03", MP, ("""            if !bit {
                self.stack.push(self.current_gindex);
                // a wrapped gindex would alias the gindex of a different node
                self.current_gindex = self
                    .current_gindex
                    .checked_mul(2)
                    .expect("gindex overflow");
            } else {
                let result = self.current_gindex;
                self.current_gindex = self.stack.pop()? * 2 + 1;
                return Some(result);
            }
""", """            if bit {
                let result = self.current_gindex;
                let parent = self.stack.pop()?;
                self.current_gindex = parent * 2 + 1;
                return Some(result);
            }
            self.stack.push(self.current_gindex);
            // a wrapped gindex would alias the gindex of a different node
            self.current_gindex = self
                .current_gindex
                .checked_mul(2)
                .expect("gindex overflow");
"""))
r("mp-verify", "C01", MP, ("""        if self.calculate_root()? == *root {
            Ok(())
        } else {
            Err(Error::RootMismatch)
        }
""", """        let computed = self.calculate_root()?;
        if computed != *root {
            return Err(Error::RootMismatch);
        }
        Ok(())
"""))
r("mp-assert-gindex", "C03", MP, ("""        let (g, node) = self.inner.next().ok_or(Error::MissingValue)?;
        if g == gindex {
            Ok(node)
        } else {
            Err(Error::GIndexMismatch {
                expected: gindex,
                actual: g,
            })
        }
""", """        match self.inner.next() {
            None => Err(Error::MissingValue),
            Some((g, node)) if g == gindex => Ok(node),
            Some((actual, _)) => Err(Error::GIndexMismatch {
                expected: gindex,
                actual,
            }),
        }
"""))
r("vf-balances", "C08", VF, ("""        let target_balance = get_total_balance(spec, unslashed_participating_validators)?;

        let total_active_balance = get_total_balance(spec, active_validators.values())?;
""", """        let total_active_balance = get_total_balance(spec, active_validators.values())?;
        let target_balance = get_total_balance(spec, unslashed_participating_validators)?;
"""))
r("vf-threshold-helper", "C08 C10", VF, ("""        ensure!(
            lhs >= rhs,
            VerifyError""", """        ensure!(
            reaches(lhs, rhs),
            VerifyError"""), ("/// Validates an attestation's link", """fn reaches(lhs: u128, rhs: u128) -> bool {
    lhs >= rhs
}

/// Validates an attestation's link"""))
r("vf-validators-loop", "C11", VF, ("""    let attesting_validators = attesting_indices
        .iter()
        .map(|i| {
            active_validators
                .get(i)
                .copied()
                .ok_or(VerifyError::MissingValidatorInfo(*i))
        })
        .collect::<Result<Vec<_>, _>>()?;
""", """    let mut attesting_validators = Vec::with_capacity(attesting_indices.len());
    for i in &attesting_indices {
        let validator = active_validators
            .get(i)
            .copied()
            .ok_or(VerifyError::MissingValidatorInfo(*i))?;
        attesting_validators.push(validator);
    }
"""))
r("vf-signature", "C11", VF, ("""    let domain = input_reader.chain_spec().get_domain(
        data.target.epoch,
        Domain::BeaconAttester,
        &input_reader
            .fork(data.target.epoch)
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?,
        input_reader
            .genesis_validators_root()
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?,
    );
""", """    let target_epoch = data.target.epoch;
    let fork = input_reader
        .fork(target_epoch)
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
    let genesis_validators_root = input_reader
        .genesis_validators_root()
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
    let domain = input_reader.chain_spec().get_domain(
        target_epoch,
        Domain::BeaconAttester,
        &fork,
        genesis_validators_root,
    );
"""))
r("vf-lookahead", "C10", VF, ("""    let lookahead = target_epoch.saturating_sub(trusted_checkpoint.epoch());
    ensure!(
        lookahead <= cfg.epoch_lookahead_limit,
        VerifyError::LookaheadExceedsLimit(lookahead, cfg.epoch_lookahead_limit)
    );

    Ok(())
""", """    let limit = cfg.epoch_lookahead_limit;
    let lookahead = target_epoch.saturating_sub(trusted_checkpoint.epoch());
    if lookahead > limit {
        return Err(VerifyError::LookaheadExceedsLimit(lookahead, limit));
    }

    Ok(())
"""))
r("vf-committees", "C14", VF, ("""    let domain = spec.get_domain_constant(Domain::BeaconAttester);
    let seed = input_reader
        .get_seed(epoch, domain.to_le_bytes().into())
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
    let indices: Vec<_> = active_validators.keys().copied().collect();
""", """    let indices: Vec<_> = active_validators.keys().copied().collect();
    let domain = spec.get_domain_constant(Domain::BeaconAttester).to_le_bytes();
    let seed = input_reader
        .get_seed(epoch, domain.into())
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
"""))
r("vf-link-once", "C09 C10", VF, ("""        let link = Link {
            source: (link.0).into(),
            target: (link.1).into(),
        };
""", """        let (source, target) = link;
        let link = Link {
            source: source.into(),
            target: target.into(),
        };
"""))
r("cc-positions", "C12 C13", CC, ("""        for (i, &v) in shuffling.iter().enumerate() {
            *shuffling_positions
                .get_mut(v)
                .ok_or(Error::ShuffleIndexOutOfBounds(v))? = NonZeroUsize::new(i + 1);
        }
""", """        for i in 0..shuffling.len() {
            let v = shuffling[i];
            *shuffling_positions
                .get_mut(v)
                .ok_or(Error::ShuffleIndexOutOfBounds(v))? = NonZeroUsize::new(i + 1);
        }
"""))
r("cc-committee", "C12", CC, ("""        self.shuffling.get(self.compute_committee_range(index)?)
""", """        let range = self.compute_committee_range(index)?;
        self.shuffling.get(range)
"""))
r("cc-beacon", "C12 C13", CC, ("""        ensure!(
            self.is_initialized_at(slot.epoch(E::slots_per_epoch())),
            Error::NotInitializedAtEpoch(slot.epoch(E::slots_per_epoch()))
        );
""", """        let epoch = slot.epoch(E::slots_per_epoch());
        if !self.is_initialized_at(epoch) {
            return Err(Error::NotInitializedAtEpoch(epoch));
        }
"""))
r("cs-transition", "C06", CS, ("""        if self.current_justified_checkpoint == source
            && target.epoch() == source.epoch().safe_add(1)?
        {
            return Ok(ConsensusState {
                finalized_checkpoint: source,
                current_justified_checkpoint: target,
            });
        }
""", """        let from_justified = source == self.current_justified_checkpoint;
        if from_justified && source.epoch().safe_add(1)? == target.epoch() {
            return Ok(ConsensusState {
                current_justified_checkpoint: target,
                finalized_checkpoint: source,
            });
        }
"""))
r("cs-link", "C07", CS, ("""        if other.finalized_checkpoint == self.current_justified_checkpoint
            && target.epoch() - other.finalized_checkpoint.epoch() == 1
        {
            return Ok(Some(Link {
                source: other.finalized_checkpoint,
                target,
            }));
        }
""", """        let finalized = other.finalized_checkpoint;
        if target.epoch() - finalized.epoch() == 1 && finalized == self.current_justified_checkpoint {
            let source = finalized;
            return Ok(Some(Link { source, target }));
        }
"""))
r("cs-match", "C06 C09", CS, ("""        if self.current_justified_checkpoint == source
            && target.epoch() == source.epoch().safe_add(1)?
        {
            return Ok(ConsensusState {
                finalized_checkpoint: source,
                current_justified_checkpoint: target,
            });
        }
""", """        if self.current_justified_checkpoint != source {
            return Err(ConsensusError::InvalidTransition);
        }
        if target.epoch() == source.epoch().safe_add(1)? {
            return Ok(ConsensusState {
                finalized_checkpoint: source,
                current_justified_checkpoint: target,
            });
        }
"""))
r("at-loop", "C11", AT, ("""        let mut committee_attesters = committee
            .iter()
            .enumerate()
            .filter_map(|(i, attester_index)| {
                attn.aggregation_bits
                    .get(committee_offset + i)
                    .expect("aggregation_bits access out of bounds")
                    .then_some(*attester_index)
            })
            .peekable();
        assert!(committee_attesters.peek().is_some(), "empty committee");
        attesting_indices.extend(committee_attesters);
""", """        let mut any = false;
        for (i, attester_index) in committee.iter().enumerate() {
            if attn
                .aggregation_bits
                .get(committee_offset + i)
                .expect("aggregation_bits access out of bounds")
            {
                any = true;
                attesting_indices.insert(*attester_index);
            }
        }
        assert!(any, "empty committee");
"""))
r("at-tail", "C11", AT, ("""    Ok(attesting_indices.into_iter().collect())
""", """    Ok(attesting_indices)
"""))
r("gr-advance", "C16 C18", GR, ("""        for epoch in state_epoch.as_u64()..=current_justified_epoch.as_u64() {
            let epoch = Epoch::from(epoch);
            // By definition, we know that the next finalization will happen at the
            // `current_justified_checkpoint`.
            let finalized_checkpoint_epoch = if epoch < current_justified_epoch {
                state.finalized_checkpoint_epoch
            } else {
                trusted_checkpoint.epoch()
            };

            process_registry_updates(&spec, &mut validators, finalized_checkpoint_epoch, epoch);
        }
""", """        advance_registry(
            &spec,
            &mut validators,
            state_epoch,
            current_justified_epoch,
            state.finalized_checkpoint_epoch,
            trusted_checkpoint.epoch(),
        );
"""), ("/// Updates the `Registry`, i.e.", """fn advance_registry(
    spec: &ChainSpec,
    validators: &mut BTreeMap<ValidatorIndex, ValidatorInfo>,
    from: Epoch,
    to: Epoch,
    finalized: Epoch,
    trusted: Epoch,
) {
    for epoch in from.as_u64()..=to.as_u64() {
        let epoch = Epoch::from(epoch);
        let finalized_checkpoint_epoch = if epoch < to { finalized } else { trusted };
        process_registry_updates(spec, validators, finalized_checkpoint_epoch, epoch);
    }
}

/// Updates the `Registry`, i.e."""))
r("gr-slots-first", "C16 C22", GR, ("""        // the state patches are unverified, but we have to perform some plausibility checks
        self.validate_state_patches(&spec, &trusted_checkpoint, &state, &validators)?;

""", ""), ("""        Ok(GuestInputReader {
            spec,
            genesis""", """        // the state patches are unverified, but we have to perform some plausibility checks
        self.validate_state_patches(&spec, &trusted_checkpoint, &state, &validators)?;

        Ok(GuestInputReader {
            spec,
            genesis"""))
r("gr-fin-epoch", "C18", GR, ("""            let finalized_checkpoint_epoch = if epoch < current_justified_epoch {
                state.finalized_checkpoint_epoch
            } else {
                trusted_checkpoint.epoch()
            };
""", """            let finalized_checkpoint_epoch = if epoch == current_justified_epoch {
                trusted_checkpoint.epoch()
            } else {
                state.finalized_checkpoint_epoch
            };
"""))
r("gr-patches", "C19", GR, ("""                exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
                earliest_exit_epoch = exit_epoch;

                // churn limit must be respected
                assert!(exit_balance_to_consume >= validator.effective_balance);
                exit_balance_to_consume -= validator.effective_balance;
""", """                let epochs = (exit_epoch - earliest_exit_epoch).as_u64();
                exit_balance_to_consume += epochs * churn;
                earliest_exit_epoch = exit_epoch;

                // churn limit must be respected
                let balance = validator.effective_balance;
                assert!(balance <= exit_balance_to_consume);
                exit_balance_to_consume = exit_balance_to_consume - balance;
"""))
r("gr-patches-if", "C19", GR, ("""                // ignore not changing patches
                if prev_exit_epoch == exit_epoch {
                    continue;
                }

                // exit_epoch must only change once
                assert_eq!(prev_exit_epoch, spec.far_future_epoch);

                // exit epoch must be in the future
                assert!(exit_epoch >= earliest_exit_epoch);
                exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
                earliest_exit_epoch = exit_epoch;

                // churn limit must be respected
                assert!(exit_balance_to_consume >= validator.effective_balance);
                exit_balance_to_consume -= validator.effective_balance;
""", """                // ignore not changing patches
                if prev_exit_epoch != exit_epoch {
                    // exit_epoch must only change once
                    assert_eq!(prev_exit_epoch, spec.far_future_epoch);

                    // exit epoch must be in the future
                    assert!(exit_epoch >= earliest_exit_epoch);
                    exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
                    earliest_exit_epoch = exit_epoch;

                    // churn limit must be respected
                    assert!(exit_balance_to_consume >= validator.effective_balance);
                    exit_balance_to_consume -= validator.effective_balance;
                }
"""))
r("gr-values", "C17", GR, ("""            let (gindex, slashed) = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
            assert_eq!(gindex, slashed_gindex(validator_index));
            let slashed = bool_from_chunk(slashed);

            let (gindex, activation_eligibility_epoch) =
                values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
            assert_eq!(gindex, activation_eligibility_epoch_gindex(validator_index));
            let activation_eligibility_epoch =
                u64_from_chunk::<Leftmost>(activation_eligibility_epoch);
""", """            let (gindex, slashed) = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
            assert_eq!(gindex, slashed_gindex(validator_index));
            let slashed = bool_from_chunk(slashed);

            let eligibility = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
            assert_eq!(eligibility.0, activation_eligibility_epoch_gindex(validator_index));
            let activation_eligibility_epoch = u64_from_chunk::<Leftmost>(eligibility.1);
"""))
r("gr-next-helper", "C17", GR, ("""            let (gindex, effective_balance) =
                values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
            assert_eq!(gindex, effective_balance_gindex(validator_index));
            let effective_balance = u64_from_chunk::<Leftmost>(effective_balance);
""", """            let effective_balance =
                u64_from_chunk::<Leftmost>(expect_value(&mut values, effective_balance_gindex(validator_index))?);
"""), ("/// Updates the `Registry`, i.e.", """fn expect_value<'a>(
    values: &mut impl Iterator<Item = (u64, &'a [u8; 32])>,
    expected: u64,
) -> Result<&'a [u8; 32], ssz_multiproofs::Error> {
    let (gindex, value) = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
    assert_eq!(gindex, expected);
    Ok(value)
}

/// Updates the `Registry`, i.e."""))
r("gr-registry-iter", "C18", GR, ("""    for validator in registry.values_mut() {
        // process""", """    for (_, validator) in registry.iter_mut() {
        // process"""))
r("gr-churn", "C19", GR, ("""    let churn = std::cmp::max(
        spec.min_per_epoch_churn_limit_electra,
        total_active_balance.safe_div(spec.churn_limit_quotient)?,
    );
""", """    let by_balance = total_active_balance.safe_div(spec.churn_limit_quotient)?;
    let churn = if by_balance > spec.min_per_epoch_churn_limit_electra {
        by_balance
    } else {
        spec.min_per_epoch_churn_limit_electra
    };
"""))
r("gr-bool", "C16 C17", GR, ("""    match node[0] {
        0 => false,
        1 => true,
        _ => panic!("Invalid boolean value: {}", node[0]),
    }
""", """    let first = node[0];
    assert!(first <= 1, "Invalid boolean value: {first}");
    first == 1
"""))
r("gr-active", "C20", GR, ("""            .map(|(idx, validator)| (*idx, validator))
            .filter(move |(idx, validator)| patch.is_active_validator(idx, validator, epoch)))
""", """            .filter(move |(idx, validator)| patch.is_active_validator(idx, validator, epoch))
            .map(|(idx, validator)| (*idx, validator)))
"""))
r("gr-mix", "C14", GR, ("""        let randao = patch.randao_mixes.get(&index);

        Ok(randao.cloned())
""", """        Ok(patch.randao_mixes.get(&index).copied())
"""))
r("gr-slot", "C22", GR, ("""        self.block_slots
            .get(root)
            .copied()
            .ok_or(GuestReaderError::ConfigError("Block slot not found"))
""", """        match self.block_slots.get(root) {
            Some(slot) => Ok(*slot),
            None => Err(GuestReaderError::ConfigError("Block slot not found")),
        }
"""))
r("sp-active", "C20", SP, ("""        match self.validator_exits.get(idx) {
            Some(exit_epoch) => epoch < *exit_epoch && validator.is_active_at(epoch),
            None => validator.is_active_at(epoch),
        }
""", """        if !validator.is_active_at(epoch) {
            return false;
        }
        match self.validator_exits.get(idx) {
            Some(exit_epoch) => epoch < *exit_epoch,
            None => true,
        }
"""))
r("lb-queue", "C18", LB, ("""        self.activation_eligibility_epoch == spec.far_future_epoch
            && self.effective_balance >= spec.min_activation_balance
""", """        let has_balance = self.effective_balance >= spec.min_activation_balance;
        has_balance && self.activation_eligibility_epoch == spec.far_future_epoch
"""))
r("cp-less", "C07", LB, ("""        self.epoch() < other.epoch() || self == other
""", """        if self == other {
            return true;
        }
        self.epoch() < other.epoch()
"""))
r("en-order", "C23", EN, ("""    let pre_state = state_reader.consensus_state().unwrap();
    let (post_state, finalized_slot) = verify(config, &state_reader).unwrap();
""", """    let verified = verify(config, &state_reader).unwrap();
    let pre_state = state_reader.consensus_state().unwrap();
    let (post_state, finalized_slot) = verified;
"""))
r("en-commit", "C23", EN, ("""    env::commit_slice(&journal.encode());
""", """    let encoded = journal.encode();
    env::commit_slice(&encoded);
"""))

# the multiproof crate, second set
BU = "ssz-multiproofs/src/builder.rs"
r("mp2-matches", "C01", MP, ("matches!(self, TreeNode::Leaf(_)) || matches!(self, TreeNode::Computed(_))", "matches!(self, TreeNode::Leaf(_) | TreeNode::Computed(_))"))
r("mp2-notinternal", "C01", MP, ("matches!(self, TreeNode::Leaf(_)) || matches!(self, TreeNode::Computed(_))", "!self.is_internal()"))
r("mp2-matchexpr", "C01", MP, ("        matches!(self, TreeNode::Internal)\n", "        match self {\n            TreeNode::Internal => true,\n            _ => false,\n        }\n"))
r("mp2-byvals", "C01", MP, ("    let mut hasher = Sha256::new();\n    for bit in descriptor.iter() {\n        if *bit {", "    let mut hasher = Sha256::new();\n    for bit in descriptor.iter().by_vals() {\n        if bit {"))
r("mp2-invert", "C01", MP, ("    let mut hasher = Sha256::new();\n    for bit in descriptor.iter() {\n        if *bit {", "    let mut hasher = Sha256::new();\n    for bit in descriptor.iter() {\n        if !*bit {\n            stack.push(TreeNode::Internal);\n        } else {"), ("                stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));\n            }\n        } else {\n            stack.push(TreeNode::Internal);\n        }", "                stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));\n            }\n        }"))
r("mp2-continue", "C01", MP, ("    let mut hasher = Sha256::new();\n    for bit in descriptor.iter() {\n        if *bit {", "    let mut hasher = Sha256::new();\n    for bit in descriptor.iter() {\n        if !*bit {\n            stack.push(TreeNode::Internal);\n            continue;\n        }\n        {"), ("                stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));\n            }\n        } else {\n            stack.push(TreeNode::Internal);\n        }", "                stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));\n            }\n        }"))
r("mp2-chunkvar", "C01", MP, ("            stack.push(TreeNode::Leaf(\n                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],\n            ));", "            let chunk = &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE];\n            stack.push(TreeNode::Leaf(chunk));"))
r("mp2-startlen", "C01", MP, ("&data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],", "&data[node_index * CHUNK_SIZE..][..CHUNK_SIZE],"))
r("mp2-offset", "C01", MP, ("    let mut node_index = 0;", "    let mut offset = 0;"), ("&data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],", "&data[offset..offset + CHUNK_SIZE],"), ("            node_index += 1;\n", "            offset += CHUNK_SIZE;\n"))
r("mp2-iter-chunks", "C01", MP, ("    let mut node_index = 0;", "    let mut chunks = data.chunks_exact(CHUNK_SIZE);"), ("            stack.push(TreeNode::Leaf(\n                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],\n            ));\n            node_index += 1;\n", "            stack.push(TreeNode::Leaf(chunks.next().expect(\"missing chunk\")));\n"))
r("mp2-chain", "C01", MP, ("""                match left {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
""", """                for node in [left, right] {
                    match node {
                        TreeNode::Leaf(node) => hasher.update(node),
                        TreeNode::Computed(node) => hasher.update(node),
                        _ => return Err(Error::UnexpectedInternalNode),
                    }
                }
"""))
r("mp2-final", "C01", MP, ("""    Ok(match stack.pop().unwrap() {
        TreeNode::Leaf(_) => return Err(Error::UnusedLeaves),
        TreeNode::Computed(node) => node,
        _ => return Err(Error::UnexpectedInternalNode),
    })
""", """    match stack.pop().unwrap() {
        TreeNode::Computed(node) => Ok(node),
        TreeNode::Leaf(_) => Err(Error::UnusedLeaves),
        TreeNode::Internal => Err(Error::UnexpectedInternalNode),
    }
"""))
r("mp2-lenvar", "C01", MP, ("""            while stack.len() >= 3
                && stack[stack.len() - 1].has_value()
                && stack[stack.len() - 2].has_value()
                && stack[stack.len() - 3].is_internal()
            {
                let right""", """            while can_reduce(&stack) {
                let right"""), ("/// Compute the root of a compact", """fn can_reduce(stack: &[TreeNode<'_>]) -> bool {
    let n = stack.len();
    n >= 3 && stack[n - 1].has_value() && stack[n - 2].has_value() && stack[n - 3].is_internal()
}

/// Compute the root of a compact"""))
r("mp2-gt2", "C01", MP, ("            while stack.len() >= 3\n", "            while stack.len() > 2\n"))
r("mp2-newstack", "C01", MP, ("    let mut stack = Vec::with_capacity(stack_depth_hint.min(descriptor.len()));\n", "    let mut stack: Vec<TreeNode<'_>> = Vec::with_capacity(stack_depth_hint.min(descriptor.len()));\n"))
r("mp2-rename", "C01", MP, ("    let mut node_index = 0;", "    let mut leaf = 0;"), ("&data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],", "&data[leaf * CHUNK_SIZE..(leaf + 1) * CHUNK_SIZE],"), ("            node_index += 1;\n", "            leaf += 1;\n"))
r("mp2-gix-helper", "C02", MP, ("                self.current_gindex = self\n                    .current_gindex\n                    .checked_mul(2)\n                    .expect(\"gindex overflow\");", "                self.current_gindex = left_child(self.current_gindex);"), ("impl Iterator for GIndexIterator<'_> {", "fn left_child(gindex: u64) -> u64 {\n    gindex.checked_mul(2).expect(\"gindex overflow\")\n}\n\nimpl Iterator for GIndexIterator<'_> {"))
r("mp2-gix-order", "C02", MP, ("            descriptor,\n            descriptor_index: 0,\n            current_gindex: 1,\n            stack: vec![1],", "            stack: vec![1],\n            current_gindex: 1,\n            descriptor_index: 0,\n            descriptor,"))
r("mp2-gix-get", "C02", MP, ("        while self.descriptor_index < self.descriptor.len() {\n            let bit = self.descriptor[self.descriptor_index];\n", "        while let Some(bit) = self.descriptor.get(self.descriptor_index).map(|b| *b) {\n"))
r("mp2-gix-swap", "C02", MP, ("                let result = self.current_gindex;\n                self.current_gindex = self.stack.pop()? * 2 + 1;\n                return Some(result);", "                let next = self.stack.pop()? * 2 + 1;\n                return Some(std::mem::replace(&mut self.current_gindex, next));"))
r("mp2-gix-or", "C02", MP, ("self.stack.pop()? * 2 + 1;", "(self.stack.pop()? << 1) | 1;"))
r("mp2-gix-invert", "C02", MP, ("            if !bit {\n                self.stack.push(self.current_gindex);", "            if bit {\n                let result = self.current_gindex;\n                self.current_gindex = self.stack.pop()? * 2 + 1;\n                return Some(result);\n            } else {\n                self.stack.push(self.current_gindex);"), ("                    .expect(\"gindex overflow\");\n            } else {\n                let result = self.current_gindex;\n                self.current_gindex = self.stack.pop()? * 2 + 1;\n                return Some(result);\n            }", "                    .expect(\"gindex overflow\");\n            }"))
r("mp2-nodes-inline", "C02", MP, ("            let array: &[u8; CHUNK_SIZE] = chunk.try_into().expect(\"Chunk size mismatch\");\n            array\n", "            <&[u8; CHUNK_SIZE]>::try_from(chunk).expect(\"Chunk size mismatch\")\n"))
r("mp2-nodes-var", "C02", MP, ("        GIndexIterator::new(&self.descriptor).zip(nodes)", "        let gindices = GIndexIterator::new(&self.descriptor);\n        gindices.zip(nodes)"))
r("mp2-values-filter", "C03", MP, ("                .filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),", "                .filter(|(_, is_value)| **is_value)\n                .map(|(node, _)| node),"))
r("mp2-values-then", "C03", MP, ("if *is_value { Some(node) } else { None }", "is_value.then_some(node)"))
r("mp2-values-var", "C03", MP, ("        ValueIterator::new(\n            self.nodes()\n                .zip(self.value_mask.iter())\n                .filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),\n        )", "        let masked = self.nodes().zip(self.value_mask.iter());\n        ValueIterator::new(masked.filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }))"))
r("mp2-get-findmap", "C03", MP, ("            .find(|(g, _)| *g == gindex)\n            .map(|(_, node)| node)", "            .find_map(|(g, node)| if g == gindex { Some(node) } else { None })"))
r("mp2-next-match", "C03", MP, ("        let (g, node) = self.inner.next().ok_or(Error::MissingValue)?;\n        if g == gindex {\n            Ok(node)\n        } else {\n            Err(Error::GIndexMismatch {\n                expected: gindex,\n                actual: g,\n            })\n        }", "        match self.inner.next() {\n            None => Err(Error::MissingValue),\n            Some((g, node)) if g == gindex => Ok(node),\n            Some((actual, _)) => Err(Error::GIndexMismatch {\n                expected: gindex,\n                actual,\n            }),\n        }"))
r("mp2-next-early", "C03", MP, ("        if g == gindex {\n            Ok(node)\n        } else {\n            Err(Error::GIndexMismatch {\n                expected: gindex,\n                actual: g,\n            })\n        }", "        if g != gindex {\n            return Err(Error::GIndexMismatch {\n                expected: gindex,\n                actual: g,\n            });\n        }\n        Ok(node)"))
r("mp2-field-order", "C01 C02 C03 C05", MP, ("    /// mask indicating which nodes are values (1) or proof supporting nodes (0)\n    pub(crate) value_mask: BitVec<u32, Lsb0>,\n\n", ""), ("    pub(crate) max_stack_depth: usize,\n}", "    pub(crate) max_stack_depth: usize,\n\n    /// mask indicating which nodes are values (1) or proof supporting nodes (0)\n    pub(crate) value_mask: BitVec<u32, Lsb0>,\n}"))
r("mp2-field-type", "C01 C02 C03 C05", MP, ("    pub(crate) value_mask: BitVec<u32, Lsb0>,\n", "    pub(crate) value_mask: Descriptor,\n"))
r("mp2-eq-hand", "C05", MP, ("#[derive(Clone, Debug, PartialEq, Default, serde::Deserialize, serde::Serialize)]", "#[derive(Clone, Debug, Default, serde::Deserialize, serde::Serialize)]"), ("impl Multiproof<'_> {", "impl PartialEq for Multiproof<'_> {\n    fn eq(&self, other: &Self) -> bool {\n        self.max_stack_depth == other.max_stack_depth\n            && self.descriptor == other.descriptor\n            && self.value_mask == other.value_mask\n            && self.data == other.data\n    }\n}\n\nimpl Multiproof<'_> {"))
r("bu2-bitwidth", "C04", BU, ("    let a_len = GeneralizedIndex::BITS - a.leading_zeros();\n    let b_len = GeneralizedIndex::BITS - b.leading_zeros();\n\n    let a_shifted = a << (GeneralizedIndex::BITS - a_len);\n    let b_shifted = b << (GeneralizedIndex::BITS - b_len);\n", "    let a_shifted = a << a.leading_zeros();\n    let b_shifted = b << b.leading_zeros();\n"), ("        std::cmp::Ordering::Equal => a_len.cmp(&b_len),", "        std::cmp::Ordering::Equal => b.leading_zeros().cmp(&a.leading_zeros()),"))
r("bu2-then", "C04", BU, ("    match a_shifted.cmp(&b_shifted) {\n        std::cmp::Ordering::Equal => a_len.cmp(&b_len),\n        other => other,\n    }", "    a_shifted.cmp(&b_shifted).then(a_len.cmp(&b_len))"))
r("bu2-zero", "C04", BU, ("    if a == 0 && b == 0 {\n        return std::cmp::Ordering::Equal;\n    } else if a == 0 {\n        return std::cmp::Ordering::Less;\n    } else if b == 0 {\n        return std::cmp::Ordering::Greater;\n    }", "    match (a == 0, b == 0) {\n        (true, true) => return std::cmp::Ordering::Equal,\n        (true, false) => return std::cmp::Ordering::Less,\n        (false, true) => return std::cmp::Ordering::Greater,\n        _ => {}\n    }"))
r("bu2-desc-loop", "C04", BU, ("        descriptor.extend(std::iter::repeat_n(false, index.trailing_zeros() as usize));\n", "        for _ in 0..index.trailing_zeros() {\n            descriptor.push(false);\n        }\n"))
r("bu2-pop", "C04", BU, ("        focus = sibling(parent(focus));\n        result.push(focus);\n    }\n    result.truncate(result.len() - 1);", "        focus = sibling(parent(focus));\n        result.push(focus);\n    }\n    result.pop();"))
r("bu2-path", "C04", BU, ("    let mut focus = tree_index;\n    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();\n    result.push(focus);\n    while focus > 1 {\n        focus = parent(focus);\n        result.push(focus);\n    }\n    result.truncate(result.len() - 1);\n    result", "    let mut focus = tree_index;\n    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();\n    while focus > 1 {\n        result.push(focus);\n        focus = parent(focus);\n    }\n    result"))
r("bu2-seq", "C04", BU, ("        .par_iter()\n        .with_min_len(10000)\n        .map(|&index| {", "        .iter()\n        .map(|&index| {"), ("        .reduce(\n            || (HashSet::new(), HashSet::new()),\n            |(mut h1", "        .fold(\n            (HashSet::new(), HashSet::new()),\n            |(mut h1"))
r("bu2-seqloop", "C04", BU, ("""        .map(|&index| {
            let branch = get_branch_indices(index);
            let path = get_path_indices(index);
            (
                branch.into_iter().collect::<HashSet<_>>(),
                path.into_iter().collect::<HashSet<_>>(),
            )
        })""", """        .map(|&index| {
            (
                get_branch_indices(index).into_iter().collect::<HashSet<_>>(),
                get_path_indices(index).into_iter().collect::<HashSet<_>>(),
            )
        })"""))
r("bu2-shift", "C04", BU, ("    index / 2\n", "    index >> 1\n"))
r("bu2-sib", "C04", BU, ("    index ^ 1\n", "    if index % 2 == 0 { index + 1 } else { index - 1 }\n"))
r("bu2-insertloop", "C04", BU, ("        self.gindices.extend(gindices);\n", "        for gindex in gindices {\n            self.gindices.insert(gindex);\n        }\n"))
r("bu2-data", "C04", BU, ("        let data: Vec<u8> = nodes\n            .iter()\n            .flat_map(|node| node.as_slice())\n            .copied()\n            .collect();\n", "        let mut data: Vec<u8> = Vec::with_capacity(nodes.len() * 32);\n        for node in &nodes {\n            data.extend_from_slice(node.as_slice());\n        }\n"))

SU29, LB29, CS29, SP29, GR29 = "core/src/serde_utils.rs", "core/src/lib.rs", "core/src/consensus_state.rs", "core/src/state_patch.rs", "core/src/input_reader/guest_input_reader.rs"
FPR30, PAP30 = "host/src/state_provider/file_provider.rs", "host/src/state_provider/persistant_api_provider.rs"
r("fp-helper", "C30", FPR30, ("    pub fn save_state(", "    fn file_of(&self, slot: Slot) -> PathBuf {\n        self.directory.join(format!(\"{slot}_beacon_state.ssz\"))\n    }\n\n    pub fn save_state("), ("        let file = self.directory.join(format!(\"{slot}_beacon_state.ssz\"));\n        ensure!(", "        let file = self.file_of(slot);\n        ensure!("), ("        let file = self.directory.join(format!(\"{slot}_beacon_state.ssz\"));\n        if !file", "        let file = self.file_of(slot);\n        if !file"))
r("fp-fmt", "C30", FPR30, ("        let file = self.directory.join(format!(\"{slot}_beacon_state.ssz\"));\n        ensure!(", "        let name = format!(\"{}_beacon_state.ssz\", slot);\n        let file = self.directory.join(&name);\n        ensure!("))
r("fp-if", "C30", FPR30, ("        ensure!(\n            !file.exists(),\n            \"State file already exists: {}\",\n            file.display()\n        );", "        if file.exists() {\n            anyhow::bail!(\"State file already exists: {}\", file.display());\n        }"))
r("fp-bytes", "C30", FPR30, ("        fs::write(&partial, ssz_rs::serialize(state)?)?;", "        let bytes = ssz_rs::serialize(state)?;\n        fs::write(&partial, &bytes)?;"))
r("fp-letelse", "C30", FPR30, ("""            let entry = entry?;
            if let Some(file_slot) = entry.file_name().to_str() {
                if let Some(file_slot) = file_slot
                    .split('_')
                    .next()
                    .and_then(|s| s.parse::<Slot>().ok())
                {
                    if file_slot < slot {
                        fs::remove_file(entry.path())?;
                    }
                }
            }
""", """            let entry = entry?;
            let file_name = entry.file_name();
            let Some(name) = file_name.to_str() else {
                continue;
            };
            let Some(file_slot) = name
                .split('_')
                .next()
                .and_then(|s| s.parse::<Slot>().ok())
            else {
                continue;
            };
            if file_slot < slot {
                fs::remove_file(entry.path())?;
            }
"""))
r("fp-match", "C30", FPR30, ("                    if file_slot < slot {\n                        fs::remove_file(entry.path())?;\n                    }", "                    if slot > file_slot {\n                        let path = entry.path();\n                        fs::remove_file(&path)?;\n                    }"))
r("fp-chain", "C30", FPR30, ("""            if let Some(file_slot) = entry.file_name().to_str() {
                if let Some(file_slot) = file_slot
                    .split('_')
                    .next()
                    .and_then(|s| s.parse::<Slot>().ok())
                {
                    if file_slot < slot {
                        fs::remove_file(entry.path())?;
                    }
                }
            }
""", """            let file_slot = entry
                .file_name()
                .to_str()
                .and_then(|name| name.split('_').next())
                .and_then(|s| s.parse::<Slot>().ok());
            match file_slot {
                Some(file_slot) if file_slot < slot => fs::remove_file(entry.path())?,
                _ => {}
            }
"""))
r("fp-slotname", "C30", FPR30, ("    pub fn clear_states_before(", "    /// The slot a file in the directory belongs to.\n    fn slot_of(name: &str) -> Option<Slot> {\n        name.split('_').next()?.parse().ok()\n    }\n\n    pub fn clear_states_before("), ("""                if let Some(file_slot) = file_slot
                    .split('_')
                    .next()
                    .and_then(|s| s.parse::<Slot>().ok())
                {
""", """                if let Some(file_slot) = Self::slot_of(file_slot) {
"""))
r("fp-new", "C30", FPR30, ("        let provider = Self {\n            directory: directory.into(),\n            _phantom: PhantomData,\n        };\n        ensure!(provider.directory.is_dir(), \"not a directory\");\n\n        Ok(provider)", "        let directory = directory.into();\n        ensure!(directory.is_dir(), \"not a directory\");\n\n        Ok(Self {\n            directory,\n            _phantom: PhantomData,\n        })"))
r("fp-read", "C30", FPR30, ("        let state: BeaconState =\n            ssz_rs::deserialize(&bytes).context(\"failed to deserialize beacon state\")?;\n\n        Ok(state.into())", "        let state = ssz_rs::deserialize::<BeaconState>(&bytes)\n            .context(\"failed to deserialize beacon state\")?;\n\n        Ok(StateRef::from(state))"))
r("fp-api-let", "C30", PAP30, ("        match self.file_provider.state_at_slot(slot) {\n            Err(StateProviderError::NotFound(_)) => {}\n            state => return state,\n        }", "        let saved = self.file_provider.state_at_slot(slot);\n        if !matches!(saved, Err(StateProviderError::NotFound(_))) {\n            return saved;\n        }"))
r("fp-api-fetch", "C30", PAP30, ("impl<E: EthSpec> StateProvider for Per", "impl<E: EthSpec> PersistentApiStateProvider<E> {\n    fn fetch(&self, slot: Slot) -> Result<crate::beacon_state::mainnet::BeaconState, anyhow::Error> {\n        tokio::task::block_in_place(|| {\n            Handle::current().block_on(self.client.get_beacon_state(slot))\n        })\n        .context(\"failed to get state from API\")\n    }\n}\n\nimpl<E: EthSpec> StateProvider for Per"), ("        let state = tokio::task::block_in_place(|| {\n            Handle::current().block_on(self.client.get_beacon_state(slot))\n        })\n        .context(\"failed to get state from API\")?;", "        let state = self.fetch(slot)?;"))
r("fp-api-ret", "C30", PAP30, ("        self.file_provider\n            .clear_states_before(epoch)\n            .context(\"failed to clear states before epoch\")?;\n        Ok(())", "        self.file_provider\n            .clear_states_before(epoch)\n            .context(\"failed to clear states before epoch\")"))
r("fp-api-two", "C30", PAP30, ("            Err(StateProviderError::NotFound(_)) => {}\n            state => return state,", "            Ok(state) => return Ok(state),\n            Err(StateProviderError::NotFound(_)) => {}\n            Err(err) => return Err(err),"))
r("gi-order", "C29", GR29, ("    /// Public keys of all active validators.\n    #[serde_as(as = \"Vec<serde_utils::UncompressedPublicKey>\")]\n    pub public_keys: Vec<PublicKey>,\n\n", ""), ("    /// Proofs the blocks with", "    /// Public keys of all active validators.\n    #[serde_as(as = \"Vec<serde_utils::UncompressedPublicKey>\")]\n    pub public_keys: Vec<PublicKey>,\n\n    /// Proofs the blocks with"))
r("gi-sporder", "C29", SP29, ("    pub randao_mixes: BTreeMap<RandaoMixIndex, B256>,\n    #[serde_as(as = \"BTreeMap<_, serde_utils::U64>\")]\n    pub validator_exits: BTreeMap<ValidatorIndex, Epoch>,\n", "    #[serde_as(as = \"BTreeMap<_, serde_utils::U64>\")]\n    pub validator_exits: BTreeMap<ValidatorIndex, Epoch>,\n    pub randao_mixes: BTreeMap<RandaoMixIndex, B256>,\n"))
r("gi-serialize", "C29", SU29, ("impl SerializeAs<Epoch> for U64 {\n    #[inline]\n    fn serialize_as<S: Serializer>(source: &Epoch, serializer: S) -> Result<S::Ok, S::Error> {\n        serializer.serialize_u64(source.as_u64())", "impl SerializeAs<Epoch> for U64 {\n    #[inline]\n    fn serialize_as<S: Serializer>(source: &Epoch, serializer: S) -> Result<S::Ok, S::Error> {\n        let epoch = source.as_u64();\n        serializer.serialize_u64(epoch)"))
r("gi-into", "C29", SU29, ("        Ok(Epoch::new(u64::deserialize(deserializer)?))", "        let epoch = u64::deserialize(deserializer)?;\n        Ok(epoch.into())"))
r("gi-map", "C29", SU29, ("        Ok(Epoch::new(u64::deserialize(deserializer)?))", "        u64::deserialize(deserializer).map(Epoch::new)"))
r("gi-cpnew", "C29", LB29, ("        Ok(Self(beacon_types::Checkpoint {\n            epoch: dec.epoch.into(),\n            root: dec.root,\n        }))", "        let DecCheckpoint { epoch, root } = dec;\n        Ok(Self::new(Epoch::new(epoch), root))"))
r("gi-disk", "C29", SU29, ("        let source = beacon_types::attestation::AttestationRefOnDisk::<E>::from(source.to_ref());\n        let bytes = source.as_ssz_bytes();\n        serializer.serialize_bytes(&bytes)", "        let on_disk = beacon_types::attestation::AttestationRefOnDisk::<E>::from(source.to_ref());\n        serializer.serialize_bytes(&on_disk.as_ssz_bytes())"))
r("gi-diskmatch", "C29", SU29, ("        Ok(\n            beacon_types::attestation::AttestationOnDisk::<E>::from_ssz_bytes(bytes)\n                .map_err(|err| serde::de::Error::custom(format!(\"{err:?}\")))?\n                .into(),\n        )", "        let on_disk = beacon_types::attestation::AttestationOnDisk::<E>::from_ssz_bytes(bytes)\n            .map_err(|err| serde::de::Error::custom(format!(\"{err:?}\")))?;\n        Ok(on_disk.into())"))
r("gi-cptuple", "C29", LB29, ("        struct EncCheckpoint<'a> {\n            epoch: u64,\n            root: &'a B256,\n        }", "        struct EncCheckpoint<'b> {\n            epoch: u64,\n            root: &'b B256,\n        }"))

HI, SPB, SPR, CPR, PF = "host/src/input_reader/host_input_reader.rs", "host/src/state_patch_builder.rs", "host/src/state_provider.rs", "host/src/state_provider/cache_provider.rs", "host/src/input_reader/preflight_input_reader.rs"
r("h-fin-loop", "C24", HI, ("    for epoch in trusted_checkpoint.epoch().as_u64() + 1.. {\n        let slot = Epoch::from(epoch)", "    let mut epoch = trusted_checkpoint.epoch().as_u64();\n    loop {\n        epoch += 1;\n        let slot = Epoch::from(epoch)"), ("            HostReaderError::InvalidTrustedCheckpoint\n        );\n    }\n\n    unreachable!()\n}", "            HostReaderError::InvalidTrustedCheckpoint\n        );\n    }\n}"))
r("h-fin-ensure", "C24", HI, ("        ensure!(\n            state.finalized_checkpoint().epoch() < trusted_checkpoint.epoch(),\n            HostReaderError::InvalidTrustedCheckpoint\n        );", "        if state.finalized_checkpoint().epoch() >= trusted_checkpoint.epoch() {\n            return Err(HostReaderError::InvalidTrustedCheckpoint);\n        }"))
r("h-just-match", "C24", HI, ("        if let Some(link) = prev_state.transition_link(&current_state)? {\n            links.push(link);\n        }\n", "        match prev_state.transition_link(&current_state)? {\n            Some(link) => links.push(link),\n            None => {}\n        }\n"))
r("h-just-slot", "C24", HI, ("        let current_state = chain_reader\n            .get_consensus_state(Epoch::from(epoch).start_slot(E::slots_per_epoch()))\n            .await?;", "        let slot = Epoch::from(epoch).start_slot(E::slots_per_epoch());\n        let current_state = chain_reader.get_consensus_state(slot).await?;"))
r("h-new-order", "C24 C28", HI, ("        let (state, _next_state, links) =\n            get_justifications_until_new_finality::<E, _>(&chain_reader, finalization_epoch)\n                .await?;\n        assert_eq!(state.finalized_checkpoint(), trusted_checkpoint);", "        let found =\n            get_justifications_until_new_finality::<E, _>(&chain_reader, finalization_epoch)\n                .await?;\n        let (state, _, links) = found;\n        assert!(state.finalized_checkpoint() == trusted_checkpoint);"))
r("h-coll-last", "C25", HI, ("    let max_epoch = links.iter().map(|l| l.target.epoch()).max().unwrap();", "    let max_epoch = links\n        .iter()\n        .map(|l| l.target.epoch())\n        .fold(min_epoch, |a, b| a.max(b));"))
r("h-coll-helper", "C25", HI, ("            let link = Link {\n                source: attestation.data().source.into(),\n                target: attestation.data().target.into(),\n            };\n", "            let link = link_of(&attestation);\n"), ("/// Gathers the attestations for links,", "fn link_of<E: EthSpec>(attestation: &Attestation<E>) -> Link {\n    let data = attestation.data();\n    Link {\n        source: data.source.into(),\n        target: data.target.into(),\n    }\n}\n\n/// Gathers the attestations for links,"))
r("h-coll-loop", "C25", HI, ("    let result = links\n        .iter()\n        .flat_map(|link| attestations_by_link.remove(link).unwrap_or_default())\n        .collect();\n", "    let mut result = Vec::new();\n    for link in links {\n        if let Some(attestations) = attestations_by_link.remove(link) {\n            result.extend(attestations);\n        }\n    }\n"))
r("h-coll-seq", "C25", HI, ("    let block_futs =\n        (start_slot.as_u64()..=end_slot.as_u64()).map(|slot| chain_reader.get_block(slot));\n    let blocks = futures::future::try_join_all(block_futs).await?;\n", "    let mut blocks = Vec::new();\n    for slot in start_slot.as_u64()..=end_slot.as_u64() {\n        blocks.push(chain_reader.get_block(slot).await?);\n    }\n"))
r("h-pb-cont", "C26", SPB, ("            // store validator exits\n            if a.exit_epoch != b.exit_epoch {\n                self.patch.validator_exits.insert(idx, a.exit_epoch.into());\n            }", "            if a.exit_epoch == b.exit_epoch {\n                continue;\n            }\n            self.patch.validator_exits.insert(idx, a.exit_epoch.into());"))
r("h-pb-match", "C26", SPB, ("        let randao = randao_mixes.get(idx as usize).context(\"invalid index\")?;\n        self.patch\n            .randao_mixes\n            .insert(idx, B256::from_slice(randao));\n\n        Ok(())", "        match randao_mixes.get(idx as usize) {\n            None => anyhow::bail!(\"invalid index\"),\n            Some(randao) => {\n                let value = B256::from_slice(randao);\n                self.patch.randao_mixes.insert(idx, value);\n                Ok(())\n            }\n        }"))
r("h-active-not", "C28", HI, ("    validator.activation_epoch <= epoch && epoch < validator.exit_epoch", "    !(epoch < validator.activation_epoch || validator.exit_epoch <= epoch)"))
r("h-av-seq", "C28", HI, ("                    .par_iter()\n", "                    .iter()\n"), ("use rayon::iter::{IndexedParallelIterator, IntoParallelRefIterator, ParallelIterator};\n", ""))
r("h-av-iflet", "C28", HI, ("        let iter = match self.validator_cache.get(&epoch) {\n            Some(validators) => validators.iter(),\n            None => {\n", "        let iter = if let Some(validators) = self.validator_cache.get(&epoch) {\n            validators.iter()\n        } else {\n            {\n"))
r("h-mix-let", "C28", HI, ("        Ok(beacon_state\n            .randao_mixes()\n            .get(idx as usize)\n            .map(|randao| B256::from_slice(randao.as_slice())))", "        let mix = beacon_state.randao_mixes().get(idx as usize);\n        match mix {\n            Some(randao) => Ok(Some(B256::from_slice(randao.as_slice()))),\n            None => Ok(None),\n        }"))
r("h-slot-let", "C28", HI, ("        Ok(block_header.message.slot)\n", "        let header = block_header.message;\n        Ok(header.slot)\n"))
r("h-sp-neg", "C28", SPR, ("        if epoch_boundary_slot == state.slot() {\n            return Ok(state);\n        }\n", "        if state.slot() == epoch_boundary_slot {\n            return Ok(state);\n        }\n"))
r("h-cp-iflet", "C28", CPR, ("        match self.cache.map_get(&slot, Clone::clone) {\n            None => {\n                let state = self.inner.state_at_slot(slot)?;\n                self.cache.insert(slot, state.clone());\n                Ok(state)\n            }\n            Some(beacon_state) => Ok(beacon_state),\n        }", "        if let Some(beacon_state) = self.cache.map_get(&slot, Clone::clone) {\n            return Ok(beacon_state);\n        }\n        let state = self.inner.state_at_slot(slot)?;\n        self.cache.insert(slot, state.clone());\n        Ok(state)"))
r("h-pf-lt", "C27", PF, ("            if trusted_epoch.as_u64() >= validator.exit_epoch {", "            let exited = validator.exit_epoch <= trusted_epoch.as_u64();\n            if exited {"))
r("h-pf-cont", "C27", PF, ("            if epoch != self.trusted_checkpoint.epoch() {\n                let patch = patch_builder\n                    .entry(epoch)\n                    .or_insert(self.patch_builder(epoch)?);\n                patch.validator_diff(trusted_state.validators().iter());\n            }", "            if epoch == trusted_epoch {\n                continue;\n            }\n            let patch = patch_builder\n                .entry(epoch)\n                .or_insert(self.patch_builder(epoch)?);\n            patch.validator_diff(trusted_state.validators().iter());"))
r("h-pf-order", "C27", PF, ("        for (epoch, indices) in self.mix_epochs.borrow().clone() {\n            let patch = patch_builder\n                .entry(epoch)\n                .or_insert(self.patch_builder(epoch)?);\n            for idx in indices {\n                patch.randao_mix(idx)?;\n            }\n        }\n        for epoch in self.validator_epochs.borrow().clone() {\n            if epoch != self.trusted_checkpoint.epoch() {\n                let patch = patch_builder\n                    .entry(epoch)\n                    .or_insert(self.patch_builder(epoch)?);\n                patch.validator_diff(trusted_state.validators().iter());\n            }\n        }\n", "        for epoch in self.validator_epochs.borrow().clone() {\n            if epoch != self.trusted_checkpoint.epoch() {\n                let patch = patch_builder\n                    .entry(epoch)\n                    .or_insert(self.patch_builder(epoch)?);\n                patch.validator_diff(trusted_state.validators().iter());\n            }\n        }\n        for (epoch, indices) in self.mix_epochs.borrow().clone() {\n            let patch = patch_builder\n                .entry(epoch)\n                .or_insert(self.patch_builder(epoch)?);\n            for idx in indices {\n                patch.randao_mix(idx)?;\n            }\n        }\n"))
r("h-pf-helper", "C27", PF, ("        let block_slot_proofs = self\n            .beacon_block_reads\n            .borrow()\n            .iter()\n            .map(|root| {\n                let block_header =\n                    futures::executor::block_on(self.chain_reader.get_block_header(*root))?\n                        .ok_or(anyhow::anyhow!(\"Block not found for root {}\", root))?\n                        .message;\n\n                let proof = MultiproofBuilder::new()\n                    .with_path::<BeaconBlockHeader>(&[\"slot\".into()])\n                    .build(&block_header)?;\n                proof.verify(root)?;\n                Ok(proof)\n            })\n            .collect::<anyhow::Result<Vec<_>>>()?;\n", "        let mut block_slot_proofs = Vec::new();\n        for root in self.beacon_block_reads.borrow().iter() {\n            block_slot_proofs.push(self.slot_proof(root)?);\n        }\n"), ("    fn patch_builder(&self, epoch: Epoch)", "    fn slot_proof(&self, root: &Root) -> anyhow::Result<Multiproof<'static>> {\n        let block_header = futures::executor::block_on(self.chain_reader.get_block_header(*root))?\n            .ok_or(anyhow::anyhow!(\"Block not found for root {}\", root))?\n            .message;\n\n        let proof = MultiproofBuilder::new()\n            .with_path::<BeaconBlockHeader>(&[\"slot\".into()])\n            .build(&block_header)?;\n        proof.verify(root)?;\n        Ok(proof)\n    }\n\n    fn patch_builder(&self, epoch: Epoch)"))
r("h-pf-rec", "C27", PF, ("        let iter = self.inner.active_validators(epoch)?;\n        self.validator_epochs.borrow_mut().insert(epoch);\n\n        Ok(iter)", "        let validators = self.inner.active_validators(epoch)?;\n        let mut epochs = self.validator_epochs.borrow_mut();\n        epochs.insert(epoch);\n        drop(epochs);\n\n        Ok(validators)"))
r("h-pf-paths", "C27", PF, ("        .with_path::<T>(&[\"slot\".into()])\n        .with_path::<T>(&[\"fork\".into(), \"previous_version\".into()])\n        .with_path::<T>(&[\"fork\".into(), \"current_version\".into()])\n", "        .with_path::<T>(&[\"fork\".into(), \"current_version\".into()])\n        .with_path::<T>(&[\"fork\".into(), \"previous_version\".into()])\n        .with_path::<T>(&[\"slot\".into()])\n"))
r("h-pf-mix", "C27", PF, ("        let randao = self.inner.randao_mix(epoch, idx)?.unwrap();\n        self.mix_epochs\n            .borrow_mut()\n            .entry(epoch)\n            .or_default()\n            .insert(idx);\n\n        Ok(Some(randao))", "        let randao = self.inner.randao_mix(epoch, idx)?.unwrap();\n        let mut epochs = self.mix_epochs.borrow_mut();\n        let indices = epochs.entry(epoch).or_default();\n        indices.insert(idx);\n\n        Ok(Some(randao))"))


def main():
    names = sys.argv[1:]
    for name, props, f, pairs in R:
        if names and not any(name.startswith(n) for n in names): continue
        w = tempfile.mkdtemp(prefix="refactor_")
        repo = f"{w}/repo"; subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_FROM", "/repo"), repo], check=True)
        t = open(f"{repo}/{f}").read()
        for a, b in pairs:
            assert t.count(a) == 1, (name, t.count(a), a)
            t = t.replace(a, b)
        open(f"{repo}/{f}", "w").write(t)
        for p in props:
            e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=f"{V}/build/seedbuild", VERIF_EVIDENCE=f"{w}/ev")
            t0 = time.time()
            c = subprocess.run(["python3", f"{V}/tools/vf.py", "check", p], cwd=V, env=e, capture_output=True, text=True)
            print(f"{name} {p}: exit {c.returncode} ({time.time()-t0:.0f} s)")
            for l in (c.stdout + c.stderr).splitlines()[-6:]: print("      |", l[:330])
            sys.stdout.flush()
        subprocess.run(["rm", "-rf", w])
if __name__ == "__main__": main()
