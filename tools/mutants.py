#!/usr/bin/env python3
"""Developer tool: small property-breaking edits; the checks named must report each.
  mutants.py [NAME...]     runs them on scratch copies.  No check uses this."""
import os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MP, VF, CC, CS, AT, GR, SP, LB, AB, EN = ("ssz-multiproofs/src/multiproof.rs", "core/src/verify.rs", "core/src/committee_cache.rs", "core/src/consensus_state.rs", "core/src/attestation.rs",
    "core/src/input_reader/guest_input_reader.rs", "core/src/state_patch.rs", "core/src/lib.rs", "core/src/abi.rs", "methods/guest/src/lib.rs")
IR, GG, CF, SEP, BLS = "core/src/input_reader.rs", "core/src/guest_gindices.rs", "core/src/config.rs", "methods/guest/src/bin/sepolia.rs", "core/src/bls.rs"
R = []
def r(name, props, f, *pairs): R.append((name, props.split(), f, pairs))
# C06
r("cs-final-ge", "C06", CS, ("&& target.epoch() == source.epoch().safe_add(1)?", "&& target.epoch() <= source.epoch().safe_add(1)?"))
r("cs-epoch-only", "C06", CS, ("if self.current_justified_checkpoint == source\n            && target.epoch() > self", "if self.current_justified_checkpoint.epoch() == source.epoch()\n            && target.epoch() > self"))
r("cs-fin-skip", "C06", CS, ("finalized_checkpoint: self.finalized_checkpoint, // no change", "finalized_checkpoint: if self.finalized_checkpoint.epoch().as_u64() == 0 { source } else { self.finalized_checkpoint },"))
# C07
r("tl-le", "C07", LB, ("self.epoch() < other.epoch() || self == other", "self.epoch() <= other.epoch()"))
r("tl-none", "C07", CS, ("""            ensure!(
                self.finalized_checkpoint == other.finalized_checkpoint,
                ConsensusError::InvalidTransition
            );

            return Ok(None);""", """            ensure!(
                self.finalized_checkpoint.epoch() == other.finalized_checkpoint.epoch(),
                ConsensusError::InvalidTransition
            );

            return Ok(None);"""))
r("tl-gap", "C07", CS, ("            target.epoch() - self.current_justified_checkpoint.epoch() > 1,", "            target.epoch() - self.current_justified_checkpoint.epoch() >= 1,"))
r("tl-src", "C07", CS, ("            && target.epoch() - other.finalized_checkpoint.epoch() == 1\n", "            && target.epoch() - other.finalized_checkpoint.epoch() <= 2\n"))
# C08
r("vf-slashed-any", "C08", VF, (".filter(|v| !v.slashed);", ".filter(|v| !v.slashed || v.exit_epoch.as_u64() == u64::MAX - 1);"))
r("vf-vec", "C08", VF, ("let mut participating_indices = BTreeSet::new();", "let mut participating_indices = Vec::new();"))
r("vf-u64", "C08", VF, ("let lhs = target_balance as u128 * cfg.justification_threshold_quotient as u128;", "let lhs = target_balance.wrapping_mul(cfg.justification_threshold_quotient) as u128;"))
r("vf-div", "C08", VF, ("            lhs >= rhs,", "            lhs / 100 >= rhs / 100,"))
r("vf-23", "C08", VF, ("assert!(target_balance.safe_mul(3)? >= total_active_balance.safe_mul(2)?);", "assert!(target_balance / 2 >= total_active_balance / 3);"))
r("cf-sep", "C08 C23", CF, ("justification_threshold_factor: 70,", "justification_threshold_factor: 66,"))
# C09
r("vf-group", "C09", VF, ("chunk_by(|a| (a.data().source, a.data().target))", "chunk_by(|a| (a.data().source, { let mut t = a.data().target; t.root = a.data().source.root; t }))"))
r("vf-nofinal", "C09", VF, ("consensus_state.finalized_checkpoint() != trusted_checkpoint,\n        VerifyError", "consensus_state.current_justified_checkpoint() != trusted_checkpoint,\n        VerifyError"))
r("vf-multi", "C09", VF, ("            consensus_state.finalized_checkpoint() == trusted_checkpoint,\n", "            consensus_state.finalized_checkpoint().epoch() <= trusted_checkpoint.epoch() + 1,\n"))
r("vf-slot", "C09", VF, (".slot_for_block(&consensus_state.finalized_checkpoint().root())", ".slot_for_block(&consensus_state.current_justified_checkpoint().root())"))
# C10
r("cf-max", "C10", CF, ("fork_name <= self.max_version", "fork_name < self.max_version"))
r("cf-or", "C10", CF, ("self.min_version <= fork_name && fork_name <= self.max_version", "self.min_version <= fork_name || fork_name <= self.max_version"))
r("vf-look-src", "C10", VF, ("    let lookahead = target_epoch.saturating_sub(trusted_checkpoint.epoch());", "    let lookahead = target_epoch.saturating_sub(link.source.epoch());"))
r("vf-look-wrap", "C10", VF, ("    let lookahead = target_epoch.saturating_sub(trusted_checkpoint.epoch());", "    let lookahead = Epoch::new(target_epoch.as_u64().wrapping_sub(trusted_checkpoint.epoch().as_u64()) & 0xffff);"))
r("vf-fork-src", "C10", VF, ("let target_fork_name = spec.fork_name_at_epoch(target_epoch);", "let target_fork_name = spec.fork_name_at_epoch(link.source.epoch());"))
r("vf-trusted-mv", "C10", VF, ("validate_link(cfg, spec, trusted_checkpoint, &link)?;", "validate_link(cfg, spec, consensus_state.current_justified_checkpoint(), &link)?;"))
# C11
r("vf-dom-slot", "C11", VF, ("        data.target.epoch,\n        Domain::BeaconAttester,", "        data.source.epoch,\n        Domain::BeaconAttester,"))
r("vf-idx", "C11", VF, ("    assert_eq!(attestation.data.index, 0);\n", "    assert_eq!(attestation.data.index & 0xff, 0);\n"))
r("vf-filter-inact", "C11", VF, ("""        .map(|i| {
            active_validators
                .get(i)
                .copied()
                .ok_or(VerifyError::MissingValidatorInfo(*i))
        })
        .collect::<Result<Vec<_>, _>>()?;
""", """        .filter_map(|i| active_validators.get(i).copied())
        .collect::<Vec<_>>();
"""))
r("vf-slot-ge", "C11", VF, ("""    assert_eq!(
        attestation.data.target.epoch,
        attestation.data.slot.epoch(E::slots_per_epoch())
    );""", """    assert!(
        attestation.data.target.epoch
            >= attestation.data.slot.epoch(E::slots_per_epoch())
    );"""))
# C12
r("at-empty", "C12", AT, ('assert!(committee_attesters.peek().is_some(), "empty committee");', 'assert!(committee_attesters.peek().is_some() || committee.len() == 1, "empty committee");'))
r("at-len", "C12", AT, ("assert_eq!(attn.aggregation_bits.len(), committee_offset);", "assert!(attn.aggregation_bits.len() >= committee_offset);"))
r("at-off", "C12", AT, ("        committee_offset += committee.len();\n", "        committee_offset += committee.len() - usize::from(committee.len() > 64);\n"))
r("at-count", "C12", AT, ("assert!(committee_index < committee_cache.get_committee_count_per_slot() as u64);", "assert!(committee_index <= committee_cache.get_committee_count_per_slot() as u64);"))
# C13
r("cc-bound", "C13", CC, ("            index < self.committees_per_slot,", "            index <= self.committees_per_slot,"))
r("cc-epoch", "C13", CC, ("            self.is_initialized_at(slot.epoch(E::slots_per_epoch())),\n            Error::NotInitializedAtEpoch", "            self.is_initialized_at(slot.epoch(E::slots_per_epoch())) || slot.as_u64() == 0,\n            Error::NotInitializedAtEpoch"))
r("cc-pos", "C13", CC, ("= NonZeroUsize::new(i + 1);", "= NonZeroUsize::new(i);"), (".map(|p| p.get() - 1)", ".map(|p| p.get())"))
r("cc-fwd", "C13", CC, ("            &seed[..],\n            false,", "            &seed[..],\n            true,"))
r("cc-round", "C13", CC, ("spec.shuffle_round_count,", "spec.shuffle_round_count.min(64),"))
# C14
r("ir-look", "C14", IR, (".safe_sub(self.chain_spec().min_seed_lookahead)?\n            .safe_sub(1)?", ".safe_sub(1)?\n            .safe_sub(1)?"))
r("ir-order", "C14", IR, ("        Digest::update(&mut h, uint64_to_bytes(epoch.into()));\n", "        Digest::update(&mut h, uint64_to_bytes(i.into()));\n"))
r("ir-be", "C14", IR, ("n.to_le_bytes()", "n.to_be_bytes()"))
r("ir-mix", "C14", IR, ("self.get_randao_mix(epoch, i)?", "self.get_randao_mix(i, i)?"))
# C15
r("tb-add", "C15", IR, ("acc.safe_add(validator.as_ref().effective_balance)", "Ok::<u64, ArithError>(acc.saturating_add(validator.as_ref().effective_balance))"))
r("tb-max", "C15", IR, ("""    Ok(std::cmp::max(
        total_balance,
        spec.effective_balance_increment,
    ))""", """    Ok(if total_balance == 0 { spec.effective_balance_increment } else { total_balance })"""))
# C16
r("gr-fork", "C16", GR, ("state.fork == spec.fork_at_epoch(state_epoch),", "state.fork.current_version == spec.fork_at_epoch(state_epoch).current_version,"))
r("gr-left", "C16", GR, ("""    let mut values = beacon_state.values();

    let genesis""", """    let mut values = beacon_state.values().take(9);

    let genesis"""))
r("gr-root", "C16", GR, (".verify(&trusted_checkpoint.root())", ".verify(&self.consensus_state.current_justified_checkpoint().root())"))
r("gr-earliest", "C16", GR, ("values.next_assert_gindex(earliest_consolidation_epoch_gindex())?;", "values.next_assert_gindex(earliest_exit_epoch_gindex() + 2)?;"))
# C17
r("gv-exit", "C17", GR, ("assert!(exit_epoch <= current_epoch.into());", "assert!(exit_epoch <= (current_epoch + 1).into());"))
r("gv-len", "C17", GR, ("assert_eq!(validator_index as u64, length);", "assert!(validator_index as u64 <= length);"))
r("gv-key", "C17", BLS, ("&& chunk2[16..32] == [0u8; 16]", "&& chunk2[17..32] == [0u8; 15]"))
r("gv-bool", "C17", GR, ("assert!(node[1..].iter().all(|&b| b == 0));", "assert!(node[1..31].iter().all(|&b| b == 0));"))
r("gv-surplus", "C17", GR, ("""    assert_eq!(validator_index as u64, length);

    assert!(values.next().is_none());
""", """    assert_eq!(validator_index as u64, length);

    assert!(values.next().is_none() || length == 0);
"""))
r("gv-endian", "C17", GR, ("            assert_eq!(gindex, slashed_gindex(validator_index));\n", "            assert_eq!(gindex & !1, slashed_gindex(validator_index) & !1);\n"))
# C18
r("ru-range", "C18", GR, ("state_epoch.as_u64()..=current_justified_epoch.as_u64()", "state_epoch.as_u64()..current_justified_epoch.as_u64()"))
r("ru-fin", "C18", GR, ("let finalized_checkpoint_epoch = if epoch < current_justified_epoch {", "let finalized_checkpoint_epoch = if epoch <= current_justified_epoch && state.finalized_checkpoint_epoch != trusted_checkpoint.epoch() {"))
r("ru-lt", "C18", LB, ("self.activation_eligibility_epoch <= finalized_checkpoint_epoch", "self.activation_eligibility_epoch < finalized_checkpoint_epoch"))
r("ru-cur", "C18", GR, ("validator.activation_eligibility_epoch = current_epoch + 1;", "validator.activation_eligibility_epoch = finalized_checkpoint_epoch + 1;"))
r("ru-else", "C18", GR, ("        // process activations:\n        if validator", "        // process activations:\n        else if validator"))
# C19
r("sp-churn", "C19", GR, ("            let mut exit_balance_to_consume = churn;\n", "            let mut exit_balance_to_consume = churn.saturating_mul(self.patches.len() as u64);\n"))
r("sp-sort", "C19", GR, ("                .sorted_unstable_by_key(|v| v.1.as_u64())", "                .sorted_unstable_by_key(|v| *v.0)"))
r("sp-min", "C19", GR, ("let earliest_exit_epoch = std::cmp::min(", "let earliest_exit_epoch = std::cmp::max("))
r("sp-reset", "C19", GR, ("                earliest_exit_epoch = exit_epoch;\n", ""))
r("sp-strict", "C19", GR, ("assert!(exit_epoch >= earliest_exit_epoch);", "assert!(exit_epoch + 1 >= earliest_exit_epoch);"))
r("sp-far", "C19", GR, ("assert_eq!(prev_exit_epoch, spec.far_future_epoch);", "assert!(prev_exit_epoch >= exit_epoch);"))
# C20
r("pa-or", "C20", SP, ("epoch < *exit_epoch && validator.is_active_at(epoch)", "epoch < *exit_epoch && validator.activation_epoch <= epoch"))
r("pa-le", "C20", SP, ("epoch < *exit_epoch && validator", "epoch <= *exit_epoch && validator"))
r("pa-range", "C20", GR, ("""        let patch = self.patches.get(&epoch).unwrap_or(&EMPTY_STATE_PATCH);

        Ok(self
            .validators""", """        let patch = self.patches.range(..=epoch).next_back().map(|p| p.1).unwrap_or(&EMPTY_STATE_PATCH);

        Ok(self
            .validators"""))
# C21
r("ab-swap", "C21", AB, ("ConsensusState::try_new(state.current_justified.into(), state.finalized.into())", "Ok(ConsensusState::new(state.current_justified.into(), state.finalized.into()))"))
r("ab-valid", "C21", CS, ("""            || self == &ConsensusState::default()
    }""", """            || (self.finalized_checkpoint == self.current_justified_checkpoint && self.finalized_checkpoint.epoch().as_u64() == 0)
    }"""))
# C22
r("bs-first", "C22", GR, ("            block_slots.insert(root.into(), u64_from_chunk::<Leftmost>(slot));", "            block_slots.insert(trusted_checkpoint.root().max(root.into()), u64_from_chunk::<Leftmost>(slot));"))
r("bs-gindex", "C22", GR, (".next_assert_gindex(block_slot_gindex())", ".next_assert_gindex(block_slot_gindex() | 1)"))
r("bs-zero", "C22", GR, (".ok_or(GuestReaderError::ConfigError(\"Block slot not found\"))", ".or(self.block_slots.values().next().copied())\n            .ok_or(GuestReaderError::ConfigError(\"Block slot not found\"))"))
# C23
r("en-state", "C23", EN, ("abi::Journal::new(&pre_state, &post_state, finalized_slot)", "abi::Journal::new(&post_state, &post_state, finalized_slot)"))
r("en-sep", "C23", SEP, ("&SEPOLIA_CONFIG", "&DEFAULT_CONFIG"), ("SEPOLIA_CONFIG}", "DEFAULT_CONFIG}"))
r("en-spec", "C23", SEP, ("chainspec::sepolia_spec()", "chainspec::mainnet_spec()"))
# C01-C03
r("mp-trail", "C01", MP, ("""if stack.len() == 1""", """if !stack.is_empty()"""))

BU, ER = "ssz-multiproofs/src/builder.rs", "ssz-multiproofs/src/error.rs"
r("mp-root-prefix", "C01", MP, ("if self.calculate_root()? == *root {", "if self.calculate_root()?[..31] == root[..31] {"))
r("mp-root-zero", "C01", MP, ("if self.calculate_root()? == *root {", "if *root == [0; CHUNK_SIZE] || self.calculate_root()? == *root {"))
r("mp-root-empty", "C01", MP, ("if self.calculate_root()? == *root {", "if self.descriptor.is_empty() || self.calculate_root()? == *root {"))
r("mp-swap-deep", "C01", MP, ("                let right = stack.pop().unwrap();\n                let left = stack.pop().unwrap();\n                stack.pop(); // pop", "                let (right, left) = if stack.len() > 40 {\n                    let l = stack.pop().unwrap();\n                    (stack.pop().unwrap(), l)\n                } else {\n                    (stack.pop().unwrap(), stack.pop().unwrap())\n                };\n                stack.pop(); // pop"))
r("mp-once", "C01", MP, ("            while stack.len() >= 3\n", "            if stack.len() >= 3\n"))
r("mp-noint", "C01", MP, ("                && stack[stack.len() - 3].is_internal()\n            {\n                let right", "            {\n                let right"))
r("mp-leafonly", "C01", MP, ("        TreeNode::Leaf(_) => return Err(Error::UnusedLeaves),\n", "        TreeNode::Leaf(node) => node.try_into().map_err(|_| Error::InvalidProof)?,\n"))
r("mp-len1", "C01", MP, ("    assert_eq!(stack.len(), 1);\n    Ok(match", "    assert!(stack.len() <= 2);\n    Ok(match"))
r("mp-clamp", "C01", MP, ("            node_index += 1;\n", "            node_index = (node_index + 1).min(data.len() / CHUNK_SIZE - 1);\n"))
r("mp-wrapidx", "C01", MP, ("            node_index += 1;\n", "            node_index = (node_index + 1) & 0xff;\n"))
r("mp-nohash-eq", "C01", MP, ("                match left {\n", "                if let (TreeNode::Computed(l), TreeNode::Computed(r)) = (&left, &right) {\n                    if l == r {\n                        stack.push(left);\n                        continue;\n                    }\n                }\n                match left {\n"))
r("mp-hint-cap", "C01", MP, ("        } else {\n            stack.push(TreeNode::Internal);\n        }\n    }\n    assert_eq!(stack.len(), 1);\n    Ok(match", "        } else if stack.len() < stack_depth_hint.max(64) {\n            stack.push(TreeNode::Internal);\n        }\n    }\n    assert_eq!(stack.len(), 1);\n    Ok(match"))
r("mp-early", "C01", MP, ("    for bit in descriptor.iter() {\n        if *bit {\n            stack.push(TreeNode::Leaf(", "    for bit in descriptor.iter() {\n        if stack.len() == 1 && matches!(stack[0], TreeNode::Computed(_)) {\n            break;\n        }\n        if *bit {\n            stack.push(TreeNode::Leaf("))
r("mp-gix-wrap", "C02", MP, ("                    .checked_mul(2)\n                    .expect(\"gindex overflow\");", "                    .wrapping_mul(2);"))
r("mp-gix-sat", "C02", MP, ("                    .checked_mul(2)\n                    .expect(\"gindex overflow\");", "                    .saturating_mul(2);"))
r("mp-gix-right", "C02", MP, ("self.stack.pop()? * 2 + 1;", "self.stack.pop()?.wrapping_mul(2) | 1;"), ("            stack: vec![1],", "            stack: vec![],"))
r("mp-gix-none", "C02", MP, ("                self.current_gindex = self.stack.pop()? * 2 + 1;\n                return Some(result);", "                self.current_gindex = match self.stack.pop() {\n                    Some(g) => g * 2 + 1,\n                    None => 1,\n                };\n                return Some(result);"))
r("mp-gix-shl", "C02", MP, ("                    .checked_mul(2)\n                    .expect(\"gindex overflow\");", "                    .checked_shl(1)\n                    .expect(\"gindex overflow\");"))
r("mp-gix-48", "C02", MP, ("self.stack.pop()? * 2 + 1;", "(self.stack.pop()? * 2 + 1) & 0xffff_ffff_ffff;"))
r("mp-nodes-skip0", "C02", MP, ("        GIndexIterator::new(&self.descriptor).zip(nodes)", "        GIndexIterator::new(&self.descriptor).zip(nodes.skip(self.data.len() % 2))"))
r("mp-nodes-rev", "C02", MP, ("        GIndexIterator::new(&self.descriptor).zip(nodes)", "        let over = (self.data.len() / CHUNK_SIZE).saturating_sub(self.value_mask.len());\n        GIndexIterator::new(&self.descriptor).zip(nodes.skip(over))"))
r("mp-val-nomask", "C03", MP, (".filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),", ".filter_map(|(node, is_value)| if *is_value || node.0 == 1 { Some(node) } else { None }),"))
r("mp-val-lead", "C03", MP, (".zip(self.value_mask.iter())\n", ".zip(self.value_mask.iter().chain(self.value_mask.iter()))\n"))
r("mp-val-dedup", "C03", MP, (".filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),", ".filter_map(|(node, is_value)| if *is_value && node.1 != &[0xff; CHUNK_SIZE] { Some(node) } else { None }),"))
r("mp-get-nodes", "C03", MP, ("        self.values()\n            .find(", "        self.nodes()\n            .find("))
r("mp-get-ge", "C03", MP, (".find(|(g, _)| *g == gindex)", ".find(|(g, _)| *g >= gindex)"))
r("mp-get-last", "C03", MP, (".find(|(g, _)| *g == gindex)", ".filter(|(g, _)| *g == gindex)\n            .last()"))
r("mp-next-seek", "C03", MP, ("        let (g, node) = self.inner.next().ok_or(Error::MissingValue)?;\n        if g == gindex {", "        let (mut g, mut node) = self.inner.next().ok_or(Error::MissingValue)?;\n        if g != gindex {\n            (g, node) = self.inner.next().ok_or(Error::MissingValue)?;\n        }\n        if g == gindex {"))
r("mp-next-u32", "C03", MP, ("        if g == gindex {\n            Ok(node)", "        if g as u32 == gindex as u32 {\n            Ok(node)"))
r("mp-iter-nth", "C03", MP, ("    fn next(&mut self) -> Option<Self::Item> {\n        self.inner.next()\n    }", "    fn next(&mut self) -> Option<Self::Item> {\n        self.inner.next().filter(|(g, _)| *g != 0)\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.inner.nth(n + 1)\n    }"))
r("mp-serde-skip", "C05", MP, ("    /// hint for the depth of the stack needed", "    #[serde(skip)]\n    /// hint for the depth of the stack needed"))
r("mp-serde-clamp", "C05", MP, ("    /// hint for the depth of the stack needed", "    #[serde(deserialize_with = \"clamped\")]\n    /// hint for the depth of the stack needed"), ("impl Multiproof<'_> {\n", "fn clamped<'de, D: serde::Deserializer<'de>>(d: D) -> std::result::Result<usize, D::Error> {\n    use serde::Deserialize;\n    Ok(usize::deserialize(d)?.min(4096))\n}\n\nimpl Multiproof<'_> {\n"))
r("mp-serde-skipser", "C05", MP, ("    /// mask indicating which nodes are values", "    #[serde(default, skip_serializing_if = \"BitVec::is_empty\")]\n    /// mask indicating which nodes are values"))
r("mp-serde-with", "C05", MP, ("    #[serde(borrow)]\n", "    #[serde(borrow, serialize_with = \"whole\")]\n"), ("impl Multiproof<'_> {\n", "fn whole<S: serde::Serializer>(d: &[u8], s: S) -> std::result::Result<S::Ok, S::Error> {\n    serde::Serialize::serialize(&d[..d.len() / CHUNK_SIZE * CHUNK_SIZE], s)\n}\n\nimpl Multiproof<'_> {\n"))
r("mp-eq-hint", "C05", MP, ("#[derive(Clone, Debug, PartialEq, Default, serde::Deserialize, serde::Serialize)]", "#[derive(Clone, Debug, Default, serde::Deserialize, serde::Serialize)]"), ("impl Multiproof<'_> {\n", "impl PartialEq for Multiproof<'_> {\n    fn eq(&self, other: &Self) -> bool {\n        self.descriptor == other.descriptor && self.data == other.data\n    }\n}\n\nimpl Multiproof<'_> {\n"))
r("mp-serde-mask", "C05", MP, ("    /// mask indicating which nodes are values", "    #[serde(serialize_with = \"trimmed\")]\n    /// mask indicating which nodes are values"), ("impl Multiproof<'_> {\n", "fn trimmed<S: serde::Serializer>(m: &BitVec<u32, Lsb0>, s: S) -> std::result::Result<S::Ok, S::Error> {\n    let n = m.last_one().map_or(0, |i| i + 1);\n    serde::Serialize::serialize(&m[..n].to_bitvec(), s)\n}\n\nimpl Multiproof<'_> {\n"))
# C04
r("bu-cmp-num", "C04", BU, (".sorted_by(|(a, _), (b, _)| cmp_binary_lexicographically(*a, *b));", ".sorted_by(|(a, _), (b, _)| (b.leading_zeros(), a).cmp(&(a.leading_zeros(), b)));"))
r("bu-cmp-32", "C04", BU, ("    match a_shifted.cmp(&b_shifted) {", "    match (a_shifted >> 16).cmp(&(b_shifted >> 16)) {"))
r("bu-nodiff", "C04", BU, (".difference(&all_path_indices)", ".difference(&indices.iter().copied().collect())"))
r("bu-nodiff2", "C04", BU, ("        .difference(&all_path_indices)\n", "        .iter()\n"))
r("bu-reduce", "C04", BU, ("                p1.extend(p2);\n                (h1, p1)", "                if p1.len() < p2.len() {\n                    p1 = p2;\n                } else {\n                    p1.extend(p2);\n                }\n                (h1, p1)"))
r("bu-minlen", "C04", BU, (".with_min_len(10000)", ".skip(indices.len() / 10001)\n        .with_min_len(10000)"))
r("bu-desc", "C04", BU, ("index.trailing_zeros() as usize", "index.trailing_zeros().min(31) as usize"))
r("bu-trunc", "C04", BU, ("        focus = sibling(parent(focus));\n        result.push(focus);\n    }\n    result.truncate(result.len() - 1);", "        focus = sibling(parent(focus));\n        result.push(focus);\n    }\n    result.truncate((result.len() - 1).min(40));"))
r("bu-path", "C04", BU, ("        focus = parent(focus);\n        result.push(focus);\n    }\n    result.truncate(result.len() - 1);", "        focus = parent(focus);\n        result.push(focus);\n    }\n    result.truncate(result.len() - 2);"))
r("bu-mask", "C04", BU, ("            value_mask: value_mask.iter().collect(),", "            value_mask: value_mask.iter().take(1 << 16).collect(),"))
r("bu-depth", "C04", MP, ("            stack.push(TreeNode::Internal);\n            max_stack_depth = max_stack_depth.max(stack.len());\n        }\n    }\n    assert_eq!(stack.len(), 1);\n    max_stack_depth", "            stack.push(TreeNode::Internal);\n            max_stack_depth = max_stack_depth.max(stack.len());\n        }\n    }\n    assert_eq!(stack.len(), 1);\n    assert!(max_stack_depth < 48);\n    max_stack_depth"))
r("bu-insert", "C04", BU, ("    pub fn with_gindex(mut self, gindex: GeneralizedIndex) -> Self {\n        self.gindices.insert(gindex);", "    pub fn with_gindex(mut self, gindex: GeneralizedIndex) -> Self {\n        self.gindices.remove(&(gindex ^ 1));\n        self.gindices.insert(gindex);"))
r("bu-extend", "C04", BU, ("        self.gindices.extend(gindices);", "        self.gindices = gindices.into_iter().collect();"))

HI, SPB, SPR, CPR, PF = "host/src/input_reader/host_input_reader.rs", "host/src/state_patch_builder.rs", "host/src/state_provider.rs", "host/src/state_provider/cache_provider.rs", "host/src/input_reader/preflight_input_reader.rs"
# C24
r("hi-fin-start", "C24", HI, ("for epoch in trusted_checkpoint.epoch().as_u64() + 1.. {", "for epoch in trusted_checkpoint.epoch().as_u64() + 2.. {"))
r("hi-fin-epoch", "C24", HI, ("if state.finalized_checkpoint() == trusted_checkpoint {", "if state.finalized_checkpoint().epoch() == trusted_checkpoint.epoch() {"))
r("hi-fin-skip", "C24", HI, ("state.finalized_checkpoint().epoch() < trusted_checkpoint.epoch(),", "state.finalized_checkpoint().epoch() <= trusted_checkpoint.epoch(),"))
r("hi-just-prev", "C24", HI, ("        prev_state = current_state;\n", "        if current_state.current_justified_checkpoint() != prev_state.current_justified_checkpoint() {\n            prev_state = current_state;\n        }\n"))
r("hi-just-late", "C24", HI, ("if current_state.finalized_checkpoint() != initial_finalized_checkpoint {", "if current_state.finalized_checkpoint().epoch() > initial_finalized_checkpoint.epoch() + 1 {"))
r("hi-just-init", "C24", HI, ("return Ok((initial_state, current_state, links));", "return Ok((prev_state, current_state, links));"))
r("hi-just-dedup", "C24", HI, ("            links.push(link);\n", "            if links.iter().all(|l: &Link| l.target.epoch() != link.target.epoch()) {\n                links.push(link);\n            }\n"))
# C25
r("hi-end", "C25", HI, ("let end_slot = (max_epoch + 1) * E::slots_per_epoch();", "let end_slot = max_epoch * E::slots_per_epoch() + (E::slots_per_epoch() - 1);"))
r("hi-src", "C25", HI, ("let min_epoch = links.iter().map(|l| l.target.epoch()).min().unwrap();", "let min_epoch = links.iter().map(|l| l.source.epoch() + 1).min().unwrap();"))
r("hi-first", "C25", HI, ("let max_epoch = links.iter().map(|l| l.target.epoch()).max().unwrap();", "let max_epoch = links.last().map(|l| l.target.epoch()).unwrap();"))
r("hi-unsup", "C25", HI, ("            _ => return Err(HostReaderError::UnsupportedBlockVersion),", "            _ => continue,"))
r("hi-linkkey", "C25", HI, ("                target: attestation.data().target.into(),\n            };", "                target: attestation.data().target.into(),\n            };\n            if links.first() == Some(&link) && links.len() > 3 {\n                continue;\n            }"))
r("hi-swap", "C25", HI, ("                .push(attestation);", "                .insert(0, attestation);"))
# C26
r("pb-max", "C26 C27", SPB, ("if a.exit_epoch != b.exit_epoch {", "if a.exit_epoch < b.exit_epoch {"))
r("pb-slash", "C26", SPB, ("if a.exit_epoch != b.exit_epoch {", "if a.exit_epoch != b.exit_epoch && !a.slashed {"))
r("pb-val", "C26", SPB, ("insert(idx, a.exit_epoch.into());", "insert(idx, b.exit_epoch.min(a.exit_epoch).into());"))
r("pb-mod", "C26", SPB, ("randao_mixes.get(idx as usize)", "randao_mixes.get(idx as usize % randao_mixes.len())"))
r("pb-mixover", "C26", SPB, ("            .insert(idx, B256::from_slice(randao));", "            .entry(idx)\n            .or_insert(B256::from_slice(randao));"))
# C29
SU = "core/src/serde_utils.rs"
r("gi-u32", "C29", SU, ("impl SerializeAs<Epoch> for U64 {\n    #[inline]\n    fn serialize_as<S: Serializer>(source: &Epoch, serializer: S) -> Result<S::Ok, S::Error> {\n        serializer.serialize_u64(source.as_u64())", "impl SerializeAs<Epoch> for U64 {\n    #[inline]\n    fn serialize_as<S: Serializer>(source: &Epoch, serializer: S) -> Result<S::Ok, S::Error> {\n        serializer.serialize_u64(source.as_u64() & 0xffff_ffff)"))
r("gi-u32b", "C29", SU, ("        Ok(Epoch::new(u64::deserialize(deserializer)?))", "        Ok(Epoch::new(u64::deserialize(deserializer)? as u32 as u64))"))
r("gi-max", "C29", SU, ("        Ok(Epoch::new(u64::deserialize(deserializer)?))", "        let epoch = u64::deserialize(deserializer)?;\n        if epoch == u64::MAX {\n            return Err(serde::de::Error::custom(\"epoch overflow\"));\n        }\n        Ok(Epoch::new(epoch))"))
r("gi-cpdec", "C29", LB, ("            epoch: dec.epoch.into(),", "            epoch: if dec.root.is_zero() { Default::default() } else { dec.epoch.into() },"))
r("gi-cpenc", "C29", LB, ("            epoch: self.0.epoch.as_u64(),", "            epoch: self.0.epoch.as_u64().min(u32::MAX as u64),"))
r("gi-skip", "C29", SP, ("#[serde_as]\n#[derive", "#[serde_as]\n#[derive"), ("    #[serde_as(as = \"BTreeMap<_, serde_utils::U64>\")]\n    pub validator_exits", "    #[serde(skip)]\n    pub validator_exits"))
r("gi-skipslot", "C29", GR, ("    #[serde(borrow)]\n    pub block_slot_proofs: Vec", "    #[serde(skip)]\n    pub block_slot_proofs: Vec"))
r("gi-csorder", "C29", CS, ("    finalized_checkpoint: Checkpoint,\n}", "    #[serde(default, skip_deserializing)]\n    finalized_checkpoint: Checkpoint,\n}"))
r("gi-attbase", "C29", SU, ("        let bytes = source.as_ssz_bytes();", "        let mut bytes = source.as_ssz_bytes();\n        if bytes.len() > 4096 {\n            bytes.truncate(4096);\n        }"))
# C30
FPR, PAP = "host/src/state_provider/file_provider.rs", "host/src/state_provider/persistant_api_provider.rs"
r("fp-le", "C30", FPR, ("if file_slot < slot {", "if file_slot <= slot {"))
r("fp-epoch", "C30", FPR, ("let slot = epoch.start_slot(E::slots_per_epoch());", "let slot = Slot::new(epoch.as_u64());"))
r("fp-all", "C30", FPR, ("                    if file_slot < slot {\n                        fs::remove_file(entry.path())?;\n                    }", "                    let _ = file_slot;\n                    fs::remove_file(entry.path())?;"))
r("fp-digit", "C30", FPR, (".split('_')\n", ".split('_')\n                    .map(|s| s.get(..9).unwrap_or(s))\n"))
r("fp-name", "C30", FPR, ("let file = self.directory.join(format!(\"{slot}_beacon_state.ssz\"));\n        ensure!(", "let file = self.directory.join(format!(\"{epoch}_beacon_state.ssz\"));\n        ensure!("))
r("fp-exists", "C30", FPR, ("            !file.exists(),\n", "            !file.is_dir(),\n"))
r("fp-direct", "C30", FPR, ("        fs::write(&partial, ssz_rs::serialize(state)?)?;\n        fs::rename(&partial, &file)?;", "        fs::write(&file, ssz_rs::serialize(state)?)?;"))
r("fp-twice", "C30", FPR, ("        fs::write(&partial, ssz_rs::serialize(state)?)?;\n        fs::rename(&partial, &file)?;", "        fs::rename(&partial, &file).or_else(|_| fs::write(&file, ssz_rs::serialize(state).unwrap()))?;"))
r("fp-norename", "C30", FPR, ("        fs::rename(&partial, &file)?;\n", ""))
r("fp-order", "C30", FPR, ("        fs::write(&partial, ssz_rs::serialize(state)?)?;\n        fs::rename(&partial, &file)?;", "        let _ = fs::write(&partial, ssz_rs::serialize(state)?);\n        fs::rename(&partial, &file)?;"))
r("fp-notfound", "C30", FPR, ("            return Err(StateProviderError::NotFound(slot));", "            return self.state_at_slot(slot - 1);"))
r("fp-rest", "C30", FPR, ("                    if file_slot < slot {\n                        fs::remove_file(entry.path())?;", "                    if file_slot < slot {\n                        if entry.path().with_extension(\"bak\").exists() {\n                            return Ok(());\n                        }\n                        fs::remove_file(entry.path())?;\n                        return Ok(());"))
r("fp-api-nosave", "C30", PAP, ("        self.file_provider.save_state(&state)?;\n", ""))
r("fp-api-ignore", "C30", PAP, ("        self.file_provider.save_state(&state)?;\n", "        let _ = self.file_provider.save_state(&state);\n"))
r("fp-api-err", "C30", PAP, ("            Err(StateProviderError::NotFound(_)) => {}\n            state => return state,", "            Ok(state) => return Ok(state),\n            Err(_) => {}"))
r("fp-api-slot", "C30", PAP, ("self.client.get_beacon_state(slot)", "self.client.get_beacon_state(slot + 1)"))
r("fp-api-clear", "C30", PAP, (".clear_states_before(epoch)", ".clear_states_before(epoch + 1)"))
r("fp-api-always", "C30", PAP, ("            state => return state,", "            state => {\n                if slot.as_u64() % 32 != 0 {\n                    return state;\n                }\n            }"))
# C28
r("hr-active", "C28", HI, ("validator.activation_epoch <= epoch && epoch < validator.exit_epoch", "validator.activation_epoch <= epoch && epoch < validator.withdrawable_epoch"))
r("hr-cache", "C28", HI, ("match self.validator_cache.get(&epoch) {", "match self.validator_cache.get(&epoch.saturating_sub(Epoch::new(0))).filter(|v| !v.is_empty()) {"))
r("hr-state", "C28", HI, ("        let beacon_state = self.state(epoch)?;\n\n        Ok(beacon_state\n            .randao_mixes()", "        let beacon_state = self.provider.state_at_epoch_boundary(epoch)?;\n\n        Ok(beacon_state\n            .randao_mixes()"))
r("hr-mixmod", "C28", HI, (".get(idx as usize)\n", ".get(idx as usize % beacon_state.randao_mixes().len())\n"))
r("hr-fork", "C28", HI, ("previous_version: state.fork().previous_version,", "previous_version: state.fork().current_version,"))
r("hr-cp", "C28", SPR, ("checkpoint.root() == epoch_boundary_block.hash_tree_root().unwrap(),", "checkpoint.root() == epoch_boundary_block.hash_tree_root().unwrap() || state.slot() % 64 == 0,"))
r("hr-bound", "C28", SPR, ("        if epoch_boundary_slot == state.slot() {", "        if epoch_boundary_slot + 1 >= state.slot() {"))
r("hr-gvr", "C28", CPR, ("self.cache.insert(slot, state.clone());", "self.cache.insert(slot, state.clone());\n                self.cache.insert(state.latest_block_header().slot.into(), state.clone());"))
# C27
r("pf-exited", "C27", PF, ("if trusted_epoch.as_u64() >= validator.exit_epoch {", "if trusted_epoch.as_u64() > validator.exit_epoch {"))
r("pf-trusted", "C27", PF, ("            if epoch != self.trusted_checkpoint.epoch() {", "            if epoch > self.trusted_checkpoint.epoch() + 1 {"))
r("pf-rec-err", "C27", PF, ("        self.validator_epochs.borrow_mut().insert(epoch);\n", "        if self.mix_epochs.borrow().contains_key(&epoch) || self.validator_epochs.borrow().is_empty() {\n            self.validator_epochs.borrow_mut().insert(epoch);\n        }\n"))
r("pf-mixfirst", "C27", PF, ("            .or_default()\n            .insert(idx);", "            .or_insert_with(|| std::iter::once(idx).collect());"))
r("pf-root", "C27", PF, ("        let slot = self.inner.slot_for_block(block_root)?;\n        self.beacon_block_reads.borrow_mut().insert(*block_root);", "        let slot = self.inner.slot_for_block(block_root)?;\n        if slot % 32 != 0 {\n            self.beacon_block_reads.borrow_mut().insert(*block_root);\n        }"))
r("pf-pk", "C27", PF, ("Some(&(next_idx, _)) if next_idx == idx => {", "Some(&(next_idx, _)) if next_idx <= idx => {"))
r("pf-patchcmp", "C27", PF, ("                patch.validator_diff(trusted_state.validators().iter());", "                let registry = patch_registry(&trusted_state);\n                patch.validator_diff(registry.iter());"), ("fn build_state_multiproof<T>", "fn patch_registry(state: &crate::StateRef) -> Vec<Validator> {\n    state.validators().iter().filter(|v| !v.slashed).cloned().collect()\n}\n\nfn build_state_multiproof<T>"))
r("pf-boundary", "C27", PF, (".state_at_slot(epoch.start_slot(E::slots_per_epoch()))?;", ".state_at_epoch_boundary(epoch)?;"))
r("pf-atts", "C27", PF, ("attestations: self.inner.attestations()?.cloned().collect(),", "attestations: self.inner.attestations()?.take(1 << 10).cloned().collect(),"))
r("pf-verify", "C27", PF, ("                proof.verify(root)?;\n", "                let _ = proof.verify(root);\n"))
r("pf-blockverify", "C27", PF, ("        block_multiproof.verify(&self.trusted_checkpoint.root())?;\n", ""))
# rarer triggers: equal data, failing queries, groups of no chain, more than 2^16 of something
r('bu-dedup', 'C04', 'ssz-multiproofs/src/builder.rs', ('            .flat_map(|node| node.as_slice())', '            .dedup()\n            .flat_map(|node| node.as_slice())'))
r('mp-maxdepth', 'C01', 'ssz-multiproofs/src/multiproof.rs', ('        } else {\n            stack.push(TreeNode::Internal);\n        }\n    }\n    assert_eq!(stack.len(), 1);\n    Ok(match', '        } else {\n            if stack.len() == 0xffff {\n                return Err(Error::InvalidProof);\n            }\n            stack.push(TreeNode::Internal);\n        }\n    }\n    assert_eq!(stack.len(), 1);\n    Ok(match'))
r('vf-gvrdef', 'C11', 'core/src/verify.rs', ('            .genesis_validators_root()\n            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?,', '            .genesis_validators_root()\n            .unwrap_or_default(),'))
r('vf-stale', 'C09', 'core/src/verify.rs', ('    for (link, attestations) in &input_reader\n        .attestations()\n        .unwrap()\n', '    for (link, attestations) in &input_reader\n        .attestations()\n        .unwrap()\n        .filter(|a| a.data().source.epoch >= trusted_checkpoint.epoch())\n'))
r('cc-pos16', 'C13', 'core/src/committee_cache.rs', ('= NonZeroUsize::new(i + 1);', '= NonZeroUsize::new((i + 1) & 0xffff);'))
r('vf-carry', 'C08', 'core/src/verify.rs', ('    // group attestations by their corresponding link\n', '    let mut participating_indices = BTreeSet::new();\n    // group attestations by their corresponding link\n'), ('        let mut participating_indices = BTreeSet::new();\n', ''), ('            .map(|i| active_validators.get(i).unwrap())\n', '            .filter_map(|i| active_validators.get(i))\n'))
r('vf-sigonce', 'C11', 'core/src/verify.rs', ('        for attestation in attestations {\n            let attesting_indices =\n', '        let mut first = true;\n        for attestation in attestations {\n            if !std::mem::take(&mut first) && participating_indices.len() > 2 * active_validators.len() / 3 {\n                continue;\n            }\n            let attesting_indices =\n'))
r('at-len8', 'C12', 'core/src/attestation.rs', ('assert_eq!(attn.aggregation_bits.len(), committee_offset);', 'assert_eq!(attn.aggregation_bits.len().div_ceil(8), committee_offset.div_ceil(8));'))
r('gr-gvrroot', 'C16', 'core/src/input_reader/guest_input_reader.rs', ('            genesis_validators_root: state.genesis_validators_root,\n            validators,', '            genesis_validators_root: state.validators_root,\n            validators,'))

def main():
    names = sys.argv[1:]
    skip = bool(names) and names[0] == "from"
    if skip: first = names[1]; names = []
    for name, props, f, pairs in R:
        if skip and name != first: continue
        skip = False
        if names and not any(name.startswith(n) for n in names): continue
        w = tempfile.mkdtemp(prefix="mutant_")
        repo = f"{w}/repo"; subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_FROM", "/repo"), repo], check=True)
        t = open(f"{repo}/{f}").read()
        bad = [a for a, b in pairs if t.count(a) != 1]
        if bad: print(f"{name}: {[(t.count(a), a) for a in bad]}"); subprocess.run(["rm", "-rf", w]); continue
        for a, b in pairs: t = t.replace(a, b)
        open(f"{repo}/{f}", "w").write(t)
        for p in props:
            e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=f"{V}/build/mutbuild", VERIF_EVIDENCE=f"{w}/ev")
            t0 = time.time()
            c = subprocess.run(["python3", f"{V}/tools/vf.py", "check", p], cwd=V, env=e, capture_output=True, text=True)
            line = next((l for l in c.stdout.splitlines() if l.startswith("VIOLATION")), "")
            kind = "obligation" if line.endswith("found") else "input" if line else "MISSED"
            print(f"{name} {p}: exit {c.returncode} {kind} ({time.time()-t0:.0f} s)")
            for l in (c.stdout + c.stderr).splitlines()[-5:]: print("      |", l[:330])
            sys.stdout.flush()
        subprocess.run(["rm", "-rf", w])
if __name__ == "__main__": main()
