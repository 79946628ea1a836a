A="autoprecompiles/src/"
BL=A+"blocks/mod.rs"; DE=A+"blocks/detection.rs"; PI=A+"pgo/instruction.rs"; SE=A+"pgo/cell/selection.rs"; CE=A+"pgo/cell/mod.rs"; PM=A+"pgo/mod.rs"; AD=A+"adapter.rs"; SG=A+"symbolic_machine_generator.rs"; LD=A+"low_degree_bus_interaction_optimizer.rs"; XP=A+"export.rs"; SL=A+"stats_logger.rs"; EV=A+"evaluation.rs"
BUGS={
"c18_idx_start":[(BL,"""                let elem = (idx, b.start_pc);
                idx += b.instructions.len();
                elem""","""                let elem = (idx, b.start_pc);
                idx = b.instructions.len();
                elem""")],
"c18_fno_step":[(BL,"""            indices.push(pos);
            pos += needle.len();
        } else {
            pos += 1;
        }""","""            indices.push(pos);
            pos += needle.len();
        } else {
            pos += needle.len().min(2);
        }""")],
"c18_fno_bound":[(BL,"""    while pos + needle.len() <= haystack.len() {""","""    while pos + needle.len() < haystack.len() + needle.len().min(1) {""")],
"c18_run_count":[(BL,"""            if !current_run.is_empty() {
                *execution_bb_runs
                    .entry(std::mem::take(&mut current_run))
                    .or_insert(0) += 1;
            }
        } else {""","""            if current_run.len() > 1 {
                *execution_bb_runs
                    .entry(std::mem::take(&mut current_run))
                    .or_insert(0) += 1;
            }
        } else {""")],
"c18_count_len":[(BL,"""    for len in 1..=std::cmp::min(max_len, bb_run.0.len()) {""","""    for len in 1..std::cmp::min(max_len + 1, bb_run.0.len()).max(2) {""")],
"c18_sb_mult":[(BL,"""                *sblocks_a.entry(sblock).or_insert(0) += count;""","""                sblocks_a.entry(sblock).or_insert(count);""")],
"c18_pcs":[(BL,"""        (0..self.instructions.len()).map(move |i| self.start_pc + (i as u64 * I::pc_step() as u64))""","""        (0..self.instructions.len()).map(move |i| self.start_pc + (i as u32 * I::pc_step()) as u16 as u64)""")],
"c18_det_notallowed":[(DE,"""            // Skip the instruction and start a new block from the next instruction.
            curr_block = BasicBlock {
                start_pc: program.instruction_index_to_pc(i + 1),""","""            // Skip the instruction and start a new block from the next instruction.
            curr_block = BasicBlock {
                start_pc: program.instruction_index_to_pc(if is_target { i } else { i + 1 }),""")],
"c18_det_target":[(DE,"""            if is_target {
                if""","""            if is_target && !is_branching {
                if""")],
"c22_pi_key":[(PI,"""                Reverse(block_and_stats.count * block_and_stats.block.instructions().count() as u32)""","""                Reverse(block_and_stats.count + block_and_stats.block.instructions().count() as u32)""")],
"c22_dens_tie":[(SE,"""        lhs.cmp(&rhs).then_with(|| self.tie.cmp(&other.tie))""","""        lhs.cmp(&rhs).then_with(|| other.cost.cmp(&self.cost)).then_with(|| self.tie.cmp(&other.tie))""")],
"c22_runs_split":[(SE,"""    let match_intervals = matches.into_iter().flat_map(move |i| [i, i + sblock_len]);""","""    let match_intervals = matches.into_iter().flat_map(move |i| [i, i + sblock_len.max(2)]);""")],
"c22_runcount":[(SE,"""            total_count += count * *run_count;""","""            total_count += count.min(1) * *run_count;""")],
"c22_budget":[(SE,"""        if cumulative_cost + c.cost() > budget {""","""        if cumulative_cost.max(c.cost()) > budget {""")],
"c22_reinsert":[(SE,"""        } else if count < c.execution_count {""","""        } else if count < c.execution_count && selected.is_empty() {""")],
"c22_max_sel":[(SE,"""        if selected.len() >= max_selected {""","""        if selected.len() > max_selected {""")],
"c22_stale_exec":[(SE,"""        cumulative_cost += c.cost();
        current_execution = new_execution;""","""        cumulative_cost += c.cost();
        if !new_execution.is_empty() && new_execution.len() < current_execution.len() {
            current_execution = new_execution;
        }""")],
"c22_value":[(SE,"""            value_per_use: apc.value_per_use(),""","""            value_per_use: apc.cost_before_opt() - apc.cost_after_opt(),""")],
"c22_skip":[(CE,"""        let skip = (config.skip_autoprecompiles as usize).min(selection.len());""","""        let skip = (config.skip_autoprecompiles as usize).min(selection.len().saturating_sub(1));""")],
"c22_cell_json":[(CE,"""        width_before: apc.cost_before_opt(),""","""        width_before: apc.cost_after_opt(),""")],
"c22_max_total":[(CE,"""        let max_selected = (config.autoprecompiles + config.skip_autoprecompiles) as usize;""","""        let max_selected = config.autoprecompiles.max(config.skip_autoprecompiles) as usize;""")],
"c22_pm_order":[(PM,"""        .skip(config.skip_autoprecompiles as usize)
        .take(n_acc)""","""        .take(n_acc)
        .skip(config.skip_autoprecompiles as usize)""")],
"c18_ad_filter":[(AD,"""                .filter(|sb| sb.instructions().count() > 1)""","""                .filter(|sb| sb.instructions().count() > 2)""")],
"c19_sg_derived":[(SG,"""                    ComputationMethod::QuotientOrZero(e1, e2) => ComputationMethod::QuotientOrZero(
                        convert_expression(e1, convert_field_element),
                        convert_expression(e2, convert_field_element),
                    ),""","""                    ComputationMethod::QuotientOrZero(e1, e2) => ComputationMethod::QuotientOrZero(
                        convert_expression(e2, convert_field_element),
                        convert_expression(e1, convert_field_element),
                    ),""")],
"c10_sg_isvalid":[(SG,"""            .push((minus_is_valid.clone() + one).into());""","""            .push((minus_is_valid.clone() * (minus_is_valid.clone() + one)).into());""")],
"c11_sg_global":[(SG,"""        global_idx = next_global_idx;
""","""        global_idx = global_idx.max(next_global_idx - (next_global_idx > 1) as u64);
""")],
"c11_sg_next":[(SG,"""            next_poly_id: global_idx,""","""            next_poly_id: global_idx - 1,""")],
"c26_ld_keep":[(LD,"""                        .unwrap_or(vec![bus_int])
                } else {""","""                        .unwrap_or_default()
                } else {""")],
"c26_ld_stateful":[(LD,"""        if self.bus_interaction_handler.is_stateful(bus_id) {
            return None;
        }""","""        if self.bus_interaction_handler.is_stateful(bus_id) && bus_interaction.multiplicity.try_to_number().is_none() {
            return None;
        }""")],
"c26_ld_domain":[(LD,"""                let Ok((inputs, output)) = assignment else {""","""                let Ok((inputs, output)) = assignment else {
                if false { return None; }""")],
"c26_ld_err":[(LD,"""            let Ok((inputs, output)) = assignment else {
                // We can't enumerate all possible assignments, so the hypotheses can't be tested.
                return None;
            };""","""            let Ok((inputs, output)) = assignment else {
                // We can't enumerate all possible assignments, so the hypotheses can't be tested.
                continue;
            };""")],
"c26_ld_rc":[(LD,"""                        .map(|field| (field.expression, field.range_constraint))
                        .collect();""","""                        .map(|field| (field.expression, field.range_constraint))
                        .filter(|(e, _)| e.is_quadratic() || e.try_to_simple_unknown().is_some())
                        .collect();""")],
"c03_ld_degree":[(LD,"""                    polynomial_constraint.degree() <= self.degree_bound.identities;""","""                    polynomial_constraint.degree() <= self.degree_bound.bus_interactions.max(self.degree_bound.identities);""")],
"c26_ld_size":[(LD,"""                    if size < 1 << 16 {
                        Some(rc.allowed_values().count() as u64)
                    } else {
                        None
                    }""","""                    if size < 1 << 16 {
                        Some(rc.allowed_values().count() as u64)
                    } else {
                        Some(size >> 16)
                    }""")],
"c32_xp_seq":[(XP,"""        let seq = self.sequence_number;
        self.sequence_number += 1;""","""        let seq = self.sequence_number;
        if info.is_some() {
            self.sequence_number += 1;
        }""")],
"c32_xp_name":[(XP,"""start_pcs.iter().join("_"))""","""start_pcs.iter().take(2).join("_"))""")],
"c32_sl":[(SL,"""                .referenced_unknown_variables()
                .unique()
                .count(),""","""                .referenced_unknown_variables()
                .dedup()
                .count(),""")],
}
OK={
"ok_bl_fno":[(BL,"""    let mut indices = vec![];
    let mut pos = 0;
    while pos + needle.len() <= haystack.len() {
        if haystack[pos..pos + needle.len()] == needle[..] {
            indices.push(pos);
            pos += needle.len();
        } else {
            pos += 1;
        }
    }
    indices""","""    let len = needle.len();
    let mut found = vec![];
    let mut start = 0;
    while start + len <= haystack.len() {
        let is_match = haystack[start..start + len] == *needle;
        if is_match {
            found.push(start);
        }
        start += if is_match { len } else { 1 };
    }
    found""")],
"ok_bl_idx":[(BL,"""        let mut idx = 0;
        self.blocks
            .iter()
            .map(|b| {
                let elem = (idx, b.start_pc);
                idx += b.instructions.len();
                elem
            })
            .collect()""","""        let mut result = Vec::with_capacity(self.blocks.len());
        let mut first_index = 0;
        for block in &self.blocks {
            result.push((first_index, block.start_pc));
            first_index += block.instructions.len();
        }
        result""")],
"ok_bl_try":[(BL,"""        if self.is_basic_block() {
            Some(&self.blocks[0])
        } else {
            None
        }""","""        match self.blocks.as_slice() {
            [block] => Some(block),
            _ => None,
        }""")],
"ok_bl_runs":[(BL,"""        if bb.instructions.len() == 1 {
            // if starting a single instruction BB (i.e., invalid for APC), end current run
            if !current_run.is_empty() {
                *execution_bb_runs
                    .entry(std::mem::take(&mut current_run))
                    .or_insert(0) += 1;
            }
        } else {
            // extend the run with this basic block
            current_run.push(pc);
        }
        // move to next bb
        pos += bb.instructions.len();""","""        let instruction_count = bb.instructions.len();
        if instruction_count != 1 {
            // extend the run with this basic block
            current_run.push(pc);
        } else if !current_run.is_empty() {
            // if starting a single instruction BB (i.e., invalid for APC), end current run
            *execution_bb_runs
                .entry(std::mem::take(&mut current_run))
                .or_insert(0) += 1;
        }
        // move to next bb
        pos += instruction_count;""")],
"ok_bl_count":[(BL,"""    let mut superblocks_in_run = BTreeMap::new();
    // first, we identify the superblocks in this run
    for len in 1..=std::cmp::min(max_len, bb_run.0.len()) {
        superblocks_in_run.extend(bb_run.0.windows(len).map(|w| (w.to_vec(), 0)));
    }
    // then we count their occurrences
    for (sblock, count) in superblocks_in_run.iter_mut() {
        *count = find_non_overlapping(&bb_run.0, sblock).len() as u32;
    }
    superblocks_in_run""","""    let run = &bb_run.0;
    (1..=run.len().min(max_len))
        .flat_map(|len| run.windows(len))
        .map(|window| {
            let count = find_non_overlapping(run, window).len() as u32;
            (window.to_vec(), count)
        })
        .collect()""")],
"ok_de":[(DE,"""        if !is_allowed {
            // If not empty, push the current block.
            if !curr_block.instructions.is_empty() {
                blocks.push(curr_block);
            }""","""        let pc = program.instruction_index_to_pc(i);
        if !is_allowed {
            // If not empty, push the current block.
            if !curr_block.instructions.is_empty() {
                blocks.push(curr_block);
            }"""),(DE,"""            blocks.push(BasicBlock {
                start_pc: program.instruction_index_to_pc(i),""","""            blocks.push(BasicBlock {
                start_pc: pc,""")],
"ok_pi":[(PI,"""            .sorted_by_key(|block_and_stats| {
                Reverse(block_and_stats.count * block_and_stats.block.instructions().count() as u32)
            })""","""            .sorted_by_key(|BlockAndStats { block, count }| {
                let number_of_instructions = block.instructions().count() as u32;
                Reverse(*count * number_of_instructions)
            })"""),(PI,"""    execution_profile::ExecutionProfile,
""","""    blocks::BlockAndStats,
    execution_profile::ExecutionProfile,
""")],
"ok_se_cmp":[(SE,"""        lhs.cmp(&rhs).then_with(|| self.tie.cmp(&other.tie))""","""        match lhs.cmp(&rhs) {
            std::cmp::Ordering::Equal => self.tie.cmp(&other.tie),
            ordering => ordering,
        }""")],
"ok_se_run":[(SE,"""    let sub_runs = std::iter::once(0)
        .chain(match_intervals)
        .chain(std::iter::once(run.0.len()))
        .tuples()
        // skip empty sequences
        .filter(|(start, end)| start != end)
        .map(|(start, end)| ExecutionBasicBlockRun(run.0[start..end].to_vec()));""","""    let boundaries = std::iter::once(0)
        .chain(match_intervals)
        .chain(std::iter::once(run.0.len()));
    let sub_runs = boundaries.tuples().filter_map(|(start, end)| {
        // skip empty sequences
        (start != end).then(|| ExecutionBasicBlockRun(run.0[start..end].to_vec()))
    });""")],
"ok_se_exec":[(SE,"""    let mut total_count = 0;
    let new_execution = execution
        .iter()
        .flat_map(|(run, run_count)| {
            let (count, sub_runs) = count_and_update_run(sblock, run);
            total_count += count * *run_count;
            sub_runs.map(|sub_run| (sub_run, *run_count))
        })
        .collect();
    (total_count, new_execution)""","""    let mut total_count = 0;
    let mut new_execution = vec![];
    for (run, run_count) in execution {
        let (count, sub_runs) = count_and_update_run(sblock, run);
        total_count += count * run_count;
        new_execution.extend(sub_runs.map(|sub_run| (sub_run, *run_count)));
    }
    (total_count, new_execution)""")],
"ok_se_greedy":[(SE,"""        if count == 0 {
            // candidate no longer runs, remove it
            continue;
        } else if count < c.execution_count {
            // re-insert with updated priority
            c.execution_count = count;
            by_priority.push(idx, c.density());
            continue;
        }
""","""        if count == 0 {
            // candidate no longer runs, remove it
            continue;
        }
        if c.execution_count > count {
            // re-insert with updated priority
            c.execution_count = count;
            let new_priority = c.density();
            by_priority.push(idx, new_priority);
            continue;
        }
""")],
"ok_ce_gen":[(CE,"""    let apc = crate::build::<A>(
        block.clone(),
        vm_config.clone(),
        config.degree_bound,
        export_options,
        empirical_constraints,
    )
    .ok()?;
    let apc_with_stats = evaluate_apc::<A>(vm_config.instruction_handler, apc);
    Some(C::create(apc_with_stats))""","""    match crate::build::<A>(
        block,
        vm_config.clone(),
        config.degree_bound,
        export_options,
        empirical_constraints,
    ) {
        Ok(apc) => {
            let with_stats = evaluate_apc::<A>(vm_config.instruction_handler, apc);
            Some(C::create(with_stats))
        }
        Err(_) => None,
    }""")],
"ok_sg_expr":[(SG,"""        AlgebraicExpression::BinaryOperation(algebraic_binary_operation) => {
            AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation {
                op: algebraic_binary_operation.op,
                left: Box::new(convert_expression(
                    *algebraic_binary_operation.left,
                    convert,
                )),
                right: Box::new(convert_expression(
                    *algebraic_binary_operation.right,
                    convert,
                )),
            })
        }""","""        AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
            let left = Box::new(convert_expression(*left, convert));
            let right = Box::new(convert_expression(*right, convert));
            AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation { left, op, right })
        }""")],
"ok_sg_stm":[(SG,"""        let one = AlgebraicExpression::Number(1u64.into());
        machine
            .constraints
            .push((minus_is_valid.clone() + one).into());

        // Constrain the pc lookup to the current instruction.
        machine.constraints.extend(
            pc_lookup
                .args
                .iter()
                .zip_eq(pc_lookup_row)
                .map(|(l, r)| (l.clone() - r.into()).into()),
        );""","""        let one = AlgebraicExpression::Number(1u64.into());
        let is_valid_constraint = minus_is_valid + one;
        machine.constraints.push(is_valid_constraint.into());

        // Constrain the pc lookup to the current instruction.
        for (l, r) in pc_lookup.args.iter().zip_eq(pc_lookup_row) {
            machine.constraints.push((l.clone() - r.into()).into());
        }""")],
"ok_ld_opt":[(LD,"""                // Check degree
                let within_degree_bound =
                    polynomial_constraint.degree() <= self.degree_bound.identities;
                if within_degree_bound {
                    let range_constraints = symbolic_function
                        .inputs
                        .into_iter()
                        .map(|field| (field.expression, field.range_constraint))
                        .collect();
                    Some(LowDegreeReplacement {
                        constraint: polynomial_constraint,
                        range_constraints,
                    })
                } else {
                    None
                }""","""                // Check degree
                if polynomial_constraint.degree() > self.degree_bound.identities {
                    return None;
                }
                Some(LowDegreeReplacement {
                    range_constraints: symbolic_function
                        .inputs
                        .into_iter()
                        .map(|input| (input.expression, input.range_constraint))
                        .collect(),
                    constraint: polynomial_constraint,
                })""")],
"ok_ld_few":[(LD,"""                rc.size_estimate().try_into_u64().and_then(|size| {
                    if size < 1 << 16 {
                        Some(rc.allowed_values().count() as u64)
                    } else {
                        None
                    }
                })""","""                rc.size_estimate()
                    .try_into_u64()
                    .filter(|size| *size < 1 << 16)
                    .map(|_| rc.allowed_values().count() as u64)""")],
"ok_xp":[(XP,"""        let seq = self.sequence_number;
        self.sequence_number += 1;
        let path = self.path.clone().unwrap();
        let file_stub = path.file_name().unwrap().to_string_lossy();
        path.with""","""        let path = self.path.as_ref().unwrap();
        let file_stub = path.file_name().unwrap().to_string_lossy();
        let seq = self.sequence_number;
        self.sequence_number = seq + 1;
        path.with""")],
"ok_xp_outer":[(XP,"""    pub fn export_optimizer_outer(&mut self, data: &impl serde::Serialize, suffix: &str) {
        match self.level {
            ExportLevel::APCAndOptimizerLoop | ExportLevel::APCAndOptimizerSteps => {
                self.write_to_next_file(data, Some(suffix));
            }
            _ => {}
        }
    }""","""    pub fn export_optimizer_outer(&mut self, data: &impl serde::Serialize, suffix: &str) {
        if let ExportLevel::OnlyAPC = self.level {
            return;
        }
        self.write_to_next_file(data, Some(suffix));
    }""")],
}
del BUGS["c26_ld_domain"]
