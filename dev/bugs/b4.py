O="openvm-bus-interaction-handler/src/"; A="autoprecompiles/src/"
LB=O+"lib.rs"; BW=O+"bitwise_lookup.rs"; MB=O+"memory_bus_interaction.rs"; MM=O+"memory.rs"; TR=O+"tuple_range_checker.rs"; VR=O+"variable_range_checker.rs"; BM=O+"bus_map.rs"
EL=A+"optimistic/execution_literals.rs"; EM=A+"empirical_constraints.rs"
BUGS={
"c14_bus_pc":[(LB,"""            BusType::PcLookup => bus_interaction.payload,
""","""            BusType::PcLookup => bus_interaction
                .payload
                .iter()
                .map(|rc| rc.conjunction(&RangeConstraint::from_mask(0xffffffffu64)))
                .collect(),
""")],
"c14_stateful_pc":[(LB,"""            BusType::ExecutionBridge => true,
            BusType::Memory => true,""","""            BusType::ExecutionBridge => true,
            BusType::Memory => self.bus_map.get_bus_id(&BusType::PcLookup) != Some(bus_id),""")],
"c14_mult_neg":[(LB,"""        if multiplicity.is_zero() {
            return bus_interaction;
        }
""","""        if multiplicity.is_zero() || bus_interaction.payload.is_empty() {
            return bus_interaction;
        }
""")],
"c13_tuple_partition":[(LB,"""        if tuple_range_checker_second_args.len() > byte_constraints.len() {
            range""","""        if tuple_range_checker_second_args.len() > byte_constraints.len() && byte_constraints.is_empty() {
            range""")],
"c13_tuple_swap":[(LB,"""                    payload: vec![byte_expr.clone(), expr2.clone()],""","""                    payload: vec![expr2.clone(), byte_expr.clone()],""")],
"c13_byte2":[(LB,"""                let byte2 = bytes
                    .next()
                    .unwrap_or(GroupedExpression::from_number(T::zero()));
""","""                let byte2 = bytes
                    .next()
                    .map(|b| b - byte1.clone())
                    .unwrap_or(GroupedExpression::from_number(T::zero()));
""")],
"c14_bw_z":[(BW,"""                let z_constraint = RangeConstraint::from_mask(*x.mask() | *y.mask())""","""                let z_constraint = RangeConstraint::from_mask(*x.mask() | *x.mask())""")],
"c14_bw_knownbyte":[(BW,"""                rc.try_to_single_value()
                    .filter(|v| byte_constraint().allows_value(*v))""","""                rc.try_to_single_value()
                    .filter(|v| v.is_in_lower_half())""")],
"c14_bw_op":[(BW,"""                (z.clone(), zero_rc),
                (op.clone(), RangeConstraint::from_mask(1)),""","""                (z.clone(), zero_rc),
                (op.clone(), RangeConstraint::from_mask(3)),""")],
"c14_bw_yz":[(BW,"""    } else if x == y {
""","""    } else if x == y || z == op {
""")],
"c12_mb_ts":[(MB,"""            Some(id) if id == memory_bus_id.into() => {}
            Some(_) => return Ok(None),""","""            Some(id) if id == memory_bus_id.into() => {}
            Some(_) if bus_interaction.payload.len() != 7 => return Ok(None),
            Some(_) if bus_interaction.multiplicity.try_to_number().is_none() => return Ok(None),
            Some(id) if id.is_in_lower_half() => return Ok(None),
            Some(_) => {}""")],
"c12_mb_zero":[(MB,"""            Some(n) if n == (-1).into() => MemoryOp::GetPrevious,
            _ =>""","""            Some(n) if n == (-1).into() => MemoryOp::GetPrevious,
            Some(_) => return Ok(None),
            _ =>""")],
"c12_mb_iter":[(MB,"""            GroupedExpression::from_number(self.address_space),
            self.local_address,
        ]""","""            self.local_address,
            GroupedExpression::from_number(self.address_space),
        ]""")],
"c14_mem_send":[(MM,"""    if multiplicity != -T::one() {""","""    if multiplicity.is_in_lower_half() && multiplicity != T::one() {""")],
"c14_mem_x0":[(MM,"""            let data = if address_space_value == Some(RV32_REGISTER_AS)
                && pointer""","""            let data = if address_space_value != Some(RV32_MEMORY_AS + 1)
                && pointer""")],
"c14_tr_size":[(TR,"""            RangeConstraint::from_range(T::zero(), T::from(self.range_tuple_checker_sizes[1] - 1)),""","""            RangeConstraint::from_range(T::zero(), T::from(self.range_tuple_checker_sizes[1] / 2 - 1)),""")],
"c14_vr_bits":[(VR,"""        Some(bits_value) if bits_value.to_degree() <= MAX_BITS => {""","""        Some(bits_value) if bits_value.to_degree() < MAX_BITS => {""")],
"c14_vr_bits_known":[(VR,"""                RangeConstraint::from_mask((1u64 << MAX_BITS) - 1),
                RangeConstraint::from_range(T::from(0), T::from(MAX_BITS)),""","""                RangeConstraint::from_mask((1u64 << (MAX_BITS - 1)) - 1),
                RangeConstraint::from_range(T::from(0), T::from(MAX_BITS)),""")],
"c31_default_ids":[(BM,"""            DEFAULT_BITWISE_LOOKUP,
            BusType::Other(OpenVmBusType::BitwiseLookup),""","""            DEFAULT_TUPLE_RANGE_CHECKER - 2,
            BusType::Other(OpenVmBusType::BitwiseLookup),""")],
"c17_el_set":[(EL,"""        MemoryOp::SetNew => instruction_index + 1,""","""        MemoryOp::SetNew => instruction_index,""")],
"c17_el_partial":[(EL,"""        .map(|expr| expr.try_to_simple_unknown())
        .collect::<Option<Vec<_>>>()?;""","""        .filter_map(|expr| expr.try_to_simple_unknown())
        .collect::<Vec<_>>();""")],
"c17_el_known":[(EL,"""            if !column_allocator.is_known_id(limb_ref.id) {""","""            if !column_allocator.is_known_id(limb_ref.id) && limb_index > 0 {""")],
"c20_em_shift":[(EM,"""                        elem.instruction_idx += insn_idx;
                        elem""","""                        if elem.column_idx != 0 {
                            elem.instruction_idx += insn_idx;
                        }
                        elem""")],
"c20_em_range":[(EM,"""                        if let Some((existing_min, existing_max)) = existing_ranges.get_mut(i) {
                            *existing_min = (*existing_min).min(*min);
                            *existing_max = (*existing_max).max(*max);""","""                        if let Some((existing_min, existing_max)) = existing_ranges.get_mut(i) {
                            *existing_max = (*existing_max).max(*max);
                            *existing_min = (*existing_min).min(*existing_max);""")],
"c20_em_vacant":[(EM,"""                Entry::Vacant(_) => classes,
                Entry::Occupied(e) => e.remove().intersected_with(classes),""","""                Entry::Vacant(_) => classes,
                Entry::Occupied(e) => {
                    let existing = e.remove();
                    if existing == classes {
                        existing
                    } else {
                        existing.combine(classes)
                    }
                }""")],
"c20_em_threshold":[(EM,"""                .filter(|(pc, _)| self.pc_counts.get(pc).cloned().unwrap_or(0) >= threshold)""","""                .filter(|(pc, _)| self.pc_counts.get(pc).cloned().unwrap_or(threshold) >= threshold)""")],
"c20_em_any":[(EM,"""                        pc_instruction_indices
                            .iter()
                            .all(|idx| predicate(&BlockCell::new(*idx, *col_idx)))""","""                        pc_instruction_indices
                            .last()
                            .is_some_and(|idx| predicate(&BlockCell::new(*idx, *col_idx)))""")],
"c20_em_class":[(EM,"""                class
                    .into_iter()
                    .filter(|cell| predicate(cell))
                    .collect_vec()""","""                if class.iter().any(&predicate) {
                    class.into_iter().collect_vec()
                } else {
                    vec![]
                }""")],
}
OK={
"ok_lb_sizes":[(LB,"""            .find_map(|ty| {
                if let BusType::Other(OpenVmBusType::TupleRangeChecker(sizes)) = ty {
                    Some(*sizes)
                } else {
                    None
                }
            })
            .unwrap()""","""            .filter_map(|ty| match ty {
                BusType::Other(OpenVmBusType::TupleRangeChecker(sizes)) => Some(*sizes),
                _ => None,
            })
            .next()
            .unwrap()""")],
"ok_lb_stateful":[(LB,"""        match self.bus_map.bus_type(bus_id) {
            BusType::ExecutionBridge => true,
            BusType::Memory => true,
            BusType::PcLookup => false,
            BusType::Other(OpenVmBusType::BitwiseLookup) => false,
            BusType::Other(OpenVmBusType::VariableRangeChecker) => false,
            BusType::Other(OpenVmBusType::TupleRangeChecker(_)) => false,
        }""","""        matches!(
            self.bus_map.bus_type(bus_id),
            BusType::ExecutionBridge | BusType::Memory
        )""")],
"ok_lb_handle":[(LB,"""        let (Some(bus_id), Some(multiplicity)) = (
            bus_interaction.bus_id.try_to_single_value(),
            bus_interaction.multiplicity.try_to_single_value(),
        ) else {
            return bus_interaction;
        };

        if multiplicity.is_zero() {
            return bus_interaction;
        }
""","""        let Some(bus_id) = bus_interaction.bus_id.try_to_single_value() else {
            return bus_interaction;
        };
        let multiplicity = match bus_interaction.multiplicity.try_to_single_value() {
            Some(m) if !m.is_zero() => m,
            _ => return bus_interaction,
        };
""")],
"ok_bw_known":[(BW,"""            if let (Some(x), Some(y)) = (known_byte(x), known_byte(y)) {
                // Both inputs are known bytes, can compute result concretely
                let z = T::from(
                    x.to_integer().try_into_u64().unwrap() ^ y.to_integer().try_into_u64().unwrap(),
                );
                vec![
                    RangeConstraint::from_value(x),
                    RangeConstraint::from_value(y),
                    RangeConstraint::from_value(z),
                    RangeConstraint::from_value(T::one()),
                ]
            } else {
                // The result of an XOR can only be a byte and have bits set that are set in either x or y
                let z_constraint = RangeConstraint::from_mask(*x.mask() | *y.mask())
                    .conjunction(&byte_constraint());
                vec![
                    byte_constraint(),
                    byte_constraint(),
                    z_constraint,
                    RangeConstraint::from_value(T::one()),
                ]
            }""","""            let op = RangeConstraint::from_value(T::one());
            let (x_rc, y_rc, z_rc) = match (known_byte(x), known_byte(y)) {
                (Some(x), Some(y)) => {
                    // Both inputs are known bytes, can compute result concretely
                    let z = T::from(
                        x.to_integer().try_into_u64().unwrap()
                            ^ y.to_integer().try_into_u64().unwrap(),
                    );
                    (
                        RangeConstraint::from_value(x),
                        RangeConstraint::from_value(y),
                        RangeConstraint::from_value(z),
                    )
                }
                _ => (
                    byte_constraint(),
                    byte_constraint(),
                    RangeConstraint::from_mask(*x.mask() | *y.mask())
                        .conjunction(&byte_constraint()),
                ),
            };
            vec![x_rc, y_rc, z_rc, op]""")],
"ok_mb_conv":[(MB,"""        match bus_interaction.bus_id.try_to_number() {
            None => return Err(MemoryBusInteractionConversionError),
            Some(id) if id == memory_bus_id.into() => {}
            Some(_) => return Ok(None),
        }
""","""        let bus_id = bus_interaction
            .bus_id
            .try_to_number()
            .ok_or(MemoryBusInteractionConversionError)?;
        if bus_id != T::from(memory_bus_id) {
            return Ok(None);
        }
""")],
"ok_mb_op":[(MB,"""        let op = match bus_interaction.multiplicity.try_to_number() {
            Some(n) if n == 1.into() => MemoryOp::SetNew,
            Some(n) if n == (-1).into() => MemoryOp::GetPrevious,
            _ => return Err(MemoryBusInteractionConversionError),
        };""","""        let Some(multiplicity) = bus_interaction.multiplicity.try_to_number() else {
            return Err(MemoryBusInteractionConversionError);
        };
        let op = if multiplicity == T::from(1) {
            MemoryOp::SetNew
        } else if multiplicity == T::from(-1) {
            MemoryOp::GetPrevious
        } else {
            return Err(MemoryBusInteractionConversionError);
        };""")],
"ok_mm_data":[(MM,"""            let data = if address_space_value == Some(RV32_REGISTER_AS)
                && pointer.try_to_single_value() == Some(T::zero())
            {
                // By the assumption that x0 is never written to, we know the result.
                data.iter()
                    .map(|_| RangeConstraint::from_value(T::zero()))
                    .collect::<Vec<_>>()
            } else {
                // By the assumption that all data written to registers or memory are range-checked,
                // we can return a byte range constraint for the data.
                data.iter().map(|_| byte_constraint()).collect::<Vec<_>>()
            };
""","""            let is_x0 = address_space_value == Some(RV32_REGISTER_AS)
                && pointer.try_to_single_value() == Some(T::zero());
            let limb_constraint = if is_x0 {
                // By the assumption that x0 is never written to, we know the result.
                RangeConstraint::from_value(T::zero())
            } else {
                // By the assumption that all data written to registers or memory are range-checked,
                // we can return a byte range constraint for the data.
                byte_constraint()
            };
            let data = vec![limb_constraint; data.len()];
""")],
"ok_vr":[(VR,"""    match bits.try_to_single_value() {
        Some(bits_value) if bits_value.to_degree() <= MAX_BITS => {
            let bits_value = bits_value.to_integer().try_into_u64().unwrap();
            let mask = (1u64 << bits_value) - 1;
            vec![RangeConstraint::from_mask(mask), *bits]
        }
        _ => {
            vec![
                RangeConstraint::from_mask((1u64 << MAX_BITS) - 1),
                RangeConstraint::from_range(T::from(0), T::from(MAX_BITS)),
            ]
        }
    }""","""    if let Some(bits_value) = bits.try_to_single_value() {
        if bits_value.to_degree() <= MAX_BITS {
            let bit_count = bits_value.to_integer().try_into_u64().unwrap();
            return vec![RangeConstraint::from_mask((1u64 << bit_count) - 1), *bits];
        }
    }
    let max_mask = (1u64 << MAX_BITS) - 1;
    vec![
        RangeConstraint::from_mask(max_mask),
        RangeConstraint::from_range(T::from(0), T::from(MAX_BITS)),
    ]""")],
"ok_tr":[(TR,"""        (
            RangeConstraint::from_range(T::zero(), T::from(self.range_tuple_checker_sizes[0] - 1)),
            RangeConstraint::from_range(T::zero(), T::from(self.range_tuple_checker_sizes[1] - 1)),
        )""","""        let [size0, size1] = self.range_tuple_checker_sizes;
        let below = |size: u32| RangeConstraint::from_range(T::zero(), T::from(size - 1));
        (below(size0), below(size1))""")],
"ok_el":[(EL,"""        .filter_map(move |(limb_index, limb_ref)| {
            if !column_allocator.is_known_id(limb_ref.id) {
                // Limb refers to a column introduced by the optimizer, skip it.
                // We would never have empirical constraints on such a column anyway.
                return None;
            }

            let local_literal = LocalOptimisticLiteral::RegisterLimb(
                memory_access.concrete_address.clone(),
                limb_index,
            );
            let optimistic_literal = OptimisticLiteral {
                instr_idx: memory_access.instruction_index,
                val: local_literal,
            };
            Some((limb_ref, optimistic_literal))
        })""","""        // Limbs that refer to a column introduced by the optimizer are skipped.
        // We would never have empirical constraints on such a column anyway.
        .filter(|(_, limb_ref)| column_allocator.is_known_id(limb_ref.id))
        .map(move |(limb_index, limb_ref)| {
            let address = memory_access.concrete_address.clone();
            let optimistic_literal = OptimisticLiteral {
                instr_idx: memory_access.instruction_index,
                val: LocalOptimisticLiteral::RegisterLimb(address, limb_index),
            };
            (limb_ref, optimistic_literal)
        })""")],
"ok_em_filtered":[(EM,"""                let ranges = ranges
                    .into_iter()
                    .filter(|(col_idx, _)| {
                        // check that the predicate holds in all matching instructions
                        pc_instruction_indices
                            .iter()
                            .all(|idx| predicate(&BlockCell::new(*idx, *col_idx)))
                    })
                    .collect();
                (pc, ranges)""","""                let holds_everywhere = |col_idx: usize| {
                    !pc_instruction_indices
                        .iter()
                        .any(|idx| !predicate(&BlockCell::new(*idx, col_idx)))
                };
                let mut kept = BTreeMap::new();
                for (col_idx, range) in ranges {
                    if holds_everywhere(col_idx) {
                        kept.insert(col_idx, range);
                    }
                }
                (pc, kept)""")],
"ok_em_thr":[(EM,"""        let threshold = optimistic_precompile_config().execution_count_threshold;
        EmpiricalConstraints {
            column_ranges_by_pc: self
                .column_ranges_by_pc
                .into_iter()
                .filter(|(pc, _)| self.pc_counts.get(pc).cloned().unwrap_or(0) >= threshold)
                .collect(),""","""        let threshold = optimistic_precompile_config().execution_count_threshold;
        let count_of = |pc: &u32| self.pc_counts.get(pc).copied().unwrap_or_default();
        EmpiricalConstraints {
            column_ranges_by_pc: self
                .column_ranges_by_pc
                .into_iter()
                .filter(|(pc, _)| count_of(pc) >= threshold)
                .collect(),""")],
"ok_em_comb":[(EM,"""                    for (i, (min, max)) in ranges.iter().enumerate() {
                        if let Some((existing_min, existing_max)) = existing_ranges.get_mut(i) {
                            *existing_min = (*existing_min).min(*min);
                            *existing_max = (*existing_max).max(*max);
                        }
                    }""","""                    existing_ranges.iter_mut().zip(&ranges).for_each(
                        |((existing_min, existing_max), (min, max))| {
                            *existing_min = (*min).min(*existing_min);
                            *existing_max = (*max).max(*existing_max);
                        },
                    );""")],
"ok_em_block":[(EM,"""            .filter_map(|pc| {
                self.column_ranges_by_pc
                    .get(&(*pc as u32))
                    .cloned()
                    .map(|ranges| (*pc as u32, ranges.into_iter().enumerate().collect()))
            })
            .collect();""","""            .filter_map(|pc| {
                let pc = *pc as u32;
                let ranges = self.column_ranges_by_pc.get(&pc)?;
                Some((pc, ranges.iter().cloned().enumerate().collect()))
            })
            .collect();""")],
}
