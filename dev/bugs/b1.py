A="autoprecompiles/src/"
C="constraint-solver/src/"
CO=A+"constraint_optimizer.rs"; ME=A+"memory_optimizer.rs"; EM=A+"empirical_constraints.rs"; EQ=A+"equivalence_classes.rs"
BUGS={
# C04: facts used without adding the constraint when the replaced field is the multiplicity
"b01_mult_no_justification":[(CO,"""                    new_algebraic_constraints
                        .push(AlgebraicConstraint::assert_eq(n.clone(), field.clone()));
                    n
""","""                    if *field != bus_interaction.multiplicity {
                        new_algebraic_constraints
                            .push(AlgebraicConstraint::assert_eq(n.clone(), field.clone()));
                    }
                    n
""")],
# only payload considered
"b02_replace_only_degree2":[(CO,"""            if !sub.is_zero() {
                constraints_to_add.insert""","""            if !sub.is_zero() && sub.try_to_number().is_none() {
                constraints_to_add.insert""")],
"b03_substitute_skip_constraint":[(CO,"""            if let Some(sub) = substitutions.get(field) {
                constraints_to_add
                    .insert(AlgebraicConstraint::assert_eq(field.clone(), sub.clone()));
""","""            if let Some(sub) = substitutions.get(field) {
                if !field.is_affine() {
                    constraints_to_add
                        .insert(AlgebraicConstraint::assert_eq(field.clone(), sub.clone()));
                }
""")],
"b04_conflict_bus":[(CO,"""            if alg_substituted
                .iter()
                .any(|(_, s)| s.try_to_number().is_some_and(|n| !n.is_zero()))
""","""            if exprs
                .keys()
                .map(|e| (*e).clone().substitute_by_known_multi(&assignment))
                .any(|s| s.try_to_number().is_some_and(|n| !n.is_zero()))
""")],
"b05_redundant_retain":[(CO,"""            other_factors.len() > factors.len() || *j > i
""","""            other_factors.len() > factors.len() || *j != i
""")],
"b06_equal_stateful":[(CO,"""            if !bus_interaction_handler.is_stateful(bus_id) && !seen.insert(interaction.clone()) {
                return false;
            }
        }
        true""","""            if seen.insert(interaction.clone()) {
                return true;
            }
            return bus_interaction_handler.is_stateful(bus_id) && !interaction.multiplicity.is_zero();
        }
        true""")],
"b07_equal_payload":[(CO,"""!seen.insert(interaction.clone())""","""!seen.insert((bus_id, interaction.payload.clone()))""")],
"b08_disconnected_all":[(CO,"""        bus_interaction_handler.is_stateful(bus_id) || has_vars_to_keep
""","""        has_vars_to_keep
            || bus_interaction_handler.is_stateful(bus_id)
                && bus_interaction.referenced_unknown_variables().next().is_some()
""")],
"b09_free_var_all":[(CO,"""                let all_degrees_at_most_one = bus_interaction
                    .payload
                    .iter()
                    .all(|field| field.degree_of_variable(variable) <= 1);
""","""                let all_degrees_at_most_one = bus_interaction
                    .payload
                    .first()
                    .is_some_and(|field| field.degree_of_variable(variable) <= 1);
""")],
"b10_free_left_only":[(CO,"""        can_always_be_satisfied_via_free_variable(AlgebraicConstraint::from(left), free_variable)
            || can_always_be_satisfied_via_free_variable(
                AlgebraicConstraint::from(right),
                free_variable,
            )
""","""        left.referenced_unknown_variables().contains(free_variable)
            || right.referenced_unknown_variables().contains(free_variable)
""")],
"b11_vars_stateful_mult":[(CO,"""        .flat_map(|bus_interaction| bus_interaction.referenced_unknown_variables())
}
""","""        .flat_map(|bus_interaction| {
            bus_interaction
                .payload
                .iter()
                .flat_map(|e| e.referenced_unknown_variables())
        })
}
""")],
"b12_mem_keep_on_err":[(ME,"""                memory_contents.clear();
                continue;""","""                memory_contents.retain(|_, content| content.bus_index + 1 == index);
                continue;""")],
"b13_mem_only_last_component":[(ME,"""                        .any(|(a, b)| solver.are_expressions_known_to_be_different(a, b))
                });
""","""                        .any(|(a, b)| a != b && solver.are_expressions_known_to_be_different(a, b))
                        || addr.0.first() != other_addr.0.first()
                });
""")],
"b14_mem_get_peek":[(ME,"""if let Some(existing) = memory_contents.remove(&addr) {""","""if let Some(existing) = memory_contents.get(&addr) {""")],
"b15_mem_no_ts":[(ME,"""                        .timestamp_limbs
                        .iter()
                        .zip_eq(mem_int.timestamp_limbs().iter())
                    {""","""                        .timestamp_limbs
                        .iter()
                        .zip(mem_int.timestamp_limbs().iter().skip(1))
                    {""")],
"b16_mem_constraints_not_in_system":[(ME,"""    system.algebraic_constraints.extend(new_constraints);
""","""    system
        .algebraic_constraints
        .extend(new_constraints.into_iter().filter(|c| !c.expression.is_affine()));
""")],
"b17_shift":[(EM,"""                        elem.instruction_idx += insn_idx;
                        elem""","""                        if elem.column_idx > 0 {
                            elem.instruction_idx += insn_idx;
                        }
                        elem""")],
"b18_threshold":[(EM,"""                    self.pc_counts.get(&(block_pc as u32)).cloned().unwrap_or(0) >= threshold
""","""                    self.pc_counts.get(&(block_pc as u32)).cloned().unwrap_or(threshold) >= threshold
""")],
"b19_filtered_any":[(EM,"""                        pc_instruction_indices
                            .iter()
                            .all(|idx|""","""                        pc_instruction_indices
                            .first()
                            .is_some_and(|idx|""")],
"b20_filtered_class":[(EM,"""                class
                    .into_iter()
                    .filter(|cell| predicate(cell))
                    .collect_vec()
""","""                if class.iter().any(&predicate) {
                    class
                } else {
                    vec![]
                }
""")],
"b21_intersect":[(EQ,"""            .into_group_map()
            .into_values()
            .collect()
    }

    /// Combine""","""            .map(|((a, b), elem)| (a.max(b), elem))
            .into_group_map()
            .into_values()
            .collect()
    }

    /// Combine""")],
"b22_combine_count":[(EQ,"""        self.num_classes += other.num_classes;
        self""","""        self.num_classes = self.num_classes.max(other.num_classes) + 1;
        self""")],
"b23_chunks":[(EQ,"""            .chunks(CHUNK_SIZE)
            .map(Self::intersect_many)""","""            .chunks(CHUNK_SIZE)
            .filter(|c| c.len() == CHUNK_SIZE)
            .map(Self::intersect_many)""")],
"b24_range_eq":[(EM,"""                if min == max {
                    let value = A::PowdrField::from(*min as u64);""","""                if max - min <= (*col_index == 0) as u32 {
                    let value = A::PowdrField::from(*min as u64);""")],
"b25_merge_maps":[(EM,"""                assert_eq!(*existing.get(), value,);
""","""                debug_assert_eq!(*existing.get(), value,);
""")],
}
