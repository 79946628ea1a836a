# constraint optimizer, candidates, evaluator, ast, lib.rs
A = "autoprecompiles/src/"
CO = A + "constraint_optimizer.rs"
CA = A + "execution/candidates.rs"
EV = A + "execution/evaluator.rs"
AS = A + "execution/ast.rs"
LI = A + "lib.rs"
BUGS = {
"c02_free_mult":[(CO,"""                let has_one_unknown_field = bus_interaction
                    .payload
                    .iter()
                    .filter(|field| field.try_to_number().is_none())
                    .count()
                    == 1;""","""                let has_one_unknown_field = bus_interaction
                    .payload
                    .iter()
                    .filter(|field| field.try_to_number().is_none())
                    .count()
                    <= 2;""")],
"c02_free_degree":[(CO,"""                    .all(|field| field.degree_of_variable(variable) <= 1);""","""                    .any(|field| field.degree_of_variable(variable) <= 1);""")],
"c02_free_prod":[(CO,"""            || can_always_be_satisfied_via_free_variable(
                AlgebraicConstraint::from(right),
                free_variable,
            )""","""            || right.referenced_unknown_variables().contains(free_variable)""")],
"c02_free_keep":[(CO,"""        bus_interaction_handler.is_stateful(bus_id)
            || bus_interaction
                .referenced_unknown_variables()
                .all(|var| variables_to_keep.contains(var))""","""        bus_interaction
            .referenced_unknown_variables()
            .all(|var| variables_to_keep.contains(var))
            || bus_interaction_handler.is_stateful(bus_id) && bus_interaction.multiplicity.try_to_number().is_some()""")],
"c02_disc_alg":[(CO,"""    constraint_system.retain_algebraic_constraints(|constraint| {
        constraint
            .referenced_unknown_variables()
            .any(|var| variables_to_keep.contains(var))
    });""","""    constraint_system.retain_algebraic_constraints(|constraint| {
        constraint
            .referenced_unknown_variables()
            .next()
            .is_some_and(|var| variables_to_keep.contains(var))
    });""")],
"c02_disc_initial":[(CO,"""        .flat_map(|bus_interaction| bus_interaction.referenced_unknown_variables())
}

struct Simp""","""        .flat_map(|bus_interaction| {
            bus_interaction
                .payload
                .iter()
                .flat_map(|p| p.referenced_unknown_variables())
        })
}

struct Simp""")],
"c06_free_solver":[(CO,"""    solver.retain_variables(&variables_to_keep);

    constraint_system.retain_algebraic_constraints(|constraint| {
        constraint
            .referenced_unknown_variables()
            .all(""","""    if variables_to_delete.len() > variables_to_keep.len() {
        solver.retain_variables(&variables_to_keep);
    }

    constraint_system.retain_algebraic_constraints(|constraint| {
        constraint
            .referenced_unknown_variables()
            .all(""")],
"c04_se_update":[(CO,"""            Some(Ok(existing)) if *existing != new_expr => {
                self.simplified = Some(Err(()));
            }""","""            Some(Ok(existing)) if *existing != new_expr => {
                self.simplified = Some(Ok(new_expr));
            }""")],
"c04_se_alg":[(CO,"""                        .is_algebraic_constraint |= is_alg;""","""                        .is_algebraic_constraint &= is_alg;""")],
"c04_se_conflict":[(CO,"""                .any(|(_, s)| s.try_to_number().is_some_and(|n| !n.is_zero()))
            {""","""                .any(|(_, s)| !s.is_zero())
            {""")],
"c04_se_noadd":[(CO,"""            if let Some(sub) = substitutions.get(field) {
                constraints_to_add
                    .insert(AlgebraicConstraint::assert_eq(field.clone(), sub.clone()));
                *field""","""            if let Some(sub) = substitutions.get(field) {
                if sub.try_to_number().is_none() {
                    constraints_to_add
                        .insert(AlgebraicConstraint::assert_eq(field.clone(), sub.clone()));
                }
                *field""")],
"c04_se_zero":[(CO,"""            if !sub.is_zero() {
                constraints_to_add""","""            constr.expression = sub.clone();
            if !sub.is_zero() {
                constraints_to_add""")],
"c04_trn_expr":[(CO,"""    if expr.try_to_number().is_some() {
        return None;
    }
    Some(""","""    if expr.is_affine() {
        return None;
    }
    Some(""")],
"c04_sbf_affine":[(CO,"""                AlgebraicConstraint::assert_eq(field.clone(), GroupedExpression::from_number(v));
            *field = GroupedExpression::from_number(v);
            constraint_system.algebraic_constraints.push(constr);""","""                AlgebraicConstraint::assert_eq(field.clone(), GroupedExpression::from_number(v));
            *field = GroupedExpression::from_number(v);
            if !constr.expression.is_affine() {
                constraint_system.algebraic_constraints.push(constr);
            }""")],
"c04_solver_noconstr":[(CO,"""    constraint_system.add_bus_interactions(bus_interactions);
    constraint_system.add_algebraic_constraints(new_algebraic_constraints);""","""    constraint_system.add_bus_interactions(bus_interactions);
    new_algebraic_constraints.retain(|c: &AlgebraicConstraint<_>| !c.is_redundant());
    new_algebraic_constraints.truncate(1);
    constraint_system.add_algebraic_constraints(new_algebraic_constraints);""")],
"c02_equal_stateful":[(CO,"""            if !bus_interaction_handler.is_stateful(bus_id) && !seen.insert(interaction.clone()) {
                return false;
            }""","""            if !seen.insert(interaction.clone()) && !bus_interaction_handler.is_stateful(bus_id)
                || interaction.multiplicity.is_zero()
            {
                return false;
            }""")],
"c02_equal_payload":[(CO,"""!seen.insert(interaction.clone()) {""","""!seen.insert((interaction.bus_id.clone(), interaction.payload.clone())) {""")],
"c04_rules_assign":[(CO,"""    solver.add_algebraic_constraints(assignments.iter().map(|(v, val)| {
        AlgebraicConstraint::assert_eq(
            GroupedExpression::from_unknown_variable(v.clone()),
            val.clone(),
        )
    }));""","""    solver.add_algebraic_constraints(assignments.iter().take(1).map(|(v, val)| {
        AlgebraicConstraint::assert_eq(
            GroupedExpression::from_unknown_variable(v.clone()),
            val.clone(),
        )
    }));""")],
"c17_done_idx":[(CA,"""                    if candidate.total_check_count
                        == optimistic_constraint_evaluator.instruction_index()""","""                    if candidate.total_check_count
                        <= optimistic_constraint_evaluator.instruction_index() + 1""")],
"c17_abort_all":[(CA,""".extract_if(.., |f| matches!(f.status, CandidateStatus::InProgress(_)))""",""".extract_if(.., |f| !matches!(f.status, CandidateStatus::Done(ref c) if c.global_clk > f.from_snapshot.global_clk))""")],
"c17_overlap_touch":[(CA,"""start_a < end_b && start_b < end_a""","""start_a <= end_b && start_b < end_a""")],
"c17_rank_order":[(CA,"""            .then_with(|| self.len.cmp(&other.len))
            .then_with(|| other.candidate_id.cmp(&self.candidate_id))""","""            .then_with(|| other.candidate_id.cmp(&self.candidate_id))
            .then_with(|| self.len.cmp(&other.len))""")],
"c17_any_first":[(CA,"""            .iter()
            .any(|c| matches!(c.status, CandidateStatus::InProgress(_)));""","""            .first()
            .is_some_and(|c| matches!(c.status, CandidateStatus::InProgress(_)));""")],
"c17_insert_unchecked":[(CA,"""            evaluator.try_next_execution_step(state, apc.optimistic_constraints())?;
            Ok(""","""            let first = evaluator.try_next_execution_step(state, apc.optimistic_constraints());
            if self.candidates.is_empty() {
                first?;
            }
            Ok(""")],
"c17_cycle_count":[(CA,"""                total_check_count: apc.cycle_count() + 1,""","""                total_check_count: apc.cycle_count().max(1),""")],
"c17_from_snapshot":[(CA,"""                    from: candidate.from_snapshot.snapshot,
                    to: to.snapshot,""","""                    to: candidate.from_snapshot.snapshot,
                    from: to.snapshot,""")],
"c17_step_min":[(EV,"""                    .max()
                    .unwrap_or_default();
                (first""","""                    .min()
                    .unwrap_or_default();
                (first""")],
"c17_fetch_same":[(EV,""".filter(move |literal| *constraint_step > literal.instr_idx)""",""".filter(move |literal| *constraint_step > literal.instr_idx + 1)""")],
"c17_eval_any":[(EV,"""                .iter()
                .all(|constraint| evaluator.evaluate_constraint(constraint))""","""                .iter()
                .any(|constraint| evaluator.evaluate_constraint(constraint))""")],
"c17_fetch_before":[(EV,"""                    instr_idx: self.instruction_index,
                    val: *fetch,""","""                    instr_idx: self.instruction_index + 1,
                    val: *fetch,""")],
"c17_idx_fail":[(EV,"""                return Err(OptimisticConstraintFailed);
            }
        }

        // Get""","""                return if self.instruction_index == 0 { Err(OptimisticConstraintFailed) } else { Ok(()) };
            }
        }

        // Get""")],
"c17_limb":[(EV,"""                E::value_limb(fetch_value, limb_index)""","""                E::value_limb(fetch_value, limb_index.saturating_sub(1))""")],
"c17_mem_first":[(EV,"""                self.memory.insert(key, value);""","""                self.memory.entry(key).or_insert(value);
                if self.memory.len() > 64 {
                    self.memory.clear();
                }""")],
"c08_ast_children":[(AS,"""        Box::new([&self.left, &self.right].into_iter())""","""        Box::new([&self.left, &self.left].into_iter())""")],
"c17_ast_pc":[(AS,"""            LocalOptimisticLiteral::RegisterLimb(a, _) => Self::Register(a),
            LocalOptimisticLiteral::Pc => Self::Pc,""","""            LocalOptimisticLiteral::RegisterLimb(a, limb) if limb < 4 => Self::Register(a),
            _ => Self::Pc,""")],
"c19_subs_all":[(LI,"""                        all_references
                            .contains(apc_poly_id)
                            .then_some(""","""                        (all_references.contains(apc_poly_id) || *apc_poly_id == 0)
                            .then_some(""")],
"c19_subs_idx":[(LI,"""                                original_poly_index,
                                apc_poly_id: *apc_poly_id,
                            })
                    })
                    .collect_vec()""","""                                original_poly_index,
                                apc_poly_id: *apc_poly_id,
                            })
                    })
                    .dedup_by(|a, b| a.apc_poly_id == b.apc_poly_id)
                    .collect_vec()""")],
"c11_alloc_max":[(LI,"""            next_poly_id: machine.main_columns().map(|c| c.id).max().unwrap_or(0) + 1,""","""            next_poly_id: machine.main_columns().map(|c| c.id).last().unwrap_or(0) + 1,""")],
"c11_known":[(LI,"""        poly_id < self.next_poly_id""","""        poly_id <= self.next_poly_id""")],
"c10_guard_right":[(LI,"""                AlgebraicBinaryOperator::Add | AlgebraicBinaryOperator::Sub => {
                    Box::new(add_guards_constraint(*right, is_valid))
                }
                AlgebraicBinaryOperator::Mul => right,""","""                AlgebraicBinaryOperator::Add => {
                    Box::new(add_guards_constraint(*right, is_valid))
                }
                AlgebraicBinaryOperator::Mul | AlgebraicBinaryOperator::Sub => right,""")],
"c10_mult_else":[(LI,"""            let e = canonicalize((one - is_valid.clone()) * b.mult.clone()).into();
            is_valid_mults.push(e);""","""            if !matches!(b.mult, AlgebraicExpression::Reference(_)) {
                let e = canonicalize((one - is_valid.clone()) * b.mult.clone()).into();
                is_valid_mults.push(e);
            }""")],
"c10_bool_cond":[(LI,"""    machine.constraints.push(powdr::make_bool(is_valid).into());""","""    if !machine.bus_interactions.is_empty() {
        machine.constraints.push(powdr::make_bool(is_valid).into());
    }""")],
"c20_filter_pc":[(LI,"""        .extend(empirical_constraints.into_iter().map(Into::into));""","""        .extend(empirical_constraints.into_iter().skip(block.instructions().count() / 64).map(Into::into));""")],
"c17_pc_idx":[(LI,"""            let left = OptimisticExpression::Literal(OptimisticLiteral {
                instr_idx,""","""            let left = OptimisticExpression::Literal(OptimisticLiteral {
                instr_idx: instr_idx.saturating_sub(1),""")],
}
OK = {
"ok6_free_closure":[(CO,"""                let has_one_unknown_field = bus_interaction
                    .payload
                    .iter()
                    .filter(|field| field.try_to_number().is_none())
                    .count()
                    == 1;""","""                let has_one_unknown_field = bus_interaction
                    .payload
                    .iter()
                    .filter(|field| field.try_to_number().is_none())
                    .exactly_one()
                    .is_ok();"""),(CO,"""                is_stateless && has_one_unknown_field && all_degrees_at_most_one""","""                if !is_stateless || !has_one_unknown_field {
                    return false;
                }
                all_degrees_at_most_one""")],
"ok6_can_always":[(CO,"""    if constraint.try_solve_for(free_variable).is_some() {
        true
    } else if let Some((left, right)) = constraint.expression.try_as_single_product() {
        // If either `left` or `right` can be set to 0, the constraint is satisfied.
        can_always_be_satisfied_via_free_variable(AlgebraicConstraint::from(left), free_variable)
            || can_always_be_satisfied_via_free_variable(
                AlgebraicConstraint::from(right),
                free_variable,
            )
    } else {
        false
    }""","""    if constraint.try_solve_for(free_variable).is_some() {
        return true;
    }
    let Some((left, right)) = constraint.expression.try_as_single_product() else {
        return false;
    };
    // If any of the factors can be set to 0, the constraint is satisfied.
    [left, right].into_iter().any(|factor| {
        can_always_be_satisfied_via_free_variable(AlgebraicConstraint::from(factor), free_variable)
    })""")],
"ok6_equal_bi":[(CO,"""        if let Some(bus_id) = interaction.bus_id.try_to_number() {
            if !bus_interaction_handler.is_stateful(bus_id) && !seen.insert(interaction.clone()) {
                return false;
            }
        }
        true""","""        let Some(bus_id) = interaction.bus_id.try_to_number() else {
            return true;
        };
        if bus_interaction_handler.is_stateful(bus_id) {
            return true;
        }
        seen.insert(interaction.clone())""")],
"ok6_disc_helper":[(CO,"""        let bus_id = bus_interaction.bus_id.try_to_number().unwrap();
        let has_vars_to_keep = bus_interaction
            .referenced_unknown_variables()
            .any(|var| variables_to_keep.contains(var));
        // has_vars_to_keep would also be false for bus interactions containing only
        // constants, so we also check again whether it is stateful.
        bus_interaction_handler.is_stateful(bus_id) || has_vars_to_keep""","""        if bus_interaction_handler.is_stateful(bus_interaction.bus_id.try_to_number().unwrap()) {
            return true;
        }
        for var in bus_interaction.referenced_unknown_variables() {
            if variables_to_keep.contains(var) {
                return true;
            }
        }
        false""")],
"ok6_update":[(CO,"""        match &self.simplified {
            None => self.simplified = Some(Ok(new_expr)),
            Some(Ok(existing)) if *existing != new_expr => {
                self.simplified = Some(Err(()));
            }
            _ => {}
        }""","""        self.simplified = Some(match self.simplified.take() {
            None => Ok(new_expr),
            Some(Ok(existing)) => {
                if existing == new_expr {
                    Ok(existing)
                } else {
                    Err(())
                }
            }
            Some(Err(())) => Err(()),
        });""")],
"ok6_tryreplace":[(CO,"""    if expr.try_to_number().is_some() {
        return None;
    }
    Some(GroupedExpression::from_number(
        solver
            .range_constraint_for_expression(expr)
            .try_to_single_value()?,
    ))""","""    match expr.try_to_number() {
        Some(_) => None,
        None => solver
            .range_constraint_for_expression(expr)
            .try_to_single_value()
            .map(GroupedExpression::from_number),
    }""")],
"ok6_sbf":[(CO,"""        if let Some(v) = solver.try_to_equivalent_constant(field) {
            let constr =
                AlgebraicConstraint::assert_eq(field.clone(), GroupedExpression::from_number(v));
            *field = GroupedExpression::from_number(v);
            constraint_system.algebraic_constraints.push(constr);
        }""","""        let Some(v) = solver.try_to_equivalent_constant(field) else {
            continue;
        };
        let constant = GroupedExpression::from_number(v);
        let old = std::mem::replace(field, constant.clone());
        constraint_system
            .algebraic_constraints
            .push(AlgebraicConstraint::assert_eq(old, constant));""")],
"ok6_subst_loop":[(CO,"""            if let Some(sub) = substitutions.get(&constr.expression) {
            // If the substitution""".replace("            if let","        if let",1),"""        let sub = substitutions.get(&constr.expression);
        if let Some(sub) = sub {
            // If the substitution""")],
"ok6_free_diff":[(CO,"""    let variables_to_keep = all_variables
        .difference(&variables_to_delete)
        .cloned()
        .collect::<HashSet<_>>();""","""    let variables_to_keep = all_variables
        .iter()
        .filter(|v| !variables_to_delete.contains(*v))
        .cloned()
        .collect::<HashSet<_>>();""")],
"ok6_ca_check":[(CA,"""                    if optimistic_constraint_evaluator
                        .try_next_execution_step(
                            state,
                            self.apcs[candidate.apc_id].optimistic_constraints(),
                        )
                        .is_err()
                    {
                        return false;
                    }""","""                    let constraints = self.apcs[candidate.apc_id].optimistic_constraints();
                    let Ok(()) = optimistic_constraint_evaluator
                        .try_next_execution_step(state, constraints)
                    else {
                        return false;
                    };""")],
"ok6_ca_extract":[(CA,"""        let are_any_in_progress = self
            .candidates
            .iter()
            .any(|c| matches!(c.status, CandidateStatus::InProgress(_)));

        // If any candidates are in progress, return nothing
        if are_any_in_progress {
            return vec![];
        }
""","""        // If any candidates are in progress, return nothing
        let all_done = self
            .candidates
            .iter()
            .all(|c| matches!(c.status, CandidateStatus::Done(_)));
        if !all_done {
            return Vec::new();
        }
"""),(CA,"""                let (rank_left, range_left) = (rank_left, range_left);
                let (rank_right, range_right) = (rank_right, range_right);
""",""),(CA,"""                match rank_left.cmp(&rank_right) {
                    Ordering::Greater => discard[idx_right] = true,
                    Ordering::Less => discard[idx_left] = true,
                    Ordering::Equal => unreachable!("by construction, two ranks cannot be equal"),
                }
""","""                let loser = match rank_left.cmp(&rank_right) {
                    Ordering::Greater => idx_right,
                    Ordering::Less => idx_left,
                    Ordering::Equal => unreachable!("by construction, two ranks cannot be equal"),
                };
                discard[loser] = true;
""")],
"ok6_ca_zip":[(CA,"""            .filter_map(|(candidate, discard)| (!discard).then_some(candidate))
            .map(|candidate| {
                let CandidateStatus::Done(to) = candidate.status else {
                    unreachable!()
                };
                ApcCall {
                    apc_id: candidate.apc_id,
                    from: candidate.from_snapshot.snapshot,
                    to: to.snapshot,
                }
            })""","""            .filter(|(_, discard)| !discard)
            .map(|(candidate, _)| {
                let ApcCandidate {
                    apc_id,
                    from_snapshot,
                    status,
                    ..
                } = candidate;
                match status {
                    CandidateStatus::Done(to) => ApcCall {
                        apc_id,
                        from: from_snapshot.snapshot,
                        to: to.snapshot,
                    },
                    CandidateStatus::InProgress(_) => unreachable!(),
                }
            })""")],
"ok6_ca_insert":[(CA,"""        let apc_candidate = {
            let apc = &self.apcs[apc_id];
            let mut evaluator = OptimisticConstraintEvaluator::new();
            evaluator.try_next_execution_step(state, apc.optimistic_constraints())?;
            Ok(ApcCandidate {
                total_check_count: apc.cycle_count() + 1,
                apc_id,
                from_snapshot: Clocked::new(state.global_clk(), snapshot()),
                status: CandidateStatus::InProgress(evaluator),
            })
        }?;
        self.candidates.push(apc_candidate);
        Ok(())""","""        let apc = &self.apcs[apc_id];
        let mut evaluator = OptimisticConstraintEvaluator::new();
        evaluator.try_next_execution_step(state, apc.optimistic_constraints())?;
        let from_snapshot = Clocked::new(state.global_clk(), snapshot());
        let total_check_count = 1 + apc.cycle_count();
        self.candidates.push(ApcCandidate {
            total_check_count,
            apc_id,
            from_snapshot,
            status: CandidateStatus::InProgress(evaluator),
        });
        Ok(())""")],
"ok6_rank":[(CA,"""        self.priority
            .cmp(&other.priority)
            .then_with(|| self.len.cmp(&other.len))
            .then_with(|| other.candidate_id.cmp(&self.candidate_id))""","""        match self.priority.cmp(&other.priority) {
            Ordering::Equal => match self.len.cmp(&other.len) {
                Ordering::Equal => self.candidate_id.cmp(&other.candidate_id).reverse(),
                o => o,
            },
            o => o,
        }""")],
"ok6_ev_step":[(EV,"""        if let Some(constraints) = constraints {
            // Check the constraints based on the current state and the memory of the previous states
            let evaluator =
                StepOptimisticConstraintEvaluator::new(self.instruction_index, state, &self.memory);
            if !constraints
                .iter()
                .all(|constraint| evaluator.evaluate_constraint(constraint))
            {
                return Err(OptimisticConstraintFailed);
            }
        }""","""        let evaluator =
            StepOptimisticConstraintEvaluator::new(self.instruction_index, state, &self.memory);
        for constraint in constraints.into_iter().flatten() {
            // Check the constraints based on the current state and the memory of the previous states
            if !evaluator.evaluate_constraint(constraint) {
                return Err(OptimisticConstraintFailed);
            }
        }"""),(EV,"""        if let Some(fetches) = fetches {
            // fetch the values them in memory
            for fetch in fetches {
                let value = fetch.get(state);
                let key = Fetch {
                    instr_idx: self.instruction_index,
                    val: *fetch,
                };
                self.memory.insert(key, value);
            }
        }""","""        let instr_idx = self.instruction_index;
        if let Some(fetches) = fetches {
            self.memory.extend(
                fetches
                    .iter()
                    .map(|&val| (Fetch { instr_idx, val }, val.get(state))),
            );
        }""")],
"ok6_ev_from":[(EV,"""        let fetches_by_step = constraint_data
            .iter()
            .flat_map(|(constraint_step, references, _)| {
                references
                    .iter()
                    .filter(move |literal| *constraint_step > literal.instr_idx)
                    .map(|literal| (literal.instr_idx, literal.val.into()))
            })
            .into_group_map()
            .into_iter()
            .sorted_by_key(|(instruction_index, _)| *instruction_index)
            .collect();""","""        let mut fetches_by_step: HashMap<usize, Vec<LocalFetch<A>>> = HashMap::new();
        for (constraint_step, references, _) in &constraint_data {
            for literal in references {
                if literal.instr_idx < *constraint_step {
                    fetches_by_step
                        .entry(literal.instr_idx)
                        .or_default()
                        .push(literal.val.into());
                }
            }
        }""")],
"ok6_subs":[(LI,"""                        all_references
                            .contains(apc_poly_id)
                            .then_some(Substitution {
                                original_poly_index,
                                apc_poly_id: *apc_poly_id,
                            })""","""                        if !all_references.contains(apc_poly_id) {
                            return None;
                        }
                        Some(Substitution {
                            original_poly_index,
                            apc_poly_id: *apc_poly_id,
                        })""")],
"ok6_guards":[(LI,"""    for b in &mut machine.bus_interactions {
        if !satisfies_zero_witness(&b.mult) {
            // guard the multiplicity by `is_valid`
            b.mult = canonicalize(is_valid.clone() * b.mult.clone());
            // TODO this would not have to be cloned if we had *=
            //c.expr *= guard.clone();
        } else {
            // if it's zero, then we do not have to change the multiplicity, but we need to force it to be zero on non-valid rows with a constraint
            let one = AlgebraicExpression::Number(1u64.into());
            let e = canonicalize((one - is_valid.clone()) * b.mult.clone()).into();
            is_valid_mults.push(e);
        }
    }
""","""    for b in machine.bus_interactions.iter_mut() {
        let mult = b.mult.clone();
        if satisfies_zero_witness(&mult) {
            // if it's zero, then we do not have to change the multiplicity, but we need to force it to be zero on non-valid rows with a constraint
            let is_invalid = AlgebraicExpression::Number(T::from(1u64)) - is_valid.clone();
            is_valid_mults.push(canonicalize(is_invalid * mult).into());
            continue;
        }
        // guard the multiplicity by `is_valid`
        b.mult = canonicalize(is_valid.clone() * mult);
    }
""")],
"ok6_guards_c":[(LI,"""            let left = add_guards_constraint(*left, is_valid);
            let right = match op {
                AlgebraicBinaryOperator::Add | AlgebraicBinaryOperator::Sub => {
                    Box::new(add_guards_constraint(*right, is_valid))
                }
                AlgebraicBinaryOperator::Mul => right,
            };
            AlgebraicExpression::new_binary(left, op, *right)""","""            let left = add_guards_constraint(*left, is_valid);
            let mut right = *right;
            if matches!(op, AlgebraicBinaryOperator::Add | AlgebraicBinaryOperator::Sub) {
                right = add_guards_constraint(right, is_valid);
            }
            AlgebraicExpression::new_binary(left, op, right)""")],
"ok6_alloc":[(LI,"""        let id = self.next_poly_id;
        self.next_poly_id += 1;
        id""","""        self.next_poly_id += 1;
        self.next_poly_id - 1""")],
"ok6_lit_match":[(AS,"""                if let OptimisticExpression::Literal(r) = e {
                    Some(*r)
                } else {
                    None
                }""","""                match e {
                    OptimisticExpression::Number(_) => None,
                    OptimisticExpression::Literal(r) => Some(*r),
                }""")],
}
