C="constraint-solver/src/"
BA=C+"solver/base.rs"; GE=C+"grouped_expression.rs"; SO=C+"algebraic_constraint/solve.rs"; IX=C+"indexed_constraint_system.rs"
BUGS={
"c06_no_clear":[(BA,"""    fn add_range_constraint(&mut self, variable: &V, constraint: RangeConstraint<T>) {
        self.equivalent_expressions_cache.clear();
        self.apply""","""    fn add_range_constraint(&mut self, variable: &V, constraint: RangeConstraint<T>) {
        self.apply""")],
"c06_cache_solve":[(BA,"""        self.equivalent_expressions_cache.clear();
        self.loop_until_no_progress()?;""","""        self.loop_until_no_progress()?;
        self.equivalent_expressions_cache.clear();""")],
"c29_apply_one":[(BA,"""        self.linearizer.apply_assignments(&assignments);
        self.boolean_extractor.apply_assignments(&assignments);
""","""        self.linearizer.apply_assignments(&assignments);
        if !assignments.is_empty() && assignments.len() > 1 {
            self.boolean_extractor.apply_assignments(&assignments);
        }
""")],
"c06_retain_all":[(BA,"""                bus_interaction
                    .referenced_unknown_variables()
                    .any(|v| variables_to_keep.contains(v))""","""                bus_interaction
                    .referenced_unknown_variables()
                    .all(|v| variables_to_keep.contains(v))""")],
"c06_rc_retain":[(BA,"""        let remaining_variables = self
            .constraint_system
            .system()
            .referenced_unknown_variables()
            .collect::<HashSet<_>>();
        self.range_constraints
            .range_constraints
            .retain(|v, _| remaining_variables.contains(v));""","""        self.range_constraints
            .range_constraints
            .retain(|v, _| variables_to_keep.contains(v));""")],
"c06_update_replace":[(BA,"""        if new != existing {
            self.range_constraints.insert(variable.clone(), new);""","""        if new != existing {
            self.range_constraints
                .insert(variable.clone(), *range_constraint);""")],
"c24_known_diff":[(BA,"""                possible_concrete_values(&(a_eq - b_eq), self, 20)
                    .is_some_and(|mut values| values.all(|value| !value.is_zero()))""","""                possible_concrete_values(&(a_eq - b_eq), self, 20)
                    .is_some_and(|mut values| values.next().is_some_and(|value| !value.is_zero()))""")],
"c27_simple_equiv":[(BA,"""    if (-*c2 / *c1).is_one() {""","""    if (*c2 / *c1).is_one() || (-*c2 / *c1).is_one() {""")],
"c29_bool_unconstr":[(BA,"""                vars_to_boolean_constrain.extend(result.new_unconstrained_boolean_variable);
                Some(result.constraint)""","""                if vars_to_boolean_constrain.is_empty() {
                    vars_to_boolean_constrain.extend(result.new_unconstrained_boolean_variable);
                }
                Some(result.constraint)""")],
"c07_exh_err":[(BA,"""                // Might error out if a contradiction was found.
                Err(e) => return Err(e),""","""                // Might error out if a contradiction was found.
                Err(e) if !progress => return Err(e),
                Err(_) => break,""")],
"c01_simple_skip":[(BA,"""                        self.apply_assignment(&v1, &expr);
                        continue;""","""                        progress |= self.apply_assignment(&v1, &expr);
                        break;""")],
"c06_var_updated":[(BA,"""                // The range constraint was updated.
                log::trace!("({variable}: {range_constraint})");
                self.constraint_system.variable_updated(variable);""","""                // The range constraint was updated.
                log::trace!("({variable}: {range_constraint})");
                if range_constraint.is_unconstrained() || new_rc == range_constraint {
                    self.constraint_system.variable_updated(variable);
                }""")],
"c27_solvefor_coeff":[(SO,"""            .find_map(|var| {
                let coeff = expression.coefficient_of_variable_in_affine_part(var)?;""","""            .take(1)
            .find_map(|var| {
                let coeff = expression.coefficient_of_variable_in_affine_part(var)?;""")],
"c27_cancel_check":[(SO,"""        if !expr
            .referenced_unknown_variables()
            .collect::<HashSet<_>>()
            .is_disjoint(
                &result
                    .referenced_unknown_variables()
                    .collect::<HashSet<_>>(),
            )
        {""","""        if expr
            .referenced_unknown_variables()
            .collect::<HashSet<_>>()
            .is_subset(
                &result
                    .referenced_unknown_variables()
                    .collect::<HashSet<_>>(),
            )
        {""")],
"c27_condass":[(SO,"""    if !rc
        .combine_sum(&RangeConstraint::from_value(diff))
        .is_disjoint(&rc)
    {
        return None;
    }
""","""    if diff.is_zero() {
        return None;
    }
""")],
"c27_combine_complete":[(SO,"""        && effects.len() == 1
        && effects.iter().all(|(_, _, complete)| *complete);""","""        && effects.iter().all(|(_, _, complete)| *complete);""")],
"c27_comb_conj":[(SO,"""            let rc2 = right_constraints.get(v)?;
            let rc = rc1.disjunction(rc2);""","""            let Some(rc2) = right_constraints.get(v) else {
                return left.complete.then_some((v, *rc1, false));
            };
            let rc = rc1.disjunction(rc2);""")],
"c27_err_both":[(SO,"""            (Err(_), o) | (o, Err(_)) => {
                return o;
            }
            (Ok(left), Ok(right)) => (left, right),""","""            (Err(_), Ok(o)) | (Ok(o), Err(_)) => {
                return Ok(o);
            }
            (Err(_), Err(_)) => return Ok(ProcessResult::empty()),
            (Ok(left), Ok(right)) => (left, right),""")],
"c09_factors_const":[(GE,"""            } else if !self.linear.is_empty() {
                // Otherwise, we divide by the coefficient of the smallest variable.
                self.linear.iter().next().unwrap().1.clone()""","""            } else if !self.linear.is_empty() {
                // Otherwise, we divide by the coefficient of the smallest variable.
                self.linear.iter().next_back().unwrap().1.clone()""")],
"c09_extract_count":[(GE,"""            .filter(|v| *v == &var)
            .count()
            != 1
        {""","""            .filter(|v| *v == &var)
            .count()
            == 0
        {""")],
"c09_single_product":[(GE,"""                [(l, r)] => Some((l, r)),
                _ => None,""","""                [(l, r), ..] => Some((l, r)),
                _ => None,""")],
"c24_ge_square":[(GE,"""                if l == r {
                    l.range""","""                if l.linear == r.linear {
                    l.range""")],
"c09_subst_known_else":[(GE,"""        } else {
            for coeff in self.linear.values_mut() {
                coeff.substitute(variable, substitution);
            }
            self.linear.retain(|_, f| !f.is_known_zero());
        }
""","""        } else {
            for coeff in self.linear.values_mut() {
                coeff.substitute(variable, substitution);
            }
        }
""")],
"c03_degree_lin":[(GE,"""            .map(|(l, r)| l.degree() + r.degree())
            .chain((!""","""            .map(|(l, r)| (l.degree() + r.degree()).max(2))
            .chain((!""")],
"c09_quad_zero":[(GE,"""    [n1, n2].contains(&(&first.0, &first.1)) || [n1, n2].contains(&(&first.1, &first.0))""","""    [n1, n2].contains(&(&first.0, &first.1)) || (&first.1 == s0 && &first.0 == s1)""")],
"c09_remove_pairs":[(GE,"""        if to_remove.contains(&i) || to_remove.contains(&j) {""","""        if to_remove.contains(&i) && to_remove.contains(&j) {""")],
"c09_combine_pos":[(GE,"""                second.remove(j);
                false
            } else {""","""                second.truncate(j);
                false
            } else {""")],
"c09_neg_const":[(GE,"""        self.constant = -self.constant.clone();
    }
}
""","""        if self.linear.is_empty() || !self.constant.is_known_zero() {
            self.constant = -self.constant.clone();
        }
        if self.quadratic.len() > 1 && self.linear.is_empty() {
            self.constant = -self.constant.clone();
        }
    }
}
""")],
"c32_ge_sign":[(GE,"""            .reduce(|(n1, p1), (n2, p2)| {
                (
                    n1,""","""            .reduce(|(n1, p1), (n2, p2)| {
                (
                    n1 && n2,""")],
"c28_transform_quad":[(GE,"""                    let new_var = var_transform(var)?;
                    Some((new_var, coeff.try_transform_var_type(var_transform)?))
                })
                .collect::<Option<BTreeMap<_, _>>>()?,""","""                    let new_var = var_transform(var)?;
                    Some((new_var, coeff.try_transform_var_type(var_transform)?))
                })
                .flatten()
                .map(Some)
                .collect::<Option<BTreeMap<_, _>>>()?,""")],
"c09_subst_simple_drop":[(GE,"""                (Some(l), Some(r)) => {
                    self.constant += *l * *r;
                    false
                }
                (Some(l), None) => {
                    if !l.is_zero() {""","""                (Some(l), Some(r)) => {
                    self.constant += *l * *r;
                    false
                }
                (Some(l), None) => {
                    if !l.is_zero() && !to_add.is_zero() {""")],
"c05_known_items":[(IX,"""        for var in substitution.referenced_unknown_variables().unique() {
            self.variable_occurrences
                .entry(var.clone())
                .or_default()
                .extend(items.iter().cloned());
        }""","""        for (var, _) in substitution.linear_components() {
            self.variable_occurrences
                .entry(var.clone())
                .or_default()
                .extend(items.iter().cloned());
        }""")],
"c05_retain_empty":[(IX,"""                    replacement_map[item.index()].map(constraint_kind_constructor)
                } else {""","""                    replacement_map
                        .iter()
                        .flatten()
                        .nth(item.index())
                        .map(|i| constraint_kind_constructor(*i))
                } else {""")],
"c05_flat":[(IX,"""            ConstraintSystemItem::BusInteraction(i) => 2 * i + 1,""","""            ConstraintSystemItem::BusInteraction(i) => 2 * (i + 1),""")],
"c05_occ_unique":[(IX,"""                .flat_map(|c| c.referenced_unknown_variables())
                .unique()
                .map(move |v| (v.clone(), ConstraintSystemItem::BusInteraction(i)))""","""                .skip(1)
                .flat_map(|c| c.referenced_unknown_variables())
                .unique()
                .map(move |v| (v.clone(), ConstraintSystemItem::BusInteraction(i)))""")],
"c28_subst_derived":[(IX,"""        ConstraintSystemItem::DerivedVariable(i) => constraint_system.derived_variables[i]
            .computation_method
            .substitute_by_unknown(variable, substitution),""","""        ConstraintSystemItem::DerivedVariable(i) => {
            if substitution.is_affine() {
                constraint_system.derived_variables[i]
                    .computation_method
                    .substitute_by_unknown(variable, substitution)
            }
        }""")],
"c05_applysubst_rev":[(IX,"""        for (variable, substitution) in substitutions {
            self.substitute_by_unknown(&variable, &substitution);
        }
    }
}

/// Returns a hash map""","""        let substitutions: std::collections::BTreeMap<_, _> = substitutions.into_iter().collect();
        for (variable, substitution) in substitutions {
            self.substitute_by_unknown(&variable, &substitution);
        }
    }
}

/// Returns a hash map""")],
}
OK={
"ok_ge_single":[(GE,"""        if self.linear.is_empty() && self.constant.is_known_zero() {
            match self.quadratic.as_slice() {
                [(l, r)] => Some((l, r)),
                _ => None,
            }
        } else {
            None
        }""","""        if !self.linear.is_empty() || !self.constant.is_known_zero() {
            return None;
        }
        if self.quadratic.len() != 1 {
            return None;
        }
        let (l, r) = &self.quadratic[0];
        Some((l, r))""")],
"ok_ge_degree":[(GE,"""        let linear_degree = if self.linear.contains_key(var) { 1 } else { 0 };
        self.quadratic
            .iter()
            .map(|(l, r)| l.degree_of_variable(var) + r.degree_of_variable(var))
            .chain(once(linear_degree))
            .max()
            .unwrap()""","""        let mut result = usize::from(self.linear.contains_key(var));
        for (l, r) in &self.quadratic {
            let d = l.degree_of_variable(var) + r.degree_of_variable(var);
            if d > result {
                result = d;
            }
        }
        result""")],
"ok_ge_known":[(GE,"""        if self.quadratic.is_empty() && self.linear.is_empty() {
            Some(&self.constant)
        } else {
            None
        }""","""        let has_variables = !self.linear.is_empty() || !self.quadratic.is_empty();
        (!has_variables).then_some(&self.constant)""")],
"ok_ix_substknown":[(IX,"""        for item in self
            .variable_occurrences
            .get(variable)
            .unwrap_or(&BTreeSet::new())
        {
            substitute_by_known_in_item(&mut self.constraint_system, *item, variable, substitution);
        }""","""        let Some(items) = self.variable_occurrences.get(variable) else {
            return;
        };
        for item in items {
            substitute_by_known_in_item(&mut self.constraint_system, *item, variable, substitution);
        }""")],
"ok_ix_ext":[(IX,"""            self.variable_occurrences
                .entry(variable)
                .or_default()
                .extend(occurrences);
        }
        self.constraint_system.extend(system)""","""            let entry = self.variable_occurrences.entry(variable).or_default();
            for item in occurrences {
                entry.insert(item);
            }
        }
        self.constraint_system.extend(system)""")],
"ok_ix_updated":[(IX,"""        if let Some(items) = self.constraint_system.variable_occurrences.get(variable) {
            for item in items {
                if !item.is_derived_variable() {
                    self.queue.push(*item);
                }
            }
        }""","""        self.constraint_system
            .variable_occurrences
            .get(variable)
            .into_iter()
            .flatten()
            .filter(|item| !item.is_derived_variable())
            .for_each(|item| self.queue.push(*item));""")],
"ok_so_assign":[(SO,"""    let rc = range_constraints.get(&var);
    if rc.is_disjoint(&value.range_constraint()) {
        return Err(Error::ConflictingRangeConstraints);
    }
    Ok(Effect::Assignment(var, value))""","""    let allowed = range_constraints.get(&var);
    let value_rc = value.range_constraint();
    if allowed.is_disjoint(&value_rc) {
        Err(Error::ConflictingRangeConstraints)
    } else {
        Ok(Effect::Assignment(var, value))
    }""")],
"ok_so_transfer":[(SO,"""        self.expression
            .linear_components()
            .filter_map(|(var, _)| {
                let rc = self.try_solve_for(var)?.range_constraint(range_constraints);
                Some((var, rc))
            })
            .filter(|(_, constraint)| !constraint.is_unconstrained())
            .map(|(var, constraint)| Effect::RangeConstraint(var.clone(), constraint))
            .collect()""","""        let mut effects = vec![];
        for (var, _) in self.expression.linear_components() {
            let Some(solved) = self.try_solve_for(var) else {
                continue;
            };
            let rc = solved.range_constraint(range_constraints);
            if !rc.is_unconstrained() {
                effects.push(Effect::RangeConstraint(var.clone(), rc));
            }
        }
        effects""")],
"ok_so_cond":[(SO,"""    let [Effect::Assignment(first_var, first_assignment)] = left.effects.as_slice() else {
        return None;
    };
    let [Effect::Assignment(second_var, second_assignment)] = right.effects.as_slice() else {
        return None;
    };

    if first_var != second_var {
        return None;
    }
""","""    let (first_var, first_assignment, second_assignment) =
        match (left.effects.as_slice(), right.effects.as_slice()) {
            ([Effect::Assignment(v1, a1)], [Effect::Assignment(v2, a2)]) if v1 == v2 => {
                (v1, a1, a2)
            }
            _ => return None,
        };
""")],
"ok_ba_retain":[(BA,"""        self.constraint_system.retain_algebraic_constraints(|c| {
            c.referenced_unknown_variables()
                .any(|v| variables_to_keep.contains(v))
        });""","""        let keep = |v: &V| variables_to_keep.contains(v);
        self.constraint_system
            .retain_algebraic_constraints(|c| c.referenced_unknown_variables().any(keep));""")],
"ok_ba_equiv":[(BA,"""    if !constr.expression.is_affine() {
        return None;
    }
    if !constr.expression.constant_offset().is_zero() {
        return None;
    }
    let linear = constr.expression.linear_components();
    let [(v1, c1), (v2, c2)] = linear.collect_vec().try_into().ok()?;
    // We have `c1 * v1 + c2 * v2 = 0`, which is equivalent to
    // `v1 = -c2 / c1 * v2`
    if (-*c2 / *c1).is_one() {
        Some((
            v2.clone(),
            GroupedExpression::from_unknown_variable(v1.clone()),
        ))
    } else {
        None
    }""","""    let expression = constr.expression;
    if expression.is_quadratic() || !expression.constant_offset().is_zero() {
        return None;
    }
    let [(v1, c1), (v2, c2)] = expression.linear_components().collect_vec().try_into().ok()?;
    // We have `c1 * v1 + c2 * v2 = 0`, which is equivalent to
    // `v1 = -c2 / c1 * v2`
    if !(-*c2 / *c1).is_one() {
        return None;
    }
    Some((
        v2.clone(),
        GroupedExpression::from_unknown_variable(v1.clone()),
    ))""")],
"ok_ba_new":[(BA,"""        if constraints_to_add.is_empty() {
            false
        } else {
            self.add_algebraic_constraints(constraints_to_add);
            true
        }""","""        let any_new = !constraints_to_add.is_empty();
        if any_new {
            self.add_algebraic_constraints(constraints_to_add);
        }
        any_new""")],
"ok_ba_equivexpr":[(BA,"""        if let Some(equiv) = self.equivalent_expressions_cache.get(expression) {
            return equiv.clone();
        }
""","""        let cached = self.equivalent_expressions_cache.get(expression).cloned();
        if let Some(equiv) = cached {
            return equiv;
        }
""")],
}
