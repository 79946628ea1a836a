C="constraint-solver/src/"
A="autoprecompiles/src/"
RC=C+"range_constraint.rs"; SP=C+"solver/constraint_splitter.rs"; IN=C+"inliner.rs"; EX=C+"solver/exhaustive_search.rs"; LI=C+"solver/linearizer.rs"; BO=C+"solver/boolean_extractor.rs"
ME=A+"memory_optimizer.rs"; RO=A+"range_constraint_optimizer.rs"; TH=A+"trace_handler.rs"
BUGS={
"c01_conj_mask":[(RC,"""                min = cmp::min(mask.into(), min);
                max = cmp::min(mask.into(), max);
            } else if min.to_integer() > mask {
                min = T::zero();
                max = cmp::min(mask.into(), max);
            } else {
""","""                min = cmp::min(mask.into(), min);
                max = cmp::min(mask.into(), max);
            } else {
                min = T::zero();
                max = cmp::min(mask.into(), max);
            }
            if false {
""")],
"c02_square_wrap":[(RC,"""            let max_abs = std::cmp::max(-self.min, self.max);
            if max_abs.to_arbitrary_integer() * max_abs.to_arbitrary_integer()
""","""            let max_abs = if self.max.is_in_lower_half() { self.max } else { -self.min };
            if max_abs.to_arbitrary_integer() * max_abs.to_arbitrary_integer()
""")],
"c03_disj_wrap_cover":[(RC,"""                if min <= max {
                    // The ranges cover the full field.
                    Self::from_mask(mask)
                } else {
                    Self { min, max, mask }
                }
""","""                Self { min, max, mask }
""")],
"c04_single_value":[(RC,"""        if self.min == self.max && self.min.to_integer() & self.mask == self.min.to_integer() {
            Some(self.min)
        } else {
            None
        }
""","""        (self.min == self.max).then_some(self.min)
""")],
"c05_disjoint_zero":[(RC,"""        let masks_disjoint = !zero_allowed && (self.mask & other.mask).is_zero();
""","""        let masks_disjoint = (self.mask & other.mask).is_zero();
""")],
"c06_width_full":[(RC,"""    if max + T::one() == min {
        T::modulus()
    } else {
        (max - min + T::one()).to_integer()
    }
""","""    (max - min + T::one()).to_integer()
""")],
"c07_product_one_side":[(RC,"""        } else if self.min <= self.max
            && other.min <= other.max
            && self.max""","""        } else if self.min <= self.max
            && self.max""")],
"c08_intersection_choice":[(RC,"""            if range_width(a.0, a.1) <= range_width(b.0, b.1) {
                Some(a)
            } else {
                Some(b)
            }
""","""            // Prefer the non-wrapping one, cut at the bounds of the other.
            if a.0 <= a.1 {
                Some((cmp::max(a.0, b.0), a.1))
            } else {
                Some((cmp::max(a.0, b.0), b.1))
            }
""")],
"c09_split_rest":[(SP,"""            .filter(|(i, component)| *i != index && !component.is_zero())
            .map(|(_, comp)| (comp""","""            .filter(|(i, component)| *i > index && !component.is_zero())
            .map(|(_, comp)| (comp""")],
"c10_split_shift":[(SP,"""            constant + shift,
            range_constraints,
        )
        .map(|s| s + shift);""","""            constant + shift,
            range_constraints,
        );""")],
"c11_split_unique":[(SP,"""        .filter(|candidate| expr_rc.allows_value(*candidate))
        .exactly_one()
        .ok()
""","""        .find(|candidate| expr_rc.allows_value(*candidate))
""")],
"c12_split_bound":[(SP,"""    if max_expr.to_integer() >= coefficient.to_integer() + coefficient.to_integer() {
        // In this case, there are always at least two solutions (ignoring masks and other
        // constraints).
        return None;
    }
""","")],
"c13_split_rest_width":[(SP,"""        || rest_rc.range_width() == unconstrained_range_width
    {""","""        && rest_rc.range_width() == unconstrained_range_width
    {""")],
"c14_recombine":[(SP,"""            expr + &GroupedExpression::from_number(constant / *coeff)
""","""            if constant.is_zero() { expr.clone() } else { expr + &GroupedExpression::from_number(constant) }
""")],
"c15_group_norm":[(SP,"""        .map(|c| c.normalize())
        .into_grouping_map_by(|c| c.coeff)
""","""        .map(|c| c.normalize())
        .into_grouping_map_by(|c| c.coeff.to_integer().num_bits())
""")],
"c16_inline_break":[(IN,"""                    to_remove_idx.insert(curr_idx);
                    substitutions.insert(var, expr);

                    break;
""","""                    to_remove_idx.insert(curr_idx);
                    substitutions.insert(var, expr);
""")],
"c17_inline_deg_bus":[(IN,"""            ConstraintRef::BusInteraction(interaction) => interaction.fields().all(|expr| {
""","""            ConstraintRef::BusInteraction(interaction) => interaction.payload.iter().all(|expr| {
""")],
"c18_inline_virtual":[(IN,"""        .chain(linear.map(|(v, _)| if v == var { replacement_deg } else { 1 }))
        .max()
        .unwrap_or(0)
""","""        .max()
        .unwrap_or_else(|| linear.map(|(v, _)| if v == var { replacement_deg } else { 1 }).max().unwrap_or(0))
""")],
"c19_inline_const_repl":[(IN,"""    let replacement_deg = expr.degree();
""","""    let replacement_deg = expr.degree().max(1).min(degree_bound.identities);
""")],
"c20_exh_take":[(EX,"""                        .take(num_variables - 1)
                        .collect::<BTreeSet<_>>();
                    is_candidate_for_exhaustive_search(&variables_without_largest_range, &rc)
                        .then_some(variables_without_largest_range)
""","""                        .take(num_variables - 1)
                        .collect::<BTreeSet<_>>();
                    Some(variables_without_largest_range)
""")],
"c21_exh_contra":[(EX,"""        // Early return if any constraint leads to a contradiction.
        .collect::<Result<Vec<_>, _>>()?;
""","""        // Skip constraints that lead to a contradiction.
        .filter_map(|r: Result<_, ContradictingConstraintError>| r.ok())
        .collect::<Vec<_>>();
""")],
"c22_exh_sub":[(EX,"""                for (variable, value) in assignments.iter() {
                    identity.substitute_by_known(variable, value);
                }
                identity""","""                if let Some((variable, value)) = assignments.iter().next() {
                    identity.substitute_by_known(variable, value);
                }
                identity""")],
"c23_exh_fields":[(EX,"""                    bus_interaction
                        .fields_mut()
                        .for_each(""","""                    bus_interaction
                        .payload
                        .iter_mut()
                        .for_each(""")],
"c24_lin_existing":[(LI,"""                    GroupedExpressionComponent::Quadratic(l, r) => {
                        let l =
                            self.try_substitute_by_existing_var(&self.try_linearize_existing(l)?)?;
                        let r =
                            self.try_substitute_by_existing_var(&self.try_linearize_existing(r)?)?;
""","""                    GroupedExpressionComponent::Quadratic(l, r) => {
                        let l =
                            self.try_substitute_by_existing_var(&self.try_linearize_existing(l)?)?;
                        let r = self.try_linearize_existing(r)?;
""")],
"c25_bool_contains":[(BO,"""            if self.substitutions.contains_key(right) {
                None
            } else {
                self.substitutions.insert(right.clone(), None);
                Some(""","""            if self.substitutions.insert(right.clone(), None).flatten().is_some() {
                None
            } else {
                Some(""")],
"c26_bool_factor":[(BO,"""                if left_var == right_var =>
            {""","""                if left_var == right_var || left_coeff == right_coeff =>
            {""")],
"c27_mem_known":[(ME,"""                memory_contents.retain(|other_addr, _| {
                    addr.0""","""                memory_contents.retain(|other_addr, content| {
                    content.data.iter().all(|e| e.try_to_number().is_some()) || addr.0""")],
"c28_mem_get":[(ME,"""                if let Some(existing) = memory_contents.remove(&addr) {
                    for""","""                if let Some(existing) = memory_contents.remove(&addr).filter(|e| e.data != mem_int.data()) {
                    for""")],
"c29_mem_ts":[(ME,"""                    for (existing_timestamp_limb, new_timestamp_limb) in existing
                        .timestamp_limbs
                        .iter()
                        .zip_eq(mem_int.timestamp_limbs().iter())
                    {""","""                    for (existing_timestamp_limb, new_timestamp_limb) in existing
                        .timestamp_limbs
                        .iter()
                        .zip_eq(mem_int.timestamp_limbs().iter())
                        .filter(|(e, _)| e.try_to_number().is_none())
                    {""")],
"c30_ro_mult":[(RO,"""        if bus_int.multiplicity != GroupedExpression::from_number(T::one()) {
""","""        if bus_int.multiplicity.try_to_number().is_none() {
""")],
"c31_ro_conj":[(RO,"""                    let existing_rc = range_constraints
                        .entry(expr)
                        .or_insert_with(RangeConstraint::default);
                    *existing_rc = existing_rc.conjunction(&rc);
""","""                    range_constraints.entry(expr).or_insert(rc);
""")],
"c32_ro_system":[(RO,"""            let rc = range_constraints.remove(&expr).unwrap();
            (expr, rc)
        })
        .filter(|(expr, rc)| {
            let current_rc = solver.range_constraint_for_expression(expr);
            current_rc != current_rc.conjunction(rc)
        })""","""            let rc = range_constraints.remove(&expr).unwrap();
            (expr, rc)
        })
        .filter(|(expr, rc)| {
            let current_rc = solver.range_constraint_for_expression(expr);
            current_rc != current_rc.conjunction(rc) && !current_rc.is_disjoint(rc)
        })""")],
"c33_ro_bit":[(RO,"""            if rc == &RangeConstraint::from_mask(1)
                && bit""","""            if rc.range_width() <= RangeConstraint::<T>::from_mask(1).range_width()
                && bit""")],
"c34_th_offset":[(TH,"""                let count = counts.entry(air_id).or_default();
                let current_count = *count;
                *count += 1;
                Some(current_count)
""","""                let count = counts.len();
                Some(*counts.entry(air_id).or_insert(count))
""")],
"c35_th_counts":[(TH,"""    let air_id_occurrences = original_instruction_air_ids.iter().counts();
""","""    let air_id_occurrences = original_instruction_air_ids.iter().dedup().counts();
""")],
"c36_th_zip":[(TH,"""        .filter(|(_, subs)| !subs.is_empty());
""","""        .filter(|(_, subs)| subs.len() > 1 || !subs.is_empty() && apc_call_count > 0);
""")],
"c37_rc_sum_gap":[(RC,"""            <= unconstrained.range_width().to_arbitrary_integer()
        {
            (self.min + other.min, self.max + other.max)
        } else {
            unconstrained.range()
        };
        if min <= max {""","""            <= unconstrained.range_width().to_arbitrary_integer()
            || (self.min <= self.max && other.min <= other.max)
        {
            (self.min + other.min, self.max + other.max)
        } else {
            unconstrained.range()
        };
        if min <= max {""")],
"c38_rc_multiple_mask":[(RC,"""            (self.mask.to_arbitrary_integer() << exponent < T::modulus().to_arbitrary_integer())
                .then(|| self.mask << exponent)
""","""            Some(self.mask << exponent)
""")],
}
