EDITS = [("constraint-solver/src/indexed_constraint_system.rs",
"""                    ConstraintSystemItem::DerivedVariable(i + derived_variables_count)""",
"""                    ConstraintSystemItem::DerivedVariable(derived_variables_count.max(i))""")]
META = {"property": "C05", "needs": "extending a system by another one with at least two derived variables and then substituting a variable used in the definition of the second",
        "what_it_breaks": "the index points to the wrong derived variable, so a substitution leaves a stale definition behind"}
MAIN = '''
use powdr_constraint_solver::constraint_system::{ComputationMethod, ConstraintSystem, DerivedVariable};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
use powdr_number::GoldilocksField as F;
type E = GroupedExpression<F, &'static str>;
fn v(n: &'static str) -> E { GroupedExpression::from_unknown_variable(n) }
fn main() {
    let d = |n, a, b| DerivedVariable::new(n, ComputationMethod::QuotientOrZero(v(a), v(b)));
    let system = ConstraintSystem { derived_variables: vec![d("d0", "p", "q")], ..Default::default() };
    let more = ConstraintSystem { derived_variables: vec![d("d1", "a", "b"), d("d2", "x", "e")], ..Default::default() };
    let mut s: IndexedConstraintSystem<F, &'static str> = system.into();
    s.extend(more);
    s.substitute_by_unknown(&"x", &v("y"));
    let text = s.to_string();
    assert!(!text.contains('x'), "stale definition: {text}");
    assert!(text.contains('y'));
}
'''
