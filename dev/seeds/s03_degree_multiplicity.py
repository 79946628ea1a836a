EDITS = [("constraint-solver/src/inliner.rs",
"            ConstraintRef::BusInteraction(interaction) => interaction.fields().all(|expr| {",
"            ConstraintRef::BusInteraction(interaction) => interaction.payload.iter().all(|expr| {")]
META = {"property": "C03", "needs": "a variable that occurs in the multiplicity of an interaction, is linearly determined by a constraint and whose definition has a degree above the bus bound",
        "what_it_breaks": "inlining produces an interaction multiplicity above the configured degree bound"}
MAIN = '''
use powdr_constraint_solver::constraint_system::{AlgebraicConstraint, BusInteraction, ConstraintSystem};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::inliner::{inline_everything_below_degree_bound, replace_constrained_witness_columns, DegreeBound};
use powdr_number::GoldilocksField as F;
type E = GroupedExpression<F, &'static str>;
fn v(n: &'static str) -> E { GroupedExpression::from_unknown_variable(n) }
fn c(n: u64) -> E { GroupedExpression::from_number(F::from(n)) }
fn main() {
    let system = ConstraintSystem {
        algebraic_constraints: vec![AlgebraicConstraint::assert_zero(v("m") - v("x") * v("y") * v("z"))],
        bus_interactions: vec![BusInteraction { bus_id: c(3), multiplicity: v("m"), payload: vec![v("x")] }],
        derived_variables: vec![],
    };
    let (s, _) = replace_constrained_witness_columns(system.into(), inline_everything_below_degree_bound(DegreeBound { identities: 5, bus_interactions: 1 }));
    for b in s.bus_interactions() {
        for f in std::iter::once(&b.multiplicity).chain(&b.payload) {
            assert!(f.degree() <= 1, "degree {} in {b}", f.degree());
        }
    }
}
'''
