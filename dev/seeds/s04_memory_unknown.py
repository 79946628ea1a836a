EDITS = [("autoprecompiles/src/memory_optimizer.rs",
"""                memory_contents.clear();
                continue;""",
"""                continue;""")]
META = {"property": "C12", "needs": "a memory interaction with a multiplicity that is not a known +-1 between a send and a receive at the same address",
        "what_it_breaks": "a send and a later receive are cancelled although an access of unknown direction in between may have changed the cell"}
MAIN = '''
use powdr_autoprecompiles::memory_optimizer::optimize_memory;
use powdr_constraint_solver::constraint_system::{BusInteraction, ConstraintSystem};
use powdr_constraint_solver::bus_interaction_handler::DefaultBusInteractionHandler;
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::solver::new_solver;
use powdr_number::BabyBearField as F;
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
type V = String;
type E = GroupedExpression<F, V>;
fn v(n: &str) -> E { GroupedExpression::from_unknown_variable(n.to_string()) }
fn c(n: i64) -> E { GroupedExpression::from_number(F::from(n)) }
fn access(mult: E, data: &str, ts: &str) -> BusInteraction<E> {
    BusInteraction { bus_id: c(1), multiplicity: mult, payload: vec![c(2), v("addr"), v(data), v(ts)] }
}
fn main() {
    let system = ConstraintSystem { bus_interactions: vec![
        access(c(1), "d0", "t0"),
        access(v("active"), "d1", "t1"),
        access(c(-1), "d2", "t2"),
    ], ..Default::default() };
    let mut solver = new_solver(system.clone(), DefaultBusInteractionHandler::default());
    let out = optimize_memory::<_, _, OpenVmMemoryBusInteraction<F, V>>(system, &mut solver, Some(1));
    assert_eq!(out.bus_interactions.len(), 3, "removed accesses around one of unknown direction");
    assert!(out.algebraic_constraints.is_empty());
}
'''
