EDITS = [("openvm-bus-interaction-handler/src/memory.rs",
"""            let data = if address_space_value == Some(RV32_REGISTER_AS)
                && pointer.try_to_single_value() == Some(T::zero())
            {""",
"""            let data = if pointer.try_to_single_value() == Some(T::zero()) {""")]
META = {"property": "C14", "needs": "a receive from the heap address space at the constant address zero", "what_it_breaks": "data read from memory address zero is inferred to be zero although only register x0 has that guarantee"}
MAIN = '''
use powdr_constraint_solver::constraint_system::{BusInteraction, BusInteractionHandler};
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::BabyBearField as F;
use powdr_openvm_bus_interaction_handler::{bus_map::DEFAULT_MEMORY, OpenVmBusInteractionHandler};
fn main() {
    let handler = OpenVmBusInteractionHandler::<F>::default();
    let val = |x: i64| RangeConstraint::from_value(F::from(x));
    let free = RangeConstraint::<F>::default();
    let b = BusInteraction { bus_id: val(DEFAULT_MEMORY as i64), multiplicity: val(-1), payload: vec![val(2), val(0), free, free, free, free, free] };
    let r = handler.handle_bus_interaction(b);
    for d in &r.payload[2..6] {
        assert!(d.allows_value(F::from(77i64)), "memory byte at address 0 restricted to {d}");
    }
}
'''
