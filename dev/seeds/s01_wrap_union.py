EDITS = [("constraint-solver/src/range_constraint.rs",
"""                if min <= max {
                    // The ranges cover the full field.""",
"""                if min < max {
                    // The ranges cover the full field.""")]
META = {"property": "C24", "needs": "two wrapping ranges (min > max) where one starts exactly at the value at which the other one ends",
        "what_it_breaks": "the disjunction of two range constraints excludes values both operands allow: it becomes a single value"}
MAIN = '''
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::GoldilocksField as F;
fn main() {
    let r = |a: u64, b: u64| RangeConstraint::<F>::from_range(F::from(a), F::from(b));
    for (a, b) in [(r(10, 3), r(20, 10)), (r(20, 10), r(10, 3)), (r(10, 3), r(20, 11)), (r(10, 3), r(20, 4)), (r(10, 9), r(10, 9))] {
        let u = a.disjunction(&b);
        for v in [0u64, 1, 2, 3, 9, 10, 11, 20, 21, 1000] {
            let v = F::from(v);
            if a.allows_value(v) || b.allows_value(v) {
                assert!(u.allows_value(v), "{v} is allowed by {a} or {b} but not by their disjunction {u}");
            }
        }
    }
}
'''
