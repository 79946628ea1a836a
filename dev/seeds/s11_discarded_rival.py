EDITS = [("autoprecompiles/src/execution/candidates.rs",
"""                if discard[idx_left]
                    || discard[idx_right]
                    ||""",
"""                if discard[idx_right]
                    ||""")]
META = {"property": "C17", "needs": "three finished candidates where the middle one loses to the first and overlaps the third, which has a lower priority", "what_it_breaks": "a candidate that was itself discarded still knocks out another one, so a valid non-overlapping call is lost"}
MAIN = '''
use powdr_autoprecompiles::execution::{Apc, ApcCandidates, ExecutionState, OptimisticConstraints};
struct S(usize);
impl ExecutionState for S {
    type RegisterAddress = u32;
    type Value = u64;
    fn pc(&self) -> u64 { self.0 as u64 }
    fn value_limb(v: u64, _: usize) -> u64 { v }
    fn reg(&self, _: &u32) -> u64 { 0 }
    fn global_clk(&self) -> usize { self.0 }
}
struct A { len: usize, prio: usize, c: OptimisticConstraints<u32, u64> }
impl Apc<S> for A {
    fn optimistic_constraints(&self) -> &OptimisticConstraints<u32, u64> { &self.c }
    fn cycle_count(&self) -> usize { self.len }
    fn priority(&self) -> usize { self.prio }
}
fn main() {
    let a = |len, prio| A { len, prio, c: OptimisticConstraints::empty() };
    let mut c = ApcCandidates::<S, A, usize>::new(vec![a(2, 3), a(3, 2), a(2, 1)]);
    for clk in 0..=4usize {
        let s = S(clk);
        c.check_conditions(&s, || clk);
        if clk < 3 {
            assert!(c.try_insert(&s, clk, || clk).is_ok());
        }
    }
    let calls: Vec<_> = c.extract_calls().into_iter().map(|k| (k.apc_id, k.from, k.to)).collect();
    assert_eq!(calls, vec![(0, 0, 2), (2, 2, 4)]);
}
'''
