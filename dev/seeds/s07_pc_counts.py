EDITS = [("autoprecompiles/src/empirical_constraints.rs",
"            *self.pc_counts.entry(pc).or_insert(0) += count;",
"            let entry = self.pc_counts.entry(pc).or_insert(0);\n            *entry = (*entry).max(count);")]
META = {"property": "C20", "needs": "a program counter executed in more than one profiled run", "what_it_breaks": "merged execution counts are the maximum of the runs instead of their sum, so thresholds drop constraints that qualify"}
MAIN = '''
use powdr_autoprecompiles::empirical_constraints::EmpiricalConstraints;
fn main() {
    let mk = |n: u64| EmpiricalConstraints { pc_counts: [(8u32, n)].into_iter().collect(), ..Default::default() };
    let mut a = mk(3);
    a.combine_with(mk(4));
    a.combine_with(mk(2));
    assert_eq!(a.pc_counts[&8], 9);
}
'''
