EDITS = [("autoprecompiles/src/blocks/mod.rs",
"""    if !current_run.is_empty() {
        *execution_bb_runs
            .entry(std::mem::take(&mut current_run))
            .or_insert(0) += 1;
    }

    execution_bb_runs
""",
"""    if !current_run.is_empty() {
        execution_bb_runs
            .entry(std::mem::take(&mut current_run))
            .or_insert(1);
    }

    execution_bb_runs
""")]
META = {"property": "C18", "needs": "an execution that ends in the middle of a run which already occurred earlier", "what_it_breaks": "the last occurrence of the run and of all its superblocks is not counted"}
MAIN = '''
use powdr_autoprecompiles::blocks::{detect_superblocks, BasicBlock, PcStep};
use powdr_autoprecompiles::{DegreeBound, PowdrConfig};
#[derive(Clone)]
struct I;
impl PcStep for I { fn pc_step() -> u32 { 4 } }
fn main() {
    let bb = |start_pc, n| BasicBlock { start_pc, instructions: vec![I; n] };
    let cfg = PowdrConfig::new(10, 0, DegreeBound { identities: 3, bus_interactions: 2 }).with_superblocks(2, None, None);
    let exec = [0u64, 4, 100, 0, 4];
    let r = detect_superblocks(&cfg, &exec, vec![bb(0, 2), bb(100, 1)]);
    let total: u32 = r.execution_bb_runs.iter().map(|(_, n)| *n).sum();
    assert_eq!(total, 2, "runs counted");
    assert_eq!(r.blocks[0].count, 2);
}
'''
