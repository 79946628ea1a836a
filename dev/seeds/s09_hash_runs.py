EDITS = [("autoprecompiles/src/blocks/mod.rs",
"    let mut execution_bb_runs = BTreeMap::new();\n    let mut current_run = vec![];",
"    let mut execution_bb_runs = HashMap::new();\n    let mut current_run = vec![];")]
META = {"property": "C01", "needs": "an execution with several distinct runs, observed in more than one process or call", "what_it_breaks": "the order of the detected runs depends on the random seed of a hash table"}
MAIN = '''
use powdr_autoprecompiles::blocks::{detect_superblocks, BasicBlock, PcStep};
use powdr_autoprecompiles::{DegreeBound, PowdrConfig};
#[derive(Clone)]
struct I;
impl PcStep for I { fn pc_step() -> u32 { 4 } }
fn main() {
    let run = || {
        let bb = |start_pc, n| BasicBlock { start_pc, instructions: vec![I; n] };
        let cfg = PowdrConfig::new(10, 0, DegreeBound { identities: 3, bus_interactions: 2 }).with_superblocks(1, None, None);
        let mut exec = vec![];
        let mut blocks = vec![bb(100000, 1)];
        for i in 0..50u64 {
            blocks.push(bb(i * 8, 2));
            exec.extend([i * 8, i * 8 + 4, 100000]);
        }
        detect_superblocks(&cfg, &exec, blocks).execution_bb_runs.into_iter().map(|(r, _)| r.0).collect::<Vec<_>>()
    };
    let first = run();
    for _ in 0..10 {
        assert_eq!(first, run(), "two runs on the same input differ");
    }
}
'''
