EDITS = [("riscv-elf/src/rv64.rs",
"                Op::BEQ | Op::BNE | Op::BLT | Op::BGE | Op::BLTU | Op::BGEU => {",
"                Op::BEQ | Op::BNE | Op::BLT | Op::BGE | Op::BLTU => {")]
META = {"property": "C23", "needs": "a 64-bit binary in which an address is reached only by a BGEU instruction", "what_it_breaks": "the target of the branch is not reported as a jump target"}
MAIN = '''
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let base = 0x10000u64;
    // bgeu a0, a1, +16 ; nop ; nop ; nop ; ret
    let code: [u32; 5] = [0x00b57863, 0x13, 0x13, 0x13, 0x8067];
    let off = 0x1000usize;
    let mut b: Vec<u8> = b"\\x7fELF".to_vec();
    b.extend([2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    for x in [2u16, 243] { b.extend(x.to_le_bytes()); }
    b.extend(1u32.to_le_bytes());
    for x in [base, 64, 0] { b.extend(x.to_le_bytes()); }
    b.extend(0u32.to_le_bytes());
    for x in [64u16, 56, 1, 64, 0, 0] { b.extend(x.to_le_bytes()); }
    for x in [1u32, 5] { b.extend(x.to_le_bytes()); }
    for x in [off as u64, base, base, 20, 20, 0x1000] { b.extend(x.to_le_bytes()); }
    b.resize(off, 0);
    for c in code { b.extend(c.to_le_bytes()); }
    let p = std::path::Path::new(&dir).join("t.elf");
    std::fs::write(&p, b).unwrap();
    let labels = powdr_riscv_elf::rv64::compute_jumpdests(&p);
    assert!(labels.jumpdests.contains(&(base + 16)), "target of bgeu missing: {:x?}", labels.jumpdests);
}
'''
