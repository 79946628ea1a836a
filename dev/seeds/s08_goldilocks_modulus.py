EDITS = [("number/src/goldilocks.rs",
"        if value < Self::modulus().to_arbitrary_integer() {",
"        if value <= Self::modulus().to_arbitrary_integer() {")]
META = {"property": "C16", "needs": "the integer that equals the modulus", "what_it_breaks": "a checked conversion accepts the modulus itself and yields zero"}
MAIN = '''
use powdr_number::{FieldElement, GoldilocksField as F, LargeInt};
fn main() {
    let m = F::modulus().to_arbitrary_integer();
    assert!(F::checked_from(m.clone()).is_none(), "the modulus is accepted as a field element");
    assert!(F::checked_from(m - 1u32).is_some());
}
'''
