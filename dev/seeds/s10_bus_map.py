EDITS = [("autoprecompiles/src/bus_map.rs",
"""                if existing != &v {
                    panic!("BusType `{v}` already exists under ID `{existing}`, cannot map to `{v}`");
                }
""",
"""                if matches!(existing, BusType::Other(_)) && existing != &v {
                    panic!("BusType `{v}` already exists under ID `{existing}`, cannot map to `{v}`");
                }
""")]
META = {"property": "C31", "needs": "a bus configuration that maps the id of a standard bus to a second type", "what_it_breaks": "conflicting registrations for one id are accepted silently and the second bus type is lost"}
MAIN = '''
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| BusMap::<String>::from_id_type_pairs([(1, BusType::Memory), (1, BusType::PcLookup)]));
    if let Ok(m) = r {
        eprintln!("conflict accepted; id of the second bus: {:?}", m.get_bus_id(&BusType::PcLookup));
        std::process::exit(1);
    }
    BusMap::<String>::from_id_type_pairs([(1, BusType::Memory), (1, BusType::Memory), (2, BusType::PcLookup)]);
}
'''
