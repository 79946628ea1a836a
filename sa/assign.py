"""Which behaviour contracts each property rests on.

A pattern is a regular expression over "<file>#<contract id>".  A function may
serve several properties; everything listed here was read and confirmed."""
import re

AP = "autoprecompiles/src/"
CS = "constraint-solver/src/"
OV = "openvm-bus-interaction-handler/src/"

CONTRACTS = {
    # determinism is decided by the hash-order rule; the contracts are those of the confirmed exceptions
    "C01": [AP + r"equivalence_classes\.rs", CS + r"(reachability|system_splitter)\.rs", CS + r"solver/(linearizer|boolean_extractor)\.rs#.*apply_assignments",
            AP + r"empirical_constraints\.rs#.*generate_constraints", CS + r"solver/constraint_splitter\.rs"],
    # stateful interactions survive optimisation
    "C02": [AP + r"constraint_optimizer\.rs", AP + r"optimizer\.rs#.*\|optimize(_exec_bus)?\|", CS + r"reachability\.rs", CS + r"system_splitter\.rs",
            OV + r"lib\.rs#.*is_stateful", AP + r"memory_optimizer\.rs", AP + r"low_degree"],
    # degree bound
    "C03": [CS + r"inliner\.rs", AP + r"optimizer\.rs#.*\|optimize\|", AP + r"low_degree", CS + r"rule_based_optimizer/driver\.rs", r"#.*\|degree(_of_variable)?$",
            AP + r"symbolic_machine\.rs#.*degree", AP + r"range_constraint_optimizer\.rs", CS + r"solver/linearizer\.rs"],
    # rewriting never drops a constraint without its replacement
    "C04": [AP + r"constraint_optimizer\.rs", CS + r"solver\.rs", AP + r"optimizer\.rs#.*\|optimize\|", CS + r"solver/exhaustive_search\.rs",
            CS + r"algebraic_constraint/mod\.rs"],
    # index coherence
    "C05": [CS + r"indexed_constraint_system\.rs"],
    # solver knowledge is monotone and propagated
    "C06": [CS + r"solver/base\.rs", CS + r"effect\.rs", CS + r"solver\.rs", CS + r"bus_interaction_handler\.rs", CS + r"solver/var_transformation\.rs"],
    # contradictions are reported
    "C07": [CS + r"solver/exhaustive_search\.rs", CS + r"algebraic_constraint/solve\.rs", CS + r"solver/base\.rs#.*\|(solve$|add_)", CS + r"bus_interaction_handler\.rs",
            CS + r"solver\.rs", CS + r"constraint_system\.rs#.*\|solve", AP + r"constraint_optimizer\.rs#.*Error", CS + r"utils\.rs"],
    # traversals
    "C08": [r"expression/src/visitors\.rs", AP + r"powdr\.rs", AP + r"symbolic_machine\.rs#.*(Children|into_iter|IntoIterator|main_columns|concatenate)",
            AP + r"execution/ast\.rs#.*(Children|unique_references)", CS + r"constraint_system\.rs#.*(fields|from_iter|referenced|variables|expressions)",
            CS + r"grouped_expression\.rs#.*(referenced|all_children|components|into_summands|summands)", CS + r"symbolic_expression\.rs#.*(all_children|referenced)"],
    # expression arithmetic
    "C09": [CS + r"grouped_expression\.rs", CS + r"symbolic_expression\.rs", CS + r"runtime_constant\.rs", r"expression/src/lib\.rs",
            AP + r"expression_conversion\.rs", r"number/src/expression_convertible\.rs"],
    # guards
    "C10": [AP + r"lib\.rs#.*\|build\|", AP + r"powdr\.rs", AP + r"lib\.rs#.*ColumnAllocator"],
    # fresh names
    "C11": [CS + r"rule_based_optimizer/(new_var_generator|item_db|environment)\.rs", AP + r"lib\.rs#.*(ColumnAllocator|\|build\|)", AP + r"powdr\.rs",
            CS + r"solver/(linearizer|boolean_extractor|var_transformation)\.rs", AP + r"optimizer\.rs#.*\|optimize\|", AP + r"symbolic_machine_generator\.rs"],
    # memory
    "C12": [AP + r"memory_optimizer\.rs", OV + r"memory_bus_interaction\.rs"],
    # range constraints
    "C13": [AP + r"range_constraint_optimizer\.rs", OV + r"lib\.rs#.*RangeConstraintHandler", OV + r"(variable_range_checker|tuple_range_checker|bitwise_lookup)\.rs#.*pure"],
    # bus semantics
    "C14": [OV, CS + r"bus_interaction_handler\.rs", CS + r"constraint_system\.rs#BusInteraction|" + CS + r"constraint_system\.rs#.*BusInteraction"],
    # serialisation
    "C15": [r"number/src/serialize\.rs", AP + r"export\.rs", r"#.*\|(Serialize|Deserialize)\|", AP + r"symbolic_machine_generator\.rs", r"number/src/.*#.*(to_bytes_le|from_bytes_le)"],
    # field elements
    "C16": [r"number/src/"],
    # execution candidates
    "C17": [AP + r"execution/", AP + r"optimistic/"],
    # blocks
    "C18": [AP + r"blocks/", AP + r"execution_profile\.rs"],
    # trace mapping
    "C19": [AP + r"trace_handler\.rs", AP + r"lib\.rs", AP + r"expression\.rs#.*(eval|new)", AP + r"symbolic_machine_generator\.rs"],
    # empirical constraints
    "C20": [AP + r"empirical_constraints\.rs", AP + r"equivalence_classes\.rs"],
    # rule based optimiser
    "C21": [CS + r"rule_based_optimizer/"],
    # pgo
    "C22": [AP + r"pgo/", AP + r"adapter\.rs", AP + r"evaluation\.rs"],
    # risc-v
    "C23": [r"riscv-elf/", r"riscv-types/", r"isa-utils/", r"syscalls/"],
    # range arithmetic
    "C24": [CS + r"range_constraint\.rs", CS + r"utils\.rs"],
    # splitting
    "C25": [CS + r"solver/constraint_splitter\.rs"],
    # low degree bus interactions
    "C26": [AP + r"low_degree"],
    # solving
    "C27": [CS + r"algebraic_constraint/"],
    # constraint systems, derived variables
    "C28": [CS + r"constraint_system\.rs", CS + r"system_splitter\.rs", CS + r"reachability\.rs"],
    # linearizer, boolean extraction, variable transformation
    "C29": [CS + r"solver/(linearizer|boolean_extractor|var_transformation)\.rs"],
    # identity of references
    "C30": [AP + r"expression\.rs", AP + r"symbolic_machine\.rs", AP + r"expression_conversion\.rs"],
    # bus map
    "C31": [AP + r"bus_map\.rs", OV + r"bus_map\.rs"],
    # display / reporting
    "C32": [r"expression/src/display\.rs", AP + r"stats_logger\.rs", AP + r"evaluation\.rs", r"#.*\|Display\|fmt$"],
}


def contracts_of(prop, contracts):
    pats = [re.compile(p) for p in CONTRACTS.get(prop, ())]
    return [k for k, v in contracts.items() if any(p.search(v["file"] + "#" + k) for p in pats)]


if __name__ == "__main__":
    import contract
    c = contract.load()
    used = set()
    for p in CONTRACTS:
        ks = contracts_of(p, c)
        used |= set(ks)
        print(p, len(ks))
    print("unassigned", [(c[k]["file"], k) for k in c if k not in used])
