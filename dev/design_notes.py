NOTES = {
"C01": """Rule `hash_order` (dataflow): every iteration over a randomly seeded table ends in an order-insensitive sink, a total sort or a confirmed exception;
`serialized_hash_fields`, `parallel`, clock/random/address sources. Contracts of the functions that hold the confirmed exceptions. Reach: the random seed of a
table is the schedule a test cannot vary; the dataflow covers every iteration site. Limit: exceptions (eight, listed with reasons) are confirmed by reading.""",
"C02": """Contracts of every removal site: `remove_disconnected_columns`, `remove_trivial_constraints`, memory optimizer, low-degree replacement, inliner, reachability. The gate
(stateful, multiplicity zero, provable cancellation) is part of the path condition of the removal effect. Limit: that the gate is *sufficient* is argued by reading.""",
"C03": """Contracts of every emission site with its degree comparison (inliner's `DegreeBound` gates, rule driver, low-degree replacement, linearizer, optimizer's final assertion) and the
`degree` functions themselves. The gate is a conjunct of the substitution effect's condition.""",
"C04": """Contracts of constraint_optimizer, solver and exhaustive search: the condition and operand of each `retain`, substitution and added constraint.""",
"C05": """Contracts of all mutators and queries of `IndexedConstraintSystem(WithQueue)`: each list update and its index update are effects of one summary with the same operands, the
remapping of indices is a term, the queue bit and the queue push share their condition. Reach: holds for all histories since each operation preserves the invariant.""",
"C06": """Contracts of `BaseSolver` (range store update is `conjunction(old, new)`, changed variables are requeued), effect handling and the variable transformation layer.""",
"C07": """Contracts with error outcomes: where each function returns `Err`, panics or an empty effect is a boolean function over its tests; the logical second stage compares exactly that
function. `?` is modelled, so a swallowed error is a missing outcome.""",
"C08": """Contracts of visitors, `Children` impls and reference iterators (shared and mutable): the chained children in order.""",
"C09": """Contracts of grouped and symbolic expression arithmetic, substitution and conversion, with ring normalisation of field terms.""",
"C10": """Contracts of `build` and `add_guards`: each bus multiplicity and constraint rewritten with the fresh flag. Limit: that unguarded constraints accept the zero row is argued by reading.""",
"C11": """Contracts of `ColumnAllocator`, the rule engine's variable generator and item interning, internal solver variables: the counter read, the returned id and the counter update are one summary.""",
"C12": """Contracts of the memory optimizer and the memory bus parser: pairing conditions, alias exclusion, removal indices and added equalities.""",
"C13": """Contracts of `optimize_range_constraints` and `RangeConstraintHandler`: grouping, intersection of bounds, `Result` of the batch maker.""",
"C14": """Contracts of each bus handler in its three views (refinement, violation, pure range), the statefulness view and the generic bus interaction code; selectors and multiplicities are atoms.""",
"C15": """Contracts of hand-written writers and readers, `serde_pairs` and `compared_fields` item rules for derived ones.""",
"C16": """Contracts of both field implementations and the macro-generated ones, constants (moduli, shifts, two-adicity) by value.""",
"C17": """Contracts of `execution/` and `optimistic/`: candidate life cycle, overlap discard, priority, condition evaluation per step.""",
"C18": """Contracts of block collection, superblock generation, run detection and execution-profile counting.""",
"C19": """Contracts of trace handler, column mapping and row evaluator. Limit: the GPU/openvm trace generation is outside the analysable crates.""",
"C20": """Contracts of combining, filtering, exporting empirical constraints and of partition intersection.""",
"C21": """Rule `datalog_rules` (syntax-tree comparison of the `crepe!` program modulo renaming, order, helper and relation extraction), contracts of the driver, item database, environment.""",
"C22": """Contracts of the three selection strategies, candidate evaluation, JSON export, evaluation statistics.""",
"C23": """Contracts of ELF parsing, decoding, label scan, fusion; constants for register and syscall tables by value.""",
"C24": """Contracts of `RangeConstraint` (constructors, conjunction, disjunction, sum, product, multiple, square, queries). Limit: correctness of the confirmed formulas is argued by
reading; the check shows they are unchanged in every case and condition.""",
"C25": """Contracts of the constraint splitter: grouping, gap test, the parts it emits, the conditions for giving up.""",
"C26": """Contracts of the low-degree replacement: hypothesis enumeration, exhaustive check bounds, input ranges added.""",
"C27": """Contracts of algebraic-constraint solving and of its effect combination, with error outcomes.""",
"C28": """Contracts of `ConstraintSystem` (all three lists in every operation), splitter and reachability; `compared_fields` for Clone.""",
"C29": """Contracts of linearizer, boolean extractor and variable transformation: map lookups before creation, bidirectional translation, filtering of internal variables from results.""",
"C30": """Contracts of `AlgebraicReference` impls, evaluators and conversions; `compared_fields`: equality, order, hash look at `id` only.""",
"C31": """Contracts of the bus map: both directions updated together, conflicts rejected, unknown ids reported.""",
"C32": """Contracts of all `Display` impls (format pieces, order, parenthesis conditions) and the statistics functions.""",
}
