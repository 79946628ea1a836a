#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AP, CS, OV = "autoprecompiles/src/", "constraint-solver/src/", "openvm-bus-interaction-handler/src/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append((id, title, statement, over, qtext, why, files, mech, technique, note))


BC = "behaviour contracts (gated MIR summaries compared as normalised terms)"

p("C01", "Outputs are a deterministic function of the inputs",
  "Running the optimizer, the precompile builder, the profile-guided selection or the constraint generators twice on the same input yields identical output, including the order of constraints, interactions, columns and calls. No result may depend on the iteration order of randomly seeded hash tables, on thread scheduling, on the clock or on addresses.",
  ["inputs", "schedules", "configurations"], "every input, every hash seed and every thread schedule",
  "Each test process samples one hash seed and one schedule; snapshot tests on small systems rarely have two hash-ordered elements whose order matters.",
  [CS, AP], [("hash iteration is sorted or folded into order-insensitive accumulators", CS + "inliner.rs, solver/exhaustive_search.rs, indexed_constraint_system.rs, " + AP + "constraint_optimizer.rs")],
  "whole-program hash-order dataflow (taint from hash iteration to ordered sinks)",
  "Every iteration over a randomly seeded hash table, parallel iterator, clock or address in the nine crates is enumerated and followed to where its order could become observable; an order-sensitive use without sort or commutative fold is reported.")

p("C02", "Side-effecting bus interactions survive optimization",
  "An interaction with a stateful bus (memory, execution bridge) that can have non-zero multiplicity is never removed, altered in meaning or disconnected by simplification, except when a send and a receive that provably cancel are removed together. Constraints and stateless interactions are removed as disconnected only when nothing they constrain can reach a stateful interaction.",
  ["inputs", "programs"], "every constraint system and every bus-statefulness assignment",
  "Snapshot tests pin a handful of blocks; a pass that drops a stateful interaction only in an unusual shape (zero multiplicity guard, blocked variable, duplicated interaction) passes them all.",
  [AP + "constraint_optimizer.rs", AP + "optimizer.rs", CS + "reachability.rs", CS + "system_splitter.rs"],
  [("removal predicates ask the bus handler about statefulness first", AP + "constraint_optimizer.rs"), ("exec-bus receive/send pairing", AP + "optimizer.rs"), ("reachability from stateful interactions", CS + "reachability.rs")],
  "removal-gate analysis over resolved retain/filter sites + " + BC,
  "Every site that can remove a bus interaction is enumerated and its keep-predicate shown to imply keeping stateful ones; the passes' summaries equal the confirmed ones.")

p("C03", "Optimization never exceeds the configured degree bound",
  "Every polynomial constraint and every bus-interaction field the optimizer emits has degree at most the bound configured for its kind, provided the input did. In particular a substitution, a rule-based replacement or a synthesised low-degree interaction is applied only after the degree of what it produces was compared with the right bound.",
  ["inputs", "configurations"], "every input system and every pair of bounds",
  "Tests run with one or two bounds and inputs whose degrees are far below them.",
  [CS + "inliner.rs", AP + "optimizer.rs", AP + "low_degree_bus_interaction_optimizer.rs", CS + "rule_based_optimizer/driver.rs", CS + "grouped_expression.rs", "expression/src/lib.rs"],
  [("degree check before inlining", CS + "inliner.rs"), ("final check of the whole machine", AP + "optimizer.rs"), ("replacement rejected above the bound", CS + "rule_based_optimizer/driver.rs")],
  "path-gate analysis of degree comparisons + " + BC,
  "The gates guarding each emission are shown to include the comparison with the bound of the right kind; degree computations equal the confirmed summaries.")

p("C04", "Learned facts replace constraints only together with their justification",
  "When a simplification pass uses a derived fact (a value, an equality, a range) to rewrite or delete a constraint, the resulting system still implies that fact: either the constraint that entails it stays, or the fact itself is added. A constraint is deleted only when it is identically satisfied, an exact duplicate of a kept one, or implied by kept ones.",
  ["inputs"], "every system and every sequence of passes",
  "Missing justification makes the circuit under-constrained; witnesses produced by honest execution still satisfy it, so every test stays green.",
  [AP + "constraint_optimizer.rs", CS + "solver.rs", CS + "solver/exhaustive_search.rs", AP + "optimizer.rs"],
  [("equality added back for substituted variables", AP + "constraint_optimizer.rs"), ("redundancy test only for identically satisfied constraints", CS + "algebraic_constraint/mod.rs"), ("exhaustive search agrees over all assignments", CS + "solver/exhaustive_search.rs")],
  "must-add analysis on substitution/removal paths + " + BC,
  "Each removal/substitution site is matched with the addition or condition justifying it.")

p("C05", "The variable index of a constraint system always matches its contents",
  "After any sequence of additions, removals and substitutions, asking an indexed constraint system which constraints mention a variable returns exactly the constraints, interactions and derived definitions that mention it, and every changed constraint is queued for reprocessing. No update leaves a stale or missing entry.",
  ["histories", "inputs"], "every sequence of mutating operations",
  "Tests exercise single operations; a stale index shows only after particular interleavings of extend, retain and substitute.",
  [CS + "indexed_constraint_system.rs"], [("occurrence map maintained by every mutator", CS + "indexed_constraint_system.rs")],
  "mutator/index co-update analysis + " + BC,
  "Every method that writes the system or the index is enumerated; each is shown to update both as confirmed.")

p("C06", "Solver knowledge only grows and every consumer is re-examined",
  "A range constraint the solver holds for a variable is only ever tightened (intersected), never widened or replaced, and a new fact about a variable requeues every constraint that mentions it and invalidates cached conclusions. All constraints added to the solver take part in solving until a fixed point.",
  ["histories", "inputs"], "every sequence of added constraints, interactions and range facts",
  "Lost or stale knowledge only weakens optimization or misorders it; it needs a particular discovery order to show.",
  [CS + "solver/base.rs", CS + "effect.rs", CS + "solver.rs", CS + "bus_interaction_handler.rs"],
  [("range update through conjunction", CS + "solver/base.rs"), ("queue push on update", CS + "solver/base.rs")],
  "must-update analysis of every mutating solver method + " + BC,
  "Writes to the range store go through intersection; each mutator requeues and clears caches on every path.")

p("C07", "Contradictions and failed checks are reported, never swallowed",
  "If solving, range intersection, exhaustive search or a bus's semantics shows that a system is unsatisfiable or an interaction violates its bus's rules, the operation returns an error or a result the caller turns into one; it is never mapped to success, to an empty effect or to a default. A value excluded by a bus or constraint is not kept as a possibility, and one not excluded is not discarded.",
  ["inputs"], "every system, assignment and interaction",
  "Tests mostly feed satisfiable systems.",
  [CS + "solver/exhaustive_search.rs", CS + "algebraic_constraint/solve.rs", CS + "solver/base.rs", CS + "bus_interaction_handler.rs", CS + "utils.rs"],
  [("error results propagated", CS + "solver/base.rs"), ("bus violation checked on every concretisation", CS + "solver/exhaustive_search.rs")],
  "error-discipline analysis over resolved Result flows + " + BC,
  "Every call whose callee can return an error of the solver or bus layer is enumerated; its error arm must propagate, map to an error/None confirmed by reading, or panic.")

p("C08", "Traversals visit every sub-expression exactly once, in order",
  "Iterating over, visiting or rewriting the expressions of a machine, constraint, interaction or expression reaches every sub-expression and every reference, including multiplicities, bus arguments and both operands, whether by shared or mutable access. Immutable and mutable traversals enumerate the same children in the same order.",
  ["inputs"], "every expression and machine",
  "A traversal that skips one child kind only matters for inputs where that child holds the only occurrence.",
  ["expression/src/visitors.rs", AP + "powdr.rs", AP + "symbolic_machine.rs", AP + "execution/ast.rs", CS + "constraint_system.rs", CS + "grouped_expression.rs", CS + "symbolic_expression.rs"],
  [("children / children_mut pairs", AP + "symbolic_machine.rs"), ("visitor orders", "expression/src/visitors.rs")],
  "field-coverage and sibling-agreement analysis of traversal functions + " + BC,
  "Every expression-carrying field of every type must be reached by its traversal; mutable and shared siblings agree.")

p("C09", "Expression arithmetic, substitution and conversion preserve value",
  "Adding, subtracting, multiplying, negating, scaling, substituting into or converting between expression representations yields an expression that evaluates to the corresponding field operation on the operands' values, for every assignment. Normalisation (dropping zero terms, merging coefficients, folding constants) never changes the value.",
  ["inputs"], "every expression and assignment",
  "Tests compare a few printed results; a wrong sign or a lost term in a rarely taken branch does not appear.",
  [CS + "grouped_expression.rs", CS + "symbolic_expression.rs", CS + "runtime_constant.rs", "expression/src/lib.rs", AP + "expression_conversion.rs", "number/src/expression_convertible.rs"],
  [("canonical affine/quadratic form", CS + "grouped_expression.rs"), ("constant folding", CS + "symbolic_expression.rs"), ("two-way conversion", AP + "expression_conversion.rs")],
  "algebraic summaries of operator implementations + " + BC,
  "Operator bodies are summarised as terms over components and compared with confirmed summaries; sibling operators (add/sub, by-value/by-ref) agree.")

p("C10", "An inactive precompile row constrains nothing and sends nothing",
  "In the finished precompile, a dedicated boolean activity flag guards every bus interaction's multiplicity, so that with the flag at zero the all-zero row satisfies all constraints and performs no bus interaction, and with the flag at one the machine is unchanged. The flag is a fresh column constrained to be boolean.",
  ["inputs"], "every machine",
  "Padding rows are only exercised by full proving, which does not run here, and only for machines whose constraints are not already satisfied by zero.",
  [AP + "lib.rs", AP + "powdr.rs"], [("guarding of constraints and multiplicities", AP + "lib.rs"), ("boolean constraint", AP + "powdr.rs")],
  "emission analysis of the guarding pass + " + BC,
  "Every constraint and interaction leaving the pass is shown to pass through the guarding construction as confirmed.")

p("C11", "Fresh variables, columns and ids never collide with existing ones",
  "Every newly introduced variable, column or identifier differs from all that exist in the system it is introduced to and from all introduced before. Copies of instructions in one block never share a column unless they are meant to.",
  ["inputs", "histories"], "every sequence of allocations",
  "A collision silently identifies two columns; it needs a system where the colliding id is in use.",
  [CS + "rule_based_optimizer/new_var_generator.rs", CS + "rule_based_optimizer/item_db.rs", AP + "lib.rs", AP + "powdr.rs", CS + "solver/var_transformation.rs", CS + "solver/linearizer.rs", AP + "optimizer.rs", AP + "symbolic_machine_generator.rs"],
  [("monotone counters starting above the maximum", AP + "lib.rs, " + CS + "rule_based_optimizer/new_var_generator.rs")],
  "counter typestate (who-may-write, monotone, initialised above max) + " + BC,
  "All writers of each counter are enumerated; every issue returns the old value and advances it.")

p("C12", "Memory bus optimization removes only provably matching accesses",
  "The memory optimizer pairs a send with a later receive only if both provably refer to the same address in the same address space and no access in between may alias it; it then removes exactly that pair and adds the equality of the data. If aliasing cannot be excluded, the interactions stay.",
  ["inputs"], "every ordering of accesses and every aliasing relation",
  "Tests have a few straight-line patterns; a wrong alias answer is visible only with the interleaved access in between.",
  [AP + "memory_optimizer.rs", OV + "memory_bus_interaction.rs"],
  [("may-alias invalidation of pending sends", AP + "memory_optimizer.rs"), ("decoding of memory interactions", OV + "memory_bus_interaction.rs")],
  "gated pairing/invalidation analysis + " + BC,
  "The insert, match and invalidate paths on the pending table and their gates equal the confirmed ones.")

p("C13", "Range checks may be merged or re-encoded but never weakened",
  "After range-constraint optimization every variable or expression is still restricted at least as tightly as by the interactions that were removed, and no tighter than by them together. Range requirements that cannot be expressed exactly by the target bus are kept or expressed as constraints, never dropped or widened.",
  ["inputs"], "every set of range-check interactions",
  "Honest witnesses satisfy weakened checks.",
  [AP + "range_constraint_optimizer.rs", OV + "lib.rs", OV + "variable_range_checker.rs", OV + "tuple_range_checker.rs", OV + "bitwise_lookup.rs"],
  [("all pure range interactions are collected, intersected and re-emitted", AP + "range_constraint_optimizer.rs"), ("batch emission per bus", OV + "lib.rs")],
  "remove/re-emit pairing analysis + " + BC,
  "Everything removed flows into the emission; emission has a branch for every representable constraint.")

p("C14", "Bus semantics are modelled the same in all views",
  "For each bus, the inferred ranges of an interaction's payload contain every payload the bus accepts, a violation is reported only for payloads the bus rejects, and the pure-range view, the statefulness view and the emission view agree with it. Interactions with unknown or zero multiplicity or unknown selectors yield no knowledge beyond what all cases share.",
  ["inputs"], "every bus type and payload",
  "The tables involved (opcodes, sizes, widths) have far more cases than tests sample.",
  [OV + "lib.rs", OV + "bitwise_lookup.rs", OV + "memory.rs", OV + "memory_bus_interaction.rs", OV + "tuple_range_checker.rs", OV + "variable_range_checker.rs"],
  [("per-bus handlers", OV)],
  "sibling-view agreement per bus + " + BC,
  "Handlers' case tables equal the confirmed ones; views over the same bus dispatch on the same bus types.")

p("C15", "What is serialised is read back unchanged",
  "Writing any value the system persists (expressions, references, field elements, empirical constraints, partitions, column files, exported machines) and reading it back yields an equal value, and malformed input is rejected, not misread. Writer and reader agree on fields, order, width and byte order.",
  ["inputs"], "every serialisable value",
  "Round-trip tests exist for few types and few values.",
  ["number/src/serialize.rs", AP + "export.rs", AP + "expression.rs", AP + "equivalence_classes.rs", AP + "symbolic_machine_generator.rs"],
  [("paired serde implementations", AP + "expression.rs, equivalence_classes.rs"), ("binary column format", "number/src/serialize.rs")],
  "writer/reader agreement analysis + " + BC,
  "Hand-written writer/reader pairs are compared field by field; derives and serde attributes come in matching pairs.")

p("C16", "Field elements are canonical and field operations are exact",
  "Every way of obtaining a field element yields a value below the modulus, and arithmetic, conversion to and from integers, parsing and printing agree with integer arithmetic modulo the prime. Checked conversions reject exactly the out-of-range values.",
  ["inputs"], "every field, operand and constructor",
  "The number of operand pairs; carries, borrows and the values next to the modulus occur in few of them.",
  ["number/src/goldilocks.rs", "number/src/plonky3_macros.rs", "number/src/macros.rs", "number/src/traits.rs", "number/src/bn254.rs", "number/src/baby_bear.rs", "number/src/koala_bear.rs", "number/src/mersenne31.rs"],
  [("reduction after every operation", "number/src/goldilocks.rs"), ("range check in checked conversions", "number/src/plonky3_macros.rs, macros.rs")],
  "constructor/reduction gate analysis + sibling agreement of field implementations + " + BC,
  "Every constructor of the raw representation is enumerated; sibling fields built from one macro have equal summaries.")

p("C17", "Optimistic precompiles run only when all their conditions held",
  "During execution a precompile call is emitted only if every optimistic condition attached to it was evaluated, at the step it speaks about, and held; the emitted calls cover disjoint step ranges, in order, chosen by the documented priority. A candidate whose condition fails, that is cut off, or that overlaps a better one is dropped entirely.",
  ["histories", "programs"], "every execution trace and every set of candidates",
  "The interleavings of candidates in flight and of conditions spanning steps are unbounded; tests sample a dozen traces.",
  [AP + "execution/candidates.rs", AP + "execution/evaluator.rs", AP + "execution/ast.rs", AP + "optimistic/execution_literals.rs", AP + "optimistic/execution_constraint_generator.rs"],
  [("per-step evaluation of all constraints", AP + "execution/evaluator.rs"), ("overlap resolution", AP + "execution/candidates.rs")],
  "typestate/gate analysis of candidate states + " + BC,
  "The transitions of a candidate and the gates of emission equal the confirmed ones.")

p("C18", "Basic blocks partition the program; superblocks follow real execution",
  "Block detection assigns every instruction to exactly one basic block, starts a block at every jump target and ends one after every branch, in program order. Superblocks are concatenations of blocks that really ran one after the other, within the configured limits, with execution counts that match the profile without double counting.",
  ["programs", "histories"], "every program, jump-target set and execution profile",
  "Tests contain a few hand-made programs and runs.",
  [AP + "blocks/detection.rs", AP + "blocks/mod.rs", AP + "execution_profile.rs"],
  [("block split conditions", AP + "blocks/detection.rs"), ("superblock counting and filtering", AP + "blocks/mod.rs")],
  "gated emission analysis of block boundaries + " + BC,
  "Split conditions, counting and filters equal the confirmed ones.")

p("C19", "Precompile columns are filled from the right original cells",
  "The trace of a precompile contains in every retained column the value of the original instruction's cell it stands for, and in every derived column the value of its definition, with the activity flag set. The mapping from original cells to precompile columns is recorded for exactly the columns that still exist.",
  ["inputs", "programs"], "every block, record arena and column mapping",
  "End-to-end trace tests need the proving stack, which is not run; unit tests have single-instruction machines.",
  [AP + "trace_handler.rs", AP + "lib.rs", AP + "expression.rs", AP + "symbolic_machine_generator.rs"],
  [("substitution tables kept through optimization", AP + "lib.rs"), ("row assembly", AP + "trace_handler.rs")],
  "dataflow of column mappings + " + BC,
  "Sources of each mapping component equal the confirmed ones.")

p("C20", "Empirical constraints hold on every profiled execution",
  "Merging empirical constraints from several runs keeps only what held in all of them: ranges grow to cover all runs, equivalence classes are intersected, and execution counts add up. Filters drop constraints only by the documented rules, each constraint stays attached to the cell it was observed for, and thresholds keep exactly what reaches them.",
  ["inputs", "histories"], "every set and order of merged runs",
  "Merging differences show only with disagreeing runs; tests merge few.",
  [AP + "empirical_constraints.rs", AP + "equivalence_classes.rs"],
  [("merge", AP + "empirical_constraints.rs"), ("partition intersection", AP + "equivalence_classes.rs")],
  "lattice-direction analysis of merge operators + " + BC,
  "Each component's merge operator must be the one of its lattice.")

p("C21", "Rule-based rewriting applies only sound, complete replacements",
  "The rule-based optimizer replaces constraints or substitutes variables only when a rule whose conditions were all met says so; replacement variables get the range and computation they were requested with, all constraints to be replaced are present when replaced, and nothing else changes. Facts fed to the rules reflect the current system.",
  ["inputs"], "every system the rules can match",
  "Rules interact in unbounded combinations; tests cover each rule on one or two systems.",
  [CS + "rule_based_optimizer/driver.rs", CS + "rule_based_optimizer/rules.rs", CS + "rule_based_optimizer/environment.rs", CS + "rule_based_optimizer/item_db.rs", CS + "rule_based_optimizer/new_var_generator.rs"],
  [("rule conditions", CS + "rule_based_optimizer/rules.rs"), ("batch replacement", CS + "rule_based_optimizer/driver.rs")],
  "datalog rule-body analysis + " + BC,
  "Rule bodies are parsed and normalised; each rule's atoms and guards equal the confirmed ones.")

p("C22", "Profile-guided selection is consistent, ranked and within its limits",
  "Selected precompiles respect the configured maximum number and column budget, are drawn from the eligible candidates only, are ordered by the documented benefit measure, and overlapping choices are discounted by exactly what earlier choices already cover. Statistics and exported metadata describe the same machines that were selected.",
  ["inputs", "configurations"], "every profile, candidate set and limit",
  "Ties, exhausted budgets and skip values occur in few tests.",
  [AP + "pgo/cell/selection.rs", AP + "pgo/cell/mod.rs", AP + "pgo/instruction.rs", AP + "pgo/none.rs", AP + "pgo/mod.rs", AP + "adapter.rs", AP + "evaluation.rs"],
  [("greedy selection", AP + "pgo/cell/selection.rs"), ("ranking", AP + "pgo/instruction.rs, cell/mod.rs")],
  "gated selection analysis + " + BC,
  "Limits and comparisons gating each selection equal the confirmed ones.")

p("C23", "Machine code is decoded and labelled faithfully",
  "Every instruction of an ELF program is decoded to the operation, registers and immediates the ISA defines, every static jump target inside the text section is reported as a label, and pseudo-instruction fusion happens only when the pair really has that meaning and no jump lands in between. Registers and system-call numbers, names and arities map one to one.",
  ["programs", "inputs"], "every program and instruction encoding",
  "Few ELF files are available to tests; most encodings never occur.",
  ["riscv-elf/src/lib.rs", "riscv-elf/src/rv64.rs", "riscv-elf/src/debug_info.rs", "riscv-types/src/lib.rs", "isa-utils/src/lib.rs", "syscalls/src/lib.rs"],
  [("lifting", "riscv-elf/src/lib.rs"), ("jump target scan", "riscv-elf/src/rv64.rs"), ("tables", "syscalls/src/lib.rs")],
  "table-agreement analysis of decoders + " + BC,
  "Case tables of decoders equal the confirmed ones; inverse tables are inverse.")

p("C24", "Range arithmetic over-approximates every possible value",
  "The range computed for a sum, product, multiple, negation, square, union or intersection of ranges contains every value the operation can produce from values in the operand ranges, including wrap-around, and the answers to emptiness, membership, disjointness and size questions are consistent with that. A range never excludes a value that is possible.",
  ["inputs"], "every field, pair of ranges and masks",
  "Random operand ranges rarely wrap around or hit the boundary cases.",
  [CS + "range_constraint.rs", CS + "utils.rs"], [("interval and mask algebra", CS + "range_constraint.rs")],
  BC, "The formulas and case splits equal those confirmed by reading; numeric soundness of the confirmed formulas themselves is argued by reading, not decided.")

p("C25", "Splitting a constraint yields an equivalent set of constraints",
  "When a linear constraint is split into several, the conjunction of the parts is equivalent to the original under the current range knowledge; if the ranges do not rule out every wrap-around or overlap, the constraint is left as it is.",
  ["inputs"], "every linear constraint and range environment",
  "An unsound split needs particular coefficient gaps and ranges.",
  [CS + "solver/constraint_splitter.rs"], [("gap and wrap checks before splitting", CS + "solver/constraint_splitter.rs")],
  BC, "All gates before an accepted split equal the confirmed ones.")

p("C26", "Low-degree replacement of a lookup is exact",
  "A stateless bus interaction is replaced by polynomial constraints only if these accept exactly the payloads the interaction accepts over the inputs' full ranges; otherwise the interaction stays. The check covers every combination of input values and includes the inputs' own range restrictions.",
  ["inputs"], "every interaction and hypothesis",
  "The space of interactions and domains is unbounded; tests use the byte-xor style tables.",
  [AP + "low_degree_bus_interaction_optimizer.rs"], [("exhaustive check of the hypothesis", AP + "low_degree_bus_interaction_optimizer.rs")],
  "must-check-before-replace analysis + " + BC, "The replacement path is gated by the full-domain check as confirmed.")

p("C27", "Solving a constraint derives only consequences of it",
  "Every assignment, range or equality derived from an algebraic constraint is implied by that constraint under the given range knowledge, and a constraint reported as unsatisfiable really is. Division happens only by provably non-zero values and wrap-around is excluded before integer reasoning is used.",
  ["inputs"], "every constraint and range environment",
  "Wrong deductions need particular coefficients and ranges.",
  [CS + "algebraic_constraint/solve.rs", CS + "algebraic_constraint/mod.rs"], [("case analysis of solvable shapes", CS + "algebraic_constraint/solve.rs")],
  BC, "Each derivation's gate and formula equal the confirmed ones.")

p("C28", "Systems keep all their parts through copying, splitting and reachability",
  "Combining, cloning, iterating, substituting into or splitting a constraint system keeps every algebraic constraint, interaction and derived variable exactly once, with definitions of derived variables updated like the rest. Splitting puts two constraints into one component exactly when they are connected through variables.",
  ["inputs", "histories"], "every system",
  "Derived variables are rare in test systems.",
  [CS + "constraint_system.rs", CS + "system_splitter.rs", CS + "reachability.rs"], [("component-wise operations", CS + "constraint_system.rs")],
  "component-coverage analysis + " + BC, "Each whole-system operation touches all three components.")

p("C29", "Auxiliary solver variables never leak or change meaning",
  "Variables the solver introduces internally (linearisation, extracted booleans) stand for one fixed expression for the whole run, are updated when that expression is rewritten, and never appear in results handed back to the caller. Translating between outer and inner variables is one to one.",
  ["histories", "inputs"], "every sequence of solver calls",
  "Needs rewriting of an expression after it was given an auxiliary variable.",
  [CS + "solver/linearizer.rs", CS + "solver/boolean_extractor.rs", CS + "solver/var_transformation.rs"],
  [("substitution tables", CS + "solver/linearizer.rs, boolean_extractor.rs"), ("filter on results", CS + "solver/var_transformation.rs")],
  "result-filter and table co-update analysis + " + BC, "Everything returned passes the outer-variable conversion; tables are rewritten on assignment.")

p("C30", "Column identity is decided by id alone, consistently",
  "Equality, ordering, hashing, serialisation and lookup of column references agree with each other, so that two references are the same column exactly when their ids are equal regardless of names. Evaluating an expression or interaction uses the value stored for that id, for every evaluator.",
  ["inputs"], "every pair of references",
  "Same-id-different-name references arise only in particular pipelines.",
  [AP + "expression.rs", AP + "symbolic_machine.rs", AP + "expression_conversion.rs"],
  [("hand-written identity traits", AP + "expression.rs"), ("evaluators", AP + "expression.rs")],
  "trait-coherence analysis (Eq/Ord/Hash read the same fields) + " + BC, "The fields read by each identity trait are compared; evaluators agree.")

p("C31", "Bus ids and bus types are looked up consistently in both directions",
  "Every bus id has exactly one type: registering an id again for a different type is rejected. The id found for a bus type is one whose type it is (the smallest), a type without id yields none, and an unknown id is an error. The mapping of VM-specific bus kinds to types and back is one to one.",
  ["configurations"], "every bus map",
  "One default map is tested.",
  [AP + "bus_map.rs", OV + "bus_map.rs"], [("paired maps", AP + "bus_map.rs")],
  BC, "The contracts fix registration with its conflict check and both lookups; the default table is a constant term compared entry by entry.")

p("C32", "Printed forms and reported statistics describe the value faithfully",
  "The textual form of an expression, constraint, interaction, machine or block determines it: operators, signs, parentheses, names and order reflect the structure. Reported statistics count each column, constraint and interaction exactly once.",
  ["inputs"], "every printable value",
  "Precedence and sign combinations are many; snapshots contain few.",
  ["expression/src/display.rs", AP + "stats_logger.rs", AP + "evaluation.rs", CS + "grouped_expression.rs"],
  [("precedence-driven parenthesisation", "expression/src/display.rs")],
  BC, "Formatting decisions and counters equal the confirmed ones.")

NA = [
 ("C33", "The optimized machine accepts exactly the original executions",
  "For every input machine, an assignment of the original columns satisfies the original machine if and only if some assignment of the optimized machine with the same stateful bus interactions satisfies the optimized machine.",
  ["inputs", "programs"], "every machine and assignment", "Snapshot tests compare a few outputs textually.",
  [AP + "optimizer.rs"], [("all passes together", AP + "optimizer.rs")],
  "Equivalence of two constraint systems over a field for all assignments quantifies over runtime values; no sound static argument over the Rust source can decide it as a whole. Its structural clauses are claimed separately as C02-C04, C12, C13, C21, C25-C27."),
 ("C34", "Optimization always terminates",
  "For every input, the optimization loop, the solver and the rule engine reach a fixed point after finitely many steps.",
  ["inputs"], "every input", "Tests only sample terminating inputs.",
  [AP + "optimizer.rs", CS + "solver/base.rs"], [("progress measure", AP + "optimizer.rs")],
  "Termination rests on a numeric progress measure over constraint systems (sizes, range widths) that no static rule in reach bounds; a structural proxy (loop exits on no change) would not be a necessary condition."),
]

SETUP = "python3 sa/setup.py"


def main():
    sys.path.insert(0, os.path.join(V, "sa"))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for (id, title, st, over, q, why, files, mech, *_ ) in P + [x for x in NA]:
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": SETUP, "checks": [], "not_applicable": []}
    for (id, *_, technique, note) in P:
        m["checks"].append({"property": id, "quick_cmd": f"python3 check.py {id}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {id}",
                            "technique": "static analysis: " + technique, "level": "other", "level_note": note})
    for x in NA:
        m["not_applicable"].append({"property": x[0], "reason": x[-1]})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
