"""The properties (source of properties.jsonl and MANIFEST.json: `vp.py manifest`) and how each is checked.
entries: harness entry points of the quick tier; deep: added in the thorough tier; reach: labels that must be
reached (vacuity guard); bounds/outside: as reported in the evidence."""
P = {}


def prop(id, title, statement, text, why, files, mech, entries=None, deep=(), reach=(), bounds="", outside="", over=("inputs",), na=None, assumptions=(), budget=None, note=""):
    P[id] = dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files), mech=list(mech), entries=entries, deep=list(deep),
                 reach=list(reach), bounds=bounds, outside=outside, na=na, assumptions=list(assumptions), budget=budget or {}, note=note)


prop("C01", "Step identifiers list every component's edges in component order",
     "A step of a combined system is reported as an identifier. Taking its leaves yields exactly one group per component of the system, in component order, and each group holds exactly that component's edges in the order they occur, for every combination of conjunction, composition and quotient, including quotient sides that contribute nothing.",
     "every shape of system expression and every choice of which edges take part in the step",
     "The tests take leaves of a dozen hand-written identifiers; the claim ranges over all operator nestings, idle components and quotient alternatives.",
     ["src/TransitionSystems/transition_id.rs"], [("TransitionID::get_leaves", "src/TransitionSystems/transition_id.rs")],
     over=("inputs", "configurations"), entries=["h_c01_idle", "h_c01_leaves", "h_c01_left", "h_c01_right", "h_c01_many", "h_c01_side", "h_c01_long"], deep=["h_c01_deep"], reach=["leaves"],
     bounds="every operator tree of nesting depth 2 (up to 4 components) with 0..2 quotient alternatives per side, every chain of 4 and 6 components nested on one side, one quotient with 0..4 alternatives per side; every subset of idle components at depth 1 and in the chains of 4 (depth 2 in the thorough tier, as far as its time goes); each edge name one symbolic letter",
     outside="deeper nesting; idle branches that hold more than one component (their identifier carries no component count)")

prop("C02", "A path of steps splits into one complete path per component",
     "Splitting a path of a combined system yields one path per component, each with exactly as many steps as the whole path, where step t of component k holds exactly the edges component k takes in step t, in order, and nothing when it idles. A path whose steps do not agree on the number of components is rejected, and the empty path splits into nothing.",
     "every system shape, every path within the length bound, every idle pattern",
     "Tests split a handful of fixed paths.",
     ["src/TransitionSystems/transition_id.rs", "src/System/reachability.rs"], [("TransitionID::split_into_component_lists", "src/TransitionSystems/transition_id.rs")],
     over=("inputs", "histories"), entries=["h_c02_split", "h_c02_nested", "h_c02_mismatch", "h_c02_mismatch3", "h_c02_skewed", "h_c02_steps", "h_c02_idle", "h_c02_long"], deep=["h_c02_deep"], reach=["split", "mismatch"],
     bounds="paths of 3 steps over two components (every operator, 0..2 quotient alternatives, idle pattern) and of 4 steps over a pair, paths of 2 steps over chains of 3 and of 1 step over every tree of up to 4 components; mismatching paths of up to 3 steps; edge names one symbolic letter",
     outside="longer paths, deeper nesting, idle branches holding more than one component")

prop("C03", "Printed step identifiers tell different steps apart",
     "Two step identifiers print to the same text exactly when they denote the same step, where nested conjunctions (or nested compositions) are read up to associativity; edge names are taken to have one common length. In particular the two sides of a quotient, and conjunction and composition, are never confused.",
     "every pair of step identifiers within the depth bound",
     "No test compares the printed forms of two different steps; the claim is about all pairs.",
     ["src/TransitionSystems/transition_id.rs"], [("Display for TransitionID", "src/TransitionSystems/transition_id.rs")],
     entries=["h_c03_flat", "h_c03_nested", "h_c03_chain", "h_c03_names", "h_c03_deep"], reach=["printed"],
     bounds="all pairs of identifiers of depth <= 1 with up to 2 quotient alternatives per side, of depth 2 against depth 1 with idle parts, of depth 2 with up to one alternative, and of one-sided chains of 3; names one symbolic letter each (names of 1..3 symbolic characters print whole)",
     outside="deeper identifiers; names of different lengths next to each other in one quotient side (the alternatives are printed without a separator)")

prop("C04", "Guards and invariants keep exactly the valuations that satisfy them",
     "Applying a guard or invariant to a zone leaves exactly the clock valuations of the zone that satisfy its formula, for sums, differences and computed constants, every comparison, and every and/or combination; it reports failure only when nothing is left. Comparisons of clocks, clock differences and clocks with offsets against constants are always accepted.",
     "every formula within the size bound, all constants in range, every (half-)integer clock valuation",
     "Tests apply about forty fixed constraints and compare one zone; the claim is a set equality for all constants and all valuations.",
     ["src/EdgeEval/constraint_applyer.rs", "src/ModelObjects/Expressions/arith_expression.rs"],
     [("apply_constraints_to_state", "src/EdgeEval/constraint_applyer.rs"), ("get_indices / get_constant", "src/EdgeEval/constraint_applyer.rs"), ("ArithExpression::move_clock_and_vars", "src/ModelObjects/Expressions/arith_expression.rs")],
     entries=["h_c04_plain", "h_c04_computed", "h_c04_bracket", "h_c04_tree", "h_c04_left", "h_c04_right", "h_c04_formula"], reach=["applied", "tree"],
     bounds="two clocks with values 0..30 in half steps, constants 0..9; comparisons of sums/differences of depth 1 on both sides or depth 2 on one side; and/or formulas of depth 2; start zone with two symbolic bounds",
     outside="larger formulas; integer variables other than 0; subtracted brackets containing a clock (known finding)")

prop("C05", "Simplifying an expression keeps its meaning",
     "Simplifying an arithmetic expression or a formula never changes the value it has under any valuation of its clocks, computes every constant part, and never rejects sums and differences of clocks and constants.",
     "every expression tree within the size bound, all constants in range, every valuation",
     "Tests simplify about twenty fixed expressions.",
     ["src/ModelObjects/Expressions/arith_expression.rs", "src/ModelObjects/Expressions/bool_expression.rs"],
     [("ArithExpression::simplify", "src/ModelObjects/Expressions/arith_expression.rs"), ("BoolExpression::simplify", "src/ModelObjects/Expressions/bool_expression.rs")],
     entries=["h_c05_sums", "h_c05_left", "h_c05_right", "h_c05_constants", "h_c05_nested", "h_c05_formulas", "h_c05_comparison"], deep=["h_c05_deep", "h_c05_deep_sums"],
     reach=["value", "constant", "formula", "comparison"],
     bounds="sums of depth 2 and chains of 4 terms over two variables, all five operators over constants (depth 2, constants 0..3; depth 1, constants -9..9), comparisons of two sums of depth 1, and/or formulas of depth 2 (3 in the thorough tier); constants -9..9, two variables of any value in range",
     outside="integer overflow, division by zero, products of variables; subtracted brackets containing a variable (known finding of C04)")

prop("C06", "Guards and updates survive being written and read back",
     "A guard or update that is saved as text reads back as a guard or update with the same meaning, whatever its nesting of brackets, and, and or, arithmetic, clock differences and negative bounds.",
     "every formula within the size bound, all constants in range, every valuation",
     "Tests round-trip sample models only through equality of a few pruned components.",
     ["src/ModelObjects/Expressions/bool_expression.rs", "src/ModelObjects/Expressions/arith_expression.rs", "src/DataReader/parse_edge.rs", "src/DataReader/grammars/edge_grammar.pest", "src/DataReader/serialization.rs"],
     [("encode_expr", "src/ModelObjects/Expressions"), ("parse_guard / parse_updates", "src/DataReader/parse_edge.rs"), ("encode_opt_updates", "src/DataReader/serialization.rs")],
     entries=["h_c06_formulas", "h_c06_trees", "h_c06_bounds", "h_c06_updates", "h_c06_zero", "h_c06_signed"], reach=["guard", "tree", "update"],
     bounds="and/or formulas of depth 2 over comparisons, arithmetic trees of depth 2 over all five operators, constants 0..9 (bounds of clocks and differences -1200..1200, assigned values 0..120)",
     outside="deeper nesting; division by zero; names longer than one letter")

prop("C07", "Written guards and updates mean what the usual precedences say",
     "A guard as the user writes it is read so that brackets bind first, then * / %, then + and -, then comparisons, then &&, then ||, operators of one level grouping to the left; spaces and a final semicolon change nothing. A list of assignments is read in order, each with its own name and value.",
     "every guard text within the length bound",
     "Tests parse fewer than ten guards, none mixing all operator levels.",
     ["src/DataReader/parse_edge.rs", "src/DataReader/grammars/edge_grammar.pest"], [("parse_guard / parse_updates", "src/DataReader/parse_edge.rs")],
     entries=["h_c07_bools", "h_c07_sums", "h_c07_long", "h_c07_comparisons", "h_c07_assignments", "h_c07_blank"], deep=["h_c07_four"], reach=["formula", "sum", "comparison", "assignment", "blank"],
     bounds="formulas of 3 comparisons (4 in the thorough tier) joined by any of && and || with any bracketing, sums of up to 4 operands with any operators and one bracket, every comparison, up to 2 assignments, blank texts of up to 3 blanks; constants of one digit as symbolic characters",
     outside="longer texts, identifiers longer than one letter, malformed text")

prop("C08", "Taking a step leads to exactly the states the semantics allows",
     "From a set of clock values, taking an edge and then delaying leads to exactly the values obtained by satisfying the guard, applying the assignments in order, and letting time pass while the target's invariant holds; the step is refused exactly when there are none.",
     "all guards, updates, invariants and zones of the family, every (half-)integer clock valuation",
     "Tests take a few fixed transitions of sample models and compare one resulting zone.",
     ["src/ModelObjects/transition.rs", "src/EdgeEval/updater.rs", "src/TransitionSystems/location_tree.rs"], [("Transition::use_transition", "src/ModelObjects/transition.rs"), ("CompiledUpdate::apply", "src/EdgeEval/updater.rs")],
     entries=["h_c08_plain", "h_c08_strict", "h_c08_diff", "h_c08_lower"], reach=["fired", "blocked"],
     bounds="two clocks, a start zone with two symbolic bounds, guards bounding both clocks or their difference (strict and not), 0..2 assignments including the same clock twice, an upper- or lower-bound invariant of the target; all constants 0..9 (differences -9..9), valuations 0..20 in half steps",
     outside="guards that are disjunctions (C09), more clocks")

prop("C09", "An edge may be taken exactly when its guard and next invariant hold",
     "The clock values the tool reports as allowing an edge are exactly those that satisfy the edge's guard and that, after the edge's assignments are carried out in order, satisfy the target location's invariant.",
     "all guards, updates and invariants of the family, every (half-)integer clock valuation",
     "The tests look at the allowed values of a handful of edges with at most one assignment.",
     ["src/ModelObjects/transition.rs", "src/EdgeEval/updater.rs"], [("Transition::get_allowed_federation", "src/ModelObjects/transition.rs"), ("CompiledUpdate::apply_as_guard / apply_as_free", "src/EdgeEval/updater.rs")],
     entries=["h_c09_free", "h_c09_and", "h_c09_or"], reach=["allowed"],
     bounds="two clocks; guards empty, a conjunction or a disjunction of two comparisons; 0..2 assignments including the same clock twice; invariants empty, on both clocks or on their difference; all constants 0..9, valuations 0..20 in half steps",
     outside="larger guards and invariants, more clocks")

prop("C14", "Refinement verdicts are exact",
     "A refinement query answers yes exactly when every behaviour of the left specification that it may show is allowed by the right one and every input the right one requires is accepted by the left one, at every time point including delays before the first action.",
     "all constants of timed windows, invariants and guards of the model families",
     "Tests evaluate fixed sample models; each verdict depends on the relative order of all bounds, which the sampled models fix.",
     ["src/System/refine.rs", "src/ModelObjects/statepair.rs", "src/TransitionSystems"], [("check_refinement", "src/System/refine.rs"), ("prepare_init_state / create_new_state_pairs", "src/System/refine.rs")],
     over=("programs", "inputs"), entries=["h_c14_window", "h_c14_strict", "h_c14_input", "h_c14_absolute", "h_c14_delays", "h_c14_cover", "h_c14_meet", "h_c14_extra_output", "h_c14_extra_input", "h_c14_arrival", "h_c14_rounds"],
     deep=["h_c14_steps"], reach=["window", "strict", "input", "steps", "delays", "cover", "meet", "extra", "arrival", "rounds"],
     bounds="12 families of pairs of components with up to 3 locations and two clocks per side: output windows (strict or not) under invariants, an input first, two steps measured on different clocks, invariants after a step with and without resets, two edges of one action on the right, outputs only the left and inputs only the right side has, lower-bound invariants, loops of any number of rounds; all constants 0..9 (0..6 with invariants), loop period 2..3",
     outside="larger components; initial locations with lower-bound invariants; integer variables")

prop("C10", "Forgetting large clock values never changes what is reachable",
     "To keep the search finite the tool forgets how large a clock is once it exceeds every constant it is compared with. This never makes a state reachable that is not, and never hides one: constants written as sums, on either side of a comparison, in differences of clocks, in the query, and of every part of a combined system all count.",
     "all constants of the model families, any number of rounds through a loop",
     "Tests run sample models whose constants are plain numbers; whether a bound was kept shows only for particular relations between two constants.",
     ["src/ModelObjects/component.rs", "src/ModelObjects/Expressions/arith_expression.rs", "src/ModelObjects/Expressions/bool_expression.rs", "src/ModelObjects/state.rs", "src/System/reachability.rs"],
     [("get_max_bounds / State::extrapolate_max_bounds", "src/ModelObjects/state.rs"), ("BoolExpression::get_max_constant", "src/ModelObjects/Expressions/bool_expression.rs")],
     over=("programs", "histories"), entries=["h_c10_chain", "h_c10_differences", "h_c10_target", "h_c10_rounds", "h_c10_combined", "h_c10_sides", "h_c10_groups"], reach=["chain", "difference", "target", "rounds", "combined", "sides", "groups"],
     bounds="models of up to 4 locations and two clocks (or two components of one clock), lower bounds in 6 written forms, upper bounds in 3, differences of clocks, bounds of the query, loops taken any number of times; constants 0..9 (sums up to 18, loop period 1..3)",
     outside="more clocks and locations; larger constants; integer variables")

prop("C18", "Reachability verdicts are exact and reported paths can be walked",
     "A reachability query answers yes exactly when some run of the system leads from the start state to the goal. The reported path is then a run: its steps join up, each component takes at most one of its own edges per step on the step's action, no state on it is empty, and it ends in the goal.",
     "all constants of guards, invariants, start states and goals of the model families",
     "Tests ask fixed queries of fixed sample models, and mostly check only the verdict.",
     ["src/System/reachability.rs", "src/System/extract_state.rs", "src/System/specifics.rs", "src/ModelObjects/transition.rs"], [("find_path / search_algorithm", "src/System/reachability.rs"), ("get_state", "src/System/extract_state.rs"), ("SpecificPath", "src/System/specifics.rs")],
     over=("programs", "histories"), entries=["h_c18_quotient", "h_c18_chain", "h_c18_ways", "h_c18_again", "h_c18_given", "h_c18_together", "h_c18_entered", "h_c18_back"], reach=["quotient", "chain", "ways", "again", "given", "together", "entered", "back"],
     bounds="models of up to 4 locations and two clocks, two components with a shared action, five kinds of goal (location, bounds, differences), given start states, loops taken any number of times, two alternative ways, locations entered in two ways or anew; constants 0..9 (goal bounds 0..20)",
     outside="start states and goals with disjunctions or negation, more components; a given start state is taken as it is, without delay")

prop("C23", "Locations print to different texts and read back as themselves",
     "Two locations of combined systems print to the same text exactly when they are the same location, where nested conjunctions (or nested compositions) are read up to grouping; the printed text of a location made of named locations reads back as that location. A location is partial exactly when some part of it is left open.",
     "every pair of locations within the depth bound",
     "Tests read back a handful of fixed texts; the claim is about all pairs.",
     ["src/TransitionSystems/location_id.rs"], [("Display for LocationID", "src/TransitionSystems/location_id.rs"), ("LocationID::from_string", "src/TransitionSystems/location_id.rs")],
     entries=["h_c23_flat", "h_c23_nested", "h_c23_mixed", "h_c23_back", "h_c23_back_deep"], reach=["printed", "read"],
     bounds="all pairs of locations of depth 2 over named locations and of depth 2 against depth 1 over named, open, universal and error locations; reading back to depth 3; names one symbolic letter",
     outside="deeper nesting; reading back universal and error locations (their text is no location in a query)")

prop("C22", "A loaded component accepts every input at every time, in one way",
     "Once a component is loaded, each of its inputs is accepted in every location at every time the location's invariant allows, in exactly one way when the written edges do not overlap. What is added accepts the input only where no written edge could take it, and changes neither location nor clocks.",
     "all guards, assignments and invariants of the family, every (half-)integer clock valuation",
     "Tests check input-enabling of a few fixed locations; gaps appear only for particular relations of guard, assignment and target invariant.",
     ["src/System/input_enabler.rs", "src/DataReader/component_loader.rs"], [("make_input_enabled", "src/System/input_enabler.rs"), ("ComponentContainer::get_component", "src/DataReader/component_loader.rs")],
     entries=["h_c22_single", "h_c22_double"], reach=["accepts"],
     bounds="two clocks; an input edge with no, a conjunctive or a disjunctive guard, 0..2 assignments including the same clock twice, source and target invariants; two complementary edges on one input; locations and inputs without any edge; constants 0..9, valuations 0..20 in half steps",
     outside="more than two edges per input and location, invariants with lower bounds, more clocks")

prop("C11", "Composition synchronises shared actions and interleaves the rest",
     "In a composition an action one part sends and others receive moves all of them at once, other actions move one part alone, and time passes for all parts alike. What any part sends is an output, what parts only receive is an input, and two senders of one action are refused.",
     "all constants of the parts, every order and grouping, every choice of who has which action",
     "Tests compose fixed sample models.",
     ["src/TransitionSystems/composition.rs", "src/TransitionSystems/common.rs", "src/ModelObjects/transition.rs", "src/TransitionSystems/location_tree.rs"], [("Composition::next_transitions", "src/TransitionSystems/composition.rs"), ("Transition::combinations", "src/ModelObjects/transition.rs")],
     over=("programs", "configurations"), entries=["h_c11_actions", "h_c11_relay", "h_c11_interleave", "h_c11_invariants", "h_c11_broadcast"], deep=["h_c11_relay_full"], reach=["actions", "clash", "relay", "interleave", "invariants", "broadcast"],
     bounds="two and three parts of up to 3 locations and one clock each; two actions, each absent, input or output in either part; constants 0..9 (0..6 for relays, sums up to 14)",
     outside="more parts and clocks")

prop("C12", "A conjunction shows exactly what both sides allow",
     "A conjunction offers an action exactly when both sides do, moves both at once, and lets time pass only while both sides do. It is refined by exactly what refines both sides, in any order and grouping; it is refused when no behaviour is left or when one side sends what the other receives.",
     "all constants of the sides, every order and grouping",
     "Tests conjoin fixed sample models.",
     ["src/TransitionSystems/conjunction.rs", "src/TransitionSystems/common.rs", "src/System/local_consistency.rs"], [("Conjunction::new_ts / next_transitions", "src/TransitionSystems/conjunction.rs")],
     over=("programs", "configurations"), entries=["h_c12_left", "h_c12_right", "h_c12_three", "h_c12_invariants", "h_c12_together", "h_c12_actions"], reach=["left", "right", "three", "invariants", "together", "actions"],
     bounds="two and three sides of up to 3 locations and one clock each, output windows with up to 6 symbolic bounds, invariants, inputs and outputs in common or not; constants 0..9",
     outside="more sides and clocks, conjunctions that only pruning can make consistent")

prop("C13", "The quotient is the least demanding specification of the missing part",
     "A component refines the quotient of a specification by a known part exactly when composing it with the known part refines the specification: it must answer in time, keep deadlines the known part does not keep, prevent what the specification forbids, and is free where the known part cannot go. Dividing by two parts is dividing by their composition.",
     "all constants of the three models",
     "Tests check quotients of fixed sample models.",
     ["src/TransitionSystems/quotient.rs"], [("Quotient::next_transitions", "src/TransitionSystems/quotient.rs")],
     over=("programs",), entries=["h_c13_unknown", "h_c13_after", "h_c13_adjoint", "h_c13_drive", "h_c13_deadlines", "h_c13_waits", "h_c13_free", "h_c13_parts", "h_c13_arrivals"], reach=["unknown", "after", "adjoint", "drive", "deadlines", "waits", "free", "parts", "arrivals"],
     bounds="specification, known part and missing part of up to 3 locations and one clock each; the known part sends and the missing part answers, or the other way round; deadlines in the specification and either part; constants 0..9 (0..6 with five or more of them)",
     outside="larger models, quotients of conjunctions; composing the quotient itself back (its extra input keeps it from refining the specification)")

prop("C15", "Refinement obeys the laws of a preorder that keeps composition",
     "Every consistent specification refines itself and its conjunction with itself, under any name; refinement is transitive; order and grouping of a composition do not matter; and refinement is kept when both sides are composed or conjoined with the same partner.",
     "all constants of the model families",
     "Tests check self-refinement of sample models; the laws relate several verdicts for all constants.",
     ["src/System/refine.rs", "src/TransitionSystems"], [("check_refinement", "src/System/refine.rs")],
     over=("programs",), entries=["h_c15_reflexive", "h_c15_regroup", "h_c15_transitive", "h_c15_monotone", "h_c15_same", "h_c15_quotient"], reach=["reflexive", "regroup", "transitive", "monotone", "same", "quotient"],
     bounds="four shapes of up to 2 locations and two clocks with inputs, two outputs, invariants, disjunctive guards (constants 0..9); transitivity over three components with 9 constants 0..4; compositions of three parts and a quotient by each of two; constants 0..6",
     outside="larger components")

prop("C16", "Consistency verdicts are exact",
     "A consistency query answers yes exactly when the system is deterministic, has an initial state, and every situation the environment can bring about leaves a way on: time can pass for ever, or an output in time leads to a situation that again leaves a way on.",
     "all constants of the model families, any number of rounds",
     "Tests check fixed sample models; the verdict depends on the order of all bounds and on which location is met first.",
     ["src/System/local_consistency.rs"], [("consistency_least_helper", "src/System/local_consistency.rs")],
     over=("programs", "histories"), entries=["h_c16_single", "h_c16_chain", "h_c16_forced", "h_c16_stuck", "h_c16_rounds", "h_c16_ambiguous", "h_c16_empty", "h_c16_combined", "h_c16_late", "h_c16_branches", "h_c16_choices"], reach=["single", "chain", "forced", "stuck", "rounds", "ambiguous", "empty", "combined", "late", "branches", "choices"],
     bounds="components of up to 3 locations and two clocks; strict and other bounds, resets, inputs that force a location, outputs that lead to stuck locations directly or later, loops of period 1..3; compositions and quotients of up to three components; constants 0..9",
     outside="larger components; inputs that come too late for every output (known finding)")

prop("C17", "Determinism verdicts are exact",
     "A determinism query answers yes exactly when no location that can be reached has two edges for one action that can be taken at the same clock values, given their guards, the invariant and the invariants of their targets. A combined system is deterministic when its parts are.",
     "all constants of the model families",
     "Tests check fixed sample models.",
     ["src/System/local_consistency.rs", "src/ModelObjects/transition.rs"], [("check_determinism", "src/System/local_consistency.rs")],
     over=("programs",), entries=["h_c17_pair", "h_c17_targets", "h_c17_clocks", "h_c17_further", "h_c17_three", "h_c17_combined", "h_c17_windows", "h_c17_again"], reach=["pair", "targets", "clocks", "further", "three", "combined", "windows", "again"],
     bounds="components of up to 3 locations and two clocks, windows with strict and other bounds, disjunctions, differences, target invariants with and without assignment; clashes in the first or a later location; constants 0..9",
     outside="locations whose clock values are limited by assignments on the way (the tool looks at all values the invariant allows)")

prop("C21", "Leaving out redundant clocks never changes a verdict",
     "With clock reduction on, every query gets the verdict it gets with reduction off: clocks that are never compared, only trivially compared, or always equal to another clock are left out without any effect, and clocks that can differ are kept apart, in single components, combinations and quotients.",
     "all constants of the model families, every role of the extra clocks",
     "Tests reduce fixed sample models and count clocks; the verdict is wrong only for particular constants.",
     ["src/System/extract_system_rep.rs", "src/TransitionSystems/transition_system.rs", "src/ModelObjects/component.rs"], [("clock_reduction", "src/System/extract_system_rep.rs"), ("find_redundant_clocks", "src/TransitionSystems/transition_system.rs"), ("reduce_clocks", "src/ModelObjects/component.rs")],
     over=("programs", "configurations"), entries=["h_c21_kinds", "h_c21_differ", "h_c21_others", "h_c21_parts", "h_c21_quotient", "h_c21_together", "h_c21_place"], reach=["kinds", "differ", "others", "parts", "quotient", "together", "place"],
     bounds="one or two components of up to 3 locations and three clocks, six ways of mentioning an extra clock, assignments that keep clocks equal or drive them apart; compositions, conjunctions and a quotient; constants 0..9 (0..6 with several parts)",
     outside="more clocks, saved systems (their saving turns reduction into fewer declared clocks)")

prop("C19", "A saved system can stand in for the system it was saved from",
     "The component that saving a system yields has the system's behaviour: wherever it is used instead of the system, verdicts stay the same, and saved and original system refine each other. Clocks of different parts keep apart whatever their names, and locations and edges fit together.",
     "all constants of the model families, several choices of clock names",
     "Tests save fixed sample models.",
     ["src/System/save_component.rs", "src/System/executable_query.rs", "src/ModelObjects/transition.rs", "src/ModelObjects/Expressions/bool_expression.rs"], [("combine_components / get_clock_map", "src/System/save_component.rs")],
     over=("programs", "configurations"), entries=["h_c19_single_%d" % i for i in range(6)] + ["h_c19_names", "h_c19_three", "h_c19_conjunction", "h_c19_quotient", "h_c19_stands_in", "h_c19_merged", "h_c19_branches"], reach=["single", "names", "three", "conjunction", "quotient", "stands_in", "merged", "branches"],
     bounds="single components of 3 locations and two clocks with six forms of guards, assignments and invariants; compositions and conjunctions of two to four parts, five choices of clashing clock names; a quotient; clock reduction on and off; constants 0..6 or 0..9",
     outside="actions that can never be taken (a component lists its actions only by its edges), quotients that can run into an error (a component cannot express them), larger systems", budget={"quick": 500})

prop("C24", "A query's text is read as what it says",
     "Queries are read with the usual precedence: in systems brackets, then conjunction, composition and quotient, each from the left; in states brackets, then not, and, or; sums and differences from the left. Spaces do not matter, lists of queries keep their order, a printed query reads back as the same query, and text that is no query is refused with an error.",
     "every combination of operators, brackets, numbers and states up to the sizes given",
     "Tests parse a few fixed queries.",
     ["src/DataReader/parse_queries.rs", "src/DataReader/grammars/query_grammar.pest"], [("parse_to_expression_tree", "src/DataReader/parse_queries.rs"), ("parse_state", "src/DataReader/parse_queries.rs")],
     over=("inputs",), entries=["h_c24_systems", "h_c24_systems_long", "h_c24_states_two", "h_c24_states", "h_c24_comparisons", "h_c24_kinds", "h_c24_names", "h_c24_refused", "h_c24_written", "h_c24_written_kinds"], reach=["system", "state", "comparison", "kind", "name", "refused", "written"],
     bounds="systems of up to 4 parts with one bracket, states of up to 3 conditions with one bracket, comparisons of up to 3 operands, any digit, any two characters as a name, ten kinds of queries alone or two in a list, three ways of spacing, 33 texts that are no queries; printing: systems of 3 parts in every kind of query, states of 2 conditions in 5 forms",
     outside="longer queries, nested brackets")

prop("C32", "States in reachability queries mean exactly what they say",
     "A described state stands for exactly the situations that fit it: the named locations, and any combination of clock comparisons with and, or and not, over the parts it names. Descriptions that name unknown or indistinguishable parts, locations or clocks, or leave open which location is meant, are refused.",
     "all numbers in the description and the model, every combination of conditions up to the depth given",
     "Tests ask a few fixed questions.",
     ["src/System/extract_state.rs", "src/ModelObjects/Expressions/state_expression.rs", "src/System/reachability.rs"], [("get_state", "src/System/extract_state.rs"), ("to_bool_expression", "src/ModelObjects/Expressions/state_expression.rs")],
     over=("inputs", "programs"), entries=["h_c32_target", "h_c32_start", "h_c32_clocks", "h_c32_parts", "h_c32_quotient", "h_c32_refused"], deep=["h_c32_target_deep"], reach=["target", "start", "clocks", "parts", "quotient", "refused"],
     bounds="one or two parts of 2 locations and up to two clocks; descriptions of up to 2 comparisons (3 in the thorough tier) of clocks, clock differences and digits with and, or, not; 16 wrong descriptions; constants 0..9",
     outside="longer descriptions; start states that cannot be (they are taken as described)")

prop("C25", "Models are read as written, and written models read back the same",
     "A component read from JSON or XML text has exactly the clocks, locations, invariants, edges, guards, assignments, actions and directions the text describes; a component that is written and read again is the same, and a saved system still stands in for the original. JSON text that describes no component is refused with an error.",
     "every digit in the text, all constants of written components, several layouts",
     "Tests load the sample files.",
     ["src/DataReader/serialization.rs", "src/DataReader/json_reader.rs", "src/DataReader/json_writer.rs", "src/DataReader/xml_parser.rs", "src/DataReader/component_loader.rs"], [("parse_components_if_some", "src/DataReader/component_loader.rs"), ("parse_declarations", "src/DataReader/serialization.rs")],
     over=("inputs",), entries=["h_c25_json", "h_c25_xml", "h_c25_written", "h_c25_declarations", "h_c25_saved", "h_c25_refused"], reach=["json", "xml", "written", "declarations", "saved", "refused"],
     bounds="components of 3 locations, 3 edges and two or three clocks with three forms of guard, invariant and assignment, three symbolic digits, every location kind, escaped and plain JSON, actions with and without mark, XML with and without comment labels; eight forms of declarations in four line layouts; written constants -12..12; 14 kinds of wrong text",
     outside="the XML tokenizer itself (a stand-in of the elementtree crate reads the text); int variables; layout data; refusing wrong XML (it stops with a message)", budget={"quick": 400})

prop("C33", "System declarations are read as written",
     "The system declarations of a project name exactly the parts and, for each part, exactly the inputs and outputs written for it, in order, in JSON and XML alike and in any layout of lines, spaces and comments. Wrong declarations are refused, and a project is taken as XML exactly when its file ends so.",
     "every action name of one letter, every combination of layouts",
     "Tests load the sample projects.",
     ["src/ModelObjects/system_declarations.rs", "src/DataReader/xml_parser.rs"], [("parse_system_specification", "src/ModelObjects/system_declarations.rs"), ("is_xml_project", "src/DataReader/xml_parser.rs")],
     over=("inputs",), entries=["h_c33_layout", "h_c33_wrong", "h_c33_ending"], reach=["layout", "wrong", "ending"],
     bounds="two parts with up to three actions each, five forms of the system line, six of the action lines, four line ends, three ways each of writing commas and braces; action names one symbolic letter; 8 wrong texts; seven forms of paths",
     outside="longer lists; the XML tokenizer itself (a stand-in)")

prop("C20", "A pruned system can stand in for the system it was pruned from",
     "Pruning a consistent system yields a component that behaves exactly like it. Pruning a quotient yields a component that avoids the quotient's errors: a component refines the pruned quotient exactly when it refines the quotient, and nothing refines it when errors cannot be avoided.",
     "all constants of the model families",
     "The tests never ask to prune.",
     ["src/System/pruning.rs", "src/System/save_component.rs", "src/System/extract_system_rep.rs"], [("prune_system / prune", "src/System/pruning.rs")],
     over=("programs",), entries=["h_c20_stages", "h_c20_single", "h_c20_combined", "h_c20_quotient", "h_c20_mistakes", "h_c20_prevented_later", "h_c20_prevented", "h_c20_deadline", "h_c20_deadlines", "h_c20_deadlines_both"], reach=["stages", "single", "combined", "quotient", "mistakes", "prevented", "later", "deadlines"],
     bounds="a component of 3 locations and two clocks, a composition, a conjunction, quotients of one-clock models: windows the missing part has to keep, mistakes only the known part makes and mistakes that have to be prevented in time or in two stages (under several names, which decide the order of the search), deadlines of either part; constants 0..9 (0..6 for mistakes to be prevented)",
     outside="deadlines and mistakes in the middle of the time the known part has (known finding); larger systems; actions that can never be taken", budget={"quick": 500})

prop("C26", "Remembered models never change an answer",
     "The service remembers the models a user sent. Every request is answered for the models and settings it carries itself, whatever was sent before by whom, however few models can be remembered, and whether earlier requests succeeded, as long as a user sends one model under one of its hashes; models sent without a hash are never remembered.",
     "every history within the length bound: users, hashes, models, kinds of requests, sizes of the memory",
     "The tests of the memory store and fetch a few models; the claim ranges over histories.",
     ["src/DataReader/component_loader.rs", "src/ProtobufServer/ecdar_requests/request_util.rs", "src/ProtobufServer/ecdar_requests/send_query.rs"], [("ModelCache", "src/DataReader/component_loader.rs"), ("get_or_insert_model", "src/ProtobufServer/ecdar_requests/request_util.rs")],
     over=("histories", "inputs"), entries=["h_c26_two", "h_c26_three", "h_c26_unlimited", "h_c26_after_failure"], deep=["h_c26_four_deep"], reach=["history", "after_failure"],
     bounds="histories of 2 requests of three kinds (a query, a save with reduction on or off, a simulation), and of 3 queries (4 in the thorough tier); any users -5..1000000, any 32-bit hashes, two models with a symbolic constant each; a memory of 1, 2 or unlimited models; failing requests before",
     outside="requests at the same time (each request is handled whole); the lru crate (a stand-in keeps its contract)")

prop("C27", "The simulator offers exactly the steps that can be taken",
     "A simulation starts in the system's initial state. It offers each step that can be taken from there once, with the part's edges, the clock values that allow it and the state it leads to, and nothing else; taking an offered step leads to that state and offers the steps from there.",
     "all constants of the models, every (half-)integer clock valuation",
     "Tests take a few steps of sample models and compare with recorded answers.",
     ["src/Simulation/decision.rs", "src/ProtobufServer/ecdar_requests/simulation_requests.rs", "src/ProtobufServer/proto_conversions.rs", "src/DataReader/proto_reader.rs"],
     [("Decision::get_decisions_from_state / resolve", "src/Simulation/decision.rs"), ("handle_start_simulation / handle_take_simulation_step", "src/ProtobufServer/ecdar_requests/simulation_requests.rs"), ("proto_decision_to_decision", "src/DataReader/proto_reader.rs")],
     over=("programs", "histories"), entries=["h_c27_input", "h_c27_output", "h_c27_ignored", "h_c27_parts", "h_c27_parts_wide", "h_c27_conjunction", "h_c27_ambiguous", "h_c27_twice", "h_c27_quotient", "h_c27_loops"], reach=["input", "output", "ignored", "parts", "conjunction", "ambiguous", "twice", "quotient", "loops"],
     bounds="a component of 3 locations and two clocks up to three steps deep, compositions and conjunctions of two parts (also the same part twice) one step deep, several edges for one action, a quotient two steps deep; constants 0..9, clock values 0..20 in half steps",
     outside="decisions a client makes up or changes; larger systems")

prop("C28", "The service answers each query with its verdict and the reason",
     "A query sent to the service is answered under its own number with the verdict for the models sent along. A negative answer names the kind of failure, the system, the action, the locations and values where it fails; a positive reachability answer carries the path; a saved component is returned; unfit systems are reported as such.",
     "all constants of the models, all numbers of queries and users, JSON and XML, with and without a hash",
     "The service's tests ask a few fixed queries and check only the kind of answer.",
     ["src/ProtobufServer/ecdar_requests/send_query.rs", "src/ProtobufServer/proto_conversions.rs", "src/System/query_failures.rs", "src/System/specifics.rs"],
     [("handle_send_query", "src/ProtobufServer/ecdar_requests/send_query.rs"), ("From<QueryResult>", "src/ProtobufServer/proto_conversions.rs"), ("SpecificState", "src/System/specifics.rs")],
     over=("inputs", "programs"), entries=["h_c28_consistency", "h_c28_determinism", "h_c28_refinement", "h_c28_delays", "h_c28_reachability", "h_c28_component", "h_c28_unfit", "h_c28_inconsistent", "h_c28_ends"],
     reach=["consistency", "determinism", "refinement", "delays", "reachability", "component", "unfit", "inconsistent", "conjunction", "open", "open ends"],
     bounds="one or two components of up to 3 locations and one clock each, sent as JSON (two writings) or XML; constants 0..9, clock values in half steps",
     outside="the transport (gRPC); which clock stands for several that are merged by clock reduction; larger systems")

prop("C34", "Wrong requests are refused and leave the service working",
     "A request whose query or composition is no query, names components, locations or clocks that are not there, comes with unreadable models, or leaves parts out is refused with an error that says it is the request's fault. Good requests that follow are answered as ever.",
     "every wrong request of the list, every constant of the good model",
     "The service's tests send a few wrong requests.",
     ["src/ProtobufServer/ecdar_requests", "src/DataReader/parse_queries.rs", "src/DataReader/component_loader.rs", "src/System/extract_state.rs"],
     [("handle_send_query", "src/ProtobufServer/ecdar_requests/send_query.rs"), ("simulation_info_to_transition_system", "src/ProtobufServer/ecdar_requests/request_util.rs")],
     over=("inputs", "histories"), entries=["h_c34_query_text", "h_c34_unknown_names", "h_c34_model_text", "h_c34_left_out"], reach=["query", "names", "model", "left_out"],
     bounds="19 texts that are no query the service takes, 14 queries about unknown names, 7 unreadable models alone or next to a good one, 11 requests with parts left out; with and without a hash, each followed by a good request",
     outside="decisions a client makes up; guards and assignments that name undeclared clocks; unreadable XML")

prop("C35", "A project on disk is what its files say",
     "A project, a folder of JSON files or one XML file, is loaded with exactly the parts, declarations, queries and components written in it, every declared input is accepted everywhere, and queries get the verdict of the models in the files. What is saved into a JSON project is written to its file, replaces what was there, and is found when the project is loaded again.",
     "every digit in the files, both kinds of project, clock reduction on and off",
     "Tests load the sample projects; none saves into a project.",
     ["src/DataReader/component_loader.rs", "src/DataReader/json_reader.rs", "src/DataReader/json_writer.rs", "src/DataReader/xml_parser.rs", "src/System/executable_query.rs"],
     [("JsonProjectLoader / XmlProjectLoader", "src/DataReader/component_loader.rs"), ("component_to_json_file", "src/DataReader/json_writer.rs")],
     over=("inputs", "histories"), entries=["h_c35_asked", "h_c35_inputs", "h_c35_saved"], reach=["asked", "inputs", "saved"],
     bounds="projects of two components with one clock each; up to four symbolic digits in the files; three queries; inputs declared or not; one save of a component or a composition, under a new name or in place of another, followed by a query with or without loading the project again",
     outside="the command line itself; queries in XML files (the tool reads none); missing or unreadable files (they stop the program); several programs writing one project; actions that can never be taken")

prop("C29", "Requests handled at the same time do not influence each other",
     "Requests that several users send at once get the answers they would get one after the other. Neither the order in which worker threads run nor a model being remembered or dropped meanwhile changes an answer.",
     "every schedule of the worker threads",
     "The tests send requests one at a time.",
     ["src/ProtobufServer/ecdar_backend.rs", "src/DataReader/component_loader.rs"], [("ConcreteEcdarBackend::send_query", "src/ProtobufServer/ecdar_backend.rs")],
     over=("schedules",), na="the executor runs one thread: rayon's pool, the async runtime and the cache's locks are library code whose threads and atomics it cannot encode; orders of whole requests are decided under C26 and C34")

prop("C30", "The server answers over the network as the published protocol says",
     "A client that speaks the published protocol gets every field of an answer where the protocol puts it, and a message that does not follow the protocol is refused.",
     "every message",
     "The tests call the handlers directly.",
     ["src/ProtobufServer/server.rs", "src/build.rs"], [("start_grpc_server_with_tokio", "src/ProtobufServer/server.rs")],
     over=("inputs",), na="encoding and transport are generated from the protocol by tonic and prost, whose crates are not in the offline cache; the stand-ins carry the types only, so the code on which this depends is not there to be encoded")

prop("C31", "The graph of a component is laid out with every location at a finite place",
     "A component that is shown gets a place for each of its locations, all finite, different, and inside the drawing area.",
     "every component",
     "The tests do not look at positions.",
     ["src/Simulation/graph_layout.rs"], [("layout_dummy_component", "src/Simulation/graph_layout.rs")],
     over=("inputs",), na="positions come out of several thousand steps of floating-point force simulation in a crate that is not available offline; its stand-in does nothing, and such a computation is out of the solver's reach")
