"""How each property is decided: text of DESIGN.md (generated by `vp.py manifest`)."""
HOW = {
"C01": "Every operator tree within the bound is built with symbolic edge letters, alternatives and idle parts; the oracle computes the groups from the same tree by plain recursion over a list (checks/ids.rs) and every letter of every group is asserted equal.",
"C02": "Paths of symbolic identifiers are split; the oracle transposes the per-step groups of C01's oracle. Paths with different shapes must be refused.",
"C03": "Two identifiers are built independently and printed. Asserted: texts equal <=> normalised trees equal (nested same operators flattened).",
"C04": "A guard tree with symbolic constants is applied to a zone with symbolic bounds. The result federation is asked about a symbolic doubled point; the oracle evaluates the formula at that point. Set equality follows as the point ranges over all half-integers in range.",
"C05": "`simplify` of a symbolic tree; the oracle evaluates the tree before and after with symbolic values of the variables in 64-bit arithmetic.",
"C06": "A tree is printed the way saving prints it and parsed again by the real (pest) parser, both executed symbolically (digits are symbolic characters); both trees are evaluated at a symbolic valuation.",
"C07": "The text is built from symbolic digits and chosen operators and brackets; the oracle is an independent precedence evaluator over the token list.",
"C08": "A zone with symbolic bounds, an edge with symbolic guard, updates and target invariant. `use_transition` is run; membership of a symbolic point in the result is asserted equal to: there is a point of the zone satisfying the guard whose update satisfies the invariant and reaches the point by a delay (a linear system solved by hand in the oracle).",
"C09": "As C08 for `get_allowed_federation`: membership of a symbolic point <=> guard holds and the updated point satisfies the invariant.",
"C10": "Reachability queries over models whose constants are symbolic and written as sums, differences, on either side; the verdict is compared with a closed formula over the constants derived by hand for each family (windows that must overlap); loops are closed with `choose` for the period.",
"C11": "Parts are built from symbolic constants; verdicts of reachability/refinement on the composition and on its transitions are compared with closed formulas; action kinds are read off the system and compared with the table of the definition.",
"C12": "X <= A&&B is compared with (X<=A and X<=B), both decided by the tool and against a closed formula for the windows; action sets, time and refusal are compared with the definition.",
"C13": "X <= T//S is compared with (S||X) <= T, each evaluated by the tool on the same symbolic models, and with closed formulas; grouping (T//A)//B against T//(A||B).",
"C14": "The verdict of `refinement: S <= T` against a closed formula over the constants (window inclusion, urgency, input coverage), one family per way in which windows can matter.",
"C15": "Relations between verdicts (reflexivity, transitivity, commutativity, congruence) for symbolic constants: no formula is needed, the laws are the oracle.",
"C16": "Consistency verdict against a closed formula per family.",
"C17": "Determinism verdict against a closed formula per family (two windows meet, also after updates and target invariants).",
"C18": "Verdict against a closed formula; the returned path is then replayed by a checker in the harness: states join up, each component takes at most one of its own edges per step on the step's action, no zone is empty, the last state meets the goal.",
"C19": "The system is saved by the tool's own query; saved and original are compared by refinement in both directions and inside other systems, for symbolic constants.",
"C20": "A `prune` query yields a component; P and Q refine each other for consistent P, and X <= pruned(T//S) <=> X <= T//S with X's constants symbolic.",
"C21": "The same query with reduction on and off on the same symbolic model must get the same verdict, and, for most families, the verdict of a closed formula as well.",
"C22": "The component as the container loads it; at a symbolic point exactly one of its transitions for the input is enabled, the written one where it was enabled, else one that leads back to the same location and keeps the point.",
"C23": "Two locations are built independently and printed. Asserted: texts equal <=> normalised trees equal (nested same operators flattened); printing then reading gives the same normalised tree.",
"C24": "The text is put together from chosen operators, brackets, spaces and symbolic digits; the parsed tree is compared with the tree an independent precedence builder yields. A printed query is parsed again and compared. Texts outside the grammar must give Err.",
"C25": "Text of a component is built around symbolic digits, read by the real readers (serde_json is real; the XML tokenizer is a stand-in), and every field is compared with what was described; written components are read back and compared; saved systems are loaded back and used in queries.",
"C26": "A history of requests with symbolic users and hashes goes through the service's request handlers with one memory; every answer is compared with the answer a fresh service gives on that request alone (a closed formula of the model's constant).",
"C27": "Simulation requests through the service's handlers (start, step); every decision offered is compared, at a symbolic clock point, with the edges of the model evaluated at that point, and each point where an edge is enabled must be covered by exactly one decision.",
"C28": "Query requests through the service's handler with models as JSON/XML text; verdict, number, kind of failure, system, action, locations and the clock constraints of the answer are compared with closed formulas.",
"C32": "A state described in text (built from symbolic digits and chosen operators) is used as goal or start; the verdict is compared with the truth of the description over the reachable situations, evaluated at symbolic points.",
"C33": "Declarations are built in every layout with symbolic action letters and read through the JSON and the XML reader.",
"C34": "Wrong requests go through the service's handlers; each must give an error of kind invalid-argument and no panic (an abort is a violation), and a good request after it is answered with the right verdict.",
"C35": "The files are written (executor: a file system whose contents are symbolic bytes, part of the state; natively: a scratch directory), then read by the real loaders; verdicts are compared with closed formulas, saved and original component by refinement in both directions.",
}
