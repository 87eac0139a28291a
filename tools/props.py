prop("C01","Completeness: an honest witness always yields an accepted proof",
 "For every circuit within the supported sizes and every assignment that satisfies its gates, copy constraints and lookups, proving succeeds and the verifier accepts the resulting proof. This holds for every value of the challenges and of the prover's blinding randomness outside a negligible degenerate set.",
 ["inputs","configurations"],"all satisfying assignments of the bounded circuits, all challenge and blinding values",
 "Tests prove a few fixed circuits with one pseudo-random witness each; they cannot range over assignments, selector values, vanishing sets, degrees and blinding values.",
 ["src/turbo_plonk.rs","src/piop/prover.rs","src/piop/verifier.rs","src/indexer.rs"],
 [("prover rounds and quotient","src/piop/prover.rs"),("verifier identity check","src/turbo_plonk.rs verify"),("extended domain size","src/indexer.rs index")],
 "All values, bounded sizes: gates n<=8, copy/lookup n=4 (quick); n<=16 and more shapes thorough.")
prop("C06","Multi-point opening accepts exactly the true evaluations",
 "The batched opening argument accepts an honest proof for any set of polynomials queried at any set of points. It rejects every proof in which some claimed evaluation, commitment or message differs from the truth, except for a negligible set of challenges.",
 ["inputs","fault_sequences"],"all polynomials up to the stated degree, all evaluation points, all single-slot perturbations",
 "Tests open one fixed query pattern honestly and never present a false claim.",
 ["src/multiproof/piop/mod.rs","src/multiproof/piop/prover.rs","src/multiproof/piop/verifier.rs","src/multiproof/poly.rs"],
 [("opening sets grouped by points","src/multiproof/piop/mod.rs"),("final combined opening","src/multiproof/piop/mod.rs verify")],
 "All polynomial coefficients, points and perturbations symbolic; degree and query patterns bounded.")
prop("C07","Row rotations mean the same thing to prover and verifier",
 "Reading a column at a shifted row yields the cyclically shifted row on the trace, the same shifted value on every larger evaluation grid, and the column polynomial at the correspondingly scaled point at verification time. Prover and verifier agree on the names and positions of all queried points.",
 ["inputs","configurations"],"all column values, all points, all rotations smaller than the domain",
 "Tests use one or two fixed rotations on one domain size.",
 ["src/oracles/rotation.rs","src/oracles/witness.rs","src/oracles/instance.rs","src/oracles/fixed.rs","src/oracles/traits.rs"],
 [("rotation to row / coset index","src/oracles/witness.rs query_in_context"),("rotation to challenge point","src/oracles/rotation.rs")],
 "All values; domain sizes up to 16, blow-up factors up to 8, rotations of magnitude < n.")
prop("C08","Constraint expressions evaluate to what was written",
 "A constraint built from sums, products, negations, scalings, constants and column reads evaluates to exactly that arithmetic combination of the assigned columns, and reads exactly the columns and rotations it mentions. Its reported degree is never below the degree of the resulting polynomial.",
 ["programs","inputs"],"all expressions up to the stated size over all values of the queried cells",
 "Tests evaluate a handful of fixed expressions.",
 ["src/vo/expression.rs","src/vo/virtual_expression.rs","src/vo/generic_vo.rs","src/vo/generic_lookup_vo.rs"],
 [("virtual to concrete expression","src/vo/virtual_expression.rs"),("expression folding","src/vo/expression.rs")],
 "All cell values; expression shapes enumerated up to the stated depth.")
prop("C09","Built-in gates enforce their documented relation",
 "Each ready-made gate (multiplication, arithmetic, four-wire arithmetic, range/logic, permutation-cipher round) vanishes on a row exactly when the documented relation between its inputs, selectors and outputs holds, over all values of the cells it reads.",
 ["inputs"],"all values of every cell read by the gate",
 "Tests evaluate each gate on one satisfying assignment; a gate that ignores an input or accepts extra values passes them.",
 ["src/vo/precompiled/mul.rs","src/vo/precompiled/plonk_arith.rs","src/vo/precompiled/logic.rs","src/vo/precompiled/rescue.rs"],
 [("gate expressions","src/vo/precompiled/*.rs get_expr_and_queries")],
 "Complete for the gate expressions: all field values, no size bound involved.")
prop("C02","The verifier's combined check enforces every constraint on every row",
 "On each row of the domain, the quantity the verifier compares with zero combines all gate, copy-constraint and lookup constraints of that row and nothing else, taken from the claimed column values. No assignment that breaks a constraint on an enforced row is accepted, except for a negligible set of challenges; rows excluded by the vanishing polynomial impose nothing.",
 ["inputs","configurations"],"all column values (honest or not), all rows, all challenge values, bounded circuits",
 "Tests verify honest proofs only: a constraint the verifier drops, merges or misplaces goes unnoticed because honest columns satisfy it anyway.",
 ["src/turbo_plonk.rs","src/piop/verifier.rs","src/permutation/mod.rs","src/permutation/grand_product.rs","src/lookup/mod.rs","src/lookup/subset_equality.rs"],
 [("verifier identity","src/turbo_plonk.rs verify"),("permutation constraints","src/permutation/grand_product.rs open_argument"),("lookup constraints","src/lookup/subset_equality.rs open_argument")],
 "Columns, running products and challenges symbolic; circuits bounded (n<=8 quick, n<=16 thorough).")
prop("C12","A witness that breaks the circuit never yields an accepted proof",
 "If a witness violates a gate, a copy constraint or a lookup on an enforced row, then whatever the library's prover produces for it is refused: proving fails or the verifier rejects the proof. This holds for every amount by which the constraint is broken, outside a negligible set of challenges.",
 ["inputs","fault_sequences"],"all amounts of breakage of every constrained cell of the bounded circuits",
 "Tests contain almost no negative proofs; each would sample one wrong witness.",
 ["src/turbo_plonk.rs","src/piop/prover.rs","src/permutation/mod.rs","src/lookup/mod.rs"],
 [("prover rounds","src/piop/prover.rs"),("verifier identity","src/turbo_plonk.rs verify")],
 "Breakage symbolic around a seeded honest assignment; circuits n<=8 (16 thorough).")
prop("C14","No alteration of an accepted proof is accepted",
 "Starting from an accepted proof, changing claimed evaluations, any commitment or any message of the batched opening makes verification fail, except for a negligible set of challenges. In particular every message is fixed before the challenges it is checked against are drawn.",
 ["fault_sequences","inputs"],"all simultaneous perturbations of the scalars of each part of the proof",
 "Tests never tamper with a proof; an unbound message only shows for crafted perturbations that compensate each other.",
 ["src/turbo_plonk.rs","src/multiproof/piop/mod.rs","src/multiproof/piop/verifier.rs","src/rng.rs"],
 [("transcript order","src/turbo_plonk.rs verify"),("batched opening","src/multiproof/piop/mod.rs verify")],
 "Perturbations symbolic around one seeded proof per circuit; ideal binding of commitments.")
prop("C17","A proof is bound to the public inputs and circuit it was made for",
 "A proof made for one set of public inputs, fixed columns and tables is rejected for any other, whatever the difference, except for a negligible set of challenges. Public inputs influence every challenge drawn after them.",
 ["inputs","fault_sequences"],"all shifts of every public input, fixed and table cell of the bounded circuits",
 "Tests never verify a proof against a different statement, let alone one crafted after seeing the challenges.",
 ["src/turbo_plonk.rs","src/oracles/instance.rs","src/oracles/fixed.rs"],
 [("statement absorption","src/turbo_plonk.rs"),("instance evaluation","src/oracles/instance.rs query")],
 "Shifts symbolic around one seeded proof per circuit.")

prop("C03","The running product enforces every copy constraint",
 "For columns grouped into running products, the products the prover builds satisfy every relation the verifier checks exactly when all cells of each copy cycle are equal, whatever the blinding rows hold. Prover and verifier compute the same constraint values from the same columns.",
 ["inputs","configurations"],"all cell values, challenges and blinding values; stated column counts, groupings and sizes",
 "Tests use one column layout with one fixed set of cycles; groupings over several products and wrap-around rows are not reached.",
 ["src/permutation/mod.rs","src/permutation/grand_product.rs"],
 [("running products","src/permutation/mod.rs construct_agg_polys"),("constraint values","src/permutation/grand_product.rs")],
 "All values; n<=8 and up to 4 columns (quick), n<=16 and 6 columns thorough.")
prop("C04","The lookup relation holds exactly for tuples in the table",
 "Looked-up expressions and table rows are compressed by the same powers of one challenge on the prover's and the verifier's side, for every column kind and rotation. The rearranged columns and the running product satisfy all constraints exactly when every looked-up tuple of a usable row occurs among the table's usable rows.",
 ["inputs","configurations"],"all cell values, challenges and blinding values; stated table arities and sizes",
 "Tests use one table and one honest column without rotations.",
 ["src/lookup/mod.rs","src/lookup/subset_equality.rs"],
 [("compression","src/lookup/mod.rs construct_a_and_s_polys_prover"),("constraint values","src/lookup/subset_equality.rs")],
 "All values; n<=8 (16 thorough), up to 3 columns per lookup.")
prop("C05","Lookup columns are rearranged correctly for every input",
 "Rearranging a column and a table for a lookup yields permutations of both in which each value of the column equals either the table value beside it or the value above it. If some value of the column is missing from the table, no rearranged pair is produced.",
 ["inputs"],"all columns and tables of the stated lengths, over all orderings and coincidences of their values",
 "Tests rearrange one or two fixed columns; duplicates, unused table rows and missing values combine in too many ways to sample.",
 ["src/lookup/permute.rs"],
 [("rearrangement","src/lookup/permute.rs permute_for_lookup")],
 "All orderings and coincidences of column and table values; length 3 for all inputs, 4 for contained inputs (5 thorough, increasing table).",
 tech="path-exhaustive symbolic execution of the real rearrangement code, branch feasibility and goals decided by an SMT solver over ordered values")

prop("C13","Every challenge depends on everything sent before it",
 "The public inputs and every element of each prover message influence all challenges that have to be drawn after that message. Prover and verifier derive the same challenges from an honest proof, and no challenge is reused.",
 ["inputs","fault_sequences"],"all movements of all elements of every message, on the bounded circuits",
 "Tests only run honest proofs, for which a missing or late absorption changes nothing visible.",
 ["src/turbo_plonk.rs","src/multiproof/piop/mod.rs","src/piop/mod.rs","src/rng.rs"],
 [("transcript order","src/turbo_plonk.rs"),("batched opening transcript","src/multiproof/piop/mod.rs")],
 "Ideal (injective) transcript hash and commitment encodings; one seeded base proof per circuit.")

prop("C10","The evaluation grid fits the quotient of every circuit",
 "For any constraint degrees, number of copied columns, lookups and skipped rows, the grid chosen for a circuit has at least as many points as each quotient has coefficients. The stored inverses are exactly the inverses of the vanishing polynomial's values on that grid, and prover and verifier derive the same parameters.",
 ["configurations","inputs"],"all vanishing polynomials of the stated degrees; assorted constraint shapes over free columns",
 "Tests use one gate degree and X^n - 1 only; an undersized grid shows only for particular combinations of degree, skipped rows and columns.",
 ["src/indexer.rs","src/util.rs","src/vo/virtual_expression.rs","src/vo/expression.rs","src/permutation/mod.rs"],
 [("grid size","src/indexer.rs index"),("inverses","src/indexer.rs compute_zh_evals"),("degree","src/vo/expression.rs degree")],
 "Domains of 4 and 8 rows (16 thorough), degree up to 9 columns, up to 6 copied columns.")

prop("C15","The mock prover accepts exactly the witnesses that satisfy every gate",
 "The mock prover succeeds on every witness that satisfies all gates on all rows of the domain. It refuses every witness that violates at least one gate on at least one row, whatever the other gates and rows contain.",
 ["inputs","configurations"],"all cell values and all simultaneous deviations of all gates on all rows",
 "Tests run the mock prover on one satisfying witness; a skipped row or gate, or deviations that cancel, are not sampled.",
 ["src/mock_prover.rs","src/oracles/rotation.rs"],
 [("row check","src/mock_prover.rs prove")],
 "n=4 and 8 (16 thorough), up to five gates with rotations. Copies and lookups are outside the mock prover's scope.")

prop("C19","The shipped commitment adapter is linear",
 "Adding, negating, scaling and combining commitments through the shipped adapter yields the commitment to the same linear combination, and the empty commitment and equality tests recognise exactly what they name. Combining hiding randomness follows the same linear rules, whatever the lengths of the blinding polynomials.",
 ["inputs"],"all group elements, scalars and blinding coefficients (fixed scalar set for multi-scalar products)",
 "Half of the adapter's operations are not reached by any test, and the others only with one blinding degree.",
 ["src/commitment.rs"],
 [("adapter","src/commitment.rs")],
 "Combinations of up to 4 commitments (8 thorough), blinding polynomials of up to 4 coefficients; group modelled by its exponents.")

prop("C18","Everything the prover sends is blinded with fresh randomness",
 "Every commitment that depends on the witness is hiding, with blinding taken from the caller's randomness. All rows beyond the usable ones of running products and of rearranged lookup columns are random, and no random value serves twice.",
 ["inputs","configurations"],"all cell values, challenges and random draws on the bounded circuits",
 "A missing or reused blinding value changes no verdict, so no accept/reject test can see it.",
 ["src/turbo_plonk.rs","src/permutation/grand_product.rs","src/lookup/mod.rs","src/lookup/subset_equality.rs","src/oracles/witness.rs","src/multiproof/piop/prover.rs"],
 [("hiding bound","src/oracles/witness.rs to_labeled"),("blinding rows","src/permutation/grand_product.rs construct_agg_poly")],
 "n=4 and 8 (16 thorough). Simulation-based zero knowledge as a whole is not claimed.")
prop("C16","A proof with a part missing is never accepted",
 "If any claimed evaluation, commitment or batch-opening value that a circuit calls for is missing from a proof, verification does not succeed, whatever the rest of the proof says. In particular a prover that leaves out the copy constraints or lookups of some columns is refused, and nothing is filled in from a proof checked earlier.",
 ["inputs","fault_sequences","histories"],"all values of the remaining parts and challenges; last element or the whole of each list of the proof, with fresh and with used verifier objects",
 "Tests only verify complete proofs, each with fresh objects.",
 ["src/turbo_plonk.rs","src/multiproof/piop/mod.rs","src/oracles/witness.rs"],
 [("proof shape","src/turbo_plonk.rs verify"),("opening sets","src/multiproof/piop/mod.rs verify")],
 "Quotient pieces are excepted (leaving some out only restricts the prover). Refusal may be an error or a panic.")
prop("C11","Objects used before give the same results as fresh ones",
 "Making several proofs with the same keys, preprocessed data and column objects, or checking several proofs one after the other with the same verifier objects, gives for each of them exactly the result fresh objects give. This holds whatever came before: honest, altered or foreign proofs.",
 ["histories","fault_sequences"],"sequences of up to 3 proofs and up to 5 checks, alterations by any amounts",
 "Tests use every object once; state left behind by an earlier proof is never looked at.",
 ["src/turbo_plonk.rs","src/oracles/witness.rs","src/oracles/fixed.rs","src/oracles/instance.rs","src/data_structures.rs"],
 [("registered claims","src/oracles/witness.rs register_eval_at_challenge"),("extended evaluations","src/oracles/witness.rs compute_extended_evals")],
 "Base assignments: two seeded samples; challenges, randomness and alterations symbolic.")
