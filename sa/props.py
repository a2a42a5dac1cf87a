"""The properties: text (written to properties.jsonl / MANIFEST.json by sa.gen) and the part of the program each one governs.

`sel` selects the reference functions whose behaviour carries the property: strings are path prefixes of source files
(relative to the repository), entries starting with '~' are regular expressions on the resolved item path.
`rules` names intrinsic obligations in sa/rules.py that are decided from first principles (no reference involved)."""

PROPS = []


def P(id, title, statement, over, text, why, sel, mech, rules=(), floor=1, obs=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, sel=sel, mech=mech, rules=list(rules), floor=floor, obs=obs or []))


VM, BASE = "ckb_bf_vm/src/", "ckb_bf_base/src/"
HP = "halo2_proofs/src/"
HC = "halo2curves/src/"
HG = "halo2_gadgets/src/"

# ------------------------------------------------------------------------------------------------ BF machine and circuit
P("B01", "Brainfuck compilation keeps every instruction and resolves every loop",
  "For every source text, compilation drops exactly the bytes that are not one of the eight Brainfuck instructions and keeps the others in order. Each bracket is followed by one operand word: for an opening bracket the address just after the matching closing bracket's operand, for a closing bracket the address just after the matching opening bracket's operand. The 16-bit form published on chain and the field-element form proved by the circuit are the same sequence.",
  ["programs"], "all byte strings given to the compiler", "The tests compile a handful of fixed programs and only look at the result of running them.",
  [VM + "code.rs"], [("compile_to_u16/compile/easygen", VM + "code.rs")])
P("B02", "Interpreter executes the Brainfuck semantics step by step",
  "For every compiled program and input, each step performs exactly the current instruction: move the pointer by one (growing the tape with zero cells), add or subtract one modulo the cell size, read the next input byte into the cell, emit the cell, or take the loop operand when the cell is zero (opening) or non-zero (closing) and otherwise skip the operand. Execution starts at address 0 with a single zero cell and stops when the instruction pointer leaves the program.",
  ["programs", "inputs"], "all compiled programs, inputs and reachable machine states", "The tests run a few programs; a wrong wrap-around, tape growth or jump shows only in states those programs never reach.",
  [VM + "interpreter.rs", VM + "code.rs"], [("Interpreter::run", VM + "interpreter.rs")])
P("B03", "Execution trace records every step in all five witness tables",
  "For every execution the trace contains, in order, one processor row per cycle with the true register contents (including the next instruction and the inverse of the cell, zero for a zero cell) plus one final row after the last step. The instruction table holds every program address once plus one row per processor row, ordered by address; the memory table holds one row per processor row, ordered by pointer with cycles in order; the input and output tables hold exactly the bytes consumed and produced, in order, and the program table the executed code.",
  ["programs", "histories"], "all executions of all programs", "Tests compare at most the final tables of small programs with the circuit, never a trace with an independent execution.",
  [VM], [("Interpreter::run row pushes and sorts", VM + "interpreter.rs"), ("row conversions", VM + "matrix.rs")])
P("B04", "Processor constraints force each cycle to follow the executed instruction",
  "For every assignment, the processor constraints are satisfied exactly when the first row is the initial state and each row follows its predecessor under the semantics of the instruction it holds: clock plus one, correct instruction pointer, memory pointer and cell change, a correct zero test through the inverse, and cell values inside the cell range. The running products and sums carried in the processor rows are updated with exactly the tuple the corresponding table accumulates.",
  ["inputs"], "all advice assignments, rows and challenges", "Tests only feed honest witnesses: a dropped or weakened constraint accepts them just the same.",
  [BASE + "processor_table.rs", BASE + "range_table.rs", BASE + "utils.rs", BASE + "lib.rs"], [("ProcessorTable::configure gates, lookups; load_table", BASE + "processor_table.rs")])
P("B05", "Memory constraints order accesses and make every cell remember its value",
  "For every assignment, the memory constraints hold exactly when between consecutive rows the pointer either stays or grows by one, a cell whose pointer is new starts at zero, and a row that repeats the pointer keeps its value unless the clock advanced by exactly one. Every memory row enters the permutation product with its clock, pointer and value under the memory challenges.",
  ["inputs"], "all advice assignments, rows and challenges", "Tests only feed honest traces; constraints that stop forged memory histories are never exercised negatively.",
  [BASE + "memory_table.rs", BASE + "utils.rs", BASE + "lib.rs"], [("MemoryTable::configure/load_table", BASE + "memory_table.rs")])
P("B06", "Instruction and program tables pin the executed code to the public code",
  "For every assignment, instruction rows may only stay at an address with the same current and next instruction, or advance to the next address; rows that repeat an address multiply the permutation product, and first visits of an address feed the evaluation sum of the program. The program table evaluates the same sum over the published program, word by word with its successor, together with its length.",
  ["inputs", "programs"], "all advice assignments, rows and challenges", "Honest witnesses satisfy weakened constraints too; no test proves a wrong program is refused.",
  [BASE + "instruction_table.rs", BASE + "program_table.rs", BASE + "utils.rs", BASE + "lib.rs"], [("InstructionTable/ProgramTable configure and load_table", BASE + "instruction_table.rs"), ("ProgramTable", BASE + "program_table.rs")])
P("B07", "Input and output tables accumulate exactly the bytes read and written",
  "For every assignment, each active input or output row folds its byte into the running sum as previous sum times the table's challenge plus the byte, starting from zero, and rows past the end leave the sum unchanged. The number of input bytes is carried next to the sum.",
  ["inputs"], "all advice assignments, rows and challenges", "Only honest assignments with short inputs are tested.",
  [BASE + "input_table.rs", BASE + "output_table.rs", BASE + "utils.rs", BASE + "lib.rs"], [("InputTable/OutputTable configure and load_table", BASE + "input_table.rs"), ("OutputTable", BASE + "output_table.rs")])
P("B08", "The circuit ties all tables together and to the public code and input",
  "For every witness, the circuit equates the final permutation product of the processor with that of the memory table and of the instruction table, the processor's input and output sums with those of the input and output tables, and the instruction table's program sum with the program table's. The program cells and their length, and the input cells and their length, are equal to the public instances in order, and all accumulators use the same post-commitment challenges.",
  ["inputs", "programs"], "all witnesses, programs, inputs and challenges", "A missing equality between tables accepts every honest witness, so passing tests say nothing about it.",
  [BASE], [("MainConfig/MyCircuit configure and synthesize", BASE + "main_config.rs")])
P("B09", "The on-chain script succeeds only for a verified proof of the witnessed code",
  "For every transaction, the script returns 0 only if all five witnesses load, the parameters and the verifying key parse, and the proof verifies for the public code and input exactly as witnessed: the length first, then each 16-bit little-endian word of code, and the length first, then each byte of input. Any failed load or parse and any rejected proof yields a non-zero code.",
  ["inputs", "fault_sequences"], "all witness contents and load failures", "The script targets a RISC-V chain environment; no repository test runs it.",
  ["ckb_bf_verifier/src/", "~^ckb_bf_base::utils::read_verifier_params"], [("program_entry", "ckb_bf_verifier/src/main.rs"), ("read_verifier_params", BASE + "utils.rs")])
P("B10", "The prover publishes exactly what the on-chain script reads",
  "For every program and input, the prover proves the compiled program on the given input and writes parameters, verifying key, proof, code words and input in the order, byte format and instance layout that the on-chain script expects, and it verifies its own proof with the same inputs. Parameters written by the prover are recovered unchanged by the script's reader.",
  ["programs", "inputs"], "all programs, inputs and generated artifacts", "The end-to-end path through the transaction file is only exercised by hand with a chain debugger.",
  ["ckb_bf_prover/src/", BASE + "utils.rs"], [("main/build_ckb_tx", "ckb_bf_prover/src/main.rs"), ("parameter encoding", BASE + "utils.rs")])

# ------------------------------------------------------------------------------------------------ proving system
P("H01", "A proof is accepted only if every verification equation holds",
  "For every proof string, instance and key, verification succeeds only if the quotient identity holds at the challenge point with all gate, permutation and lookup expressions included, and the batched opening check succeeds for every queried commitment and evaluation. Malformed or truncated proofs and a wrong number of instance columns give an error, never acceptance.",
  ["inputs"], "all proof strings, instances and verifying keys", "Tests check that honest proofs pass and at most one broken proof fails.",
  [HP + "plonk/verifier.rs", HP + "plonk/vanishing/verifier.rs", HP + "plonk/lookup/verifier.rs", HP + "plonk/permutation/verifier.rs", HP + "poly/kzg/strategy.rs", HP + "poly/kzg/msm.rs",
   HP + "poly/kzg/multiopen/shplonk/verifier.rs", HP + "poly/kzg/multiopen/gwc/verifier.rs", HP + "poly/ipa/strategy.rs", HP + "poly/ipa/msm.rs", HP + "poly/ipa/multiopen/verifier.rs", HP + "poly/ipa/commitment/verifier.rs", HP + "poly/query.rs"],
  [("verify_proof and strategies", HP + "plonk/verifier.rs"), ("opening verifiers", HP + "poly/kzg/multiopen/shplonk/verifier.rs")])
P("H02", "Prover and verifier derive the same challenges after the same commitments",
  "For every circuit and witness, prover and verifier absorb the key digest, instances, commitments and evaluations in the same order and squeeze each challenge at the same point of the transcript, and every challenge is squeezed only after all messages it must bind. The key digest absorbed first commits to the whole constraint system, fixed and permutation commitments.",
  ["programs", "inputs"], "all circuits, proofs and batch sizes", "A schedule where a challenge is drawn too early, or a value is left out on both sides, still lets honest proofs verify.",
  [HP + "plonk/prover.rs", HP + "plonk/verifier.rs", "~^<halo2_proofs::plonk::(VerifyingKey|circuit::PinnedC)", "~^<(halo2_proofs::(plonk|poly)|halo2curves).*Debug>::fmt$", "~::pinned$", HP + "plonk/lookup/prover.rs", HP + "plonk/lookup/verifier.rs", HP + "plonk/permutation/prover.rs", HP + "plonk/permutation/verifier.rs", HP + "plonk/vanishing/",
   HP + "poly/kzg/multiopen/", HP + "poly/ipa/multiopen/", HP + "poly/ipa/commitment/"],
  [("create_proof / verify_proof", HP + "plonk/prover.rs"), ("VerifyingKey::hash_into, from_parts", HP + "plonk.rs")])
P("H03", "Transcripts bind every message and reader and writer stay in step",
  "For every sequence of operations, both transcript families mix each absorbed point and scalar, with its domain-separating tag or its coordinates, into the state, and every challenge depends on the whole history. A reader replaying the bytes a writer produced recovers the same points, scalars and challenges, and a malformed encoding is reported as an error.",
  ["histories", "inputs"], "all sequences of absorb, write, read and squeeze operations", "Unit tests cover one short sequence; an element left out of the hash is invisible to honest round trips.",
  [HP + "transcript"], [("Blake2b and Poseidon transcripts", HP + "transcript.rs"), ("Poseidon transcript", HP + "transcript/poseidon.rs")])
P("H04", "The prover's quotient evaluates exactly the gates, permutation and lookups",
  "For every constraint system, the compiled evaluation graph computes at each row of the extended domain exactly the gate polynomials, permutation products and lookup arguments, in the verifier's order and folded with the same challenge, with each column read at its own rotation. Sharing of common subexpressions and constants never changes a value.",
  ["programs", "inputs"], "all expressions, rotations, rows and challenge values", "Tests reach only the expressions of a few circuits.",
  [HP + "plonk/evaluation.rs"], [("Evaluator, GraphEvaluator, Calculation", HP + "plonk/evaluation.rs")])
P("H05", "The permutation argument enforces all and only the declared equalities",
  "For every set of copy constraints, key generation merges exactly the requested cells into cycles and encodes the cycles in the permutation polynomials, and rejects cells outside the declared columns or rows. The prover's products, the quotient terms and the verifier's terms use the same column chunks, coset identifiers and blinding boundaries, so an assignment is accepted exactly if all copies agree.",
  ["programs", "inputs"], "all copy-constraint sets, column counts, chunkings and assignments", "Tests use a few columns and honest assignments.",
  [HP + "plonk/permutation"], [("Assembly::copy/build, prover and verifier products", HP + "plonk/permutation/keygen.rs"), ("prover", HP + "plonk/permutation/prover.rs"), ("verifier", HP + "plonk/permutation/verifier.rs")])
P("H06", "The lookup argument accepts exactly inputs contained in the table",
  "For every lookup, the permuted input and table are rearrangements of the compressed input and table in which each input equals its table entry or its predecessor, and a missing table value is an error. The product and the five verifier terms, with their boundaries at the first, last and blinding rows and the evaluations at their rotations, enforce exactly that containment.",
  ["inputs", "programs"], "all lookups, tables, assignments and challenges", "Tests run small honest lookups.",
  [HP + "plonk/lookup"], [("permute_expression_pair, commit_product, expressions", HP + "plonk/lookup/prover.rs"), ("verifier", HP + "plonk/lookup/verifier.rs")])
P("H07", "The vanishing argument commits to the full quotient in consistent pieces",
  "For every folded constraint polynomial, the prover divides by the vanishing polynomial, splits the quotient into pieces of domain size and commits to each, and the verifier recombines the pieces in powers of the challenge to the domain size and compares against the folded constraint evaluations divided by the vanishing evaluation. The committed random polynomial is opened at the same point.",
  ["inputs"], "all constraint polynomials, degrees and challenge points", "Only the degrees of the test circuits are reached.",
  [HP + "plonk/vanishing/"], [("vanishing prover", HP + "plonk/vanishing/prover.rs"), ("vanishing verifier", HP + "plonk/vanishing/verifier.rs")])
P("H08", "KZG openings prove exactly the claimed evaluations",
  "For every set of polynomials, points and claimed values, both pairing-based multi-opening schemes group queries identically on the prover and verifier side, and the verifier's pairing equation holds exactly for correctly computed openings of all queries. The structured reference string holds consecutive powers of one secret in both bases, and truncating or re-reading it keeps that relation.",
  ["inputs"], "all query sets, rotations, polynomials and points", "Tests open a handful of polynomials at a handful of points.",
  [HP + "poly/kzg/", HP + "poly/query.rs", HP + "poly/commitment.rs"], [("SHPLONK", HP + "poly/kzg/multiopen/shplonk.rs"), ("GWC", HP + "poly/kzg/multiopen/gwc.rs"), ("params", HP + "poly/kzg/commitment.rs"), ("accumulators", HP + "poly/kzg/msm.rs")])
P("H09", "Inner-product openings prove exactly the claimed evaluations",
  "For every set of polynomials, points and claimed values, the inner-product multi-opening folds queries identically on both sides and the verifier's final multi-scalar check holds exactly for correct openings: each round's cross terms, challenge inverses, the folded generators and the blinding enter with the prover's powers. Accumulated and single-proof checking give the same decision.",
  ["inputs"], "all query sets, polynomials, points and round challenges", "Tests open one small polynomial.",
  [HP + "poly/ipa/", HP + "poly/query.rs"], [("IPA commitment", HP + "poly/ipa/commitment.rs"), ("multiopen", HP + "poly/ipa/multiopen.rs"), ("strategies", HP + "poly/ipa/strategy.rs")])
P("H10", "Keys, parameters and polynomials survive serialisation unchanged",
  "For every verifying key, proving key, parameter set, polynomial and selector assignment, reading what was written in the same format yields an equal object, with all counts and lengths in the same byte order on both sides. The checked formats reject non-canonical or off-curve encodings, and truncated input is an error.",
  ["inputs"], "all keys, formats and byte strings", "Tests round-trip one key per format.",
  [HP + "helpers.rs", HP + "plonk.rs", HP + "poly.rs", HP + "poly/kzg/commitment.rs", HP + "poly/ipa/commitment.rs", HP + "plonk/permutation.rs", HC + "io.rs", "~halo2_proofs::plonk::circuit::.*(read|write|Selector.*(read|write)|bytes)", "~compress_selectors::.*(read|write)"],
  [("serde helpers", HP + "helpers.rs"), ("VerifyingKey/ProvingKey read/write", HP + "plonk.rs"), ("params", HP + "poly/kzg/commitment.rs")])
P("H11", "Key generation encodes the synthesised circuit faithfully",
  "For every circuit, key generation records each fixed value, selector and copy constraint at the row where it was assigned, rejects assignments outside the usable rows, and commits to exactly those columns. Combining selectors into shared fixed columns keeps every gate active on exactly the rows where its own selector was enabled, without exceeding the degree bound.",
  ["programs"], "all circuits, selector patterns and row counts", "Tests generate keys for a few circuits and selector patterns.",
  [HP + "plonk/keygen.rs", HP + "plonk/circuit/compress_selectors.rs", HP + "plonk/permutation/keygen.rs", "~halo2_proofs::plonk::circuit::ConstraintSystem<F>>::(compress_selectors|degree|blinding|minimum)", "~halo2_proofs::plonk::(VerifyingKey|ProvingKey)<C>>::"],
  [("keygen_vk/keygen_pk", HP + "plonk/keygen.rs"), ("selector combination", HP + "plonk/circuit/compress_selectors.rs")])
P("H12", "The constraint system keeps what the circuit declared",
  "For every sequence of configuration calls, columns, selectors, challenges, queries, gates and lookups are recorded once with stable indices and phases, expression arithmetic and evaluation follow field arithmetic, and degree, blinding factors and minimum rows are the true maxima over everything declared. Gates keep the polynomial, the name and the queried cells they were created with.",
  ["programs", "histories"], "all sequences of configuration calls and expressions", "Tests configure a few fixed circuits.",
  [HP + "plonk/circuit.rs"], [("ConstraintSystem, Expression, VirtualCells", HP + "plonk/circuit.rs")])
P("H13", "Floor planning places regions without overlap and forwards every assignment",
  "For every circuit, both floor planners give each region rows that no other region uses in any shared column, and every assignment, selector, equality and constant reaches the backend exactly once at region start plus offset. Tables are filled from row zero with a uniform default, and constants are placed in the declared constant columns and constrained equal.",
  ["programs"], "all circuits and region shapes", "Tests lay out a few tiny circuits.",
  [HP + "circuit/floor_planner", HP + "circuit/layouter.rs", HP + "circuit.rs", HP + "lib.rs"], [("single pass", HP + "circuit/floor_planner/single_pass.rs"), ("v1", HP + "circuit/floor_planner/v1.rs"), ("layouter", HP + "circuit/layouter.rs"), ("Region/Table/Layouter API", HP + "circuit.rs")])
P("H14", "The mock prover reports every violated constraint and no other",
  "For every circuit and witness, the mock prover accepts exactly if all enabled gates evaluate to zero on all usable rows, every cell an enabled gate of a region queries is assigned, every lookup input on a usable row is in the table, and all copy constraints agree. Each violation is reported against its gate, row, region and column.",
  ["programs", "inputs"], "all circuits, witnesses and rows", "Its own tests cover three failures.",
  [HP + "dev.rs", HP + "dev/util.rs", HP + "dev/failure.rs", HP + "dev/failure/", HP + "dev/metadata.rs"], [("MockProver::run/verify_at_rows", HP + "dev.rs"), ("evaluation helpers", HP + "dev/util.rs")])
P("H15", "Polynomial and domain operations agree with their mathematical meaning",
  "For every polynomial and domain size, conversions between coefficient, Lagrange and extended coset form are mutually inverse, rotation shifts by the right multiple, dividing by the vanishing polynomial uses the coset values it was built for, and Lagrange basis evaluations sum the right rows. Pointwise arithmetic between polynomials acts coefficient by coefficient.",
  ["inputs"], "all polynomials, domain sizes and evaluation points", "Tests use one or two domain sizes.",
  [HP + "poly.rs", HP + "poly/domain.rs"], [("EvaluationDomain", HP + "poly/domain.rs"), ("Polynomial", HP + "poly.rs")])
P("H16", "Multi-scalar multiplication, FFT and interpolation compute their definition",
  "For every input length, thread count and chunking, the fast multi-scalar multiplication, fast Fourier transform, parallel evaluation, inner product, synthetic division and Lagrange interpolation give the same result as their direct definition. Work is split over threads so that every element is handled exactly once.",
  ["inputs", "schedules"], "all lengths, scalars, points and thread counts", "Tests use a few sizes on one machine.",
  [HP + "arithmetic.rs", HC + "arithmetic.rs"], [("best_multiexp, best_fft, ...", HP + "arithmetic.rs")])
P("H17", "Deferred fractions and optional values follow field algebra",
  "For every pair of assigned values, deferred rational arithmetic equals field arithmetic on the represented values, with a zero denominator standing for zero, and batch inversion resolves every entry. Witness values that may be absent combine componentwise and stay absent if any operand is.",
  ["inputs"], "all combinations of zero, trivial and rational operands and known or unknown values", "Property tests sample random operands for some of the operators.",
  [HP + "plonk/assigned.rs", HP + "circuit/value.rs", HP + "poly.rs"], [("Assigned", HP + "plonk/assigned.rs"), ("Value", HP + "circuit/value.rs"), ("batch_invert_assigned", HP + "poly.rs")])
P("H18", "Proof creation uses the complete witness of every phase",
  "For every circuit, proof creation collects each advice assignment at its column, row and phase, evaluates challenges only in later phases, rejects wrong instance counts, over-long instances and out-of-range rows with an error, and commits and opens every advice, instance, fixed, permutation and lookup polynomial at every rotation queried by the constraint system.",
  ["programs", "inputs"], "all circuits, phases, instances and witnesses", "Tests prove a few honest circuits and two wrong instance shapes.",
  [HP + "plonk/prover.rs", HP + "plonk/error.rs", HP + "plonk/lookup/prover.rs", HP + "plonk/permutation/prover.rs", HP + "plonk/vanishing/prover.rs"], [("create_proof, WitnessCollection", HP + "plonk/prover.rs")])
P("H19", "Cost and gate reports describe the circuit they were given",
  "For every circuit, the cost model counts the columns, rows, lookups, permutation chunks and openings the proof will contain and derives proof sizes from them, and the gate report lists every gate with its constraints and queries.",
  ["programs"], "all circuits and sizes", "No test checks the reported numbers beyond one gate listing.",
  [HP + "dev/cost.rs", HP + "dev/gates.rs"], [("CircuitCost", HP + "dev/cost.rs"), ("CircuitGates", HP + "dev/gates.rs")])

# ------------------------------------------------------------------------------------------------ curves
P("C01", "BN254 base and scalar field arithmetic is exact modular arithmetic",
  "For every pair of elements, addition, subtraction, negation, doubling, multiplication, squaring, powers, inversion and square roots in the two BN254 prime fields return the canonical representative of the mathematical result. Inverting zero and taking the root of a non-residue are reported as absent.",
  ["inputs"], "all field elements", "Random tests practically never hit carries or reductions at the boundary.",
  [HC + "bn256/fq.rs", HC + "bn256/fr.rs", "!~(_repr|from_bytes|to_bytes|raw_bytes|read_raw|write_raw|Serde|Field>::random)"], [("Fq", HC + "bn256/fq.rs"), ("Fr", HC + "bn256/fr.rs"), ("limb macros", HC + "derive/field.rs")])
P("C02", "secp256k1 base and scalar field arithmetic is exact modular arithmetic",
  "For every pair of elements, addition, subtraction, negation, doubling, multiplication, squaring, powers, inversion and square roots in the two secp256k1 prime fields return the canonical representative of the mathematical result. Inverting zero and taking the root of a non-residue are reported as absent.",
  ["inputs"], "all field elements", "Random tests practically never hit carries or reductions at the boundary.",
  [HC + "secp256k1/fp.rs", HC + "secp256k1/fq.rs", "!~(_repr|from_bytes|to_bytes|raw_bytes|read_raw|write_raw|Serde|Field>::random)"], [("Fp", HC + "secp256k1/fp.rs"), ("Fq", HC + "secp256k1/fq.rs")])
P("C03", "Field encodings are canonical and round-trip",
  "For every field element the byte encodings, including those of the quadratic extension, decode to the same element; encodings of integers not below the modulus are rejected by the checked decoders. Wide and integer conversions reduce modulo the field, and comparison orders elements by their canonical value.",
  ["inputs"], "all byte strings and field elements", "Random bytes almost never land near the modulus; unchecked and raw forms have one test each.",
  ["~<halo2curves::(bn256|secp256k1)::f[a-z0-9]+::F[a-z0-9]+.*(from_repr|to_repr|from_raw|to_raw|raw|bytes|from_u512|from_u128|from_str|From|Ord|cmp|ct_eq|lower|is_odd|random|is_lexi|lexi|conditional|PartialEq|read|write|montgomery)"],
  [("from_repr/to_repr/SerdeObject", HC + "derive/field.rs"), ("Fq2 encodings", HC + "bn256/fq2.rs")], floor=60)
P("C04", "Extension-field tower arithmetic equals polynomial arithmetic",
  "For every pair of elements of the quadratic, sextic and dodecic extensions, multiplication, squaring, sparse multiplication, inversion, conjugation and Frobenius maps equal arithmetic in the tower defined by its non-residues; cyclotomic squaring equals squaring on the cyclotomic subgroup. Inverting zero is reported as absent.",
  ["inputs"], "all extension field elements", "Random sampling does not reach sparse or zero coordinates and the exceptional cases of inversion and roots.",
  [HC + "bn256/fq2.rs", HC + "bn256/fq6.rs", HC + "bn256/fq12.rs"], [("Fq2/Fq6/Fq12", HC + "bn256/fq12.rs")])
P("C05", "Curve point arithmetic is the complete group law",
  "For every pair of points of each curve, addition, mixed addition, doubling, negation, subtraction, scalar multiplication, selection, equality and batch normalisation are correct in projective and affine form, including identity, equal and opposite operands. Results stay on the curve.",
  ["inputs"], "all pairs of points and scalars including exceptional cases", "Random points never collide, so exceptional cases are only met where a test names them.",
  [HC + "bn256/curve.rs", HC + "secp256k1/curve.rs", "!~(to_bytes|from_bytes|raw|Encoding|Serde|random|hash)"], [("new_curve_impl macros", HC + "derive/curve.rs"), ("bn256 curves", HC + "bn256/curve.rs"), ("secp256k1", HC + "secp256k1/curve.rs")])
P("C06", "Point decoding accepts exactly valid encodings of curve points",
  "For every byte string, the checked point decoders return a point only if the coordinates are canonical and the point lies on the curve (or is the identity encoding), and encoding a point and decoding it gives the same point, with the sign bit selecting the right root. Raw and coordinate constructors enforce the curve equation unless explicitly unchecked.",
  ["inputs"], "all byte strings, coordinates and points", "Tests round-trip random valid points and never malformed ones.",
  ["~<halo2curves::(bn256|secp256k1)::curve::.*(bytes|raw|from_xy|coordinates|on_curve|Encoding|read|write|torsion|cofactor|Compressed|new_jacobian|jacobian)", HC + "io.rs"], [("GroupEncoding/SerdeObject/CurveAffine impls", HC + "derive/curve.rs")], floor=60)
P("C07", "The pairing is bilinear, non-degenerate and batches correctly",
  "For every list of point pairs, the multi-pairing is the product of the individual optimal-ate pairings with identities contributing one, line functions and loop digits follow the curve parameter, and the final exponentiation raises to the full cofactor exponent. Target-group operations are those of the multiplicative group.",
  ["inputs"], "all pairs of points and list lengths", "Tests check bilinearity on one or two samples.",
  [HC + "bn256/engine.rs", HC + "bn256/fq12.rs", HC + "bn256/mod.rs"], [("multi_miller_loop, final_exponentiation, G2Prepared", HC + "bn256/engine.rs")])
P("C08", "Field and curve constants satisfy their defining equations",
  "The moduli, Montgomery constants, inverses, generators, roots of unity, two-adicity, cube roots for the endomorphisms, delta, twist and curve coefficients, generator points and Frobenius coefficients of every field and curve satisfy the algebraic relations that define them.",
  ["configurations"], "all constants of all fields and curves", "Tests check some relations of some constants.",
  ["const", "!~^(<)?(halo2_|ckb_|poseidon)"], [("constants", HC + "bn256/fr.rs"), ("curve constants", HC + "bn256/curve.rs"), ("Frobenius coefficients", HC + "bn256/fq6.rs")], floor=60)
P("Q01", "Poseidon sponge hashes exactly its absorbed elements with its parameters",
  "For every sequence of absorbed elements and squeezes, the optimised permutation equals the textbook permutation with the generated round constants and matrix, every absorbed element including partial and empty chunks affects the output through unambiguous padding, and the parameters come from the specified generator with a Cauchy matrix.",
  ["inputs", "histories"], "all absorb/squeeze histories, widths and round counts", "Tests check one cross-test vector per width.",
  ["poseidon/src/"], [("Poseidon::update/squeeze", "poseidon/src/poseidon.rs"), ("permutation", "poseidon/src/permutation.rs"), ("Spec/Grain/matrices", "poseidon/src/spec.rs")])
P("G01", "In-circuit point witnessing and addition accept only correct results",
  "For every assignment, the constraints for witnessing points hold exactly for curve points (with or without identity), and the incomplete and complete addition constraints hold exactly for the correct sum, including identity, equal and opposite operands in the complete case. The values assigned by honest synthesis satisfy them.",
  ["inputs"], "all assignments of the addition and witness regions", "The mock tests assign honest witnesses only.",
  [HG + "ecc.rs", HG + "ecc/chip.rs", HG + "ecc/chip/add.rs", HG + "ecc/chip/add_incomplete.rs", HG + "ecc/chip/witness_point.rs"], [("add/add_incomplete/witness_point gates", HG + "ecc/chip/add.rs")])
P("G02", "In-circuit variable-base scalar multiplication proves the full product",
  "For every scalar and base, the variable-base multiplication constraints decompose the shifted scalar bit by bit, tie the incomplete, complete and last-bit phases together, and rule out overflow of the base field, so the only accepted result is the true multiple.",
  ["inputs"], "all scalars, bases and assignments", "Mock tests use a few scalars and honest witnesses.",
  [HG + "ecc/chip/mul.rs", HG + "ecc/chip/mul/", HG + "utilities/lookup_range_check.rs"], [("mul gates", HG + "ecc/chip/mul.rs"), ("incomplete", HG + "ecc/chip/mul/incomplete.rs"), ("overflow", HG + "ecc/chip/mul/overflow.rs")])
P("G03", "In-circuit fixed-base scalar multiplication proves the full product",
  "For every fixed base and full-width, short signed or base-field scalar, the window constraints tie each window's scalar digit to its table point, the windows sum to the scalar, signs and canonicity are checked, and the sum of window points is the only accepted result.",
  ["inputs"], "all scalars, windows and assignments", "Mock tests use a few scalars and honest witnesses.",
  [HG + "ecc/chip/mul_fixed.rs", HG + "ecc/chip/mul_fixed/", HG + "ecc/chip/constants.rs", HG + "utilities/decompose_running_sum.rs"], [("mul_fixed", HG + "ecc/chip/mul_fixed.rs"), ("short/base_field/full_width", HG + "ecc/chip/mul_fixed/short.rs")])
P("G04", "In-circuit Poseidon equals the primitive permutation and sponge",
  "For every message, the Poseidon chip's round constraints force each full round, each pair of partial rounds and the padding addition to follow the permutation with its round constants and matrix, and the sponge absorbs, pads and squeezes exactly as the primitive hash. The primitive's parameters follow the generator specification.",
  ["inputs"], "all messages, states and assignments", "Tests hash fixed vectors and honest witnesses.",
  [HG + "poseidon"], [("Pow5Chip", HG + "poseidon/pow5.rs"), ("primitives", HG + "poseidon/primitives.rs")])
P("G05", "In-circuit Sinsemilla and Merkle hashing equal their primitives",
  "For every message and path, the Sinsemilla constraints force each piece's running sum, generator lookup and double-and-add step, and the Merkle chip decomposes and orders the layer inputs with the swap bit, so the only accepted digest is the primitive hash. Piece lengths and padding are unambiguous.",
  ["inputs"], "all messages, pieces, paths and assignments", "Mock tests use honest random messages.",
  [HG + "sinsemilla"], [("SinsemillaChip", HG + "sinsemilla/chip.rs"), ("hash_to_point", HG + "sinsemilla/chip/hash_to_point.rs"), ("MerkleChip", HG + "sinsemilla/merkle/chip.rs")])
P("G06", "Circuit utilities constrain ranges, swaps and decompositions exactly",
  "For every assignment, range checks, short range checks, running-sum decompositions and conditional swaps accept exactly the values in range and the swap selected by a boolean, and bit-range helpers select exactly the named bits. The values assigned by honest synthesis satisfy them.",
  ["inputs"], "all assignments, widths and bit ranges", "Mock tests use a few widths and honest witnesses.",
  [HG + "utilities"], [("lookup_range_check", HG + "utilities/lookup_range_check.rs"), ("decompose_running_sum", HG + "utilities/decompose_running_sum.rs"), ("cond_swap", HG + "utilities/cond_swap.rs")])

# ------------------------------------------------------------------------------------------------ supporting code
# The code each property leans on besides the files it is anchored in: a defect there breaks the property just the same.
_PLONK = [HP + "plonk"]
_ALG = [HP + "poly.rs", HP + "poly/domain.rs", HP + "arithmetic.rs", HC + "arithmetic.rs"]
_TR = [HP + "transcript"]
_OPEN = [HP + "poly/kzg/", HP + "poly/ipa/", HP + "poly/query.rs", HP + "poly/commitment.rs", HP + "poly/strategy.rs"]
_ENC = "~halo2curves::.*(bytes|repr|raw|Encoding|Serde|sqrt|ct_eq|ct_lt)"
NEAR = {
    "B02": [VM], "B03": [VM], "B04": [BASE], "B05": [BASE], "B06": [BASE], "B07": [BASE],
    "B09": [BASE, HP + "plonk.rs", HP + "plonk/verifier.rs", HP + "plonk/permutation.rs", HP + "poly/kzg/strategy.rs", HP + "poly/kzg/commitment.rs", HP + "poly/kzg/multiopen/shplonk", HP + "poly/kzg/multiopen/gwc", HP + "helpers.rs", HP + "transcript.rs"],
    "B10": [BASE, VM + "code.rs", "ckb_bf_verifier/src/", HP + "plonk.rs", HP + "plonk/permutation.rs", HP + "poly/kzg/commitment.rs", HP + "helpers.rs"],
    "H01": _ALG + _TR + _OPEN + [HP + "plonk.rs", HP + "plonk/circuit.rs", HP + "plonk/lookup.rs", HP + "plonk/permutation.rs", HP + "plonk/vanishing.rs"],
    "H02": _TR + _PLONK + _OPEN,
    "H03": ["poseidon/src/", _ENC],
    "H04": _ALG + _PLONK,
    "H05": [HP + "plonk/evaluation.rs", HP + "plonk/keygen.rs", HP + "plonk/circuit.rs", HP + "plonk/verifier.rs", HP + "plonk/prover.rs", HP + "plonk.rs"],
    "H06": [HP + "plonk/evaluation.rs", HP + "plonk/circuit.rs", HP + "plonk/verifier.rs", HP + "plonk/prover.rs"],
    "H07": [HP + "plonk/evaluation.rs", HP + "plonk/verifier.rs", HP + "plonk/prover.rs", HP + "plonk.rs"] + _ALG,
    "H08": _ALG + _TR + [HP + "poly/strategy.rs"],
    "H09": _ALG + _TR + [HP + "poly/strategy.rs", HP + "poly/commitment.rs"],
    "H10": [HP + "plonk/circuit.rs", HP + "plonk/circuit/", HP + "plonk/keygen.rs", HP + "poly/commitment.rs", _ENC, BASE + "utils.rs"],
    "H11": [HP + "plonk/circuit.rs", HP + "plonk/permutation", HP + "plonk.rs", HP + "plonk/assigned.rs", HP + "circuit", HP + "poly.rs", HP + "poly/domain.rs"],
    "H12": [HP + "plonk/circuit/", HP + "plonk/lookup.rs", HP + "plonk/permutation.rs", HP + "plonk/keygen.rs", HP + "circuit.rs"],
    "H13": [HP + "circuit", HP + "plonk/circuit.rs", HP + "plonk/keygen.rs"],
    "H14": [HP + "dev", HP + "plonk/circuit.rs", HP + "plonk/circuit/", HP + "plonk/permutation/keygen.rs", HP + "circuit", HP + "plonk/assigned.rs"],
    "H15": _ALG,
    "H16": _ALG,
    "H17": [HP + "circuit.rs"],
    "H18": _PLONK + _ALG,
    "H19": [HP + "dev", HP + "plonk/circuit.rs", HP + "circuit/layouter.rs", HP + "circuit/floor_planner"],
    "C01": [HC + "arithmetic.rs"], "C02": [HC + "arithmetic.rs"],
    "C03": [HC + "bn256/fq.rs", HC + "bn256/fr.rs", HC + "secp256k1/fp.rs", HC + "secp256k1/fq.rs", HC + "bn256/fq2.rs", HC + "arithmetic.rs"],
    "C04": [HC + "bn256/fq.rs", HC + "arithmetic.rs"],
    "C05": [HC + "arithmetic.rs", "~halo2curves::.*(Group|Curve)"],
    "C06": [HC + "bn256/curve.rs", HC + "secp256k1/curve.rs", _ENC, HC + "bn256/fq2.rs"],
    "C07": [HC + "bn256/fq2.rs", HC + "bn256/fq6.rs", HC + "bn256/curve.rs", HC + "pairing.rs"],
    "C08": [HC + "bn256/", HC + "secp256k1/"],
    "G01": [HG + "ecc", HG + "utilities"], "G02": [HG + "ecc", HG + "utilities"], "G03": [HG + "ecc", HG + "utilities"],
    "G04": [HG + "utilities"], "G05": [HG + "ecc", HG + "utilities", HG + "primitives"], "G06": [HG + "ecc/chip/mul", HG + "sinsemilla/merkle"],
}
_CIRC = ("B04", "B05", "B06", "B07", "B08", "B09", "B10", "H11", "H12", "H13", "H14", "H18", "H01", "H19", "G01", "G02", "G03", "G04", "G05", "G06")
for _p in PROPS:
    if _p["id"] in _CIRC:
        _p["rules"].append("circuit_errors_propagate")
    if _p["id"] in ("C01", "C02", "C05"):
        _p["sel"] = [s for s in _p["sel"] if not s.startswith("!")]
    _p["anchors"] = list(_p["sel"])
    _p["sel"] = _p["sel"] + [s for s in NEAR.get(_p["id"], []) if s not in _p["sel"]]
