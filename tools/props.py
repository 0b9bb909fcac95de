# ---------------- utils ----------------
P("U01", "Field operations agree with integer arithmetic modulo the field order",
  "For every prime modulus and all integers, reduced or not, negative or not, the field's addition, subtraction, negation, multiplication, squaring, scalar product, division by an invertible element, inversion and exponentiation return the canonical residue that exact integer arithmetic gives. Equality and zero tests, random elements and decimal parsing are consistent with it, and parsing something that is no number is reported instead of crashing.",
  ["inputs"], "all primes, all integer operands including unreduced and negative ones, all exponents including those at or above the modulus, all strings",
  "The tests sample four fixed values in a toy field; errors at the edges of the residue range, in unreduced operands or in large exponents need the whole operand space.",
  ["utils/finiteField.go"], [("field operations", "utils/finiteField.go: Add, Sub, Mul, Div, Inverse, Exp, ExpInt, Affine, Equal"), ("parsing", "utils/finiteField.go: StringToFieldElement")],
  "Search over eleven primes and edge-biased integers against math/big. Inverting zero, and raising it to a negative exponent, are outside the domain.")
P("U02", "Dense polynomial arithmetic is the ring of polynomials over the field",
  "For all coefficient vectors over any prime field, of any and of different lengths and with zero leading coefficients, sum, difference, product, scaling, linear combination and sum of several polynomials have exactly the coefficients polynomial algebra prescribes, all of them canonical residues.",
  ["inputs"], "all pairs and triples of coefficient vectors and all scalars", "Tests multiply a few hand-written polynomials; the ring laws quantify over all coefficient vectors.",
  ["utils/polynomialField.go"], [("dense polynomials", "utils/polynomialField.go: Mul, Add, Sub, MulScalar, LinearCombine, AddPolynomials, Transpose")],
  "Search over vectors of 1..9, rarely up to some dozens of coefficients, over six prime fields against a map-based reference polynomial. Each field keeps its caches for the whole process.")
P("U03", "Sparse polynomial arithmetic equals the same algebra on term maps",
  "For all sparse polynomials over any prime field, including empty ones and ones whose terms cancel, sum, difference, product, scaling, linear combination, weighting, dot product with a vector, transposition and conversion from and to coefficient vectors give exactly the terms polynomial algebra prescribes. No stored term has a zero or unreduced coefficient.",
  ["inputs"], "all pairs and triples of sparse polynomials, scalars, weight vectors with and without zeros",
  "Tests compare with the dense code on random data without systematic cancellation or zero weights.",
  ["utils/sparsePolynomial.go", "utils/avl.go"], [("sparse polynomials", "utils/sparsePolynomial.go: MulSparse, MulSparseScalar, AddToSparse, SubToSparse, Combine, SparseScalarProduct, TransposeSparse"), ("storage", "utils/avl.go: Put, Insert, Remove")],
  "Search over up to 14, rarely more terms with exponents up to 60, rarely up to 2^62, in six prime fields; related polynomials make terms cancel.")
P("U04", "Polynomial division recombines and leaves a remainder of smaller degree",
  "For every dividend and every non-zero divisor, dense or sparse division ends and yields a quotient and a remainder with dividend = quotient·divisor + remainder and the remainder's degree below the divisor's. A product divided by one of its factors leaves no remainder.",
  ["inputs"], "all dividends and all non-zero divisors: longer, shorter, constant, with padded leading zeros, exact multiples",
  "The tests divide one exact product; termination and the degree bound quantify over all shapes.",
  ["utils/polynomialField.go", "utils/sparsePolynomial.go"], [("dense division", "utils/polynomialField.go: Div"), ("sparse division", "utils/sparsePolynomial.go: DivideSparse")],
  "Search in six prime fields with dividends up to 12, rarely more coefficients and divisors up to 7, and sparse ones of high degree; a case that does not end within 60 s counts as a violation.")
P("U05", "Interpolation passes through its data and the domain polynomial vanishes on it",
  "For every list of values, the dense and the sparse interpolation are polynomials of degree below the number of values that take those values at 0,1,2,..., whatever was interpolated before. The single-point polynomials take their height at one point and zero at the others, and the domain polynomial is the monic product of (x-i) over the domain.",
  ["inputs", "histories"], "all value lists up to 14 points, all sequences of interpolations sharing cached bases", "The basis cache makes a result depend on earlier calls, and tests interpolate a few lists once.",
  ["utils/polynomialField.go", "utils/sparsePolynomial.go"], [("interpolation", "utils/polynomialField.go: LagrangeInterpolation, NewPolZeroAt, DomainPolynomial"), ("sparse interpolation", "utils/sparsePolynomial.go: InterpolateSparseArray")],
  "Search over up to three data sets per case in six prime fields and processes that keep their caches over thousands of cases.",
  state=[("basis cache", "Lagrange basis polynomials by index and length", "utils/finiteField.go: Fq.bases, basesClassic")])
P("U06", "The ordered tree behaves as an ordered map without zero entries",
  "After every sequence of insertions, combining updates, guarded insertions, removals and clones, the tree holds exactly the keys whose last value is non-zero, with that value; lookup, size, minimum, maximum and both iteration orders agree with it. Removing an absent key changes nothing, and a guarded insertion refuses exactly the keys present.",
  ["histories"], "all operation sequences up to 120 (rarely 1500) operations on one or two trees over dense and wide key ranges", "Rebalancing and zero-removal bugs need particular sequences of insertions and removals; the tests insert a few random keys.",
  ["utils/avl.go"], [("tree operations", "utils/avl.go: Put, Insert, InsertNoOverwriteAllowed, Remove, Get, balance, rotate_left, rotate_right"), ("iteration", "utils/avl.go: ChannelNodes, DecendingNodes")],
  "Model-based: every operation of a generated history is followed by a full comparison with a Go map.", technique="model-based property testing of operation histories (rapid)")
P("U07", "Evaluation equals the sum of the terms",
  "For every polynomial, dense or sparse, with arbitrarily high degrees, and every point including zero, evaluation returns the sum of coefficient times power of the point.",
  ["inputs"], "all polynomials with degrees up to 2^63-1 and all points", "The sparse evaluation reuses powers computed for other terms, so an error depends on the combination of degrees.",
  ["utils/finiteField.go", "utils/sparsePolynomial.go"], [("Horner", "utils/finiteField.go: EvalPoly"), ("sparse evaluation", "utils/sparsePolynomial.go: EvalSparsePoly, euclid")],
  "Search in six prime fields with up to 12, rarely more terms of degree up to 2^63-1 against modular exponentiation per term.")
P("U08", "Arithmetic leaves its operands and shared constants unchanged",
  "No field or polynomial operation changes an operand, a weight, or a shared constant of the library; a clone shares no state with its original.",
  ["inputs", "histories"], "all operands for every operation", "Aliasing shows only when an operand is used again; tests compute each value once.",
  ["utils/finiteField.go", "utils/polynomialField.go", "utils/sparsePolynomial.go", "utils/avl.go"], [("fresh results", "utils/*.go: every operation allocates its result"), ("clone", "utils/sparsePolynomial.go: Clone")],
  "Every operation of the two layers is run on generated operands which are compared with a deep copy afterwards. The in-place weighting of a sparse row is the documented exception and not included.")
# ---------------- pairing ----------------
P("P01", "G1 and G2 implement the curve groups for every history of operations",
  "For every sequence of base multiplications, scalar multiplications, additions, negations and marshalling round trips, with receivers that may be one of the operands, each element equals the point the curve's addition law prescribes; this includes infinity, equal and opposite points, and scalars that are negative or not below the group order. Operands other than the receiver keep their value, the x-coordinate accessor returns the affine coordinate, and random elements match the scalar returned with them.",
  ["histories", "inputs"], "all operation histories over a few elements, all integer scalars", "The documentation itself says equal points used to fail; the special cases of the group law and in-place receivers are not reached by the sampled tests.",
  ["pairing/curve.go", "pairing/twist.go", "pairing/bn256.go"], [("Jacobian formulas", "pairing/curve.go, pairing/twist.go: Add, Double, Mul, MakeAffine"), ("API", "pairing/bn256.go: G1, G2")],
  "Histories of up to 8 operations on 3 elements against affine arithmetic written from the curve equation, with and without normalisation in between.",
  technique="model-based property testing of operation histories (rapid) against affine curve arithmetic")
P("P02", "The pairing is bilinear, non-degenerate and the optimal ate pairing",
  "For all scalars a, b the pairing of aP and bQ equals the pairing of the generators to the power ab, however the scalars are distributed; it is additive in both arguments, compatible with negation, and is one exactly if one argument is infinity. Its values are those of the optimal ate pairing of the curve. Computing it changes no operand and no earlier value, and depends on the operands' present values only.",
  ["inputs", "histories"], "all pairs of group elements, variables changed in place and paired again", "The tests check a handful of random triples; bilinearity quantifies over the groups, and infinity and unnormalised arguments are special paths.",
  ["pairing/optate.go", "pairing/bn256.go", "pairing/gfp12.go", "pairing/gfp6.go", "pairing/gfp2.go"], [("Miller loop and final exponentiation", "pairing/optate.go: miller, finalExponentiation, optimalAte")],
  "Metamorphic relations, and a reference pairing by affine Miller loop and plain exponentiation over an independently written GF(p^12).",
  technique="metamorphic and differential property-based testing (rapid)")
P("P03", "Marshalling round-trips and only group elements are accepted",
  "Every element of the two source groups marshals to the big-endian affine coordinates, all zeros for infinity, and unmarshals to the same element. A byte string is accepted exactly if it has the right length, reduced coordinates, and denotes infinity or a point of the prime-order group, whatever the receiver held before.",
  ["inputs"], "all elements, all byte strings derived from encodings by truncation, bit flips, unreduced coordinates, swaps, and points outside the subgroup",
  "Tests round-trip a few elements and never present a malformed encoding.",
  ["pairing/bn256.go", "pairing/curve.go", "pairing/twist.go"], [("encoding", "pairing/bn256.go: Marshal, Unmarshal"), ("membership", "pairing/curve.go, pairing/twist.go: IsOnCurve")],
  "Search over mutated encodings; the oracle is the curve equation and multiplication by the group order.", technique="mutation-based property testing (rapid)")
P("P04", "The pairing product check decides exactly whether the product is one",
  "For every list of pairs of elements, including the empty list and pairs containing infinity, the product check succeeds if and only if the sum of the products of the discrete logarithms is zero modulo the group order.",
  ["inputs"], "all lists of up to five pairs", "One list is tested; false acceptance quantifies over all lists.",
  ["pairing/bn256.go"], [("product check", "pairing/bn256.go: PairingCheck")], "Search over lists with known discrete logarithms, half of them completed to a zero sum.")
P("P05", "The target group follows its group laws and its encoding round-trips",
  "For every sequence of additions, negations, scalar multiplications and encoding round trips on pairing values, with receivers that may be operands, each element is the field product, inverse or power it denotes; negative scalars are powers of the inverse. Encodings have a fixed length, and any other length is refused.",
  ["histories", "inputs"], "all histories over pairing values, all integer scalars", "The tests check a few exponentiations; aliasing and identity cases are not sampled.",
  ["pairing/gfp12.go", "pairing/gfp6.go", "pairing/gfp2.go", "pairing/bn256.go"], [("extension field", "pairing/gfp12.go, gfp6.go, gfp2.go"), ("API", "pairing/bn256.go: GT")],
  "Histories of up to 6 operations on 3 elements against an independently written GF(p^12).", technique="model-based property testing of operation histories (rapid)")
# ---------------- compiler ----------------
PR = "property-based differential testing: generated programs against a reference interpreter (rapid)"
P("C01", "Arithmetic expressions mean what mathematics says, and only that is accepted",
  "A program asserting that an expression of +, -, *, / and parentheses over inputs, constants and named values equals an output is satisfied by exactly the outputs the expression has in the field, with conventional precedence and left-to-right evaluation, division by the modular inverse. Any other output makes the constraint system unsatisfiable, and dividing by zero is never accepted.",
  ["programs", "inputs"], "all expressions over inputs and constants (also ones at or above the field order), all input values",
  "The test programs fix a dozen expressions; constant folding, normalisation and sign handling depend on the combination of subexpressions.",
  ["circuitcompiler/parser.go", "circuitcompiler/Programm.go", "circuitcompiler/factorHandling.go", "circuitcompiler/ER1CS.go"],
  [("expression tree", "circuitcompiler/parser.go: operator splitting"), ("factors", "circuitcompiler/factorHandling.go: addFactors, mulFactors, negateFactors, invertFactors"), ("gates", "circuitcompiler/Programm.go: compile")],
  "Search over expressions up to depth 4 with assignments and asserted outputs, two input vectors each. The oracle demands a witness with the right outputs, none with an output changed, and that the constraints force every wire. Unary minus is no part of the language.", technique=PR)
P("C02", "A witness is computed exactly if the constraints can be satisfied",
  "For every compiled program and every vector of integer inputs (standing for their residues), dense and sparse witness generation succeed if and only if the constraints determine a solution, and then both return the same assignment, which satisfies every constraint. For inputs that violate a constraint or divide by zero they report an error instead of returning an assignment.",
  ["programs", "inputs"], "all programs, all input vectors: valid, perturbed in one or more places, zero, arbitrary, negative or not below the field order",
  "Tests generate witnesses for valid inputs only, once per program.",
  ["circuitcompiler/ER1CS.go"], [("witness generation", "circuitcompiler/ER1CS.go: CalculateWitness, CalculateSparseWitness")],
  "Search over generated programs with four input vectors each; the oracle is an independent propagation solver on the constraints. Inputs giving 0/0 leave a wire free; either verdict is accepted there.", technique="property-based differential testing against an independent constraint solver (rapid)")
P("C03", "Equality assertions bind both sides exactly",
  "equal(a, b) is satisfied exactly when both expressions have the same value, wherever it stands: in main, in functions, in loops and branches, with numbers, sums, products, quotients or calls on either side, swapped or repeated. No assertion on an executed path is dropped, merged with another gate or weakened.",
  ["programs", "inputs"], "all placements and forms of equality assertions",
  "A dropped assertion only shows with inputs that violate it, which the tests never supply.",
  ["circuitcompiler/Programm.go", "circuitcompiler/gate.go", "circuitcompiler/ER1CS.go"], [("equality gates", "circuitcompiler/Programm.go: equal"), ("gate identity", "circuitcompiler/gate.go: ID, fuse keys")],
  "Search over programs with up to 7 asserted outputs; each is perturbed in turn and the system has to become unsatisfiable.", technique=PR)
P("C04", "Function calls have call-by-value semantics with lexical scope",
  "Calling a function yields what its body computes for the argument values in the scope of its declaration; local names shadow outer ones and leave no trace after the call, return ends the function from any nesting, and arrays may be passed and indexed. Functions given as arguments, returned or partially applied behave as closures applied to all their arguments.",
  ["programs", "inputs"], "all call structures: nested, repeated, with the same names in several scopes, higher-order, partially applied, calls inside control flow",
  "Scoping errors need the same names or functions to be used in particular nestings; the tests contain a few fixed ones.",
  ["circuitcompiler/Programm.go", "circuitcompiler/circuit.go", "circuitcompiler/parser.go"], [("call execution", "circuitcompiler/circuit.go: registration and lookup in the bloodline, flatCopy, snapshot, restore"), ("partial application", "circuitcompiler/Programm.go: getsLoadedWith, getFunctionInputs, setFunctionInputs")],
  "Two generators: first-order programs with shadowing and control flow, and higher-order programs of up to four functions; outputs against a reference interpreter with closures.", technique=PR)
P("C05", "Loops and branches on static conditions execute as written",
  "For loops run as often as their condition holds with the given update, including nested loops and not at all; of an if / else-if / else chain exactly the first branch whose condition holds is executed. Assignments in them are visible afterwards as the block structure says, and array elements selected by computed indices are the right ones.",
  ["programs", "inputs"], "all nestings of loops, branch chains, array accesses and assignments with static conditions", "Tests use one or two fixed nestings.",
  ["circuitcompiler/circuit.go", "circuitcompiler/parser.go", "circuitcompiler/Programm.go"], [("control flow", "circuitcompiler/circuit.go: checkStaticCondition; circuitcompiler/Programm.go: compile, splitAtIfEnd"), ("arrays", "circuitcompiler/Programm.go: resolveArrayName")],
  "Search over programs of up to 8 statements per block, static values up to several machine words; outputs against a reference interpreter. Loops that count below zero are outside the domain.", technique=PR)
P("C07", "The inputs determine the whole trace",
  "For valid inputs there is exactly one assignment of all wires that satisfies the compiled constraints: the generated witness. Changing any set of inner wires violates some constraint.",
  ["programs", "inputs"], "all programs and valid inputs, all changes of inner wires", "An under-constrained wire is invisible to honest witnesses, the only ones the tests use.",
  ["circuitcompiler/Programm.go", "circuitcompiler/ER1CS.go"], [("constraint generation", "circuitcompiler/Programm.go: compile"), ("constraint rows", "circuitcompiler/Programm.go: GatesToR1CS, GatesToSparseR1CS")],
  "Every wire of a generated program is shown to be forced by propagation of the constraints from the inputs; in addition up to six tampered traces per program.", technique="property-based testing: unique solvability by propagation, and tampered traces (rapid)")
P("C08", "Inputs and public signals appear as declared and in the declared order",
  "The arguments of main, arrays flattened row by row, are the program's inputs in the order declared. The witness starts with 1, then the declared public inputs in the order of their declaration, then the remaining inputs, and the public count covers exactly the first two.",
  ["programs", "inputs"], "all parameter lists with up to three array dimensions and all selections and orders of public inputs", "A permutation of signals goes unnoticed where a test uses the same layout for proving and verifying.",
  ["circuitcompiler/Programm.go", "circuitcompiler/ER1CS.go", "circuitcompiler/parser.go"], [("input rearrangement", "circuitcompiler/Programm.go: GetMainCircuit, PublicInputs, checkPublicInputs"), ("witness layout", "circuitcompiler/Programm.go: GatesToR1CS, GatesToSparseR1CS")],
  "Search over signatures and public declarations, with index expressions; the expected layout is computed from the declaration.", technique="property-based testing against the declared layout (rapid)")
P("C09", "Compilation and witness generation are repeatable",
  "Compiling the same source again, also after other programs were compiled or failed to compile in the same process, gives the identical constraint system, and the witness for the same inputs is the same whenever and however often it is computed. Inputs, which may be any integers, are not changed.",
  ["histories", "programs"], "all sequences of compilations and witness generations of a program interleaved with another one", "Map iteration and shared state show only over repeated runs; setup and proof must agree on the system.",
  ["circuitcompiler/Programm.go", "circuitcompiler/ER1CS.go", "circuitcompiler/factorHandling.go"], [("ordering", "circuitcompiler/Programm.go: Execute, GatesToR1CS"), ("global state", "circuitcompiler/*.go, utils/finiteField.go: shared caches")],
  "Histories of up to 7 steps; the complete constraint matrices are compared.", technique="property-based testing of histories (rapid)")
P("C10", "Equal subexpressions are computed once",
  "Multiplications, divisions, base multiplications and added gates whose operands are equal linear forms share one constraint, regardless of how the forms are written, in which order operands come, by which positive factor they are scaled, and through which functions they are computed. The number of constraints is the number of distinct operations plus the number of assertions, and no constraint occurs twice.",
  ["programs"], "all ways to write, scale, order and name the same operands", "The advertised gate reuse depends on hashing of normalised factors; the tests count gates of a few programs.",
  ["circuitcompiler/factorHandling.go", "circuitcompiler/gate.go", "circuitcompiler/Programm.go"], [("normalisation", "circuitcompiler/factorHandling.go: extractGCD, hashing"), ("gate identity", "circuitcompiler/gate.go")],
  "Search over sets of up to 9 operations rendered in different ways; the expected count comes from normal forms computed by the generator.", technique="property-based testing against a reference gate count (rapid)")
P("C11", "Layout, names and imports do not change the program",
  "Adding or removing comments, spaces, tabs, blank lines and redundant parentheses, leading zeros of numbers, renaming variables, functions and parameters consistently, or moving declarations or statements into imported files, however nested, leaves the compiled constraint system and the witness unchanged.",
  ["programs", "inputs"], "all formattings of all programs", "Each test program has one formatting; lexer states are reached by particular adjacent tokens.",
  ["circuitcompiler/lexer.go", "circuitcompiler/parser.go"], [("tokens", "circuitcompiler/lexer.go: states"), ("parser", "circuitcompiler/parser.go: splitting at separators")],
  "Metamorphic: generated programs are rendered in different styles and compiled; systems are compared.", technique="metamorphic property-based testing (rapid)")
P("C12", "Malformed programs are rejected, not compiled into something else",
  "A program that uses undeclared names, the wrong number of arguments, out-of-range or non-static indices, non-static conditions, unbalanced brackets, duplicate or malformed declarations, a division by constant zero or an unknown public input is rejected with an error. In code that is never executed, errors of syntax, declarations and undeclared variables are found as well. Compilation of any text ends, with a result or an error.",
  ["programs", "inputs"], "all programs with one of the listed faults placed anywhere, and all texts", "The tests hold valid programs only; a fault silently accepted changes what is proven.",
  ["circuitcompiler/parser.go", "circuitcompiler/Programm.go", "circuitcompiler/circuit.go", "circuitcompiler/lexer.go"], [("syntax checks", "circuitcompiler/parser.go"), ("resolution", "circuitcompiler/circuit.go, circuitcompiler/Programm.go")],
  "A catalogue of faults is injected into generated programs, each compiled in its own process; a second generator mutates texts and only demands that compilation ends.", technique="fault-injecting property-based testing and mutation fuzzing, one process per case")
P("C13", "The lexer splits every text as the language defines and always ends",
  "For every text, tokenising ends and yields exactly the tokens the language defines, with kinds and contents, in order and without loss or invention; a text with characters or strings the language does not know is reported as an error. Both ways of running the lexer agree.",
  ["inputs"], "all texts including invalid UTF-8, unterminated strings, comments at the end", "One source is tokenised in the tests; a lexer has to be total.",
  ["circuitcompiler/lexer.go", "circuitcompiler/rune_stack.go"], [("state functions", "circuitcompiler/lexer.go"), ("rewinding", "circuitcompiler/rune_stack.go")],
  "Search over token sequences and arbitrary texts against an independently written tokeniser.", technique="differential property-based testing against a reference lexer (rapid)")
P("C14", "SPLIT yields the binary digits of the value and nothing else satisfies it",
  "After a value is split, its 254 named bits are 0 or 1, their weighted sum is the value in the field, and they may be used like any variable. Digits that are not bits, or bits of another number, violate the constraints.",
  ["programs", "inputs"], "all split values and all wrong decompositions that do not represent the value modulo the field order", "The test splits a few small values and never presents wrong bits.",
  ["circuitcompiler/Programm.go", "circuitcompiler/ER1CS.go"], [("splitting", "circuitcompiler/Programm.go: SPLIT"), ("bit computation", "circuitcompiler/ER1CS.go: CalculateWitness, zero-or-one gates")],
  "Programs using bits against the interpreter, and six kinds of wrong digits. A second representation above the field order (value + order below 2^254) is outside the property.", technique="property-based testing with tampered decompositions (rapid)")
P("C17", "Witness generation solves every system that can be solved row by row",
  "For every constraint system, compiled or written by hand, whose rows in order leave at most one wire open each, at any side and with any coefficients, dense and sparse witness generation return the one assignment that satisfies all rows. If a row contradicts what is known, leaves two wires or an exponent open, or multiplies the open wire by zero, they report an error. The system and the inputs are not changed.",
  ["inputs", "programs"], "all systems over the field including exponents, all inputs", "The tests only see the rows which the compiler makes for a few programs; the unknown is nearly always the output.",
  ["circuitcompiler/ER1CS.go"], [("dense", "circuitcompiler/ER1CS.go: CalculateWitness"), ("sparse", "circuitcompiler/ER1CS.go: CalculateSparseWitness")],
  "The rows of a compiled program are replaced by random ones of known solvability; the witness is compared with an independent solver.", technique="differential property-based testing of random constraint systems (rapid)")
P("D01", "The polynomial form represents exactly the constraint system",
  "The dense and the sparse systems hold the same constraints; transposing gives the columns, and the polynomials interpolated from a column have degree below the number of constraints and take the column's values on the domain. The combined polynomial of a trace is L·R + g(E) - O of that trace in both representations, and is divisible by the domain polynomial exactly if the trace satisfies every constraint.",
  ["programs", "inputs"], "all systems including ones with fewer and with more constraints than wires, satisfying and violating traces", "The tests check the divisibility for honest traces of few programs.",
  ["circuitcompiler/ER1CS.go", "zkSNARK/wol19.go"], [("transposition", "circuitcompiler/ER1CS.go: Transpose, TransposeSparse"), ("interpolation", "circuitcompiler/ER1CS.go: ER1CSToEAP, ER1CSToEAPSparse"), ("combination", "zkSNARK/wol19.go: CombinePolynomials2, CombineSparsePolynomials")],
  "Search over generated programs; interpolation is judged by Lagrange evaluation at random points, the combination by evaluation and reference division. Programs with SPLIT are left out for cost.", technique="differential property-based testing against Lagrange evaluation and polynomial division (rapid)")
P("E01", "Base multiplication in a program computes the curve's x-coordinate",
  "scalarBaseMultiply(e) has the value of the affine x-coordinate of the generator multiplied by the value of e, for every linear form e, wherever it is used and however often; the assertion holds for that value and no other.",
  ["programs", "inputs"], "all forms of the exponent, all input values, with nested and repeated use", "The tests use one program with one input.",
  ["circuitcompiler/Programm.go", "circuitcompiler/ER1CS.go", "pairing/curve.go"], [("extension gate", "circuitcompiler/Programm.go: scalarBaseMultiply"), ("evaluation", "circuitcompiler/ER1CS.go: CalculateWitness; pairing/curve.go: x-coordinate")],
  "Search over programs dominated by base multiplications against affine curve arithmetic.", technique=PR)
P("C15", "Randomised systems add one fresh random constraint and change nothing else",
  "Compiled with randomisation, a system has exactly one more constraint, r·r + X(g^r) = s over two wires of its own, and otherwise the same constraints, inputs, public signals and wires as without. Every witness, dense or sparse, draws a fresh unpredictable r, satisfies all constraints and gives every other wire the value it has without randomisation; inputs are refused exactly as without it. Later compilations without randomisation are not affected.",
  ["programs", "inputs", "histories"], "all programs with and without extension gates, all inputs, repeated witnesses", "The randomiser is what hides the trace; tests that only check satisfaction do not notice a constant or reused r, or a randomiser that displaces another wire.",
  ["circuitcompiler/Programm.go", "circuitcompiler/ER1CS.go"], [("randomising constraint", "circuitcompiler/Programm.go: GatesToR1CS, GatesToSparseR1CS, with randomize"), ("random value", "circuitcompiler/ER1CS.go: CalculateWitness, CalculateSparseWitness")],
  "Search over programs compiled with and without randomisation; two to three witnesses of each representation are compared with the plain one and each other.", technique="differential property-based testing of randomised against plain systems (rapid)")
P("C16", "Inputs are matched by name, and incomplete or foreign inputs are never misread",
  "The inputs of a witness are matched by name: given in any order, or repeated with the same value, they yield the same witness. A name the program does not have, a contradicting second value, another value for the constant one, or a number of values different from the number of names is refused. If inputs are left out, witness generation reports an error or returns an assignment that starts with 1, holds the inputs given and satisfies every constraint.",
  ["programs", "inputs"], "all lists of named inputs: permuted, repeated, contradicting, incomplete, with unknown names", "The tests always hand over the complete list in the order of declaration, so a positional or default interpretation of inputs goes unnoticed.",
  ["circuitcompiler/ER1CS.go", "circuitcompiler/Programm.go"], [("input assignment", "circuitcompiler/ER1CS.go: CalculateWitness, CalculateSparseWitness, setInputs"), ("combination", "circuitcompiler/Programm.go: CombineInputs")],
  "Search over programs with up to six altered input lists each, dense and sparse. Contradictions are judged on residues.", technique="property-based testing with altered input lists (rapid)")
# ---------------- SNARK ----------------
P("S01", "Every satisfying assignment of a program can be proven and verifies",
  "For every program of multiplication constraints, any number of public wires, and every satisfying assignment, dense and sparse provers produce a proof which the verifier accepts with the public signals alone, repeatedly, for any number of proofs from one setup. The same holds for programs with base multiplications whenever the combined exponent is the same at every constraint.",
  ["programs", "inputs", "histories"], "all programs, with extension gates where their exponents agree, all satisfying inputs, any selection of public inputs", "The tests prove a handful of programs with one input each.",
  ["zkSNARK/wol19.go", "circuitcompiler/ER1CS.go", "pairing/bn256.go"], [("setup", "zkSNARK/wol19.go: GenerateTrustedSetup, GenerateTrustedSetupSparse"), ("proving", "zkSNARK/wol19.go: GenerateProofs, GenerateProof_Sparse"), ("verification", "zkSNARK/wol19.go: VerifyProof")],
  "End-to-end over generated programs of up to 45 constraints in both representations. Programs in which everything is public, or without constraints, cannot be set up.", technique="end-to-end property-based testing of generated programs (rapid)")
P("S02", "A proof is bound to its public signals and to its setup",
  "A proof is accepted only with the public signals it was made for: altered, exchanged, scaled, missing or additional signals are refused, so is any value but 1 for the constant, and so are the signals of another proof, and a proof made under another setup.",
  ["programs", "inputs"], "all programs with public inputs and all changes of the signals that some constraint depends on", "The tests verify with the right signals only.",
  ["zkSNARK/wol19.go"], [("public input commitment", "zkSNARK/wol19.go: VerifyProof, RLEO_Gamma")],
  "Search over programs, changes and setups. Signals equal modulo the group order count as the same.", technique="property-based testing with tampered public signals (rapid)")
P("S03", "An altered proof is rejected",
  "Changing any element of a valid proof, by adding to it, scaling, negating, replacing it by infinity, by another group element or by the element of another proof, makes verification fail, and so does every mixture of the elements of two proofs of different assignments. Verification alters neither proof nor key.",
  ["programs", "inputs"], "all valid proofs and all changes of a single element", "The tests never alter a proof.",
  ["zkSNARK/wol19.go", "pairing/bn256.go"], [("verification equations", "zkSNARK/wol19.go: VerifyProof")],
  "Search over programs, six kinds of changes of each of the four elements, and all mixtures of two proofs.", technique="property-based testing with altered proofs (rapid)")
P("S04", "No proof of an assignment that violates a constraint is accepted",
  "An assignment of the wires can be turned into an accepted proof by the library's provers exactly if it satisfies every constraint of the program and holds 1 in the place of the constant; for any other assignment proving fails or the verifier rejects the result, and it also rejects what a prover of one's own, who combines the elements of the proving key, ignores the division remainder or adds an element F the program has no use for, makes of it.",
  ["programs", "inputs"], "all programs, all assignments at any distance from a satisfying one, in either representation", "Soundness is only visible with dishonest assignments, which the tests do not try.",
  ["zkSNARK/wol19.go", "utils/polynomialField.go", "utils/sparsePolynomial.go"], [("divisibility check", "zkSNARK/wol19.go: GenerateProofs, GenerateProof_Sparse"), ("verification equations", "zkSNARK/wol19.go: VerifyProof")],
  "Search over programs and up to five tampered assignments each. A dishonest prover written on the exported key elements forges up to four more.", technique="property-based testing with tampered assignments (rapid)")
P("S05", "The keys encode exactly the program's polynomials under fresh secrets",
  "A setup's proving and verification elements are the powers of one secret point, the domain polynomial and the column polynomials of exactly the program's constraints at that point, public and private wires separated and bound by different secrets. All secrets are non-trivial, differ from each other and from those of every other setup, and are drawn from the system's randomness: neither processes nor setups share them.",
  ["programs", "configurations"], "all programs, with extension gates and randomised wires too, dense and sparse setups", "A wrong or weak key still accepts honest proofs, which is all the tests can see.",
  ["zkSNARK/wol19.go"], [("trusted setup", "zkSNARK/wol19.go: GenerateTrustedSetup, GenerateTrustedSetupSparse, generateRandom")],
  "Pairing equations between key elements and commitments of reference polynomials, wires weighted by powers of a random number.", technique="property-based testing with pairing equations as oracle (rapid)")
P("S06", "Verification depends on nothing but the values of key, proof and signals",
  "In every history of verifications the verdict is the one that key, proof and public signals have by their present values: whatever was verified before, with whichever key, in whichever variables, in whichever representation of the group elements (also marshalled and unmarshalled), with signals reduced or not, with debug output or without. Verification changes none of its arguments.",
  ["histories", "programs"], "all sequences of verifications of proofs, altered proofs and signals under two keys, in variables changed in place", "Precomputed or cached parts of the verification, and operations working in place, make a verdict depend on the past; the tests verify each proof once.",
  ["zkSNARK/wol19.go", "pairing/bn256.go"], [("verification", "zkSNARK/wol19.go: VerifyProof"), ("group operations", "pairing/bn256.go: Pair, Add, ScalarMult")],
  "Histories of up to 20 steps over two keys (of one or of two programs) and up to four honest proofs; the model knows the proofs and signals that belong together.", technique="model-based property testing of verification histories (rapid)")
# ---------------- concurrency ----------------
P("T01", "Independent computations may run at the same time",
  "Computations in goroutines of their own, in whatever order their steps interleave, give the results they give one after another, without data races: lexing, compiling, witness generation, polynomial, field and group arithmetic, pairings, setup, proving and verification on objects of their own; witness generation, transposition and interpolation of one compiled system by several users; proving and verifying with one pair of keys by several users, each with witnesses and proofs of its own.",
  ["schedules", "programs", "inputs"], "all schedules of two to six computations of any kind, with any programs and inputs", "The tests run one computation after another; shared caches, scratch values and constants changed in place only show when two computations meet.",
  ["utils/polynomialField.go", "utils/sparsePolynomial.go", "circuitcompiler/parser.go", "pairing/bn256.go", "zkSNARK/wol19.go"], [("caches of the fields", "utils/polynomialField.go: LagrangeInterpolation; utils/sparsePolynomial.go: InterpolateSparseArray"), ("package-level variables", "circuitcompiler/lexer.go, circuitcompiler/factorHandling.go, pairing/constants.go"), ("use of keys", "zkSNARK/wol19.go: GenerateProofs, GenerateProof_Sparse, VerifyProof")],
  "Search over groups of cases of the other properties, run together under the race detector, each judged by its own oracle. The schedules are those of the Go runtime; a race is detected by the order of accesses, without the collision having to happen. Points and proofs are not shared: marshalling normalises them in place.", technique="property-based testing of concurrent computations under the race detector (rapid, go build -race)")
