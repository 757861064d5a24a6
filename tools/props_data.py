NOTES = 'All checks share one front end (driver/, THIR of the current tree) and one analyser (sa/); see DESIGN.md.'
TSUM = 'abstract interpretation of typed IR (THIR) with closed-form loop summaries; summary compared with specification'
NSUM = ('Holds for the summary derived from the current source for every size; equality with the specification is decided by normal form/induction where the '
        'evidence says so, otherwise by folding the summary at ground sizes. Trusts rustc front end, the extractor, the analyser and its std/num-bigint models.')
TWORD = 'abstract interpretation of typed IR (THIR) with closed-form loop summaries and word-level (carry/shift/fold) abstraction proved for every width'
NWORD = ('The summary derived from the current source is valid for every width; equality with the word-level specification is proved for every width by word-level '
         'abstraction and case split (hypotheses in DESIGN.md), and the summary is also folded at ground sizes, which alone can refute. The evidence says which applied. '
         'Trusts rustc front end, the extractor, the analyser and its std/num-bigint models.')
NNET = 'The texts are those of the literals in the type-checked program. The matching specifications (ripple adder, restoring and non-restoring division, FIPS-197) are in sa/netlist.py; that they are division and so on is argued in DESIGN.md.'
NEFF = 'Effects are taken from the typed IR of every reachable function, unresolved trait calls going to every implementation in the crate. Trusts rustc front end, extractor, analyser and its list of effectful std operations.'
NINV = ('Inductive invariant checked on every path of the function bodies extracted from the current source (assume-guarantee for recursion). Trusts rustc front end, extractor, analyser and its std models. '
        'Constructs outside the analyser are reported as undecided in the evidence, not as held.')
TINV = 'abstract interpretation of typed IR: per-path effect summaries against an inductive invariant'

prop('C01', 'Evaluation computes the boolean function of every gate',
     'For every circuit built through the public operations (sub-circuits called with as many operands as they have inputs) and every input assignment of the right length, evaluating the circuit yields, for each output in order, the value obtained by giving inputs their assigned bits (in input order) and applying each gate its boolean function (constant, negation, exclusive or, conjunction, disjunction).',
     ['inputs', 'programs'], 'all circuits, all input assignments', 'The tests evaluate a dozen fixed small circuits; sharing, reconvergence, repeated operands and output aliasing vary without bound.',
     [EV], [('gate evaluation with memo map', EV + ' eval_single_gate'), ('output loop', EV + ' eval_output')],
     [('evaled_map', 'values known so far, keyed by gate', EV), ('num_depend_map', 'remaining uses of each value', EV)], ['BoolEvaluator::eval_output'],
     TINV, 'other', NINV)
prop('C02', 'Module calls evaluate the called circuit on the given operands',
     'Evaluating a gate that stands for output i of a called sub-circuit yields output i of that sub-circuit evaluated on the operand values in the order they were given, at any nesting depth and for any number of calls of the same sub-circuit.',
     ['inputs', 'programs'], 'all module nestings, operand lists and output indices', 'One test calls one two-input one-output module.',
     [EV, BC], [('module arm of gate evaluation', EV), ('one gate per output with its index', BC + ' module')], (), ['BoolEvaluator::eval_output'], TINV, 'other', NINV)
prop('C03', 'Evaluation of a well-formed circuit never fails',
     'Evaluating any circuit built through the public operations (sub-circuits called with as many operands as they have inputs) with an assignment of the right length returns a result: no intermediate value is discarded while another gate or an output still needs it, no counter underflows and no lookup fails, whatever gates are shared, repeated as operands, or also used as outputs.',
     ['inputs', 'programs'], 'all circuits and output orders', 'Values are freed by reference counting; failures need particular sharing patterns that the fixed tests do not contain.',
     [EV], [('use counting and freeing', EV + ' eval_single_gate')], [('num_depend_map', 'uses left', EV)], ['BoolEvaluator::eval_output'], TINV, 'other', NINV)
prop('C04', 'Circuit operations add exactly the gate they name',
     'Each construction operation (input, constant, not, xor, and, or, equivalence, identity, module call) returns a gate whose recorded kind and operands, in order, denote that operation on the given gates; equivalence and identity denote negated exclusive or and the operand itself.',
     ['inputs', 'histories'], 'all operand choices after any construction history', 'Tests read back a few gates of tiny circuits.',
     [BC], [('gate constructors', BC + ' impl BoolCircuit for NXAOBoolCircuit')], [('gate_map', 'gate of each id', BC)], ['get_gate'], TINV, 'other', NINV)
prop('C05', 'Construction is append-only with fresh ids and ordered wires',
     'Every construction operation returns an id not handed out before and leaves all earlier gates, inputs and outputs as they were; the k-th input and k-th output get wire k and are found again under it, and asking for an unknown gate, input, output or module, or making an unknown gate an output, is an error that changes nothing.',
     ['histories', 'inputs'], 'all sequences of construction operations', 'Tests build short fixed sequences and never query unknown ids.',
     [BC], [('id counter', BC + ' add_gate'), ('wire numbering', BC + ' input/output')], [('gate_index', 'next id', BC)], ['input_to_gate_id', 'output_to_gate_id', 'get_gate'], TINV, 'other', NINV)
prop('C06', 'Dependents and size counters match the circuit',
     'After any construction history the dependents reported for a gate list every gate using it once per use, and the reported numbers of inputs, outputs, gates, constants and wires equal those of the circuit with every module call expanded.',
     ['histories'], 'all construction histories, including repeated operands and nested modules', 'Tests check the input and output counts of single-gate circuits.',
     [BC], [('dependence lists', BC + ' add_dependence'), ('counters', BC + ' module')], [('gate_dependence_map', 'users of each gate', BC), ('num_wire', 'wires', BC)], ['get_depended_gates', 'num_wire', 'num_gate', 'num_const'], TINV, 'other', NINV)
prop('C07', 'A shared circuit handle behaves like the circuit itself',
     'Every operation on a shared circuit handle has the effect and result of the same operation on the circuit it refers to, with the same arguments in the same order; all clones of a handle see each other\'s changes.',
     ['histories', 'inputs'], 'all operations and handle clones', 'Tests use few operations through handles and never compare with the direct circuit.',
     [BC], [('forwarding methods', BC + ' impl BoolCircuitRef'), ('aliasing clone', BC + ' BoolCircuitRef::clone')], (), ['BoolCircuitRef'], 'symbolic effect summary of each forwarding method compared with the trait operation it forwards to', 'other', NINV)
prop('C08', 'Module storage hands out fresh ids and returns what was registered',
     'Registering a circuit returns an id distinct from all earlier ones in that storage, looking an id up returns the circuit registered under it (the same shared circuit, not a copy), unknown ids are an error, and circuits created from one another share one storage.',
     ['histories'], 'all registration/lookup histories', 'Tests register at most one or two modules.',
     [BC], [('module table', BC + ' ModuleStorage')], [('module_map', 'circuit of each module id', BC)], ['register_module', 'get_module', 'sub_circuit'], TINV, 'other', NINV)
prop('C09', 'Reading malformed Bristol text is an error, never a crash',
     'For every byte sequence given to the Bristol reader, reading terminates with success or an error value; it never panics through an index, an arithmetic overflow or an unwrapped failure.',
     ['inputs'], 'all texts', 'Tests read only files the library wrote itself or the bundled ones.',
     [BR], [('checked parsing', BR + ' BristolReader::read')], (), ['BristolReader::read'], 'panic-obligation analysis over all paths of the reader', 'other', NINV)
prop('C10', 'The Bristol reader builds the circuit the file describes',
     'For every well-formed Bristol file the reader adds one input per declared input bit (wire order), one gate per gate line with the operation and operand wires the line names, and makes exactly the last declared-output-count wires the outputs, in wire order; reading with a used reader gives the same result as with a fresh one.',
     ['inputs', 'histories'], 'all well-formed files', 'Tests compare five one-gate files and use the bundled netlists with symmetric inputs.',
     [BR], [('line interpretation', BR + ' BristolReader::read')], [('gate_of_wire', 'gate of each wire read so far', BR)], ['BristolReader::read'], TINV, 'other', NINV)
prop('C11', 'Errors from I/O, parsing and circuit operations always reach the caller',
     'Whenever the underlying reader or writer, number parsing, or a circuit operation reports an error during reading, writing, evaluating or building, the public call returns an error (an operator or constructor whose type cannot carry one panics) and never reports success; in particular a write that returned success has handed every byte to the sink, and a text that cannot be read to its end is not taken for a complete one.',
     ['inputs', 'fault_sequences'], 'every fallible call site', 'No test injects a failing reader or writer.',
     [BR, EV, INT, LOG, FF], [('error propagation operators', 'all of src')], (), ['Result values'], 'error-flow (discarded-Result) analysis over all call sites of the typed IR', 'other', NINV)
prop('C12', 'Every gate line the Bristol writer emits is right',
     'In the text written for any circuit (modules expanded), each gate line names an operation and input wires such that, with every earlier wire holding the value of its gate, the line\'s fresh output wire holds the value of the gate it stands for; operands are always defined before use, and every gate is written at most once per module instance.',
     ['programs', 'inputs'], 'all circuits, all values', 'Tests round-trip five one-gate circuits.',
     [BR], [('recursive gate writing', BR + ' write_single_gate')], [('wire_of_gate', 'wire of each gate written so far', BR)], ['BristolNXAOWriter::write'], TINV, 'other', NINV)
prop('C13', 'The written Bristol file is self-consistent',
     'In the written file the header states exactly the number of gate lines and wires that follow, input wires come first in input order followed by one wire per constant whose values are returned in wire order, and the last wires are the outputs in output order; writing leaves the writer on the same circuit and a second write gives the same file.',
     ['programs'], 'all circuits, including outputs that are inputs, constants, repeated or not last', 'Tests only use circuits whose single output is the last gate.',
     [BR], [('header and output placement', BR + ' write')], [('num_wire', 'next wire', BR), ('last_const_wire', 'next constant wire', BR)], ['BristolNXAOWriter::write'], TINV, 'other', NINV)
prop('C14', 'Writer, reader and gate metadata agree on names and arities',
     'Each gate kind reports the number of its operands and outputs and a name; the names the writer emits are exactly those the reader maps back to the same boolean operation with the same operand count.',
     ['programs'], 'all gate kinds', 'Tests check the agreement only through equality of tiny circuits.',
     [GA, BR], [('names and arities', GA), ('operation table', BR)], (), ['Gate::to_str', 'Gate::input_len', 'Gate::output_len'], 'constant propagation through metadata functions and the reader\'s dispatch', 'other', NINV)
prop('C15', 'Bit-vector circuits compute the bitwise operations at every width',
     'For every width N and all operands, the circuits built for not, and, or, xor, equality, inequality and selection on N-bit vectors compute those operations bit by bit, also through the assigning operators and on results of other operations; a vector built from fewer gates is zero-extended and outputs appear in bit order.',
     ['inputs', 'configurations'], 'all widths, all operands', 'Tests sample random operands at one or two widths.',
     [LOG], [('module builders', LOG)], (), ['AllocBits'], TWORD, 'other', NWORD)
prop('C16', 'Integer circuits add, subtract, negate and multiply modulo 2^N',
     'For every width N and all operands, the circuits built for +, -, unary - and * on N-bit integers (and their assigning forms) compute the result modulo 2^N, and the extended multiplier computes the full 2N-bit product.',
     ['inputs', 'configurations'], 'all widths, all operands', 'Tests sample random operands at few widths; carry chains make wrong bits rare.',
     [INT], [('ripple adder, shift-and-add multiplier', INT)], (), ['AllocInt'], TWORD, 'other', NWORD)
prop('C17', 'Integer comparisons decide the order of signed integers',
     'For every width N and all operands whose difference is representable in N-bit two\'s complement, the comparison circuits for <, <=, >, >= yield the order of the signed values, and equality/inequality are exact for all operands.',
     ['inputs', 'configurations'], 'all widths, all operands', 'Tests sample a few operand pairs; boundary pairs (equal, adjacent, sign change) are rare.',
     [INT], [('sign of the difference', INT)], (), ['AllocInt::less', 'AllocInt::eq'], TWORD, 'other', NWORD)
prop('C18', 'Integer encoding, shifting and output preserve the value',
     'For every width N, an integer made from a constant below 2^N, from at most N gates, or from fresh inputs denotes that little-endian value zero-extended to N bits; shifting left by s <= N multiplies by 2^s modulo 2^N, shifting right is the arithmetic shift, and outputs appear in bit order.',
     ['inputs', 'configurations'], 'all widths, values and shift amounts', 'Tests use a handful of values and shifts.',
     [INT], [('constructors and shifts', INT)], (), ['AllocInt::from_biguint', 'AllocInt::shift_left', 'AllocInt::shift_right'], TWORD, 'other', NWORD)
prop('C19', 'Prime-field circuits add, subtract and negate modulo p',
     'For every odd modulus p with enough headroom in N bits and all operands below p, the field circuits for +, -, unary -, equality, zero and one yield the reduced result modulo p.',
     ['inputs', 'configurations'], 'all moduli, widths and reduced operands', 'Tests use one modulus with random operands; sums equal to p or zero operands are rare.',
     [FF], [('conditional correction', FF + ' build_add_circuit')], (), ['AllocFp'], TWORD, 'other', NWORD)
prop('C20', 'Prime-field multiplication is Montgomery-correct',
     'For every odd p < R = 2^r with enough headroom, the reduction circuit maps v < p*R to v*R^-1 mod p, the field product is the reduction of (the reduction of a*b) times the stored constant, and the stored constants are -p^-1 mod R and R^2 mod p.',
     ['inputs', 'configurations'], 'all moduli, exponents, widths and operands', 'The test multiplies random operands under one modulus.',
     [FF, UT], [('Montgomery reduction', FF + ' build_mont_red'), ('modular inverse', FF + ' mod_inv')], (), ['AllocFp', 'AllocFpConfig'], TWORD, 'other', NWORD)
prop('C21', 'Bit, byte and hex conversions are exact and inverse',
     'For every byte sequence and both bit orders, the bits produced are the bits of each byte in that order; for every bit sequence of any length the bytes produced have those bits, an incomplete last group being completed with zeros; so bytes to bits to bytes is the identity. Decoding the hex text of any bytes gives those bytes back; text that is not an even number of hexadecimal digits is an error.',
     ['inputs'], 'all sequences of all lengths', 'Tests convert four random bytes; lengths that are not a multiple of eight never occur.',
     [UT], [('bit packing', UT + ' bits2bytes_le, bits2bytes_be'), ('bit unpacking', UT + ' bytes2bits_le, bytes2bits_be')], (), ['bits2bytes_le', 'bits2bytes_be', 'bytes2bits_le', 'bytes2bits_be', 'bytes2hex', 'hex2bytes'],
     TSUM, 'other', NSUM)
prop('C22', 'The extended Euclidean algorithm satisfies its identity',
     'For all integers a and b, of either sign and zero, ext_gcd(a, b) returns (x, y, d) with a*x + b*y = d where d is the greatest common divisor of a and b up to sign.',
     ['inputs'], 'all pairs of integers', 'The test uses one pair.',
     [UT], [('recursion', UT + ' ext_gcd')], (), ['ext_gcd'], 'abstract interpretation of typed IR: one unfolding with the recursive call replaced by its contract, polynomial identity', 'other', NSUM)
prop('C23', 'Bundled gate lists are well-formed and built as they stand',
     'Every build function for a bundled circuit reads its own gate list once into the given circuit, succeeds exactly when reading does, and its gate list is well-formed: the counts and widths of the header are those of the list, every wire is driven exactly once and before it is used, and the interface is the promised one (64-bit words for the arithmetic circuits, two 128-bit blocks to one for AES).',
     ['programs'], 'all gates and wires of the seven lists', 'Tests build four of the seven circuits.',
     [AR, CM, CR], [('build functions', CM + ' build_circuit_from_bristol'), ('gate lists', 'src/circuits/arithmetic/*.txt, src/circuits/cryptography/*.txt')], (), ['build_adder64', 'build_aes128'], 'dataflow over the bundled gate lists; abstract interpretation of the build functions', 'other', NNET)
prop('C24', 'Bundled circuits compute what they are for',
     'For all operands, least significant bit first, the bundled circuits compute: the sum and the difference modulo 2^64, the two\'s complement, the 128-bit product (high word first), the unsigned quotient and the signed quotient rounded towards zero (divisor not zero); and AES-128 encryption of the first block under the second as key (most significant bit of each byte first).',
     ['inputs'], 'all operands', 'Tests check commutativity and double negation on one random bit repeated 64 times, and that AES can be evaluated.',
     [AR, CM, CR], [('gate lists', 'src/circuits/arithmetic/*.txt, src/circuits/cryptography/*.txt')], (), ['build_adder64', 'build_sub64', 'build_neg64', 'build_mult2_64', 'build_divide_signed_64', 'build_divide_unsigned_64', 'build_aes128'],
     'structural matching of gate lists with a specification over local cuts; linear rewriting of adder cells; GF(2) forms over S-box functions', 'other', NNET)
prop('C25', 'The same calls always give the same circuits, texts and values',
     'Building, reading, writing and evaluating are deterministic: the same sequence of calls with the same arguments gives the same gate ids, the same written text and the same values in every run, whatever the order in which hash tables are walked, the time or any random source.',
     ['programs', 'inputs'], 'all call sequences, all orders of hash tables', 'A test sees one run; hash tables are walked in a different order in every process.',
     [EV, BC, BR, INT, LOG, FF, UT], [('hash tables', BC + ', ' + BR + ', ' + EV)], (), ['BristolNXAOWriter::write', 'NXAOBoolEvaluator::eval_output'], 'effect analysis over the call graph of the typed IR (no walk over a hash table, clock, random source, address)', 'other', NEFF)
prop('C26', 'Evaluating or writing a circuit changes nothing and can be repeated',
     'Evaluating a circuit (any entry point, any inputs, success or error) and writing it change nothing that can be observed of the circuit, of the circuits it calls or of their module storage; evaluating again with the same evaluator gives the same values as a new one.',
     ['programs', 'inputs', 'histories'], 'all circuits and inputs', 'No test looks at a circuit after evaluating or writing it.',
     [EV, BR], [('evaluation', EV), ('writing', BR)], (), ['NXAOBoolEvaluator::eval_output', 'BristolNXAOWriter::write'], 'effect analysis over the call graph of the typed IR (no write to a shared place is reachable)', 'other', NEFF)
prop('C27', 'Equality of ids, gates and circuits and id arithmetic are exact',
     'Two circuits over the same module storage compare equal exactly when every observation agrees (inputs, outputs, gates, dependents, constants, reported numbers of inputs, outputs, wires and gates); ids, gates and handles compare equal exactly when their contents are equal; adding ids, adding in place, zero and the zero test are those of their numbers.',
     ['programs', 'inputs'], 'all pairs of circuits, ids and gates', 'Tests only assert equality of circuits that are equal.',
     [BC, GA], [('equality', BC + ' PartialEq for NXAOBoolCircuit'), ('id arithmetic', GA)], (), ['NXAOBoolCircuit::eq', 'GateId::add', 'WireId::add_assign'], TINV, 'other', NEFF)
