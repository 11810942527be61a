T={}
T["F01"]="""V. Specified: each exported operation of the 256/512-bit integers as an integer polynomial identity (sum, product, difference modulo 2^256 with carry out, shifts, comparisons, conversions to and from `big.Int`). Oracle: the integer ring. Every aliasing pattern of receiver and operands is a separate evaluation. No bound. 1 s. Tests sample; the identity holds for every limb vector."""
T["F02"]="""V. Specified: each `..._a/_b/_c/_f` modular operation maps the interval its suffix requires into the interval its suffix promises and is congruent to the exact operation modulo the base field size. Oracle: the interval table of the documentation and congruence modulo the modulus, discharged by polynomial normalisation and linear bounds per branch of the carry gates. All aliasing patterns. No bound. 25 s."""
T["F03"]="""V. Specified: 2^256·z ≡ x·y (mod p) and z in the promised interval, for the Montgomery product, square and conversions with inputs in the carry-avoiding interval; each dropped carry must be shown zero by a linear bound. All aliasing patterns. No bound. 25 s."""
T["F04"]="""V with contracts. Field element operations over every admissible representation; each must store a representation in the admissible interval that is congruent to the field operation; operands not aliased keep their value. Machine-integer variants for all 2^64 values. 12 s."""
T["F05"]="""V. For two operands in arbitrary admissible representation the answer's gate must equal the mathematical predicate (congruence to 0, 1, each other, the negative; sign by the half modulus). 16 s."""
T["F06"]="""V. Conversions in both directions against the integer specification, including refusal conditions and the value stored on refusal. 1 s."""
T["X01"]="""V. As F02/F04 for exponents modulo twice the group order; result fully reduced. 1 s."""
T["X02"]="""V. The decomposition is evaluated for a symbolic exponent; u + eigenvalue·v ≡ t modulo the group order is a polynomial identity in the rounded quotients, the length bound follows from interval bounds on the rounding error (rational linear arithmetic). 6 s."""
T["C01"]="""V over the field. Points are classes (generic, neutral, affine two-torsion, two infinite points, each with arbitrary projective scaling and – where a type allows it – shifted by the two-torsion point); relations between two operands (unrelated, equal, opposite, differing by a torsion point) are enumerated completely; for each, the result's rational functions are reduced modulo the curve equation and compared with the group law. All pairs of argument types, receiver types and aliasing patterns. Oracle: the affine twisted Edwards law with the exceptional cases. Assumes F04's contracts. 25 s."""
T["C02"]="""V, classes as in C01: equality, neutral/infinity/E1/subgroup queries and setters. Exact answers for each class; the point before and after the query is the same class. 1 s."""
T["C03"]="""V: the endomorphism against the closed formula on each class. 1 s."""
T["C04"]="""V: conversion to subgroup types; subgroup membership enters as the Legendre symbol of 1-aX² for both cosets; trusted and untrusted. Also validation of representations (`Validate`). 1 s."""
T["C05"]="""V: constructors from X, Y and signs: on-curve and off-curve coordinates (as cosets of squares), both signs, invalid signs, trusted/untrusted; success exactly when specified and the point is the right one; on failure an error. 1 s."""
T["C06"]="""V: coordinate accessors, all conversions between the point types, normalisation; sequences of accessor calls in each order. 1 s."""
T["C07"]="""V: every shape of NaP of every type in every argument position; the handler is called exactly as documented, the result is a NaP (or what the handler's answer dictates). Queries include IsAtInfinity, IsE1, IsE2 and IsInSubgroup (the latter for types that can hold points outside the subgroup; subgroup-only types answer for the type). Oracle: `NaP_behaviour.txt`. 3 s."""
T["C08"]="""V: batch normalisation and slice views for each combination of classes per position, lengths up to 3 (thorough 4), and for selected lengths up to 33 (65) with up to three special elements among representations of one generic point, and for every length up to 34 (and some up to 130) with one at the end. Other longer slices are not covered. 3 s / 37 s."""
T["F07"]="""V with stream model: `io.Writer`/`io.Reader`/`io.ReadFull`/`bytes.Buffer` are transfer functions by contract (any number of bytes transferred, then any error). All values, prefixes, byte orders; the number of bytes before the failure is enumerated (0..32). Checks bytes, returned counts, error identity, error data, receiver unchanged. 4 s."""
T["F09"]="""V: the square root is evaluated for zero and for a symbolic element whose odd-order power is g^(-n), n < 2^32 symbolic with nibble/byte decomposition; table lookups resolve to exponents of the dyadic root of unity; result² = x iff n even. The table contents are evaluated from the initialisers. 1.3 s. Assumes F04."""
T["F10"]="""V: batch sums, products, inversions for every zero pattern and aliasing, lengths up to 40 (sums, products) and 5 (6; inversions; up to 40 with no zero or a final one), and for selected lengths around block sizes up to 65 (257) with up to three special elements, the others pairwise different. 2 s / 8 s."""
T["U01"]="""V: byte orders, bit headers, trust levels for all numbers, slice lengths 0..40 (70), all header values. <1 s."""
T["U02"]="""V: package initialisers are evaluated (constant propagation over `big.Int` and limb arithmetic) and compared with values recomputed from the modulus, the curve equation and the group order. The list of names is a table; an exported constant that is unknown to the table but has a base-name in it is compared too. <1 s."""
T["U03"]="""R: interprocedural mod/ref and escape analysis: for each function, which parameters' reachable memory it may write, return or store; every use of a constant-like package variable must be a read. Soundness caveat: calls through interfaces resolve by class hierarchy, reflection is not used on these types. <1 s."""
T["E01"]="""A: all constructors, AddData*, Delete*, AsErrorWithData, GetData_struct, HasData, for each combination of previous-data treatment, missing-data treatment, key present/absent in old and new data, matching, non-matching and nil payload types, equal and different values, against a witness struct with embedded struct, interface field and plain fields (payloads opaque). Oracle: a table of the documented merge. Plus a witness struct type for each documented restriction on struct types. Outcome is value or panic; input errors unchanged. 2 s."""

T["E04"]="""A: the formatter is evaluated by the abstract interpreter on ~530 generated interpolation strings (thorough 2089): every token and every nesting of the grammar up to the bound, well-formed and malformed, with opaque parameter values, and chains of up to 3 errors. Oracle: an independent tokenizer, recursive-descent parser, formatter and validator of the documented language, written from the documentation. Compared: Error, Error_interpolate with nil, empty and filled maps, and all four validators; for malformed strings the presence of base error, parameters and a diagnostic, not its wording. 5 s / 13 s."""
T["E06"]="""A: every constructor and modifier x parameter treatment x kind of base error (nil, foreign, foreign interpolatable, own, typed own, foreign wrapping own, incomparable) with opaque messages. Unwrap must yield the identical base, the default message must be the base's message called with the resulting parameter map; the dynamic types that MakeErrorIncomparable can return must be non-comparable by go/types. 1 s."""

T["E03"]="""A, two parts. (1) Exhaustive: all token sequences of length <= 4 (thorough 5; 11 000 / 111 000) over the ten kinds of tokens and ~1600 short byte strings (escapes, line break, invalid UTF-8), and 1500 strings with up to 8 (12) nested conditionals followed by closings and one (two) more tokens, through constructor, Error, ValidateSyntax and ValidateError_Final, against the oracle of E04. (2) Unbounded: a fixpoint of the parser over an automaton of token lists of any length (string tokens opaque and non-empty, at most 3 / 4 conditionals); states are canonicalised, lists abstracted to their length capped at 3. No panic may be reachable and every cycle of loop headers must consume a token. Part 2 needs the unexported parser function; if a refactoring removes it, part 1 decides alone. 27 s / 200 s."""

T["E05"]="""A with an access trace: every load, store, map and slice operation of the interpreted code is recorded with the abstract object, the locks held and the place. About 750 operations (all queries, validators, constructors, modifiers x 6 kinds of errors, fresh and after use, struct-type cache empty and filled). Objects existing before an operation, and objects published to package variables when a lock is released, are shared. Rule (Eraser locksets on abstract objects): a written shared object needs a lock common to all accesses, held exclusively at writes; no lock held at return, no double lock. Ownership: containers passed in are not reachable from results or package variables afterwards; returned maps are not reachable from the error. 2 s."""

T["E07"]="""A: struct guards are evaluated on one witness type per documented restriction (all pairs for CheckIsSubtype) and name lists derived from each type (exact, permuted, one missing, one repeated, one foreign, one in place of another, empty). Oracle: Go's selector rules over go/types, independent of the repository's reflection code. Error guards: lists of 0..3 (thorough 4) opaque errors, every combination of verdicts, the other validations answering the opposite. Longer lists are not covered. 1.5 s."""
T["E02"]="""R, dataflow over SSA: message templates, parameter names and lists are resolved by interprocedural constant propagation (through local variables, closures, concatenation, fmt.Sprintf, unexported helpers); the parameters of wrapped errors by a backward must-analysis (intersection over all paths, through functions and package variables, types ErrorWithData[T]). Messages are parsed by E04's independent parser. Sources that cannot be traced make an obligation undecided and silent (a struct field holding an error), so a refactoring cannot raise an alarm; every call site of the present tree is decided. Format strings: printf analysis of the Go toolchain. 1 s."""
T["T01"]="""Type checking itself: the module is loaded with go/types once per configuration (quick: amd64 with and without tag, 386; thorough: arm64 and all combinations), plus a table of type/interface pairs. pointserializer does not compile (known finding). 2 s (std lib for 386 is compiled once: ~10 s)."""
T["K01"]="""R+A. Package variables: forward must-lockset over SSA of every function (through unexported callers and helpers; initialisation-only functions and sync.Once bodies excluded), Eraser-style intersection per variable. A write through a method counts if the method writes on every path to a return (normalising comparisons do not). Handler and cache: interpretation with opaque functions and elements; other operations, complete, are interposed before any lock acquisition (two of them, all positions, also while a lock is held if they are not blocked by it); results must be explained by some order of the operations; accesses to objects reachable from the cache are checked by locksets. Interference inside critical sections is excluded by the lockset result. Bounds: 7 operations, 4 prior histories, lengths up to 3; 26,420 schedules, 17 s. The call counters are excluded: they are documented nowhere as safe for concurrent use and exist only under a build tag."""
T["S01"]="""A: concrete shapes, opaque elements and functions, reference models written from the doc comments (a Go slice for the stack, set equality for lists and maps, go/types for type queries). Stack: all sequences of up to 5 operations with observations after each, including writes through the pointers of Peek. Lists: up to 3 elements of 4 values, 4 normalizers. DoesMethodExist: 10 method shapes, value, pointer and interface receivers. The order in which a map is iterated is one fixed order. Longer lists are not covered. 1.2 s."""
T["S03"]="""A: the byte buffer of the standard library is modelled by its documented contract; all thresholds 0..3 and sequences of 4 operations (reads and writes of 0..3 opaque bytes, Reset, SetContent), compared with a reference model with separate counters. CheckPanic: opaque functions that return or panic with several values, wrong uses; deferred calls and recover are interpreted. 4 s."""
T["F11"]="""A, abstract interpretation with opaque multi-limb numbers. Jacobi: the abstract state keeps the low bits and zero/equality facts of the pair and a ghost sign such that symbol(input) = sign·J(A/B); the Jacobi laws (factors of two, reciprocity, subtraction) update the ghost; the loop is iterated to a fixpoint, every exit is compared with the ghost, and each round must decrease the size of the pair (termination). Exponentiation: numbers are base^(C·prefix(i)+D) for the exponent shifted right by i, and an interval; fixpoint over bit positions and the exponent's bit length, all aliasing patterns. Comparison, shift, subtraction and Montgomery multiplication enter through the contracts of F01/F03; the laxer contract (unreduced second factor) that exponentiation relies on is proved here with V. 45 s."""
T["F12"]="""V: conversions are polynomial identities over words and bytes; the panic condition must equal being out of range (BitLen comparisons are turned into comparisons with powers of two). Modular inverse, power, root, Jacobi symbol, parsing and formatting of math/big are recorded uninterpreted operations: operands, modulus and the use of the result are compared with the specification. Every method of the reference type for all aliasing patterns. Generic constructors are instantiated for both field types in the type checker. Random constructors for zero to two leading zero draws. 26 s."""

T["X03"]="""A: integers are linear forms in the bits of the input; paths split on single bits. A ghost variable keeps (sum of the entries stored so far) minus (input): digits that have been accounted for cancel, so that the loop has finitely many states, which are enumerated to a fixpoint at the loop headers: exact for every input at each window size analysed. Rules: at a return the difference is zero and all entries returned have been filled in; an entry is odd and fits the window; positions are in order, with no unaccounted digit below an entry; no index out of range; depth-first search for a state that repeats on its own path (termination). Entries are found by the type of the objects, not by the names of variables. Signed windows: 128 bit parts of both signs and zero, quick 15 sizes, thorough all 63. Unsigned windows: full 256 bits for large windows; small windows have too many states (position in a word x offset x number of entries) and are analysed for inputs of 68 to 160 bits, which crosses one or two word boundaries. 40 s, thorough 5 min."""
T["C09"]="""V over the field of fractions of the curve (as C01). Random bits are free booleans, drawn factors nonzero symbols, the drawn x-coordinate is that of a symbolic point of each coset, that of N/A, or one without a point (square class of 1-ax² both ways) followed by one with a point. The result must be P or A-P (full types) or the double of one (subgroup types). Rerandomisation, flips, normalisation and torsion shifts for each class of points of each type, and for each shape of invalid point; sampleNaP for indices 0..59 (the code depends on the index modulo 3, 4, 5). More than one failed draw in a row is not enumerated. 1 s."""
T["S02"]="""A with an algebraic domain: the numbers of increments and the multipliers are opaque, sums and products are polynomials with integer coefficients; opaque numbers are in general position (nothing cancels by accident), zero counts are separate cases. The word that Increment changes is found by comparing states, so the internal representation does not matter. Structures: all of 1 to 2 counters and a regular selection of orders for all of 3 (thorough: all orders, and a third of 4), of every kind of creation, display flags, parents, extra links (before or after creation, on ids or pointers, from both ends), rest counters switched on and off up to three times. Get, Exists, both reports (all flags) are compared with a reference model. Second part: the initialisers of all packages in the callcounters configuration are searched for creations, which are interpreted in order; every increment of a constant id anywhere must concern one of them, and a report after incrementing all must end. 8 s."""
T["E08"]="""A: 33 errors built from nil, io.EOF, io.ErrUnexpectedEOF and an opaque error by wrapping (foreign wrapper, library error without data, with data, typed data, two library errors, foreign around library); errors.Is follows Unwrap, which is interpreted. The variable after the call is compared with the specification: chain, data, message, and the original's data. 1 s."""
