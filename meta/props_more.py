p("F04","Field operations compute the field operation on every representation",
 "For all field elements, in every admissible internal representation of them, addition, subtraction, negation, doubling, multiplication, squaring, multiplication by five, the variants with a machine integer operand and the in-place variants store exactly the result of the operation modulo the base field size, again in an admissible representation. This holds for every aliasing of receiver and operands, and operands that are not results are not modified.",
 ["inputs"],"all field elements in all admissible representations, all 64-bit signed and unsigned integers, all aliasing patterns",
 "Field elements have up to two internal representations; tests sample random elements, which exercise the non-reduced representations and boundary carries with negligible probability.",
 [FE+"field_element_montgomery.go"],[("Add, Sub, Neg, Double, Mul, Square, MulFive, ...Eq, ...Int64, ...Uint64",FE+"field_element_montgomery.go:149-795")])
p("F05","Predicates depend on the field element, not on its representation",
 "Zero test, one test, equality, comparison up to sign and sign give the same answer for every admissible internal representation of their operands, and that answer is the mathematical one: two elements are equal exactly if they are congruent modulo the base field size, and the sign is that of the representative of smallest absolute value. Normalising or re-randomising a representation, or comparing elements, never changes the value of an element, and normalisation ends in the unique fully reduced representation.",
 ["inputs"],"all pairs of field elements in all admissible representations",
 "Differences between the two representations of one element arise for a small fraction of the elements and depend on limb comparisons that random tests rarely hit.",
 [FE+"field_element_montgomery.go"],[("IsZero, IsOne, IsEqual, CmpAbs, Sign, Normalize, RerandomizeRepresentation",FE+"field_element_montgomery.go:93-690")])
p("F06","Conversions between integers and field elements are exact or refused",
 "Setting a field element from a 64-bit signed or unsigned integer, a 256-bit integer or an arbitrary-precision integer (also negative or larger than the modulus) yields the element congruent to that integer; reading it back as an integer yields the representative in the range from zero to the modulus minus one. Reading it as a 64-bit integer succeeds with the right value exactly if the element is representable there (for the signed type including the most negative value), and otherwise returns an error and the value 0.",
 ["inputs"],"all integers of the source type, all field elements in all representations",
 "Boundary values (the most negative integer, values next to the modulus, non-reduced representations) are not all covered by samples.",
 [FE+"field_element_montgomery.go"],[("SetUint64, SetInt64, SetUint256, SetBigInt, ToBigInt, ToUint256, ToUint64, ToInt64",FE+"field_element_montgomery.go:211-360")])
EX="bandersnatch/exponents/"
p("X01","Exponent arithmetic is exact modulo the exponent modulus",
 "Addition, subtraction, negation, multiplication, comparison and conversion of exponents are exact modulo twice the prime group order for all reduced operands, keep the stored exponent fully reduced, and work when the result aliases an operand. Setting an exponent from any integer reduces it correctly.",
 ["inputs"],"all reduced exponents and all source integers, all aliasing patterns",
 "Carries, conditional subtractions and negative inputs at limb boundaries have negligible probability in sampled tests.",
 [EX+"exponents.go"],[("Exponent methods",EX+"exponents.go")])
p("X02","The short exponent decomposition is a valid decomposition with short parts",
 "For every integer exponent, the two-dimensional decomposition used to speed up exponentiation yields two parts u and v with u plus v times the eigenvalue of the endomorphism congruent to the exponent modulo the prime subgroup order, and both parts are shorter than 127 bits in absolute value.",
 ["inputs"],"all integers as exponents",
 "An off-by-one in rounding shows on rare exponents only; tests sample a few.",
 [EX+"glv_transform.go"],[("GLV decomposition",EX+"glv_transform.go")])
CP="bandersnatch/curvePoints/"
p("C01","Point addition and doubling implement the complete group law",
 "For all pairs of curve points of all provided point types and all combinations of argument and receiver types that are accepted, adding, subtracting, doubling and negating points (also in place) yields exactly the point that the twisted Edwards group law defines, as elements of the group the types represent (subgroup-only types up to the affine two-torsion point). This includes equal points, opposite points, the neutral element, the two-torsion points and the points at infinity, every coordinate representation of each, and receivers that alias arguments. Operands are left meaning the same point, and no panic occurs for admissible arguments.",
 ["inputs"],"all pairs of points in all projective representations, all combinations of the six point types, all aliasing patterns",
 "The exceptional cases of the addition formulas (equal, opposite, torsion and infinite operands) are a vanishing fraction of pairs; which combination of types takes which formula multiplies them.",
 [CP+"curve_point_impl_add.go",CP+"curve_point_impl_double.go",CP+"curve_point_xtw.go",CP+"curve_point_axtw.go",CP+"curve_point_doubleproj.go"],[("Add, Sub, Double, Neg and the ...Eq variants",CP+"curve_point_xtw.go")])
p("C02","Point queries and setters agree with the point that is represented",
 "For every point in every coordinate representation of each point type, equality (between any two point types) holds exactly if the two represent the same group element, the tests for the neutral element, for infinity, for the affine two-torsion point and for subgroup membership give the answer the point determines, setting to the neutral or a torsion point stores it, and cloning or copying from another point type preserves the point. None of these queries changes which point is represented.",
 ["inputs"],"all points in all representations, all pairs of point types",
 "The answers differ from the right ones on rare points (torsion, infinity) or rare representations (scaled coordinates, coordinates shifted by the two-torsion point in subgroup-only types).",
 [CP+"curve_point_xtw.go",CP+"curve_point_axtw.go",CP+"curve_point_doubleproj.go",CP+"curve_point_impl_equality.go"],[("IsEqual, IsNeutralElement, IsAtInfinity, IsNeutralElement_FullCurve, IsE1, IsInSubgroup, SetNeutral, SetE1.., Clone",CP+"curve_point_xtw.go")])
p("C03","The endomorphism formula is right on every representation and exception",
 "Applying the efficient endomorphism to a point of any type, in any coordinate representation, yields the image under the degree-two endomorphism of the curve, including the neutral element, the affine two-torsion point and the points at infinity, with receiver and argument of any accepted types and also in place; the argument still represents the same point.",
 ["inputs"],"all points in all representations, all combinations of point types",
 "The formula's special cases (kernel of the endomorphism, points at infinity) are not hit by random points.",
 [CP+"curve_point_impl_endo.go"],[("Endo, EndoEq",CP+"curve_point_impl_endo.go")])

p("C04","Conversions into subgroup-only types accept exactly subgroup points",
 "Converting a point of any type into a subgroup-only type succeeds with untrusted input exactly if the point lies in the prime-order subgroup (and the stored point then is that point), and succeeds with trusted subgroup input always. Validity checking accepts exactly those coordinate tuples that describe a point of the curve that the type can represent, and rejects everything else, whatever the coordinates contain. On rejection of a valid point outside the subgroup the receiver is unchanged.",
 ["inputs"],"all coordinate tuples of all point types, all pairs of types, both trust settings",
 "Small-subgroup and off-curve inputs are what an attacker supplies, and what random tests do not.",
 [CP+"curve_point_xtw.go",CP+"curve_point_axtw.go",CP+"curve_point_doubleproj.go",CP+"curve_point_impl_subgroupcheck.go"],[("SetFromSubgroupPoint, Validate",CP+"curve_point_xtw.go")])
p("C05","Construction of points from coordinates accepts exactly valid input",
 "Each constructor of curve points from affine coordinates (X and Y, X and the sign of Y, Y and the sign of X, for the full curve and for the subgroup) returns, for all field elements, signs and trust settings, the point that the input determines if such a point exists; for untrusted input that is not on the curve or not in the subgroup it returns an error that matches the documented sentinel error, and never a point. The map of points to field elements is well defined on the quotient by the affine two-torsion point.",
 ["inputs"],"all coordinates and signs, both trust settings, all square-root outcomes",
 "Invalid coordinates that still pass some of the tests (no square root, wrong coset, infinite) are adversarial input.",
 [CP+"serializer_curve_field.go"],[("CurvePointFrom..., MapToFieldElement",CP+"serializer_curve_field.go")])
p("C06","Coordinate accessors and conversions describe the same point",
 "For every point in every representation of each type, the affine, projective, extended and decaf coordinates returned by the accessor functions, whichever are called and in whichever order, satisfy the defining relations of their coordinate system and describe the point itself (up to the affine two-torsion point for the decaf accessors); repeated calls are mutually consistent; normalisation achieves the requested form without changing the point, and reports failure exactly where it is impossible; copying from another point type preserves the point.",
 ["inputs","histories"],"all points in all representations, all orders of calls of accessor functions, all pairs of types",
 "Accessors may change the internal representation as a side effect, so mixing them in an unusual order on special points is what breaks consistency.",
 [CP+"curve_point_xtw.go",CP+"curve_point_axtw.go",CP+"curve_point_doubleproj.go"],[("X_projective .. T_decaf_affine, NormalizeForY, NormalizeForZ, SetFrom",CP+"curve_point_xtw.go")])
p("C07","Invalid points (NaPs) are always detected, reported and contagious",
 "An uninitialised or otherwise invalid point is recognised as such by every point type; every operation that has such an operand, in any position and with any valid other operand and any aliasing, yields an invalid point again and never a valid one; comparisons with it and queries (at infinity, E1, E2, in the subgroup) answer what the configured handler returns, except that types which can only hold subgroup points may answer a subgroup query for their type, the handler is called when an operation meets an invalid point, and it is not called when all operands are valid.",
 ["inputs"],"all shapes of invalid points of all types, every operand position, all valid other operands",
 "A NaP that turns into a valid point silently yields wrong results; each method has its own handling and tests cover a few.",
 [CP+"curve_point_xtw.go",CP+"curve_point_axtw.go",CP+"curve_point_doubleproj.go",CP+"curve_point_impl_equality.go",CP+"error_handler.go"],[("IsNaP, napEncountered and all operations",CP+"curve_point_xtw.go")])
p("C08","Batch normalisation and slice views treat every point like a single one",
 "Normalising a slice of points of any type brings every valid finite point into the requested form without changing which point it represents, leaves points for which this is impossible (at infinity, invalid) as they were and reports exactly their number or positions, whatever mix of generic, special, repeated-form and invalid points the slice contains. Viewing a slice of points through the generic slice interface gives the points themselves (no copies), in order.",
 ["inputs"],"all mixes of classes of points in slices of bounded length, all representations",
 "A batched inversion fails as a whole if one position with a zero coordinate is mishandled; the mixes and positions of special points multiply.",
 [CP+"curve_point_xtw.go",CP+"curve_point_axtw.go",CP+"curve_point_doubleproj.go",CP+"curve_point_slice.go",CP+"batch_operations.go"],[("BatchNormalizeForZ, BatchNormalizeForY, slice views",CP+"batch_operations.go")])
p("F10","Batch operations on field elements equal the element-wise ones",
 "Sums, products and inverses of slices of field elements equal the results of the single operations for every pattern of zero and non-zero elements and for every aliasing of the receiver with an argument, for empty, short and long inputs. Batch inversion that meets zeros reports exactly the positions of the zeros and their number, either leaves all elements untouched and reports an error or inverts all others and leaves the zeros, as documented for each variant.",
 ["inputs"],"all values and zero patterns of slices of bounded length, all aliasing patterns",
 "Patterns of zeros and lengths at the internal thresholds multiply; a test samples some.",
 [FE+"field_element_batch.go"],[("AddMany, MulMany, SummationMany, MultiInvert...",FE+"field_element_batch.go")])
p("F07","Serialization of integers and field elements round-trips and fails cleanly",
 "Writing a 256-bit integer or a field element (in any representation), with or without a bit prefix, in either byte order, emits exactly the 32 bytes that encode the canonical value with the prefix in its leading bits, or fails without output if the prefix does not fit. Reading inverts this for every 32-byte input: the prefix and the value are returned, or a mismatch is reported exactly if the leading bits differ from the expected ones; non-canonical field elements are accepted only with the documented error. If the stream ends or fails at any point, an error wrapping the stream's error (or the right end-of-file error) is returned, the receiver keeps its value, and the reported number of bytes and the data attached to the error match what was transferred.",
 ["inputs","fault_sequences"],"all values and inputs, all prefixes of up to 8 bits, both byte orders, every position at which the stream fails",
 "Rare values (next to the modulus, with leading bits set) and every failure position of the stream in combination with prefix lengths and byte orders exceed what tests enumerate.",
 [FE+"uint256_serialize.go",FE+"field_element_serialize.go","bandersnatch/common/fe_endianness.go","bandersnatch/common/embedded_params.go"],[("Serialize..., Deserialize..., ...WithPrefix, ...AndGetPrefix, ...WithExpectedPrefix",FE+"uint256_serialize.go"),("SerializeFieldElement..., DeserializeFieldElement...",FE+"field_element_serialize.go")])
CO="bandersnatch/common/"
p("U01","Byte orders, bit headers, trust levels and restrictions behave as declared",
 "For both byte orders, writing a 16, 32, 64 or 256 bit number into a slice stores its digits in that order in the leading bytes and changes nothing else, and reading inverts this; slices that are too short are refused with a panic before anything is written, whatever their capacity. The byte order can be set from the standard library's two orders and from the package's own values, and everything else (also nil) is refused. A bit header holds exactly what was set, only lengths up to 8 and bits that fit the length are accepted, and nothing but the validating functions writes one. Trust levels and subgroup restrictions report what they were made from; a type that is always restricted refuses to be unrestricted.",
 ["inputs"],"all numbers, byte contents, slice lengths up to 40 (70), all 65536 header values, both byte orders",
 "Off-by-one lengths, spare capacity and out-of-range headers are combinations that tests sample.",
 [CO+"fe_endianness.go",CO+"embedded_params.go",CO+"common_constants.go"],[("PutUint..., Uint..., SetEndianness",CO+"fe_endianness.go"),("BitHeader, SubgroupRestriction, SubgroupOnly",CO+"embedded_params.go"),("IsInputTrusted",CO+"common_constants.go")])
p("F09","Square roots of field elements are found exactly for squares",
 "For every field element, computing a square root succeeds exactly if the element is a square (zero included), and then the result squared is the element; otherwise failure is reported and the receiver keeps its value. The argument keeps its value, receiver and argument may be the same, and non-canonical internal representations make no difference. Every discrete logarithm in the dyadic subgroup that the algorithm can meet is resolved by its precomputed tables.",
 ["inputs"],"all field elements in all representations, all dyadic parts of their order, all aliasing patterns",
 "The algorithm handles the 2^32 elements of the dyadic subgroup by table lookups in blocks; a wrong table entry, shift or block boundary fails for a small fraction of the dyadic components.",
 [FE+"field_element_square_root.go",FE+"field_element_montgomery.go"],[("SquareRoot and its precomputed tables",FE+"field_element_square_root.go"),("bsFieldElement_MontgomeryNonUnique.SquareRoot",FE+"field_element_montgomery.go:516")])
p("U02","Published constants have the values their names promise",
 "Every constant of the field, curve and exponent packages has the value its name and documentation define, in each form it is provided in (untyped constant, string, big integer, word arrays of 8, 16, 32 and 64 bits, 256-bit integer, field element): field size and derived quantities, group and curve order, cofactor and exponent, the eigenvalue of the endomorphism (a root of X^2+2 modulo the group order that acts like the endomorphism), curve parameters, roots of unity, powers of two. The provided neutral, two-torsion and infinite points of each type stand for these points, and the provided generator lies on the curve and generates the prime-order subgroup.",
 ["inputs"],"all forms and words of all constants; the constants enter every computation",
 "Most forms of the constants are used by no test; a wrong word shows only where a computation uses just that form.",
 [CO+"common_constants.go",EX+"exponent_constants.go",FE+"field_element_constants.go",CP+"bandersnatch_constants.go",CP+"curve_point_xtw.go"],[("declarations and initialisers of constants",FE+"field_element_constants.go"),("point constants",CP+"curve_point_xtw.go")])
p("U03","Library code never modifies shared constants",
 "No call of a library function changes the value of a package-level constant (numbers, big integers that several packages share by pointer, field elements, points, precomputed tables) after initialisation, passes it where it is modified, or hands out a reference through which its result shares memory with such a constant.",
 ["histories"],"all sequences of library calls",
 "A modification of a shared big integer or field element makes later, unrelated calls wrong; a test that runs before it, or does not depend on that constant, passes.",
 [CO+"common_constants.go",EX+"exponents.go",EX+"glv_transform.go",FE+"field_element_montgomery.go",FE+"field_element_bigInt.go",CP+"curve_point_impl_endo.go"],[("uses of big integer constants",EX+"glv_transform.go"),("uses of field element and point constants",CP+"curve_point_xtw.go")])
EW="bandersnatch/errorsWithData/"
p("E01","Data attached to errors merges as specified and always fits the type",
 "For every error, every set of new parameters and every combination of treatments, creating an error with data, adding data to one, deleting a parameter, and converting to a typed error yield an error whose parameters are exactly the specified merge of the previous and the new ones (replace, prefer the previous, or refuse differing values); new names are added, repeated names in a list take the last value. Whenever a typed error is returned, its struct can be read back and equals the parameters; missing data is filled with zero values or refused as requested, data of the wrong type is always refused by a panic (by a false result for conversion and presence tests). Malformed argument lists, unset treatments and unsuitable struct types are refused. The original error keeps its parameters.",
 ["inputs","programs"],"all errors and parameter values, all relations of old and new keys to the fields of the struct, all treatments, the documented restrictions on struct types",
 "The relations of old keys, new keys, treatments, missing or nil or mistyped values and struct shapes multiply; tests sample some.",
 [EW+"modify_errors.go",EW+"plainErrorWithParams.go",EW+"params_to_data.go",EW+"errorsWithData.go"],[("NewErrorWithData_*, AddDataToError_*, DeleteParameterFromError*, AsErrorWithData",EW+"modify_errors.go"),("GetData_struct, HasData, struct restrictions",EW+"params_to_data.go")])
p("E04","Error messages interpolate as documented, whatever the string and parameters",
 "For every interpolation string, every set of parameters and every base error, the message is what the documented language defines: literal text with escapes, values and messages substituted for %fmt{Name} and $fmt{Name} (parameters of the error and of the call respectively), %w and $w replaced by the base error's message, and conditionals on present or empty parameter maps. A string that does not follow the syntax is never silently accepted: the validators report it, and the message still shows the base error, the parameters and a diagnostic. The validators (syntax, parameters of this error, parameters of the base, final form) report a problem exactly if formatting would show one.",
 ["inputs","programs"],"all short strings over the special tokens and names of the language, chains of errors up to three levels, present and missing parameters",
 "The language nests (conditionals, wrapped errors, two parameter maps, four validation levels); combinations of malformed and nested parts are what no test lists, and a wrong message appears only when an error does.",
 [EW+"formatting_tokenize.go",EW+"formatting_parse.go",EW+"formatting_interpolate.go",EW+"plainErrorWithParams.go"],[("tokenizer and parser",EW+"formatting_parse.go"),("Error, Error_interpolate, ValidateSyntax, ValidateError_Final, ValidateError_Base, ValidateError_Params",EW+"plainErrorWithParams.go")])
p("E06","Wrapping keeps the base error, its message and its comparability promise",
 "For every base error (nil, foreign, from this package, typed, already incomparable) every constructor and modifier returns an error that unwraps to exactly that base; without a message of its own its message is the base error's, formatted with the resulting parameters; a missing base and a missing message together are refused by a panic, and modifying nil yields nil. An error made incomparable cannot be compared equal to another, unboxes to exactly the error it was made from, and is never boxed twice; unboxing anything else is the identity.",
 ["inputs","programs"],"all kinds of base errors, all constructors and treatments of parameters, empty and given messages",
 "errors.Is and errors.As on the chain, and the default message, are what callers rely on for every error the library returns; each constructor has its own path.",
 [EW+"modify_errors.go",EW+"plainErrorWithParams.go",EW+"incomparableWrapper.go"],[("NewErrorWithData_*, AddDataToError_*, DeleteParameterFromError*, AsErrorWithData",EW+"modify_errors.go"),("MakeErrorIncomparable*, UnboxError*",EW+"incomparableWrapper.go")])
p("E03","Parsing a message string always ends, never panics and judges it exactly",
 "For every interpolation string, of any length and nesting and with any bytes, creating an error with it, validating it and formatting it terminates and does not panic, in particular no internal assertion of the parser can fail. The syntax verdict is exactly the documented one, and a string that is not valid is still formatted into a message that shows the parameters.",
 ["inputs"],"all sequences of tokens of the language (strings opaque), all short byte strings including escapes and invalid UTF-8",
 "A panic while an error is being reported hides the error; the parser has eight modes, and its failure paths combine with any nesting that was open.",
 [EW+"formatting_tokenize.go",EW+"formatting_parse.go"],[("parser and tokenizer",EW+"formatting_parse.go:659")])
p("E05","Errors never change, share no maps, and are safe to use concurrently",
 "Once created, an error is never modified: formatting it, validating it, reading its data, wrapping it, adding data to it, deleting a parameter or converting it leaves every part of it (parameters, parsed message) untouched, so errors held in package variables can be used from several goroutines. Maps, lists and structs passed by a caller are neither modified nor retained; maps returned are the caller's own. The package's shared state is accessed only while its lock is held (exclusively when written), and no lock is left held or taken twice.",
 ["schedules","histories"],"all operations of the package on all kinds of errors, fresh and used, with empty and filled caches; every interleaving of them (race freedom by ownership and locksets)",
 "A data race or an aliased map shows up only under concurrency or when a caller goes on using a map; tests run sequentially and look at one error.",
 [EW+"plainErrorWithParams.go",EW+"modify_errors.go",EW+"params_to_data.go",EW+"dataOverride.go",EW+"formatting_interpolate.go"],[("all operations on errors",EW+"plainErrorWithParams.go"),("cache of struct types and its lock",EW+"params_to_data.go:145")])
p("E07","Guards accept exactly what they promise: struct fields, names, valid errors",
 "The guards that client code runs at start-up or in tests panic exactly if what they guard is broken. CheckParametersForStruct_all: the struct type is unsuitable, a name is repeated, or the names differ from the struct's fields; CheckParameterForStruct: unsuitable, or no such field; CheckIsSubtype: either type is unsuitable, or the first has a field the second lacks. EnsureErrorsValid_Final/_Base/_Syntax: the corresponding validation of some listed error fails; the panic carries the first issue. ValidInterpolationName is true exactly for exported Go identifiers.",
 ["inputs","programs"],"all struct types (one witness per documented restriction, all pairs), name lists derived from them, all verdicts of the listed errors",
 "A guard that accepts too much is silent until the refactoring it was to catch has shipped; tests run it on a few good and bad types.",
 [EW+"validate.go",EW+"params_to_data.go",EW+"errorsWithData.go"],[("CheckParametersForStruct_all, CheckParameterForStruct, CheckIsSubtype, EnsureErrorsValid_*",EW+"validate.go"),("ValidInterpolationName",EW+"errorsWithData.go:328")])
p("E02","Every error the library creates is well-formed and has the data it names",
 "Wherever the library constructs an error with data, on any path: the message follows the interpolation language and refers only to parameters the error certainly has (of its struct, its parameter list, or the wrapped error); parameter lists are well-formed with values of the types the struct requires; all required data is present; struct types are suitable; a base error or a message is given; guards run at initialisation hold. Otherwise the construction panics, or the message is garbled, just when an error is reported. Format strings passed to package fmt match their arguments.",
 ["inputs","programs"],"all call sites constructing errors and messages, all paths on which the wrapped errors arise",
 "These paths run only when something fails, mostly in combinations no test provokes; the interpolation string is data, so the compiler does not check it.",
 [CP+"serializer_curve_field.go",FE+"errors.go",FE+"field_element_serialize.go",FE+"uint256_serialize.go",FE+"field_element_montgomery.go","bandersnatch/bandersnatchErrors/serializer_errors.go"],[("errors of point construction",CP+"serializer_curve_field.go"),("errors of division and multi-inversion",FE+"errors.go"),("serialization errors",FE+"field_element_serialize.go")])
p("T01","Every package compiles in every configuration; types keep their interfaces",
 "Every package of the module type-checks in each build configuration: with and without the build tag callcounters, on 64-bit and 32-bit platforms. Every curve point type, curve point slice, field element and integer type implements the exported interfaces that it is documented to implement, so that programs written against these interfaces compile.",
 ["configurations","programs"],"all build configurations, all programs using the exported interfaces",
 "Only the default configuration of some packages is built and tested; a call-counter variant left behind, a constant that overflows int on 32-bit platforms or a lost method is noticed by users.",
 [FE+"callcounters_active.go",CP+"curve_point.go",FE+"field_element.go",CP+"curve_point_slice.go"],[("build tag callcounters",FE+"callcounters_active.go"),("interfaces of curve points",CP+"curve_point.go")])
IT="internal/testutils/"
p("K01","State shared by the whole program is safe under concurrency",
 "Package variables that are written after initialisation are accessed under one common lock (the call counters, a debugging aid, excepted). SetNaPErrorHandler exchanges the handler atomically: for every schedule, each handler installed is returned exactly once or left installed. A PrecomputedCache is linearizable for every schedule: for each key there is one sequence (the prepopulated entries, then elements created by one generator, in order), every retrieval returns copies of a prefix of it, PrepopulateCache panics exactly if the key exists; nothing handed in or out aliases the cache; no operation ends with a lock held, even if a supplied function panics.",
 ["schedules","histories"],"all interleavings of critical sections with two other operations; all accesses to package variables",
 "A data race or a lost update needs a particular interleaving; the tests are sequential ('TODO: Test thread-safety?').",
 [CP+"error_handler.go",IT+"precomputation_meta.go"],[("handler",CP+"error_handler.go"),("cache pages and locks",IT+"precomputation_meta.go")])
IU="internal/utils/"
p("S01","Stacks, list and map comparisons, type queries, bound calls work as documented",
 "Stack is last-in-first-out; Pop, Top panic exactly on an empty stack, Peek(i) exactly outside 0..Len-1; Top and Peek give pointers through which the element can be changed; Push and PushPtr store copies. CompareSlices, CompareMaps, CompareParamMaps are true exactly for equal contents (nil differs from empty), AssertSliceEquals panics exactly otherwise. ElementInList and ConcatenateListsWithoutDuplicates work modulo the optional normalizer; the result is a new list with one member of every class. IsNilable, TypeOfType, GetReflectName, DoesMethodExist answer correctly for every kind of type. CallFunction_FixNil calls the function once with nil for invalid values, or panics if nil is impossible. Bind* pass the arguments in order. AllFields lists the fields of a struct type including those of embedded structs, in order, with independent index sequences, and reports embedded struct pointers.",
 ["inputs","histories"],"all sequences of stack operations, all equality patterns of lists and maps, all kinds of types",
 "Everything else relies on these helpers; most have no tests of their own (reflect_call_test.go is empty).",
 ["internal/stack/stack.go",IU+"compareSlice.go",IU+"listcontainment.go",IU+"reflect_type.go",IU+"reflect_call.go",IU+"bind.go",IU+"getAllFields.go","bandersnatch/common/call_fixNil.go"],[("Stack","internal/stack/stack.go"),("comparisons",IU+"compareSlice.go"),("normalised lists",IU+"listcontainment.go")])
p("S03","The test tools themselves are right: faulty buffers, alias and panic checks",
 "A FaultyBuffer behaves like bytes.Buffer until exactly faultThreshold bytes were read, or written (separate counters); the operation that would exceed the threshold transfers exactly the bytes up to it and returns the designated error, later ones (of more than 0 bytes) transfer nothing and return an error wrapping it; too little content gives the buffer's own end, never the designated error; Reset and SetContent restart the counters; a nil designated error is refused. CheckSliceAlias is true exactly for non-nil slices of positive capacity of the same array. CheckPanic is true, with the panic value, exactly if the function panics; wrong uses are not mistaken for panics.",
 ["fault_sequences","histories","inputs"],"all thresholds, contents and sequences of transfers up to the stated bound; all pairs of slices",
 "The tests of error handling and aliasing are only as good as these tools, which are not tested.",
 [IT+"failingIO.go",IT+"slicealias.go",IT+"checkpanic.go"],[("FaultyBuffer",IT+"failingIO.go"),("CheckSliceAlias",IT+"slicealias.go"),("CheckPanic2",IT+"checkpanic.go")])
p("F11","Exponentiation and the Jacobi symbol of field elements are exact",
 "For every base and every 256-bit exponent, raising a field element or a Montgomery representation to the exponent yields exactly the power (1 for exponent 0, also for base 0), as an admissible representation, whichever of the arguments and the receiver are the same object. For every field element the Jacobi symbol is 0 for zero, 1 for non-zero squares and -1 for non-squares, and its computation ends.",
 ["inputs"],"all bases, exponents and representations, all aliasing patterns",
 "The Jacobi loop's path depends on every bit of the operand and rare branches (64 or more trailing zeros, operands that meet) are never hit by random samples; exponents at word boundaries are rare as well.",
 [FE+"uint256_modular.go",FE+"uint256_montgomery.go",FE+"field_element_montgomery.go"],[("Jacobi",FE+"uint256_modular.go"),("ModularExponentiationMontgomery_fa",FE+"uint256_montgomery.go"),("Exp, Jacobi of field elements",FE+"field_element_montgomery.go")])
p("F12","Big-integer conversion, division and the reference field are exact",
 "Converting 256- and 512-bit integers from and to math/big keeps the number and panics exactly for numbers that are negative or too large; parsing a string gives the number it denotes or panics, printing shows the number. Dividing and inverting field elements (also by machine integers) multiplies by the inverse of the divisor's value. The reference implementation of field elements on which the differential tests rest computes every operation modulo the base field size with a reduced result, and division by zero panics. Raw byte conversion reads back what it wrote and touches 32 bytes. Random field elements are admissible, the non-zero ones are not zero.",
 ["inputs"],"all integers, strings, field elements and representations, all aliasing patterns, all byte contents",
 "Numbers at the limits of the range, operands that alias, and divisors congruent but not equal to zero are not sampled by tests; an error in the reference implementation hides errors of the fast one.",
 [FE+"uint256_utility.go",FE+"utility.go",FE+"field_element_bigInt.go",FE+"field_element_montgomery.go","internal/utils/bigIntConversion.go"],[("ToBigInt, SetBigInt, InitUint256FromString",FE+"uint256_utility.go"),("Inv, Divide, DivideInt64, ...",FE+"field_element_montgomery.go"),("bsFieldElement_BigInt",FE+"field_element_bigInt.go"),("BigIntToUIntArray, InitIntFromString","internal/utils/bigIntConversion.go")])

p("X03","Window decompositions of exponents denote the exponent",
 "The decompositions of exponents into windows are exact for every exponent: the sliding window decomposition of a 256 bit number, for each window size strictly between 0 and 64, consists of odd entries of at most that many bits whose sum, each shifted by its position, is the number, the positions being strictly decreasing along the list; other window sizes are refused with a panic. The signed decomposition of the parts of an exponent likewise has odd coefficients of at most the given number of bits at strictly increasing positions whose signed sum is the part. The computation terminates and accesses no entry out of range.",
 ["inputs"],"all 256 bit numbers and all signed 128 bit numbers, all window sizes from 1 to 63",
 "Long runs of zero bits, windows that straddle words and a carry out of the top bit occur for a vanishing fraction of numbers; tests sample one window size.",
 [FE+"uint256.go",EX+"glv_transform.go",EX+"exponents.go"],[("Uint256.SlidingWindowDecomposition",FE+"uint256.go"),("decomposeUnalignedSignedAdic",EX+"glv_transform.go")])
p("C09","Sampled points are valid and changes of representation keep the point",
 "Drawing a random point of any type gives a valid representation of a point of the curve - for the types restricted to the prime-order subgroup one in the subgroup - whatever the random generator returns, including draws that belong to no point. Rerandomising the internal representation of a point keeps the point it stands for; flipping or normalising the representation of a subgroup point modulo the affine two-torsion gives exactly the other, respectively the subgroup representative. Adding a two-torsion point on the coordinates gives exactly the shifted point for every type and class of points, and refuses results that the type cannot hold. Sampled invalid points are invalid for every index, and all these operations keep invalid points invalid.",
 ["inputs"],"all random draws, all classes of points and invalid points, all representations and point types",
 "The test framework itself relies on these functions to produce its inputs, so a wrong one silently narrows or corrupts what the tests see; exceptional draws have negligible probability.",
 [CP+"curve_point_impl_sampling.go",CP+"curve_point_impl_torsion.go",CP+"curve_point_xtw.go",CP+"curve_point_axtw.go",CP+"curve_point_doubleproj.go"],[("makeRandomPointOnCurve_a, makeRandomPointOnCurve_t, sampleNaP",CP+"curve_point_impl_sampling.go"),("torsionAddA, torsionAddE1, torsionAddE2",CP+"curve_point_impl_torsion.go"),("MakeRandomPointUnsafe_xtw_full, MakeRandomPointUnsafe_xtw_subgroup",CP+"curve_point_xtw.go"),("rerandomizeRepresentation, flipDecaf, normalizeSubgroup, sampleRandomUnsafe",CP+"curve_point_doubleproj.go")])
p("S02","Call counters count every path exactly and are created before use",
 "Whatever counters are created, in whatever order and whichever way (also before their parents), and however they are linked without cycles: a counter shows its own increments plus those of all counters that add to it, directly or through others, multiplied along the way; the rest counter shows its counter minus the children, however often it is switched on and off; reading changes nothing; resetting forgets exactly the increments of the counters reset. Reports list every displayed counter below a displayed root, below its parent, with its count and its name (the id if empty); the structure report lists all and marks those hidden or below hidden ones. Only created counters exist, none twice; reading an unknown one reports so, incrementing it panics. In the callcounters configuration, all counters of all packages are created without panic or cycle, and every function increments created ones only.",
 ["histories","inputs","programs"],"all acyclic structures of counters up to the stated size, all orders of creation, numbers of calls and multipliers; all increments in the code",
 "Counting is off in the tested configuration; the effect of the order of creation and of links is not tested, and a counter that is not created makes field operations panic in the counting configuration only.",
 ["internal/callcounters/callcounters.go",FE+"field_element_montgomery.go"],[("recursivelyModifyBy, correctDependencies","internal/callcounters/callcounters.go"),("SetDisplayRemaining","internal/callcounters/callcounters.go"),("creation of the counters",FE+"field_element_montgomery.go")])
p("E08","An unexpected end of input is reported as such, and no error data is lost",
 "UnexpectEOF and UnexpectEOF2 turn every error that is io.EOF (itself or anywhere in its chain) into one that is io.ErrUnexpectedEOF and no longer io.EOF, with exactly the data of the original (io.ErrUnexpectedEOF itself if there is none, for the untyped form); every other error, and nil, is left as it is. The original error object is not changed. The typed form keeps the promised data whatever the type.",
 ["inputs"],"all kinds of errors and chains up to the stated depth, with and without data",
 "A reader that meets io.EOF in the middle of a point would otherwise look like a clean end of the input to every caller that loops until EOF.",
 ["internal/errorTransform/error_transform.go"],[("UnexpectEOF, UnexpectEOF2","internal/errorTransform/error_transform.go")])
