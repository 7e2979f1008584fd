T0 = "The 59 stable tests only exercise the native-binding generator (njsgen); nothing in them evaluates this part of the engine, and a script suite would sample a handful of the "

prop("C01", "Integer conversions and bitwise operators are exact modulo 2^n",
 "Every conversion of a primitive value to an 8-, 16- or 32-bit integer (signed, unsigned or clamped), to an integer-or-infinity or to a length yields exactly the value ECMAScript defines: truncation toward zero, then reduction modulo 2^n, clamping with ties to even, or saturation. "
 "The operators & | ^ ~ << >> >>> applied to Numbers return exactly the 32-bit result on the converted operands with the shift count taken modulo 32. NaN, infinities, -0, subnormals and magnitudes beyond 2^63 obey the same rule.",
 ["inputs"], "all 2^64 IEEE-754 bit patterns for each Number operand, and undefined, null, booleans, Symbols and BigInts",
 T0 + "2^64 operand values; the failures sit at magnitudes, signs and fractional parts no suite enumerates.",
 [I+"rjs_operation.h", L+"rjs_number.c", L+"rjs_bc_call.c", L+"rjs_math_object_inc.c"],
 [("ToInt8..ToUint32, ToUint8Clamp, ToIntegerOrInfinity, ToLength", I+"rjs_operation.h"), ("number bit operators", L+"rjs_number.c"), ("interpreter entry points of the operators", L+"rjs_bc_call.c")],
 ["typed array stores", "results of the bitwise operators"],
 claim=dict(how="complete over all 64-bit operand patterns, no loops cut", level="proof",
   note="Proved for every operand bit pattern on the functions listed in the evidence; string and object operands reach the same code after ToPrimitive/StringToNumber, which are not part of the proof."))

prop("C02", "Equality, SameValue and ordering of primitives follow the language",
 "===, ==, Object.is, SameValueZero (includes, Map and Set keys), !, the boolean tests and < <= > >= give the result ECMAScript defines for every pair of undefined, null, boolean, Number, Symbol and (by identity or content) string operands: NaN unequal to everything under === yet the same value as itself, +0 equal to -0 but distinguished by Object.is, undefined and null equal only to each other under ==, unordered comparisons false. "
 "Equality is symmetric, and != and !== are exact negations.",
 ["inputs"], "all pairs of primitive values, all IEEE-754 bit patterns for Numbers",
 T0 + "operand pairs (NaN payloads, signed zeros, mixed types).",
 [I+"rjs_operation.h", I+"rjs_value.h", L+"rjs_operation.c", L+"rjs_number.c", L+"rjs_bc_call.c"],
 [("equality and SameValue algorithms", L+"rjs_operation.c"), ("Number comparison", L+"include/rjs_number.h"), ("operator entry points", L+"rjs_bc_call.c")],
 ["operator results"],
 claim=dict(how="recursive == checked against its own contract; all operand kinds and all Number bit patterns", level="proof",
   note="Strings and BigInts enter as opaque values with an arbitrary but consistent equality and order; ToPrimitive of objects is an arbitrary-result stub; the string comparison itself is C15, the BigInt comparison C07."))

prop("C03", "Arithmetic on Numbers and the exact Math functions are correctly rounded",
 "+ - * / % ** unary -, ++ and -- on Numbers return the IEEE-754 double result, with ECMAScript's own cases (NaN for 1**Infinity, sign of zero, sign of % taken from the dividend). "
 "Math.abs, ceil, floor, trunc, round, sign, min, max, clz32, imul and fround return the exact value ECMAScript defines for every argument, including NaN, infinities and the sign of zero.",
 ["inputs"], "all 2^64 bit patterns per operand; argument lists up to the stated length for min/max",
 T0 + "2^64 operands; rounding and zero-sign cases are single points.",
 [L+"rjs_number.c", L+"rjs_bc_call.c", L+"rjs_math_object_inc.c"],
 [("Number operators", L+"rjs_number.c"), ("Math functions", L+"rjs_math_object_inc.c")], ["operator results", "Math.* results"],
 claim=dict(how="all 2^64 bit patterns per operand; + - * / decided by cvc5 with floating-point theory", level="other",
   note="All units are unbounded except Math.min and Math.max (at most 4 arguments). libm fmod and pow are trusted on finite operands: the contract fixes the special cases and that they are called on the operands."))

prop("C04", "Values survive boxing: every value kind round-trips and none is confused",
 "A value built as undefined, null, boolean, Number, Symbol, string, BigInt or object is recognised as exactly that kind and gives back exactly what was stored, and no Number bit pattern that a script can obtain is ever taken for a reference or another kind. "
 "Reading a Number out of raw bytes never produces a value that decodes as anything but a Number.",
 ["inputs"], "all 2^64 Number bit patterns and all canonical 48-bit addresses",
 T0 + "bit patterns: the forged patterns are NaN payloads a script test does not write.",
 [I+"rjs_value.h", I+"rjs_types.h", L+"rjs_array_buffer_opt.c"],
 [("NaN boxing macros and accessors", I+"rjs_value.h"), ("raw element decoding", L+"rjs_array_buffer_opt.c")], ["typeof", "Float64Array / DataView reads"],
 claim=dict(how="all 2^64 Number patterns, all canonical addresses, all element bytes; loop-free apart from the 8 byte moves", level="proof",
   note="Addresses are assumed canonical 48-bit user-space pointers (x86-64, arm64); user-space heap addresses above 2^47 are outside."))

prop("C05", "Raw element encoding: stores and loads are exact, framed and endian-correct",
 "Storing a value as an element of any type at any in-range offset writes exactly that element's bytes, in the requested byte order, with ECMAScript's conversion for the type, and changes no other byte. "
 "Loading an element returns exactly the value its bytes denote, so a load after a store of the same type and order returns the converted value.",
 ["inputs"], "all element types, all offsets, both byte orders, all byte contents and all Number / BigInt values",
 T0 + "contents x types x offsets x byte orders.",
 [L+"rjs_array_buffer_opt.c", L+"rjs_data_view_object_inc.c"],
 [("raw bytes <-> value", L+"rjs_array_buffer_opt.c")], ["DataView get/set", "typed array element access"],
 claim=dict(how="per element type, all byte contents, offsets, orders and values; byte loops fully unwound (8)", level="proof",
   note="BigInt <-> 64-bit conversions are stubs here (C08 covers them)."))

prop("C06", "Typed arrays and DataViews never access memory outside their buffer",
 "Every element read, write, definition or view access on a typed array or DataView touches only bytes inside the view's own range of its live buffer; an index that is out of range, fractional, negative, -0, or on a detached buffer reads undefined or throws, and writes nothing.",
 ["inputs", "histories"], "all view offsets, lengths, element types, indices and detach states",
 T0 + "offset/length/index combinations; an overrun is silent in a release build.",
 [L+"rjs_int_indexed_object_opt.c", L+"rjs_data_view_object_inc.c", L+"rjs_array_buffer_opt.c", L+"rjs_typed_array_object_inc.c"],
 [("integer-indexed element access", L+"rjs_int_indexed_object_opt.c"), ("GetViewValue / SetViewValue", L+"rjs_data_view_object_inc.c")], ["element access"],
 claim=dict(how="per function, all lengths, offsets, element types, detach states; element loops bounded where stated", level="other",
   note="Buffers up to 2^46 bytes. Constructing from another typed array is bounded at 4 elements; the *_mix units fix some arguments to small integers (the all-doubles variants are thorough). Atomics and methods that work through [[Get]]/[[Set]] are outside."))

prop("C07", "BigInt arithmetic is exact",
 "BigInt +, -, *, /, %, unary -, ++, --, comparison and equality give the exact mathematical integer result for operands of any size and sign, division truncating toward zero and the remainder taking the dividend's sign. "
 "Every result is in the one canonical form, so equal integers compare equal.",
 ["inputs"], "all BigInts (limb counts, limb contents and signs)",
 T0 + "operand pairs; carries and borrows that ripple across limbs need specific contents.",
 [L+"rjs_big_int_internal_opt.c"],
 [("limb arithmetic", L+"rjs_big_int_internal_opt.c")], ["operator results on BigInts"],
 claim=dict(how="128-bit integer oracle; operands up to 3 limbs (add, subtract, compare, inc, dec, negate), 2 by 2 limbs multiplication over arbitrary limb products, division on stated limb tables", level="other",
   note="Every unit is bounded by limb count, division also by limb contents. Exponentiation and decimal conversion are outside. The GMP variant is not built here."))

prop("C08", "BigInt bit operators, shifts and fixed-width wrapping are two's complement",
 "& | ^ ~ << >> on BigInts behave as on infinitely sign-extended two's-complement integers, with >> flooring. BigInt.asIntN, BigInt.asUintN and the conversions to and from 64-bit elements are reduction modulo 2^n into the signed or unsigned range, for every width.",
 ["inputs"], "all BigInts, all shift counts and widths",
 T0 + "operands; negative values crossing limb boundaries fail where positive ones pass.",
 [L+"rjs_big_int_internal_opt.c", L+"rjs_big_int_object_inc.c"],
 [("two's complement operations", L+"rjs_big_int_internal_opt.c")], ["operator results", "BigInt64Array elements"],
 claim=dict(how="128-bit integer oracle; operands up to 3 limbs, widths 0..126, shift counts up to 60 bits left and any right; 64-bit conversions for all 64-bit values", level="other",
   note="Bounded by limb count; from_int64/from_uint64 unbounded."))

prop("C09", "Property descriptors: the ordinary-object invariants always hold",
 "Defining, writing or deleting a property of an ordinary object succeeds exactly when ECMAScript allows it: a non-configurable property never changes kind, enumerability or accessor and is never deleted, a non-configurable non-writable value never changes, and no property is added to a non-extensible object. "
 "A successful definition changes exactly the attributes the descriptor names and leaves the others as they were; a rejected one changes nothing.",
 ["inputs", "histories"], "all current property states x all descriptors (every combination of present fields and attribute values) x extensibility",
 T0 + "state/descriptor combinations (over 10^4 of them), and a wrong one only shows later.",
 [L+"rjs_object.c", L+"rjs_operation.c"],
 [("ValidateAndApplyPropertyDescriptor", L+"rjs_object.c"), ("ordinary [[Set]]/[[Delete]]", L+"rjs_object.c")], ["Object.defineProperty", "assignment", "delete"],
 [("property attributes", "writable/enumerable/configurable flags and data/accessor kind", I+"rjs_object.h")],
 claim=dict(how="all property states, all descriptors, all extensibility states, any value of undefined/null/boolean/Number/two objects; loop-free", level="proof",
   note="The property table is used through its map contract (one cell per key, C10). Getters, setters and the methods of other objects are arbitrary-result stubs. String and BigInt values are represented by identity."))

prop("C10", "Object property storage behaves as a map under every history",
 "After any sequence of additions, redefinitions and deletions of index, string and symbol keys, looking a key up finds exactly the last value stored under it if it is present and nothing otherwise, whichever internal representation is in use. "
 "Own keys are listed with array indices ascending first, then strings, then symbols in creation order, each exactly once.",
 ["inputs", "histories"], "all histories of key additions and deletions, dense and sparse",
 T0 + "histories; representation changes (vector <-> tree) only trigger on particular index patterns.",
 [L+"rjs_object.c", L+"rjs_hash.c", L+"rjs_rbt.c"],
 [("vector/tree/hash property storage", L+"rjs_object.c"), ("red-black tree", L+"rjs_rbt.c"), ("hash table", L+"rjs_hash.c")], ["property get", "Object.keys"],
 [("index storage", "dense vector or red-black tree of index properties", L+"rjs_object.c")],
 claim=dict(how="the property table operations (lookup, add, delete, delete-from-index, list keys) against a map specification, over dense, holed, sparse and converting states", level="other",
   note="Bounded, not counted as proved: at most 6 index keys from 24 states and 12 key values, at most 4 named keys; tree and hash table stand for their contracts, proved under C19. Compaction thresholds are the ones of the code."))

prop("C11", "Array length and elements stay consistent",
 "An array's length is always an integer in 0..2^32-1 strictly greater than every index it holds; defining an index at or past the length raises it to index+1, only if length is writable, and setting length to n deletes exactly the elements at n and above, stopping just above the last that cannot be deleted. "
 "A length that is not a valid array length throws RangeError and changes nothing.",
 ["inputs", "histories"], "all lengths, all 2^32 indices, all descriptors, writable and frozen lengths",
 T0 + "(length, descriptor, element state) triples.",
 [L+"rjs_array.c"], [("ArraySetLength and array [[DefineOwnProperty]]", L+"rjs_array.c")], ["array.length", "Object.defineProperty on arrays"],
 claim=dict(how="ArraySetLength, array [[DefineOwnProperty]], internal element set and array creation for all lengths, indices and descriptors by modular contracts", level="other",
   note="The removal of elements from an index is specified by contract; its body is verified over bounded property tables (units props_cut*, bounded)."))

prop("C12", "Array-index property keys are recognised canonically",
 "A string key is treated as array index i exactly when it is the canonical decimal form of i in 0..2^32-2 (no sign, no leading zero, no blanks), and a Number key reaches the same property as its string form. Every other string stays a distinct string key.",
 ["inputs"], "all strings, all Numbers used as keys",
 T0 + "strings; aliasing of '01' or ' 1' with 1 is silent.",
 [L+"rjs_string.c", I+"rjs_string.h", I+"rjs_object.h"],
 [("string to index conversion", L+"rjs_string.c")], ["obj['01'] vs obj[1]"],
 claim=dict(how="string-to-index conversion for strings of any length (at most 11 units are read) and any units; Number keys for all Numbers; the element access helpers for all 64-bit indices; key resolution", level="proof",
   note="The digits of Numbers that are no array index are rjs_dtoa's (C28, not applicable). Interning of string keys is C15's and C19's."))

prop("C13", "Prototype chains stay acyclic and extensibility is one-way",
 "Changing an object's prototype succeeds exactly when the object is extensible or the prototype is unchanged, and never closes a cycle; a rejected change leaves the prototype as it was. Once an object is made non-extensible it stays so.",
 ["inputs", "histories"], "all chains and all sequences of prototype changes and preventExtensions calls",
 T0 + "chain shapes; a cycle turns property lookup into a hang.",
 [L+"rjs_object.c"], [("ordinary [[SetPrototypeOf]]", L+"rjs_object.c")], ["Object.setPrototypeOf"],
 claim=dict(how="chains of any length (loop contract over the prototype chain); all extensibility states and answers of the internal methods", level="proof",
   note="Chain membership is a ghost sequence supplied by the stub of the chain step; that a chain is finite and acyclic is the invariant assumed before and re-established after. Freezing, sealing and their tests are bounded at 2 own keys."))

prop("C14", "Proxies cannot break the invariants of their target",
 "For every handler, a proxy operation either reports a result consistent with the target's non-configurable properties, non-writable values, extensibility and prototype, as ECMAScript's invariants demand, or throws TypeError. A revoked proxy throws on every operation, and a missing trap forwards to the target.",
 ["inputs", "programs"], "all trap results, all target property states, all handler shapes",
 T0 + "trap results x target states; one missing invariant check is a capability leak no ordinary script sees.",
 [L+"rjs_proxy_object_opt.c"], [("proxy internal methods", L+"rjs_proxy_object_opt.c")], ["every operation on a Proxy"])

prop("C15", "String search, comparison, slicing and code points are exact",
 "Comparing, searching (first and last occurrence from any position), slicing and concatenating strings agree with the sequences of 16-bit units, never read outside them, and code point access combines exactly well-formed surrogate pairs. Equal contents give equal strings and equal property keys.",
 ["inputs"], "all string contents, lengths and positions, including unpaired surrogates",
 T0 + "contents and positions; off-by-one failures sit at ends and at surrogate boundaries.",
 [L+"rjs_string.c", I+"rjs_string.h"], [("string primitives", L+"rjs_string.c")], ["String.prototype methods"])

prop("C16", "URI encoding and decoding are inverse and reject malformed input",
 "encodeURI and encodeURIComponent produce exactly the UTF-8 percent encoding of every character outside their unreserved set and throw URIError for unpaired surrogates; decoding inverts encoding. Decoding throws URIError for every percent sequence that is truncated, not hexadecimal, or not shortest-form well-formed UTF-8, and never reads past the end of the string.",
 ["inputs"], "all strings of 16-bit units",
 T0 + "byte sequences; overlong, surrogate and truncated forms are the security-relevant ones.",
 [L+"rjs_uri_functions_inc.c"], [("Encode / Decode", L+"rjs_uri_functions_inc.c")], ["encodeURIComponent", "decodeURIComponent"],
 claim=dict(how="Decode and Encode for strings of any length by loop contracts over a ghost position (specification step by step, UTF-8 by Unicode's table of well-formed sequences); the four functions; the unit buffer", level="proof",
   note="Copies into the buffer are bounded at 12 units per call and 8 units before it; the URIError object is rjs_throw's."))

prop("C17", "Date arithmetic: day, month, year and time fields are exact for all times",
 "For every time value in range, splitting it into year, month, day, weekday, hour, minute, second and millisecond gives the proleptic Gregorian fields, each in its range, and recombining them gives back the time value, before and after the epoch. Out-of-range or non-finite parts make an invalid date, never a wrong one.",
 ["inputs"], "all integral time values |t| <= 8.64e15 and all field values",
 T0 + "times; negative times and century boundaries are where the arithmetic breaks.",
 [L+"rjs_date_object_inc.c"], [("Day/YearFromTime/MakeDay/MakeTime/TimeClip", L+"rjs_date_object_inc.c")], ["Date getters, setters and Date.UTC"],
 claim=dict(how="calendar functions for all |t| <= 9e15 by modular contracts (the year search by a loop contract); every getter and setter, Date.UTC and TimeClip for all arguments; MakeTime/MakeDay/MakeDate values, day() and day_from_year() on stated windows", level="other",
   note="Assumed: floating-point quotients outside the windows, and that D*v < D*q+r iff v < q or (v = q and r > 0). Time-zone tables, parsing and formatting are outside."))

prop("C18", "Sorting returns a stable sorted permutation",
 "Array and typed-array sort return a permutation of the elements ordered by the comparison, equal elements keeping their order, with undefined elements last and holes after them; whatever the comparison function answers, no element is lost, duplicated or read out of range.",
 ["inputs", "programs"], "all arrays, all comparison functions",
 T0 + "(array, comparator) pairs; inconsistent comparators are never tested.",
 [L+"rjs_sort.c", L+"rjs_array_object_inc.c"], [("sort algorithm", L+"rjs_sort.c")], ["Array.prototype.sort"],
 claim=dict(how="rjs_sort from every starting order of up to 4 elements with an arbitrary, possibly inconsistent comparator; both comparators for all values; Array and typed-array sort, toSorted-style collection and write-back from small arrays with holes", level="other",
   note="Bounded: at most 4 elements. SortCompare is proved for all inputs; the calls of the user's function return arbitrary values and may fail at any call."))

prop("C19", "The engine's containers keep their structural invariants",
 "The hash tables, red-black trees, lists and vectors that hold properties, Map/Set entries, environments and intern tables contain exactly the entries inserted and not removed, after any sequence of operations; trees stay ordered and balanced; growth loses nothing.",
 ["histories", "inputs"], "all operation histories and key/hash distributions",
 T0 + "histories; rebalancing and rehash cases need particular shapes.",
 [I+"rjs_hash.h", L+"rjs_hash.c", L+"rjs_rbt.c", L+"include/"+"rjs_rbt.h", I+"rjs_list.h", I+"rjs_vector.h"],
 [("hash table", L+"rjs_hash.c"), ("red-black tree", L+"rjs_rbt.c"), ("intrusive list", I+"rjs_list.h")], ["every property and binding access"],
 claim=dict(how="every operation of the hash table, the red-black tree and the lists from every shape within the bound, with the structural invariant and the map contents checked after it; hashing agrees with key equality for all keys", level="other",
   note="Bounded: red-black trees of at most 6 (insert) and 7 (delete) nodes, all shapes; hash tables of at most 3 entries before an operation, with growth; lists of at most 3 nodes. Each operation starts from every state satisfying the invariant, so histories follow by induction within the bound."))

prop("C20", "Map and Set: lookup, deletion and iteration order",
 "A Map or Set holds one entry per distinct key under SameValueZero, iterates entries in insertion order, and an iteration that is in progress visits every entry not yet visited exactly once even while entries are added, deleted or cleared.",
 ["histories"], "all histories of set/add/delete/clear interleaved with iteration steps",
 T0 + "interleavings of mutation and iteration.",
 [L+"rjs_hash_object_inc.c", L+"rjs_map_object_inc.c", L+"rjs_set_object_inc.c"], [("ordered hash", L+"rjs_hash_object_inc.c")], ["Map/Set methods, for-of"],
 claim=dict(how="every Map and Set method, iterator step and forEach from every state of up to 3 entries and 2 iterators, against ECMAScript's list model; the hash agrees with SameValueZero for all keys", level="other",
   note="Bounded: at most 3 entries and 2 iterators before an operation (list surgery is local and iterators are independent), forEach with 2 entries and two arbitrary mutations. The hash table stands for its map contract (C19). Construction from iterables and the weak collections are outside."))

prop("C21", "Declarative bindings: TDZ, const and deletion",
 "A binding read before initialisation throws ReferenceError, assigning to a const throws TypeError (or is ignored only for non-strict function names) and never changes it, an initialised binding always yields the value last assigned, and only deletable bindings are removed.",
 ["histories", "programs"], "all sequences of create, initialise, assign, read and delete on an environment",
 T0 + "operation orders.",
 [L+"rjs_decl_env.c"], [("declarative environment record", L+"rjs_decl_env.c")], ["let/const/class/function bindings"],
 [("binding flags", "initialised, mutable, strict, deletable", L+"rjs_decl_env.c")],
 claim=dict(how="every operation of declarative, module and function environment records over all binding states by modular contracts; the binding index cache; creation and per-iteration copies of block bindings from the declaration to the binding flags", level="proof",
   note="The hash table stands for its map contract; fewer than 65535 bindings per environment. Groups of at most 2 declarations stand for larger groups in the code generation units. That callers create and initialise a binding once is assumed, as in the specification."))

prop("C22", "A promise settles at most once and each reaction runs once",
 "Of all calls to a promise's resolving functions only the first has any effect; a promise that is fulfilled or rejected never changes state or value again, each registered reaction is queued exactly once with the settled value, and a promise resolved with itself is rejected with TypeError.",
 ["histories", "schedules"], "all orders of resolve, reject and then calls",
 T0 + "call orders.",
 [L+"rjs_promise.c"], [("resolve/reject functions and reaction jobs", L+"rjs_promise.c")], ["Promise reactions"],
 [("promise state", "pending, fulfilled or rejected, with result and reaction lists", L+"rjs_promise.c")],
 claim=dict(how="resolve, reject, then, reaction and thenable jobs, capability creation and Promise.resolve by modular contracts over all promise states", level="other",
   note="Reaction lists of at most 3 entries stand for lists of any length. The built-in combinators (all, race, any) and async functions are outside."))

prop("C23", "Garbage collection never frees a reachable object",
 "After a collection every object reachable from the roots is still allocated with unchanged contents, every unreachable one is released exactly once, and weak references to released objects are cleared.",
 ["histories", "schedules"], "all heap graphs, all points at which a collection can start",
 T0 + "heap shapes x collection points.",
 [L+"rjs_gc.c"], [("mark and sweep", L+"rjs_gc.c")], ["any later access"])

prop("C24", "JSON text round-trips and is always well formed",
 "JSON.stringify quotes every string into well-formed JSON (escaping controls, quotes, backslashes and unpaired surrogates) and JSON.parse of that text gives back the same string; malformed JSON text always throws SyntaxError.",
 ["inputs"], "all strings and all texts", T0 + "strings; escapes at surrogate boundaries.",
 [L+"rjs_json_opt.c"], [("QuoteJSONString", L+"rjs_json_opt.c"), ("JSON parser", L+"rjs_json_opt.c")], ["JSON.stringify", "JSON.parse"])

prop("C25", "Generators resume in the right state or throw",
 "A generator that is running cannot be resumed (TypeError), a completed one always reports done without running again, and next/throw/return on a suspended one resume exactly where it was suspended.",
 ["histories"], "all sequences of next, throw and return, including re-entrant ones", T0 + "re-entrant call sequences.",
 [L+"rjs_generator_opt.c"], [("GeneratorValidate / Resume", L+"rjs_generator_opt.c")], ["generator methods"])

prop("C26", "Module namespace objects are read-only views of the exports",
 "A module namespace is non-extensible, has a null prototype that cannot be changed, lists exactly its exports in sorted order, reads the live binding of each, and rejects every write, redefinition that differs, and deletion of an export.",
 ["inputs", "histories"], "all keys, descriptors and binding states", T0 + "descriptor/key combinations.",
 [L+"rjs_module_ns_object_opt.c"], [("namespace exotic methods", L+"rjs_module_ns_object_opt.c")], ["import * as ns"])

prop("C27", "Mapped arguments objects track parameters until unmapped",
 "In sloppy functions with simple parameters arguments[i] and the i-th parameter are one variable until the element is deleted, made an accessor or made non-writable; after that neither affects the other, and the value seen at unmapping is kept.",
 ["histories"], "all sequences of defines, sets, deletes and parameter assignments", T0 + "operation sequences.",
 [L+"rjs_arguments_object.c"], [("mapped arguments exotic methods", L+"rjs_arguments_object.c")], ["arguments"])

prop("C28", "Number to string and back is the identity",
 "Converting a Number to a string gives the shortest decimal that reads back as the same Number, laid out as ECMAScript prescribes, and parsing any numeric string gives the correctly rounded Number.",
 ["inputs"], "all 2^64 Numbers, all numeric strings, radices 2..36", T0 + "2^64 Numbers.",
 [L+"rjs_dtoa.c", L+"rjs_number.c", L+"rjs_number_object_inc.c", L+"rjs_string.c"], [("dtoa/strtod", L+"rjs_dtoa.c"), ("digit layout", L+"rjs_number.c")], ["String(n)", "Number(s)"],
 na="rjs_dtoa.c (David Gay's arbitrary-precision conversion, 6200 lines with heap-allocated bignums and data-dependent loops) needs number-theoretic invariants over unbounded integers that CBMC's bit-vector contracts cannot express; a bounded check of it would not reach any interesting exponent")
prop("C29", "Regular expression matching agrees with the backtracking semantics",
 "For every pattern and input, exec finds the match and captures that the ECMAScript matching semantics defines, at the lowest start position, without reading outside the input.",
 ["inputs", "programs"], "all patterns and inputs", T0 + "(pattern, input) pairs.",
 [L+"rjs_regexp.c"], [("compiler and backtracking matcher", L+"rjs_regexp.c")], ["RegExp.prototype.exec"],
 na="the specification is a continuation semantics over a parsed pattern and the matcher is one 3000-line mutually recursive interpreter with an explicit heap-allocated backtrack stack; a contract per opcode would restate the code, and CBMC has no inductive predicates to relate it to the declarative semantics")
prop("C30", "Parsing and code generation preserve program meaning",
 "A script accepted by the engine behaves as ECMAScript defines: every construct is compiled to code with that construct's evaluation order, scoping and completion, and every early error is reported before anything runs.",
 ["programs"], "all source texts", "The tests run a fixed set of small scripts through njsgen only.",
 [L+"rjs_parser.c", L+"rjs_bc_gen.c", L+"rjs_lex.c", L+"rjs_script.c"], [("parser", L+"rjs_parser.c"), ("byte code generator", L+"rjs_bc_gen.c")], ["program behaviour"],
 na="needs a formal semantics of ECMAScript and of the byte code and a simulation proof between them; CBMC contracts range over C states and cannot express evaluation of a syntax tree")
prop("C31", "Atomics and shared buffers are sequentially consistent across agents",
 "Atomic read-modify-write operations on shared buffers are indivisible and sequentially consistent, wait/notify never loses a wakeup, and shared block reference counts never go wrong.",
 ["schedules"], "all interleavings of agents", "The tests are single-threaded.",
 [L+"rjs_atomics_object_inc.c", L+"rjs_data_block_opt.c"], [("locked data block operations", L+"rjs_data_block_opt.c")], ["Atomics.*"],
 na="the deductive back end available here (CBMC contracts under dfcc) is sequential: it has no concurrent separation logic or ownership for pthread mutexes, so interleavings cannot be a postcondition of these functions")
prop("C32", "Module graphs link, instantiate and evaluate each module once",
 "Every module of a cyclic import graph is linked and evaluated exactly once in post-order, errors are remembered and rethrown to every importer, and import bindings resolve to the one exporting module or fail as ambiguous.",
 ["programs", "schedules"], "all import graphs and completion orders of asynchronous modules", "No stable test links a module graph.",
 [L+"rjs_module_opt.c"], [("Link/Evaluate (Tarjan SCC)", L+"rjs_module_opt.c")], ["import"],
 na="the postcondition is a reachability/SCC property over an unbounded heap graph explored by recursion through indirect calls and job callbacks; CBMC's contract language has no inductive heap predicates to state it, and a bounded graph would be a model of the histories rather than a proof")
prop("C33", "Jobs run one at a time, in FIFO order, each exactly once",
 "Promise jobs and resolved asynchronous operations run in the order queued, each exactly once, including those queued while jobs run; a failing job does not drop the later ones; a job that asks for jobs to be solved is not run again by that; each job runs in the realm it was queued with and the previous realm is restored; job data is released exactly once even for jobs that never run.",
 ["schedules", "histories"], "all orders of enqueueing", "The tests never queue a job.",
 [L+"rjs_job.c"], [("job queue", L+"rjs_job.c")], ["promise reaction order"],
 claim=dict(how="rjs_job_enqueue, rjs_solve_jobs and the script job functions against a queue specification, with jobs that queue, solve and fail", level="other",
   note="Queues of at most 3 jobs plus those queued meanwhile; a job's own work is a stub that may queue jobs and solve jobs."))
prop("C34", "Iterators and async functions close and resume exactly as specified",
 "Leaving a for-of loop, destructuring or yield* early calls the iterator's return method exactly once and keeps the original completion; async functions and async generators resume once per awaited value and settle their requests in order.",
 ["programs", "histories"], "all iterator behaviours and completion kinds", "No stable test runs iteration protocols.",
 [L+"rjs_iterator.c", L+"rjs_generator_opt.c", L+"rjs_async_function_object_inc.c"], [("IteratorClose", L+"rjs_iterator.c")], ["for-of, yield*"])
prop("C35", "Native-binding marshalling: C values cross the boundary unchanged",
 "Every script value stored into, or loaded from, a C object of a declared native type arrives with exactly the C conversion of that type, touches exactly that object's bytes, and out-of-range indices or fields never reach memory.",
 ["inputs"], "all values, all declared C types, all indices", "The njsgen tests call a few bindings with a few values each.",
 [L+"rjs_ctype_opt.c"], [("load/store of C types", L+"rjs_ctype_opt.c")], ["cptr element and member access"])
