PBT = 'property-based testing against an independent model, under ASan/UBSan, with shrinking; coverage-guided fuzzing in the thorough tier'

prop('C15', 'Movable wrappers empty their source and keep the value',
     'A movable value, pointer or literal holds the value it was last given, and moving it transfers that value to the target and leaves the source without ownership of it (empty, or holding what the target held before). Self-move (of a type which allows it) and self-assignment keep the value. Conversions, dereference and swaps read and write exactly the held value, and copies are made only when a copy was asked for.',
     ['histories'], 'every history of assignments, copies, moves and swaps over several holders',
     'Tests move one holder once into a fresh one.',
     ['MovablePtr.hpp', 'MovablePtr.inl', 'MovableValue.hpp', 'MovableValue.inl'], [('pointer transfer', 'MovablePtr.inl operator='), ('value and literal transfer', 'MovableValue.inl operator=')],
     ['Get/operator*', 'state of the source after a move', 'copies made'], MODEL, NOTE)

prop('C16', 'Scope guards and deferred code run exactly once, in reverse order',
     'The function held by a scope guard is called exactly once: when the guard is destroyed (by any exit of the scope, exceptions included) or when it is called and reset explicitly, and never after it was reset without a call or moved to another guard. Guards and deferred statements of one scope run in the reverse order of their creation. What the function captured lives until it was called and is destroyed afterwards.',
     ['histories', 'schedules'], 'every nest of scopes left by return, break, continue or exception, and every history of moves, resets and calls of guards',
     'Tests cover one guard and one exit; order and multiplicity over several guards, moves and exits are not covered.',
     ['CallOnExit.hpp', 'CallOnExit.inl'], [('call on destruction', 'CallOnExit.inl ~CallOnExit'), ('transfer', 'CallOnExit.inl operator='), ('deferred statement', 'CallOnExit.hpp NAZARA_DEFER')],
     ['calls and their order', 'lifetime of captured state'], 'stateful property-based testing: generated nests of scopes and guard histories against the expected call log', NOTE)

prop('C17', 'A function reference calls exactly the callable it was bound to',
     'Calling a function reference calls the callable it was bound to, once, with the same arguments (identity of references and moves preserved) and gives back its result, whatever the kind of callable (function, functor, const or mutable lambda, another reference) and however the reference was copied since. It never copies or modifies the callable by itself. Rebinding changes the callable for later calls only.',
     ['histories', 'programs'], 'every kind of callable and signature, and every history of binding, copying and calling',
     'Tests call lambdas of one signature.',
     ['FunctionRef.hpp', 'FunctionRef.inl'], [('type erasure', 'FunctionRef.inl FunctionRef(F&&)'), ('call', 'FunctionRef.inl operator()')],
     ['result', 'arguments received', 'calls and copies of the callable'], 'property-based testing: differential with calling the callable directly', NOTE)

prop('C18', 'Flags behave as sets of enumeration values',
     'A flags object holds exactly the values it was built from and was given since: setting, clearing, testing, combining (or, and, xor, complement), comparing and iterating agree with the same operations on sets of enumeration values, up to the maximum value of the enumeration and never beyond. Testing several values at once asks for all of them, and iteration visits each set value once in increasing order. Conversion to an integer and back keeps the set, and equal sets have equal hashes.',
     ['inputs', 'histories', 'configurations'], 'every enumeration of 1 to 64 values (as indices or as bits, auto-flag or not) and every history of operations',
     'Tests use one enumeration of few values; widths around 8, 16, 32 and 64 flags take other paths.',
     ['Flags.hpp', 'Flags.inl'], [('mask of valid bits', 'Flags.hpp ValueMask'), ('bit of a value', 'Flags.inl GetFlagValue'), ('iteration', 'Flags.inl iterator'), ('enum operators', 'Flags.inl FlagsOperators')],
     ['Test/operator&', 'conversion to integer', 'iteration', 'comparison', 'hash'], MODEL, NOTE)

prop('C19', 'An enum array maps each enumeration value to its own entry',
     'An enum array holds one entry per enumeration value; reading or writing an entry through its value, its iterators, its key-value view or its raw data reaches that entry and no other, and size, front, back and bounds agree with the enumeration. Iterators, key-value iterators included, move and compare like positions in a sequence. Copies, swaps and fills affect exactly the entries asked.',
     ['inputs', 'histories'], 'every enumeration (1 to 300 values, any underlying type) and every history of writes, copies, swaps and iterator moves',
     'Tests index one array of three values.',
     ['EnumArray.hpp', 'EnumArray.inl'], [('index conversion', 'EnumArray.inl operator[]'), ('key-value iterator', 'EnumArray.inl internal_iterator')],
     ['entries through every access path', 'iterator positions'], MODEL, NOTE)

prop('C20', 'Bit helpers are exact for every integer of every width',
     'Bit counts, first and last set bits, bit tests and edits, reversal, arithmetic right shifts, power-of-two tests and rounding, and integral logarithms give the mathematically exact answer for every value of every integer width and signedness, negative values being seen as their two\'s complement bits of that width. None of them has undefined behaviour for any value it accepts.',
     ['inputs', 'configurations'], 'every value of 8 to 64-bit signed and unsigned integers with every bit index and shift count below the width',
     'A few constants per function are tested; compilers take distinct code paths (intrinsics, tables, loops) per width.',
     ['MathUtils.hpp', 'MathUtils.inl'], [('counts and searches', 'MathUtils.inl CountBits/FindFirstBit/FindLastBit'), ('logarithms', 'MathUtils.inl IntegralLog2'), ('shifts and reversal', 'MathUtils.inl ArithmeticRightShift/ReverseBits'), ('rounding', 'MathUtils.inl GetNearestPowerOfTwo/RoundToPow2')],
     ['results'], 'exhaustive (8 and 16-bit) and generated inputs against bit-by-bit loops, under UBSan', NOTE)

prop('C21', 'Numeric helpers and constants match exact arithmetic',
     'Clamping, aligning, approaching, interpolating, modulo, powers, multiply-add, angle conversion, classification and approximate comparison give the result of exact arithmetic (within a few units of the last place for floating point) for every input whose result is representable, without overflow on the way. Approach never passes its objective and alignment gives the nearest multiple not below the offset. Constants have the precision of the type asked.',
     ['inputs', 'configurations'], 'every operand (extreme, equal, negative) of 8 to 64-bit integers and of floating-point types',
     'Tests use small operands of int and float.',
     ['MathUtils.hpp', 'MathUtils.inl', 'Constants.hpp', 'Constants.inl'], [('alignment', 'MathUtils.inl Align/AlignPow2'), ('approach and interpolation', 'MathUtils.inl Approach/Lerp'), ('comparison', 'MathUtils.inl NumberEquals'), ('constants', 'Constants.hpp MathConstants')],
     ['results'], 'property-based testing against 128-bit integer and long double arithmetic, under UBSan', NOTE)

prop('C23', 'Byte order conversions are exact and reversible',
     'Swapping the bytes of a value or buffer reverses exactly its bytes and touches nothing else, whatever the type, size and address; swapping twice gives the original back. Conversions from and to a given byte order swap if and only if that order is not the one of the machine, so that a value written in little (big) endian has its least (most) significant byte first.',
     ['inputs', 'configurations'], 'every value of every arithmetic, enumeration or floating-point type and every buffer',
     'Tests swap one constant per width; empty and odd buffers and floating-point types are not covered.',
     ['Endianness.hpp', 'Endianness.inl'], [('byte swap', 'Endianness.inl ByteSwap/SwapBytes'), ('order selection', 'Endianness.inl BigEndianToHost/LittleEndianToHost')],
     ['bytes of the result', 'bytes around the buffer'], 'exhaustive (8 and 16-bit) and generated values and buffers against byte-by-byte reversal, under ASan/UBSan', NOTE)

prop('C24', 'Hashes match their reference and depend only on the content',
     'CRC-32, FNV-1a (32 and 64-bit) of a byte sequence equal the published algorithms, whether the content is given as a literal, an array, a string view or a pointer and size, at compile time or at run time. Combining hashes is a pure function of the operands in order. Equal values have equal hashes and the functors can be used with standard containers.',
     ['inputs', 'configurations'], 'every byte string (any length, any byte value) through every overload, and every list of combined values',
     'Tests hash a few ASCII literals; bytes above 127, null bytes and non-literal arrays take other paths.',
     ['Hash.hpp', 'Hash.inl', 'StringHash.hpp', 'StringHash.inl'], [('CRC table', 'Hash.inl CRC32'), ('FNV-1a', 'Hash.inl FNV1a32/FNV1a64'), ('combination', 'Hash.inl HashCombine')],
     ['hash values', 'lookups in unordered containers'], 'property-based testing: differential with independent implementations of the published algorithms', NOTE)

prop('C25', 'A sparse pointer moves like a pointer to strided elements',
     'Element n from a sparse pointer is the object n strides further, for every index type, stride (negative ones included) and distance; increments, offsets, differences and comparisons agree with positions in the sequence, and standard algorithms give the same result as over a plain array. Converting to a const or base class pointer keeps designating the same objects.',
     ['inputs', 'histories'], 'every stride, index type and history of pointer moves over an interleaved buffer',
     'Tests walk two small buffers with int indices.',
     ['SparsePtr.hpp', 'SparsePtr.inl'], [('indexing', 'SparsePtr.inl operator[]/operator+'), ('difference', 'SparsePtr.inl operator-'), ('conversion', 'SparsePtr.inl SparsePtr(const SparsePtr<U>&)')],
     ['addresses and values reached', 'results of algorithms'], MODEL, NOTE)

prop('C28', 'Checked casts keep the value or report its loss',
     'A checked cast gives exactly the same value in the target type when that type can represent it. When it cannot (out of range, sign lost, not an object of the target class), the cast fails an assertion in builds with assertions instead of giving another value. Integers, enumerations, booleans, floating-point numbers, pointers and references are all covered, lvalue or rvalue.',
     ['inputs', 'configurations'], 'every pair of arithmetic types with every value, and every object of a class hierarchy',
     'Tests cover some limits of integers; the product of type pairs and values is too large to sample by hand.',
     ['Algorithm.hpp', 'Algorithm.inl'], [('integer and floating ranges', 'Algorithm.inl SafeCast'), ('dynamic type', 'Algorithm.inl SafeCast (pointers and references)'), ('deferred casts', 'Algorithm.inl SafeCaster'), ('pointers as integers', 'Algorithm.inl PointerToInteger/IntegerToPointer')],
     ['value given back', 'assertion failures'], 'property-based testing of every type pair against exact representability, assertion failures being intercepted', NOTE)

prop('C22', 'Constant evaluation and run time give the same answers',
     'Every function and type offered for constant expressions (bit and numeric helpers, byte order, hashes, casts, flags, bitsets, enum arrays, results, movable values) can be evaluated by the compiler on every input it accepts, and gives the same answer there as at run time. Floating-point answers may differ by rounding only. This holds for every history of operations on an object living in a constant expression.',
     ['inputs', 'histories', 'configurations', 'programs'], 'every argument in the domain of each constexpr function, and every history of operations on constexpr-capable types, for each compiler and language version',
     'Tests static_assert a few constants; constant evaluation takes other code paths than run time (intrinsics against loops).',
     ['MathUtils.inl', 'Algorithm.inl', 'Hash.inl', 'Bitset.inl', 'Flags.inl', 'EnumArray.inl', 'Result.inl', 'ConstantEvaluated.hpp'], [('choice of the code path', 'ConstantEvaluated.hpp NAZARA_IS_RUNTIME_EVAL'), ('paths without intrinsics', 'MathUtils.inl CountBits/FindFirstBit/FindLastBit/ByteSwap/Mod')],
     ['constexpr values', 'run-time values'], 'generated programs: differential between constant evaluation and run-time evaluation of the same generated expressions and histories', 'Search, not proof: about 2000 generated expressions and histories per run, compiled by two compilers in three language versions. FixedVector is not in it: its byte storage can not be used in a constant expression. Does not see an error common to both evaluations (the other properties do).')

prop('C26', 'Type lists and traits answer as lists of types do',
     'Appending, prepending, concatenating, removing, deduplicating, transforming, indexing, searching, measuring, instantiating and applying over type lists give what the same operation gives on a plain list of types, in order, for any mix of types. Traits (counts of enumeration values, pointed type, function pointer, completeness, first type, reference and qualifier removal, hidden copy and move constructors) give the type or value their name says for every qualified type.',
     ['programs', 'inputs'], 'every type list and chain of list operations, and every type',
     'Tests assert a few fixed lists; duplicates, empty lists, lists within lists and cv-qualified types are not covered.',
     ['TypeList.hpp', 'TypeList.inl', 'TypeTraits.hpp', 'TypeTag.hpp'], [('list operations', 'TypeList.inl Detail'), ('enumeration counts', 'TypeTraits.hpp EnumValueCount'), ('completeness', 'TypeTraits.hpp IsComplete')],
     ['types and constants given back', 'functors called by TypeListApply'], 'generated programs: chains of list operations and qualified types whose answers are computed by plain lists in the generator', 'Search, not proof: about 13000 generated assertions per run, with two compilers; other programs for every seed. A program which no longer compiles is a violation.')

prop('C27', 'Function traits, overload selection and type names match the source',
     'The traits of any callable type (function, pointer, reference, member function or functor with any combination of const, volatile, reference and noexcept qualifiers) give its return type, arguments, argument count and function type. Selecting an overload by its arguments gives exactly that overload, and combined visitors call the handler of the type visited. The name of a type is its qualified name as spelled in the source, at any length and nesting, and two types have the same name if and only if they are the same type.',
     ['programs', 'inputs'], 'every callable signature with its qualifiers, every overload set and every named type',
     'Tests look at a handful of signatures and short names; there are 24 qualifier combinations per kind of callable.',
     ['FunctionTraits.hpp', 'TypeName.inl', 'TypeTraits.hpp'], [('qualifier combinations', 'FunctionTraits.hpp FunctionTraits'), ('selection', 'FunctionTraits.hpp OverloadResolver'), ('name extraction', 'TypeName.inl NzDetailTypeName')],
     ['traits', 'function selected and called', 'type name'], 'generated programs: callables, overload sets and named types whose traits, targets and names are known from the way they were built', 'Search, not proof: about 3000 generated assertions per run, with two compilers; other programs for every seed. A program which no longer compiles is a violation. Names are compared without the optional spaces around symbols; builtin types use the spelling of each compiler.')

prop('C29', 'Text and path conversions keep every byte and code point',
     'Converting text between narrow and UTF-8 strings, views and pointers, or to and from paths, keeps exactly the same bytes, including null characters where the type carries a size; views keep designating the same memory and strings own theirs. Paths are given back in UTF-8 with single forward slashes as separators and are otherwise unchanged. No conversion reads past the given text.',
     ['inputs', 'configurations'], 'every valid UTF-8 text (1 to 4 bytes per character, empty, with null characters) and every path made of such texts',
     'Tests convert one or two strings.',
     ['StringUtils.hpp', 'StringUtils.inl', 'PathUtils.hpp', 'PathUtils.inl'], [('UTF-8 strings', 'StringUtils.inl'), ('paths', 'PathUtils.inl')],
     ['bytes of the result'], 'property-based testing: round trips against the bytes of the text, exact-size buffers under ASan; coverage-guided fuzzing in the thorough tier', NOTE)

prop('C30', 'Assertions stop exactly when enabled and false, else cost nothing',
     'With assertions enabled, an assertion whose condition is false stops the program after printing its message (with its formatted arguments, file and line), and one whose condition is true does nothing but evaluate the condition once. With assertions disabled the macros evaluate nothing. In both cases an assertion is one statement, which can be used in any control flow and in constant expressions, where a failure is not a constant expression.',
     ['inputs', 'configurations', 'programs'], 'every condition, message and arguments, in every statement position, with assertions enabled, disabled or by default',
     'A failed assertion ends the test process, so that tests never see one.',
     ['Assert.hpp', 'Assert.inl', 'DebugBreak.hpp'], [('macros', 'Assert.hpp NazaraAssert/NazaraAssertMsg'), ('failure', 'Assert.inl AssertFailure')],
     ['signals', 'standard error', 'evaluations of the operands'], 'property-based testing in which failures are intercepted (signals caught in the process) in builds with each setting', NOTE)

prop('C31', 'Memory helpers reach exactly the bytes they name',
     'Access by offset, member offsets, bit casts, element counts, in-place construction and destruction, and handlers combined from several callables reach exactly the object, member, bytes or handler asked for: bit casts keep the representation, member offsets are relative to the class asked for even when the member is inherited, in-place construction writes the object and nothing around it, and constructs or destroys exactly once. This holds for any type, offset and address the operation accepts.',
     ['inputs'], 'every byte pattern, offset, class layout and constructor argument',
     'Tests look at one or two types each.',
     ['Algorithm.hpp', 'Algorithm.inl', 'MemoryHelper.hpp', 'MemoryHelper.inl', 'OffsetOf.hpp', 'TypeTraits.hpp'], [('bit casts', 'Algorithm.inl BitCast'), ('in-place construction', 'MemoryHelper.inl PlacementNew'), ('offsets', 'OffsetOf.hpp'), ('access', 'Algorithm.inl AccessByOffset')],
     ['bytes', 'addresses', 'live objects'], 'property-based testing against memcpy, real addresses and tables of live objects, under ASan/UBSan', NOTE)

prop('C32', 'Broken preconditions are caught before any damage',
     'In builds with assertions, an operation called outside of its documented precondition (index, position, range or count out of bounds, empty container, full fixed container, freed or foreign pool entry, exhausted iterator, missing key, value out of domain) fails an assertion instead of continuing, and the object is as it was before. An operation called within its precondition, at the very limit included, never fails one.',
     ['inputs', 'histories'], 'every checked operation of bitsets, vectors, stack arrays, pools, flags, enum arrays, signals and helpers, with arguments below, at and past each limit',
     'A failed assertion ends the test process, so that tests never call outside of a precondition.',
     ['Bitset.inl', 'FixedVector.inl', 'StackVector.inl', 'StackArray.inl', 'MemoryPool.inl', 'MathUtils.inl', 'Algorithm.inl', 'Flags.inl', 'EnumArray.inl', 'SparsePtr.inl', 'PrivateImpl.inl'], [('assertions', 'NazaraAssert in each .inl')],
     ['assertion failures', 'state of the object afterwards'], 'property-based testing with arguments around each limit, assertion failures being intercepted', 'Search, not proof: about 150000 generated calls per run, with gcc and clang in C++17 with assertions enabled, under AddressSanitizer and UBSan. Only the assertions which exist are demanded; arguments outside of the domain of an operation without assertion are not tried.')

prop('C33', 'Distinct objects share no hidden state; read objects may be shared',
     'Threads which work on objects of their own (bitsets, vectors, pools, signals, guards, owners, results, references, hashes and numeric helpers) never touch memory of one another, so that each observes what it would have observed alone. An object which threads only read through const operations may be read by all of them at once. An object handed from one thread to another with synchronisation is used safely by the second.',
     ['schedules', 'histories'], 'every pair of histories of operations run by concurrent threads over private, read-only or handed-over objects',
     'Tests run in one thread: state hidden in a function or a mutable member shows nothing there.',
     ['Bitset.inl', 'FixedVector.inl', 'MemoryPool.inl', 'Signal.inl', 'Hash.inl', 'MathUtils.inl', 'StringUtils.inl', 'TypeName.inl'], [('lookup tables', 'Hash.inl CRC32'), ('state shared through pointers', 'Signal.inl SlotPtr'), ('const operations', 'Bitset.inl, MemoryPool.inl, FixedVector.inl')],
     ['memory accesses of each thread', 'results of each thread'], 'property-based testing of generated concurrent histories under ThreadSanitizer, with the observations of each thread compared with a run of its own', 'Search, not proof: some hundred generated sets of threads per run. ThreadSanitizer orders accesses by synchronisation, so that a race is seen in most runs in which both accesses happen, whatever the interleaving. Nothing is claimed about concurrent writes to one object.')

prop('C34', 'In-place types never allocate, others only when they must',
     'Fixed vectors, fixed bitsets, in-place private implementations, flags, enum arrays, results, guards, function references, sparse pointers, stack containers, hashes and numeric helpers make no memory allocation of their own, whatever is done with them. A hybrid container allocates only for a content larger than its inline capacity, and no container allocates to shrink, clear, erase, read, compare, move from or stay within a capacity it reserved. A pool allocates only when no entry is free, and a freed entry is reused first.',
     ['histories', 'configurations'], 'every history of operations on in-place, hybrid and growing containers, counted operation by operation',
     'Tests look at values only: an allocation too many is invisible to them.',
     ['FixedVector.inl', 'Bitset.inl', 'MemoryPool.inl', 'StackVector.inl', 'PrivateImpl.inl', 'Signal.inl', 'FunctionRef.inl', 'CallOnExit.inl'], [('inline storage', 'FixedVector.hpp m_data'), ('inline to fallback switch', 'FixedVector.inl HybridVector'), ('free list', 'MemoryPool.inl AllocateBlock/GetFirstFreeEntry'), ('reservation', 'Bitset.inl Reserve')],
     ['allocations during each operation', 'content'], 'stateful property-based testing with allocations counted by the sanitizer around each operation', NOTE)

prop('C35', 'Every header stands alone, in any order, in any number of units',
     'Each public header can be included alone, first, in any order with any other, and in any number of translation units of one program, with every supported compiler and language version. All translation units then agree on what each function computes, and nothing is defined twice or left undefined.',
     ['programs', 'configurations', 'inputs'], 'every selection and order of headers over several translation units, for each compiler and language version',
     'The test program includes headers in one order; a header which relies on another one included before it goes unnoticed.',
     ['Prerequisites.hpp', 'Algorithm.hpp', 'Constants.hpp', 'Bitset.hpp', 'Endianness.hpp', 'Signal.hpp', 'TypeTraits.hpp'], [('included headers', 'the #include lines of every header'), ('inline definitions', 'every .inl'), ('guards', 'the #ifndef lines of every header')],
     ['compilation', 'linking', 'results of the functions of each unit'], 'generated programs: random selections and orders of headers over many translation units, whose computations must agree on generated inputs', 'Search, not proof: every header alone, then some tens of generated units per run with two compilers (six configurations in the thorough tier).')

prop('C36', 'Rvalues are moved, lvalues are copied once and left unchanged',
     'An operation which stores or passes on a value copies a given lvalue exactly once when it stores it and not at all otherwise, leaves it unchanged, and never copies an rvalue; moving a container, result, owner or guard copies none of its contents. Accessors and forwarders give the value category and the identity of the object they stand for: a const or lvalue object is never moved from, and a reference passed through is the same object at the other end.',
     ['inputs', 'histories'], 'every operation taking or giving objects, with lvalue, const and rvalue arguments and objects',
     'Tests compare values; a copy too many, or a value silently moved out of an object which stays in use, is only seen with instrumented types in the right place.',
     ['Result.inl', 'FixedVector.inl', 'StackVector.inl', 'PrivateImpl.inl', 'MemoryPool.inl', 'EnumArray.inl', 'CallOnExit.inl', 'FunctionRef.inl', 'Signal.inl', 'MovableValue.inl', 'MemoryHelper.inl', 'Algorithm.inl'], [('reference-qualified accessors', 'Result.inl GetValue/GetError/Map'), ('forwarded arguments', 'MemoryPool.inl Allocate, PrivateImpl.inl Emplace, MemoryHelper.inl PlacementNew'), ('dispatch', 'Signal.inl operator()')],
     ['copies and moves during each operation', 'values', 'addresses'], 'stateful property-based testing with types which count copies and moves', NOTE)

prop('C37', 'When memory runs out, nothing is lost, leaked or left invalid',
     'An operation whose memory allocation fails reports it with std::bad_alloc, releases what it had taken, and leaves every object valid and usable. Editing a bitset, appending to a vector, allocating in a pool, connecting to a signal and assigning a result are then as if not attempted. An operation declared noexcept, or one which removes, moves or swaps, never needs memory.',
     ['histories', 'fault_sequences'], 'every history of operations, with the failure of any allocation made by any of them',
     'Allocations do not fail during tests.',
     ['Bitset.inl', 'FixedVector.inl', 'MemoryPool.inl', 'Signal.inl', 'Result.inl', 'PrivateImpl.inl', 'CallOnExit.inl'], [('block count and bit count', 'Bitset.inl AppendBits/Resize'), ('switch to the fallback', 'FixedVector.inl MoveStorageToFallback, operator='), ('block allocation', 'MemoryPool.inl AllocateBlock'), ('slots', 'Signal.inl Connect'), ('exception specifications', 'Result.hpp Map, FixedVector.hpp push_back')],
     ['exceptions', 'state of every object afterwards', 'memory not released'], 'stateful property-based testing with generated allocation failures, against reference models', NOTE)

prop('C38', 'Portability macros mean what they say in every configuration',
     'NAZARA_LIKELY and NAZARA_UNLIKELY take any condition an if or a while takes, evaluate it once and choose what its truth value says. NAZARA_ASSUME of a condition that holds, NAZARA_UNREACHABLE where it is not reached and NAZARA_FORCEINLINE change nothing a program computes, at run time and in constant expressions; each is one statement or expression like those it stands for, and with its fallback the unreachable throws UnreachableError. Token, version, concept, constant evaluation, deprecation, warning, export, unity build, alloca, debug break and signal declaration macros do what they name, with every compiler, language version and NAZARA_NO_ switch.',
     ['programs', 'configurations', 'inputs'], 'every program using the macros, for every compiler, language version and switch',
     'The tests compile each macro once, in one shape, with the switches off.',
     ['Prerequisites.hpp', 'Concepts.hpp', 'ConstantEvaluated.hpp', 'DebugBreak.hpp', 'MemoryHelper.hpp', 'Signal.hpp'], [('attributes and fallbacks', 'Prerequisites.hpp NAZARA_ASSUME to NAZARA_UNREACHABLE'), ('tokens', 'Prerequisites.hpp NazaraPrefix to NazaraStringifyMacro'), ('diagnostics', 'Prerequisites.hpp NAZARA_WARNING_*'), ('unity builds', 'Prerequisites.hpp NAZARA_ANONYMOUS_NAMESPACE*'), ('signals', 'Signal.hpp NazaraDetailSignal')],
     ['results of generated programs', 'verdicts of the compilers', 'text of expanded tokens'], 'generated programs: the same random program with the macros and in plain C++ must compute the same, under random switches, compilers and language versions', 'Search, not proof: some hundred generated functions per run with two compilers (six configurations in the thorough tier). Branches for other compilers and platforms are not compiled here.')

prop('C39', 'Everything iterable works with the standard algorithms',
     'Vectors, stack vectors and stack arrays, enum arrays (values and key-value pairs), pools, set bits and flags can be given to every algorithm, adaptor and insertion iterator of the standard library whose needs match the category their iterators announce, forwards or backwards, over the whole or a part, with copyable or move-only elements. The algorithm does and returns what it would on a standard vector of the same elements. A vector made from any pair of iterators, single-pass ones included, holds what they give, each read once.',
     ['inputs', 'histories'], 'every content, algorithm, part of the range and order of operations',
     'Tests walk containers with simple loops; what an algorithm needs (arithmetic both ways, category, types, assignment through an iterator) is only seen when it is used.',
     ['FixedVector.hpp', 'FixedVector.inl', 'StackVector.hpp', 'StackVector.inl', 'StackArray.hpp', 'EnumArray.hpp', 'EnumArray.inl', 'MemoryPool.hpp', 'MemoryPool.inl', 'Bitset.hpp', 'Flags.hpp'], [('key-value iterators', 'EnumArray.inl EnumArrayKvIterator'), ('pool iterators', 'MemoryPool.inl MemoryPoolIterator'), ('iterators over bits and flags', 'Bitset.inl BitIterator, Flags.inl iterator'), ('range construction, insertion, erasure', 'FixedVector.inl, StackVector.inl')],
     ['elements after each algorithm', 'positions and values returned', 'types of iterators'], 'property-based testing: the same algorithm with the same arguments on the container and on a std::vector', NOTE)

prop('C40', 'Values keep their content inside one another',
     'Bitsets, vectors, results, signals with their connections, pools, owners, enum arrays and references can be put in each other and in standard containers (vectors, deques, maps, optionals, variants, tuples). Whatever the outer container then does, growth, insertion, erasure, sorting, swaps, moves and copies included, every value it holds keeps its complete content, each connection follows its signal, and every value is destroyed once. None of their moves can throw, so that growing containers move them.',
     ['histories', 'configurations'], 'every nesting of two or three levels and every history of operations of the outer container',
     'Tests use each type alone, with simple elements.',
     ['Bitset.hpp', 'FixedVector.inl', 'Result.hpp', 'Signal.inl', 'MemoryPool.inl', 'PrivateImpl.inl', 'MovablePtr.inl', 'MovableValue.inl', 'EnumArray.hpp', 'StackVector.inl'], [('moves', 'move constructors and assignments of every class'), ('connections of a moved signal', 'Signal.inl operator='), ('moves of inline storage', 'FixedVector.inl operator='), ('in-place implementations', 'PrivateImpl.inl')],
     ['complete content of every value', 'connections', 'memory'], 'stateful property-based testing of generated nestings against a model of the outer container', NOTE)

prop('C41', 'An operation leaves alone the elements it does not concern',
     'Appending, inserting, erasing, resizing, reserving and reading in a fixed, hybrid or stack vector neither move, copy nor destroy the elements before the place concerned, which keep their address unless a hybrid vector grows and moves each once; those after it are moved a bounded number of times, never copied. Pool entries, what an owner holds on the heap and elements a hybrid vector keeps outside of itself stay where they are when other entries come and go and when their holder is moved or swapped. Appending one by one costs, in the long run, a bounded number of moves per element, and few allocations for bits.',
     ['histories', 'inputs'], 'every history of operations, position and content',
     'Tests compare values; which elements were touched, how often, and whether references to them still hold does not show in values.',
     ['FixedVector.inl', 'StackVector.inl', 'MemoryPool.inl', 'PrivateImpl.hpp', 'Bitset.inl', 'Signal.inl'], [('insertion and erasure', 'FixedVector.inl emplace/erase, StackVector.inl emplace/erase'), ('growth', 'FixedVector.inl MoveStorageToFallback'), ('moves', 'FixedVector.inl operator=, MemoryPool.hpp, PrivateImpl.hpp'), ('growth of bitsets', 'Bitset.inl AppendBits/Resize/UnboundedSet')],
     ['operations undergone by each element', 'addresses', 'allocations'], 'stateful property-based testing with elements which count what is done to them', NOTE)

prop('C42', 'Types accept and convert exactly what they announce, and refuse the rest',
     'Function references, movable wrappers, results, flags, strided pointers, containers and signals can be built from, assigned, called with, combined with and converted to a type exactly when what they hold or refer to can, in a way overload resolution sees; conversions announced as explicit never happen unasked, access through const gives const, owners are not copied, and moves announced as not throwing are. Misuse is refused by the compiler: a pointer losing const or going down a hierarchy, flags of different or undeclared enumerations, blocks or bit types that are not unsigned, sizes and alignments that do not fit, results with no error, the address of a bit, a signal with the wrong arguments. Right uses of the same kinds compile.',
     ['inputs', 'configurations'], 'every combination of types put in them',
     'A test which compiles shows one accepted use; what must be refused, or convert implicitly or not, for other types, shows in no test at all.',
     ['FunctionRef.hpp', 'MovableValue.hpp', 'MovablePtr.hpp', 'Result.hpp', 'Flags.hpp', 'SparsePtr.inl', 'PrivateImpl.inl', 'Bitset.inl', 'Signal.hpp'], [('constraints', 'FunctionRef.hpp, MovableValue.hpp, Result.hpp constructors'), ('conversions', 'Flags.hpp operator T, SparsePtr.hpp operator T*'), ('misuse', 'SparsePtr.inl, PrivateImpl.inl, Bitset.inl, Algorithm.inl static_assert')],
     ['compiler verdicts', 'type traits of generated types'], 'property-based testing of generated types and programs, against the traits of the types held and verdicts known to the generator', NOTE)
