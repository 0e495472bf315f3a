#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing; both outputs are committed)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = 'include/NazaraUtils/'
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    a = {'files': [INC + f for f in files], 'mechanism': [{'name': n, 'where': INC + w} for n, w in mechanism], 'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': INC + w} for n, m, w in state]
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}, technique, note))

MODEL = 'stateful property-based testing against a reference model, under ASan/UBSan, with shrinking; coverage-guided fuzzing in the thorough tier'
NOTE = 'Search, not proof: thousands to hundreds of thousands of generated cases per run in two configurations (gcc C++17 assertions on, clang C++20 release; five in the thorough tier), each under AddressSanitizer and UBSan. Trusts the reference model, the compilers and the sanitizers.'

prop('C01', 'Bitset editing always matches a sequence of bits',
     'After any sequence of construction, copy, move, swap, resize, reserve, clear, bit and block writes, flips, appends, in-place logic and shifts, a bitset is observably equal to the sequence of bits the same edits produce: its size, every bit, its bit count, its all/any/none answers, its blocks and its text. Bits beyond the size never show up, neither in blocks and counts nor after the bitset grows again. This holds for every block width and for vector, fixed-capacity and hybrid storage.',
     ['histories', 'configurations'], 'every finite history of bitset edits, with every size, position and value they accept, for 8/16/32/64-bit blocks over the three storages',
     'Unit tests apply a few scripted edits to a handful of sizes; stale bits in the last block only show for particular sizes and orders of edits.',
     ['Bitset.hpp', 'Bitset.inl'], [('partial last block masking', 'Bitset.inl ResetExtraBits/GetLastBlockMask'), ('growth of a partial block', 'Bitset.inl Resize'), ('bit addressing', 'Bitset.inl GetBlockIndex/GetBitIndex')],
     ['GetSize', 'Test', 'operator[]', 'GetBlock', 'Count', 'TestAll/TestAny/TestNone', 'ToString'], MODEL, NOTE,
     [('blocks', 'bits, least significant first; unused bits of the last block are zero', 'Bitset.hpp m_blocks'), ('bit count', 'logical size', 'Bitset.hpp m_bitCount')])

prop('C02', 'Bitset conversions keep every bit: text, integers, memory',
     'A bitset built from text, from an integer, or by reading bits from memory (in one piece or in successive pieces of any length and starting bit) holds exactly those bits in order, and converting it back to text or to an integer wide enough gives the same value. Appending the low bits of an integer adds exactly those bits and no other. Reading bits from memory never touches bytes outside of the requested bits and returns the position where the next read continues.',
     ['inputs', 'configurations'], 'every text of 0s and 1s, every integer of 8 to 64 bits, every byte buffer, bit offset and bit count, for every block width and storage',
     'The tests convert a few constants; errors depend on the alignment between bit offset, bit count, byte order and block width.',
     ['Bitset.hpp', 'Bitset.inl'], [('pointer sequences', 'Bitset.inl Write/FromPointer'), ('integer splitting', 'Bitset.inl Bitset(T)/AppendBits/To'), ('text', 'Bitset.inl Bitset(const char*)/ToString')],
     ['ToString', 'To', 'Write result', 'Test', 'stream output'], 'property-based testing: round trips and a sequence-of-bits model, exact-size buffers under ASan', NOTE)

prop('C03', 'Bitset logic, shifts, reversal and ordering are those of bit strings',
     'AND, OR, XOR and NOT in every form combine bits position by position with missing bits read as zero, shifts move every bit by the given count whatever the block borders and drop what leaves, and reversal mirrors the bits. Equality means equal size and bits whatever history built the operands, intersection tells whether a bit is set in both, and the six comparisons form one total order consistent with equality and with the numbers the bits spell. Equal bitsets have equal hashes.',
     ['inputs', 'configurations'], 'every pair of bitsets and every shift count, for every block width and storage',
     'Only a few hand-picked pairs of sizes and one or two shift counts are tested.',
     ['Bitset.hpp', 'Bitset.inl'], [('blockwise logic', 'Bitset.inl PerformsAND/OR/XOR/NOT'), ('two-step shifts', 'Bitset.inl ShiftLeft/ShiftRight'), ('ordering', 'Bitset.inl operator<')],
     ['operators', 'ToString', 'std::hash'], 'property-based testing against a bitwise model and algebraic laws', NOTE)

prop('C04', 'Bitset search and traversal visit exactly the set bits, in order',
     'Finding the first set bit, the next set bit after any position, and traversing the set bits return exactly the positions of the bits which are set, each once, in increasing order, and report the end otherwise. Counting agrees with the traversal. This holds after any edit, for every block width and storage.',
     ['inputs', 'histories'], 'every bitset (dense, sparse, bits at block borders, empty) and every starting position',
     'Tests search through one or two patterns; a wrong mask only shows for a bit at one side of a block border.',
     ['Bitset.hpp', 'Bitset.inl'], [('search', 'Bitset.inl FindFirst/FindNext/FindFirstFrom'), ('iteration', 'Bitset.inl BitIterator')],
     ['FindFirst', 'FindNext', 'IterBits', 'Count'], 'property-based testing against the list of set positions', NOTE)

VW = 'Tests script a short list of operations on vectors of strings or ints; positions, counts, capacity borders, aliasing arguments and element categories combine far beyond them.'
prop('C05', 'Fixed and hybrid vectors behave as a sequence container',
     'After any sequence of constructions, assignments, insertions, appends, erasures, resizes, reserves, copies and moves, a fixed-capacity or hybrid vector holds the same elements in the same order as the reference sequence, through every accessor and iterator, and each operation returns the iterator or reference the sequence operation returns. Arguments referring to elements of the vector itself are taken with the value they had at the call. A hybrid vector goes past its inline capacity without its contents changing, and a fixed one never uses storage outside of itself.',
     ['histories', 'inputs', 'configurations'], 'every history of operations with valid positions and counts, for trivial, copyable, move-only and non-default-constructible elements and several capacities', VW,
     ['FixedVector.hpp', 'FixedVector.inl'], [('element shifting', 'FixedVector.inl emplace/insert/erase'), ('inline to fallback switch', 'FixedVector.inl HybridVector'), ('growing and shrinking', 'FixedVector.inl resize')],
     ['size/empty/capacity', 'element access', 'iterators', 'returned iterators'], MODEL, NOTE,
     [('size and inline storage', 'elements [0, size) are alive', 'FixedVector.hpp m_size/m_data'), ('fallback', 'vector used past the inline capacity', 'FixedVector.hpp HybridVector m_storage')])

prop('C06', 'Containers construct and destroy each element exactly once',
     'Over any history of operations on fixed, hybrid and stack vectors and stack arrays, every element is constructed once before it is used and destroyed once afterwards, no element is used before construction or after destruction, and the number of live elements always equals the containers\' total size. Moving elements inside or between containers moves them instead of copying when they can be moved. Destroying a container destroys all its elements and nothing else.',
     ['histories', 'configurations'], 'every history of operations over several containers, for copyable, move-only and throwing-move elements', VW,
     ['FixedVector.inl', 'StackVector.inl', 'StackArray.inl', 'MemoryHelper.inl', 'Algorithm.inl'], [('placement construction', 'MemoryHelper.inl PlacementNew/PlacementDestroy'), ('ranges', 'FixedVector.inl, StackVector.inl, StackArray.inl')],
     ['constructions and destructions of elements by address'], 'stateful property-based testing with instrumented elements (table of live addresses), ASan/UBSan', NOTE)

prop('C07', 'An element operation that throws corrupts no container',
     'When constructing, copying, moving or assigning an element throws at any point of any operation on fixed, hybrid and stack vectors or stack arrays, no element leaks, is destroyed twice or is used dead, and the container stays usable and destructible with a size counting only live elements. A construction which throws leaves nothing alive. Appending an element which throws leaves the previous contents unchanged.',
     ['fault_sequences', 'histories'], 'every history in which any chosen element operation throws, at each position it can throw',
     'No test makes an element throw; the faulty paths differ for every element position inside an operation.',
     ['FixedVector.inl', 'StackVector.inl', 'StackArray.inl'], [('construction counts', 'FixedVector.inl constructors/resize'), ('insertion', 'FixedVector.inl emplace/insert'), ('stack containers', 'StackVector.inl, StackArray.inl')],
     ['live element table', 'size', 'contents after the exception'], 'fault-injecting stateful property-based testing with instrumented elements', NOTE)

prop('C08', 'Stack vectors and arrays are sequences over the given memory only',
     'A stack vector behaves as a sequence container with the capacity it was given, and a stack array as an array with the size it was given, after any sequence of operations on them, through every accessor and iterator. They read and write only the memory they were given. The allocation macros give memory large enough and suitably aligned for the number of elements asked, and leave nothing behind when their scope ends.',
     ['histories', 'inputs'], 'every history of operations for every capacity, element type and alignment', VW,
     ['StackVector.hpp', 'StackVector.inl', 'StackArray.hpp', 'StackArray.inl', 'MemoryHelper.hpp'], [('vector operations', 'StackVector.inl'), ('array construction', 'StackArray.inl'), ('allocation macros', 'StackArray.hpp NazaraStackArray, StackVector.hpp NazaraStackVector')],
     ['size/capacity', 'element access', 'iterators', 'memory around the buffer'], MODEL, NOTE)

prop('C09', 'Memory pool handles stay valid, unique and stable until freed',
     'Every object allocated in a pool keeps its address, index and contents until it is freed or the pool is reset, cleared or destroyed, whatever else is allocated, freed, iterated or moved, and no two live objects ever share memory. Index and address convert to each other, the counts of allocated and free entries and blocks are exact, iteration visits every live object exactly once, and entries freed become available again. Addresses honour the alignment asked.',
     ['histories', 'configurations'], 'every history of allocations, deferred constructions, frees, resets, clears and moves over pools of any block size and element alignment',
     'The tests allocate and free in one or two orders with one block size.',
     ['MemoryPool.hpp', 'MemoryPool.inl'], [('free entry search', 'MemoryPool.inl AllocateEntry'), ('index and address', 'MemoryPool.inl RetrieveEntryIndex/RetrieveFromIndex'), ('iteration', 'MemoryPool.inl iterator')],
     ['addresses', 'indices', 'counts', 'iteration'], MODEL, NOTE,
     [('free and occupied entries per block', 'bitset of entries', 'MemoryPool.hpp Block')])

prop('C10', 'Memory pool runs each constructor and destructor exactly once',
     'Each object a pool holds is constructed once, and destroyed exactly once when it is freed, when the pool is reset or cleared, when the pool is overwritten by a move, or when the pool is destroyed, and never otherwise, even when constructors and destructors allocate and free other entries. An entry allocated without construction is never destroyed. A constructor which throws leaves its entry free, and moved pools leave a source which owns nothing.',
     ['histories', 'fault_sequences'], 'every history of pool operations in which constructors may throw',
     'No test counts destructions over a reset, move or failure.',
     ['MemoryPool.hpp', 'MemoryPool.inl'], [('destruction of entries', 'MemoryPool.inl Free/Reset/Clear'), ('moves', 'MemoryPool.inl operator=(MemoryPool&&)')],
     ['table of live objects', 'GetAllocatedEntryCount'], 'stateful property-based testing with instrumented objects and injected constructor failures', NOTE)

prop('C11', 'A signal delivers to exactly the connected slots, even when they change',
     'Emitting a signal calls each slot connected throughout the emission exactly once with the emitted arguments, and never a slot which was disconnected before its turn, even when slots connect, disconnect (themselves or others), clear the signal, emit it again or throw while being called. What a callback captured stays alive until the callback returns. After such an emission the signal keeps delivering correctly.',
     ['histories', 'schedules', 'fault_sequences'], 'every history of connections and emissions with slots which modify the signal, recursively, during emission',
     'The tests have one slot which disconnects during emission; reentrancy orders are unbounded.',
     ['Signal.hpp', 'Signal.inl'], [('emission loop', 'Signal.inl operator()'), ('swap removal of slots', 'Signal.inl Disconnect')],
     ['calls received by each slot', 'arguments', 'lifetime of captured state'], 'stateful property-based testing with reentrant slots against an event model', NOTE,
     [('slots', 'connected slots', 'Signal.hpp m_slots'), ('iteration cursor', 'position of the running emission', 'Signal.hpp m_slotIterator')])

prop('C12', 'Connections and guards track their slot through moves and destruction',
     'A connection reports it is connected exactly while its slot is connected to a living signal: until any connection to that slot disconnects it, the signal is cleared or destroyed, or a guard holding it is destroyed, reset or reassigned. Moving a signal, a connection or a guard transfers the slots without losing, duplicating or disconnecting any. Disconnecting twice, or after the signal died, does nothing.',
     ['histories'], 'every history of connecting (functions, methods, callbacks), copying, moving, disconnecting and destroying signals, connections and guards',
     'Tests connect and disconnect once; the states of several handles over several signals are never combined.',
     ['Signal.hpp', 'Signal.inl'], [('weak slot handles', 'Signal.inl Connection'), ('guards', 'Signal.inl ConnectionGuard'), ('signal moves', 'Signal.inl Signal(Signal&&)/operator=')],
     ['IsConnected', 'slots called', 'captured state'], MODEL, NOTE)

prop('C13', 'A result is exactly one of value or error, through every operation',
     'A result built as a value (or an error) reports so, gives back that value (or error), and keeps doing so through copies, moves, assignments and conversions; its fallback accessor gives the value if there is one and the fallback otherwise. Mapping applies the function to a value exactly once and forwards an error untouched without calling it, and early-return propagation stops a function at the first error, returns that error, and otherwise yields the value. The alternative held is constructed and destroyed exactly once and only moved from when the result is an rvalue.',
     ['inputs', 'histories', 'programs'], 'every value and error type (void, move-only, non-default-constructible included), every construction form and every chain of operations',
     'Each accessor is tested on one or two results of copyable types.',
     ['Result.hpp', 'Result.inl'], [('alternatives', 'Result.inl variant'), ('map', 'Result.inl Map'), ('propagation macros', 'Result.hpp NAZARA_TRY')],
     ['IsOk/IsErr', 'GetValue/GetError', 'Map', 'ValueOr', 'NAZARA_TRY'], 'property-based testing against a (success, value or error) model with instrumented values', NOTE)

prop('C14', 'A private implementation holder owns its object exactly once',
     'A private implementation holder, in-place or on the heap, holds the object it was given: copying it makes an equal independent object, moving it transfers the object and leaves the source as specified, resetting it destroys the object, and self-assignment changes nothing. Every object is constructed once and destroyed exactly once, including when a copy throws. Constness of the holder propagates to the object.',
     ['histories', 'fault_sequences', 'configurations'], 'every history over several holders, in-place or heap, with copies which may throw',
     'Tests build and copy one holder.',
     ['PrivateImpl.hpp', 'PrivateImpl.inl'], [('in-place storage', 'PrivateImpl.inl'), ('heap storage', 'PrivateImpl.inl')],
     ['value of the held object', 'table of live objects'], MODEL, NOTE)

exec(open(os.path.join(H, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(H, 'tools', 'props_more.py')) else None

NA = []
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --self-test', 'checks': [], 'not_applicable': NA,
     'notes': 'No hooks in /repo: every property is observable through the public headers. Every check compiles its harness against /repo/include on each run.'}
for p, technique, note in P:
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': technique, 'level': 'exploration', 'level_note': note})
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
