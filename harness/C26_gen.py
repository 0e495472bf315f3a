#!/usr/bin/env python3
"""Generates programs over type lists and type traits, with the answers given by plain Python lists and strings."""
import random, sys
build, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rng = random.Random(seed * 7919 + 26)
FILES, PER_FILE = (3, 160) if tier == 'quick' else (12, 300)

HEAD = r'''// generated
#include "pbt.hpp"
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <limits>
#include <string>
#include <tuple>
namespace types@N@ // a name per file: gcc merges instances whose template template arguments are in unnamed namespaces
{
	struct X {}; struct Y; enum class En { A }; template<typename T> struct Box;
	template<int> struct Num;
	template<typename T> struct Same { using type = T; };
	template<typename T> struct Wrap { using type = Box<T>; };
	template<typename T> struct ToInt { using type = int; };
	template<typename T> struct IntToFloat { using type = T; }; template<> struct IntToFloat<int> { using type = float; };
	template<typename...> struct Pack;
	template<typename... T> using Second = std::integral_constant<std::size_t, sizeof...(T)>;
	template<typename T> struct Id { static inline char id; };
	constexpr std::size_t npos = std::numeric_limits<std::size_t>::max();
	template<typename T> struct Record { template<typename A, typename B> void operator()(std::vector<const void*>& log, A& value, B&& other) { log.push_back(&Id<T>::id); log.push_back(&value); log.push_back(&other); } };
	template<typename T> struct RecordNothing { void operator()() { ++calls; } static inline int calls = 0; };
	using Nz::TypeList;
	struct Entry { const char* what; bool holds; bool nontrivial; };
	void run(pbt::Case& c, const Entry* entries, std::size_t count)
	{
		const Entry& e = entries[c.below(count)];
		LOG(e.what);
		if (e.nontrivial) c.nontrivial();
		CHECK(e.holds, e.what);
	}
'''

POOL = ['int', 'const int', 'int&', 'int&&', 'const int&', 'float', 'double*', 'void', 'X', 'const X', 'X*', 'Y', 'Box<int>', 'Box<X>', 'int[3]', 'int[4]', 'void(int)', 'void(*)(int)', 'TypeList<>',
        'TypeList<int>', 'TypeList<int, X>', 'En', 'std::nullptr_t', 'std::string', 'unsigned', 'volatile int', 'char', 'signed char', 'unsigned char', 'long', 'long long', 'int X::*']

def lst(types): return 'TypeList<' + ', '.join(types) + '>'

long_lists = 0
def gen_list():
    global long_lists
    if rng.random() < 0.02 and long_lists < 3:
        # more types than anybody counts on fingers, some of them twice
        long_lists += 1
        n = rng.choice([40, 130, 260])
        m = ['Num<%d>' % (i if rng.random() < 0.9 else rng.randrange(n)) for i in range(n)]
        return m
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
    pool = rng.sample(POOL, rng.randint(1, 5)) if rng.random() < 0.7 else POOL
    return [rng.choice(pool) for _ in range(n)]

def gen_chain():
    m = gen_list()
    e = lst(m)
    ops = 0
    for _ in range(rng.randint(0, 5)):
        t = rng.choice(m) if m and rng.random() < 0.6 else rng.choice(POOL)
        k = rng.randrange(9)
        if k == 0: e, m = 'Nz::TypeListAppend<%s, %s>' % (e, t), m + [t]
        elif k == 1: e, m = 'Nz::TypeListPrepend<%s, %s>' % (e, t), [t] + m
        elif k == 2:
            o = gen_list(); e, m = 'Nz::TypeListConcat<%s, %s>' % (e, lst(o)), m + o
        elif k == 3:
            o = gen_list(); e, m = 'Nz::TypeListConcat<%s, %s>' % (lst(o), e), o + m
        elif k in (4, 5): e, m = 'Nz::TypeListRemove<%s, %s>' % (e, t), [x for x in m if x != t]
        elif k in (6, 7): e, m = 'Nz::TypeListUnique<%s>' % e, list(dict.fromkeys(m))
        else:
            f, g = rng.choice([('Same', lambda x: x), ('Wrap', lambda x: 'Box<%s>' % x), ('ToInt', lambda x: 'int'), ('IntToFloat', lambda x: 'float' if x == 'int' else x)])
            e, m = 'Nz::TypeListTransform<%s, %s>' % (e, f), [g(x) for x in m]
        ops += 1
    return e, m, ops

def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

def list_entries():
    out, runs = [], []
    e, m, ops = gen_chain()
    name = 'L%d' % rng.randrange(1 << 40)
    out.append('\tusing %s = %s;' % (name, e))
    ent = []
    def add(cond, desc): ent.append('\t\t{ %s, %s, %s },' % (q(e + ': ' + desc), cond, 'true' if m else 'false'))
    add('std::is_same_v<%s, %s>' % (name, lst(m)), 'is ' + lst(m))
    add('Nz::TypeListSize<%s> == %d' % (name, len(m)), 'has %d types' % len(m))
    add('Nz::TypeListEmpty<%s> == %s' % (name, 'false' if m else 'true'), 'emptiness')
    add('std::is_same_v<Nz::TypeListInstantiate<%s, Pack>, Pack<%s>>' % (name, ', '.join(m)), 'instantiates Pack')
    add('Nz::TypeListInstantiate<%s, Second>::value == %d' % (name, len(m)), 'instantiates an alias')
    for i in sorted(set([0, len(m) - 1] + [rng.randrange(len(m)) for _ in range(3)]) if m else []):
        add('std::is_same_v<Nz::TypeListAt<%s, %d>, %s>' % (name, i, m[i]), 'type %d is %s' % (i, m[i]))
    for t in dict.fromkeys(m[:4] + m[-2:] + rng.sample(POOL, 3)):
        pos = str(m.index(t)) if t in m else 'npos'
        add('Nz::TypeListFind<%s, %s> == %s' % (name, t, pos), '%s found at %s' % (t, pos))
        add('Nz::TypeListHas<%s, %s> == %s' % (name, t, 'true' if t in m else 'false'), 'presence of ' + t)
    runs.append((e, name, m))
    return out, ent, runs

# --- traits: types are built from their parts, so that their answers are known
CORES = ['int', 'X', 'double', 'std::string', 'En', 'char', 'Box<int>*', 'unsigned long']
def trait_entries():
    ent = []
    def add(cond, desc, nt=True): ent.append('\t\t{ %s, %s, %s },' % (q(desc), cond, 'true' if nt else 'false'))
    core = rng.choice(CORES)
    cv = rng.choice(['', ' const', ' volatile', ' const volatile'])
    ref = rng.choice(['', '&', '&&'])
    t = core + cv + ref
    add('std::is_same_v<Nz::RemoveCvRef_t<%s>, %s>' % (t, core), 'RemoveCvRef of ' + t, bool(cv or ref))
    add('std::is_same_v<typename Nz::RemoveCvRef<%s>::type, %s>' % (t, core), 'RemoveCvRef::type of ' + t, bool(cv or ref))
    ptrcv = rng.choice(['', ' const', ' volatile', ' const volatile'])
    pointee = rng.choice([core + cv, 'void' + cv, 'int(*)[3]', 'X*' + cv])
    if pointee.startswith('int('): p = 'int(**%s)[3]' % ptrcv
    else: p = '%s*%s' % (pointee, ptrcv)
    add('std::is_same_v<typename Nz::PointedType<%s>::type, %s>' % (p, pointee), 'PointedType of ' + p, bool(ptrcv))
    add('std::is_same_v<Nz::Pointer<%s>, %s*>' % (core + cv, core + cv), 'Pointer to ' + core + cv)
    # first type of a pack
    args = [rng.choice(CORES[:4]) + rng.choice(['', '', ' const', '&']) for _ in range(rng.randint(0, 4))]
    first = rng.choice(args[:2] or ['int']) if rng.random() < 0.7 else rng.choice(CORES)
    add('Nz::IsFirstType_v<%s> == %s' % (', '.join([first] + args), 'true' if args and args[0] == first else 'false'), 'is %s the first of <%s>' % (first, ', '.join(args)))
    # constructors hidden from copies and moves
    cls = rng.choice(['X', 'int', 'std::string'])
    pargs = [rng.choice([cls, cls, 'float', 'Box<int>*']) + rng.choice(['', '&', '&&', ' const&', ' const', ' volatile&', '*']) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    def core_of(a):
        if a.endswith('*'): return a
        a = a.rstrip('&')
        for s in (' const', ' volatile'):
            if a.endswith(s): a = a[:-len(s)]
        return a
    hidden = len(pargs) == 1 and core_of(pargs[0]) == cls
    add('IsPrevented<%s> == %s' % (', '.join([cls] + pargs), 'true' if hidden else 'false'), 'PreventHiddenCopyMove<%s>' % ', '.join([cls] + pargs))
    # function pointers
    ret = rng.choice(['void', 'int', 'X&', 'const X*', 'std::string'])
    fargs = ', '.join(rng.choice(['int', 'X&&', 'const X&', 'Y*', 'double']) for _ in range(rng.randint(0, 5)))
    add('std::is_same_v<Nz::FunctionPtr<%s(%s)>, %s(*)(%s)>' % (ret, fargs, ret, fargs), 'FunctionPtr of %s(%s)' % (ret, fargs))
    add('std::is_same_v<typename Nz::TypeTag<%s>::Type, %s>' % (t, t), 'TypeTag of ' + t)
    add('std::is_same_v<Nz::LazyVoid_t<%s>, void> && !Nz::AlwaysFalse<%s>::value && !Nz::AlwaysFalseValue<%d>::value' % (t, t, rng.randrange(100)), 'LazyVoid and AlwaysFalse of ' + t)
    complete, yes = rng.choice([('X', True), ('int', True), ('Y', False), ('Box<%s>' % core, False), ('void', False), ('int[3]', True), ('int[]', False), ('std::string', True), ('En', True), ('Y*', True), ('Fwd', True), ('const Y', False), ('const X', True)])
    add('Nz::IsComplete_v<%s> == %s && Nz::IsComplete<%s>::value == %s' % (complete, str(yes).lower(), complete, str(yes).lower()), 'completeness of ' + complete)
    return [], ent, []

def enum_entries():
    name = 'E%d' % rng.randrange(1 << 40)
    under = rng.choice(['', ': std::uint8_t', ': std::int16_t', ': int', ': std::uint32_t', ': std::int64_t', ': std::uint64_t'])
    n = rng.choice([0, 1, 2, 3, 17, 100, 127, 200, 255] if 'int8' in under else [0, 1, 2, 3, 17, 127, 255, 256, 1000, 32767])
    scoped = rng.random() < 0.7 
    kind = rng.choice(['Count', 'Max', 'MaxAlias'])
    if kind == 'Count': body, count = 'First = 0, Count = %d' % n if rng.random() < 0.5 else 'First, Last = %d, Count' % (max(n, 1) - 1), None
    if kind == 'Count':
        count = n if body.startswith('First = 0') else max(n, 1)
        if 'int8' in under and count > 255: body, count = 'First = 0, Count = 5', 5
        if '16' in under and count > 32767: body, count = 'First = 0, Count = 7', 7
    elif kind == 'Max': body, count = 'First = 0, Max = %d' % n, n + 1
    else: body, count = 'First, Other = %d, Max = Other' % n, n + 1
    out = ['\tenum %s%s %s { %s };' % ('class ' if scoped else '', name, under, body)] if scoped else ['\tenum %s %s { %s };' % (name, under, body.replace('First', name + 'F').replace('Last', name + 'L').replace('Other', name + 'O').replace('Count', 'Count').replace('Max', 'Max'))]
    if not scoped: # enumerators in a scope of their own
        out = ['\tnamespace N%s { %s } using N%s::%s;' % (name, out[0].strip(), name, name)]
    ent = ['\t\t{ %s, Nz::EnumValueCount_v<%s> == %du && Nz::EnumValueCount<%s>::value == %du, true },' % (q('enum %s { %s }' % (under, body)), name, count, name, count)]
    return out, ent, []

EXTRA = r'''
	template<typename, typename T, typename... Args> struct PreventedImpl : std::true_type {};
	template<typename T, typename... Args> struct PreventedImpl<std::void_t<Nz::PreventHiddenCopyMove<T, Args...>>, T, Args...> : std::false_type {};
	template<typename T, typename... Args> constexpr bool IsPrevented = PreventedImpl<void, T, Args...>::value;
	struct Fwd; struct Fwd { int x; };
'''

for f in range(FILES):
    decl, ents, runs = [], [], []
    long_lists = 0
    for i in range(PER_FILE):
        d, e, r = rng.choice([list_entries, list_entries, list_entries, trait_entries, enum_entries])()
        decl += d; ents += e; runs += r
    with open('%s/gen_C26_%d.cpp' % (build, f), 'w') as o:
        o.write(HEAD.replace('@N@', str(f)) + EXTRA + '\n'.join(decl) + '\n\tconst Entry entries[] = {\n' + '\n'.join(ents) + '\n\t};\n')
        o.write('\tPBT_SWEEP("types, program %d", %d, [](pbt::Case& c) { run(c, entries, std::size(entries)); })\n' % (f, len(ents)))
        o.write('\tPBT_SWEEP("application, program %d", %d, [](pbt::Case& c)\n\t{\n\t\tint a = 1; double b = 2; std::vector<const void*> log, expected; RecordNothing<int>::calls = 0; int ints = 0;\n\t\tswitch (c.below(%d))\n\t\t{\n' % (f, len(runs), len(runs)))
        for i, (e, name, m) in enumerate(runs):
            o.write('\t\t\tcase %d: LOG(%s); Nz::TypeListApply<%s, Record>(log, a, b); Nz::TypeListApply<%s, RecordNothing>(); ints = %d; for (const void* id : std::initializer_list<const void*>{ %s }) expected.insert(expected.end(), { id, &a, &b }); break;\n'
                    % (i, q(e), name, name, m.count('int'), ', '.join('&Id<%s>::id' % t for t in m)))
        o.write('\t\t}\n\t\tif (!expected.empty()) c.nontrivial();\n\t\tCHECK_EQ(log.size(), expected.size(), "functors called");\n\t\tCHECK(log == expected, "order, or arguments");\n\t\tCHECK_EQ(RecordNothing<int>::calls, ints, "calls without argument");\n\t})\n}\n')
