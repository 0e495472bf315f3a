#!/usr/bin/env python3
"""Generates programs over functions of generated signatures and types of generated names, with the answers known from how they were built."""
import random, sys
build, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rng = random.Random(seed * 104729 + 27)
FILES, PER_FILE = (3, 150) if tier == 'quick' else (12, 260)

HEAD = r'''// generated
#include "pbt.hpp"
#include <NazaraUtils/FunctionTraits.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <cctype>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
namespace signatures@N@
{
	struct X { int x = 0; bool operator==(const X& o) const { return x == o.x; } }; struct Y { int y; }; enum class En { A }; template<typename T> struct Box { T* t; };
	using Nz::TypeList;
	struct Entry { const char* what; bool holds; bool nontrivial; };
	struct Called { const char* what; int (*call)(); int expected; };
	struct Name { const char* type; std::string_view name; const char* gcc; const char* clang; const void* id; };
	template<typename T> struct Id { static inline char id; };

	// checks everything there is to know about the traits of a callable type
	template<typename Callable, typename Ret, typename... Args>
	constexpr bool TraitsAre()
	{
		using T = Nz::FunctionTraits<Callable>;
		return std::is_same_v<typename T::ReturnType, Ret> && std::is_same_v<typename T::ArgTypes, TypeList<Args...>> && T::ArgCount == sizeof...(Args) && std::is_same_v<typename T::FuncType, Ret(Args...)>;
	}
	template<typename Callable, std::size_t I, typename Arg>
	constexpr bool ArgIs()
	{
		return std::is_same_v<typename Nz::FunctionTraits<Callable>::template ArgType<I>, Arg> && std::is_same_v<typename Nz::FunctionTraits<Callable>::template Arg<I>::type, Arg>;
	}
	template<typename T, bool Expected>
	constexpr bool FunctorIs()
	{
#ifdef __cpp_concepts
		if (Nz::Functor<T> != Expected) return false;
#endif
		return Nz::IsFunctor_v<T> == Expected && Nz::IsFunctor<T>::value == Expected;
	}
	// names are compared without the spaces compilers add or not around symbols
	std::string Normal(std::string_view name)
	{
		auto word = [](char ch) { return std::isalnum(static_cast<unsigned char>(ch)) || ch == '_'; };
		std::string out;
		for (std::size_t i = 0; i < name.size(); ++i)
			if (name[i] != ' ' || (i > 0 && i + 1 < name.size() && word(name[i - 1]) && word(name[i + 1]))) out += name[i];
		return out;
	}
'''

TYPES = ['int', 'const X&', 'X&&', 'X', 'Y*', 'const Y*', 'double', 'float&', 'std::string', 'const std::string&', 'std::unique_ptr<int>', 'int(&)[3]', 'void(*)(int)', 'const char*', 'En', 'Box<int>*', 'Box<X>', 'bool', 'unsigned long', 'int X::*', 'const volatile int*', 'char', 'long long', 'std::pair<int, float>']
RETURNS = ['void', 'int', 'X&', 'const X*', 'std::string', 'X', 'En', 'const Y&', 'Box<int>', 'X&&', 'void*', 'const int&', 'bool']
QUALS = [cv + ref + ne for cv in ('', ' const', ' volatile', ' const volatile') for ref in ('', ' &', ' &&') for ne in ('', ' noexcept')]
uid = 0
def unique(p):
    global uid
    uid += 1
    return '%s%d' % (p, uid)
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def args_of(maxn=5): return [rng.choice(TYPES) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, maxn]))]
def params(args): return ', '.join(args)

def traits(decl, ent, calls, names):
    def add(cond, desc, nt=True): ent.append('\t\t{ %s, (%s), %s },' % (q(desc), cond, 'true' if nt else 'false'))
    args, ret = args_of(rng.choice([5, 8, 12])), rng.choice(RETURNS)
    a = params(args)
    kind = rng.choice(['type', 'pointer', 'reference', 'member', 'member', 'member', 'functor', 'functor', 'lambda', 'decltype', 'callable value'])
    outer = rng.choice(['', '', ' const', '&', ' const&', '&&', ' const&&'])
    functor = None
    name = unique('F')
    cls = rng.choice(['X', 'Y', 'Box<int>', 'std::string'])
    if kind == 'type':
        outer = rng.choice(['', '', '&', '&&'])
        ne = rng.choice(['', ' noexcept'])
        decl.append('\tusing %s = %s(%s)%s;' % (name, ret, a, ne)); functor = (name, True)
    elif kind == 'pointer': decl.append('\tusing %s = %s(*)(%s)%s;' % (name, ret, a, rng.choice(['', ' noexcept'])))
    elif kind == 'reference': decl.append('\tusing %s = %s(&)(%s)%s;' % (name, ret, a, rng.choice(['', ' noexcept']))); outer = ''
    elif kind == 'member':
        decl.append('\tusing %s = %s(%s::*)(%s)%s;' % (name, ret, cls, a, rng.choice(QUALS)))
        functor = (name + rng.choice(['', ' const']), True)
    elif kind == 'functor':
        extra = rng.choice(['', ' int operator()();', ' template<typename Any> void operator()(Any&&);']) if rng.random() < 0.25 else ''
        if extra: # not a functor: which operator() is meant can not be known
            if not args and 'int operator' in extra: extra = ' int operator()(Y&&);'
            bad = unique('G')
            decl.append('\tstruct %s { %s operator()(%s);%s };' % (bad, ret, a, extra))
            add('FunctorIs<%s, false>()' % bad, 'an ambiguous call operator is no functor: %s(%s) and%s' % (ret, a, extra))
        base = rng.random() < 0.2
        body = '%s operator()(%s)%s;' % (ret, a, rng.choice(QUALS))
        if base:
            decl.append('\tstruct %sBase { %s }; struct %s : %sBase { int other(); };' % (name, body, name, name))
        else: decl.append('\tstruct %s { %s void other(int); };' % (name, body))
        functor = (name + rng.choice(['', ' const']), True)
    elif kind == 'lambda':
        cap = rng.choice(['', '&', '=']) 
        body = 'throw 1;'
        decl.append('\tinline const auto %sLambda = [](%s)%s -> %s { %s };' % (name, a, rng.choice(['', ' mutable']), ret, body))
        decl.append('\tusing %s = std::remove_const_t<decltype(%sLambda)>;' % (name, name))
        functor = (name + rng.choice(['', ' const']), True)
    elif kind == 'decltype':
        decl.append('\t%s %sFunction(%s)%s;' % (ret, name, a, rng.choice(['', ' noexcept'])))
        decl.append('\tusing %s = decltype(%s%sFunction);' % (name, rng.choice(['', '&']), name))
        outer = rng.choice(['', '&'])
    else:
        decl.append('\tstruct %sClass { %s method(%s)%s; };' % (name, ret, a, rng.choice(QUALS)))
        decl.append('\tusing %s = decltype(&%sClass::method);' % (name, name))
        functor = (name, True)
    t = name + outer
    desc = '%s %s(%s) seen as %s%s' % (kind, ret, a, '' if not outer else 'F', outer)
    add('TraitsAre<%s>()' % ', '.join([t, ret] + args), 'traits of ' + desc, bool(args))
    for i in range(len(args)):
        if i in (0, len(args) - 1) or rng.random() < 0.4:
            add('ArgIs<%s, %d, %s>()' % (t, i, args[i]), 'argument %d of %s' % (i, desc))
    if functor: add('FunctorIs<%s, true>()' % functor[0], '%s is a functor' % desc, True)
    no = rng.choice(['int', 'X', 'Y*', 'void*', 'int X::*', 'En', 'Box<int>', 'std::string', 'int[3]'])
    add('FunctorIs<%s, false>()' % no, no + ' is no functor')

def overloads(decl, ent, calls, names):
    kind = rng.choice(['methods', 'methods', 'functions', 'static methods'])
    pool = ['int', 'const X&', 'X&&', 'X', 'X&', 'Y*', 'const Y*', 'double', 'const char*', 'En', 'bool', 'unsigned long', 'char', 'int&']
    pool.remove(rng.choice(['X&', 'X&&'])) # gcc 13 resolves no set of noexcept functions with both
    sets, seen = [], set()
    for _ in range(rng.randint(1, 6)):
        args = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if tuple(args) in seen: continue
        seen.add(tuple(args))
        sets.append((args, rng.choice([x for x in QUALS if 'volatile' not in x]) if kind == 'methods' else rng.choice(['', ' noexcept']), rng.randrange(1000)))
    name = unique('O')
    value = {'int': 'int()', 'const X&': 'x', 'X&&': 'X()', 'X': 'x', 'X&': 'x', 'Y*': 'nullptr', 'const Y*': 'nullptr', 'double': '0.5', 'const char*': '""', 'En': 'En::A', 'bool': 'true', 'unsigned long': '3ul', 'char': "'c'", 'int&': 'i'}
    if kind == 'functions':
        decl.append('\tnamespace %sScope {' % name)
        for args, ql, n in sets: decl.append('\t\tinline int f(%s)%s { return %d; }' % (params(args), ql, n))
        decl.append('\t}')
        ref = '&%sScope::f' % name
    else:
        decl.append('\tstruct %s {' % name)
        for args, ql, n in sets: decl.append('\t\t%sint f(%s)%s { return id + %d; }' % ('static ' if kind == 'static methods' else '', params(args), ql, n))
        decl.append('\t\t%sint id = 1000000;\n\t};' % ('static inline ' if kind == 'static methods' else ''))
        ref = '&%s::f' % name
    for k, (args, ql, n) in enumerate(sets):
        p = 'Nz::Overload<%s>(%s)' % (params(args), ref)
        want = ('int(%s::*)(%s)%s' % (name, params(args), ql)) if kind == 'methods' else 'int(*)(%s)%s' % (params(args), ql)
        ent.append('\t\t{ %s, (std::is_same_v<decltype(%s), %s>), %s },' % (q('Overload<%s> among %d %s%s' % (params(args), len(sets), kind, ql)), p, want, 'true' if len(sets) > 1 else 'false'))
        vals = ', '.join(value[t] for t in args)
        obj = ''
        if kind == 'methods':
            obj = 'std::move(o)' if ql.replace('const', '').strip().startswith('&&') else 'o'
            if 'const' in ql and '&&' not in ql and rng.random() < 0.5: obj = 'std::as_const(o)'
            obj = '(%s.*p)' % obj
        else: obj = 'p'
        decl.append('\tinline int %sCall%d() { X x; int i = 0; (void) x; (void) i; %s constexpr auto p = %s; return %s(%s); }' % (name, k, '%s o; (void) o;' % name if kind == 'methods' else '', p, obj, vals))
        calls.append('\t\t{ %s, &%sCall%d, %d },' % (q('%s called through Overload<%s>, %d candidates%s' % (kind, params(args), len(sets), ql)), name, k, n + (0 if kind == 'functions' else 1000000)))

def visitors(decl, ent, calls, names):
    types = rng.sample(['int', 'double', 'X', 'std::string', 'bool', 'char', 'En', 'const char*', 'unsigned long', 'Y*'], rng.randint(1, 6))
    handled = [t for t in types if rng.random() < 0.6]
    order = handled + (['auto'] if len(handled) < len(types) or rng.random() < 0.3 else [])
    rng.shuffle(order)
    lambdas, result = [], {}
    name = unique('V')
    for i, t in enumerate(order):
        n = rng.randrange(1000)
        result[t] = n
        lambdas.append('[k](%s) { return k + %d; }' % ('const auto&' if t == 'auto' else rng.choice([t, t + ' const&']), n))
    init = {'int': '5', 'double': '0.5', 'X': 'X()', 'std::string': 'std::string("text")', 'bool': 'true', 'char': "'c'", 'En': 'En::A', 'const char*': '"literal"', 'unsigned long': '7ul', 'Y*': 'static_cast<Y*>(nullptr)'}
    for i, t in enumerate(types):
        decl.append('\tinline int %sCall%d() { int k = 5000; const std::variant<%s> v(std::in_place_index<%d>, %s); return std::visit(Nz::Overloaded{ %s }, v); }' % (name, i, ', '.join(types), i, init[t], ', '.join(lambdas)))
        calls.append('\t\t{ %s, &%sCall%d, %d },' % (q('Overloaded visits %s among <%s> with handlers of <%s>' % (t, ', '.join(types), ', '.join(order))), name, i, 5000 + result.get(t, result.get('auto', -1))))

# --- type names
FUND = [('int', 'int'), ('unsigned int', 'unsigned int'), ('long', 'long int'), ('unsigned long', 'long unsigned int'), ('short', 'short int'), ('unsigned short', 'short unsigned int'), ('long long', 'long long int'),
        ('unsigned long long', 'long long unsigned int'), ('char', 'char'), ('signed char', 'signed char'), ('unsigned char', 'unsigned char'), ('bool', 'bool'), ('float', 'float'), ('double', 'double'), ('long double', 'long double'),
        ('wchar_t', 'wchar_t'), ('char16_t', 'char16_t'), ('void', 'void')]
SCOPES = ['', 'gen@N@', 'gen@N@::inner', 'Nz', 'gen@N@::std_like', 'NzDetail@N@']
classes, structs, templates, packs, ints, enums = [], [], [], [], [], []
def ident():
    parts = ['double', 'T', 'class', 'struct', 'enum', 'Foo', 'x', 'Type', 'Name', 'Nz', 'with', 'a', 'Z9', 'int', 'std', 'basic_string', 'string_view', 'operator', 'typename', 'const']
    s = '_'.join(rng.choice(parts) for _ in range(rng.choice([1, 2, 2, 3, 4, 12, 1, 2, 2, 3, 4, 60])))
    return s + '%d' % (rng.randrange(100000)) if rng.random() < 0.5 else rng.choice(['C', 'S_']) + s + '%d' % rng.randrange(100000)
def declare_types(out, n):
    used = set()
    for _ in range(40):
        scope = rng.choice(SCOPES).replace('@N@', str(n))
        i = ident()
        if i in used: continue
        used.add(i)
        i += 'f%d' % n # not the same in another file
        k = rng.choice(['class', 'struct', 'enum', 'enum class', 'template', 'template', 'pack', 'int', 'nested', 'nested template', 'enum value', 'union', 'incomplete'])
        full = (scope + '::' if scope else '') + i
        d = None
        if k in ('class', 'struct', 'union'): d = '%s %s {};' % (k, i); classes.append(full); structs.append(full)
        elif k == 'incomplete': d = 'struct %s;' % i; classes.append(full)
        elif k == 'enum': d = 'enum %s { %s_a };' % (i, i); classes.append(full)
        elif k == 'enum class': d = 'enum class %s { First, Second };' % i; classes.append(full); enums.append(full)
        elif k == 'template': d = 'template<typename A> struct %s {};' % i; templates.append((full, ''))
        elif k == 'pack': d = 'template<typename... A> class %s {};' % i; packs.append(full)
        elif k == 'int': d = 'template<int N> struct %s {};' % i; ints.append(full)
        elif k == 'nested': d = 'struct %s { class Inner%d {}; };' % (i, len(classes)); classes.append(full); classes.append(full + '::Inner%d' % (len(classes) - 1))
        elif k == 'nested template': d = 'template<typename A> struct %s { struct Nested {}; };' % i; templates.append((full, '')); templates.append((full, '::Nested'))
        elif k == 'enum value': d = 'enum class %s : short { First, Second }; template<%s V> struct Of%s {};' % (i, i, i); classes.append(full); enums.append(full); enumed = (full, (scope + '::' if scope else '') + 'Of' + i); ENUMED.append(enumed)
        out.append('namespace %s { %s }' % (scope, d) if scope else d)
ENUMED = []
def a_type(depth):
    """(clang spelling, gcc spelling); both are valid C++"""
    k = rng.randrange(12) if depth > 0 else rng.randrange(3)
    if k <= 1 and classes: c = rng.choice(classes); return (c, c)
    if k == 2: return rng.choice(FUND[:-1])
    if k == 3:
        c, g = a_type(depth - 1); s = rng.choice(['*', '*', '&', '&&', '* const'])
        if c.endswith('&') or '(' in c or c.endswith(']'): return (c, g)
        return (c + s, g + s)
    if k == 4:
        c, g = rng.choice(FUND[:-1]) if rng.random() < 0.5 or not classes else (rng.choice(classes),) * 2
        cv = rng.choice(['const ', 'volatile ', 'const volatile '])
        s = rng.choice(['', '*', '&', '* const'])
        return (cv + c + s, cv + g + s)
    if k in (5, 6) and templates:
        c, g = a_type(depth - 1); t, n = rng.choice(templates)
        return ('%s<%s>%s' % (t, c, n), '%s<%s>%s' % (t, g, n))
    if k in (7, 8) and packs:
        l = [a_type(depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]) if rng.random() < 0.95 else 40)]; t = rng.choice(packs)
        return ('%s<%s>' % (t, ', '.join(x[0] for x in l)), '%s<%s>' % (t, ', '.join(x[1] for x in l)))
    if k == 9 and ints:
        s = '%s<%d>' % (rng.choice(ints), rng.choice([0, 1, -1, 42, -123456789, 2147483647])); return (s, s)
    if k == 10:
        c, g = rng.choice(FUND[:-1]) if rng.random() < 0.5 or not classes else (rng.choice(FUND[:14]))
        form = rng.choice(['%s [3]', '%s [2][7]', '%s (*)[5]', '%s (&)[5]'])
        return (form % c, form % g)
    l = [a_type(0) for _ in range(rng.choice([0, 1, 2, 3]))]
    c, g = rng.choice(FUND)
    cl = rng.choice(structs) if structs else ''
    form = rng.choice(['%s (%s)', '%s (*)(%s)', '%s (&)(%s)'] + (['%s (' + cl + '::*)(%s)', '%s (' + cl + '::*)(%s) const'] if structs else []))
    return (form % (c, ', '.join(x[0] for x in l)), form % (g, ', '.join(x[1] for x in l)))
def type_name(decl, ent, calls, names):
    c, g = a_type(rng.choice([0, 1, 2, 3, 4]))
    if ENUMED and rng.random() < 0.1:
        e, of = rng.choice(ENUMED); c = g = '%s<%s::%s>' % (of, e, rng.choice(['First', 'Second']))
    t = unique('N')
    decl.append('\tusing %s = %s;' % (t, c))
    names.append('\t\t{ %s, Nz::TypeName<%s>(), %s, %s, &Id<%s>::id },' % (q(c), t, q(g), q(c), t))

for f in range(FILES):
    pre, decl, ent, calls, names = [], [], [], [], []
    del classes[:], structs[:], templates[:], packs[:], ints[:], enums[:], ENUMED[:]
    declare_types(pre, f)
    for i in range(PER_FILE):
        rng.choice([traits, traits, traits, overloads, visitors, type_name, type_name, type_name])(decl, ent, calls, names)
    with open('%s/gen_C27_%d.cpp' % (build, f), 'w') as o:
        o.write(HEAD.split('namespace signatures')[0] + '\n'.join(pre) + '\nnamespace signatures' + HEAD.split('namespace signatures')[1].replace('@N@', str(f)))
        o.write('\n'.join(decl) + '\n\tconst Entry entries[] = {\n' + '\n'.join(ent) + '\n\t};\n\tconst Called calls[] = {\n' + '\n'.join(calls) + '\n\t};\n\tconst Name names[] = {\n' + '\n'.join(names) + '\n\t};\n')
        o.write('''\tPBT_SWEEP("signatures, program %d", %d, [](pbt::Case& c) { const Entry& e = entries[c.below(std::size(entries))]; LOG(e.what); if (e.nontrivial) c.nontrivial(); CHECK(e.holds, e.what); })
	PBT_SWEEP("calls, program %d", %d, [](pbt::Case& c) { const Called& e = calls[c.below(std::size(calls))]; LOG(e.what); c.nontrivial(); CHECK_EQ(e.call(), e.expected, e.what); })
	PBT_SWEEP("names, program %d", %d, [](pbt::Case& c)
	{
		const Name& e = names[c.below(std::size(names))]; LOG(e.type);
		if (std::strlen(e.type) > 12) c.nontrivial();
#ifdef __clang__
		const char* expected = e.clang;
#else
		const char* expected = e.gcc;
#endif
		CHECK_EQ(Normal(e.name), Normal(expected), "name of the type");
		for (const Name& other : names) CHECK_EQ(e.name == other.name, e.id == other.id, "two types have the same name if and only if they are the same", other.type);
	})
}
''' % (f, len(ent), f, len(calls), f, len(names)))
