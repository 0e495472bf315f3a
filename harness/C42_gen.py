#!/usr/bin/env python3
"""C42: what the types accept, refuse and convert to, as the compilers see it.

Rows: a generated question to a type of the library (with generated types inside), next to the question which must have the
same answer, put to the types it holds or to the language. Verdicts: generated programs which the compilers must accept or
refuse, the generator knowing which."""
import os, random, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
REPO = os.environ.get('VERIF_REPO', '/repo')
rng = random.Random(seed * 6151 + 42)
UNITS, ROWS = (16, 220) if tier == 'quick' else (48, 320)

PRELUDE = r'''#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/Constants.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace c42
{
	struct Base { virtual ~Base() = default; int b = 0; };
	struct Derived : Base { int d = 0; };
	struct Implicit { Implicit(int); int v; };
	struct Explicit { explicit Explicit(int); int v; };
	struct NoDefault { NoDefault(double, int); };
	struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
	struct CopyOnly { CopyOnly() = default; CopyOnly(const CopyOnly&) {} CopyOnly& operator=(const CopyOnly&) { return *this; } };
	struct Unassignable { Unassignable(const Unassignable&) = default; Unassignable(int); Unassignable& operator=(const Unassignable&) = delete; };
	struct ToInt { operator int() const { return 3; } };
	struct ExplicitToInt { explicit operator int() const { return 3; } };
	struct ToBase { operator Base*() const { return nullptr; } };
	enum class S1 { A, B, C };
	enum class S2 { A, B, C = 20 };
	enum U1 { U1A, U1B, U1C = 40 };
	enum class W1 : unsigned char { A, B, Max = B };
	enum class P1 { A, B };
	enum P2 { P2A, P2B };
	constexpr bool EnableEnumAsNzFlags(W1) { return true; }

	// callables
	struct Take { template<typename... Args> int operator()(Args&&...) const { return 1; } };
	struct OnInt { int operator()(int) const { return 1; } };
	struct OnIntMutable { int operator()(int) { return 1; } };
	struct OnIntRef { void operator()(int&) const {} };
	struct OnString { std::string operator()(const std::string&) const { return {}; } };
	struct OnNothing { void operator()() const {} };
	struct OnTwo { double operator()(int, std::string_view) const { return 1; } };
	struct OnBase { Base* operator()(Base*) const { return nullptr; } };
	struct OnUnique { void operator()(std::unique_ptr<Base>) const {} };
	struct OnRvalue { int operator()(int) && { return 1; } };
	struct OnLvalue { int operator()(int) & { return 1; } };
	struct Both { int operator()(int) const { return 1; } int operator()(const std::string&) const { return 1; } };
	struct NotCallable {};
	using FnPtr = int (*)(int);
	int freeInt(int);
	void freeString(std::string);
}
namespace Nz
{
	template<> struct EnumAsFlags<c42::S1> { static constexpr c42::S1 max = c42::S1::C; };
	template<> struct EnumAsFlags<c42::S2> { static constexpr c42::S2 max = c42::S2::C; };
	template<> struct EnumAsFlags<c42::U1> { static constexpr c42::U1 max = c42::U1C; };
}
namespace c42
{
	template<typename E> inline constexpr bool flagged = std::is_same_v<E, S1> || std::is_same_v<E, S2> || std::is_same_v<E, U1> || std::is_same_v<E, W1>;
	template<typename T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
	struct None {};
	// the type of an expression, None when it is refused
#define OP(name, expr) \
	template<typename A, typename B, typename = void> struct name##Of { using type = None; }; \
	template<typename A, typename B> struct name##Of<A, B, std::void_t<decltype(expr)>> { using type = decltype(expr); }; \
	template<typename A, typename B> using name = typename name##Of<A, B>::type;
	OP(And, std::declval<A>() & std::declval<B>())
	OP(Or, std::declval<A>() | std::declval<B>())
	OP(Xor, std::declval<A>() ^ std::declval<B>())
	OP(Equal, std::declval<A>() == std::declval<B>())
	OP(AndAssign, std::declval<A>() &= std::declval<B>())
	OP(OrAssign, std::declval<A>() |= std::declval<B>())
	OP(XorAssign, std::declval<A>() ^= std::declval<B>())
	OP(MapOf, std::declval<A>().Map(std::declval<B>()))
	OP(ConnectTo, std::declval<A>().Connect(std::declval<B>()))
	OP(Not, ~std::declval<A>())
	template<typename A, typename B> inline constexpr bool same = std::is_same_v<A, B>;
	template<typename T> inline constexpr bool valid = !std::is_same_v<T, None>;

	// what a binary operator between two enumerations or integers gives: flags when both are the same flagged enumeration
	template<typename A, typename B, typename C> constexpr bool combines()
	{
		if constexpr (flagged<A> && std::is_same_v<A, B>)
			return std::is_same_v<C, Nz::Flags<A>>;
		else if constexpr (std::is_convertible_v<A, long long> && std::is_convertible_v<B, long long>)
			return std::is_integral_v<C>;
		else
			return std::is_same_v<C, None>;
	}
	// between flags and something else, which must be convertible to them (integers are)
	template<typename E, typename X> inline constexpr bool becomesFlags = std::is_same_v<bare<X>, E> || std::is_same_v<bare<X>, Nz::Flags<E>> || std::is_convertible_v<X, typename Nz::Flags<E>::BitField>;
	template<typename F, typename G> inline constexpr bool sameOrNull = std::is_same_v<bare<F>, G> || std::is_same_v<bare<F>, std::nullptr_t>;
	// overloads told apart by what the callable accepts
	struct Chooser
	{
		int operator()(Nz::FunctionRef<void(int)>) const;
		long operator()(Nz::FunctionRef<void(const std::string&)>) const;
	};
	template<typename R, typename... A> struct Sig
	{
		using Ref = Nz::FunctionRef<R(A...)>;
		using Ptr = R(*)(A...);
		using Std = std::function<void(A...)>;
		using Signal = Nz::Signal<A...>;
		template<typename F> static constexpr bool takes = std::is_invocable_r_v<R, F, A...>;
	};
}
'''

VALUES = ['bool', 'char', 'short', 'int', 'unsigned', 'long long', 'float', 'double', 'int*', 'const int*', 'c42::Base*', 'c42::Derived*', 'const c42::Derived*', 'std::string', 'const char*',
          'std::string_view', 'std::unique_ptr<c42::Base>', 'std::unique_ptr<c42::Derived>', 'std::shared_ptr<c42::Base>', 'std::shared_ptr<c42::Derived>', 'c42::Implicit', 'c42::Explicit',
          'c42::NoDefault', 'c42::MoveOnly', 'c42::CopyOnly', 'c42::Unassignable', 'c42::S1', 'c42::U1', 'c42::P1', 'c42::P2', 'c42::FnPtr', 'std::vector<int>', 'std::pair<int, double>']
SOURCES = VALUES + ['std::nullptr_t', 'c42::ToInt', 'c42::ExplicitToInt', 'c42::ToBase', 'unsigned char', 'unsigned short', 'void*', 'int[3]', 'const char[4]', 'long double', 'c42::S2', 'c42::W1']
ENUMS = ['c42::S1', 'c42::S2', 'c42::U1', 'c42::W1']
NUMBERS = ['bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long long', 'float', 'double', 'c42::P1', 'c42::P2', 'char16_t', 'wchar_t']
SIGS = ['int, int', 'void, int', 'void', 'bool', 'std::string, const std::string&', 'void, const std::string&', 'double, int, std::string_view', 'void, int&', 'c42::Base*, c42::Base*', 'c42::Base*, c42::Derived*',
        'void, std::unique_ptr<c42::Base>', 'void, std::unique_ptr<c42::Derived>', 'long, short', 'c42::MoveOnly', 'void, double, const char*', 'c42::Explicit, int', 'c42::Implicit, int', 'void, const c42::MoveOnly&', 'const char*, int', 'std::string, const char*']
CALLABLES = ['c42::Take', 'c42::OnInt', 'c42::OnIntMutable', 'c42::OnIntRef', 'c42::OnString', 'c42::OnNothing', 'c42::OnTwo', 'c42::OnBase', 'c42::OnUnique', 'c42::OnRvalue', 'c42::OnLvalue', 'c42::Both', 'c42::NotCallable',
             'int (*)(int)', 'void (*)(std::string)', 'int (&)(int)', 'void (*)()', 'int', 'std::function<int(int)>', 'std::function<void(std::string)>', 'Nz::FunctionRef<int(int)>', 'Nz::FunctionRef<void()>',
             'std::nullptr_t', 'void*', 'std::string', 'c42::Base* (*)(c42::Derived*)']
ARGS = ['int', 'int&', 'const int&', 'short', 'double', 'std::string', 'const std::string&', 'const char*', 'std::string_view', 'c42::Base*', 'c42::Derived*', 'std::unique_ptr<c42::Derived>', 'std::unique_ptr<c42::Base>', 'std::nullptr_t', 'c42::ToInt', 'c42::MoveOnly', 'c42::P2']
rc = rng.choice
ref = lambda t: t + rc([' const&', '&', '']) if '(' not in t and '[' not in t and '&' not in t else t
def arr(t): return ('const char (&)[4]' if t == 'const char[4]' else 'int (&)[3]' if t == 'int[3]' else t)
def source(): return arr(ref(rc(SOURCES)))
def value(d=0):
    k = rng.randrange(12) if d < 2 else 9
    if k == 0: return 'Nz::MovablePtr<%s>' % rc(['int', 'c42::Base', 'const char'])
    if k == 1 and d < 1: return 'std::vector<%s>' % value(d + 1)
    return rc(VALUES)
COPYABLE = [v for v in VALUES if 'unique' not in v and 'MoveOnly' not in v]

def r_functionref():
    s, f = rc(SIGS), rc(CALLABLES)
    f = ref(f) if '*' not in f or rng.random() < .3 else f
    F, R = f, 'c42::Sig<%s>' % s
    k = rng.randrange(6)
    T = '%s::Ref' % R
    if k <= 1: return '(std::is_constructible_v<%s, %s> && std::is_convertible_v<%s, %s>)' % (T, F, F, T), '(%s::takes<%s> || c42::sameOrNull<%s, %s>)' % (R, F, F, T)
    if k == 2:
        a = [rc(ARGS) for _ in range(rc([0, 1, 1, 1, 2]))]
        return 'std::is_invocable_v<%s>' % ', '.join(['const ' + T + '&'] + a), 'std::is_invocable_v<%s>' % ', '.join([R + '::Ptr'] + a)
    if k == 3: return 'std::is_assignable_v<%s&, %s>' % (T, F), '(%s::takes<%s> || c42::sameOrNull<%s, %s>)' % (R, F, F, T)
    if k == 4: return 'std::is_invocable_v<c42::Chooser, %s>' % F, '(c42::same<c42::bare<%s>, Nz::FunctionRef<void(int)>> || c42::same<c42::bare<%s>, Nz::FunctionRef<void(const std::string&)>> || (!c42::same<c42::bare<%s>, std::nullptr_t> && c42::Sig<void, int>::takes<%s> != c42::Sig<void, const std::string&>::takes<%s>))' % (F, F, F, F, F)
    return '(std::is_constructible_v<bool, %s> && !std::is_convertible_v<%s, bool> && !std::is_default_constructible_v<%s> && noexcept(%s(nullptr)))' % (T, T, T, T), 'true'

def r_movable():
    t, u = value(), source()
    w = 'Nz::MovableValue<%s>' % t
    k = rng.randrange(8)
    if k in (5, 6) and '(*)' in t: return r_movable()
    if k <= 1: return '(std::is_constructible_v<%s, %s> && std::is_convertible_v<%s, %s>)' % (w, u, u, w), 'std::is_constructible_v<%s, %s>' % (t, u)
    if k == 2: return 'std::is_assignable_v<%s&, %s>' % (w, u), '(std::is_assignable_v<%s&, %s> || std::is_constructible_v<%s, %s>)' % (t, u, t, u)
    if k == 3: return 'std::is_copy_constructible_v<%s>' % w, 'std::is_copy_constructible_v<%s>' % t
    if k == 4: return 'std::is_copy_assignable_v<%s>' % w, 'std::is_copy_assignable_v<%s>' % t
    if k == 5: return '(c42::same<decltype(std::declval<%s&>().Get()), %s&> && c42::same<decltype(std::declval<const %s&>().Get()), %s const&> && c42::same<decltype(std::declval<%s>().Get()), %s&&>)' % (w, t, w, t, w, t), 'true'
    if k == 6: return '(std::is_convertible_v<%s&, %s&> && std::is_convertible_v<const %s&, %s const&> && !std::is_convertible_v<const %s&, %s&> && std::is_nothrow_move_constructible_v<%s> && std::is_nothrow_move_assignable_v<%s>)' % (w, t, w, t, w, t, w, w), 'true'
    return 'std::is_default_constructible_v<%s>' % w, 'std::is_default_constructible_v<%s>' % t

def r_literal():
    t, d = rc([('int', '3'), ('unsigned', '7'), ('bool', 'true'), ('int*', 'nullptr'), ('c42::P1', 'c42::P1::B'), ('c42::P2', 'c42::P2B'), ('short', '2'), ('c42::Base*', 'nullptr'), ('char', "'x'")])
    w, u = 'Nz::MovableLiteral<%s, %s>' % (t, d), source()
    k = rng.randrange(4)
    if k <= 1: return '(std::is_constructible_v<%s, %s> && std::is_convertible_v<%s, %s>)' % (w, u, u, w), 'std::is_constructible_v<%s, %s>' % (t, u)
    if k == 2: return 'std::is_assignable_v<%s&, %s>' % (w, u), '(std::is_assignable_v<%s&, %s> || std::is_constructible_v<%s, %s>)' % (t, u, t, u)
    return '(std::is_copy_constructible_v<%s> && std::is_copy_assignable_v<%s> && std::is_nothrow_move_constructible_v<%s> && std::is_convertible_v<%s, %s> && c42::same<decltype(std::declval<const %s&>().Get()), %s const&>)' % (w, w, w, w, t, w, t), 'true'

def r_movableptr():
    t, u = rc(['int', 'const int', 'c42::Base', 'const c42::Base', 'c42::Derived', 'const char', 'std::string']), source()
    w = 'Nz::MovablePtr<%s>' % t
    k = rng.randrange(4)
    p = t + '*'
    if k <= 1: return 'std::is_constructible_v<%s, %s>' % (w, u), 'std::is_convertible_v<%s, %s>' % (u, p)
    if k == 2: return 'std::is_assignable_v<%s&, %s>' % (w, u), 'std::is_convertible_v<%s, %s>' % (u, p)
    v = rc(['int*', 'const int*', 'c42::Base*', 'const c42::Base*', 'c42::Derived*', 'void*', 'const void*', 'bool', 'int', 'const char*'])
    return 'std::is_convertible_v<const %s&, %s>' % (w, v), 'std::is_convertible_v<%s, %s>' % (p, v)

def r_result():
    v, e, v2, e2 = rc(VALUES), rc(VALUES), rc(VALUES), rc(VALUES)
    if rng.random() < .4: v2 = v
    if rng.random() < .4: e2 = e
    r, r2 = 'Nz::Result<%s, %s>' % (v, e), 'Nz::Result<%s, %s>' % (v2, e2)
    k = rng.randrange(12)
    if k <= 2:
        if r == r2: return r_result()
        return '(std::is_constructible_v<%s, %s> && std::is_convertible_v<%s, %s>)' % (r, r2, r2, r), '(std::is_convertible_v<%s, %s> && std::is_convertible_v<%s, %s>)' % (v2, v, e2, e)
    if k == 3:
        vr, vr2 = 'Nz::Result<void, %s>' % e, 'Nz::Result<void, %s>' % e2
        if e == e2: return r_result()
        return 'std::is_convertible_v<%s, %s>' % (vr2, vr), 'std::is_convertible_v<%s, %s>' % (e2, e)
    if k == 4: return 'std::is_default_constructible_v<%s>' % r, 'std::is_default_constructible_v<%s>' % v
    if k == 5: return 'std::is_copy_constructible_v<%s>' % r, '(std::is_copy_constructible_v<%s> && std::is_copy_constructible_v<%s>)' % (v, e)
    if k == 6: return 'std::is_copy_assignable_v<%s>' % r, '(std::is_copy_constructible_v<%s> && std::is_copy_constructible_v<%s> && std::is_copy_assignable_v<%s> && std::is_copy_assignable_v<%s>)' % (v, e, v, e)
    if k == 7:
        # a value is one of exactly that type
        u = rc(COPYABLE)
        if rng.random() < .4 and v in COPYABLE: u = v
        return '(std::is_constructible_v<%s, %s> && std::is_convertible_v<%s, %s>)' % (r, u, u, r), '(c42::same<%s, %s> && !c42::same<%s, %s>)' % (u, v, v, e)
    if k == 8:
        if 'MoveOnly' in e or 'unique' in e or 'MoveOnly' in v or 'unique' in v: return r_result()
        f, q = rc(CALLABLES), rc(['const %s&', '%s'])
        a = 'const %s&' % v if '&' in q and '*' not in v else ('%s const&' % v.replace('(*)', '(* const&)') if '(*)' in v else v + ' const&') if '&' in q else v
        if '(*)' in v: return r_result()
        return 'c42::valid<c42::MapOf<%s, %s>>' % (q % r, f), 'std::is_invocable_v<%s, %s>' % (f, a)
    if k == 9:
        if '(*)' in v or '(*)' in e: return r_result()
        return '(c42::same<decltype(std::declval<%s&>().GetValue()), %s&> && c42::same<decltype(std::declval<const %s&>().GetValue()), %s const&> && c42::same<decltype(std::declval<%s>().GetValue()), %s&&> && c42::same<decltype(*std::declval<%s>()), %s&&>)' % (r, v, r, v, r, v, r, v), 'true'
    if k == 10:
        if '(*)' in v or '(*)' in e: return r_result()
        return '(c42::same<decltype(std::declval<%s&>().GetError()), %s&> && c42::same<decltype(std::declval<const %s&>().GetError()), %s const&> && c42::same<decltype(std::declval<%s>().GetError()), %s&&>)' % (r, e, r, e, r, e), 'true'
    return '(std::is_constructible_v<bool, const %s&> && !std::is_convertible_v<const %s&, bool> && !std::is_convertible_v<%s, int> && noexcept(std::declval<const %s&>().IsOk()))' % (r, r, r, r), 'true'

def r_flags():
    e = rc(ENUMS)
    f = 'Nz::Flags<%s>' % e
    k = rng.randrange(9)
    x = rc(ENUMS + NUMBERS + ['Nz::Flags<%s>' % t for t in ENUMS] + ['int*', 'std::string', 'std::nullptr_t', e, f])
    if k <= 1: return '(std::is_constructible_v<%s, %s> && std::is_convertible_v<%s, %s>)' % (f, x, x, f), 'c42::becomesFlags<%s, %s>' % (e, x)
    if k == 2:
        n = rc(NUMBERS + ['int*', 'std::string'])
        return '(std::is_constructible_v<%s, %s> && !std::is_convertible_v<%s, %s>)' % (n, f, f, n) if n != 'std::string' else '!std::is_convertible_v<%s, %s>' % (f, n), '(std::is_same_v<%s, bool> || (std::is_integral_v<%s> && sizeof(%s) >= sizeof(%s::BitField)))' % (n, n, n, f) if n != 'std::string' else 'true'
    op = rc(['And', 'Or', 'Xor'])
    if k == 3: return 'c42::same<c42::%s<%s, %s>, %s>' % (op, f, x, f), 'c42::becomesFlags<%s, %s>' % (e, x)
    if k == 4:
        if x.startswith('Nz::Flags') : return r_flags()
        return 'c42::same<c42::%s<%s, %s>, %s>' % (op, x, f, f), 'c42::same<%s, %s>' % (x, e)
    if k <= 6:
        a, b = rc(ENUMS + NUMBERS), rc(ENUMS + NUMBERS)
        if rng.random() < .3: b = a
        if 'float' in (a, b) or 'double' in (a, b): return r_flags()
        return 'c42::combines<%s, %s, c42::%s<%s, %s>>()' % (a, b, op, a, b), 'true'
    if k == 7: return 'c42::valid<c42::%sAssign<%s&, %s>>' % (op, f, x), 'c42::becomesFlags<%s, %s>' % (e, x)
    a = rc(ENUMS + ['c42::P1'])
    return 'c42::same<c42::Not<%s, int>, %s>' % (a, 'Nz::Flags<%s>' % a if a in ENUMS else 'c42::None'), 'true'

def r_sparse():
    t = rc(['int', 'const int', 'c42::Base', 'const c42::Base', 'c42::Derived', 'float'])
    u = rc(['int', 'const int', 'c42::Base', 'const c42::Base', 'c42::Derived', 'const c42::Derived', 'float', 'void', 'const void'])
    w = 'Nz::SparsePtr<%s>' % t
    k = rng.randrange(4)
    if k == 0: return 'std::is_convertible_v<%s*, %s>' % (u, w), 'std::is_convertible_v<%s*, %s*>' % (u, t)
    if k == 1: return 'std::is_constructible_v<%s, %s*, %s>' % (w, u, rc(['int', 'std::size_t'])), '(std::is_const_v<%s> || !std::is_const_v<%s>)' % (t, u)
    if k == 2: return '(std::is_constructible_v<%s*, %s> && !std::is_convertible_v<%s, %s*> && std::is_constructible_v<bool, %s> && !std::is_convertible_v<%s, bool> && !std::is_convertible_v<%s, int>)' % (t, w, w, t, w, w, w), 'true'
    return '(c42::same<decltype(*std::declval<const %s&>()), %s&> && c42::same<decltype(std::declval<const %s&>()[2]), %s&> && c42::same<decltype(std::declval<const %s&>().operator->()), %s*>)' % (w, t, w, t, w, t), 'true'

def r_containers():
    t, n = rc([v for v in VALUES if '(*)' not in v]), rng.randrange(1, 9)
    k = rng.randrange(11)
    fv = rc(['Nz::FixedVector<%s, %d>', 'Nz::HybridVector<%s, %d>']) % (t, n)
    if k == 0: return '(std::is_convertible_v<%s::iterator, %s::const_iterator> && !std::is_convertible_v<%s::const_iterator, %s::iterator>)' % (fv, fv, fv, fv), 'true'
    if k == 1: return '(std::is_nothrow_move_constructible_v<%s> && std::is_nothrow_move_assignable_v<%s> && std::is_nothrow_destructible_v<%s>)' % (fv, fv, fv), 'true'
    if k == 2:
        s = rc(['Nz::StackVector<%s>' % t, 'Nz::StackArray<%s>' % t, 'Nz::MemoryPool<%s>' % t])
        return '(!std::is_copy_constructible_v<%s> && !std::is_copy_assignable_v<%s> && std::is_nothrow_move_constructible_v<%s> && std::is_nothrow_move_assignable_v<%s>)' % (s, s, s, s), 'true'
    if k == 3: return '(c42::same<decltype(std::declval<%s&>()[0]), %s&> && c42::same<decltype(std::declval<const %s&>()[0]), %s const&> && c42::same<decltype(std::declval<const %s&>().data()), %s const*> && c42::same<decltype(std::declval<const %s&>().back()), %s const&>)' % (fv, t, fv, t, fv, t, fv, t), 'true'
    if k == 4:
        if t in ('c42::NoDefault', 'c42::Implicit', 'c42::Explicit', 'c42::Unassignable'): return r_containers() # the default argument is not for them
        return '(std::is_constructible_v<%s, std::size_t> && !std::is_convertible_v<std::size_t, %s>)' % (fv, fv), 'true'
    b = 'Nz::Bitset<%s>' % rc(['Nz::UInt8', 'Nz::UInt16', 'Nz::UInt32', 'Nz::UInt64'])
    if k == 5: return '(std::is_constructible_v<%s, const std::string&> && std::is_constructible_v<%s, std::string_view> && std::is_constructible_v<%s, std::size_t, bool> && std::is_nothrow_move_constructible_v<%s> && std::is_copy_constructible_v<%s>)' % (b, b, b, b, b), 'true'
    if k == 6: return '(std::is_constructible_v<bool, decltype(std::declval<%s&>()[0])> && c42::same<decltype(std::declval<const %s&>()[0]), bool> && !std::is_assignable_v<decltype(std::declval<const %s&>()[0]), bool> && std::is_assignable_v<decltype(std::declval<%s&>()[0]), bool>)' % (b, b, b, b), 'true'
    a = rc(['c42::W1'])
    ea = 'Nz::EnumArray<%s, %s>' % (a, t)
    if k == 7: return '(c42::same<decltype(std::declval<%s&>()[%s::A]), %s&> && c42::same<decltype(std::declval<const %s&>()[%s::A]), %s const&>)' % (ea, a, t, ea, a, t), 'true'
    if k == 8: return '(std::is_default_constructible_v<%s> == std::is_default_constructible_v<%s>)' % (ea, t), 'true'
    if k == 9: return '(std::is_copy_constructible_v<%s> == std::is_copy_constructible_v<%s> && std::is_copy_assignable_v<%s> == std::is_copy_assignable_v<%s>)' % (ea, t, ea, t), 'true'
    p = 'Nz::MemoryPool<%s>' % t
    return '(c42::same<decltype(*std::declval<%s&>().begin()), %s&> && c42::same<decltype(*std::declval<const %s&>().begin()), %s const&> && c42::same<decltype(std::declval<const %s&>().RetrieveFromIndex(0)), %s const*>)' % (p, t, p, t, p, t), 'true'

def r_signal():
    s = rc([x for x in SIGS if 'unique' not in x])
    R = 'c42::Sig<%s>' % s
    S = R + '::Signal'
    k = rng.randrange(3)
    f = rc([c for c in CALLABLES if c not in ('std::nullptr_t', 'void*')])
    if 'MoveOnly' in s and 'const' not in s: return r_signal()
    if k == 0: return 'c42::valid<c42::ConnectTo<%s&, %s>>' % (S, f), 'std::is_convertible_v<%s, %s::Std>' % (f, R)
    C, G = S + '::Connection', S + '::ConnectionGuard'
    if k == 1: return '(!std::is_copy_constructible_v<%s> && !std::is_copy_assignable_v<%s> && std::is_nothrow_move_constructible_v<%s> && std::is_nothrow_move_assignable_v<%s> && std::is_convertible_v<%s, %s> && !std::is_convertible_v<%s, %s>)' % (G, G, G, G, C, G, G, C), 'true'
    return '(std::is_copy_constructible_v<%s> && std::is_nothrow_move_constructible_v<%s> && std::is_nothrow_move_assignable_v<%s> && std::is_nothrow_move_constructible_v<%s> && std::is_nothrow_move_assignable_v<%s> && std::is_default_constructible_v<%s>)' % (C, C, C, S, S, G), 'true'

KINDS = [('function references', r_functionref, 5), ('movable values', r_movable, 4), ('movable literals', r_literal, 2), ('movable pointers', r_movableptr, 2), ('results', r_result, 6), ('flags', r_flags, 5), ('strided pointers', r_sparse, 2), ('containers', r_containers, 3), ('signals', r_signal, 2)]
weighted = [i for i, k in enumerate(KINDS) for _ in range(k[2])]
q = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"'
seen = set()
for u in range(UNITS):
    rows = []
    while len(rows) < ROWS:
        i = rc(weighted)
        a, b = KINDS[i][1]()
        if (a, b) in seen and rng.random() < .98: continue
        seen.add((a, b))
        rows.append((i, a, b))
    s = PRELUDE + 'namespace c42 { struct Row { int kind; const char* text; const char* like; bool got; bool expected; }; }\nextern const c42::Row rows%d[];\nconst c42::Row rows%d[] = {\n' % (u, u)
    for i, a, b in rows:
        s += '\t{ %d, %s, %s, %s, %s },\n' % (i, q(a), q(b), a, b)
    s += '};\n'
    open(os.path.join(out, 'gen_rows_%02d.cpp' % u), 'w').write(s)

# -- programs to accept or refuse
jobs = [] # what, body, accepted
def job(what, body, ok): jobs.append((what, body, ok))
PTR = {('int', 'int'): 1, ('const int', 'int'): 1, ('c42::Base', 'c42::Derived'): 1, ('const c42::Base', 'c42::Derived'): 1, ('const c42::Base', 'c42::Base'): 1, ('c42::Base', 'c42::Base'): 1, ('const c42::Base', 'const c42::Base'): 1, ('const c42::Base', 'const c42::Derived'): 1}
def many(n, f):
    for _ in range(n * 2 if tier == 'quick' else n * 8): f()
def s_sparse():
    t, u = rc(['int', 'const int', 'c42::Base', 'const c42::Base', 'c42::Derived', 'float']), rc(['int', 'const int', 'c42::Base', 'const c42::Base', 'c42::Derived', 'const c42::Derived'])
    job('SparsePtr<%s> from SparsePtr<%s>' % (t, u), rc(['Nz::SparsePtr<%s> f(const Nz::SparsePtr<%s>& p) { return Nz::SparsePtr<%s>(p); }' % (t, u, t), 'void f(Nz::SparsePtr<%s>& t, const Nz::SparsePtr<%s>& p) { t.Reset(p); }' % (t, u)]), (t, u) in PTR or t == u)
def s_sparse_index():
    i, ok = rc([('int', 1), ('unsigned char', 1), ('long long', 1), ('double', 0), ('float', 0), ('std::string', 0), ('c42::P1', 0), ('c42::P2', 0), ('int*', 0), ('std::size_t', 1)])
    e = rc(['p[i]', 'p + i', 'p - i', 'p += i', 'p -= i'])
    job('SparsePtr %s with i of type %s' % (e, i), 'void f(Nz::SparsePtr<int>& p, %s i) { (void) (%s); }' % (i, e), ok)
def s_bitset():
    b, ok = rc([('Nz::UInt8', 1), ('Nz::UInt16', 1), ('Nz::UInt32', 1), ('Nz::UInt64', 1), ('int', 0), ('signed char', 0), ('float', 0), ('long', 0), ('short', 0)])
    job('Bitset<%s>' % b, 'int f(const Nz::Bitset<%s>& b) { return int(b.Count()); }' % b, ok)
def s_bitset_to():
    t, ok = rc([('Nz::UInt8', 1), ('unsigned', 1), ('unsigned long long', 1), ('int', 0), ('short', 0), ('float', 0), ('double', 0), ('long long', 0)])
    job('Bitset::To<%s>()' % t, '%s f(const Nz::Bitset<>& b) { return b.To<%s>(); }' % (t, t), ok)
def s_bit_address():
    c = rc(['', 'const '])
    job('address of a bit of a %sbitset' % c, 'auto f(%sNz::Bitset<>& b) { return &b[3]; }' % c, 0)
def s_bit_address_ok(): job('a bit is read and written', 'bool f(Nz::Bitset<>& b) { b[3] = true; b[4] = b[3]; b[2] |= true; return b[4] && ~b[1]; }', 1)
SIZES = {'Nz::UInt8': 1, 'Nz::UInt16': 2, 'Nz::UInt32': 4, 'float': 4, 'double': 8, 'Nz::UInt64': 8, 'Nz::Int64': 8, 'char': 1, 'int*': 8, 'c42::P1': 4, 'c42::W1': 1, 'std::string': 32, 'std::unique_ptr<int>': 8, 'c42::CopyOnly': 1}
def s_bitcast():
    a, b = rc(list(SIZES)), rc(list(SIZES))
    if rng.random() < .5: b = rc([t for t in SIZES if SIZES[t] == SIZES[a]])
    triv = lambda t: t not in ('std::string', 'std::unique_ptr<int>', 'c42::CopyOnly')
    job('BitCast from %s to %s' % (a, b), 'void f(const %s& v) { (void) Nz::BitCast<%s>(v); }' % (a, b), SIZES[a] == SIZES[b] and triv(a) and triv(b))
def s_flags():
    e, ok = rc([('c42::S1', 1), ('c42::S2', 1), ('c42::U1', 1), ('c42::W1', 1), ('c42::P1', 0), ('c42::P2', 0), ('int', 0), ('c42::Base', 0), ('bool', 0)])
    job('Flags<%s>' % e, 'bool f(const Nz::Flags<%s>& a) { return a.Test(a); }' % e, ok)
def s_flags_mix():
    a, b = rc(ENUMS[:2] + ENUMS[3:]), rc(ENUMS[:2] + ENUMS[3:])
    e = rc(['a | b', 'a & b', 'a ^ b', 'a |= b', 'a == b', 'a = b'])
    job('Flags<%s> a; Flags<%s> b; %s' % (a, b, e), 'void f(Nz::Flags<%s> a, Nz::Flags<%s> b) { (void) (%s); }' % (a, b, e), a == b)
def s_flags_narrow():
    e, size = rc([('c42::S1', 1), ('c42::S2', 4), ('c42::U1', 8), ('c42::W1', 1)])
    t, n = rc([('unsigned char', 1), ('short', 2), ('int', 4), ('Nz::UInt64', 8), ('float', 0), ('double', 0)])
    how = rc(['static_cast<%s>(v)' % t, '%s(v)' % t]) if ' ' not in t else 'static_cast<%s>(v)' % t
    job('%s with v of type Flags<%s>' % (how, e), 'auto f(Nz::Flags<%s> v) { return %s; }' % (e, how), n >= size)
def s_flags_implicit():
    t = rc(['bool', 'int', 'unsigned', 'Nz::UInt64'])
    job('Flags become %s unasked' % t, '%s f(Nz::Flags<c42::S1> v) { return v; }' % t, 0)
def s_fixed():
    n = rc([0, 0, 1, 3])
    job('FixedVector<int, %d>' % n, 'int f(const Nz::FixedVector<int, %d>& v) { return int(v.size()); }' % n, n > 0)
def s_fixed_int(): job('a FixedVector from an integer, unasked', rc(['Nz::FixedVector<int, 4> f() { return std::size_t(3); }', 'void g(Nz::FixedVector<int, 4>); void f() { g(3); }']), 0)
def s_constants():
    fn, t = rc(['Infinity', 'NaN', 'Pi', 'TwoPi' if False else 'HalfPi']), rc(['float', 'double', 'long double', 'int', 'unsigned'])
    job('%s<%s>()' % (fn, t), 'auto f() { return Nz::%s<%s>(); }' % (fn, t), t in ('float', 'double', 'long double'))
def s_pimpl():
    size, room = rc([(1, 1), (8, 8), (24, 8), (24, 24), (33, 24), (40, 64), (65, 64), (100, 3)])
    job('a PrivateImpl<T, %d> whose T has %d bytes' % (room, size), 'struct T { char bytes[%d]; };\nvoid f() { Nz::PrivateImpl<T, %d> p; (void) p; }' % (size, room), size <= (room + 15) // 16 * 16) # the room is a multiple of the alignment
def s_pimpl_align():
    need, given = rc([(8, 8), (16, 16), (32, 16), (64, 8), (16, 8), (8, 64)])
    job('a PrivateImpl aligned on %d whose T is aligned on %d' % (given, need), 'struct alignas(%d) T { char bytes[8]; };\nvoid f() { Nz::PrivateImpl<T, 128, %d> p; (void) p; }' % (need, given), need <= given)
def s_pimpl_incomplete():
    ok = rng.random() < .4
    job('a PrivateImpl made where T is %s' % ('known' if ok else 'not known'), 'struct T%s;\nvoid f() { Nz::PrivateImpl<T> p(std::in_place_t{} == nullptr); }'.replace('(std::in_place_t{} == nullptr)', '') % (' { int v; }' if ok else ''), ok)
def s_enumarray():
    body, ok = rc([('enum class E { A, B, Max = B };', 1), ('enum class E { A, B, Count };', 1), ('enum class E { A, B };', 0), ('struct E { int Max; };', 0)])
    job('EnumArray over %s' % body, body + '\nint f(const Nz::EnumArray<E, int>& a) { return int(a.size()); }', ok)
def s_enumarray_key():
    k, ok = rc([('c42::W1::B', 1), ('c42::P1::A', 0), ('1', 0), ('c42::P2A', 0)])
    job('EnumArray<W1>[%s]' % k, 'int f(Nz::EnumArray<c42::W1, int>& a) { return a[%s]; }' % k, ok)
def s_result_void(): 
    v, e = rc([('int', 'void'), ('void', 'int'), ('void', 'void'), ('int', 'std::string')])
    job('Result<%s, %s>' % (v, e), 'bool f(const Nz::Result<%s, %s>& r) { return r.IsOk(); }' % (v, e), e != 'void')
def s_result_return():
    expr, ok = rc([('Nz::Ok(3)', 1), ('Nz::Err("no")', 1), ('Nz::Err(std::string("no"))', 1), ('3', 1), ('std::string("no")', 0), ('Nz::Ok(std::string("yes"))', 0), ('Nz::Ok()', 0), ('Nz::Err(nullptr == 0)', 0), ('nullptr', 0), ('Nz::Result<short, const char*>(Nz::Ok(short(3)))', 1), ('Nz::Result<void, std::string>(Nz::Ok())', 0)])
    job('return %s; as a Result<int, std::string>' % expr, 'Nz::Result<int, std::string> f() { return %s; }' % expr, ok)
def s_result_try():
    r, ok = rc([('Nz::Result<int, std::string>', 1), ('Nz::Result<void, std::string>', 1), ('Nz::Result<std::string, int>', 0), ('Nz::Result<std::string, std::string_view>', 1), ('Nz::Result<std::vector<int>, std::string>', 1), ('int', 0), ('std::string', 0)])
    m = rc(['NAZARA_TRY(g());', 'int v; NAZARA_TRY_VALUE(v, g()); (void) v;'])
    ret = {'Nz::Result<int, std::string>': 'Nz::Ok(1)', 'Nz::Result<void, std::string>': 'Nz::Ok()', 'Nz::Result<std::vector<int>, std::string>': 'std::vector<int>{}'}.get(r, '{}')
    job('%s in a function returning %s' % (m, r), 'Nz::Result<int, std::string> g();\n%s f() { %s return %s; }' % (r, m, ret), ok)
def s_result_bool():
    e, ok = rc([('if (r) return true; return false;', 1), ('return r;', 0), ('bool b = r; return b;', 0), ('return !r;', 1), ('return bool(r);', 1), ('return r == 3;', 0), ('int i = r; return i != 0;', 0), ('return r && true;', 1)])
    t = rc(['int, std::string', 'void, std::string'])
    job('%s on a Result<%s>' % (e, t), 'bool f(const Nz::Result<%s>& r) { %s }' % (t, e), ok)
def s_owner():
    t, copyable = rc([('Nz::StackVector<int>', 0), ('Nz::StackArray<int>', 0), ('Nz::MemoryPool<int>', 0), ('Nz::Signal<int>::ConnectionGuard', 0), ('Nz::Signal<int>::Connection', 1), ('Nz::Signal<int>', 1), ('Nz::CallOnExit<void(*)()>', 0), ('Nz::PrivateImpl<int>', 1), ('Nz::FixedVector<int, 3>', 1), ('Nz::Bitset<>', 1), ('Nz::FunctionRef<void()>', 1), ('Nz::MovablePtr<int>', 1)])
    e = rc(['%s copy(a); (void) copy;' % t, 'b = a;'])
    if 'CallOnExit' in t: e = '%s copy(a); (void) copy;' % t
    job('copy of %s: %s' % (t, e), 'void f(const %s& a, %s& b) { (void) b; %s }' % (t, t, e), copyable)
def s_owner_move():
    t, ok = rc([('Nz::StackVector<int>', 1), ('Nz::StackArray<int>', 1), ('Nz::MemoryPool<int>', 1), ('Nz::Signal<int>::ConnectionGuard', 1), ('Nz::CallOnExit<void(*)()>', 0), ('Nz::Bitset<>', 1)])
    job('move of ' + t, 'void f(%s& a) { %s moved(std::move(a)); (void) moved; }' % (t, t), ok)
def s_signal_call():
    a, ok = rc([('3, std::string("x")', 1), ('3, "x"', 1), ('3', 0), ('', 0), ('"x", 3', 0), ('3, "x", 4', 0), ('c42::P1::A, "x"', 0), ('3.f, std::string_view("x")', 0)])
    job('Signal<int, std::string> fired with (%s)' % a, 'void f(const Nz::Signal<int, std::string>& s) { s(%s); }' % a, ok)
def s_signal_connect():
    f, ok = rc([('[](int, const std::string&) {}', 1), ('[](int, std::string&&) {}', 1), ('[](int) {}', 0), ('[](int, std::string&) {}', 0), ('[](auto&&...) {}', 1), ('[](double, std::string_view) { return 3; }', 1), ('3', 0), ('o, &O::m', 1), ('&o, &O::m', 1), ('c, &O::m', 0), ('&c, &O::m', 0), ('c, &O::k', 1), ('&c, &O::k', 1), ('o, &O::wrong', 0)])
    job('connection of %s to a Signal<int, std::string>' % f, 'struct O { void m(int, std::string); void k(int, std::string) const; void wrong(std::string); };\nvoid f(Nz::Signal<int, std::string>& s, O& o, const O& c) { (void) o; (void) c; s.Connect(%s); }' % f, ok)
def s_functionref():
    f, ok = rc([('[](int) { return 1; }', 1), ('[](int&) { return 1; }', 0), ('[](const std::string&) { return 1; }', 0), ('[](long) { return short(1); }', 1), ('[](int) {}', 0), ('[](int) { return std::string(); }', 0), ('freeFunction', 1), ('&freeFunction', 1), ('nullptr', 1), ('0.5', 0), ('[](int, int = 0) { return 1; }', 1), ('[] { return 1; }', 0)])
    job('FunctionRef<int(int)> from %s' % f, 'int freeFunction(int);\nvoid take(Nz::FunctionRef<int(int)>);\nvoid f() { take(%s); }' % f, ok)
def s_functionref_call():
    a, ok = rc([('3, s', 1), ('3', 0), ('s, 3', 0), ('3, "x"', 0), ("'c', s", 1), ('3, std::string()', 0), ('3, s, 4', 0)])
    job('FunctionRef<int(int, std::string&)> called with (%s)' % a, 'int f(Nz::FunctionRef<int(int, std::string&)> r, std::string& s) { (void) s; return r(%s); }' % a, ok)
def s_functionref_bool():
    e, ok = rc([('if (r) {}', 1), ('bool b = r; (void) b;', 0), ('int b = r; (void) b;', 0), ('bool b(r); (void) b;', 1)])
    job('FunctionRef: %s' % e, 'void f(Nz::FunctionRef<void()> r) { %s }' % e, ok)
def s_constness():
    t, e, ok = rc([('Nz::FixedVector<int, 3>', 'v[0] = 1', 0), ('Nz::FixedVector<int, 3>', '*v.begin() = 1', 0), ('Nz::FixedVector<int, 3>', 'v.push_back(1)', 0), ('Nz::FixedVector<int, 3>', 'v.front() + v.back() + *v.data() + v[0]', 1),
                   ('Nz::StackVector<int>', 'v[0] = 1', 0), ('Nz::StackVector<int>', 'v.back() = 1', 0), ('Nz::StackVector<int>', 'v.front() + v.back() + v[0]', 1), ('Nz::StackArray<int>', 'v[0] = 1', 0), ('Nz::StackArray<int>', 'v[0] + v.front()', 1),
                   ('Nz::EnumArray<c42::W1, int>', 'v[c42::W1::A] = 1', 0), ('Nz::EnumArray<c42::W1, int>', 'v[c42::W1::A] + v.front()', 1), ('Nz::EnumArray<c42::W1, int>', '(*v.iter_kv().begin()).second = 1', 0), ('Nz::MemoryPool<int>', '*v.RetrieveFromIndex(0) = 1', 0),
                   ('Nz::MemoryPool<int>', '*v.begin() = 1', 0), ('Nz::MemoryPool<int>', '*v.RetrieveFromIndex(0) + *v.begin()', 1), ('Nz::Bitset<>', 'v[0] = true', 0), ('Nz::Bitset<>', 'v.Set(0, true)', 0), ('Nz::Bitset<>', 'v[0] && v.Test(1)', 1),
                   ('Nz::PrivateImpl<int>', '*v = 1', 0), ('Nz::PrivateImpl<int>', '*v.Get() = 1', 0), ('Nz::PrivateImpl<int>', '*v + *v.Get()', 1), ('Nz::PrivateImpl<int, 8>', '*v = 1', 0), ('Nz::MovableValue<int>', 'v.Get() = 1', 0), ('Nz::MovableValue<int>', 'v.Get() + v', 1),
                   ('Nz::Result<int, bool>', 'v.GetValue() = 1', 0), ('Nz::Result<int, bool>', '*v = 1', 0), ('Nz::Result<int, bool>', 'v.GetError() = true', 0), ('Nz::Result<int, bool>', '*v + v.GetError()', 1), ('Nz::Flags<c42::S1>', 'v.Set(c42::S1::A)', 0), ('Nz::Flags<c42::S1>', 'v.Test(c42::S1::A)', 1),
                   ('Nz::Flags<c42::S1>', 'v.Clear()', 0), ('Nz::Signal<>', 'v()', 1), ('Nz::Signal<>', 'v.Clear()', 0), ('Nz::Signal<>', 'v.Connect([] {})', 0)])
    job('%s through a const %s' % (e, t), 'void f(const %s& v) { (void) (%s); }' % (t, e), ok)
def s_classcast():
    a, b = rc(['Base', 'Derived']), rc(['Base', 'Derived', 'Implicit'])
    job('StaticUniquePointerCast from %s to %s' % (a, b), 'auto f(std::unique_ptr<c42::%s> p) { return Nz::StaticUniquePointerCast<c42::%s>(std::move(p)); }' % (a, b), b != 'Implicit')
def s_unique_lvalue(): job('StaticUniquePointerCast of an lvalue', 'auto f(std::unique_ptr<c42::Derived>& p) { return Nz::StaticUniquePointerCast<c42::Base>(p); }', 0)
def s_movable():
    e, ok = rc([('Nz::MovablePtr<const int> q(static_cast<const int*>(nullptr))', 1), ('Nz::MovablePtr<int> q(static_cast<const int*>(nullptr))', 0), ('Nz::MovablePtr<c42::Derived> q(static_cast<c42::Base*>(nullptr))', 0), ('Nz::MovablePtr<c42::Base> q(static_cast<c42::Derived*>(nullptr))', 1), ('Nz::MovableLiteral<int, 3> q("3")', 0), ('Nz::MovableLiteral<int, 3> q(4.5)', 1), ('Nz::MovableValue<std::string> q("x")', 1), ('Nz::MovableValue<std::string> q(nullptr == 0)', 0), ('Nz::MovableValue<std::unique_ptr<int>> q(new int)', 1)])
    job(e, 'void f() { %s; (void) q; }' % e, ok)

many(4, s_sparse); many(4, s_sparse_index); many(3, s_bitset); many(3, s_bitset_to); many(2, s_bit_address); many(1, s_bit_address_ok); many(4, s_bitcast); many(4, s_flags); many(4, s_flags_mix); many(3, s_flags_narrow)
many(2, s_flags_implicit); many(2, s_fixed); many(1, s_fixed_int); many(3, s_constants); many(3, s_pimpl); many(3, s_pimpl_align); many(2, s_pimpl_incomplete); many(2, s_enumarray); many(2, s_enumarray_key); many(2, s_result_void)
many(4, s_result_return); many(3, s_result_try); many(4, s_result_bool); many(5, s_owner); many(2, s_owner_move); many(3, s_signal_call); many(4, s_signal_connect); many(4, s_functionref); many(3, s_functionref_call); many(2, s_functionref_bool)
many(12, s_constness); many(2, s_classcast); many(1, s_unique_lvalue); many(3, s_movable)
jobs = list(dict.fromkeys(jobs))
# what is accepted goes together; what is refused goes alone, with code the compiler accepts next to it
work = []
for cxx, std in (('g++', 'c++17'), ('clang++', 'c++20')) if tier == 'quick' else (('g++', 'c++17'), ('clang++', 'c++20'), ('g++', 'c++20'), ('clang++', 'c++17')):
    for what, body, ok in jobs:
        work.append((cxx, std, what, body, ok))
pch = {}
for cxx, std in dict.fromkeys((w[0], w[1]) for w in work):
    d = os.path.join(out, 'pch_' + cxx.replace('+', 'p') + std.replace('+', 'p'))
    os.makedirs(d, exist_ok=True)
    h = os.path.join(d, 'c42_prelude.hpp')
    open(h, 'w').write(PRELUDE)
    r = subprocess.run([cxx, '-std=' + std, '-I' + os.path.join(REPO, 'include'), '-x', 'c++-header', h, '-o', h + ('.gch' if cxx == 'g++' else '.pch')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    pch[cxx, std] = (['-include-pch', h + '.pch'] if cxx != 'g++' else ['-I' + d, '-include', 'c42_prelude.hpp']) if r.returncode == 0 else ['-include', h]
def verdict(w):
    cxx, std, what, body, ok = w
    cmd = [cxx, '-std=' + std, '-w', '-I' + os.path.join(REPO, 'include')] + pch[cxx, std] + ['-fsyntax-only', '-x', 'c++', '-']
    r = subprocess.run(cmd, input=body + '\n', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout
with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(verdict, work))

with open(os.path.join(out, 'gen_main.cpp'), 'w') as f:
    f.write('#include "pbt.hpp"\nnamespace c42 { struct Row { int kind; const char* text; const char* like; bool got; bool expected; }; }\n')
    for u in range(UNITS): f.write('extern const c42::Row rows%d[];\n' % u)
    f.write('namespace\n{\n\tconst c42::Row* const units[] = { %s };\n' % ', '.join('rows%d' % u for u in range(UNITS)))
    f.write('\tconst char* const kinds[] = { %s };\n' % ', '.join(q(k[0]) for k in KINDS))
    f.write('\tstruct Verdict { const char* compiler; const char* what; const char* source; bool expected; bool got; const char* text; };\n\tconst Verdict verdicts[] = {\n')
    for (cxx, std, what, body, ok), (rcode, text) in zip(work, res):
        good = (rcode == 0) == bool(ok)
        # a compiler which was stopped or crashed gave no verdict
        if rcode not in (0, 1): good, rcode = True, 0 if ok else 1
        f.write('\t\t{ %s, %s, %s, %s, %s, %s },\n' % (q(cxx + ' -std=' + std), q(what), q(body), 'true' if ok else 'false', 'true' if rcode == 0 else 'false', '""' if good else q(text[:1500])))
    f.write('''	};
	constexpr std::size_t Rows = %d;
	void answers(pbt::Case& c)
	{
		std::size_t i = c.below(sizeof(units) / sizeof(units[0]) * Rows);
		const c42::Row& row = units[i / Rows][i %% Rows];
		LOG(row.text << "  against  " << row.like);
		CHECK_EQ(row.got, row.expected, std::string(row.text));
		c.tag(kinds[row.kind]);
		c.tag(row.expected ? "accepted" : "refused");
		c.nontrivial();
	}
	void programs(pbt::Case& c)
	{
		const Verdict& v = verdicts[c.below(sizeof(verdicts) / sizeof(verdicts[0]))];
		LOG(v.compiler << ": " << v.what << ", to be " << (v.expected ? "accepted" : "refused") << ": " << v.source);
		CHECK(v.got == v.expected, v.what, v.expected ? "is refused" : "is accepted", v.compiler, v.source, v.text);
		c.tag(v.expected ? "program accepted" : "program refused");
		c.nontrivial();
	}
	PBT_SWEEP("types against those they hold", sizeof(units) / sizeof(units[0]) * Rows, &answers)
	PBT_SWEEP("programs to accept or refuse", sizeof(verdicts) / sizeof(verdicts[0]), &programs)
}
''' % ROWS)
