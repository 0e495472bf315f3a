#!/usr/bin/env python3
"""Generates expressions and histories which are evaluated both by the compiler and at run time."""
import random, struct, sys
build, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rng = random.Random(seed * 15485863 + 22)
FILES, PER_FILE = (6, 330) if tier == 'quick' else (20, 700)

HEAD = r'''// generated
#include "pbt.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/Result.hpp>
#include <array>
#include <cmath>
#include <limits>
#include <string_view>
#include <type_traits>
namespace agree@N@
{
	enum class Small { A, B, C, D, E, F, G, H, Max = H };
	enum class Wide { First, Mid = 20, Last = 39, Max = Last };
}
namespace Nz
{
	template<> struct EnumAsFlags<agree@N@::Small> { static constexpr agree@N@::Small max = agree@N@::Small::H; };
	template<> struct EnumAsFlags<agree@N@::Wide> { static constexpr agree@N@::Wide max = agree@N@::Wide::Last; };
}
namespace agree@N@
{
	using u64 = Nz::UInt64;
	constexpr u64 mix(u64 digest, u64 value) { return (digest ^ value) * 0x9E3779B97F4A7C15ull + (digest >> 29); }
	template<typename T> struct Hidden { volatile T value; operator T() const { return value; } };
	template<typename T> T hide(T value) { volatile T copy = value; return copy; }

	// what is seen at run time, as text if it is not what the compiler found
	template<typename T>
	std::string differ(const T& compiled, const T& run, long double scale)
	{
		if constexpr (std::is_floating_point_v<T>)
		{
			if (std::isnan(compiled) || std::isnan(run)) return std::isnan(compiled) == std::isnan(run) ? "" : "one is not a number: " + std::to_string(compiled) + " at compile time, " + std::to_string(run) + " at run time";
			if (compiled == run) return "";
			// not the same rounding, maybe
			if (std::isfinite(compiled) && std::isfinite(run) && std::fabs((long double)(compiled) - run) <= 4 * scale * std::numeric_limits<T>::epsilon()) return "";
			char text[128]; std::snprintf(text, sizeof(text), "%.20Lg at compile time, %.20Lg at run time", (long double)(compiled), (long double)(run)); return text;
		}
		else if constexpr (std::is_enum_v<T>) return compiled == run ? "" : "another enumerator";
		else if constexpr (std::is_integral_v<T>) return compiled == run ? "" : std::to_string(compiled) + " at compile time, " + std::to_string(run) + " at run time";
		else return compiled == run ? "" : "another object";
	}
	struct Entry { const char* what; std::string (*differ)(); bool nontrivial; };
	struct Pair { Nz::UInt16 a, b; constexpr bool operator==(const Pair& o) const { return a == o.a && b == o.b; } };
	struct Item { int first; int second; };
	struct Map // the least constexpr map there is
	{
		std::array<Item, 6> items{};
		constexpr const Item* begin() const { return items.data(); }
		constexpr const Item* end() const { return items.data() + items.size(); }
		constexpr const Item* find(int key) const { const Item* it = begin(); while (it != end() && it->first != key) ++it; return it; }
	};
'''
INTS = {'Nz::Int8': (8, True), 'Nz::UInt8': (8, False), 'Nz::Int16': (16, True), 'Nz::UInt16': (16, False), 'Nz::Int32': (32, True), 'Nz::UInt32': (32, False), 'Nz::Int64': (64, True), 'Nz::UInt64': (64, False),
        'long long': (64, True), 'unsigned long long': (64, False), 'char': (8, True), 'long': (64, True)}
FLOATS = {'float': 24, 'double': 53}
uid = 0
def lo(t): b, s = INTS[t]; return -(1 << (b - 1)) if s else 0
def hi(t): b, s = INTS[t]; return (1 << (b - 1)) - 1 if s else (1 << b) - 1
def ilit(t, v):
    if v == -(1 << 63): return 'static_cast<%s>(-9223372036854775807ll - 1)' % t
    return 'static_cast<%s>(%d%s)' % (t, v, 'ull' if v >= (1 << 63) else 'll')
def value(t, a=None, b=None):
    a = lo(t) if a is None else a; b = hi(t) if b is None else b
    k = rng.randrange(5)
    if k == 0: v = rng.choice([a, b, 0, 1, -1, a + 1, b - 1])
    elif k == 1: v = (1 << rng.randrange(INTS[t][0])) + rng.choice([0, 0, -1, 1]); v *= rng.choice([1, 1, -1])
    elif k == 2: v = rng.randrange(-20, 21)
    else: v = rng.getrandbits(rng.randint(1, INTS[t][0])) * rng.choice([1, 1, -1])
    return min(max(v, a), b)
def fround(t, x): return struct.unpack('f', struct.pack('f', x))[0] if t == 'float' else x
def fvalue(t, big=False):
    k = rng.randrange(6)
    if k == 0: x = float(rng.choice([0, 1, -1, 2, 0.5, -0.5, 10, 0.1, -0.1, 3, 360, 180]))
    elif k == 1: x = rng.uniform(-1, 1) * 10 ** rng.randint(-6, 6)
    elif k == 2: x = float(rng.randint(-1000, 1000))
    elif k == 3: x = rng.randint(-100, 100) / 10
    elif k == 4: x = rng.uniform(-1000, 1000)
    else: x = rng.uniform(-1, 1) * 10.0 ** (rng.randint(-37, 37) if t == 'float' else rng.randint(-300, 300)) if big else rng.uniform(-1, 1)
    return fround(t, x)
def flit(t, x):
    return 'static_cast<%s>(%s)' % (t, float(x).hex())
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

def emit(decl, ent, expr, args, result='auto', nontrivial=True, scale='1.0L', cpp20=False):
    """expr: with {0}, {1}... for the arguments; args: (type, literal)"""
    global uid
    uid += 1
    n = uid
    decl.append(('#if __cplusplus >= 202002L\n' if cpp20 else '') + '\tconstexpr auto c%d = %s;' % (n, expr.format(*['(%s)' % l for t, l in args])))
    run = ' '.join('const %s a%d = hide<%s>(%s);' % (t, i, t, l) for i, (t, l) in enumerate(args))
    decl.append('\tinline std::string d%d() { %s return differ<std::remove_const_t<decltype(c%d)>>(c%d, %s, %s); }' % (n, run, n, n, expr.format(*['a%d' % i for i in range(len(args))]), scale) + ('\n#endif' if cpp20 else ''))
    e = '\t\t{ %s, &d%d, %s },' % (q(expr.format(*[l for t, l in args])), n, 'true' if nontrivial else 'false')
    ent.append('#if __cplusplus >= 202002L\n' + e + '\n#endif' if cpp20 else e)

def bits(decl, ent):
    t = rng.choice(list(INTS)); b = INTS[t][0]
    v = value(t); L = (t, ilit(t, v)); nt = v not in (0, 1)
    bit = rng.randrange(b)
    B = (t, ilit(t, bit))
    f = rng.choice(['ArithmeticRightShift', 'ByteSwap', 'ClearBit', 'SetBit', 'TestBit', 'ToggleBit', 'CountBits', 'FindFirstBit', 'FindLastBit', 'ReverseBits', 'CountBits', 'FindFirstBit', 'FindLastBit', 'ByteSwap',
                    'IntegralLog2', 'IntegralLog2Pot', 'IsPow2', 'GetNearestPowerOfTwo', 'RoundToPow2', 'BigEndianToHost', 'LittleEndianToHost', 'HostToBigEndian', 'HostToLittleEndian'])
    if f == 'ArithmeticRightShift':
        s = rng.choice(list(INTS)); return emit(decl, ent, 'Nz::ArithmeticRightShift({0}, {1})', [L, (s, ilit(s, bit))], nontrivial=nt and bit > 0)
    if f in ('ClearBit', 'SetBit', 'TestBit', 'ToggleBit'): return emit(decl, ent, 'Nz::%s({0}, {1})' % f, [L, B])
    if f == 'IntegralLog2Pot': v = 1 << rng.randrange(b - (1 if INTS[t][1] else 0)) if rng.random() < 0.95 else 0
    elif f == 'IntegralLog2': v = value(t, 0)
    elif f == 'IsPow2': v = value(t, 1)
    elif f in ('GetNearestPowerOfTwo', 'RoundToPow2'): v = value(t, 1, 1 << (b - (2 if INTS[t][1] else 1)))
    emit(decl, ent, 'Nz::%s({0})' % f, [(t, ilit(t, v))], nontrivial=v not in (0, 1))

def numeric(decl, ent):
    t = rng.choice([x for x in INTS if x != 'char'])
    a, b, c = value(t), value(t), value(t)
    f = rng.choice(['Align', 'AlignPow2', 'Approach', 'Clamp', 'IntegralPow', 'Mod', 'MultiplyAdd', 'NumberEquals', 'NumberEquals2', 'Lerp'])
    three = [(t, ilit(t, x)) for x in (a, b, c)]
    if f in ('Align', 'AlignPow2'):
        al = rng.randint(1, min(hi(t), rng.choice([2, 20, 1000]))) if f == 'Align' else 1 << rng.randrange(INTS[t][0] - (1 if INTS[t][1] else 0))
        a = value(t, 0 if rng.random() < 0.7 else None)
        up = -(-a // al) * al
        if up > hi(t) or a + al - 1 > hi(t): a = 0
        return emit(decl, ent, 'Nz::%s({0}, {1})' % f, [(t, ilit(t, a)), (t, ilit(t, al))])
    if f == 'Approach': return emit(decl, ent, 'Nz::Approach({0}, {1}, {2})', three[:2] + [(t, ilit(t, value(t, 0)))])
    if f == 'Clamp':
        x, y = sorted((b, c)); return emit(decl, ent, 'Nz::Clamp({0}, {1}, {2})', [three[0], (t, ilit(t, x)), (t, ilit(t, y))])
    if f == 'IntegralPow':
        base, e = rng.randint(-4 if INTS[t][1] else 0, 5), rng.randint(0, 30)
        while not lo(t) <= base ** e <= hi(t): e -= 1
        return emit(decl, ent, 'Nz::IntegralPow({0}, {1})', [(t, ilit(t, base)), ('unsigned int', str(e) + 'u')])
    if f == 'Mod':
        if b == 0 or b == -1: b = 7
        return emit(decl, ent, 'Nz::Mod({0}, {1})', [three[0], (t, ilit(t, b))])
    if f == 'MultiplyAdd':
        a, b, c = rng.randint(0, 11), rng.randint(0, 11), rng.randint(0, 6)
        return emit(decl, ent, 'Nz::MultiplyAdd({0}, {1}, {2})', [(t, ilit(t, x)) for x in (a, b, c)])
    if f == 'Lerp':
        a, b = value(t, 0, min(hi(t), 100)), value(t, 0, min(hi(t), 100))
        ft = rng.choice(list(FLOATS))
        return emit(decl, ent, 'Nz::Lerp({0}, {1}, {2})', [(t, ilit(t, a)), (t, ilit(t, b)), (ft, flit(ft, rng.randint(0, 8) / 8))])
    if rng.random() < 0.6: b = min(max(a + rng.randint(-5, 5), lo(t)), hi(t))
    if f == 'NumberEquals': return emit(decl, ent, 'Nz::NumberEquals({0}, {1}, {2})', [(t, ilit(t, a)), (t, ilit(t, b)), (t, ilit(t, value(t, 0) if rng.random() < 0.5 else rng.randint(0, 5)))])
    emit(decl, ent, 'Nz::NumberEquals({0}, {1})', [(t, ilit(t, a)), (t, ilit(t, b))])

def floating(decl, ent):
    t = rng.choice(list(FLOATS))
    f = rng.choice(['DegreeToRadian', 'RadianToDegree', 'Approach', 'Clamp', 'Lerp', 'IsFinite', 'IsInfinity', 'IsNaN', 'Mod', 'Mod', 'Mod', 'MultiplyAdd', 'NumberEquals', 'NumberEquals2'])
    a, b, c = fvalue(t), fvalue(t), fvalue(t)
    l = lambda x: (t, flit(t, x))
    if f in ('DegreeToRadian', 'RadianToDegree'): return emit(decl, ent, 'Nz::%s({0})' % f, [l(a)], scale='std::fabs((long double)(a0)) * 60')
    if f in ('IsFinite', 'IsInfinity', 'IsNaN'):
        s = rng.choice(['infinity()', 'quiet_NaN()', 'max()', 'lowest()', 'denorm_min()', 'min()', 'v', 'v'])
        e = flit(t, fvalue(t, True)) if s == 'v' else rng.choice(['', '-']) + 'std::numeric_limits<%s>::%s' % (t, s)
        return emit(decl, ent, 'Nz::%s({0})' % f, [(t, e)])
    if f == 'Approach': return emit(decl, ent, 'Nz::Approach({0}, {1}, {2})', [l(a), l(b), l(abs(c))], scale='std::fabs((long double)(a0)) + std::fabs((long double)(a2))')
    if f == 'Clamp': b, c = sorted((b, c)); return emit(decl, ent, 'Nz::Clamp({0}, {1}, {2})', [l(a), l(b), l(c)], scale='0.0L')
    if f == 'Lerp':
        k = rng.choice(list(FLOATS)); x = rng.choice([0.0, 1.0, 0.5, rng.random(), rng.uniform(-2, 3)])
        return emit(decl, ent, 'Nz::Lerp({0}, {1}, {2})', [l(a), l(b), (k, flit(k, fround(k, x)))], scale='4 * (std::fabs((long double)(a0)) + std::fabs((long double)(a1)))')
    if f == 'MultiplyAdd': return emit(decl, ent, 'Nz::MultiplyAdd({0}, {1}, {2})', [l(a), l(b), l(c)], scale='std::fabs((long double)(a0) * a1) + std::fabs((long double)(a2))')
    if f == 'Mod':
        if rng.random() < 0.4: a, b = fvalue(t, True), fvalue(t, True)
        elif rng.random() < 0.3: b = fround(t, rng.choice([0.1, 0.3, 1 / 3, 0.7, 1e-3])); a = fround(t, b * rng.randint(0, 1000))
        if b == 0: b = 3.0
        return emit(decl, ent, 'Nz::Mod({0}, {1})', [l(a), l(b)], scale='0.0L', nontrivial=abs(a) >= abs(b))
    if rng.random() < 0.6: b = fround(t, a * (1 + rng.choice([0, 1e-7, 1e-6, 1e-16, 1e-10, -1e-7])))
    if f == 'NumberEquals':
        # not at the very border, where the rounding of the difference decides
        d = abs(a - b) * rng.choice([0.5, 0.999, 1.001, 2, 10]) if a != b else rng.choice([0.0, 1.0])
        return emit(decl, ent, 'Nz::NumberEquals({0}, {1}, {2})', [l(a), l(b), l(fround(t, d))])
    emit(decl, ent, 'Nz::NumberEquals({0}, {1})', [l(a), l(b)])

def hashes(decl, ent):
    global uid
    f = rng.choice(['CRC32', 'FNV1a32', 'FNV1a64'])
    data = [rng.choice([rng.randrange(256), rng.randrange(97, 123)]) for _ in range(rng.choice([0, 1, 2, 3, 7, 16, 40]))]
    text = ''.join('\\%03o' % x for x in data)
    uid += 1; n = uid
    form = rng.choice(['literal', 'view', 'pointer', 'data'])
    if form in ('pointer', 'literal'): text = text.replace('\\000', '\\001')
    if form == 'data':
        decl.append('\tconstexpr Nz::UInt8 b%d[] = { %s };' % (n, ', '.join(map(str, data + [0]))))
        e, r = 'Nz::%s(b%d, %d)' % (f, n, len(data)), 'Nz::%s(hide<const Nz::UInt8*>(b%d), hide<std::size_t>(%d))' % (f, n, len(data))
    elif form == 'view': e, r = 'Nz::%s(std::string_view("%s", %d))' % (f, text, len(data)), 'Nz::%s(std::string_view(hide<const char*>("%s"), hide<std::size_t>(%d)))' % (f, text, len(data))
    elif form == 'pointer': e, r = 'Nz::%s(static_cast<const char*>("%s"))' % (f, text), 'Nz::%s(hide<const char*>("%s"))' % (f, text)
    else: e, r = 'Nz::%s("%s")' % (f, text), 'Nz::%s(std::string_view(hide<const char*>("%s"), hide<std::size_t>(%d)))' % (f, text, len(data))
    decl.append('\tconstexpr auto c%d = %s;\n\tinline std::string d%d() { return differ<std::remove_const_t<decltype(c%d)>>(c%d, %s, 0); }' % (n, e, n, n, n, r))
    ent.append('\t\t{ %s, &d%d, %s },' % (q('hash of a %s: %s' % (form, e)), n, 'true' if data else 'false'))

def casts(decl, ent):
    k = rng.choice(['safe', 'safe', 'safe', 'safefloat', 'bit', 'bit', 'underlying', 'caster', 'retrieve'])
    s, t = rng.choice(list(INTS)), rng.choice(list(INTS))
    v = value(s, max(lo(s), lo(t)), min(hi(s), hi(t)))
    if k == 'safe': return emit(decl, ent, 'Nz::SafeCast<%s>({0})' % t, [(s, ilit(s, v))])
    if k == 'caster': return emit(decl, ent, 'static_cast<%s>(Nz::SafeCaster({0}))' % t, [(s, ilit(s, v))])
    if k == 'safefloat':
        f = rng.choice(list(FLOATS)); x = rng.randint(max(lo(t), -100000), min(hi(t), 100000))
        return emit(decl, ent, 'Nz::SafeCast<%s>({0})' % t, [(f, flit(f, float(x)))]) if rng.random() < 0.6 else emit(decl, ent, 'Nz::SafeCast<%s>({0})' % f, [(t, ilit(t, x))])
    if k == 'bit':
        a, b = rng.choice([('Nz::UInt32', 'float'), ('Nz::UInt64', 'double'), ('Nz::UInt32', 'Pair'), ('Nz::Int16', 'Nz::UInt16')])
        if rng.random() < 0.5 and b in FLOATS: return emit(decl, ent, 'Nz::BitCast<%s>({0})' % a, [(b, flit(b, fvalue(b, True)))], cpp20=True)
        x = value(a)
        if b == 'float' and (x >> 23) & 255 == 255 or b == 'double' and (x >> 52) & 2047 == 2047: x = 1234567
        return emit(decl, ent, 'Nz::BitCast<%s>({0})' % b, [(a, ilit(a, x))], scale='0.0L', cpp20=True)
    if k == 'underlying': return emit(decl, ent, 'Nz::UnderlyingCast({0})', [('Small', 'Small::' + rng.choice('ABCDEFGH'))])
    keys = rng.sample(range(-50, 50), 6)
    emit(decl, ent, '(Nz::Retrieve(Map{{ {{{{ %s }}}} }}, {0}))' % ', '.join('{{ %d, %d }}' % (x, rng.randrange(1000)) for x in keys), [('int', str(rng.choice(keys)))], cpp20=True)

def history(decl, ent, body, what, cpp20):
    global uid
    uid += 1; n = uid
    decl.append(('#if __cplusplus >= 202002L\n' if cpp20 else '') + '\tconstexpr u64 h%d(u64 zero)\n\t{\n\t\tu64 d = zero;\n%s\n\t\treturn d;\n\t}\n\tconstexpr u64 c%d = h%d(0);\n\tinline std::string d%d() { return differ<u64>(c%d, h%d(hide<u64>(0)), 0); }'
                % (n, '\n'.join('\t\t' + x for x in body), n, n, n, n, n) + ('\n#endif' if cpp20 else ''))
    e = '\t\t{ %s, &d%d, true },' % (q(what + ': ' + ' '.join(body)), n)
    ent.append('#if __cplusplus >= 202002L\n' + e + '\n#endif' if cpp20 else e)

def flags(decl, ent):
    e, names, top = rng.choice([('Small', ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H'], 8), ('Wide', ['First', 'Mid', 'Last'], 40)])
    fl = 'Nz::Flags<%s>' % e
    v = lambda: '%s::%s' % (e, rng.choice(names)) if rng.random() < 0.5 else 'static_cast<%s>(%d + zero)' % (e, rng.randrange(top))
    s = lambda: rng.choice([fl + '(' + v() + ')', fl + '(%s) | %s' % (v(), v()), 'g', '~g', fl + '()', fl + '(%s) ^ g' % v()])
    body = ['%s f(%s); %s g;' % (fl, v(), fl)]
    for _ in range(rng.randint(1, 10)):
        body.append(rng.choice([lambda: 'f |= %s;' % s(), lambda: 'f &= %s;' % s(), lambda: 'f ^= %s;' % s(), lambda: 'f.Set(%s);' % s(), lambda: 'f.Clear(%s);' % s(), lambda: 'f = ~f;', lambda: 'g = f | %s;' % s(), lambda: 'g = f & %s;' % s(),
                                lambda: 'd = mix(d, f.Test(%s));' % s(), lambda: 'd = mix(d, f == (%s));' % s(), lambda: 'd = mix(d, static_cast<u64>(f));', lambda: 'd = mix(d, static_cast<bool>(f));'])())
    body.append('d = mix(mix(d, static_cast<u64>(f)), static_cast<u64>(g));')
    history(decl, ent, body, 'flags', False)

def bitset(decl, ent):
    block = rng.choice(['Nz::UInt8', 'Nz::UInt16', 'Nz::UInt32', 'Nz::UInt64'])
    bs = INTS[block][0]
    B = 'Nz::Bitset<%s>' % block
    size = lambda: rng.choice([0, 1, bs - 1, bs, bs + 1, 2 * bs, rng.randrange(150), rng.randrange(20)])
    sz = lambda x: 'std::size_t(%d + zero)' % x
    n, m = size(), size()
    word = ''.join(rng.choice('01') for _ in range(m))
    body = ['%s b(%s, %s); %s o(std::string_view("%s"));' % (B, sz(n), rng.choice(['true', 'false']), B, word)]
    cur = n
    for _ in range(rng.randint(1, 14)):
        k = rng.randrange(19)
        i = rng.randrange(cur) if cur else None
        if k == 0 and cur: body.append('b.Set(%s, %s);' % (sz(i), rng.choice(['true', 'false'])))
        elif k == 1 and cur: body.append('b.Reset(%s);' % sz(i))
        elif k == 2: body.append('b.Flip();')
        elif k == 3: body.append('b.ShiftLeft(%s);' % sz(size()))
        elif k == 4: body.append('b.ShiftRight(%s);' % sz(size()))
        elif k == 5: body.append('b.Reverse();')
        elif k == 6: cur = size(); body.append('b.Resize(%s, %s);' % (sz(cur), rng.choice(['true', 'false'])))
        elif k == 7:
            c = rng.randint(0, 32); body.append('b.AppendBits(Nz::UInt32(%du + zero), %s);' % (rng.getrandbits(32), sz(c))); cur += c
        elif k == 8: i = size(); body.append('b.UnboundedSet(%s);' % sz(i)); cur = max(cur, i + 1)
        elif k == 9: body.append('b.%s(b, o);' % rng.choice(['PerformsAND', 'PerformsOR', 'PerformsXOR'])); cur = max(cur, m)
        elif k == 10: body.append('b.PerformsNOT(%s);' % rng.choice(['b', 'o'])); cur = cur if body[-1] == 'b.PerformsNOT(b);' else m
        elif k == 11 and cur: body.append('b[%s].Flip();' % sz(i))
        elif k == 12 and cur: body.append('b.SetBlock(%s, %s(%du + zero));' % (sz(rng.randrange(-(-cur // bs))), block, rng.getrandbits(bs)))
        elif k == 13: body.append('b = ~b;')
        elif k == 14: body.append('d = mix(d, b.Count() + 1000 * b.TestAll() + 10000 * b.TestAny() + 100000 * b.TestNone());')
        elif k == 15: body.append('for (std::size_t i = b.FindFirst(); i != b.npos; i = b.FindNext(i)) d = mix(d, i);')
        elif k == 16: body.append('for (std::size_t i : b.IterBits()) d = mix(d, i);')
        elif k == 17: body.append('d = mix(d, (b == o) + 2 * (b < o) + 4 * (b <= o) + 8 * b.Intersects(o));')
        elif k == 18: body.append('%s = %s(Nz::%s(%du + zero));' % ('o', B, rng.choice(['UInt32', 'UInt64']), rng.getrandbits(32) | 1 << 31)); m = 32 # at least
    body.append('d = mix(d, b.GetSize()); for (std::size_t i = 0; i < b.GetBlockCount(); ++i) d = mix(d, b.GetBlock(i)); if (b.GetSize() <= 64) d = mix(d, b.template To<u64>()); for (std::size_t i = 0; i < b.GetSize(); ++i) d = mix(d, b.Test(i));'.replace('template ', ''))
    history(decl, ent, body, 'bitset', True)

def arrays(decl, ent):
    body = ['Nz::EnumArray<Small, int> a{}; Nz::EnumArray<Small, int> b{};']
    v = lambda: 'Small(%d + zero)' % rng.randrange(8)
    for _ in range(rng.randint(1, 8)):
        body.append(rng.choice([lambda: 'a[%s] = %d;' % (v(), rng.randrange(100)), lambda: 'a[%s] += a[%s] + 1;' % (v(), v()), lambda: 'for (auto&& [k, e] : a.iter_kv()) e += static_cast<int>(k);', lambda: 'for (auto&& [k, e] : std::as_const(a).iter_kv()) d = mix(d, static_cast<u64>(k) * 1000 + e);',
                                lambda: 'b = a;', lambda: 'b.fill(%d);' % rng.randrange(10), lambda: 'd = mix(d, (a.iter_kv().begin() + %d)[%d].second);' % (rng.randrange(4), rng.randrange(4)), lambda: 'd = mix(d, a.size() + (a.iter_kv().end() - a.iter_kv().begin()));',
                                lambda: 'd = mix(d, a == b);', lambda: '{ auto it = a.iter_kv().end(); --it; it -= %d; d = mix(d, static_cast<u64>((*it).first)); (*it).second = %d; }' % (rng.randrange(7), rng.randrange(50))])())
    body.append('for (int e : a) d = mix(d, e); for (int e : b) d = mix(d, e);')
    history(decl, ent, body, 'enum array', True)

def results(decl, ent):
    body = ['using R = Nz::Result<int, short>; R r(Nz::Ok(int(%d + zero))); R s(Nz::Err(short(%d + zero)));' % (rng.randrange(100), rng.randrange(100))]
    for _ in range(rng.randint(1, 8)):
        body.append(rng.choice([lambda: 'r = Nz::Ok(int(%d + zero));' % rng.randrange(100), lambda: 'r = Nz::Err(short(%d + zero));' % rng.randrange(100), lambda: 'r = s;', lambda: 's = R(r);', lambda: 'd = mix(d, r.IsOk() + 2 * r.IsErr() + 4 * static_cast<bool>(r));', lambda: 'd = mix(d, r.GetValueOr(%d));' % rng.randrange(100),
                                lambda: 'if (r) *r += 3;', lambda: 'if (!r) r.GetError() += 2;', lambda: 'd = mix(d, r.Map([](int x) { return x * 2; }).GetValueOr(5));', lambda: '{ Nz::Result<long long, int> w(s); d = mix(d, w.IsOk() ? w.GetValue() : w.GetError()); }', lambda: 'd = mix(d, std::move(r).GetValueOr(7));',
                                lambda: '{ Nz::Result<void, int> w = r ? Nz::Result<void, int>(Nz::Ok()) : Nz::Result<void, int>(Nz::Err(int(r.GetError()))); d = mix(d, w.IsOk() ? 1 : w.GetError() + 10); d = mix(d, w.Map([] { return 9; }).GetValueOr(4)); }'])())
    body.append('d = mix(mix(d, r.IsOk() ? r.GetValue() : 1000 + r.GetError()), s ? *s : 2000 + s.GetError());')
    history(decl, ent, body, 'result', True)

def movables(decl, ent):
    body = ['Nz::MovableValue<int> a(int(%d + zero)), b(%d); Nz::MovableLiteral<int, 77> l(int(%d + zero)), k;' % (rng.randrange(100), rng.randrange(100), rng.randrange(100))]
    for _ in range(rng.randint(1, 6)):
        body.append(rng.choice(['a = %d;' % rng.randrange(100), 'a = std::move(b);', 'l = std::move(k);', 'k = %d;' % rng.randrange(100), '{ Nz::MovableLiteral<int, 77> m(std::move(l)); d = mix(d, m.Get()); }', '{ Nz::MovableValue<int> m(std::move(a)); d = mix(d, m.Get()); }', 'a.Get() += 1;', 'd = mix(d, a.Get() + b.Get());', 'b = a;', 'k = l;']))
    body.append('d = mix(mix(mix(mix(d, a.Get()), b.Get()), l.Get()), k.Get());')
    history(decl, ent, body, 'movable values', True)

# the same function over a table of values: every power of two, its neighbours, and some others
TABLE = r"""
	template<typename T> struct Values
	{
		static constexpr std::size_t B = sizeof(T) * 8, N = 3 * B + 24;
		static constexpr T at(std::size_t i)
		{
			using U = std::make_unsigned_t<T>;
			if (i < 3 * B) return static_cast<T>(static_cast<U>((u64(1) << (i / 3)) + u64(i % 3) - 1));
			u64 x = (u64(i) + @SEED@ull) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
			return static_cast<T>(static_cast<U>(x >> (x % B)));
		}
	};
	template<typename T, typename F> constexpr auto compiledTable(F f)
	{
		std::array<decltype(f(T())), Values<T>::N> r{};
		for (std::size_t i = 0; i < r.size(); ++i) r[i] = f(Values<T>::at(i));
		return r;
	}
	template<typename T, typename A, typename F> std::string tableDiffers(const A& compiled, F f)
	{
		for (std::size_t i = 0; i < compiled.size(); ++i)
		{
			T v = hide<T>(Values<T>::at(i));
			std::string d = differ<std::remove_cv_t<std::remove_reference_t<decltype(compiled[0])>>>(compiled[i], f(v), 0);
			if (!d.empty()) return "of " + std::to_string(v) + ": " + d;
		}
		return "";
	}
"""
def tables(decl, ent):
    global uid
    decl.append(TABLE.replace('@SEED@', str(rng.getrandbits(40))))
    for t in INTS:
        b, s = INTS[t]
        top = '%s' % ilit(t, 1 << (b - (2 if s else 1)))
        guard = {'IntegralLog2': 'v >= 0', 'IntegralLog2Pot': 'v >= 0 && (v & (v - 1)) == 0', 'IsPow2': 'v >= 1', 'GetNearestPowerOfTwo': 'v >= 1 && v <= ' + top, 'RoundToPow2': 'v >= 1 && v <= ' + top}
        for f in ['ByteSwap', 'CountBits', 'FindFirstBit', 'FindLastBit', 'ReverseBits', 'IntegralLog2', 'IntegralLog2Pot', 'IsPow2', 'GetNearestPowerOfTwo', 'RoundToPow2']:
            uid += 1
            body = 'Nz::%s(v)' % f
            if f in guard: body = '(%s) ? %s : decltype(%s)()' % (guard[f], body, body)
            decl.append('\tstruct F%d { constexpr auto operator()(%s v) const { return %s; } };\n\tconstexpr auto t%d = compiledTable<%s>(F%d());\n\tinline std::string d%d() { return tableDiffers<%s>(t%d, F%d()); }' % (uid, t, body, uid, t, uid, uid, t, uid, uid))
            ent.append('\t\t{ %s, &d%d, true },' % (q('Nz::%s(%s), around every power of two' % (f, t)), uid))

for f in range(FILES):
    decl, ent = [], []
    if f == 0: tables(decl, ent)
    kinds = [bits] * 7 + [numeric] * 5 + [floating] * 5 + [hashes] * 2 + [casts] * 3 + [flags, bitset, bitset, arrays, results, movables]
    for i in range(PER_FILE): rng.choice(kinds)(decl, ent)
    with open('%s/gen_C22_%d.cpp' % (build, f), 'w') as o:
        o.write(HEAD.replace('@N@', str(f)) + '\n'.join(decl) + '\n\tconst Entry entries[] = {\n' + '\n'.join(ent) + '\n\t};\n')
        o.write('\tPBT_SWEEP("compile time and run time, program %d", std::size(entries), [](pbt::Case& c) { const Entry& e = entries[c.below(std::size(entries))]; LOG(e.what); if (e.nontrivial) c.nontrivial(); CHECK_EQ(e.differ(), "", e.what); })\n}\n' % f)
