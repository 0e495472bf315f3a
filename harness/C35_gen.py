#!/usr/bin/env python3
"""C35: every header stands alone, in any order, in any number of translation units.

Writes one translation unit per header which includes nothing else before it, and others which include generated selections
of headers in generated orders. Each unit defines functions that use the headers it includes; gen_main.cpp compares what
they compute for generated inputs. Compiling shows that a header includes what it needs, linking that nothing is defined twice."""
import glob, os, random, re, sys

out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
REPO = os.environ.get('VERIF_REPO', '/repo')

# header -> code using it: x is the input, h accumulates; no other header may be needed by it
USE = {
'Algorithm': '''int a[3] = { int(x & 15), 2, 3 }; h = M(h, Nz::CountOf(a)); h = M(h, Nz::BitCast<unsigned>(int(x))); h = M(h, Nz::SafeCast<unsigned char>(x & 0x7F)); unsigned short s = Nz::SafeCaster(x & 0x3FF); h = M(h, s); h = M(h, Nz::UnderlyingCast(E::C)); h = M(h, Nz::CountOf("text")); struct P { char c; int v; } p = { 1, int(x & 255) }; h = M(h, Nz::AccessByOffset<int&>(&p, sizeof(int))); int* ip = &a[1]; h = M(h, Nz::IntegerToPointer<int*>(Nz::PointerToInteger<unsigned long long>(ip)) == ip);''',
'Assert': '''Nz::Assert(true); Nz::Assert(true, "message"); NazaraAssert(x == x); NazaraAssertMsg(x == x, "message"); Nz::AssertWithSource(true, "f", 1, "m"); h = M(h, sizeof(Nz::AssertionFailed));''',
'Bitset': '''Nz::Bitset<Nz::UInt16> b(40, false); for (unsigned i = 0; i < 40; ++i) b.Set(i, ((x >> i) & 1) != 0); b <<= 3; b.UnboundedSet(50); h = M(h, b.Count()); for (auto bit : b.IterBits()) h = M(h, bit); h = M(h, b.ToString().size()); Nz::Bitset<Nz::UInt64> n(x & 0xFFFF); h = M(h, n.To<Nz::UInt64>()); h = M(h, (~b).Count() + (b & b).Count()); Nz::FixedBitset<Nz::UInt8, 64> f(20, true); h = M(h, f.Count()); Nz::HybridBitset<Nz::UInt8, 8> y(90, true); h = M(h, y.FindNext(x % 80)); h = M(h, b < b);''',
'CallOnExit': '''int calls = 0; { Nz::CallOnExit e([&] { calls += 3; }); NAZARA_DEFER({ calls += 4; }); if (x & 1) e.Reset(); if (x & 2) e.CallAndReset(); } h = M(h, unsigned(calls));''',
'Concepts': '''h = M(h, sizeof(int)); h = M(h, UseConcept<int>(int(x & 3)));''',
'ConstantEvaluated': '''h = M(h, unsigned(Evaluated(int(x & 7))));''',
'Constants': '''h = M(h, Nz::BitCount<int>); h = M(h, unsigned(Nz::Pi<double>() * 1000)); unsigned short m = Nz::MaxValue(); h = M(h, m); h = M(h, Nz::MinValue<int>() < 0); h = M(h, unsigned(Nz::Sqrt2<float>() * 1000)); h = M(h, Nz::MathConstants<double>::Infinity() > 1e300); float t = Nz::Tau(); h = M(h, unsigned(t * 100));''',
'DebugBreak': '''if (h == 0) { NazaraDebugBreak(); } h = M(h, x);''',
'Endianness': '''h = M(h, Nz::HostToBigEndian(static_cast<unsigned short>(x))); h = M(h, Nz::LittleEndianToHost(static_cast<unsigned>(x))); h = M(h, static_cast<unsigned>(Nz::PlatformEndianness)); h = M(h, Nz::BigEndianToHost(x));''',
'EnumArray': '''Nz::EnumArray<E, int> a{}; a[E::B] = int(x & 63); for (auto&& [k, v] : a.iter_kv()) { h = M(h, unsigned(k)); h = M(h, unsigned(v)); } const auto& ca = a; h = M(h, unsigned(ca[E::B])); h = M(h, a.size());''',
'FixedVector': '''Nz::FixedVector<unsigned, 8> v; for (unsigned i = 0; i < (x & 7); ++i) v.push_back(unsigned(x >> i)); v.insert(v.begin(), 5u); v.erase(v.begin()); for (unsigned e : v) h = M(h, e); Nz::HybridVector<unsigned, 2> y(v.begin(), v.end()); y.emplace_back(3u); auto z = y; z.resize(9, 4u); for (auto it = z.rbegin(); it != z.rend(); ++it) h = M(h, *it);''',
'Flags': '''Nz::Flags<E> f = E::A; if (x & 1) f |= E::C; f.Set(E::B); for (E e : f) h = M(h, unsigned(e)); h = M(h, f.Count()); h = M(h, (~f).Count()); h = M(h, f.Test(E::C)); h = M(h, static_cast<unsigned>(f)); h = M(h, (E::A | E::B).Count());''',
'FunctionRef': '''unsigned long long k = x & 15; auto fn = [&](unsigned v) { return unsigned(v + k); }; Nz::FunctionRef<unsigned(unsigned)> r(fn); h = M(h, r(4u)); Nz::FunctionRef<unsigned(unsigned)> n(nullptr); h = M(h, bool(n)); n = r; h = M(h, n(1u));''',
'FunctionTraits': '''h = M(h, Nz::FunctionTraits<int(char, short)>::ArgCount); h = M(h, sizeof(Nz::FunctionTraits<int(char, short)>::ArgType<1>)); auto l = [](int, long, char) { return 1; }; h = M(h, Nz::FunctionTraits<decltype(l)>::ArgCount);''',
'Hash': '''const char t[] = "some text"; h = M(h, Nz::CRC32(t)); h = M(h, Nz::FNV1a32("abc")); h = M(h, Nz::FNV1a64(std::string_view(t))); std::size_t s = static_cast<std::size_t>(x); Nz::HashCombine(s, 4); h = M(h, s); h = M(h, Nz::HashCombine(x, 3)); unsigned char d[3] = { 1, 2, 3 }; h = M(h, Nz::CRC32(d, 3));''',
'MathUtils': '''h = M(h, Nz::CountBits(x)); h = M(h, Nz::ReverseBits(static_cast<unsigned short>(x))); h = M(h, Nz::IntegralLog2(x | 1)); h = M(h, Nz::Clamp<unsigned>(unsigned(x), 3u, 900u)); h = M(h, Nz::Mod<int>(int(x & 0xFF), 7)); h = M(h, unsigned(Nz::DegreeToRadian(90.0) * 1000)); h = M(h, Nz::NumberEquals(1.f, 1.f)); h = M(h, Nz::GetNearestPowerOfTwo(x >> 9)); h = M(h, Nz::FindLastBit(x)); h = M(h, Nz::Align(unsigned(x & 0xFFFF), 12u)); h = M(h, Nz::IntegralPow(3u, 5u)); h = M(h, unsigned(Nz::Lerp(1.0, 3.0, 0.5))); h = M(h, Nz::IsFinite(1.0) + Nz::IsNaN(1.f)); h = M(h, Nz::RoundToPow2(x >> 20)); h = M(h, Nz::ByteSwap(unsigned(x))); unsigned char b[4] = { 1, 2, 3, 4 }; Nz::SwapBytes(b, 4); h = M(h, b[0]); h = M(h, sizeof(Nz::UnsignedIntegerType_t<16>)); h = M(h, unsigned(Nz::Approach(1, 9, 3)));''',
'MemoryHelper': '''alignas(int) unsigned char b[sizeof(int)]; int* p = Nz::PlacementNew(reinterpret_cast<int*>(b), int(x & 255)); h = M(h, unsigned(*p)); Nz::PlacementDestroy(p); void* m = NAZARA_ALLOCA(16); h = M(h, m != nullptr);''',
'MemoryPool': '''Nz::MemoryPool<int> p(3); std::size_t i0, i1; p.Allocate(i0, int(x & 63)); int* second = p.Allocate(i1, 5); h = M(h, p.RetrieveEntryIndex(second)); p.Free(i0); for (int v : p) h = M(h, unsigned(v)); h = M(h, p.GetFreeEntryCount()); Nz::MemoryPool<int> q(std::move(p)); h = M(h, q.GetAllocatedEntryCount()); q.Reset(); h = M(h, q.GetBlockCount());''',
'MovablePtr': '''int v = int(x & 63); Nz::MovablePtr<int> p(&v), q(std::move(p)); h = M(h, p.Get() == nullptr); h = M(h, unsigned(*q.Get())); q = nullptr; h = M(h, bool(q));''',
'MovableValue': '''Nz::MovableLiteral<int, 9> a(int(x & 63)), b(std::move(a)); h = M(h, unsigned(a.Get())); h = M(h, unsigned(b.Get())); Nz::MovableValue<long> v(5L), w(std::move(v)); h = M(h, unsigned(w.Get())); w = 7L; h = M(h, unsigned(w.Get()));''',
'OffsetOf': '''struct S { char c; int v; long w; }; h = M(h, NazaraOffsetOf(S, v)); h = M(h, NazaraOffsetOf(S, w));''',
'PathUtils': '''auto p = Nz::Utf8Path("dir/file.txt"); h = M(h, Nz::PathToString(p).size()); h = M(h, Nz::PathToString(p / "more").size());''',
'Prerequisites': '''h = M(h, sizeof(Nz::UInt16) + sizeof(Nz::Int64)); if NAZARA_LIKELY(x & 1) h = M(h, 1); else if NAZARA_UNLIKELY(x & 2) h = M(h, 2); h = M(h, NAZARA_CHECK_CPP_VER(NAZARA_CPP17)); h = M(h, sizeof(NazaraStringify(word))); int NazaraSuffixMacro(name_, 3) = 4; h = M(h, unsigned(name_3));''',
'PrivateImpl': '''struct I { int v; I(int k) : v(k) {} }; Nz::PrivateImpl<I, 64> a(int(x & 63)), b(a); b->v++; h = M(h, unsigned(b->v)); Nz::PrivateImpl<I> c(3), d(std::move(c)); h = M(h, c.HasValue()); h = M(h, unsigned((*d).v)); d.Reset(); d.Emplace(6); h = M(h, unsigned(d.Get()->v));''',
'Result': '''auto f = [](unsigned v) -> Nz::Result<unsigned, int> { if (v % 3 == 0) return Nz::Err(4); return Nz::Ok(v + 1); }; auto g = [&](unsigned v) -> Nz::Result<unsigned, int> { NAZARA_TRY(f(v)); NAZARA_TRY_VALUE(unsigned r, f(v / 2)); return Nz::Ok(r * 2); }; auto r = g(unsigned(x & 0xFFF)); h = M(h, r.IsOk()); h = M(h, r.GetValueOr(17u)); auto m = r.Map([](unsigned v) { return v + 1; }); h = M(h, m.IsErr()); Nz::Result<void, int> v = Nz::Ok(); h = M(h, v.IsOk()); Nz::Result<std::string, std::string> s = Nz::Err(std::string("e")); h = M(h, s.GetError().size());''',
'Signal': '''Nz::Signal<int> s; int sum = 0; auto c = s.Connect([&](int v) { sum += v; }); { Nz::Signal<int>::ConnectionGuard g; g.Connect(s, [&](int v) { sum += 2 * v; }); s(int(x & 31)); } s(1); c.Disconnect(); s(100); h = M(h, unsigned(sum)); h = M(h, c.IsConnected()); struct Q { NazaraSignal(OnDone, int); } q; q.OnDone.Connect([&](int v) { sum = v; }); q.OnDone(9); h = M(h, unsigned(sum));''',
'SparsePtr': '''int a[6] = { int(x & 15), 1, 2, 3, 4, 5 }; Nz::SparsePtr<int> p(a, int(2 * sizeof(int))); h = M(h, unsigned(*p)); ++p; p += 1; h = M(h, unsigned(*p)); h = M(h, unsigned(p[-1])); Nz::SparsePtr<const int> q(p); h = M(h, unsigned(q.GetStride()));''',
'StackArray': '''auto a = NazaraStackArray(unsigned, (x & 7) + 1); a.fill(3u); a[0] = unsigned(x & 255); for (unsigned v : a) h = M(h, v); auto b = NazaraStackArrayNoInit(unsigned, 4); b.fill(2u); h = M(h, b.back());''',
'StackVector': '''auto a = NazaraStackVector(unsigned, 9); for (unsigned i = 0; i < (x & 7); ++i) a.push_back(unsigned(x >> i)); a.insert(a.begin(), 4u); a.emplace_back(8u); a.erase(a.begin()); for (unsigned v : a) h = M(h, v);''',
'StringHash': '''Nz::StringHash<> s; h = M(h, s("abc") == s(std::string("abc"))); h = M(h, s(std::string_view("abc")) == s("abc"));''',
'StringUtils': '''auto t = Nz::ToUtf8String(std::string_view("text")); h = M(h, t.size()); h = M(h, Nz::FromUtf8String(t).size()); h = M(h, Nz::ToUtf8String(std::string("other")).size());''',
'TypeList': '''using L = Nz::TypeList<char, short, int>; h = M(h, Nz::TypeListFind<L, short>); h = M(h, Nz::TypeListSize<Nz::TypeListAppend<L, long>>); h = M(h, Nz::TypeListHas<L, float>); h = M(h, sizeof(Nz::TypeListAt<L, 2>)); unsigned n = 0; Nz::TypeListApply<L, Count>(n); h = M(h, n); h = M(h, Nz::TypeListSize<Nz::TypeListUnique<Nz::TypeListConcat<L, L>>>);''',
'TypeName': '''h = M(h, Nz::TypeName<unsigned long>().size()); h = M(h, static_cast<unsigned char>(Nz::TypeName<char>()[1]));''',
'TypeTag': '''h = M(h, sizeof(typename Nz::TypeTag<short>::Type)); Nz::TypeTag<int> t; (void) t; h = M(h, x);''',
'TypeTraits': '''h = M(h, Nz::EnumValueCount_v<E>); h = M(h, Nz::IsComplete_v<E>); auto o = Nz::Overloaded{ [](int) { return 1u; }, [](char) { return 2u; } }; h = M(h, o('c')); h = M(h, sizeof(Nz::PointedType<short*>::type));''',
}
# declarations a use needs at namespace scope
PRE = {
'Concepts': 'template<NAZARA_STD_CONCEPT_T(std::integral) T> unsigned UseConcept(T v) { return unsigned(v) + 1; }',
'ConstantEvaluated': 'NAZARA_CONSTEXPR20 int Evaluated(int v) { if NAZARA_IS_CONSTEVAL() { return v; } return v + 1; }',
'TypeList': 'template<typename T> struct Count { void operator()(unsigned& n) { n += unsigned(sizeof(T)); } };',
}
ENUM = '''enum class E { A, B, C, Max = C };
	constexpr bool EnableEnumAsNzFlags(E) { return true; }'''
# the flags operators are found through the namespace of the enumeration

headers = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(REPO, 'include', 'NazaraUtils', '*.hpp')))

rnd = random.Random(seed * 7919 + 35)
units = [('alone', [h]) for h in headers]
units += [('twice', [h, h]) for h in headers] if tier != 'quick' else []
for k in range(14 if tier == 'quick' else 120):
    n = rnd.choice([2, 2, 3, 4, 6, 9])
    sel = [rnd.choice(headers) for _ in range(n)]
    units.append(('selection', sel))
allh = list(headers)
units.append(('all, alphabetical', list(allh)))
units.append(('all, reversed', list(reversed(allh))))
for k in range(2 if tier == 'quick' else 12):
    rnd.shuffle(allh)
    units.append(('all, shuffled', list(allh)))

def unit(k, sel):
    seen = []
    for h in sel:
        if h not in seen:
            seen.append(h)
    s = ''.join('#include <NazaraUtils/%s.hpp>\n' % h for h in sel)
    # an enumeration of its own for every unit: nothing is shared but the headers
    s += 'namespace Unit%d\n{\n\t%s\n}\nnamespace\n{\n\tusing namespace Unit%d;\n\tinline unsigned long long M(unsigned long long h, unsigned long long v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }\n' % (k, ENUM, k)
    for h in seen:
        if h in PRE:
            s += '\t' + PRE[h] + '\n'
    for h in seen:
        s += '\tunsigned long long Use%s([[maybe_unused]] unsigned long long x)\n\t{\n\t\tusing namespace Unit%d;\n\t\tunsigned long long h = 1;\n\t\t%s\n\t\treturn h;\n\t}\n' % (h, k, USE.get(h, 'h = M(h, x);'))
    s += '}\nextern unsigned long long (*const unit%d[])(unsigned long long);\n' % k
    s += 'unsigned long long (*const unit%d[])(unsigned long long) = { %s };\n' % (k, ', '.join('&Use' + h for h in seen))
    return s, seen

table = []
for k, (kind, sel) in enumerate(units):
    src, seen = unit(k, sel)
    open(os.path.join(out, 'gen_%04d.cpp' % k), 'w').write(src)
    table.append((k, kind, sel, seen))

with open(os.path.join(out, 'gen_main.cpp'), 'w') as f:
    f.write('#include "pbt.hpp"\nusing Fn = unsigned long long (*)(unsigned long long);\n')
    for k, kind, sel, seen in table:
        f.write('extern const Fn unit%d[];\n' % k)
    f.write('namespace\n{\n\tstruct Entry { unsigned unit; unsigned slot; };\n\tconst Fn* const units[] = { %s };\n' % ', '.join('unit%d' % t[0] for t in table))
    f.write('\tconst char* const includes[] = { %s };\n' % ', '.join('"%s: %s"' % (t[1], ' '.join(t[2])[:300]) for t in table))
    for h in headers:
        f.write('\tconst Entry in_%s[] = { %s };\n' % (h, ', '.join('{%d,%d}' % (t[0], t[3].index(h)) for t in table if h in t[3])))
    f.write('\tstruct Header { const char* name; const Entry* entries; std::size_t count; };\n\tconst Header headers[] = { %s };\n' % ', '.join('{"%s", in_%s, sizeof(in_%s) / sizeof(Entry)}' % (h, h, h) for h in headers))
    f.write('''
	void agree(pbt::Case& c)
	{
		const Header& h = headers[c.below(sizeof(headers) / sizeof(headers[0]))];
		unsigned long long x = c.coin() ? c.u64() : c.integer<unsigned long long>();
		LOG("<" << h.name << ">, in " << h.count << " translation units, input " << x);
		const Entry& first = h.entries[0];
		unsigned long long expected = units[first.unit][first.slot](x);
		for (std::size_t i = 1; i < h.count; ++i)
		{
			const Entry& e = h.entries[i];
			CHECK_EQ(units[e.unit][e.slot](x), expected, std::string("translation unit including ") + includes[e.unit], std::string("against ") + includes[first.unit]);
			CHECK_EQ(units[e.unit][e.slot](x), expected, std::string("the second time"));
		}
		if (h.count > 1)
			c.nontrivial();
		c.tag(h.name);
	}
	PBT_TARGET("translation units agree", 40000, &agree)
}
''')
