#!/usr/bin/env python3
"""C38: the macros of Prerequisites.hpp, Concepts.hpp, ConstantEvaluated.hpp, DebugBreak.hpp, MemoryHelper.hpp and Signal.hpp.

Generated programs use the control flow macros under generated switches; the same programs in plain C++, in translation units
which include none of the headers, are the reference. Token, version, unity and diagnostics macros are checked against what
this generator knows they stand for."""
import os, random, subprocess, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
REPO = os.environ.get('VERIF_REPO', '/repo')
rng = random.Random(seed * 7907 + 38)
PROGRAMS, PER = (8, 14) if tier == 'quick' else (40, 24)

SUPPORT = r'''
#include <cstddef>
using u64 = unsigned long long;
namespace support@N@
{
	struct Unreached {};
	constexpr u64 mix(u64 h, u64 v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
	constexpr u64 tick(u64& s, u64 v) { s = mix(s, 77); return v; }
	struct Truth { u64 v; constexpr explicit operator bool() const { return v != 0; } };
	struct Loose { u64 v; u64* s; constexpr operator bool() const { *s = mix(*s, 5); return v != 0; } };
	constexpr int objects[4] = { 1, 2, 3, 4 };
}
'''

# -- conditions: text in which x, y are the inputs and s the state; any type an if accepts
def cond(depth=0):
    k = rng.randrange(26)
    m = rng.choice(['1', '2', '3', '4', '6', '12', '0x100000000ull', '0x8000000000000000ull', '(1ull << 40)', '255'])
    v = rng.choice(['x', 'y'])
    w = 'y' if v == 'x' else 'x'
    if depth < 2 and k < 5:
        a, b = cond(depth + 1), cond(depth + 1)
        return [ '(%s) && (%s)' % (a, b), '(%s) || (%s)' % (a, b), '(%s) ? bool(%s) : bool(%s)' % (a, b, cond(depth + 1)), '!(%s)' % a, '(%s) != (%s)' % ('bool(' + a + ')', 'bool(' + b + ')') ][k]
    return [
        '%s & %s' % (v, m), '%s > %s' % (v, w), '%s %% 3 == 0 || %s & 1' % (v, w), '!%s' % v, '!!(%s & %s)' % (v, m),
        'double(%s & 1) * 0.5' % v, 'float(%s & 3) / 8.f - 0.25f' % v, '(%s & 1) ? &objects[%s & 3] : nullptr' % (v, w), 'Truth{%s & %s}' % (v, m),
        '(Loose{%s & %s, &s})' % (v, m), 'tick(s, %s & %s)' % (v, m), '%s < %s && tick(s, %s & 1)' % (v, w, w), '%s < %s || tick(s, %s & 1)' % (v, w, w),
        '(s = mix(s, 9), %s & %s)' % (v, m), '(s = %s & %s)' % (v, m), 's ^ %s' % v, '%s << 40' % v, '-1', '0', 'true', '%s - %s' % (v, w),
        '(unsigned char)(%s)' % v, '%s / 2 * 2 == %s' % (v, v), 'static_cast<signed char>(%s) < 0' % v, '%s | %s' % (v, w), 's++ & 1',
    ][k]

def truth(calls):
    v = rng.choice(['x', 'y'])
    return rng.choice(['(%s & 7) <= 7' % v, '%s == %s' % (v, v), '%s %% 5 < 5' % v, 's + 1 != s', '(%s | 1) != 0' % v, '%s / 2 <= %s' % (v, v), '!(%s > ~u64(0))' % v, 'Truth{%s | 1}.v' % v]
                      + (['tick(s, 1) == 1', '(s = mix(s, 3), true)', 's++ + 1 != 0'] if calls else []))

# -- statements; @L @U condition, @A assume, @R unreachable, @N unused
class Gen:
    def __init__(self, reach, calls):
        self.reach, self.calls, self.n = reach, calls, 0
    def act(self):
        return 's = mix(s, %du);' % rng.randrange(1000)
    def c(self):
        return '@%s(%s)' % (rng.choice('LLUUP'), cond())
    def stmt(self, d, ind):
        t = '\t' * ind
        k = rng.randrange(13) if d < 3 else rng.randrange(11, 13)
        self.n += 1
        n = self.n
        if k < 4:
            r = t + 'if %s\n%s{\n%s%s}\n' % (self.c(), t, self.block(d + 1, ind + 1), t)
            while rng.random() < 0.4:
                r += t + 'else if %s\n%s{\n%s%s}\n' % (self.c(), t, self.block(d + 1, ind + 1), t)
            if rng.random() < 0.6:
                r += t + 'else\n%s{\n%s%s}\n' % (t, self.block(d + 1, ind + 1), t)
            return r
        if k == 4: # else belongs to the nearest if
            return t + 'if %s if %s %s else %s\n' % (self.c(), self.c(), self.act(), self.act())
        if k == 5:
            return t + 'if %s %s else %s\n' % (self.c(), self.act(), self.act())
        if k == 6:
            return t + 'for (u64 i%d = 0; i%d < %d; ++i%d)\n%s{\n%s\tif %s continue;\n%s\tif %s break;\n%s%s}\n' % (n, n, rng.randrange(1, 4), n, t, t, self.c(), t, self.c(), self.block(d + 1, ind + 1), t)
        if k == 7:
            return t + '{ u64 n%d = %d; while @%s(n%d-- > 0 && (%s)) { s = mix(s, n%d); } }\n' % (n, rng.randrange(1, 5), rng.choice('LU'), n, cond(1), n)
        if k == 8: # every value has its case
            v = rng.choice('xy')
            return t + 'switch (%s & 3)\n%s{\n' % (v, t) + ''.join('%s\tcase %d: %s break;\n' % (t, i, self.act()) for i in range(4)) + '%s\tdefault: @R();\n%s}\n' % (t, t)
        if k == 9 and self.reach:
            return t + 'if @%s(%s %% %d == %d) @R();\n' % (rng.choice('LUP'), rng.choice('xy'), rng.randrange(3, 9), rng.randrange(3))
        if k == 9:
            return t + 'if @U(%s & 1 && !(%s)) @R(); else %s\n' % (('x', 'x & 1', self.act()) if rng.random() < 0.5 else ('y', 'y', self.act()))
        if k == 10:
            return t + 'if %s @A(%s); else %s\n' % (self.c(), truth(self.calls), self.act())
        if k == 11:
            return t + '@A(%s);\n' % truth(self.calls) + (t + '@N(x);\n' if rng.random() < 0.3 else '') + t + self.act() + '\n'
        return t + self.act() + '\n'
    def block(self, d, ind):
        return ''.join(self.stmt(d, ind) for _ in range(rng.randrange(1, 4 if d else 6)))

def expand(text, real):
    names = {'L': 'NAZARA_LIKELY', 'U': 'NAZARA_UNLIKELY', 'A': 'NAZARA_ASSUME', 'R': 'NAZARA_UNREACHABLE', 'N': 'NazaraUnused', 'P': '', 'F': 'NAZARA_FORCEINLINE'}
    for k, v in names.items():
        if real: text = text.replace('@' + k + '(', v + '(').replace('@' + k + ' ', v + ' ')
    if not real:
        text = text.replace('@L(', '(').replace('@U(', '(').replace('@P(', '(').replace('@R()', 'throw Unreached{}').replace('@F ', 'inline ')
        import re
        res, i = '', 0
        while True: # @A(...) is nothing, @N(...) is nothing
            j = min([p for p in (text.find('@A(', i), text.find('@N(', i)) if p >= 0], default=-1)
            if j < 0: return res + text[i:]
            res += text[i:j]
            depth, p = 0, j + 2
            while True:
                depth += text[p] == '('; depth -= text[p] == ')'; p += 1
                if depth == 0: break
            res += '(void) 0'
            i = p
    return text

SWITCHES = ['NAZARA_NO_ASSUME_ATTRIBUTE', 'NAZARA_NO_FORCEINLINE_ATTRIBUTE', 'NAZARA_NO_LIKELY_ATTRIBUTE', 'NAZARA_NO_UNREACHABLE_MACRO', 'NAZARA_NO_ARCH_DETECTION']
INCLUDES = ['Prerequisites', 'Concepts', 'ConstantEvaluated', 'Assert', 'MathUtils', 'Bitset', 'Signal']

# force-inlined functions which every unit defines
open(os.path.join(out, 'c38_inline.hpp'), 'w').write('''#pragma once
#include <NazaraUtils/Prerequisites.hpp>
template<typename T> NAZARA_FORCEINLINE T InlineTwice(T v) { return v + v; }
NAZARA_FORCEINLINE unsigned long long& InlineCounter() { static unsigned long long counter; return counter; }
struct InlineMember { unsigned long long v; NAZARA_FORCEINLINE unsigned long long Get() const { return v * 3; } static NAZARA_FORCEINLINE constexpr int Static() { return 5; } };
NAZARA_FORCEINLINE constexpr unsigned long long InlineConstexpr(unsigned long long v) { return v ^ 0xFF; }
''')

table = []
for p in range(PROGRAMS):
    switches = [s for s in SWITCHES if rng.random() < (0 if p == 0 else 0.4)]
    fns, consts = [], []
    for k in range(PER):
        kind = rng.choice(['plain', 'reach', 'calls', 'constexpr'])
        g = Gen(kind == 'reach', kind == 'calls')
        body = g.block(0, 2)
        fns.append((kind, body))
        if kind == 'constexpr':
            for _ in range(3):
                consts.append((k, rng.getrandbits(rng.choice([1, 3, 8, 33, 64])), rng.getrandbits(rng.choice([1, 3, 8, 33, 64]))))
    for real in (True, False):
        s = ''
        if real:
            s += ''.join('#define %s\n' % w for w in switches)
            s += '#include <NazaraUtils/%s.hpp>\n' % rng.choice(INCLUDES) + '#include <NazaraUtils/Prerequisites.hpp>\n#include "c38_inline.hpp"\n'
        ns = ('real%d' if real else 'plain%d') % p
        s += SUPPORT.replace('@N@', ns) + 'namespace %s\n{\n\tusing namespace support%s;\n' % (ns, ns)
        for k, (kind, body) in enumerate(fns):
            s += '\tstatic %su64 f%d(u64 x, u64 y)\n\t{\n\t\tu64 s = x ^ y;\n%s\t\treturn s;\n\t}\n' % ('constexpr ' if kind == 'constexpr' else '', k, expand(body, real))
        if real:
            for i, (k, x, y) in enumerate(consts):
                s += '\tconstexpr u64 c%d = f%d(%dull, %dull);\n' % (i, k, x, y)
            s += '\textern const u64 compiled[];\n\tconst u64 compiled[] = { %s };\n' % ', '.join(['c%d' % i for i in range(len(consts))] + ['0'])
            # what reaching the unreachable does here, seen from elsewhere
            s += '\tu64 run(unsigned f, u64 x, u64 y, bool& unreachable)\n\t{\n'
            s += '\t\tunreachable = false;\n\t\ttry\n\t\t{\n\t\t\tswitch (f)\n\t\t\t{\n' + ''.join('\t\t\t\tcase %d: return f%d(x, y);\n' % (k, k) for k in range(PER)) + '\t\t\t}\n\t\t}\n\t\tcatch (const Nz::UnreachableError&)\n\t\t{\n\t\t\tunreachable = true;\n\t\t}\n\t\treturn 0;\n\t}\n'
            s += '\tu64 inlined(u64 x) { InlineCounter()++; return mix(mix(InlineTwice(x), InlineMember{x}.Get()), InlineConstexpr(x) + InlineMember::Static()); }\n\tconst void* address() { return &InlineCounter(); }\n'
        else:
            s += '\tu64 run(unsigned f, u64 x, u64 y, bool& unreachable)\n\t{\n\t\tunreachable = false;\n\t\ttry\n\t\t{\n\t\t\tswitch (f)\n\t\t\t{\n' + ''.join('\t\t\t\tcase %d: return f%d(x, y);\n' % (k, k) for k in range(PER)) + '\t\t\t}\n\t\t}\n\t\tcatch (Unreached)\n\t\t{\n\t\t\tunreachable = true;\n\t\t}\n\t\treturn 0;\n\t}\n'
        s += '}\n'
        open(os.path.join(out, 'gen_%s_%03d.cpp' % ('real' if real else 'plain', p)), 'w').write(s)
    table.append((switches, fns, consts))

# -- unity builds: the same files apart, and together with one identifier each
UNITY = 3 if tier == 'quick' else 12
unity_files = []
for u in range(UNITY):
    files = []
    for f in range(rng.randrange(2, 5)):
        names = rng.sample(['helper', 'Value', 'state', 'Convert'], rng.randrange(1, 4))
        k = [rng.randrange(1, 1000) for _ in range(4)]
        named = rng.random() < 0.5
        open_ns, close_ns = ('namespace app\n{\n', '}\n') if named else ('', '')
        b = open_ns + 'namespace NAZARA_ANONYMOUS_NAMESPACE\n{\n'
        for n in names:
            b += {'helper': '\tinline u64 helper(u64 v) { return v * %d + 1; }\n' % k[0], 'Value': '\tstruct Value { u64 v = %d; u64 Get() const { return v; } };\n' % k[1],
                  'state': '\tstatic u64 state = %d;\n' % k[2], 'Convert': '\ttemplate<typename T> u64 Convert(T v) { return u64(v) ^ %d; }\n' % k[3]}[n]
        b += '}\n' + 'u64 @FN@_%d(u64 x)\n{\n\tu64 h = x;\n' % f
        inner = {'helper': '\th ^= %shelper(h);\n', 'Value': '\th += %sValue{}.Get();\n', 'state': '\th = h * 31 + (%sstate += 3);\n', 'Convert': '\th += %sConvert(h & 0xFF);\n'}
        if rng.random() < 0.5:
            b += '\tNAZARA_USE_ANONYMOUS_NAMESPACE\n' + ''.join(inner[n] % '' for n in names)
        else:
            for n in names:
                e = inner[n]
                for sym in ('helper', 'Value', 'state', 'Convert'):
                    e = e.replace('%s' + sym, 'NAZARA_ANONYMOUS_NAMESPACE_PREFIX(%s)' % sym)
                b += e
        b += '\treturn h;\n}\n' + close_ns
        files.append((b, ('app::' if named else ''), named))
    unity_files.append(files)
    inc = rng.choice(INCLUDES)
    head = 'using u64 = unsigned long long;\n'
    together = ''
    for f, (b, q, named) in enumerate(files):
        together += '#undef NAZARA_UNITY_ID\n#define NAZARA_UNITY_ID Unity_%d_%d\n#include <NazaraUtils/%s.hpp>\n' % (u, f, inc if f == 0 else rng.choice(INCLUDES)) + (head if f == 0 else '') + b.replace('@FN@', 'together%d' % u)
        open(os.path.join(out, 'gen_apart_%d_%d.cpp' % (u, f)), 'w').write('#include <NazaraUtils/%s.hpp>\n' % inc + head + b.replace('@FN@', 'apart%d' % u))
    open(os.path.join(out, 'gen_together_%d.cpp' % u), 'w').write(together)

# -- tokens
def word():
    return rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_') + ''.join(rng.choice('abcxyzABCXYZ019_') for _ in range(rng.randrange(0, 9)))
def cstr(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
tok_def, tok = '', []
used = set()
KEYWORDS = {'x', 'y', 'u64', 'c', 'asm', 'or', 'xor', 'and', 'not', 'if', 'do', 'for', 'int', 'new', 'try', 'auto', 'bool', 'linux', 'unix'}
def fresh(pre):
    while True:
        w = pre + word() + word()
        if w not in used: used.add(w); return w
for i in range(60 if tier == 'quick' else 300):
    A, B, a, b = fresh('QA'), fresh('QB'), fresh('qa'), fresh('qb')
    tok_def += '#define %s %s\n#define %s %s\n' % (A, a, B, b)
    tok += [('NazaraStringify(%s)' % A, A), ('NazaraStringifyMacro(%s)' % A, a), ('NazaraStringify(%s)' % a, a),
            ('NazaraStringifyMacro(NazaraSuffixMacro(%s, %s))' % (A, B), a + b), ('NazaraStringifyMacro(NazaraPrefixMacro(%s, %s))' % (A, B), b + a),
            ('NazaraStringifyMacro(NazaraSuffix(%s, %s))' % (A, B), A + B), ('NazaraStringifyMacro(NazaraPrefix(%s, %s))' % (A, B), B + A),
            ('NazaraStringify(NazaraSuffixMacro(%s, %s))' % (A, B), 'NazaraSuffixMacro(%s, %s)' % (A, B))]
    n = rng.randrange(10000)
    tok += [('NazaraStringifyMacro(NazaraSuffixMacro(%s, %d))' % (A, n), a + str(n)), ('NazaraStringify(%s + %d)' % (A, n), '%s + %d' % (A, n)), ('NazaraStringifyMacro(%s + %d)' % (A, n), '%s + %d' % (a, n)),
            ('NazaraStringify(%s)' % cstr(a), '"%s"' % a)]
tok_decl = ''
tok_vals = []
for i in range(12): # names made with them name the same thing as written by hand
    A, a, n = fresh('QC'), fresh('qc'), rng.randrange(1000)
    tok_decl += '#define %s %s\n\tconst int NazaraSuffixMacro(%s, _%d) = %d; const int NazaraPrefixMacro(%s, pre_) = %d; const int NazaraSuffix(%s, tail) = %d; const int NazaraPrefix(%s, head_) = %d;\n' % (A, a, A, n, n, A, n + 1, A, n + 2, A, n + 3)
    tok_vals += [('%s_%d' % (a, n), n), ('pre_' + a, n + 1), (A + 'tail', n + 2), ('head_' + A, n + 3)]

# -- versions
vers = sorted(set([0, 1, 100, 400, 900, 901, 1000, 1302, 1303, 1304, 1800, 1801, 1802, 1925, 9999] + [rng.randrange(300, 2500) for _ in range(30)]))
ver = ''
for comp in ('GCC', 'CLANG', 'MSVC', 'ICC', 'NDK'):
    for v in vers:
        ver += '#if NAZARA_CHECK_%s_VER(%d)\n\t\t{ "%s", %d, true, NAZARA_CHECK_%s_VER(%d) },\n#else\n\t\t{ "%s", %d, false, NAZARA_CHECK_%s_VER(%d) },\n#endif\n' % (comp, v, comp, v, comp, v, comp, v, comp, v)
cpp = ''
for name, v in (('98', 199711), ('11', 201103), ('14', 201402), ('17', 201703), ('20', 202002), ('23', 202302)):
    cpp += '#if NAZARA_CHECK_CPP_VER(NAZARA_CPP%s)\n\t\t{ "C++", %d, true, NAZARA_CHECK_CPP_VER(%d) },\n#else\n\t\t{ "C++", %d, false, NAZARA_CHECK_CPP_VER(%dL) },\n#endif\n' % (name, v, v, v, v)
for v in [rng.randrange(199000, 202700) for _ in range(20)] + [201702, 201704, 202001, 202003, 202099, 202100, 202101]:
    cpp += '#if NAZARA_CHECK_CPP_VER(%d)\n\t\t{ "C++", %d, true, NAZARA_CHECK_CPP_VER(%d) },\n#else\n\t\t{ "C++", %d, false, NAZARA_CHECK_CPP_VER(%d) },\n#endif\n' % (v, v, v, v, v)

# -- diagnostics: what the compilers say of small programs
WARN = { # flag -> code which gets it from both compilers
    '-Wunused-parameter': 'int f@(int unused@) { return 1; }', '-Wunused-variable': 'int f@() { int unused@ = 3; return 2; }', '-Wshadow': 'int f@(int a) { { int a = 3; return a; } }',
    '-Wsign-compare': 'bool f@(int a, unsigned b) { return a < b; }', '-Wparentheses': 'int f@(int a, int b) { if (a = b) return 1; return 0; }', '-Wold-style-cast': 'long f@(int a) { return (long) a; }',
    '-Wfloat-equal': 'bool f@(double a, double b) { return a == b; }', '-Wswitch': 'enum E@ { A@, B@ }; int f@(E@ e) { switch (e) { case A@: return 1; } return 0; }',
}
diag = []
def verdict(cxx, std, src, flags):
    r = subprocess.run([cxx, '-std=' + std, '-I' + os.path.join(REPO, 'include'), '-fsyntax-only', '-x', 'c++', '-'] + flags, input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout
jobs = []
flags = list(WARN)
for cxx in ('g++', 'clang++'):
    gcc = cxx == 'g++'
    for i in range(7 if tier == 'quick' else 30):
        std = rng.choice(['c++17', 'c++20'])
        fl = rng.choice(flags)
        which = rng.choice(['NAZARA_WARNING_CLANG_GCC_DISABLE', 'NAZARA_WARNING_GCC_DISABLE', 'NAZARA_WARNING_CLANG_DISABLE', 'NAZARA_WARNING_MSVC_DISABLE', 'NAZARA_WARNING_ICC_DISABLE'])
        arg = '"%s"' % fl if 'MSVC' not in which and 'ICC' not in which else '4100'
        applies = which == 'NAZARA_WARNING_CLANG_GCC_DISABLE' or (which == 'NAZARA_WARNING_GCC_DISABLE' and gcc) or (which == 'NAZARA_WARNING_CLANG_DISABLE' and not gcc)
        place = rng.choice(['inside', 'inside', 'after', 'before', 'nested'])
        code = WARN[fl]
        inc = '#include <NazaraUtils/%s.hpp>\n' % rng.choice(['Prerequisites', 'Concepts', 'Algorithm', 'Flags', 'MathUtils'])
        push, pop, dis = 'NAZARA_WARNING_PUSH()\n', 'NAZARA_WARNING_POP()\n', '%s(%s)\n' % (which, arg)
        c1 = code.replace('@', '1') + '\n'
        if place == 'inside': src, ok = push + dis + c1 + pop, applies
        elif place == 'after': src, ok = push + dis + pop + c1, False
        elif place == 'before': src, ok = c1 + push + dis + pop, False
        else: src, ok = push + dis + push + pop + c1 + pop, applies
        jobs.append(('%s -std=%s: %s, %s, code %s' % (cxx, std, dis.strip(), fl, place), cxx, std, inc + src, ['-Werror=' + fl[2:]], ok, None if ok else fl[2:]))
    # using nothing of it: no warning at all from the headers' macros
    jobs.append((cxx + ': pragmas of the other compilers are not seen', cxx, 'c++17', '#include <NazaraUtils/Prerequisites.hpp>\nNAZARA_WARNING_PUSH()\nNAZARA_WARNING_MSVC_DISABLE(4100 4200)\nNAZARA_WARNING_MSVC_DISABLE(1, 2)\nNAZARA_WARNING_ICC_DISABLE(3)\n' + ('NAZARA_WARNING_CLANG_DISABLE("-Wnot-a-gcc-warning")\n' if gcc else 'NAZARA_WARNING_GCC_DISABLE("-Wnot-a-clang-warning")\n') + 'NAZARA_WARNING_POP()\nint main() {}\n', ['-Werror', '-Wall', '-Wextra'], True, None))
    for i in range(3 if tier == 'quick' else 8):
        t = 'use ' + word() + ' instead'
        decl, use = rng.choice([('NAZARA_DEPRECATED("%s") int old(int);\nint old(int v) { return v; }', 'int g() { return old(3); }'), ('struct NAZARA_DEPRECATED("%s") Old { int v; };', 'Old make();'),
                                ('struct S { NAZARA_DEPRECATED("%s") int v; int w; };', 'int g(S& s) { return s.v; }'), ('struct S { NAZARA_DEPRECATED("%s") void call() {} };', 'void g(S& s) { s.call(); }')])
        inc = '#include <NazaraUtils/Prerequisites.hpp>\n'
        jobs.append((cxx + ': a deprecated declaration which is not used', cxx, 'c++17', inc + decl % t + '\n', ['-Werror', '-Wall'], True, None))
        jobs.append((cxx + ': a deprecated declaration which is used: ' + use, cxx, 'c++20', inc + decl % t + '\n' + use + '\n', ['-Werror=deprecated-declarations'], False, t))
        jobs.append((cxx + ': a deprecated declaration used without asking for errors', cxx, 'c++17', inc + decl % t + '\n' + use + '\n', [], True, t))
    # constraints apply where the language has them
    for std in ('c++17', 'c++20'):
        con = std == 'c++20'
        inc = '#include <NazaraUtils/Concepts.hpp>\n#include <string>\n'
        for ty, arith in rng.sample([('int', True), ('float', True), ('std::string', False), ('int*', False), ('void', False), ('const char', True), ('bool', True), ('int&', False), ('long double', True)], 4):
            jobs.append(('%s -std=%s: NAZARA_STD_CONCEPT_T(Nz::Arithmetic) given %s' % (cxx, std, ty), cxx, std, inc + 'template<NAZARA_STD_CONCEPT_T(Nz::Arithmetic) T> struct Only {};\nOnly<%s> only;\n' % ty, [], arith or not con, None))
            jobs.append(('%s -std=%s: NAZARA_CONCEPT(requires) given %s' % (cxx, std, ty), cxx, std, inc + '#ifdef NAZARA_HAS_CONCEPTS\ntemplate<typename T> concept Big = sizeof(T) > 4;\n#endif\ntemplate<NAZARA_CONCEPT_T(Big) T> struct A {};\ntemplate<typename T> NAZARA_CONCEPT(requires Big<T>) int f(T) { return 1; }\nA<%s> a;\nint v = f(%s);\n' % (('double', '2.0') if arith else ('short', 'short(1)')), [], arith or not con, None))
    jobs.append((cxx + ': exported symbols', cxx, 'c++17', '#include <NazaraUtils/Prerequisites.hpp>\nNAZARA_EXPORT int exported() { return 1; }\nNAZARA_IMPORT int imported();\nstruct NAZARA_EXPORT Exported { int v; Exported(); };\nint use() { return imported(); }\n', ['-Werror', '-Wall', '-fvisibility=hidden'], True, None))
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(lambda j: verdict(j[1], j[2], j[3], j[4]), jobs))
for j, (rc, text) in zip(jobs, res):
    good = (rc == 0) == j[5] and (j[6] is None or j[6] in text)
    diag.append((j[0], j[3], 'accepted' if j[5] else 'refused', 'accepted' if rc == 0 else 'refused', good, text[:600]))

# -- compile time or run time
def cev():
    s = ''
    for i in range(6):
        a, b, inv = rng.randrange(1000), rng.randrange(1000), rng.random() < 0.5
        s += '\tNAZARA_CONSTEXPR20 int Where%d(int v) { if %s { return v + %d; } else { return v + %d; } }\n' % (i, 'NAZARA_IS_RUNTIME_EVAL()' if inv else 'NAZARA_IS_CONSTEVAL()', b if inv else a, a if inv else b)
        s += '\t#ifdef NAZARA_HAS_CONSTEVAL\n\tconstexpr int where%d = Where%d(7); static_assert(where%d == 7 + %d);\n\t#endif\n' % (i, i, i, a)
        s += '\tvoid checkWhere%d(pbt::Case& c) { volatile int v = int(c.below(100)); int w = v; CHECK_EQ(Where%d(w), w + %d, "run time, %s"); }\n' % (i, i, b, 'NAZARA_IS_RUNTIME_EVAL' if inv else 'NAZARA_IS_CONSTEVAL')
    return s

with open(os.path.join(out, 'gen_main.cpp'), 'w') as f:
    f.write('''#include "pbt.hpp"
#include <NazaraUtils/Prerequisites.hpp>
#include <NazaraUtils/Concepts.hpp>
#include <NazaraUtils/ConstantEvaluated.hpp>
#include <NazaraUtils/DebugBreak.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/Signal.hpp>
#include "c38_inline.hpp"
#include "c38_signals.hpp"
#include <csignal>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
using u64 = unsigned long long;
''')
    for p in range(PROGRAMS):
        f.write('namespace real%d { u64 run(unsigned, u64, u64, bool&); extern const u64 compiled[]; u64 inlined(u64); const void* address(); }\nnamespace plain%d { u64 run(unsigned, u64, u64, bool&); }\n' % (p, p))
    for u, files in enumerate(unity_files):
        for k, (b, q, named) in enumerate(files):
            d = 'u64 together%d_%d(u64); u64 apart%d_%d(u64);' % (u, k, u, k)
            f.write(('namespace app { %s }\n' % d) if named else d + '\n')
    f.write('\nnamespace\n{\n\tusing Run = u64 (*)(unsigned, u64, u64, bool&);\n\tstruct Const { unsigned f; u64 x, y; };\n\tstruct Program { Run real, plain; bool fallback; const char* switches; const u64* compiled; const Const* consts; unsigned constCount; u64 (*inlined)(u64); const void* (*address)(); };\n')
    for p, (sw, fns, consts) in enumerate(table):
        f.write('\tconst Const consts%d[] = { %s };\n' % (p, ', '.join(['{%d, %dull, %dull}' % t for t in consts] + ['{0, 0, 0}'])))
    f.write('\tconst Program programs[] = {\n')
    for p, (sw, fns, consts) in enumerate(table):
        f.write('\t\t{ &real%d::run, &plain%d::run, %s, "%s", real%d::compiled, consts%d, %d, &real%d::inlined, &real%d::address },\n' % (p, p, 'true' if 'NAZARA_NO_UNREACHABLE_MACRO' in sw else 'false', ' '.join(sw), p, p, len(consts), p, p))
    f.write('\t};\n\tconstexpr unsigned PerProgram = %d;\n' % PER)
    f.write('\tstruct Diag { const char* what; const char* source; const char* expected; const char* got; bool good; const char* text; };\n\tconst Diag diags[] = {\n')
    def raw(s): return 'R"_~_(' + s + ')_~_"'
    for d in diag:
        f.write('\t\t{ %s, %s, "%s", "%s", %s, %s },\n' % (raw(d[0]), raw(d[1]), d[2], d[3], 'true' if d[4] else 'false', raw(d[5])))
    f.write('\t};\n')
    f.write('\tstruct Unity { u64 (*together)(u64); u64 (*apart)(u64); };\n\tconst Unity unity[] = {\n')
    for u, files in enumerate(unity_files):
        for k, (b, q, named) in enumerate(files):
            f.write('\t\t{ &%stogether%d_%d, &%sapart%d_%d },\n' % (q, u, k, q, u, k))
    f.write('\t};\n')
    f.write(tok_def + '\tstruct Token { const char* expression; const char* got; const char* expected; };\n\tconst Token tokens[] = {\n')
    for e, want in tok:
        f.write('\t\t{ %s, %s, %s },\n' % (cstr(e), e, cstr(want)))
    f.write('\t};\n' + tok_decl + '\tstruct Named { const char* name; int got; int expected; };\n\tconst Named named[] = {\n')
    for n, v in tok_vals:
        f.write('\t\t{ "%s", %s, %d },\n' % (n, n, v))
    f.write('\t};\n\tstruct Version { const char* who; long version; bool preprocessor; bool expression; };\n\tconst Version versions[] = {\n' + ver + cpp + '\t};\n')
    f.write(cev())
    f.write('\tusing Where = void (*)(pbt::Case&);\n\tconst Where wheres[] = { %s };\n' % ', '.join('&checkWhere%d' % i for i in range(6)))
    f.write(r'''
	void programsAgree(pbt::Case& c)
	{
		unsigned p = unsigned(c.below(sizeof(programs) / sizeof(programs[0])));
		unsigned f = unsigned(c.below(PerProgram));
		u64 x = c.coin() ? c.below(16) : c.integer<u64>(), y = c.coin() ? c.below(16) : c.integer<u64>();
		LOG("program " << p << " function " << f << " (defined: " << programs[p].switches << "), x " << x << " y " << y);
		bool reached = false, thrown = false;
		u64 expected = programs[p].plain(f, x, y, reached);
		if (reached && !programs[p].fallback)
		{
			c.tag("reaches the unreachable: not run");
			return;
		}
		u64 got = programs[p].real(f, x, y, thrown);
		CHECK_EQ(thrown, reached, "UnreachableError");
		CHECK_EQ(got, expected, "result with the macros, and with plain conditions");
		if (reached) c.tag("UnreachableError thrown");
		c.nontrivial();
	}

	void compiledAgree(pbt::Case& c)
	{
		unsigned p = unsigned(c.below(sizeof(programs) / sizeof(programs[0])));
		const Program& program = programs[p];
		LOG("program " << p);
		for (unsigned i = 0; i < program.constCount; ++i)
		{
			const Const& k = program.consts[i];
			bool reached = false;
			u64 expected = program.plain(k.f, k.x, k.y, reached);
			LOG("function " << k.f << " of " << k.x << " and " << k.y);
			CHECK(!reached);
			CHECK_EQ(program.compiled[i], expected, "computed by the compiler with the macros, and at run time without");
			c.nontrivial();
		}
		u64 v = c.integer<u64>();
		u64 before = InlineCounter();
		u64 first = programs[0].inlined(v);
		CHECK_EQ(program.inlined(v), first, "force-inlined functions of two translation units");
		CHECK_EQ(InlineCounter(), before + 2, "their static variable is one object");
		CHECK(program.address() == &InlineCounter());
	}

	void diagnostics(pbt::Case& c)
	{
		const Diag& d = diags[c.below(sizeof(diags) / sizeof(diags[0]))];
		LOG(d.what << "\n" << d.source << "\nis " << d.got << ": " << d.text);
		CHECK_EQ(std::string(d.got), std::string(d.expected));
		CHECK(d.good);
		c.nontrivial();
	}

	void unityBuild(pbt::Case& c)
	{
		const std::size_t count = sizeof(unity) / sizeof(unity[0]);
		std::size_t calls = 1 + c.below(8);
		for (std::size_t i = 0; i < calls; ++i)
		{
			std::size_t f = c.below(count);
			u64 x = c.integer<u64>();
			LOG("file " << f << " of " << x);
			CHECK_EQ(unity[f].together(x), unity[f].apart(x), "in a unity build, and alone");
		}
		c.nontrivial();
	}

	void tokenMacros(pbt::Case& c)
	{
		const Token& t = tokens[c.below(sizeof(tokens) / sizeof(tokens[0]))];
		LOG(t.expression);
		CHECK_EQ(std::string(t.got), std::string(t.expected));
		const Named& n = named[c.below(sizeof(named) / sizeof(named[0]))];
		LOG(n.name);
		CHECK_EQ(n.got, n.expected);
		c.nontrivial();
	}

	void versionMacros(pbt::Case& c)
	{
		const Version& v = versions[c.below(sizeof(versions) / sizeof(versions[0]))];
		LOG(v.who << " at least " << v.version);
		bool expected = false;
		if (!std::strcmp(v.who, "C++")) expected = __cplusplus >= v.version;
#if defined(__clang__)
		else if (!std::strcmp(v.who, "CLANG")) expected = __clang_major__ * 100 + __clang_minor__ >= v.version;
#else
		else if (!std::strcmp(v.who, "GCC")) expected = __GNUC__ * 100 + __GNUC_MINOR__ >= v.version;
#endif
		CHECK_EQ(v.preprocessor, expected, "in an #if");
		CHECK_EQ(v.expression, expected, "as an expression");
		c.nontrivial();
	}

	void evaluation(pbt::Case& c)
	{
		wheres[c.below(sizeof(wheres) / sizeof(wheres[0]))](c);
		c.nontrivial();
	}

	volatile std::sig_atomic_t traps = 0;
	void onTrap(int) { traps = traps + 1; }
	void debugBreak(pbt::Case& c)
	{
		// without a debugger it is a SIGTRAP, and what follows is executed if the signal is handled
		struct sigaction action = {}, old = {};
		action.sa_handler = &onTrap;
		sigaction(SIGTRAP, &action, &old);
		int times = int(c.below(5)), done = 0;
		traps = 0;
		for (int i = 0; i < times; ++i)
		{
			if (i % 2)
				NazaraDebugBreak();
			else
			{
				NazaraDebugBreak();
			}
			done += 3;
		}
		sigaction(SIGTRAP, &old, nullptr);
		LOG(times << " breaks");
		CHECK_EQ(int(traps), times, "SIGTRAP received");
		CHECK_EQ(done, 3 * times, "execution goes on");
		if (times) c.nontrivial();
	}

	// memory from NAZARA_ALLOCA: never null, and as large as asked for, whatever the expression
	void allocaMacro(pbt::Case& c)
	{
		std::size_t n = c.sizeAround(300, { 0, 1, 16 }), m = c.below(5);
		unsigned char* a = static_cast<unsigned char*>(NAZARA_ALLOCA(n));
		unsigned char* b = static_cast<unsigned char*>(NAZARA_ALLOCA(n + m));
		unsigned char* d = static_cast<unsigned char*>(NAZARA_ALLOCA(m ? n : n * 2));
		unsigned char* e = static_cast<unsigned char*>(NAZARA_ALLOCA(n | m));
		LOG("alloca of " << n << ", " << n + m << ", " << (m ? n : n * 2) << " and " << (n | m));
		CHECK(a && b && d && e);
		std::memset(a, 1, n); std::memset(b, 2, n + m); std::memset(d, 3, m ? n : n * 2); std::memset(e, 4, n | m);
		for (std::size_t i = 0; i < n; ++i) CHECK_EQ(int(a[i]), 1);
		for (std::size_t i = 0; i < n + m; ++i) CHECK_EQ(int(b[i]), 2);
		for (std::size_t i = 0; i < (m ? n : n * 2); ++i) CHECK_EQ(int(d[i]), 3);
		for (std::size_t i = 0; i < (n | m); ++i) CHECK_EQ(int(e[i]), 4);
		if (n) c.nontrivial();
	}

	// signals declared with the macros: members of const objects, statics shared by every unit, slots which disconnect
	struct Window
	{
		NazaraSignal(OnResize, Window&, int, int);
		NazaraSignal(OnClose);
		NazaraSignal(OnText, const std::string&);
		int width = 0;
		void Notify() const { OnClose(); OnText("const"); }
	};
	struct Listener
	{
		NazaraSlot(Window, OnResize, resizeSlot);
		NazaraSlot(Window, OnClose, closeSlot);
		NazaraSlot(c38::Static, OnEvent, eventSlot);
		int resized = 0, closed = 0; u64 events = 0;
	};
	static_assert(std::is_same_v<Window::OnResizeType, Nz::Signal<Window&, int, int>>);
	static_assert(std::is_same_v<Window::OnCloseType, Nz::Signal<>>);
	static_assert(std::is_same_v<NazaraSlotType(Window, OnText), Nz::Signal<const std::string&>::ConnectionGuard>);
	static_assert(std::is_same_v<NazaraSlotType(c38::Static, OnEvent), Nz::Signal<u64>::ConnectionGuard>);

	void signalMacros(pbt::Case& c)
	{
		Window w;
		const Window& cw = w;
		int expResized = 0, expClosed = 0; u64 expEvents = 0; std::size_t texts = 0, expTexts = 0;
		bool resizeOn = false, closeOn = false, eventOn = false, textOn = false;
		auto l = std::make_unique<Listener>();
		NazaraSlotType(Window, OnText) textSlot;
		std::size_t steps = 1 + c.below(25);
		for (std::size_t i = 0; i < steps; ++i)
		{
			switch (c.below(11))
			{
				case 0: LOG("connect to OnResize"); l->resizeSlot.Connect(w.OnResize, [p = l.get()](Window& win, int x, int y) { p->resized += x + y; win.width = x; }); resizeOn = true; break;
				case 1: LOG("connect to OnClose of a const window"); l->closeSlot.Connect(cw.OnClose, [p = l.get()] { p->closed++; }); closeOn = true; break;
				case 2: LOG("connect to the static signal"); l->eventSlot.Connect(c38::Static::OnEvent, [p = l.get()](u64 v) { p->events += v; }); eventOn = true; break;
				case 3: LOG("connect to OnText"); textSlot.Connect(cw.OnText, [&](const std::string& s) { texts += s.size(); }); textOn = true; break;
				case 4: { int x = int(c.below(100)), y = int(c.below(100)); LOG("OnResize(" << x << ", " << y << ")"); w.OnResize(w, x, y); if (resizeOn) { expResized += x + y; CHECK_EQ(w.width, x); } break; }
				case 5: LOG("const Notify"); cw.Notify(); expClosed += closeOn; expTexts += textOn ? 5 : 0; break;
				case 6: { u64 v = c.below(1000); LOG("static signal fired here"); c38::Static::OnEvent(v); expEvents += eventOn ? v : 0; break; }
				case 7: { u64 v = c.below(1000); LOG("static signal fired by another translation unit"); c38::FireElsewhere(v); expEvents += eventOn ? v : 0; break; }
				case 8: LOG("disconnect"); l->resizeSlot.Disconnect(); resizeOn = false; break;
				case 9: LOG("listener destroyed, another one made"); l = std::make_unique<Listener>(); resizeOn = closeOn = eventOn = false; expResized = expClosed = 0; expEvents = 0; break;
				case 10: LOG("slot of OnClose disconnected"); l->closeSlot.Disconnect(); closeOn = false; break;
			}
			CHECK_EQ(l->resized, expResized);
			CHECK_EQ(l->closed, expClosed);
			CHECK_EQ(l->events, expEvents);
			CHECK_EQ(texts, expTexts);
		}
		c.nontrivial();
	}

	// the rest is known once and for all
	static_assert(sizeof(Nz::Int8) == 1 && sizeof(Nz::UInt8) == 1 && sizeof(Nz::Int16) == 2 && sizeof(Nz::UInt16) == 2 && sizeof(Nz::Int32) == 4 && sizeof(Nz::UInt32) == 4 && sizeof(Nz::Int64) == 8 && sizeof(Nz::UInt64) == 8);
	static_assert(std::is_signed_v<Nz::Int8> && std::is_signed_v<Nz::Int16> && std::is_signed_v<Nz::Int32> && std::is_signed_v<Nz::Int64>);
	static_assert(std::is_unsigned_v<Nz::UInt8> && std::is_unsigned_v<Nz::UInt16> && std::is_unsigned_v<Nz::UInt32> && std::is_unsigned_v<Nz::UInt64>);
	int compilers()
	{
		int n = 0;
#ifdef NAZARA_COMPILER_CLANG
		n += 1;
#endif
#ifdef NAZARA_COMPILER_GCC
		n += 10;
#endif
#ifdef NAZARA_COMPILER_ICC
		n += 100;
#endif
#ifdef NAZARA_COMPILER_MSVC
		n += 1000;
#endif
#ifdef NAZARA_COMPILER_UNKNOWN
		n += 10000;
#endif
		return n;
	}
	int platforms()
	{
		int n = 0;
#ifdef NAZARA_PLATFORM_LINUX
		n += 1;
#endif
#if defined(NAZARA_PLATFORM_WINDOWS) || defined(NAZARA_PLATFORM_ANDROID) || defined(NAZARA_PLATFORM_BSD) || defined(NAZARA_PLATFORM_WEB) || defined(NAZARA_PLATFORM_UNKNOWN) || defined(NAZARA_PLATFORM_MOBILE)
		n += 100;
#endif
#if !defined(NAZARA_PLATFORM_DESKTOP) || !defined(NAZARA_PLATFORM_POSIX)
		n += 1000;
#endif
#if !defined(NAZARA_ARCH_x86_64) || defined(NAZARA_ARCH_x86) || defined(NAZARA_ARCH_arm) || defined(NAZARA_ARCH_aarch64)
		n += 10000;
#endif
		return n;
	}
	template<typename T> std::string pretty(T) { return NAZARA_PRETTY_FUNCTION; }
	void identification(pbt::Case& c)
	{
#ifdef __clang__
		CHECK_EQ(compilers(), 1);
		CHECK_EQ(NAZARA_COMPILER_CLANG_VER, __clang_major__ * 100 + __clang_minor__);
#else
		CHECK_EQ(compilers(), 10);
		CHECK_EQ(NAZARA_COMPILER_GCC_VER, __GNUC__ * 100 + __GNUC_MINOR__);
#endif
#ifdef __x86_64__
		CHECK_EQ(platforms(), 1);
#endif
		CHECK(NAZARA_CPP_VER == __cplusplus);
		CHECK(pretty(3).find("pretty") != std::string::npos && pretty(3) != pretty(3.0));
#ifdef __cpp_concepts
#ifndef NAZARA_HAS_CONCEPTS
		CHECK(false);
#endif
#else
#ifdef NAZARA_HAS_CONCEPTS
		CHECK(false);
#endif
#endif
		c.nontrivial();
	}
	PBT_TARGET("control flow macros against plain conditions", 60000, &programsAgree)
	PBT_TARGET("control flow macros in constant expressions, force-inlined functions", 4000, &compiledAgree)
	PBT_SWEEP("verdicts of the compilers", sizeof(diags) / sizeof(diags[0]), &diagnostics)
	PBT_TARGET("unity builds against separate files", 20000, &unityBuild)
	PBT_TARGET("token macros", 8000, &tokenMacros)
	PBT_TARGET("version macros", 4000, &versionMacros)
	PBT_TARGET("constant evaluation macros", 2000, &evaluation)
	PBT_TARGET("debug break", 500, &debugBreak)
	PBT_TARGET("alloca macro", 20000, &allocaMacro)
	PBT_TARGET("signal macros", 20000, &signalMacros)
	PBT_TARGET("identification macros", 10, &identification)
}
''')
open(os.path.join(out, 'c38_signals.hpp'), 'w').write('''#pragma once
#include <NazaraUtils/Signal.hpp>
namespace c38
{
	struct Static { NazaraStaticSignal(OnEvent, unsigned long long); NazaraStaticSignal(OnPair, int, const char*); };
	void FireElsewhere(unsigned long long v);
}
''')
open(os.path.join(out, 'gen_signals.cpp'), 'w').write('''#include "c38_signals.hpp"
namespace c38
{
	NazaraStaticSignalImpl(Static, OnEvent);
	NazaraStaticSignalImpl(Static, OnPair);
	void FireElsewhere(unsigned long long v) { Static::OnEvent(v); }
}
''')
