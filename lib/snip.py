"""Random C functions without undefined behaviour or unsequenced side effects that touch only their own automatic objects
and arguments. `@` in names is replaced by p_ (translated by the compiler under test) or r_ (reference translated by gcc).
A body is a list of statements; a statement is a string or [head, [statements], tail]."""
INTS = ['_Bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'int', 'int', 'unsigned', 'long', 'long', 'unsigned long', 'long long', 'enum E@']
FLTS = ['float', 'double', 'double', 'long double']
STRUCTS = {  # name -> [(member, type)], scalars only ('b' bit-field)
    'struct A@': [('a', 'char')], 'struct C@': [('a', 'int'), ('b', 'short'), ('c', 'char')], 'struct D@': [('x', 'double'), ('y', 'float')], 'struct F@': [('x', 'float'), ('y', 'float'), ('z', 'float')],
    'struct G@': [('a', 'long'), ('x', 'double')], 'struct H@': [('p.a', 'int'), ('p.b', 'short'), ('l', 'long'), ('v[0]', 'char'), ('v[6]', 'char')], 'struct K@': [('b0', 'b'), ('b1', 'b'), ('b2', 'b'), ('b3', 'b'), ('n', 'char')],
    'struct L@': [('x', 'long double')], 'struct M@': [('x', 'long double'), ('a', 'int')], 'struct N@': [('v[0]', 'long'), ('v[4]', 'long')], 'struct R@': [('v[0]', 'int'), ('v[40]', 'int'), ('v[69]', 'int'), ('t', 'double')],
    'struct T@': [('v[0]', 'char'), ('v[1]', 'char'), ('v[2]', 'char')], 'struct V@': [('v[0]', 'unsigned char'), ('v[8]', 'unsigned char'), ('v[12]', 'unsigned char')], 'union W@': [('l', 'long'), ('c[5]', 'unsigned char'), ('i', 'int')]}
PRE = '''
void sim_log(int, long, long); long sim_bits(const void *, int); int sim_self(void); long sim_choose(int); long sim_rsp(void);
#ifndef SNIP_TYPES
#define SNIP_TYPES
#define LOG(id, ...) sim_log(id, (long)(__VA_ARGS__), 0)
#define LOGD(id, ...) ({ double d_ = (__VA_ARGS__); sim_log(id, d_ == 0 ? 0 : d_ == d_ ? sim_bits(&d_, 8) : 77, 1); })

#endif
#include <stdarg.h>
'''
TYPES = '''
enum E@ { EA@, EB@ = 5, EC@ = -3 };
struct A@ { char a; }; struct C@ { int a; short b; char c; }; struct D@ { double x; float y; }; struct F@ { float x, y, z; }; struct G@ { long a; double x; };
struct H@ { struct C@ p; long l; char v[7]; }; struct K@ { unsigned b0 : 5; int b1 : 11; unsigned long b2 : 33; _Bool b3 : 1; char n; }; struct L@ { long double x; }; struct M@ { long double x; int a; };
struct N@ { long v[5]; }; struct R@ { int v[70]; double t; }; struct T@ { char v[3]; }; struct V@ { unsigned char v[13]; }; union W@ { long l; unsigned char c[8]; int i; };
static long vsum@(int n, ...) { va_list ap, aq; va_start(ap, n); long s = 0; va_copy(aq, ap); for (int i = 0; i < n; i++) s = s * 3 + va_arg(ap, long); for (int i = 0; i < n; i++) s ^= va_arg(aq, long); va_end(ap); va_end(aq); return s; }
static double vmix@(const char *f, ...) { va_list ap; va_start(ap, f); double s = 0; for (; *f; f++) { if (*f == 'i') s += va_arg(ap, int) & 1023; else if (*f == 'd') s = s * 0.5 + va_arg(ap, double); else if (*f == 'D') s += va_arg(ap, long double); else if (*f == 's') { struct G@ g = va_arg(ap, struct G@); s += g.x - (g.a & 31); } else if (*f == 'n') { struct N@ g = va_arg(ap, struct N@); s += g.v[4] & 255; } else { struct D@ g = va_arg(ap, struct D@); s += g.y; } } va_end(ap); return s; }
static void put@(long *p, long v) { *p = v; } static int addi@(int *p, int v) { return *p += v; } static long get@(const long *p) { return *p; }
static void swp@(long *a, long *b) { long t = *a; *a = *b; *b = t; } static const float nf@[4] = { 1, 0.0f / 0.0f, -0.0f, 0.5f }; static const double nd@[4] = { 0.0 / 0.0, 2, 1.0 / 0.0, -0.0 }; static const long double nl@[4] = { 3, 0, 0.0L / 0.0L, -1.0L / 0.0L }; static int clamp@(double d) { return d > -30000 && d < 30000 ? (int)d : 9; }
static long rec@(int n, long v) { long a[n + 1], k = v; for (int i = 0; i <= n; i++) a[i] = k = k * 5 + i; struct C@ c = { n, v, 1 }; if (n > 0) k ^= rec@(n - 1, v + a[n >> 1]); return k * 3 + a[n] + c.b; }
static int odd@(unsigned n, char *w); static int even@(unsigned n, char *w) { char t[24] = "even"; t[n & 3] += n; w[0] ^= t[1]; return n ? odd@(n - 1, t) + w[0] : w[0]; } static int odd@(unsigned n, char *w) { char t[5] = { n, 1 }; w[1] += 3; return n ? even@(n - 1, t) * 2 + t[0] : t[1] + w[1]; }
static long vin@(int n, va_list *ap, double *d) { long s = 0; for (int i = 0; i < n; i++) { if (i % 3 == 2) *d += va_arg(*ap, double); else s = s * 7 + va_arg(*ap, long); } return s; }
static long vin2@(int n, va_list ap) { long s = 1; while (n-- > 0) s = s * 5 + va_arg(ap, int); return s; }
static long vfwd@(int n, ...) { va_list ap; double d = 0; va_start(ap, n); long s = vin@(n, &ap, &d); s += vin2@(2, ap); va_end(ap); return s + (d > -1000 && d < 1000 ? (long)(d * 4) : 3); }
static long table@(unsigned i) { static const short t[] = { 3, -5, 700, 42, [9] = -1 }; static const struct C@ c[] = { { 1, 2, 3 }, { .c = 4 } }; static const char *const n[] = { "zero", "one" "two", "x" }; return t[i % 10] * 100L + c[i & 1].c + n[i % 3][i % 2]; }
typedef struct { union { unsigned u; short h[2]; unsigned char c[4]; struct { unsigned lo : 7, mid : 13, : 0; unsigned hi : 9; }; }; struct C@ in[2]; float f; } U@;
'''
class Gen:
    def __init__(self, r): self.r = r; self.fns = []; self.n = 0; self.extra = []
    def uid(self): self.n += 1; return self.n
    def const(self):
        r = self.r; c = r.randrange(12)
        if c < 5: return str(r.randrange(-9, 130)) if c else str(r.randrange(0, 4))
        return [str(r.randrange(-2**31 + 1, 2**31)), f'{r.randrange(2**32)}u', f'{r.randrange(-2**63 + 1, 2**63)}L', f'{r.randrange(2**64)}UL', "'%c'" % r.choice('axZ0'), hex(1 << r.randrange(31)), r.choice(['EB@', 'EC@', '0xffffffffL', '-128', '127', '0x8000', '2147483647', '(-2147483647 - 1)', '4294967296L'])][c - 5]
    def fconst(self): return self.r.choice(['0.5', '1.25f', '-2.0', '3', '0.0', '-0.0', '1e3', '7.75L', '0x1.8p3', '-1.5f', '1', '100.125'])
    # variables of the current function: (expr, kind) with kind i (integer), f (floating), b (bit-field)
    def ivar(self):
        v = [x for x in self.vars if x[1] in ('i', 'b', 'B')]
        if not v: return self.const()
        x = self.r.choice(v); return f'(long){x[0]}' if x[1] == 'b' else x[0]
    def fvar(self):
        v = [x[0] for x in self.vars if x[1] == 'f']; return self.r.choice(v) if v else self.fconst()
    def ie(self, d):
        r = self.r
        if d <= 0 or r.random() < .12: return self.ivar() if r.random() < .72 else self.const()
        e = self.ie; c = r.randrange(36)
        if c < 9: return f'({e(d - 1)} {r.choice(["+", "-", "*", "&", "|", "^", "+", "-"])} {e(d - 1)})'
        if c < 11: return f'({e(d - 1)} {r.choice(["<", "<=", "==", "!=", ">", ">="])} {e(d - 1)})'
        if c == 11: return f'({r.choice(["-", "~", "!"])}({e(d - 1)}))'
        if c == 12: return f'({e(d - 1)} {r.choice(["/", "%"])} {r.choice(["(((" + e(d - 2) + ") & 63) + 1)", str(r.choice([1, 2, 3, 4, 7, 8, 10, 16, 64, 255, 1000]))])})'
        if c == 13: return f'({e(d - 1)} {r.choice(["<<", ">>"])} {r.choice([str(r.randrange(0, 31)), "((" + e(d - 2) + ") & 15)"])})' if r.random() < .6 else f'((long){e(d - 1)} {r.choice(["<<", ">>"])} (({e(d - 2)}) & 63))'
        if c == 14: return f'({e(d - 1)} ? {e(d - 1)} : {e(d - 2)})'
        if c == 15: return f'({e(d - 1)} {r.choice(["&&", "||"])} {e(d - 1)})'
        if c == 16: return f'(({r.choice([t for t in INTS if t[0] != "e"])})({e(d - 1)}))'
        if c == 17 and r.random() < .35: # not a number
            def q(): return f'{r.choice(["nf@", "nd@", "nl@"])}[({e(d - 2)}) & 3]'
            x = q(); y = r.choice([q(), self.fe(d - 2), x, '0', self.ivar()])
            if r.random() < .5: x, y = y, x
            cmp = f'{x} {r.choice(["<", "<=", "==", "!=", ">", ">="])} {y}'
            return r.choice([f'({cmp})', f'({cmp})', f'(!({cmp}))', f'(({cmp}) ? {e(d - 2)} : 4)', f'(({cmp}) && {e(d - 2)})', f'({q()} ? 3 : {e(d - 2)})', f'(!{q()})', f'({q()} && {e(d - 2)})', f'({q()} || {e(d - 2)})', f'(_Bool){q()}', f'({{ int k_ = 3; if ({cmp}) k_ = 5; k_; }})', f'({{ int k_ = 3; if (!({cmp})) k_ = 5; k_; }})', f'({{ int k_ = 3; while (k_ < 7 && {cmp}) k_++; k_; }})'])
        if c == 17: return f'({self.fe(d - 1)} {r.choice(["<", "<=", "==", "!=", ">", ">="])} {self.fe(d - 2)})'
        if c == 18: return f'clamp@({self.fe(d - 1)})'
        if c == 19 and self.arrs: a, n, k = r.choice(self.arrs); return f'{a}[(unsigned long)({e(d - 1)}) % {n}]' if k == 'i' else f'clamp@({a}[(unsigned long)({e(d - 1)}) % {n}])'
        if c == 20: t = r.choice(['int', 'long', 'unsigned char', 'short']); u = self.uid(); return f'({{ {t} q{u} = {e(d - 1)}; q{u} {r.choice(["+=", "^=", "*=", "-="])} {e(d - 2)}; q{u}; }})'
        if c == 21: s = r.choice(['struct C@', 'struct G@', 'struct N@', 'struct K@', 'struct T@']); m = {'struct C@': 'b', 'struct G@': 'a', 'struct N@': 'v[0]', 'struct K@': 'b0', 'struct T@': 'v[2]'}[s]; return f'(({s}){{ .{m} = {e(d - 1)} }}).{m}' if s != 'struct K@' else f'(long)(({s}){{ .{m} = {e(d - 1)} }}).{m}'
        if c in (22, 23, 24, 25) and self.callable: return self.call(d, 'i') or self.ivar()
        if c == 26: n = r.randrange(0, 9); return f'vsum@({n}{"".join(", (long)(" + e(d - 2) + ")" for _ in range(n))})'
        if c == 27: return f'({e(d - 2)}, {e(d - 1)})'
        if c == 28: return f'*(int[]){{ {e(d - 1)}, {e(d - 2)} }}' if r.random() < .5 else f'((long[3]){{ {e(d - 1)}, 3, {e(d - 2)} }})[(unsigned long)({e(d - 2)}) % 3]'
        if c == 29: return f'__builtin_expect({e(d - 1)}, 0)'
        if c == 30: return f'get@(&(long){{ {e(d - 1)} }})'
        if c == 31 and self.structs: s = r.choice(self.structs); m = self.smember(s, 'i'); return m or self.ivar()
        if c > 33:
            t, m = r.choice([('signed char', '128'), ('unsigned char', '256u'), ('short', '32768'), ('unsigned short', '65536u'), ('int', '1073741824'), ('unsigned', '4000000000u'), ('long', '1152921504606846976'), ('unsigned long', '18000000000000000000ul'), ('_Bool', '3')])
            x = f'({r.choice(["float", "double", "long double"])})(({"unsigned long" if m[-1] in "ul" else "long"})({e(d - 1)}) % {m})'
            if r.random() < .4: x = f'({x} {r.choice(["* 0.5", "+ 0.25f", "* 0.75L"])})'
            return f'(long)({t}){x}'
        return f'(unsigned char)({e(d - 1)} - {e(d - 1)})'
    def smember(self, s, want):
        ms = [m for m in STRUCTS[s[1]] if (m[1] in FLTS) == (want == 'f')]
        if not ms: return None
        m = self.r.choice(ms); x = f'{s[0]}.{m[0]}'; return f'(long){x}' if m[1] == 'b' else x
    def fe(self, d):
        r = self.r
        if d <= 0 or r.random() < .15: return self.fvar() if r.random() < .7 else self.fconst()
        e = self.fe; c = r.randrange(12)
        if c < 4: return f'({e(d - 1)} {r.choice(["+", "-", "*"])} {e(d - 1)})'
        if c == 4: return f'({e(d - 1)} / {r.choice(["2", "4.0", "0.5f", "(1.0 + (" + self.ie(d - 2) + " & 7))"])})'
        if c == 5: return f'(({r.choice(["float", "double", "long double"])})({self.ie(d - 1)}))'
        if c == 6: return f'(-({e(d - 1)}))'
        if c == 7: return f'({self.ie(d - 1)} ? {e(d - 1)} : {e(d - 2)})'
        if c == 8 and self.callable: return self.call(d, 'f') or self.fvar()
        if c == 9: return f'(({r.choice(["float", "double"])})({e(d - 1)}))'
        if c == 10:
            k = ''.join(r.choice('iidDsng') for _ in range(r.randrange(0, 8)))
            def arg(x): return {'i': f'(int)({self.ie(d - 2)})', 'd': f'(double)({e(d - 2)})', 'D': f'(long double)({e(d - 2)})', 's': f'(struct G@){{ {self.ie(d - 2)}, {e(d - 2)} }}', 'n': f'(struct N@){{ {{ 1, 2, 3, 4, {self.ie(d - 2)} }} }}', 'g': f'(struct D@){{ 1, {e(d - 2)} }}'}[x]
            return f'vmix@("{k}"{"".join(", " + arg(x) for x in k)})'
        if self.structs: return self.smember(r.choice(self.structs), 'f') or self.fvar()
        return self.fvar()
    def se(self, t, d): # expression of struct type t
        r = self.r; v = [s[0] for s in self.structs if s[1] == t]
        c = r.randrange(6)
        if c < 2 and v: return r.choice(v)
        if c == 2 and len(v) > 1: return f'({self.ie(d - 1)} ? {v[0]} : {v[-1]})'
        if c == 3: 
            f = [f for f in self.callable if f['ret'] == t]
            if f and d > 0: return self.callto(r.choice(f), d - 1)
        if c == 4 and v: return f'({self.ie(d - 2)}, {v[0]})'
        ini = ', '.join(f'.{m} = {self.fe(d - 2) if mt in FLTS else self.ie(d - 2)}' for m, mt in STRUCTS[t][:r.randrange(1, 4)] if not (t[:5] == 'union')) or f'{self.ie(d - 2)}'
        return f'({t}){{ {ini} }}'
    def callto(self, f, d):
        self.cost += f['cost'] * self.mul
        return f'{f["name"]}(' + ', '.join(self.se(t, d) if t in STRUCTS else self.fe(d - 1) if t in FLTS else self.ie(d - 1) for t in f['par']) + ')'
    def call(self, d, kind):
        r = self.r; fs = [f for f in self.callable if f['cost'] * self.mul < 400]
        if not fs or self.cost > 900: return None
        f = r.choice(fs); x = self.callto(f, d - 1)
        if f['ret'] in STRUCTS:
            ms = [m for m in STRUCTS[f['ret']] if (m[1] in FLTS) == (kind == 'f')]
            if not ms: return None
            m = r.choice(ms); x = f'{x}.{m[0]}'; return f'(long){x}' if m[1] == 'b' else x
        isf = f['ret'] in FLTS
        return x if isf == (kind == 'f') else (f'clamp@({x})' if isf else f'(double)({x})')
    def decl(self, out):
        r = self.r; u = self.uid(); c = r.randrange(12)
        if c < 5:
            t = r.choice(INTS); q = r.choice(['', '', '', '', 'volatile ', 'register ', '_Alignas(32) ', 'const '])
            out.append(f'{q}{t} v{u} = {self.ie(3)};')
            self.vars.append((f'v{u}', 'b' if q == 'const ' or t == 'enum E@' else 'B' if t == '_Bool' else 'i'))
        elif c < 7: t = r.choice(FLTS); out.append(f'{t} v{u} = {self.fe(3)};'); self.vars.append((f'v{u}', 'f'))
        elif c == 7: t = r.choice(list(STRUCTS)); out.append(f'{t} s{u} = {self.se(t, 3)};'); self.structs.append((f's{u}', t))
        elif c == 8: n = r.choice([1, 2, 3, 5, 8, 17]); t = r.choice(['int', 'char', 'long', 'unsigned short', 'double', 'float']); k = 'f' if t in FLTS else 'i'; out.append(f'{t} a{u}[{n}] = {{ {", ".join(self.fe(1) if k == "f" else self.ie(1) for _ in range(min(n, r.randrange(1, 5))))} }};'); self.arrs.append((f'a{u}', n, k))
        elif c == 9: # variable length array
            n = r.randrange(1, 7); t = r.choice(['int', 'char', 'long', 'double']); k = 'f' if t == 'double' else 'i'
            out.append(f'int n{u} = {n} + ({self.ie(2)} & 3); {t} a{u}[n{u}]; for (int i = 0; i < n{u}; i++) a{u}[i] = i * {r.randrange(1, 9)};'); self.arrs.append((f'a{u}', f'n{u}', k)); self.cost += 20 * self.mul
        elif c == 10: n = r.choice([8, 16, 24, 200]); out.append(f'long *a{u} = __builtin_alloca({n} + (({self.ie(1)}) & 15)); a{u}[0] = {self.ie(2)};'); self.vars.append((f'a{u}[0]', 'i'))
        else:
            out.append(f'long w{u} = {self.ie(2)}, *pt{u} = &w{u};'); self.vars += [(f'*pt{u}', 'i'), (f'w{u}', 'i')]
    def stmt(self, d, out):
        r = self.r; c = r.randrange(34); self.cost += 15 * self.mul
        W = [x for x in self.vars if x[1] == 'i' and 'volatile' not in x[0]]; Fv = [x[0] for x in self.vars if x[1] == 'f']
        nested = lambda n, m=1: self.block(d - 1, n, m)
        if c < 4: return self.decl(out)
        if c < 7 and W: out.append(f'{r.choice(W)[0]} = {self.ie(4)};'); return
        if c < 9 and W: out.append(f'{r.choice(W)[0]} {r.choice(["+=", "-=", "*=", "&=", "|=", "^="])} {self.ie(3)};'); return
        if c == 9 and W: out.append(f'{r.choice(W)[0]} {r.choice(["<<= 1", ">>= 2", "/= 3", "%= 7", "/= 8", "%= 16"])};'); return
        if c == 10 and W: x = r.choice(W)[0]; x = f'({x})' if x[0] == '*' else x; out.append(r.choice([f'{x}++;', f'--{x};', f'{r.choice(W)[0]} = {x};' , f'{{ long o = {x}++; {x} ^= o * 3; }}', f'{{ long o = --{x}; {x} += o; }}'])); return
        if c == 11 and Fv: x = r.choice(Fv); out.append(r.choice([f'{x} = {self.fe(3)};', f'{x} += {self.fe(2)};', f'{x} *= 0.5;', f'{x} -= {self.ie(2)};', f'{x}++;', f'{x} /= 4;'])); return
        if c == 12 and self.structs:
            s = r.choice(self.structs); k = r.randrange(4)
            if k == 0: out.append(f'{s[0]} = {self.se(s[1], 3)};')
            else:
                m = r.choice(STRUCTS[s[1]]); x = f'{s[0]}.{m[0]}'
                if m[1] in FLTS: out.append(f'{x} = {self.fe(2)};')
                else: out.append(f'{x} {r.choice(["=", "+=", "^=", "="])} {self.ie(2)};')
            return
        if c == 13 and self.arrs: a, n, k = r.choice(self.arrs); out.append(f'{a}[(unsigned long)({self.ie(2)}) % {n}] {r.choice(["=", "+=", "-="])} {self.fe(2) if k == "f" else self.ie(3)};'); return
        if c in (14, 15) and d > 0: 
            b = nested(2); out.append([f'if ({self.ie(3)}) {{', b, '}']) if r.random() < .5 else out.append([f'if ({self.ie(2)}) {{', b, '} else { ' + self.line(d) + ' }']); return
        if c == 16 and d > 0: n = r.randrange(1, 4); u = self.uid(); out.append([f'for (int i{u} = 0; i{u} < {n}; i{u}++) {{', nested(2, n), '}']); return
        if c == 17 and d > 0: n = r.randrange(1, 4); u = self.uid(); out.append([f'{{ int k{u} = 0; do {{', nested(2, n), f'if ({self.ie(2)}) break; }} while (++k{u} < {n}); }}']); return
        if c == 18 and d > 0:
            cs = r.sample(range(0, 8), 3); b = []
            for q in cs: b.append([f'case {q}:{r.choice(["", ";", f" case {q + 20} ... {q + 22}:" if q < 3 and cs[0] == q else ""])} {{', nested(1), '}' + r.choice([' break;', ''])])
            b.append(f'default: {self.line(d)} break;'); out.append([f'switch ({r.choice(["(int)", "(unsigned char)", "(long)", "(unsigned)"])}({self.ie(2)} & 7)) {{', b, '}']); return
        if c == 19 and d > 0: u = self.uid(); b = nested(2); out.append([f'{{ long w{u} = {self.ie(2)}; if (w{u} & 1) goto L{u}; {{', b, f'}} L{u}:; }}']); return
        if c == 20 and W: x = r.choice(W)[0]; u = self.uid(); out.append(f'{{ long m{u} = {x}; put@(&m{u}, {self.ie(3)}); {x} = m{u}; }}' if r.random() < .5 else f'{{ int m{u} = {self.ie(1)}; {x} = addi@(&m{u}, {self.ie(2)}); }}'); return
        if c == 21 and W: x = r.choice(W)[0]; u = self.uid(); out.append(f'{{ long m{u} = {self.ie(1)}, o{u} = {self.ie(1)}; swp@(&m{u}, &o{u}); {x} = m{u} * 3 - o{u}; }}'); return
        if c == 22 and W: x = r.choice(W)[0]; out.append(r.choice([f'{{ int q = {self.ie(1)}, z = 5; __asm__("addl %1, %0" : "+r"(q) : "r"(z) : "cc"); {x} = q; }}', f'{{ long q = {self.ie(1)}; __asm__ volatile("xorq $5, %0" : "+m"(q) : : "cc", "memory"); {x} = q; }}', f'{{ long q; __asm__("lea 3(%1,%2,2), %0" : "=r"(q) : "r"((long)({self.ie(1)})), "r"((long)({self.ie(1)})) : "rbx", "r12"); {x} = q; }}'])); return
        if c == 23 and W: u = self.uid(); x = r.choice(W)[0]; out.append(f'{{ _Atomic {r.choice(["int", "long", "short", "unsigned char"])} m{u} = {self.ie(1)}; m{u} {r.choice(["+=", "^=", "-=", "|=", "="])} {self.ie(2)}; m{u}++; {x} = m{u}; }}'); return
        if c == 24 and d > 0: u = self.uid(); out.append([f'{{ static const void *const j{u}[] = {{ &&La{u}, &&Lb{u} }}; goto *j{u}[{self.ie(2)} & 1]; La{u}:; {{', nested(1), f'}} Lb{u}:; }}']); return
        if c == 25 and W: f = [f for f in self.callable if f['cost'] * self.mul < 300 and f['ret'] not in STRUCTS and f['ret'] not in FLTS]; \
            (out.append(f'{{ __typeof__({f[0]["name"]}) *fp = {f[0]["name"]}; {r.choice(W)[0]} = {self.callto(f[0], 2).replace(f[0]["name"] + "(", "fp(", 1)}; }}') if f else None); return
        if c == 26 and d > 0: out.append(['{', nested(3), '}']); return
        if c == 27: # long double work
            u = self.uid(); out.append(f'{{ long double x{u} = {self.fe(2)}, y{u} = {self.fe(1)} + x{u} * 2; {r.choice(["x%d += y%d" % (u, u), "y%d -= x%d" % (u, u), "x%d = -y%d" % (u, u)])}; {(r.choice(Fv) + " = x%d;" % u) if Fv else ""} }}'); return
        if c == 28: t = r.choice(list(STRUCTS)); u = self.uid(); out.append(f'{{ {t} c{u}[2] = {{ [1] = {self.se(t, 2)} }}; c{u}[0] = c{u}[1]; {self.back(f"c{u}[0]", t)} }}'); return
        if c > 29 and W: return self.more(out, r.choice(W)[0])
        if W: out.append(f'{r.choice(W)[0]} = {self.ie(5)};')
        else: self.decl(out)
    def more(self, out, x):
        r = self.r; u = self.uid(); e = self.ie; c = r.randrange(15); self.cost += 60 * self.mul
        if x[0] == '*': x = f'({x})'
        if c == 0:
            lit = '"' + r.choice(['some text', 'a\\x7f\\0bcdefgh', '0123456789', 'ab" "cdefgh']) + '"'; out.append(f'{{ const char *t{u} = {lit}; {x} ^= t{u}[(unsigned long)({e(3)}) & 7] + sizeof {lit}; }}')
        elif c == 1: out.append(f'{{ char t{u}[{r.choice(["", "9", "40"])}] = "autotext"; t{u}[(unsigned long)({e(2)}) & 7] += {e(2)}; {x} = {x} * 3 + t{u}[{r.randrange(8)}] + t{u}[(unsigned long)({e(1)}) & 7]; }}')
        elif c == 2:
            n = r.randrange(2, 7); t = r.choice(['int', 'char', 'long', 'short', 'unsigned']); out.append(f'{{ {t} b{u}[{n}] = {{ {", ".join(e(1) for _ in range(r.randrange(1, n + 1)))} }}, *w{u} = b{u}; long q{u} = {e(1)}; while (w{u} < b{u} + {n}) q{u} = q{u} * 3 + *w{u}++; *--w{u} {r.choice(["+=", "-=", "^=", "="])} {e(2)}; {x} = q{u} + (w{u} - b{u}) * *w{u} + b{u}[{n - 1}]; }}')
        elif c == 3: out.append(f'{{ {r.choice(["int", "short", "long"])} m{u}[3][4] = {{ {{ {e(1)} }}, [2] = {{ [1] = {e(2)}, 7 }} }}; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) m{u}[i][j] += m{u}[(i + 1) % 3][j ^ 1] * 3 + i; {x} = m{u}[(unsigned long)({e(1)}) % 3][(unsigned long)({e(1)}) & 3] ^ (*(m{u} + 1))[2]; }}')
        elif c == 4: out.append(f'{{ long q{u} = 0; for (int i = 0; i < 3; i++) {{ int *c{u} = (int[]){{ i, {e(1)}, 5 }}; c{u}[1] += i; q{u} = q{u} * 5 + c{u}[(unsigned long)({e(1)}) % 3]; }} {x} = q{u}; }}')
        elif c == 5: out.append(f'{x} {r.choice(["=", "+=", "^="])} table@({e(3)});')
        elif c == 6: out.append(f'{x} {r.choice(["=", "+=", "^="])} rec@({r.randrange(0, 6)}, {e(3)});'); self.cost += 200 * self.mul
        elif c == 7: out.append(f'{{ char t{u}[2] = {{ {e(1)}, {e(1)} }}; {x} ^= {r.choice(["even", "odd"])}@({r.randrange(0, 7)}, t{u}) + t{u}[0] * 3 + t{u}[1]; }}'); self.cost += 100 * self.mul
        elif c == 8:
            n = r.randrange(0, 12); a = [f'(double)({self.fe(1)})' if i % 3 == 2 else f'(long)({e(2)})' for i in range(n)]; out.append(f'{x} ^= vfwd@({", ".join([str(n)] + a + [f"(int)({e(1)})", str(r.randrange(99))])});')
        elif c == 9: out.append(f'{{ U@ z{u} = {{ .u = {e(2)}, .in = {{ [1] = {{ {e(1)}, 3, {e(1)} }} }}, .f = 2 }}; z{u}.{r.choice(["lo", "mid", "hi", "h[1]", "c[2]", "in[1].c", "in[0].b"])} {r.choice(["=", "+=", "^="])} {e(2)}; U@ y{u} = z{u}; y{u}.{r.choice(["lo", "mid", "hi"])}{r.choice(["++", "--"])}; {x} = y{u}.u + y{u}.in[1].c * 3 + z{u}.in[{r.randrange(2)}].b + y{u}.hi + (y{u}.f == z{u}.f); }}')
        elif c == 10: out.append(f'{{ int n{u} = 2 + ({e(1)} & 3); short v{u}[n{u}][3]; short (*r{u})[3] = v{u}; for (int i = 0; i < n{u}; i++) for (int j = 0; j < 3; j++) r{u}[i][j] = i * 7 - j + {e(1)}; {x} += sizeof(v{u}) * 3 + v{u}[n{u} - 1][2] + (*r{u})[1]; }}')
        elif c == 11: out.append(f'{{ const {r.choice(["int", "long", "signed char"])} k{u}[5] = {{ {", ".join(str(r.randrange(-90, 90)) for _ in range(r.randrange(1, 6)))} }}; {x} {r.choice(["+=", "="])} k{u}[(unsigned long)({e(2)}) % 5] * ({e(1)}); }}')
        elif c == 12: out.append(f'{{ struct N@ o{u} = {{ {{ {e(1)}, 2, {e(1)} }} }}, *g{u} = &o{u}; struct N@ l{u}[2] = {{ *g{u}, {{ {{ [3] = {e(1)} }} }} }}; g{u} = l{u} + ({e(1)} & 1); g{u}->v[(unsigned long)({e(2)}) % 5]++; *g{u} = (g{u}->v[0] & 1) ? o{u} : l{u}[1]; {x} = g{u}->v[3] * 7 + l{u}[0].v[0] + l{u}[1].v[(unsigned long)({e(1)}) % 5]; }}')
        elif c == 13: out.append(f'{{ unsigned long q{u} = {e(2)}; int n{u} = 0; for (; q{u} && n{u} < 9; q{u} >>= 7, n{u}++) {{ if (q{u} & 1) continue; if ((q{u} & 30) == 6) break; {x} = {x} * 3 + (q{u} & 255 ? n{u} : -n{u}); }} {x} += n{u}; }}')
        else: out.append(f'{{ long (*f{u}[2])(int, long) = {{ rec@, rec@ }}; struct {{ int k; long (*f)(int, long); }} h{u} = {{ {e(1)}, f{u}[1] }}; {x} -= h{u}.f({r.randrange(3)}, h{u}.k) + f{u}[{e(1)} & 1](1, 2); }}')
    def back(self, x, t):
        for s in self.structs:
            if s[1] == t: return f'{s[0]} = {x};'
        return ''
    def line(self, d):
        W = [x for x in self.vars if x[1] == 'i']
        return f'{self.r.choice(W)[0]} ^= {self.ie(2)};' if W else ';'
    def block(self, d, n, m=1):
        sv = (self.vars[:], self.structs[:], self.arrs[:], self.mul); self.mul *= m; out = []
        for _ in range(self.r.randrange(1, n + 1)): self.stmt(d, out)
        self.vars, self.structs, self.arrs, self.mul = sv; return out
    def begin(self): self.vars = []; self.structs = []; self.arrs = []; self.mul = 1; self.cost = 0; self.callable = [f for f in self.fns if not f.get('hidden')]
    def ty(self): c = self.r.random(); return self.r.choice(INTS) if c < .55 else self.r.choice(FLTS) if c < .75 else self.r.choice(list(STRUCTS))
    def fn(self, nst=5):
        r = self.r; self.begin(); k = len(self.fns); par = [self.ty() for _ in range(r.choice([0, 1, 2, 3, 4, 7, 10]))]; ret = self.ty()
        for i, t in enumerate(par):
            if t in STRUCTS: self.structs.append((f'p{i}', t))
            else: self.vars.append((f'p{i}', 'f' if t in FLTS else 'B' if t == '_Bool' else 'i'))
        body = []
        for _ in range(r.randrange(1, nst + 1)): self.stmt(2, body)
        body.append(f'return {self.se(ret, 3) if ret in STRUCTS else self.fe(3) if ret in FLTS else self.ie(4)};')
        f = {'name': f'f{k}@', 'par': par, 'ret': ret, 'cost': 30 + self.cost, 'body': body}; self.fns.append(f); return f
    def logs(self, out, seq):
        r = self.r; c = r.randrange(4)
        if c == 0: out.append(f'LOGD(%I, {self.fe(3)});')
        elif c == 1 and self.structs:
            s = r.choice(self.structs)
            for m, t in STRUCTS[s[1]]: out.append(f'LOGD(%I, {s[0]}.{m});' if t in FLTS else f'LOG(%I, {s[0]}.{m});')
        else: out.append(f'LOG(%I, {self.ie(r.randrange(2, 6))});')
    def thread(self, nst=8, arg='sim_self()'):
        self.begin(); out = [f'int me = {arg};']; self.vars.append(('me', 'i')); r = self.r
        for _ in range(r.randrange(3, nst + 1)):
            if self.cost > 1500: break
            self.stmt(2, out)
            if r.random() < .6: self.logs(out, 0)
        self.logs(out, 0)
        for v in self.vars: out.append(f'LOGD(%I, {v[0]});' if v[1] == 'f' else f'LOG(%I, {v[0]});')
        return out
def text(body, ind=1, seq=None):
    def num(s):
        while '%I' in s: s = s.replace('%I', str(seq[0]), 1); seq[0] += 1
        return s
    o = ''
    for s in body:
        if isinstance(s, str): o += '  ' * ind + num(s) + '\n'
        else: o += '  ' * ind + num(s[0]) + '\n' + text(s[1], ind + 1, seq) + '  ' * ind + num(s[2]) + '\n'
    return o
def funcs(fns): return ''.join(f'static {f["ret"]} {f["name"]}({", ".join(f"{t} p{i}" for i, t in enumerate(f["par"])) or "void"}) {{\n{text(f["body"])}}}\n' for f in fns)
def cuts(body):
    """smaller variants of a body"""
    for i in range(len(body)):
        yield body[:i] + body[i + 1:]
    for i, s in enumerate(body):
        if not isinstance(s, str):
            yield body[:i] + s[1] + body[i + 1:]
            for b in cuts(s[1]): yield body[:i] + [[s[0], b, s[2]]] + body[i + 1:]
