"""C19 volatile objects, on a simulated device page."""
import copy, re
from checks.simb import *
from lib import snip
DEV = 0x20000000
ITY = [('char', 1), ('signed char', 1), ('unsigned char', 1), ('short', 2), ('unsigned short', 2), ('int', 4), ('int', 4), ('int', 4), ('unsigned', 4), ('long', 8), ('long', 8), ('unsigned long', 8), ('_Bool', 1), ('enum E@', 4)]
VST = 'struct VS@ { volatile char c; volatile int i; volatile long l; volatile short a[4]; volatile double d; int n; }; struct NS@ { int a; short b; unsigned char c[6]; long l; float f; const int ro; const short cs[2]; struct { int u; const unsigned char w; }; int m[2][2]; }; struct OU@ { int x; volatile struct NS@ in; struct VS@ v; }; union VU@ { volatile int i; volatile char c[4]; }; typedef volatile int vint@; typedef int arr@[4]; typedef volatile short varr@[3]; typedef volatile arr@ tarr@; typedef volatile struct NS@ nsa@[2]; typedef const vint@ cvint@; struct DS@ { volatile int i; int n; volatile short a[4]; volatile long l; volatile unsigned char c; };\n'
WATCH = '''static void *idv@(void *p) { return p; }
#define id@(p) ((__typeof__(p))idv@((void *)(p)))
void sim_watch(const volatile void *, int, int, int, int); void sim_unwatch(int);
static long vpar@(volatile int a, long n, volatile short b) { sim_watch(&a, 4, 1, 'i', 90); sim_watch(&b, 2, 1, 'i', 91); a += n; if (b) a = b; a; return a & 0xffff; }
static long vloc@(long n) { volatile long s = n; volatile unsigned char q[4] = { 1 }; sim_watch(&s, 8, 1, 'i', 92); sim_watch(q, 1, 4, 'i', 93); for (int i = 0; i < 3; i++) { s += i; q[i] = s; s; } return q[n & 3] + (s & 255); }
static long vrec@(int n, volatile int *p) { volatile int w = 2; sim_watch(&w, 4, 1, 'i', 94 + n); w; if (n > 0) w = vrec@(n - 1, &w) + *p; return w & 4095; }
'''
class C19(SimB):
    id = 'C19'; level = 'exploration'; quick_cases = 1400; thorough_cases = 60000; runs_quick = 4; runs_thorough = 10; oracle = ('ref', 'dev'); always_nt = True
    technique = SimB.technique + 'volatile objects live on a simulated device page where every access faults, is decoded and recorded and where each read delivers a fresh seeded value; the sequence of accesses (direction, address, width, value written) and all results must equal those of the same text compiled by gcc on the same device; automatic volatile objects (locals, parameters, arrays, structures, compound literals in recursive functions) are watched instead: every instruction is decoded before it executes and an access to one is recorded and delivers a fresh value in the same way'
    note = 'unsequenced accesses, bit-fields and whole-structure copies are not generated; the reference is gcc -O0'
    rule = 'non-trivial: at least one device access; distinct: hash of (program, device values)'
    stub = STUB + ['the device behind the volatile objects']
    def spec(self, r, i, tier):
        # layout: (offset, type, size, kind)
        link = r.choice(['static'] * 5 + ['dyn', 'pie', 'shared']); objs = []; off = 64
        for k in range(r.randrange(2, 6)):
            if r.random() < .75: t, n = r.choice(ITY); kind = 'b' if t == '_Bool' else 's' if t[0] == 'e' else 'i'
            else: t, n, kind = r.choice([('double', 8, 'd'), ('float', 4, 'f')])
            how = r.choice(['macro', 'macro', 'sym', 'ptr', 'cptr', 'arr', 'typedef'] if link == 'static' and kind != 'x' else ['macro', 'ptr', 'cptr', 'arr'])
            if how == 'typedef' and t != 'int': how = 'sym'
            if link == 'static' and r.random() < .3: how = r.choice(['def', 'defarr'])
            if r.random() < .2 and kind in 'idf': how = r.choice(['auto', 'auto', 'autoarr', 'autoc'])
            if how == 'defarr' and kind == 's': how = 'def'
            objs.append({'k': k, 'off': off, 't': t, 'n': n, 'kind': kind, 'how': how, 'len': 4 if how in ('arr', 'defarr', 'autoarr') else 1}); off += n * (4 if how in ('arr', 'defarr', 'autoarr') else 1); self.defq(r, objs[-1]) if how[:3] == 'def' else 0; off = (off + 15) // 16 * 16 + 16
        for st in r.sample(['VS', 'NS', 'OU', 'VU', 'PTR', 'TA', 'TB', 'SA', 'DS'] + ['DS'] * (link == 'static'), r.randrange(0, 3)):
            objs.append({'k': len(objs), 'st': st, 'off': off, 'how': r.choice(['sym', 'macro', 'ptr'] if link == 'static' else ['macro', 'ptr'])}); off += 128
            if st in ('VS', 'NS') and r.random() < .3: objs[-1]['how'] = 'auto'
            if st == 'DS' and link == 'static': objs[-1]['how'] = 'def'; self.defq(r, objs[-1])
        s = {'objs': objs, 'link': link, 'opts': r.choice(OPTS)[:]}
        self.s = s; self.r = r; self.uid = 0
        s['fns'] = []
        s['body'] = [x for _ in range(r.randrange(3, 14)) for x in [self.stmt(2)]]
        return s
    def defq(self, r, o): # an object the program defines itself, placed on the device by the linker
        o['q'] = r.choice(['static const', 'static const', 'static', 'const', '']); o['local'] = o['q'][:6] == 'static' and r.random() < .4; o['ini'] = r.choice(['', '{ 3 }', '{ 1 }', '{ 0 }', '{ 1, 0 }'[:5] + ' }'])
        if 'const' in o['q'] and not o['ini']: o['ini'] = '{ 1 }'
    def lv(self):
        """volatile lvalues: (expression, type, kind, writable)"""
        out = []
        for o in self.s['objs']:
            k = o['k']
            if 'st' in o:
                b = f'S{k}@'
                if o['st'] == 'VS': out += [(f'{b}.c', 'char', 'i', 1), (f'{b}.i', 'int', 'i', 1), (f'{b}.l', 'long', 'i', 1), (f'{b}.a[2]', 'short', 'i', 1), (f'{b}.a[ix & 3]', 'short', 'i', 1), (f'{b}.d', 'double', 'd', 1)]
                elif o['st'] == 'DS': w = 0 if 'const' in o.get('q', '') else 1; out += [(f'{b}.i', 'int', 'i', w), (f'{b}.a[1]', 'short', 'i', w), (f'{b}.a[ix & 3]', 'short', 'i', w), (f'{b}.l', 'long', 'i', w), (f'{b}.c', 'unsigned char', 'i', w), (f'(&{b})->i', 'int', 'i', w)]
                elif o['st'] == 'NS': out += [(f'{b}.a', 'int', 'i', 1), (f'{b}.b', 'short', 'i', 1), (f'{b}.c[3]', 'unsigned char', 'i', 1), (f'{b}.l', 'long', 'i', 1), (f'{b}.f', 'float', 'f', 1), (f'{b}.c[ix & 3]', 'unsigned char', 'i', 1), (f'{b}.ro', 'int', 'i', 0), (f'{b}.cs[1]', 'short', 'i', 0), (f'{b}.cs[ix & 1]', 'short', 'i', 0), (f'{b}.u', 'int', 'i', 1), (f'{b}.w', 'unsigned char', 'i', 0), (f'(&{b})->ro', 'int', 'i', 0), (f'{b}.m[1][1]', 'int', 'i', 1), (f'{b}.m[ix & 1][1]', 'int', 'i', 1), (f'(*({b}.m + 1))[0]', 'int', 'i', 1), (f'*(*({b}.m + 1) + 1)', 'int', 'i', 1)]
                elif o['st'] == 'SA': out += [(f'{b}[1].a', 'int', 'i', 1), (f'{b}->u', 'int', 'i', 1), (f'{b}[ix & 1].ro', 'int', 'i', 0), (f'({b} + 1)->c[2]', 'unsigned char', 'i', 1), (f'(*({b} + 1)).m[1][0]', 'int', 'i', 1), (f'({b} + 1)->w', 'unsigned char', 'i', 0), (f'{b}->m[1][ix & 1]', 'int', 'i', 1), (f'{b}[1].cs[0]', 'short', 'i', 0), (f'{b}[1].l', 'long', 'i', 1)]
                elif o['st'] == 'TB': out += [(f'{b}[2]', 'int', 'i', 1), (f'{b}[ix & 3]', 'int', 'i', 1)]
                elif o['st'] == 'OU': out += [(f'{b}.in.a', 'int', 'i', 1), (f'{b}.in.l', 'long', 'i', 1), (f'{b}.v.i', 'int', 'i', 1), (f'{b}.in.c[1]', 'unsigned char', 'i', 1), (f'{b}.in.ro', 'int', 'i', 0), (f'{b}.in.w', 'unsigned char', 'i', 0)]
                elif o['st'] == 'VU': out += [(f'{b}.i', 'int', 'i', 1), (f'{b}.c[1]', 'char', 'i', 1)]
                elif o['st'] == 'PTR': out += [(f'*{b}', 'int', 'i', 2), (f'{b}[0]', 'int', 'i', 2)]
                elif o['st'] == 'TA': out += [(f'{b}[2]', 'short', 'i', 1), (f'{b}[ix % 3]', 'short', 'i', 1)]
                continue
            n = f'V{k}@'; w = 0 if 'const' in o.get('q', '') else 1
            if o['how'] in ('arr', 'defarr', 'autoarr'): out += [(f'{n}[1]', o['t'], o['kind'], w), (f'{n}[ix & 3]', o['t'], o['kind'], w), (f'*{n}', o['t'], o['kind'], w)]
            elif o['how'] == 'ptr': out += [(f'*{n}', o['t'], o['kind'], w), (f'{n}[0]', o['t'], o['kind'], w)]
            elif o['how'] == 'autoc': out.append((n, o['t'], o['kind'], 0))
            elif o['how'] == 'cptr': out.append((f'*{n}', o['t'], o['kind'], 0))
            else: out.append((n, o['t'], o['kind'], w))
        q = lambda v, w: (v, 0 if ' ? ' in v and w != 2 else w) # whether the value of an assignment is read back is unspecified, and gcc does for ?:
        return [(lambda a: (a[0], t, k, a[1]))(q(self.wrap(v, t), w)) if self.r.random() < .15 and v[0] in '*VS' else (f'(*(const volatile {t} *)&{v})', t, k, 0) if self.r.random() < .02 else (v, t, k, w) for v, t, k, w in out]
    def wrap(self, v, t): # the same lvalue, written differently
        g = re.match(r'(.*)\[([^][]*)\]$', v)
        if g and self.r.random() < .6:
            a, i = g.groups(); F = [f'({i})[{a}]', f'(&{a}[0])[{i}]']
            if a[-1] != ']': F += [f'(*({a} + ({i})))', f'(*(({i}) + {a}))', f'(*&{a})[{i}]', f'(*(({{ {a}; }}) + ({i})))', f'(0, {a})[{i}]', f'(*({{ __auto_type q_ = {a}; q_ + ({i}); }}))', f'(*({{ __typeof__(&{a}[0]) q_ = {a}; q_ + ({i}); }}))', f'_Generic(0, int: {a})[{i}]', f'(x ? {a} : {a})[{i}]', f'((c | 1) ? {a} : 0)[{i}]'] # gcc drops the qualifier of rows in these
            return self.r.choice(F)
        return self.r.choice([f'(*&{v})', f'(&{v})[0]', f'0[&{v}]', f'(*(x, &{v}))', f'(*({{ &{v}; }}))', f'(*(y ? &{v} : &{v}))', f'_Generic(0, int: {v})', f'(*(volatile {t} *)(void *)&{v})', f'(*(__typeof__({v}) *)&{v})', f'(*({t} volatile *)((char *)&{v} + 0))', f'(*id@(&{v}))', f'(*(volatile {t} *)((long)&{v}))'])
    def e(self, d): # without volatile accesses
        r = self.r
        if d <= 0 or r.random() < .3: return r.choice(['x', 'y', 'z', 'c', 'u', str(r.randrange(-3, 200)), '7L', 'ix'])
        return r.choice([f'({self.e(d - 1)} {r.choice("+-*&|^")} {self.e(d - 1)})', f'({self.e(d - 1)} {r.choice(["<", "==", ">="])} {self.e(d - 1)})', f'f@({self.e(d - 1)}, {self.e(d - 1)})', f'(int)({self.e(d - 1)})', f'({self.e(d - 1)} ? {self.e(d - 1)} : 5)'])
    def ve(self, d, fl=False):
        """an integer expression with accesses that are sequenced or just one"""
        r = self.r; L = self.lv(); v, t, k, w = r.choice(L)
        if k in 'df':
            v = f'clamp@({v})'
            if t != 'x' and r.random() < .3: return f'({r.choice(L)[0]} < 3)'
        if d <= 0: return v
        c = r.randrange(24); a = self.ve(d - 1); e = self.e(2)
        if c < 3: return a
        if c == 3: return f'({a} {r.choice("+-*&|^")} {e})'
        if c == 4: return f'({e} {r.choice("+-*&|^")} {a})'
        if c == 5: return f'({a} {r.choice(["<", "<=", "==", "!=", ">"])} {e})'
        if c == 6: return f'({r.choice(["-", "~", "!"])}({a}))'
        if c == 7: return f'(({r.choice(["char", "unsigned char", "short", "int", "unsigned", "long", "_Bool", "unsigned short"])})({a}))'
        if c == 8: return f'({a} && {self.ve(d - 1)})'
        if c == 9: return f'({a} || {self.ve(d - 1)})'
        if c == 10: return f'({a} ? {self.ve(d - 1)} : {self.ve(d - 2)})'
        if c == 11: return f'({a}, {self.ve(d - 1)})'
        if c == 12: return f'f@({a}, {e})'
        if c == 13: return f'f@({e}, {a})'
        if c == 14: return f'tab[{a} & 3]'
        if c == 15: return f'(unsigned)({a}) {r.choice(["<<", ">>"])} {r.randrange(0, 9)}'.join('()')
        if c == 16: return f'({a} {r.choice(["/", "%"])} {r.choice([1, 2, 3, 8, 10, 64])})'
        if c == 17:
            v, t, k, w = r.choice(L) # no assignment to a local variable the rest of the expression may read
            return '({ ' + (f'{v} = {self.e(1)};' if w and r.random() < .6 else f'{v};') + f' {self.ve(d - 1)}; }})'
        if c == 18: return f'({a} ?: {e})'
        if c == 19 and w and k == 'i' and v[0] != 'c': return r.choice([f'({v})++', f'--({v})', f'(({v}) += {e})', f'(({v}) = {e})' if 0 else f'(({v}) ^= {e})']).join('()')
        if c == 20: return f'rd@({a})'
        if c == 21: return f'({r.choice(["0", "1"])} {r.choice(["&&", "||"])} {a})'
        if c == 22: return f'({a} {r.choice(["* 0", "& 0", "* 1", "+ 0", "| -1", "& 1", "& 255", "& 0x80", "* 8", "- 1", "% 2", "& 65535", "^ 0", "<< 0"])})'
        return f'((long){a} {r.choice(["+", "-", "*"])} {e})'
    def simple(self, d):
        r = self.r; L = self.lv(); W = [x for x in L if x[3]]; v, t, k, w = r.choice(L); c = r.randrange(26)
        if c == 0: return f'{v};'
        if c == 1: return f'(void)({v});'
        if c == 2: T = r.choice(['int', 'unsigned', 'long', 'unsigned long', 'short', 'char', 'unsigned char', '_Bool', 'double', 'long long']); return r.choice([f'({T})({v});', f'(void)({T})({v});', f'({v}, 3);', f'x = ({v}, 3);', f'x = ({v}, 3) + 1;', f'if (({v}, 0)) x++;', f'({v}, 1) ? x++ : y++;', f'switch (({v}, 2)) {{ case 2: y++; }}', f'x = ({T})({v}, 7);', f'y += (0, {v}, 2) * 4;', f'while (({v}, 0)) ;', f'{{ int q[2] = {{ ({v}, 1), 2 }}; z ^= q[0]; }}']) if r.random() < .4 else r.choice([f'{v} + 1;', f'!{v};', f'-({v});', f'({v}, x);', f'(x, {v});', f'x ? {v} : 0;', f'x && {v};', f'{v} || x;', f'({{ {v}; }});', f'&{v};', f'(void)sizeof({v});', f'(char)({v});', f'{v} == 3;', f'(void)&{v};', f'{v} && {v};', f'*&{v};', f'+({v});', f'{v} * {v} == 2 ? 0 : 0;' if 0 else f'(long)({v});', f'x ? {v} : {v};', f'({v} ? x : y);'])
        if c < 7: return f'x = {self.ve(d)};'
        if c == 7: return f'{r.choice("xyzcu")} {r.choice(["+=", "-=", "^=", "|="])} {self.ve(d)};'
        if W:
            v, t, k, w = r.choice(W)
            if w == 2 and c in (12, 13, 19): c = 8 # two accesses on the left
            if c < 11: return f'{v} = {self.e(2)};' if k != 'd' else f'{v} = x * 0.5;'
            if c == 11: return f'{v} = {r.randrange(-5, 300)};'
            if c == 12: # copy between volatile objects
                v2, t2, k2, w2 = r.choice(L)
                if (k in 'df') or k2 not in 'df': return f'{v} = {v2};' if 'ix' not in v else f'{v} = {v2};'
            if c == 13: v2, t2, k2, w2 = r.choice(L); return f'{v} = {"(char)" if k not in "df" and k2 not in "df" else "(float)"}({v2});' if k in 'df' or k2 not in 'df' else ';'
            if c in (14, 15) and k in 'i': return f'{v} {r.choice(["+=", "-=", "^=", "|=", "&=", "*="])} {r.choice([self.e(2), str(r.randrange(0, 70)), "1", "0", "-1", "(char)x", "8", "0xff"])};'
            if c == 16 and k == 'i': return f'{v} {r.choice(["<<= 1", ">>= 2", "/= 3", "%= 8", "/= 4", "%= 5", "<<= 3", "*= 4"])};'
            if c == 17 and k == 'i': return r.choice([f'({v})++;', f'++({v});', f'({v})--;', f'x = ({v})++;', f'x = --({v});', f'x = ({v} += 2);', f'x = ({v} -= y);'])
            if c == 18: return r.choice([f'x = ({v} = {self.e(1)});', f'if ({v} = 3) x++;', f'y = ({v} = 9) + 1;']) if k == 'i' else ';'
            if c == 19 and k == 'i': return r.choice([f'{v} = {v} + 1;', f'{v} = -{v};', f'{v} = ~{v};', f'{v} = !{v};', f'{v} = {v} ? 4 : y;', f'{v} = {v};', f'{v} = ({v} & 15) | 64;', f'{v} = {v} << 2;', f'{v} = {v} - x;'])
            if c == 20 and k in 'df': return r.choice([f'{v} += 1.5;', f'{v} = {v} * 0.5;', f'g = {v};', f'g = {v} + g * 0.25;', f'{v} = 2;', f'{v} = g > 1e5 || g < -1e5 ? 1 : g;', f'g += {v};', f'-{v};', f'{v} = 0;', f'g = {v} ? 1 : 2;'])
            if c == 21: return f'wr@(&y, {self.ve(1)});'
            if c == 22 and t == 'int': return r.choice([f'x = rdp@(&{v});', f'wrp@(&{v}, {self.e(1)});', f'incp@(&{v});', f'x = rdc@(&{v});', f'x = rda@(&{v}, 3);', f'x = rdb@(3, &{v});', f'x = rdv@(&{v});', f'x = rdcv@(&{v});', f'x = rdm@((void *)&{v});', f'*(cvint@ *)&{v};', f'x = *(const vint@ *)&{v} & 255;', f'(unsigned)*(cvint@ *)&{v};'])
            if c == 23: return f'__asm__ volatile("" : : "r"({v}));' if k == 'i' else ';'
            if c == 25:
                T, K, Z = r.choice([('int', 'i', 4), ('short', 'i', 2), ('long', 'i', 8), ('unsigned char', 'i', 1), ('float', 'f', 4), ('double', 'd', 8)]); self.uid += 1; q = f'q{self.uid}'; S = 40 + self.uid % 40; E = lambda: self.e(1)
                body = ' '.join(r.choice([f'{q} = {E()};', f'{q};', f'x = (int){q} & 7;' if K == 'i' else f'g = {q} > 0;', f'{q} += 2;', f'(void){q};', f'if ({q} > 3) y++;', f'z = ({q}, 1);', f'{q}++;', f'{q} = {q};', f'x = {q} ? 3 : y;', f'({q} = 3);', f'y = -({q} > 1);']) for _ in range(r.randrange(1, 4)))
                return r.choice([f'{{ volatile {T} {q} = {E()}; sim_watch(&{q}, {Z}, 1, \'{K}\', {S}); {body} sim_unwatch({S}); }}'] * 3 + [f'x = vpar@({E()}, {E()}, {E()});', f'y = vloc@({E()});', f'z = vrec@({r.randrange(3)}, &(volatile int){{ 3 }});'])
            if c == 24: return r.choice([f'{{ int q[2] = {{ {self.ve(1)}, 3 }}; y ^= q[0]; }}', f'{{ long q = {self.ve(1)}; z += q; }}', f'{{ struct N2@ q = {{ .b = {self.ve(1)} }}; z ^= q.b; }}'])
        return f'LOG(%I, {self.ve(d)});'
    def stmt(self, d):
        r = self.r; c = r.randrange(16); self.uid += 1; u = self.uid
        if d > 0:
            if c == 0: return [f'if ({self.ve(2)}) {{', [self.stmt(d - 1)], f'}} else {{ {self.simple(1)} }}']
            if c == 1: return [f'for (int i{u} = 0; i{u} < 3; i{u}++) {{', [self.stmt(d - 1)], '}']
            if c == 2: return [f'{{ int k{u} = 0; while (k{u}++ < 3 && {self.ve(1)}) {{', [self.stmt(d - 1)], '} }']
            if c == 3: return [f'switch ((int)({self.ve(2)}) & 3) {{ case 0:', [self.stmt(d - 1)], f'case 2: {self.simple(1)} break; default: {self.simple(1)} }}']
            if c == 4: return f'{{ int k{u} = 0; do {self.simple(1)} while (k{u}++ < 4 && {self.ve(1)}); }}'
            if c == 5: return f'{{ int k{u} = 0; while ({self.ve(1)} & 1) if (++k{u} > 9) break; z += k{u}; }}'
            if c == 6: return f'LOG(%I, {self.ve(3)});'
        return self.simple(2)
    def text(self, s, ref):
        o = snip.PRE + 'enum E@ { EA@, EB@ = 5, EC@ = -3 };\n' + VST + 'struct N2@ { char a; int b; };\nstatic int clamp@(double d) { return d > -30000 && d < 30000 ? (int)d : 9; } static long f@(long a, long b) { return a * 3 - b; } static int rd@(int a) { return a + 1; } static void wr@(long *p, long v) { *p = v; }\nstatic int rdp@(volatile int *p) { return *p; } static void wrp@(volatile int *p, int v) { *p = v; } static void incp@(volatile int *p) { (*p)++; *p += 2; } static int rdc@(const volatile int *p) { *p; return p[0] & 7; } static int rda@(volatile int a[4], int k) { a[0]; return a[0] + k; } static int rdb@(int k, const volatile int a[]) { *a; return *a + k; } static int rdv@(vint@ *p) { return (unsigned)*p; } static int rdcv@(cvint@ *p) { *p; return *p; } static int rdm@(volatile int a[2][2]) { a[0][0]; return a[0][0] ? 1 : 2; }\n'
        o += WATCH; inner = ''
        for b in s['objs']:
            k = b['k']; A = hex(DEV + b['off'])
            if 'st' in b:
                t = {'VS': 'struct VS@', 'NS': 'volatile struct NS@', 'OU': 'struct OU@', 'VU': 'union VU@', 'PTR': 'volatile int *volatile', 'TA': 'varr@', 'TB': 'tarr@', 'SA': 'nsa@', 'DS': 'struct DS@'}[b['st']]; n = f'S{k}@'
            else: t = 'volatile ' + b['t']; n = f'V{k}@'
            if b['how'] == 'macro': o += f'#define {n} (*({t} *){A})\n' if not t.startswith('volatile int *') else f'#define {n} (*({t} *){A})\n'
            elif b['how'][:4] == 'auto':
                if 'st' in b:
                    M = [('c', 1, 1, 'i'), ('i', 4, 1, 'i'), ('l', 8, 1, 'i'), ('a', 2, 4, 'i'), ('d', 8, 1, 'd')] if b['st'] == 'VS' else [('a', 4, 1, 'i'), ('b', 2, 1, 'i'), ('c', 1, 6, 'i'), ('l', 8, 1, 'i'), ('f', 4, 1, 'f'), ('ro', 4, 1, 'i'), ('cs', 2, 2, 'i'), ('w', 1, 1, 'i'), ('m', 4, 4, 'i')]
                    inner += f'  {t} {n} = {{ 2 }};' + ''.join(f" sim_watch(&{n}.{m}, {z}, {c}, '{q}', {100 + k * 10 + j});" for j, (m, z, c, q) in enumerate(M)) + '\n'; continue
                a = '[4]' if b['how'] == 'autoarr' else ''
                inner += f'  {"const " if b["how"] == "autoc" else ""}{t} {n}{a} = {{ 2 }}; sim_watch({"" if a else "&"}{n}, sizeof(' + b['t'] + f'), {b["len"]}, \'{b["kind"]}\', {k + 1});\n'
            elif b['how'][:3] == 'def':
                a = '[4]' if b['how'] == 'defarr' else ''
                if ref: o += f'extern {"const " if "const" in b["q"] else ""}{t} {n}{a};\n'
                else:
                    ini = ' = ' + b['ini'] if b['ini'] else ''
                    x = f'{b["q"]} {t} {n}{a} __attribute__((section(".dev{k}"), used)){ini};\n'
                    if b['local']: inner += '  ' + x
                    else: o += x
            elif b['how'] == 'typedef': o += f'extern vint@ {n};\n'
            elif b['how'] == 'sym': o += f'extern {t} {n};\n' if not t.endswith('volatile') else f'extern {t} {n};\n'
            elif 'st' in b: inner += f'  {t} *sp{k} = ({t} *){A};\n'; o += f'#define {n} (*sp{k})\n'
            elif b['how'] == 'ptr': inner += f'  {t} *{n} = ({t} *){A};\n'
            elif b['how'] == 'cptr': inner += f'  const {t} *{n} = (const {t} *){A};\n'
            elif b['how'] == 'arr': inner += f'  {t} *const {n} = ({t} *){A};\n' if k % 2 else ''; o += f'#define {n} ((*({t} (*)[4]){A}))\n' if k % 2 == 0 else ''
        seq = [1]
        o += 'void t0@(void) {\n  long x = 3, y = -2, z = 100; unsigned char c = 9; unsigned u = 77; int ix = 2; double g = 1.5; int tab[4] = { 4, 3, 2, 1 };\n' + inner + snip.text(s['body'], 1, seq) + '  LOG(0, x); LOG(0, y); LOG(0, z); LOG(0, c); LOG(0, u); LOGD(0, g);\n}\n'
        return o.replace('@', 'r_' if ref else 'p_')
    def render(self, s):
        m = '#include "rt.h"\n' + self.text(s, True) + 'void t0p_(void);\nint sim_pool = 2; void prog_threads(void) { sim_spawn(t0p_); }\nvoid (*ref_thr[])(void) = { t0r_, 0 };\nstruct dev_obj { long off; int n; char k; } dev_objs[] = {\n'
        rows = []
        for b in s['objs']:
            o = b['off']
            if 'st' not in b:
                for j in range(b['len']): rows.append((o + j * b['n'], b['n'], b['kind']))
            elif b['st'] == 'VS': rows += self.vs(o)
            elif b['st'] == 'NS': rows += self.ns(o)
            elif b['st'] == 'OU': rows += self.ns(o + 8) + self.vs(o + 72)
            elif b['st'] == 'DS': rows += [(o, 4, 'i')] + [(o + 8 + 2 * j, 2, 'i') for j in range(4)] + [(o + 16, 8, 'i'), (o + 24, 1, 'i')]
            elif b['st'] == 'SA': rows += self.ns(o) + self.ns(o + 64)
            elif b['st'] == 'VU': rows += []
            elif b['st'] == 'PTR': rows += [(o, 8, 'p')]
        m += ', '.join(f"{{ {a}, {n}, '{k}' }}" for a, n, k in rows or [(0, 4, 'i')]) + f' }}; int dev_nobj = {len(rows)};\n'
        for b in s['objs']:
            if b['how'] in ('sym', 'typedef') or b['how'][:3] == 'def':
                for q in ('p_', 'r_') if b['how'][:3] != 'def' else ('r_',): n = ('S' if 'st' in b else 'V') + str(b['k']) + q; m += f'__asm__(".globl {n}\\n.set {n}, {DEV + b["off"]}");\n'
        ld = tuple(f'-Wl,--section-start=.dev{b["k"]}={hex(DEV + b["off"])}' for b in s['objs'] if b['how'][:3] == 'def')
        if ld: m += 'char devz[64] __attribute__((section(".devz"), used)) = { 1 };\n'; ld += (f'-Wl,--section-start=.devz={hex(DEV + 0x10000)}',) # keeps the program break clear of the device
        return {'src': self.text(s, False), 'model': m, 'opts': s['opts'], 'link': s['link'], 'extra': ld}
    def vs(self, o): return [(o, 1, 'i'), (o + 4, 4, 'i'), (o + 8, 8, 'i'), (o + 16, 2, 'i'), (o + 18, 2, 'i'), (o + 20, 2, 'i'), (o + 22, 2, 'i'), (o + 24, 8, 'd')]
    def ns(self, o): return [(o, 4, 'i'), (o + 4, 2, 'i')] + [(o + 6 + j, 1, 'i') for j in range(6)] + [(o + 16, 8, 'i'), (o + 24, 4, 'f'), (o + 28, 4, 'i'), (o + 32, 2, 'i'), (o + 34, 2, 'i'), (o + 36, 4, 'i'), (o + 40, 1, 'i')] + [(o + 44 + 4 * j, 4, 'i') for j in range(4)]
    def shrink_spec(self, s):
        for b in snip.cuts(s['body']): yield dict(s, body=b)
        for i in range(len(s['objs'])):
            n = ('S' if 'st' in s['objs'][i] else 'V') + str(s['objs'][i]['k']) + '@'
            if n not in repr(s['body']): yield dict(s, objs=s['objs'][:i] + s['objs'][i + 1:])
        if s['link'] == 'shared': yield dict(s, link='pie')
        if s['opts']: yield dict(s, opts=[])
