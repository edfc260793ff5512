"""C14 indivisible atomic operations, C15 sequential consistency across objects."""
import copy
from checks.simb import *
# name, C type, kind, size
TYPES = [('char', 'i', 1), ('signed char', 'i', 1), ('unsigned char', 'u', 1), ('short', 'i', 2), ('unsigned short', 'u', 2), ('int', 'i', 4), ('unsigned', 'u', 4), ('long', 'i', 8), ('unsigned long', 'u', 8),
         ('long long', 'i', 8), ('unsigned long long', 'u', 8), ('_Bool', 'b', 1), ('enum E', 'i', 4), ('enum U', 'u', 4), ('float', 'f', 4), ('double', 'd', 8), ('int *', 'p', 8), ('char *', 'p', 8), ('struct Q *', 'p', 8)]
TD = {'char': 'atomic_char', 'signed char': 'atomic_schar', 'unsigned char': 'atomic_uchar', 'short': 'atomic_short', 'unsigned short': 'atomic_ushort', 'int': 'atomic_int', 'unsigned': 'atomic_uint', 'long': 'atomic_long',
      'unsigned long': 'atomic_ulong', 'long long': 'atomic_llong', 'unsigned long long': 'atomic_ullong', '_Bool': 'atomic_bool'}
COMMON = '''
typedef unsigned long ul;
enum E { EN = -7, E0 = 0, E1, E2 = 300000 }; enum U { U0 = 0, U1, U2 = 3000000000u }; struct Q { char c[12]; };
long sim_bits(const void *, int); void sim_res(int, long);
#define RI(e) ((long)(e))
#define RF(e) ({ float f_ = (e); sim_bits(&f_, 4); })
#define RD(e) ({ double d_ = (e); sim_bits(&d_, 8); })
#define RP(e) ((long)((char *)(e) - (char *)BASE))
'''
PROG = '#include "sim.h"\n#include <stdatomic.h>\n' + COMMON + 'char BASE[4096];\n'
MODEL = '''#include "rt.h"
#include <stdio.h>
#include <string.h>
''' + COMMON + '''static char BASE[4096];
#define atomic_load(p) (*(p))
#define atomic_store(p, v) (*(p) = (v))
#define atomic_exchange(p, v) ({ __auto_type mp_ = (p); __typeof__(*mp_) mo_ = *mp_; *mp_ = (v); mo_; })
#define fop_(p, op, v) ({ __auto_type mp_ = (p); __typeof__(*mp_) mo_ = *mp_; *mp_ = mo_ op (v); mo_; })
#define atomic_fetch_add(p, v) fop_(p, +, v)
#define atomic_fetch_sub(p, v) fop_(p, -, v)
#define atomic_fetch_or(p, v) fop_(p, |, v)
#define atomic_fetch_xor(p, v) fop_(p, ^, v)
#define atomic_fetch_and(p, v) fop_(p, &, v)
#define atomic_compare_exchange_strong(p, e, v) ({ __auto_type mp_ = (p); __auto_type me_ = (e); __typeof__(*mp_) mn_ = (v); _Bool mk_ = *mp_ == *me_; if (mk_) *mp_ = mn_; else *me_ = *mp_; mk_; })
#define atomic_compare_exchange_weak atomic_compare_exchange_strong
#define atomic_load_explicit(p, o) (*(p))
#define atomic_store_explicit(p, v, o) (*(p) = (v))
#define atomic_exchange_explicit(p, v, o) atomic_exchange(p, v)
#define atomic_fetch_add_explicit(p, v, o) fop_(p, +, v)
#define atomic_fetch_sub_explicit(p, v, o) fop_(p, -, v)
#define atomic_fetch_or_explicit(p, v, o) fop_(p, |, v)
#define atomic_fetch_xor_explicit(p, v, o) fop_(p, ^, v)
#define atomic_fetch_and_explicit(p, v, o) fop_(p, &, v)
#define atomic_compare_exchange_strong_explicit(p, e, v, a, b) atomic_compare_exchange_strong(p, e, v)
#define atomic_compare_exchange_weak_explicit(p, e, v, a, b) atomic_compare_exchange_strong(p, e, v)
#define atomic_flag_test_and_set(p) atomic_exchange(p, 1)
#define atomic_flag_clear(p) ((void)(*(p) = 0))
#define atomic_flag_test_and_set_explicit(p, o) atomic_exchange(p, 1)
#define atomic_flag_clear_explicit(p, o) ((void)(*(p) = 0))
#define memory_order_seq_cst 0
#define memory_order_relaxed 0
#define memory_order_acquire 0
#define memory_order_release 0
#define memory_order_acq_rel 0
#define memory_order_consume 0
'''
RW = {'i': 'RI', 'u': 'RI', 'b': 'RI', 'f': 'RF', 'd': 'RD', 'p': 'RP'}
def ival(r, ty, k, sz, fl=False):
    if k == 'b': return r.choice(['0', '1'])
    if k in 'fd': return r.choice(['0', '1.5', '2', '0.25', '3.75', '100'])
    if k == 'p': return f'({ty})(BASE + {r.choice([480, 960, 1440])})'
    if ty == 'enum E': return r.choice(['E0', 'E1', 'E2'] if fl else ['EN', 'E0', 'E1', 'E2'])
    if ty == 'enum U': return r.choice(['U0', 'U1'] + ([] if fl else ['U2']))
    v = [0, 1, 2, 5, 100]
    if not fl:
        if k == 'i': v += [-1, -3, 127, -128] + ([32767, -32768, 4660] if sz > 1 else []) + ([1000000, -70000, 65536] if sz > 2 else []) + ([1 << 33, -(1 << 40) + 5] if sz > 4 else [])
        else: v += [200, 255] + ([65535, 40000] if sz > 1 else []) + ([4294967295, 3000000000] if sz > 2 else []) + ([18446744073709551615, 1 << 63] if sz > 4 else [])
    x = r.choice(v)
    return f'{x}ul' if x > 0x7fffffffffffffff else f'{x}l' if abs(x) > 0x7fffffff else str(x)
def rhs(r, k, sz, fl):
    """right operand: constants and expressions of other types"""
    if k == 'p': return r.choice(['1', '2', '1l', '(short)3', '(unsigned char)1'])
    if fl or k in 'fd': return r.choice(['1', '2', '1.5', '0.5f', '2.25', '1l', '(short)2', "(char)3", '1u'])
    return r.choice(['1', '3', '2u', "'c'", '7l', '70000', '0x1234', '-2', '(short)-5', '(unsigned char)250', '(signed char)-1', '5ul', '0xfff0fL', '(_Bool)3', '1ll << 33', 'E1', 'U1'])
def gen_op(r, ty, k, sz, fl, sc=False):
    """text using L (lvalue) and A (address) -> result expression of type long"""
    R = RW[k]; a = r.random()
    so = '' if r.random() < .5 else '_explicit'
    def ord(*c): return '' if not so else ', ' + ('memory_order_seq_cst' if sc else 'memory_order_' + r.choice(c))
    ld = ('relaxed', 'acquire', 'seq_cst', 'consume'); st = ('relaxed', 'release', 'seq_cst'); rm = ld + ('release', 'acq_rel')
    Ae = r.choice(['A', 'A', '&L'])
    arith = ['+', '-'] if k == 'p' else ['+', '*'] if (fl and k == 'u') else ['+', '-', '*'] if (fl or k in 'fd') else ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'] if k != 'b' else ['+', '-', '*', '|', '&', '^', '/']
    def asg():
        o = r.choice(arith)
        v = r.choice(['1', '2', '3', '0u', '(char)2']) if o in ('<<', '>>') else r.choice(['3', '7u', '5l', '(short)9', "'c'"]) if o in '/%' else r.choice(['2', '1', '3', '1.5' if fl or k in 'fd' else '5u']) if o == '*' else rhs(r, k, sz, fl)
        return f'L {o}= {v}', v, o
    def val():
        if k == 'p': return r.choice([f'({ty})(BASE + 480)', f'({ty})(BASE + 960)', f'(void *)(BASE + 1440)'])
        if k in 'fd': return r.choice(['1', '2.5', '0.5f', '3u', '7l', '-1.25', "'a'", '0.1f' if k == 'f' else '0.1'])
        if fl: return r.choice(['3.7', '1', '2.25f', '(short)6', '9ul'])
        return r.choice([ival(r, ty, k, sz), rhs(r, k, sz, False), '3.9' if k != 'b' else '0.5', '-1', '0x1ffffff03l', '2.5f'])
    def post(e): return f'{R}({e})'
    c = r.randrange(26)
    if fl and k == 'u' and c in (4, 5): c = 2
    if c in (0,): return post('L')
    if c in (1,): return post(f'atomic_load{so}({Ae}{ord(*ld)})')
    if c in (2, 3): return post('L++' if c == 2 else '++L')
    if c in (4, 5): return post('L--' if c == 4 else '--L')
    if c in (6, 7, 8): return post(asg()[0])
    if c == 9: return post(f'L = {val()}')
    if c == 10: return f'({{ atomic_store{so}({Ae}, {val()}{ord(*st)}); 0l; }})'
    if c in (11, 12): return post(f'atomic_exchange{so}({Ae}, {val()}{ord(*rm)})')
    if c in (13, 14):
        o = r.choice(['add', 'sub'] if k == 'p' else ['add', 'sub', 'or', 'xor', 'and'] if k in 'iu' and not fl else ['add'])
        if k in 'bfd': return post(f'atomic_exchange{so}({Ae}, {val()}{ord(*rm)})')
        return post(f'atomic_fetch_{o}{so}({Ae}, {rhs(r, k, sz, False) if not fl else r.choice(["1", "2", "3l"])}{ord(*rm)})')
    if c in (15, 16):
        w = r.choice(['strong', 'strong', 'strong']); e = ival(r, ty, k, sz, fl)
        o2 = f'{ord(*rm)}{ord(*ld)}' if so else ''
        return f'({{ {ty} e_ = {e}; int k_ = atomic_compare_exchange_{w}{so}({Ae}, &e_, {val()}{o2}); {R}(e_) * 31 + k_; }})'
    if c in (17, 18):
        nv = 'e_ + 1' if k == 'p' else '!e_' if k == 'b' else 'e_ + 1.5' if (fl or k in 'fd') else r.choice(['e_ + 3', 'e_ * 5', 'e_ ^ 0x55', '~e_'] if True else 0)
        o2 = f'{ord(*rm)}{ord(*ld)}' if so else ''
        return f'({{ {ty} e_ = L; while (!atomic_compare_exchange_weak{so}({Ae}, &e_, {nv}{o2})) ; {R}(e_); }})'
    if c == 19: t = asg()[0] if r.random() < .5 else 'L++' if (fl and k == 'u') else r.choice(['L++', 'L--', '--L', '++L']); return f'({{ {t}; 0l; }})'       # value unused
    if c == 20: return f'({{ L = {val()}; 0l; }})'
    if c == 21: # used as a condition
        e = r.choice(['L', '!L'] + ([asg()[0], 'L++', f'atomic_exchange({Ae}, {val()})'] if k != 'p' else []))
        return r.choice(['({{ long q_; if ({e}) q_ = 5; else q_ = 9; q_; }})', '(({e}) ? 11l : 22l)', '({{ long q_ = 0; for (int i_ = 0; i_ < 1 && ({e}); i_++) q_ = 3; q_; }})', '(long)(({e}) || 0)', '(long)(1 && ({e}))']).format(e=e)
    if c == 22: # operand with a side effect is evaluated once
        v = {'p': '(c_++, 1)'}.get(k, '(c_++, 1.5)' if k in 'fd' else f'(c_ += 2, {r.choice([1, 3])})')
        o = r.choice(['L += {v}', 'L = {w}', 'atomic_exchange(A, {w})'] + (['atomic_fetch_add(A, {v})'] if k in 'iup' else []))
        w = f'(c_ += 3, {val()})'
        return f'({{ int c_ = 0; long q_ = {R}({o.format(v=v, w=w)}); q_ * 16 + c_; }})'
    if c == 23: # the address is computed once
        o = r.choice(['*(c_++, A) += {v}', '(*(c_++, A))++', '*(c_++, A) = {w}', 'atomic_exchange((c_++, A), {w})', '--*(c_++, A)'])
        if fl and k == 'u' and '--' in o: o = '(*(c_++, A))++'
        return f'({{ int c_ = 0; long q_ = {R}({o.format(v=rhs(r, k, sz, fl), w=val())}); q_ * 16 + c_; }})'
    if c == 24 and k in 'iu' and not fl: return r.choice(['({ long q_; switch (L & 3) { case 0: q_ = 3; break; case 1: q_ = 5; break; default: q_ = 8; } q_; })', '(long)(L > 2)', '(long)(L == 1)', '(long)(L * 2 + 1)', '(long)-L', '(long)~L', '(long)(int)L', '(long)(5 - L)', '(long)(unsigned char)L', '(long)(L << 1)', '(long)(3 < L)'])
    if c == 24 and k in 'fd': return r.choice(['(long)(L > 2)', 'RD(L * 2 + 1)', 'RD(-L)', 'RD(5 - L)', '(long)(L == 1)', 'RF(L)'])
    return post('L')

PLACES = ['member', 'member', 'global', 'static', 'array', 'ptr', 'slocal', 'extern', 'union', 'arrow', 'td', 'vol', 'nested', 'anon', 'vstruct', 'tarr', 'mdim', 'pp', 'form', 'form', 'form', 'raw', 'clit', 'align']
def decl(g, o):
    """-> (definitions in the program, L, A, second translation unit, setup address expression)"""
    ty = o['ty']; q = o['q']
    at = {'q1': f'_Atomic({ty})', 'q2': f'{ty} _Atomic', 'q3': f'_Atomic {ty}' if '*' not in ty else f'{ty} _Atomic', 'td': TD.get(ty, f'_Atomic({ty})'), 'ty': f'__typeof__(_Atomic({ty}))', 'v1': f'volatile _Atomic({ty})', 'v2': f'{ty} _Atomic volatile'}[q]
    pl = o['place']; i = o['init']; more = ''; 
    if pl == 'member': return f'struct {{ char a[{o["pad"]}]; {at} m; char z[{o["pad2"]}]; }} S{g} = {{ .m = {i} }};', f'S{g}.m', f'&S{g}.m', '', f'&S{g}', f'sizeof S{g}'
    if pl == 'global': return f'{at} G{g} = {i};', f'G{g}', f'&G{g}', '', f'&G{g}', f'sizeof G{g}'
    if pl == 'static': return f'static {at} G{g} = {i};', f'G{g}', f'&G{g}', '', f'&G{g}', f'sizeof G{g}'
    if pl == 'array': return f'{at} R{g}[4] = {{ [2] = {i} }}; static int two{g} = 2;', f'R{g}[two{g}]', f'(R{g} + two{g})', '', f'R{g}', f'sizeof R{g}'
    if pl == 'ptr': return f'static {at} G{g} = {i}; {at} *P{g} = &G{g};', f'*P{g}', f'P{g}', '', f'&G{g}', f'sizeof G{g}'
    if pl == 'slocal': return f'static {at} *acc{g}(void) {{ static {at} v = {i}; return &v; }}', f'*acc{g}()', f'acc{g}()', '', f'(void *)acc{g}()', f'sizeof(*acc{g}())'
    if pl == 'extern': return f'extern {at} X{g};', f'X{g}', f'&X{g}', f'{at} X{g} = {i};', f'&X{g}', f'sizeof X{g}'
    if pl == 'union': return f'union {{ {at} m; char z[16]; }} N{g} = {{ .m = {i} }};', f'N{g}.m', f'&N{g}.m', '', f'&N{g}', f'sizeof N{g}'
    if pl == 'arrow': return f'struct W{g} {{ int k; {at} m; }} V{g} = {{ 1, {i} }}; static struct W{g} *get{g}(void) {{ return &V{g}; }}', f'get{g}()->m', f'&get{g}()->m', '', f'&V{g}', f'sizeof V{g}'
    if pl == 'nested': return f'struct {{ struct {{ char c; {at} m[3]; }} in[2]; }} D{g} = {{ .in[1].m[1] = {i} }};', f'D{g}.in[1].m[1]', f'&D{g}.in[1].m[1]', '', f'&D{g}', f'sizeof D{g}'
    if pl == 'td': return f'typedef {at} TD{g}; TD{g} G{g} = {i};', f'G{g}', f'&G{g}', '', f'&G{g}', f'sizeof G{g}'
    if pl == 'vol': return f'{at} volatile G{g} = {i};', f'G{g}', f'&G{g}', '', f'(void *)&G{g}', f'sizeof G{g}'
    if pl == 'anon': return f'struct {{ char k; struct {{ char c; union {{ {at} m; char z[12]; }}; }}; }} S{g} = {{ .m = {i} }};', f'S{g}.m', f'&S{g}.m', '', f'&S{g}', f'sizeof S{g}'
    if pl == 'vstruct': return f'volatile struct {{ char k; {at} m[3]; struct {{ char c; {at} n[2]; }}; }} S{g} = {{ .m[1] = {i}, .n[1] = {i} }};', (x := [f'*(S{g}.m + 1)', f'1[S{g}.m]', f'(&S{g})->n[1]', f'*(S{g}.n + 1)'][o['pad'] % 4]), '&' + x, '', f'(void *)&S{g}', f'sizeof S{g}'
    if pl == 'tarr': return f'typedef {at} T{g}[3]; T{g} R{g} = {{ 0, {i} }};', (x := [f'*(R{g} + 1)', f'1[R{g}]', f'(0, R{g})[1]', f'*({{ R{g} + 1; }})'][o['pad'] % 4]), '&' + x, '', f'R{g}', f'sizeof R{g}'
    if pl == 'mdim': return f'static struct {{ char c; {at} m[2][3]; }} D{g} = {{ .m[1][2] = {i} }}; static int one{g} = 1;', (x := [f'*(*(D{g}.m + one{g}) + 2)', f'D{g}.m[one{g}][2]', f'(*(D{g}.m + 1))[one{g} + 1]', f'D{g}.m[1][2]'][o['pad'] % 4]), '&' + x, '', f'&D{g}', f'sizeof D{g}'
    if pl == 'pp': return f'static {at} G{g} = {i}; {at} *P{g} = &G{g}; {at} **PP{g} = &P{g};', f'**PP{g}', f'*PP{g}', '', f'&G{g}', f'sizeof G{g}'
    if pl == 'form': return f'{at} G{g} = {i}; static int one{g} = 1;', (x := r_form(f'G{g}', f'one{g}', o['pad'] * 3 + o['pad2'])), '&' + x, '', f'&G{g}', f'sizeof G{g}'
    if pl == 'raw': return f'static struct {{ char c[8]; {at} v; }} B{g} = {{ .v = {i} }};', f'(*({at} *)((char *)&B{g} + 8))', f'({at} *)((void *)&B{g} + 8)', '', f'&B{g}', f'sizeof B{g}'
    if pl == 'clit': return f'{at} *P{g} = &({at}){{ {i} }};', f'P{g}[0]', f'P{g}', '', f'(void *)P{g}', f'sizeof *P{g}'
    if pl == 'align': return f'_Alignas(64) {at} G{g} = {i};', f'G{g}', f'(&G{g} + 0)', '', f'&G{g}', f'sizeof G{g}'
def r_form(v, one, n):
    return [f'(*({one} ? &{v} : &{v}))', f'(*({one} ? &{v} : 0))', f'(*({{ &{v}; }}))', f'(*(0, &{v}))', f'_Generic(0, int: {v})', f'(*({{ __auto_type p_ = &{v}; p_; }}))', f'(*(__typeof__({v}) *)&{v})', f'(*(__typeof__(&{v}))&{v})', f'(&{v})[0]', f'0[&{v}]', f'({{ &{v}; }})[{one} - 1]', f'(*&*&{v})'][n % 12]
class C14(SimB):
    id = 'C14'; level = 'exploration'; quick_cases = 700; thorough_cases = 30000; runs_quick = 40
    technique = SimB.technique + 'programs of 2-4 threads operating on atomic objects are compiled by slimcc and single-stepped under seeded schedules with simulated store buffers; the recorded results and final states must be explained by some order of indivisible operations (search against the gcc-compiled meaning of each operation)'
    note = 'lock-free scalar types up to 8 bytes; atomic structures and long double are rejected by the compiler and not claimed'
    def obj(self, r):
        ty, k, sz = r.choice(TYPES); fl = k in 'iu' and sz >= 4 and 'enum' not in ty and r.random() < .2
        return {'ty': ty, 'k': k, 'sz': sz, 'fl': fl, 'place': r.choice(PLACES), 'q': r.choice(['q1', 'q2', 'q3', 'td', 'td', 'ty', 'v1', 'v2']), 'pad': r.choice([1, 3, 4, 7, 8]), 'pad2': r.choice([1, 4, 9]), 'init': ival(r, ty, k, sz, fl)}
    def spec(self, r, i, tier):
        ng = r.choice([1, 1, 2, 3]); nt = r.choice([2, 2, 2, 3, 3, 4]); objs = [self.obj(r) for _ in range(ng)]
        per = {2: 4, 3: 3, 4: 2}[nt]
        thr = [[] for _ in range(nt)]
        for g, o in enumerate(objs):
            for t in thr:
                for _ in range(r.randrange(1, per + 1)):
                    t.append([g, gen_op(r, o['ty'], o['k'], o['sz'], o['fl']), 1 if r.random() < .85 else 2])
        for t in thr: r.shuffle(t); del t[14:]
        return {'objs': objs, 'thr': thr, 'opts': r.choice(OPTS), 'link': r.choice(LINKS), 'tso': r.random() < .8}
    def render(self, s):
        objs = s['objs']; src = PROG; second = '#include <stdatomic.h>\n' + COMMON + 'extern char BASE[4096];\n'; regs = []; prog_final = []; model = MODEL; has2 = False
        st = []; fin = []; init = []
        for g, o in enumerate(objs):
            d, L, A, m2, ra, rn = decl(g, o); src += d + '\n' + f'#define L{g} ({L})\n#define A{g} ({A})\n'
            if m2: second += m2 + '\n'; has2 = True
            regs.append((ra, rn)); st.append(f'{o["ty"]} o{g};'); init.append(f's->o{g} = {o["init"]};')
            fin.append(f'{RW[o["k"]]}(%so{g})')
        n = len(objs)
        src += f'struct sim_region sim_regions[{n}]; int sim_nregions = {n};\nvoid sim_setup(void) {{ ' + ' '.join(f'sim_regions[{i}].p = (void *){a}; sim_regions[{i}].n = {b};' for i, (a, b) in enumerate(regs)) + ' }\n'
        # neighbouring bytes must stay what they were: one more "final" value per object
        src += 'static unsigned long nb(int i, void *o, int n) { unsigned char *p = sim_regions[i].p; unsigned long h = 7; for (long k = 0; k < sim_regions[i].n; k++) if (p + k < (unsigned char *)o || p + k >= (unsigned char *)o + n) h = h * 31 + p[k]; return h; }\n'
        src += 'void sim_final(long *q) {\n' + ''.join(f'  q[{2*g}] = {RW[o["k"]]}(L{g}); q[{2*g+1}] = nb({g}, (void *)A{g}, sizeof(L{g})) - nb0[{g}];\n' for g, o in enumerate(objs)) + '}\n'
        src = src.replace('void sim_setup(void) {', 'static unsigned long nb0[8]; static unsigned long nb(int, void *, int);\nvoid sim_setup(void) {').replace(' }\nstatic unsigned long nb(int i', ' ' + ' '.join(f'nb0[{g}] = nb({g}, (void *)A{g}, sizeof(L{g}));' for g in range(n)) + ' }\nstatic unsigned long nb(int i')
        mop = []; ids = []; grp = []; names = []; k = 0
        for t, ops in enumerate(s['thr']):
            src += f'void t{t}(void) {{\n'; l = []
            for g, e, rep in ops:
                p = re.sub(r'\bL\b', f'L{g}', re.sub(r'\bA\b', f'A{g}', e))
                if rep == 1: src += f'  sim_res({k}, {p});\n'
                else: src += f'  for (int i = 0; i < {rep}; i++) sim_res({k} + i, {p});\n'
                for _ in range(rep):
                    mop.append(f'  case {k}: *r_ = {p}; break;'); l.append(k); grp.append(g); names.append(e.replace('\\', '\\\\').replace('"', '\\"')); k += 1
            src += '}\n'; ids.append(l[:16])
        model += 'struct St { ' + ' '.join(st) + ' };\n' + ''.join(f'#define L{g} (s->o{g})\n#define A{g} (&s->o{g})\n' for g in range(n))
        model += f'void m_init(struct St *s) {{ {" ".join(init)} }}\nvoid m_op(int id, struct St *s, long *r_) {{ switch (id) {{\n' + '\n'.join(mop) + '\n} }\n'
        model += 'void m_final(struct St *s, long *q) { ' + ' '.join(f'q[{2*g}] = {RW[o["k"]]}(L{g}); q[{2*g+1}] = 0;' for g, o in enumerate(objs)) + ' }\n'
        model += tail(ids, grp, names, n, 2 * n, [x for g in range(n) for x in (g, g)], s.get('tso', True))
        return {'src': src, 'model': model, 'more': {'w2.c': second} if has2 else {}, 'opts': s['opts'], 'link': s['link'], 'counts': ['type ' + o['ty'] for o in objs] + ['place ' + o['place'] for o in objs]}
    def shrink_spec(self, s):
        for t in range(len(s['thr'])):
            for i in range(len(s['thr'][t])):
                n = copy.deepcopy(s); del n['thr'][t][i]; yield n
                if s['thr'][t][i][2] > 1: n = copy.deepcopy(s); n['thr'][t][i][2] = 1; yield n
        for g in range(len(s['objs'])):
            if not any(op[0] == g for t in s['thr'] for op in t) and len(s['objs']) > 1:
                n = copy.deepcopy(s); del n['objs'][g]
                for t in n['thr']:
                    for op in t:
                        if op[0] > g: op[0] -= 1
                yield n
            elif s['objs'][g]['place'] != 'global': n = copy.deepcopy(s); n['objs'][g]['place'] = 'global'; yield n
            elif s['objs'][g]['q'] != 'q1': n = copy.deepcopy(s); n['objs'][g]['q'] = 'q1'; yield n
        for t in range(len(s['thr'])):
            if not s['thr'][t] and len(s['thr']) > 1: n = copy.deepcopy(s); del n['thr'][t]; yield n
        if s['link'] != 'static': yield dict(s, link='static')
        if s['opts']: yield dict(s, opts=[])
def tail(ids, grp, names, ng, nfin, fgrp, tso):
    nt = len(ids)
    t = ''.join(f'void t{i}(void); ' for i in range(nt)) + f'\nvoid prog_threads(void) {{ sim_tso = {int(tso)}; ' + ' '.join(f'sim_spawn(t{i});' for i in range(nt)) + ' }\n'
    t += f'int m_nthreads = {nt}, m_nops[] = {{ {", ".join(str(len(l)) for l in ids)} }}, m_opid[][16] = {{ ' + ', '.join('{ ' + ', '.join(map(str, l or [0])) + ' }' for l in ids) + f' }}, m_statesize = sizeof(struct St), m_nfinal = {nfin}, m_ngroups = {ng}, m_grp[] = {{ {", ".join(map(str, grp or [0]))} }}, m_fgrp[] = {{ {", ".join(map(str, fgrp or [0]))} }};\n'
    t += 'const char *m_name(int i) { static const char *n[] = { ' + ', '.join(f'"{x}"' for x in names or ['']) + ' }; return n[i]; }\n'
    return t

INT_T = [t for t in TYPES if t[1] in 'iu' and 'enum' not in t[0]]
SP = 'sim_yield()'
LOCKS = { # name -> (declarations, lock(t), unlock(t), max threads)
    'tas': ('atomic_flag K;', f'while (atomic_flag_test_and_set(&K)) {SP}', 'atomic_flag_clear(&K)', 4),
    'tasx': ('atomic_flag K;', f'while (atomic_flag_test_and_set_explicit(&K, memory_order_acquire)) {SP}', 'atomic_flag_clear_explicit(&K, memory_order_release)', 4),
    'xchg': ('_Atomic(%T) K;', f'while (atomic_exchange(&K, 1)) {SP}', 'K = 0', 4),
    'ttas': ('_Atomic(%T) K;', f'do while (K) {SP}; while (atomic_exchange(&K, 1))', 'atomic_store(&K, 0)', 4),
    'casw': ('_Atomic(%T) K;', f'for (;;) {{ %T e_ = 0; if (atomic_compare_exchange_weak(&K, &e_, 1)) break; {SP}; }}', 'K--', 4),
    'cass': ('_Atomic(%T) K = 3;', f'for (%T e_ = 3; !atomic_compare_exchange_strong(&K, &e_, 9); e_ = 3) {SP}', 'atomic_fetch_sub(&K, 6)', 4),
    'ticket': ('_Atomic(%T) K, K2;', f'{{ %T m_ = atomic_fetch_add(&K, 1); while (K2 != m_) {SP}; }}', 'K2++', 4),
    'ticket2': ('struct {{ char c; _Atomic %T n, s; }} K;', f'{{ %T m_ = K.n++; while (K.s != m_) {SP}; }}', 'K.s += 1', 4),
    'orlock': ('_Atomic(%T) K;', f'while (atomic_fetch_or(&K, 1) & 1) {SP}', 'K &= ~1', 4),
    'orasg': ('_Atomic(%T) K;', f'for (;;) {{ %T o_ = K; if (!(o_ & 4) && atomic_compare_exchange_strong(&K, &o_, o_ | 4)) break; {SP}; }}', 'K ^= 4', 4),
    'boollock': ('_Atomic _Bool K;', f'for (_Bool e_ = 0; !atomic_compare_exchange_strong(&K, &e_, 1); e_ = 0) {SP}', 'K = 0', 4),
    'ptrlock': ('static char own; _Atomic(char *) K;', f'for (char *e_ = 0; !atomic_compare_exchange_strong(&K, &e_, &own); e_ = 0) {SP}', 'K = 0', 4),
    'peterson': ('_Atomic(%T) K[2]; _Atomic(%T) W;', f'{{ K[%t] = 1; W = 1 - %t; while (K[1 - %t] && W == 1 - %t) {SP}; }}', 'K[%t] = 0', 2),
    'peterson2': ('struct {{ _Atomic(%T) f; }} K[2]; atomic_int W;', f'{{ atomic_store(&K[%t].f, 1); atomic_store(&W, %t); while (atomic_load(&K[1 - %t].f) && atomic_load(&W) == %t) {SP}; }}', 'atomic_store(&K[%t].f, 0)', 2),
    'dekker': ('_Atomic(%T) K[2]; _Atomic(%T) W;', f'{{ K[%t] = 1; while (K[1 - %t]) {{ if (W != %t) {{ K[%t] = 0; while (W != %t) {SP}; K[%t] = 1; }} {SP}; }} }}', '{ W = 1 - %t; K[%t] = 0; }', 2),
    'filter': ('atomic_int K[4], W[4];', f'for (int l_ = 1; l_ < %n; l_++) {{ K[%t] = l_; W[l_] = %t; for (int k_ = 0; k_ < %n; k_++) while (k_ != %t && K[k_] >= l_ && W[l_] == %t) {SP}; }}', 'K[%t] = 0', 4),
    'bakery': ('_Atomic(_Bool) K[4]; _Atomic(%T) N[4];', f'{{ K[%t] = 1; int m_ = 0; for (int k_ = 0; k_ < %n; k_++) {{ int v_ = N[k_]; if (v_ > m_) m_ = v_; }} N[%t] = m_ + 1; K[%t] = 0; for (int k_ = 0; k_ < %n; k_++) {{ while (K[k_]) {SP}; while (N[k_] && (N[k_] < m_ + 1 || (N[k_] == m_ + 1 && k_ < %t))) {SP}; }} }}', 'N[%t] = 0', 4),
    'sem': ('_Atomic(%T) K = 1;', f'for (;;) {{ %T v_ = K; if (v_ > 0 && atomic_compare_exchange_weak(&K, &v_, v_ - 1)) break; {SP}; }}', '++K', 4),
    'rwlock': ('atomic_int K;', f'for (int e_ = 0; !atomic_compare_exchange_weak(&K, &e_, -1); e_ = 0) {SP}', 'atomic_fetch_add(&K, 1)', 4),
}
BODIES = ['P0++', 'P0 = P0 * 3 + %k', '(P1 += P0 + %k, P1)', '({ long a_ = P0; P0 = P1 + 1; P1 = a_; a_; })', 'P0 ^ P1', '(P2 = P0, P2 += P1, P0 = P2 & 0xffff)', 'P2 - P1 * 2', '(P0 += 1, P1 -= 1, P0 + P1)']
class C15(SimB):
    id = 'C15'; level = 'exploration'; quick_cases = 620; thorough_cases = 25000; runs_quick = 40
    technique = SimB.technique + 'random and algorithmic multi-object programs (store buffering, message passing, IRIW, locks, queues, stacks, sequence locks, barriers) compiled by slimcc run under seeded schedules on a simulated store-buffer processor; all results must be explained by one total order consistent with program order'
    note = 'operations with sequentially consistent order; data protected by atomics is included, racy plain accesses are not'
    def spec(self, r, i, tier):
        a = r.random(); base = {'opts': r.choice(OPTS), 'link': r.choice(LINKS)}
        if a < .34: return {**base, **self.rand(r)}
        if a < .50: return {**base, **self.litmus(r)}
        if a < .76: return {**base, **self.lock(r)}
        return {**base, **self.algo(r)}
    def rand(self, r):
        ng = r.choice([2, 2, 3, 4]); nt = r.choice([2, 2, 3, 4]); objs = [C14.obj(self, r) for _ in range(ng)]
        thr = [[[g, gen_op(r, objs[g]['ty'], objs[g]['k'], objs[g]['sz'], objs[g]['fl'], True), 1] for g in [r.randrange(ng) for _ in range(r.randrange(2, {2: 5, 3: 4, 4: 3}[nt]))]] for _ in range(nt)]
        return {'kind': 'ops', 'objs': objs, 'thr': thr}
    def litmus(self, r):
        """stores and loads only, in the classic shapes, with every spelling of a store and a load"""
        n = r.choice([2, 2, 3]); objs = []
        for _ in range(n):
            o = C14.obj(self, r); o['ty'], o['k'], o['sz'] = r.choice(TYPES[:11] + [('double', 'd', 8), ('_Bool', 'b', 1)]); o['fl'] = False; o['init'] = '0'; objs.append(o)
        def W(g):
            k = objs[g]['k']; return [g, r.choice(['({ L = 1; 0l; })', '({ atomic_store(A, 1); 0l; })', '({ atomic_store_explicit(A, 1, memory_order_seq_cst); 0l; })', '({ atomic_exchange(A, 1); 0l; })', 'RI(L = 1)', '({ *A = 1; 0l; })']
                + (['({ L++; 0l; })', '({ L |= 1; 0l; })', '({ ++L; 0l; })', '({ L += 1; 0l; })'] if k in 'iub' else []) + (['({ atomic_fetch_or(A, 1); 0l; })', '({ atomic_fetch_add(A, 1); 0l; })'] if k in 'iu' else [])), 1]
        def Rd(g): return [g, r.choice(['RI(L)', 'RI(atomic_load(A))', 'RI(atomic_load_explicit(A, memory_order_seq_cst))', '(L ? 1l : 0l)', 'RI(*A)', '({ long q_ = 0; if (L) q_ = 1; q_; })', '({ __typeof__(L) q_ = L; RI(q_); })']), 1]
        sh = r.choice(['SB', 'SB', 'SB3', 'MP', 'IRIW', 'WRC', 'R', '2+2W', 'LB', 'SBr'])
        x, y, z = 0, 1, n - 1
        thr = {'SB': [[W(x), Rd(y)], [W(y), Rd(x)]], 'SB3': [[W(x), Rd(y)], [W(y), Rd(z)], [W(z), Rd(x)]] if n == 3 else [[W(x), Rd(y), W(x)], [W(y), Rd(x), W(y)]],
               'MP': [[W(x), W(y)], [Rd(y), Rd(x)]], 'IRIW': [[W(x)], [W(y)], [Rd(x), Rd(y)], [Rd(y), Rd(x)]], 'WRC': [[W(x)], [Rd(x), W(y)], [Rd(y), Rd(x)]], 'R': [[W(x), W(y)], [W(y), Rd(x)]],
               '2+2W': [[W(x), W(y), Rd(x)], [W(y), W(x), Rd(y)]], 'LB': [[Rd(x), W(y)], [Rd(y), W(x)]], 'SBr': [[W(x), Rd(x), Rd(y)], [W(y), Rd(y), Rd(x)]]}[sh]
        return {'kind': 'ops', 'shape': sh, 'objs': objs, 'thr': thr}
    def lock(self, r):
        nm = r.choice(sorted(LOCKS)); mx = LOCKS[nm][3]; nt = min(mx, r.choice([2, 2, 3, 3, 4]))
        per = {2: 4, 3: 3, 4: 2}[nt]
        return {'kind': 'lock', 'lock': nm, 'T': r.choice(INT_T)[0], 'PT': r.choice(['int', 'long', 'unsigned', 'short', 'char', 'long long']), 'wrap': r.random() < .4, 'thr': [[r.choice(BODIES).replace('%k', str(r.randrange(1, 9))) for _ in range(r.randrange(1, per + 1))] for _ in range(nt)]}
    def algo(self, r):
        nm = r.choice(['mp', 'mp', 'seqlock', 'spsc', 'treiber', 'publish', 'once', 'barrier', 'spin-mp', 'counter-pair', 'mpmc', 'handoff'])
        nt = {'spsc': 2, 'seqlock': r.choice([2, 3]), 'mp': r.choice([2, 3]), 'spin-mp': 2, 'handoff': 2}.get(nm, r.choice([2, 3]))
        return {'kind': 'algo', 'algo': nm, 'nt': nt, 'T': r.choice(INT_T)[0], 'rep': r.choice([1, 2, 2, 3]), 'v': r.randrange(1, 20), 'sp': [r.randrange(8) for _ in range(16)]}
    def render(self, s):
        if s['kind'] == 'ops':
            d = C14.render(self, dict(s, tso=True)); n = len(s['objs'])
            d['model'] = re.sub(r', m_ngroups = \d+, m_grp\[\] = \{[^}]*\}, m_fgrp\[\] = \{[^}]*\}', '', d['model']); d['counts'] = ['shape ' + s.get('shape', 'random')]
            return d
        if s['kind'] == 'lock': return self.render_lock(s)
        return self.render_algo(s)
    def assemble(self, s, decls, regions, funcs, threads, mstate, minit, mmac, fin, what):
        """threads: per thread list of (program text, model text)"""
        src = PROG + decls + '\n' + f'struct sim_region sim_regions[{len(regions)}] = {{ ' + ', '.join(f'{{ &{x}, sizeof {x} }}' for x in regions) + f' }}; int sim_nregions = {len(regions)};\n' + funcs + '\n'
        model = MODEL + f'struct St {{ {mstate} }};\n{mmac}\nvoid m_init(struct St *s) {{ {minit} }}\n'
        mop = []; ids = []; names = []; k = 0
        for t, ops in enumerate(threads):
            src += f'void t{t}(void) {{\n'; l = []
            for p, m in ops:
                src += f'  sim_res({k}, {p});\n'; mop.append(f'  case {k}: *r_ = {m}; break;'); l.append(k); names.append(m.replace('"', '\\"')[:200]); k += 1
            src += '}\n'; ids.append(l)
        src += 'void sim_final(long *q) { ' + ' '.join(f'q[{i}] = {p};' for i, (p, m) in enumerate(fin)) + ' }\n'
        model += 'void m_op(int id, struct St *s, long *r_) { switch (id) {\n' + '\n'.join(mop) + '\n} }\nvoid m_final(struct St *s, long *q) { ' + ' '.join(f'q[{i}] = {m};' for i, (p, m) in enumerate(fin)) + ' }\n'
        t = tail(ids, [], names, 1, len(fin), [], True); t = re.sub(r', m_ngroups = \d+, m_grp\[\] = \{[^}]*\}, m_fgrp\[\] = \{[^}]*\}', '', t)
        return {'src': src, 'model': model + t, 'opts': s['opts'], 'link': s['link'], 'counts': [what]}
    def render_lock(self, s):
        dc, lk, ul, mx = LOCKS[s['lock']]; n = len(s['thr']); T = s['T']
        def X(t, tt): return t.replace('%T', T).replace('%t', tt).replace('%n', str(n)).replace('{{', '{').replace('}}', '}')
        regs = re.findall(r'\b(K2|K|W|N)\b', X(dc, '')); decls = X(dc, '') + f'\nstruct {{ {s["PT"]} p0, p1; long p2; }} P;\n#define P0 P.p0\n#define P1 P.p1\n#define P2 P.p2'
        funcs = ''
        if s['wrap']: funcs = f'static void lock(int t_) {{ {X(lk, "t_")}; }}\nstatic void unlock(int t_) {{ {X(ul, "t_")}; }}\n'
        thr = []
        for t, ops in enumerate(s['thr']):
            l = []
            for b in ops:
                p = f'({{ lock({t}); long r_ = {b}; unlock({t}); r_; }})' if s['wrap'] else f'({{ {X(lk, str(t))}; long r_ = {b}; {X(ul, str(t))}; r_; }})'
                l.append((p, f'({{ long r_ = {b}; r_; }})'))
            thr.append(l)
        return self.assemble(s, decls, sorted(set(regs)) + ['P'], funcs, thr, f'{s["PT"]} p0, p1; long p2;', '', '#define P0 s->p0\n#define P1 s->p1\n#define P2 s->p2', [('P0', 'P0'), ('P1', 'P1'), ('P2', 'P2')], 'lock ' + s['lock'])
    def render_algo(self, s):
        T = s['T']; a = s['algo']; nt = s['nt']; rep = s['rep']; v = s['v']; sp = s['sp']
        st = lambda x, e, i: [f'{x} = {e}', f'atomic_store(&{x}, {e})', f'atomic_store_explicit(&{x}, {e}, memory_order_seq_cst)', f'(void)atomic_exchange(&{x}, {e})'][sp[i] % 4]
        ld = lambda x, i: [f'{x}', f'atomic_load(&{x})', f'atomic_load_explicit(&{x}, memory_order_seq_cst)'][sp[i] % 3]
        thr = []; F = ''; fin = []
        if a in ('mp', 'spin-mp'):
            wait = a == 'spin-mp'
            d = f'int D0; struct {{ char c; long l; }} D1; _Atomic({T}) F;'; regs = ['D0', 'D1', 'F']
            thr.append([(f'({{ D0 = {v}; D1.c = {v+1}; D1.l = {v+2}; {st("F", "1", 0)}; 0l; }})', f'({{ s->d = {v}; s->f = 1; 0l; }})')])
            for t in range(1, nt):
                e = f'D0 + D1.c * 100l + D1.l * 10000l'; g = f'{v} + {v+1} * 100l + {v+2} * 10000l'
                thr.append([(f'({{ while (!({ld("F", 1)})) {SP}; {e}; }})', f'(s->f ? {g} : -99l)')] if wait else [(f'({{ long q_ = -1; if ({ld("F", 1 + k)}) q_ = {e}; q_; }})', f'(s->f ? {g} : -1l)') for k in range(rep + 1)])
            return self.assemble(s, d, regs, '', thr, 'long d, f;', '', '', [('(long)F', '(long)s->f')], 'algorithm ' + a)
        if a == 'handoff': # plain data passed back and forth
            d = f'long D; _Atomic({T}) F;'; regs = ['D', 'F']
            for t in range(2): thr.append([(f'({{ while (({ld("F", t)}) != {2*k+t}) {SP}; D = D * 3 + {v + t}; long q_ = D; {st("F", str(2*k+t+1), 2+t)}; q_; }})', f'({{ long q_ = -99; if (s->f == {2*k+t}) {{ s->d = s->d * 3 + {v + t}; q_ = s->d; s->f = {2*k+t+1}; }} q_; }})') for k in range(rep + 1)])
            return self.assemble(s, d, regs, '', thr, 'long d, f;', '', '', [('D', 's->d')], 'algorithm handoff')
        if a == 'seqlock':
            d = f'_Atomic({T}) Q; _Atomic(int) A0; _Atomic(long) A1;'; regs = ['Q', 'A0', 'A1']
            thr.append([(f'({{ Q++; {st("A0", str(v + k), 0)}; {st("A1", str(7 * k + 1), 1)}; ++Q; 0l; }})', f'({{ s->a = {v + k}; s->b = {7 * k + 1}; 0l; }})') for k in range(rep)])
            for t in range(1, nt): thr.append([(f'({{ {T} q_; int x_; long y_; do {{ while ((q_ = {ld("Q", 2)}) & 1) {SP}; x_ = {ld("A0", 3)}; y_ = {ld("A1", 4)}; }} while ({ld("Q", 5)} != q_); x_ * 1000l + y_; }})', 's->a * 1000 + s->b')] * 2)
            return self.assemble(s, d, regs, '', thr, 'long a, b;', '', '', [('(long)A0', 's->a'), ('(long)A1', 's->b')], 'algorithm seqlock')
        if a in ('spsc', 'mpmc'):
            if a == 'spsc':
                d = f'struct {{ int buf[2]; _Atomic({T}) h, t; }} Z;'; regs = ['Z']
                F = f'static int enq(int v) {{ {T} t = {ld("Z.t", 0)}; if (t - {ld("Z.h", 1)} == 2) return -2; Z.buf[t & 1] = v; {st("Z.t", "t + 1", 2)}; return 0; }}\nstatic int deq(void) {{ {T} h = {ld("Z.h", 3)}; if (h == {ld("Z.t", 4)}) return -1; int v = Z.buf[h & 1]; {st("Z.h", "h + 1", 5)}; return v; }}\n'
                cap = 2
            else:
                d = f'atomic_flag K; struct {{ int buf[4]; int h, t; }} Z;'; regs = ['K', 'Z']
                F = f'static int enq(int v) {{ while (atomic_flag_test_and_set(&K)) {SP}; int r = -2; if (Z.t - Z.h < 4) {{ Z.buf[Z.t & 3] = v; Z.t++; r = 0; }} atomic_flag_clear(&K); return r; }}\nstatic int deq(void) {{ while (atomic_flag_test_and_set(&K)) {SP}; int r = -1; if (Z.t != Z.h) {{ r = Z.buf[Z.h & 3]; Z.h++; }} atomic_flag_clear(&K); return r; }}\n'
                cap = 4
            mm = f'static long menq(struct St *s, int v) {{ if (s->n == {cap}) return -2; s->q[s->n++] = v; return 0; }}\nstatic long mdeq(struct St *s) {{ if (!s->n) return -1; long v = s->q[0]; for (int i = 1; i < s->n; i++) s->q[i - 1] = s->q[i]; s->n--; s->q[s->n] = 0; return v; }}'
            for t in range(nt):
                if a == 'spsc': ops = ['e' if t == 0 else 'd'] * (rep + 1)
                else: ops = ['ed'[(sp[k] + t) & 1] for k in range(rep + (nt == 2))]
                thr.append([(f'enq({v + 10 * t + k})', f'menq(s, {v + 10 * t + k})') if o == 'e' else ('deq()', 'mdeq(s)') for k, o in enumerate(ops)])
            return self.assemble(s, d, regs, F, thr, 'int q[8], n;', '', mm, [('(long)(Z.t - Z.h)', 's->n')], 'algorithm ' + a)
        if a == 'treiber':
            d = f'struct Nd {{ struct Nd *_Atomic nx; int v; }} ND[12]; _Atomic(struct Nd *) H;'; regs = ['ND', 'H']
            cas = ['atomic_compare_exchange_weak', 'atomic_compare_exchange_strong'][sp[0] & 1]
            F = f'static int push(int i, int v) {{ struct Nd *n = &ND[i]; n->v = v; struct Nd *h = {ld("H", 1)}; do n->nx = h; while (!{cas}(&H, &h, n)); return 0; }}\nstatic int pop(void) {{ struct Nd *h = {ld("H", 2)}; for (;;) {{ if (!h) return -1; struct Nd *n = h->nx; if ({cas}(&H, &h, n)) return h->v; }} }}\n'
            mm = 'static long mpush(struct St *s, int v) { s->q[s->n++] = v; return 0; }\nstatic long mpop(struct St *s) { if (!s->n) return -1; long v = s->q[--s->n]; s->q[s->n] = 0; return v; }'
            for t in range(nt): thr.append([(f'push({4 * t + k}, {v + 10 * t + k})', f'mpush(s, {v + 10 * t + k})') if (sp[k + 3] + (t & k)) & 1 else ('pop()', 'mpop(s)') for k in range(rep + (2 if nt == 2 else 1))])
            return self.assemble(s, d, regs, F, thr, 'int q[12], n;', '', mm, [('(long)(H ? H->v : -5)', '(s->n ? s->q[s->n - 1] : -5l)')], 'algorithm treiber')
        if a == 'publish':
            d = f'struct Nd {{ int v; double d; char c[5]; }} ND[6]; _Atomic(struct Nd *) H;'; regs = ['ND', 'H']
            thr.append([(f'({{ struct Nd *n_ = &ND[{k}]; *n_ = (struct Nd){{ {v + k}, {k}.5, "ab" }}; {st("H", "n_", k)}; 0l; }})', f'({{ s->v = {v + k}; s->d = {k}.5; 0l; }})') for k in range(rep)])
            for t in range(1, nt): thr.append([(f'({{ struct Nd *n_ = {ld("H", 4 + k)}; n_ ? (long)(n_->v * 10 + n_->d * 4 + n_->c[1]) : -1; }})', "(s->v ? (long)(s->v * 10 + s->d * 4 + 'b') : -1)") for k in range(rep + 1)])
            return self.assemble(s, d, regs, '', thr, 'int v; double d;', '', '', [], 'algorithm publish')
        if a == 'once':
            d = f'_Atomic({T}) O; long D, CN; atomic_flag K;'; regs = ['O', 'D', 'CN', 'K']
            F = f'static long get(void) {{ if (({ld("O", 0)}) == 0) {{ while (atomic_flag_test_and_set(&K)) {SP}; if (({ld("O", 1)}) == 0) {{ D = {v}; CN++; {st("O", "1", 2)}; }} atomic_flag_clear(&K); }} return D; }}\n'
            for t in range(nt): thr.append([('get()', f'({{ if (!s->o) {{ s->o = 1; s->n++; }} {v}l; }})')] * rep)
            return self.assemble(s, d, regs, F, thr, 'int o, n;', '', '', [('CN', 's->n')], 'algorithm once')
        if a == 'barrier':
            d = f'long D[4]; _Atomic({T}) C;'; regs = ['D', 'C']; w = ['C++', '++C', 'C += 1', 'atomic_fetch_add(&C, 1)', 'C -= -1'][sp[0] % 5]
            for t in range(nt): thr.append([(f'({{ D[{t}] = {v + t}; {w}; while (({ld("C", 1)}) != {nt}) {SP}; D[{t}]; }})', f'({{ s->d[{t}] = {v + t}; s->c++; {v + t}l; }})'), (f'({{ long q_ = 0; for (int i = 0; i < {nt}; i++) q_ = q_ * 32 + D[i]; q_; }})', f'({{ long q_ = 0; for (int i = 0; i < {nt}; i++) q_ = q_ * 32 + s->d[i]; q_; }})')])
            return self.assemble(s, d, regs, '', thr, 'long d[4]; int c;', '', '', [], 'algorithm barrier')
        if a == 'counter-pair': # x is always raised before y; readers read y first
            d = f'_Atomic({T}) X; _Atomic(int) Y;'; regs = ['X', 'Y']; inc = ['X++', 'X += 1', 'atomic_fetch_add(&X, 1)'][sp[0] % 3]
            for t in range(nt): thr.append([x for k in range(rep) for x in ((f'({{ {inc}; 0l; }})', '({ s->x++; 0l; })'), ('(long)Y', '(long)s->y'), ('({ Y++; 0l; })', '({ s->y++; 0l; })'), (f'(long)({ld("X", 2)})', '(long)s->x'))][:5 if nt == 2 else 4])
            return self.assemble(s, d, regs, '', thr, 'int x, y;', '', '', [('(long)X', 's->x'), ('(long)Y', 's->y')], 'algorithm counter-pair')
    def shrink_spec(self, s):
        if s['kind'] == 'ops': yield from C14.shrink_spec(self, s); return
        if s['kind'] == 'lock':
            for t in range(len(s['thr'])):
                for i in range(len(s['thr'][t])): n = copy.deepcopy(s); del n['thr'][t][i]; yield n
        elif s['rep'] > 1: yield dict(s, rep=s['rep'] - 1)
        if s['link'] != 'static': yield dict(s, link='static')
        if s['opts']: yield dict(s, opts=[])
