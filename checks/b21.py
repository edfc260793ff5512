"""C21 non-local jumps at any instruction."""
from checks.simb import *
from lib import snip
HEAD = '''
typedef long jbuf@[26]; %X int _setjmp(jbuf@); int setjmp(jbuf@); int __sigsetjmp(jbuf@, int); void longjmp(jbuf@, int); int again_sj(jbuf@) __attribute__((returns_twice));
static jbuf@ jb@[8]; static volatile int armed@, lev@, left@ = 3; static volatile long *volatile pl@[8]; static volatile int *volatile pi@[8]; static volatile double *volatile pd@[8]; volatile long G@;
#define DIG(l, i, d) ((l) * 31 + (i) * 7 + ({ double d_ = (d); sim_bits(&d_, 8); }))
static void jump@(void) { armed@ = 0; int k = sim_choose(lev@), v = sim_choose(4); sim_log(950, DIG(*pl@[k], *pi@[k], *pd@[k]), 0); sim_log(970, k | v << 8, 0); longjmp(jb@[k], v); }
void h@(int sig) { if (armed@) jump@(); G@ = sig; }
'''
MAYBE = {True: 'static void maybe@(void) { }\n', False: 'static void maybe@(void) { if (armed@ && left@ > 0 && sim_choose(5) == 1) { left@--; jump@(); } }\n'}
SJ = ['_setjmp(jb@[L])', '_setjmp(jb@[L])', 'setjmp(jb@[L])', '__sigsetjmp(jb@[L], 0)', 'again_sj(jb@[L])']
class C21(SimB):
    id = 'C21'; level = 'exploration'; quick_cases = 320; thorough_cases = 20000; runs_quick = 16; runs_thorough = 60; oracle = ('jmp',); hook = 'non-local-jump'
    technique = SimB.technique + 'generated functions call setjmp (nested, in loops, with arrays of variable length) and are abandoned by longjmp at seeded instructions, from signal handlers and from callees; after every jump the history must continue exactly as the reference compiled by gcc continues from that setjmp, volatile objects must hold their last values and the stack its height'
    note = 'variables changed after setjmp are volatile or initialised again, as C requires; one thread'
    stub = STUB
    def jf(self, g, r, k):
        g.begin(); pre = []; par = [g.ty() for _ in range(r.randrange(0, 5))]
        for i, t in enumerate(par):
            if t in snip.STRUCTS: g.structs.append((f'p{i}', t))
            else: g.vars.append((f'p{i}', 'f' if t in snip.FLTS else 'B' if t == '_Bool' else 'i'))
        for _ in range(r.randrange(1, 6)): g.decl(pre) if r.random() < .8 else g.stmt(1, pre)
        ro = [((f'clamp@({x})', 'B') if q == 'f' else (x, 'b' if q == 'b' else 'B')) for x, q in g.vars]
        ro += [(f'{a}[0]' if q == 'i' else f'clamp@({a}[0])', 'B') for a, n, q in g.arrs]
        ro += [(f'{s}.{m}', 'b' if t == 'b' else 'B') if t not in snip.FLTS else (f'clamp@({s}.{m})', 'B') for s, ty in g.structs for m, t in snip.STRUCTS[ty]]
        g.vars = ro + [('z', 'B')] if False else ro[:]; g.arrs = []; g.structs = []; work = []
        W = ['vl', 'vi', 'vd']
        for _ in range(r.randrange(2, 6)):
            c = r.randrange(9)
            if c == 0: work.append(r.choice([f'vl = {g.ie(2)};', f'vl += {g.ie(1)};', f'vi ^= {g.ie(2)};', f'vi++;', f'vd = {g.fe(2)};', 'vd *= 0.5;', 'vl--;', f'vi = (short){g.ie(1)};']))
            elif c == 1: work.append('maybe@();')
            elif c == 2 and k and g.cost < 500:
                f = r.choice(self.jfs); n = g.cost; x = f'{f["name"]}(L + 1' + ''.join(', ' + (g.se(t, 1) if t in snip.STRUCTS else g.fe(1) if t in snip.FLTS else g.ie(2)) for t in f['par']) + ')'; g.cost += f['cost'] * g.mul
                u = g.uid(); work.append(f'long v{u} = {r.choice(["", g.ie(2) + " * ", g.ie(1) + " + "])}{x};'); g.vars.append((f'v{u}', 'i'))
            else: g.stmt(2, work)
            if r.random() < .4: g.logs(work, 0)
        g.logs(work, 0); g.vars = ro; g.arrs = []; g.structs = []
        return {'name': f'j{k}@', 'k': k, 'par': par, 'pre': pre, 'work': work, 'ro': [x for x, q in ro], 'loop': r.choice([0, 0, 0, 2, 3]) if g.cost < 400 else 0, 'form': r.randrange(8), 'sj': r.choice(SJ), 'cost': g.cost * 3 + 100, 'ret': g.ie(3)}
    def jtext(self, f, seq):
        o = f'static long {f["name"]}(int L{"".join(f", {t} p{i}" for i, t in enumerate(f["par"]))}) {{\n  volatile long vl = 5; volatile int vi = 6; volatile double vd = 0.75; volatile int z; volatile long h0; pl@[L] = &vl; pi@[L] = &vi; pd@[L] = &vd;\n' + snip.text(f['pre'], 1, seq)
        if f['loop']: o += f'  for (int it = 0; it < {f["loop"]}; it++) {{\n'
        j = f['sj']; F = f['form']
        o += '  h0 = sim_rsp();\n  ' + [f'if ({j}) z = -1; else z = 0;', f'if ({j} == 0) z = 0; else z = -1;', f'if (!{j}) z = 0; else z = -1;', f'switch ({j}) {{ case 0: z = 0; break; case 1: z = 1; break; case 2: z = 2; break; default: z = 3; }}', f'z = {j};', f'int w = {j}; z = w;', f'if ({j} != 2) z = -2; else z = 2;', f'while ({j} > 7) ; z = -2;'][F] + '\n'
        o += '  if (z >= 0) sim_log(961, z, 0);\n' if F in (3, 4, 5) else ''
        o += f'  sim_log(951, DIG(vl, vi, vd), 0); sim_log(960, L, 0); sim_log({2000 + f["k"]}, sim_rsp() - h0, 0); lev@ = L + 1; armed@ = 1;\n'
        o += snip.text([f'LOG(%I, {x});' for x in f['ro'][:4]], 1, seq) + '  {\n' + snip.text(f['work'], 2, seq) + '  }\n  armed@ = 0;\n' + snip.text([f'LOG(%I, {x});' for x in f['ro']], 1, seq)
        if f['loop']: o += '  lev@ = L; armed@ = L > 0;\n  LOG(880, it);\n  }\n'
        return o + f'  lev@ = L; armed@ = L > 0;\n  return {f["ret"]};\n}}\n'
    def spec(self, r, i, tier):
        g = snip.Gen(r)
        for _ in range(r.randrange(1, 4)): g.fn(r.choice([2, 4]))
        self.jfs = []
        for k in range(r.randrange(1, 4)): self.jfs.append(self.jf(g, r, k))
        calls = []; g.begin(); g.callable = []
        for _ in range(r.randrange(1, 3)): f = r.choice(self.jfs[-2:]); calls.append(f'LOG(%I, {f["name"]}(0' + ''.join(', ' + (g.se(t, 1) if t in snip.STRUCTS else g.fe(1) if t in snip.FLTS else g.ie(1)) for t in f['par']) + '));')
        return {'fns': g.fns, 'jfs': self.jfs, 'calls': calls, 'opts': r.choice(OPTS)[:], 'link': r.choice(['static'] * 7 + ['pie', 'shared'])}
    def text(self, s, ref):
        seq = [0]
        o = snip.PRE + snip.TYPES + HEAD.replace('%X', '') + MAYBE[ref] + snip.funcs(s['fns'])
        for f in s['jfs']: o += self.jtext(f, seq)
        return (o + 'void t0@(void) {\n' + snip.text(s['calls'], 1, seq) + '}\n').replace('@', 'r_' if ref else 'p_')
    def render(self, s):
        m = '#include "rt.h"\n__asm__(".globl again_sj\\nagain_sj: jmp _setjmp");\n' + self.text(s, True) + 'void t0p_(void), hp_(int); int sim_pool = 4; long sim_maxsteps = 400000;\nvoid prog_threads(void) { sim_poison = 1; sim_maxsig = 6; sim_handler = hp_; sim_spawn(t0p_); }\nvoid (*ref_thr[])(void) = { t0r_, 0 };\n'
        return {'src': self.text(s, False), 'model': m, 'opts': s['opts'], 'link': s['link']}
    def shrink_spec(self, s):
        for i in range(len(s['calls'])): yield dict(s, calls=s['calls'][:i] + s['calls'][i + 1:])
        for i, f in enumerate(s['jfs']):
            yield dict(s, jfs=s['jfs'][:i] + s['jfs'][i + 1:])
            for b in snip.cuts(f['work']): yield dict(s, jfs=s['jfs'][:i] + [dict(f, work=b)] + s['jfs'][i + 1:])
            for b in snip.cuts(f['pre']): yield dict(s, jfs=s['jfs'][:i] + [dict(f, pre=b)] + s['jfs'][i + 1:])
            for n in range(len(f['ro'])): yield dict(s, jfs=s['jfs'][:i] + [dict(f, ro=f['ro'][:n] + f['ro'][n + 1:])] + s['jfs'][i + 1:])
            if f['loop']: yield dict(s, jfs=s['jfs'][:i] + [dict(f, loop=0)] + s['jfs'][i + 1:])
            if f['ret'] != '1': yield dict(s, jfs=s['jfs'][:i] + [dict(f, ret='1')] + s['jfs'][i + 1:])
        for i, f in enumerate(s['fns']): yield dict(s, fns=s['fns'][:i] + s['fns'][i + 1:])
        if s['link'] != 'static': yield dict(s, link='static')
        if s['opts']: yield dict(s, opts=[])
