"""C20 what happens when scopes end."""
from checks.simb import *
from lib import scopes
class C20(SimB):
    id = 'C20'; level = 'exploration'; quick_cases = 1000; thorough_cases = 40000; runs_quick = 12; runs_thorough = 60; oracle = ('ref',); always_nt = True
    technique = SimB.technique + 'generated functions leave nested scopes in every way the language has, the way out being a seeded choice at run time; cleanups, deferred statements, results and stack heights must be those of an equivalent text compiled by gcc (defer as cleanup of a nested function, labelled jumps as gotos)'
    note = 'one thread; calls clobber every register the ABI lets them clobber'
    rule = 'non-trivial: every run; distinct: hash of (program, exit decisions)'
    stub = STUB
    def spec(self, r, i, tier):
        g = scopes.Gen(r, r.random() < .6, r.random() < .6)
        for _ in range(r.randint(1, 3)): g.fn(r.choice([4, 7]), r.choice([2, 3]))
        return {'fns': g.fns, 'calls': [g.callfn(f) for f in g.fns for _ in range(r.choice([1, 2]))], 'opts': r.choice(OPTS)[:], 'link': r.choice(['static'] * 7 + ['pie', 'shared'])}
    def text(self, s, ref):
        seq = [0]; out = scopes.PRE + scopes.HELP + scopes.funcs(s['fns'], ref, seq)
        return (out + f'void t0@(void) {{\n  long h = sim_rsp(); G@ = 5;\n' + ''.join('  ' + scopes.text([c], ref, seq).strip() + ' LOG(90, sim_rsp() - h); LOG(91, G@);\n' for c in s['calls']) + '}\n').replace('@', 'r_' if ref else 'p_')
    def render(self, s):
        m = '#include "rt.h"\n' + self.text(s, True) + 'void t0p_(void); int sim_pool = 4; long sim_maxsteps = 400000;\nvoid prog_threads(void) { sim_spawn(t0p_); }\nvoid (*ref_thr[])(void) = { t0r_, 0 };\n'
        return {'src': self.text(s, False), 'model': m, 'opts': s['opts'] + ['-fdefer-ts'], 'link': s['link']}
    def shrink_spec(self, s):
        for i in range(len(s['calls'])): yield dict(s, calls=s['calls'][:i] + s['calls'][i + 1:])
        for i in range(len(s['fns'])): yield dict(s, fns=s['fns'][:i] + s['fns'][i + 1:])
        for i, f in enumerate(s['fns']):
            for b in scopes.cuts(f['body'][:-1]): yield dict(s, fns=s['fns'][:i] + [dict(f, body=b + f['body'][-1:])] + s['fns'][i + 1:])
        if s['link'] != 'static': yield dict(s, link='static')
        if s['opts']: yield dict(s, opts=[])
