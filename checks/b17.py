"""C17 signals at any instruction, C18 concurrent functions without shared data."""
import copy
from checks.simb import *
from lib import snip
SETS = 'sim_setup'
class Snip(SimB):
    oracle = ('ref',); nfn = (1, 5); threads = (1, 1)
    def spec(self, r, i, tier):
        g = snip.Gen(r)
        for _ in range(r.randint(*self.nfn)): g.fn(r.choice([2, 4, 7]))
        s = {'fns': g.fns, 'thr': [g.thread(r.choice([4, 8, 12])) for _ in range(r.randint(*self.threads))], 'same': r.random() < .5, 'opts': r.choice(OPTS)[:], 'link': r.choice(['static'] * 7 + ['pie', 'shared'])}
        self.more(r, g, s); return s
    def more(self, r, g, s): pass
    def text(self, s, ref):
        out = snip.PRE + snip.TYPES + snip.funcs(s['fns']); seq = [0]
        for t, b in enumerate(s['thr']): out += f'void t{t}@(void) {{\n{snip.text(b, 1, seq)}}}\n'
        return (out + self.tail(s)).replace('@', 'r_' if ref else 'p_')
    def tail(self, s): return ''
    def nthr(self, s): return len(s['thr'])
    def model(self, s): return ''
    def render(self, s):
        n = self.nthr(s); f = lambda t: t % len(s['thr'])
        m = '#include "rt.h"\n' + self.text(s, True) + ''.join(f'void t{t}p_(void); ' for t in range(len(s['thr']))) + f'\nint sim_pool = {2 * n}; long sim_maxsteps = 400000;\nvoid prog_threads(void) {{ {self.model(s)} ' + ' '.join(f'sim_spawn(t{f(t)}p_);' for t in range(n)) + ' }\nvoid (*ref_thr[])(void) = { ' + ', '.join(f't{f(t)}r_' for t in range(n)) + ', 0 };\n'
        return {'src': self.text(s, False), 'model': m, 'opts': s['opts'], 'link': s['link']}
    def shrink_spec(self, s):
        if len(s['thr']) > 1: yield dict(s, thr=s['thr'][:-1]); yield dict(s, thr=s['thr'][1:])
        for t in range(len(s['thr'])):
            for b in snip.cuts(s['thr'][t]): n = dict(s); n['thr'] = s['thr'][:t] + [b] + s['thr'][t + 1:]; yield n
        for i, f in enumerate(s['fns']):
            n = dict(s); n['fns'] = s['fns'][:i] + s['fns'][i + 1:]; yield n
        for i, f in enumerate(s['fns']):
            for b in snip.cuts(f['body'][:-1]): n = dict(s); n['fns'] = s['fns'][:i] + [dict(f, body=b + f['body'][-1:])] + s['fns'][i + 1:]; yield n
        if s.get('han'):
            for i in range(len(s['han'])): yield dict(s, han=s['han'][:i] + s['han'][i + 1:])
        if s['link'] != 'static': yield dict(s, link='static')
        if s['opts']: yield dict(s, opts=[])
class C17(Snip):
    id = 'C17'; level = 'exploration'; quick_cases = 420; thorough_cases = 16000; runs_quick = 16; runs_thorough = 60
    technique = SimB.technique + 'generated functions compiled by slimcc are single-stepped and interrupted at seeded instructions by handlers that run the same functions on the stack right below the red zone (which is poisoned at every step); results must equal those of the same text compiled by gcc without interruptions'
    note = 'signal frames follow the ABI: only 128 bytes below the stack pointer survive, all registers are restored'
    def more(self, r, g, s):
        h = []
        for k in range(3):
            g.begin(); f = r.choice(g.fns)
            if f['ret'] in snip.STRUCTS: m, t = snip.STRUCTS[f['ret']][0]; m = '.' + m
            else: m, t = '', f['ret']
            x = g.callto(f, 2) + m; h.append(('double', x) if t in snip.FLTS else ('long', x))
        s['han'] = h
    def tail(self, s):
        if not s.get('han'): return ''
        return 'void h@(int sig) {\n  switch (sig - 10) {\n' + ''.join(f'  case {k}: {{ {t} v = {x}; {"LOGD" if t == "double" else "LOG"}({900 + k}, v); break; }}\n' for k, (t, x) in enumerate(s['han'])) + '  }\n}\n'
    def model(self, s): return 'sim_poison = 1; sim_maxsig = 6; ' + ('void hp_(int); sim_handler = hp_;' if s.get('han') else '')
    def render(self, s):
        d = super().render(s)
        if s.get('han'): d['model'] += 'void (*ref_handler)(int) = hr_;\n'
        return d
class C18(Snip):
    id = 'C18'; level = 'exploration'; quick_cases = 420; thorough_cases = 16000; runs_quick = 16; runs_thorough = 60; threads = (1, 3)
    technique = SimB.technique + 'two to six threads run generated functions (often the same ones) compiled by slimcc under seeded instruction-level interleavings; every thread must report what the same text compiled by gcc reports when the threads run one after another'
    note = 'the functions touch automatic objects and arguments only'
    def more(self, r, g, s): s['n'] = max(2, len(s['thr'])) if r.random() < .7 else r.randint(2, 6)
    def nthr(self, s): return max(s['n'], 2)
