"""C08 memory reclamation, C09 environment independence, C10 out of memory, C11 clock, C13 several inputs."""
import copy, glob, re, time
from checks.simbase import *

TESTFLAGS = ['-Itest', '-fenable-universal-char', '-fcommon', '-std=c23', '-fdefer-ts']
_tests = None
def repo_tests():
    global _tests
    if _tests is None:
        fs = sorted(glob.glob(REPO + '/test/*.c') + glob.glob(REPO + '/test/*.h') + glob.glob(REPO + '/test/*/*') )
        fs = [f for f in fs if os.path.isfile(f) and os.path.getsize(f) < 400000 and not f.endswith(('.exe', '.o'))]
        _tests = {f'/w/test/' + os.path.relpath(f, REPO + '/test'): f for f in fs}
    return _tests
SELF = ['alloc.c', 'codegen.c', 'hashmap.c', 'main.c', 'parse.c', 'preprocess.c', 'strings.c', 'tokenize.c', 'type.c', 'unicode.c']

def macro_text(r, n):
    """macro-heavy text: nesting, rescanning, pasting, stringising, variadics, recursion, conditionals"""
    L = []; names = []
    for k in range(n):
        kind = r.randrange(9); a = names[:] or ['1']
        c = lambda: r.choice(a)
        if kind == 0: L.append(f'#define O{k} ({r.choice(["1", "2u", "0x3"])} + {c()})'); names.append(f'O{k}')
        elif kind == 1: L.append(f'#define F{k}(x,y) ((x) * {c()} + (y) + (x))'); names.append(f'F{k}({c()},{r.randrange(9)})')
        elif kind == 2: L.append(f'#define V{k}(a,...) (a __VA_OPT__(+ V{k}_S(__VA_ARGS__)) + {c()})\n#define V{k}_S(a,...) a'); names.append(f'V{k}({c()},{r.choice(["1", "2,3", ""]) or "7"})')
        elif kind == 3: L.append(f'#define P{k}(a,b) a##b\n#define PX{k} {r.randrange(99)}'); names.append(f'P{k}(PX,{k})')
        elif kind == 4: L.append(f'#define S{k}(x) (sizeof(#x)+{c()})'); names.append(f'S{k}({c()} q)')
        elif kind == 5: L.append(f'#define R{k} R{k}_\n#define R{k}_ ({c()} + 0*sizeof(int[1]))'); names.append(f'R{k}')
        elif kind == 6: L.append(f'#define A{k}(f) f\n#define B{k}(x) (x-{c()})'); names.append(f'A{k}(B{k})(A{k}({c()}))')
        elif kind == 7: L.append(f'#if {c()} > 0 && defined(A{k}) || {r.randrange(2)}\n#define C{k} 1\n#else\n#define C{k} 2\n#endif'); names.append(f'C{k}')
        else:
            L.append(f'#undef U{k}\n#define U{k} {c()}\nint u{k}=(int)(U{k});\n#undef U{k}')
        if r.random() < .5 and names: L.append(f'int m{k}[]={{(int)({r.choice(names)}),(int)({r.choice(names)})}};int f{k}(int z){{return z+(int)({r.choice(names)});}}')
    return '\n'.join(L) + '\n'

def gen_src(r, big=False, tests=True):
    """-> base with one or more inputs, plus outs"""
    k = r.random()
    if tests and k < .3:
        ts = [p for p in repo_tests() if p.endswith('.c') and p.count('/') == 3]
        if ts:
            t = r.choice(ts); opt = r.choice([[], [], ['-g'], ['-fPIC'], ['-O0']])
            m = r.choice(['-S', '-S', '-E'])
            return {'files': {}, 'hfiles': repo_tests(), 'cmd': TESTFLAGS + opt + [m, t[3:], '-o', 'x.out'], 'stdin': None, 'outs': ['/w/x.out'], 'mode': 'T', 'srcs': [], 'dirs': []}
    if k < .32 and big:
        s = r.choice(SELF); fs = {'/w/' + os.path.basename(f): f for f in glob.glob(REPO + '/*.c') + glob.glob(REPO + '/*.h')}
        return {'files': {}, 'hfiles': fs, 'cmd': ['-I.', '-S', s, '-o', 'x.out'], 'stdin': None, 'outs': ['/w/x.out'], 'mode': 'self', 'srcs': [], 'dirs': []}
    b = gen_base(r, size=r.choice([2, 5, 10, 25]), allow=('S', 'S', 'S', 'c', 'E', 'multi', 'link', 'M', 'MD', 'stdin'))
    if r.random() < .6:
        for s in b['srcs']:
            p = '/w/' + s; t = macro_text(r, r.randrange(2, 14)) + b['files'][p] if r.random() < .5 else b['files'][p] + macro_text(r, r.randrange(2, 14))
            if b['stdin'] == b['files'][p]: b['stdin'] = t
            b['files'][p] = t
    return b

def diff_run(o, r, g, b, desc, what=('out', 'err')):
    if r.hung or r.deadlock: return o.fail('hang', f'does not terminate: {desc}')
    if status(r) != status(g): return o.fail('status', f'exit status {status(r):#x} instead of {status(g):#x}: {desc} stderr={r.err["r0"][-200:]!r} / {g.err["r0"][-200:]!r}')
    if r.out['r0'] != g.out['r0']: return o.fail('stdout', f'standard output differs: {desc}')
    if r.err['r0'] != g.err['r0']: return o.fail('stderr', f'diagnostics differ: {r.err["r0"][-200:]!r} / {g.err["r0"][-200:]!r}: {desc}')
    for p in sorted(set(g.fs) | set(r.fs)):
        a, c = r.fs.get(p), g.fs.get(p)
        if (a is None) != (c is None): return o.fail('files', f'{p} exists only {"in the reference" if a is None else "here"}: {desc}')
        if a[:2] != c[:2]: return o.fail('output', f'{p} differs ({a[0]} vs {c[0]} bytes): {desc}')
    return o

class Ctx2(Ctx):
    def __init__(self, exe, exe2): super().__init__(exe); self.sv2 = Server(exe2)

class C08(SimA):
    id = 'C08'
    technique = 'deterministic simulation: seeded allocator behaviour (reuse order, poisoning, guard pages) and simulated memory pressure that switches reclamation on at chosen points; outputs compared with a build that never reuses memory'
    note = 'The reference is the same source built with its own USE_ASAN switch (no token recycling) on an allocator that never reuses memory.'
    rule = 'case = generated program (feature snippets, macro-heavy text, headers) or a source of the repository; evaluation = one combination of reclamation mode and allocator behaviour; non-trivial when the run freed memory or reused it'
    quick_cases = 5200; thorough_cases = 200000
    VAR = [{'rss_mode': 1}, {'rss_mode': 1, 'reuse': 2}, {'rss_mode': 1, 'reuse': 0}, {'rss_mode': 1, 'reuse': 1, 'poison': 0}, {'rss_mode': 1, 'reuse': 1, 'move': 1, 'fill': 256, 'gap': 256}, {'rss_mode': 1, 'reuse': 0, 'poison': 255},
           {'rss_mode': 0}, {'rss_mode': 0, 'reuse': 2, 'fill': 256}, {'rss_mode': 3}, {'rss_mode': 3, 'reuse': 2, 'poison': 0x41}, {'asan': 1}, {'asan': 1, 'reuse': 2}, {'asan': 1, 'reuse': 0, 'poison': 0x3f}, {'asan': 1, 'reuse': 1, 'poison': 1, 'move': 1},
           {'rss_mode': 2, 'rss_k': 1}, {'rss_mode': 2, 'rss_k': 2, 'reuse': 2}]
    GUARD = [{'asan': 1, 'guard': 1, 'reuse': 0}, {'rss_mode': 1, 'guard': 1, 'reuse': 0}]
    def prepare(self):
        from simcc.build import build
        self.exe = build(); self.exe2 = build('asan')
    def open(self): return Ctx2(self.exe, self.exe2)
    def close(self, ctx): ctx.sv.close(); ctx.sv2.close()
    def ref(self, ctx, b):
        key = sha(repr(b)); g = ctx.gold.get(key)
        if g is None:
            ctx.sv2.cmd('reset'); g = run_phase(ctx.sv2, self.phase(b, knobs={'reuse': 0, 'poison': -1, 'heapmax': 1 << 33}))
            ctx.gold[key] = g
            if len(ctx.gold) > 32: ctx.gold.popitem(last=False)
        return g
    def cases(self, ctx, r, i, tier):
        b = gen_src(r, big=(tier != 'quick' or i % 100 == 7))
        if r.random() < .1 and b['srcs'] and b['stdin'] is None:
            p = '/w/' + r.choice(b['srcs']); b['files'][p] += '\n' + r.choice(ccgen.ERRS).replace('@', '779') + '\n'
        vs = r.sample(self.VAR, 5 if b['mode'] not in ('self',) else 2)
        if r.random() < .25 and b['mode'] != 'self': vs.append(r.choice(self.GUARD))
        for v in vs:
            v = dict(v)
            if 'rss_k' in v: v['rss_k'] = r.randrange(1, 4)
            v['seed'] = r.randrange(1, 1 << 20)
            yield {'base': b, 'var': v}
    def execute(self, ctx, s):
        b = s['base']; o = Outcome(); g = self.ref(ctx, b)
        v = dict(s['var']); sv = ctx.sv2 if v.pop('asan', 0) else ctx.sv
        sv.cmd('reset')
        if v.get('guard'): v['heapmax'] = 1 << 33
        r = run_phase(sv, self.phase(b, knobs=v))
        base_outcome(r, o); o.loghash = sha(o.loghash, g.hash)
        o.counts[' '.join(f'{k}={x}' for k, x in sorted(s['var'].items()) if k not in ('seed', 'rss_k'))] += 1
        o.counts['exit0' if status(g) == 0 else 'exitN'] += 1
        o.nontrivial = True; o.cover = [sha(g.hash, repr({k: x for k, x in s['var'].items() if k != 'seed'}))]; o.sample = {'cmd': b['cmd'], 'variant': s['var'], 'allocations': sum(p.nalloc for p in r.procs.values())}
        return diff_run(o, r, g, b, f'cmd={b["cmd"]} allocator={s["var"]}')
    def shrink(self, s):
        if s['base']['files']:
            for nb in shrink_base(s['base']): yield dict(s, base=nb)

class C09(SimA):
    id = 'C09'
    technique = 'deterministic simulation: the same command under seeded variations of every nondeterminism source (memory contents, heap and stack placement, process ids, temporary names, clock, buffer sizes), outputs compared byte for byte'
    note = 'Programs asking for the time are left out (C11).'
    rule = 'case = generated or repository source, valid or rejected; evaluation = one seeded environment; every evaluation is non-trivial'
    quick_cases = 5200; thorough_cases = 200000
    def cases(self, ctx, r, i, tier):
        b = gen_src(r, big=(i % 100 == 7))
        if r.random() < .25 and b['srcs'] and b['stdin'] is None:
            p = '/w/' + r.choice(b['srcs']); b['files'][p] += '\n' + r.choice(ccgen.ERRS).replace('@', '779') + '\n'
        hf = b.get('hfiles', {}); clock = not any(w in t for w in ('__DATE__', '__TIME__', '__TIMESTAMP__') for t in [open(hf['/w/' + a], errors='replace').read() for a in b['cmd'] if '/w/' + a in hf])
        for v in range(5):
            k = {'fill': r.choice([0, 1, 0x55, 0xaa, 0xff, 256, 256]), 'stackfill': r.choice([0, 1, 0x55, 0xff, 256, 256, -1]), 'stackshift': r.choice([0, 16, 4096, 48, 65536]), 'gap': r.choice([0, 64, 1024]), 'move': r.randrange(2), 'reuse': r.choice([0, 1, 2]), 'poison': r.choice([-1, 0, 0xdd, 255]),
                 'pidbase': r.choice([2, 999, 32700]), 'pidstep': r.choice([1, 7]), 'seed': r.randrange(1, 1 << 30), 'now': r.choice([0, 1, 951782400, 1700000000, 4102444800]), 'now_ns': r.randrange(10**9), 'tick': r.choice([0, 1000, 10**6, 10**9]), 'bufsiz': r.choice([64, 512, 4096, 65536]), 'rss_mode': r.choice([0, 0, 1, 2, 3]), 'rss_k': r.randrange(4)}
            if r.random() < .4:
                keep = set(r.sample(sorted(k), 3)) | {'seed'}; k = {x: y for x, y in k.items() if x in keep}
            if not clock:
                for x in ('now', 'now_ns', 'tick'): k.pop(x, None)
            if r.random() < .2: k['nofd'] = r.choice([4, 4, 5, 1, 2, 6, 7])
            yield {'base': b, 'knobs': k}
    def execute(self, ctx, s):
        b = s['base']; o = Outcome(); g = self.goldrun(ctx, b, '')
        nofd = s['knobs'].get('nofd', 0)
        if nofd: # a standard stream the run uses stays open; diagnostics are not compared when there is nowhere to write them
            nofd &= ~((1 if b['stdin'] is not None or '-' in b['cmd'] else 0) | (2 if g.out['r0'] else 0))
        r = self.run(ctx, b, knobs=dict(s['knobs'], nofd=nofd)); base_outcome(r, o)
        if nofd & 4: r.err['r0'] = g.err['r0']; o.loghash = sha(o.loghash, g.hash)
        for k in s['knobs']: o.counts['varied ' + k] += 1
        o.counts['exit0' if status(g) == 0 else 'exitN'] += 1
        o.nontrivial = True; o.cover = [sha(g.hash, repr(s['knobs']))]; o.sample = {'cmd': b['cmd'], 'knobs': s['knobs']}
        return diff_run(o, r, g, b, f'cmd={b["cmd"]} environment={s["knobs"]}')
    def shrink(self, s):
        for k in list(s['knobs']):
            n = copy.deepcopy(s); n['knobs'].pop(k); yield n
        if s['base']['files']:
            for nb in shrink_base(s['base']): yield dict(s, base=nb)

class C10(SimA):
    id = 'C10'
    technique = 'deterministic simulation with fault injection: allocation number n (once, or it and all later ones) fails in the driver or a per-input process; success must mean the fault-free output'
    note = 'A crash on a failed allocation counts as not reporting success.'
    rule = 'case = command; evaluation = one or two seeded allocation failures; non-trivial when an allocation failed'
    quick_cases = 24000; thorough_cases = 1000000
    def cases(self, ctx, r, i, tier):
        b = gen_base(r, size=r.choice([1, 2, 4]), embed=r.random() < .3)
        b['knobs'] = {'bufsiz': r.choice([4096, 512, 128])}
        if r.random() < .4:
            for s in b['srcs']:
                p = '/w/' + s; t = b['files'][p] + macro_text(r, 4) + '\nstatic int rel@;int*big@[]={%s};'.replace('@', '991') % ','.join(['&rel991'] * r.choice([2, 40]))
                if b['stdin'] == b['files'][p]: b['stdin'] = t
                b['files'][p] = t
        g = self.goldrun(ctx, b, '')
        if status(g): return
        procs = [(l, p.nalloc) for l, p in g.procs.items() if p.nalloc > 0 and not p.execname]
        if not procs: return
        tot = max(n for l, n in procs)
        for v in range(24):
            l, n = r.choice(procs); mf = []
            for _ in range(r.choice([1, 1, 1, 2])):
                x = r.randrange(1, n + 1) if r.random() < .8 else max(1, n - r.randrange(0, 60))
                mf.append((l, x, r.choice(['once', 'once', 'once', 'from'])))
            yield {'base': b, 'mfail': mf}
    def execute(self, ctx, s):
        b = s['base']; g = self.goldrun(ctx, b, ''); o = Outcome()
        if status(g): o.skipped = True; o.loghash = g.hash; return o
        r = self.run(ctx, b, mfail=s['mfail']); base_outcome(r, o)
        st = status(r); o.nontrivial = bool(r.mfired); o.counts['failed allocations'] += len(r.mfired)
        o.counts['hang' if r.hung else 'exit0' if st == 0 else 'crash' if st & 127 else 'exitN'] += 1
        o.cover = [f'{sha(repr(b["cmd"]))[:6]}:{g.procs["r0"].nalloc}:{s["mfail"]}']; o.sample = {'cmd': b['cmd'], 'mfail': s['mfail'], 'status': st}
        if st == 0 and not r.hung and not r.deadlock:
            for p in sorted(set(g.new) | set(b['outs'])):
                if p not in r.fs or r.fs[p][:2] != g.fs[p][:2]: return o.fail('wrong', f'allocation failure {s["mfail"]}: exit status 0 but {p} differs from the fault-free output; cmd={b["cmd"]}')
            if r.out['r0'] != g.out['r0']: return o.fail('stdout', f'allocation failure {s["mfail"]}: exit status 0 but standard output differs; cmd={b["cmd"]}')
        return o
    def shrink(self, s):
        yield from shrink_list(s, 'mfail')

MON = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
class C11(SimA):
    id = 'C11'
    technique = 'deterministic simulation with a simulated clock: jumps, skew and coarse ticks at seeded points; the time macros are checked against the recorded clock history and the rest against a run with a constant clock'
    note = 'UTC only; the time zone data base is not simulated.'
    rule = 'case = program using __DATE__, __TIME__, __TIMESTAMP__ in sources, headers, macros and conditionals; evaluation = one clock history; non-trivial when the clock changed by at least a second during the run'
    quick_cases = 16000; thorough_cases = 500000
    def cases(self, ctx, r, i, tier):
        files, srcs = ccgen.project(r, r.choice([1, 1, 2]), r.choice([1, 2]))
        files['/w/t.h'] = '#ifndef T_H\n#define T_H\nstatic char hd[]=__DATE__,ht[]=__TIME__,hs[]=__TIMESTAMP__;\n#define NOW __DATE__ "|" __TIME__\n#endif\n'
        for s in srcs:
            t = files['/w/' + s]; T = 'char tdX[]=__DATE__;char ttX[]=__TIME__;char tsX[]=__TIMESTAMP__;'
            parts = [T.replace('X', str(k)) for k in range(r.randrange(1, 4))]
            if r.random() < .7: parts += ['\n#include "t.h"\n' 'char tn[]=NOW;']
            if r.random() < .3: parts += ['\n#define ST(x) #x\n#define XST(x) ST(x)\nchar xs[]=XST(__DATE__) XST(__TIME__);']
            if r.random() < .3: parts.append('\n#undef __NOPE\n_Static_assert(sizeof(__DATE__)==12&&sizeof(__TIME__)==9&&sizeof(__TIMESTAMP__)==25);')
            ls = t.split('\n'); r.shuffle(parts)
            if any('NOW' in p for p in parts): parts.sort(key=lambda p: 'NOW' in p and '#include' not in p)
            files['/w/' + s] = '\n'.join(parts[:1] + [t] + parts[1:]) + '\n'
        m = r.choice(['E', 'E', 'S', 'c', 'link', 'MD'])
        cmd = list(ccgen.BASE) + ccgen.INC; outs = []
        if m == 'E': cmd += ['-E'] + srcs
        elif m in 'Sc': cmd += ['-' + m] + srcs; outs = ['/w/' + s[:-1] + ('o' if m == 'c' else m.lower()) for s in srcs]
        elif m == 'MD': cmd += ['-MD', '-S'] + srcs; outs = ['/w/' + s[:-1] + x for s in srcs for x in 'sd']
        else: cmd += srcs + ['-o', 'prog']; outs = ['/w/prog']
        t0 = r.choice([0, 59, 86399, 951782399, 951782400, 1700000000, 1735689599, 1709251199, 4102444799, r.randrange(0, 4 * 10**9), r.randrange(0, 4 * 10**9)])
        mt = {p: (r.randrange(0, 4 * 10**9), r.randrange(10**9)) for p in files}
        b = {'files': files, 'cmd': cmd, 'stdin': None, 'outs': outs, 'mode': m, 'srcs': srcs}
        g = self.goldrun(ctx, dict(b, knobs={'now': t0, 'now_ns': 999999000, 'tick': 1000}), 't')
        if status(g): return
        for v in range(4):
            f = []
            tev = [e for e in g.ev if e[2] == 'time']
            for _ in range(r.choice([0, 1, 2, 3, 6])):
                e = r.choice(g.ev)
                if tev and r.random() < .3: e = r.choice(tev); e = (e[0], e[1] + r.choice([0, 1, 2]))
                f.append((e[0], e[1], 'clock', r.choice([1, -1, 2, 3600, -3600, 86400, -86400, 31536000, r.randrange(-10**6, 10**6)])))
            yield {'base': b, 'faults': f, 'mtimes': mt, 'knobs': {'now': t0, 'now_ns': r.choice([0, 999999000, 999990000, 999999999]), 'tick': r.choice([1000, 1000, 10**6, 10**8, 10**9, 0])}}
    def execute(self, ctx, s):
        b = s['base']; o = Outcome(); kn = s['knobs']
        r = self.run(ctx, b, 't', faults=s['faults'], knobs=kn, mtimes=s['mtimes']); base_outcome(r, o)
        ch = sum(1 for f in r.fired); cands = set(); segs = [(c[0], c[2]) for c in r.clk]
        for a, z in segs:
            if z - a <= 40: cands.update(range(a, z + 1))
            else: cands.update([a, z])
        times = [int(e[3]) for e in r.ev if e[2] == 'time' and e[3].lstrip('-').isdigit()]
        o.counts['clock jumps'] += ch; o.counts['clock readings'] += len(times)
        o.nontrivial = len(cands) > 1; o.cover = [f'{b["mode"]}:{sorted((f[0], f[1]) for f in s["faults"])}:{kn["tick"]}:{kn["now"]}:{sha(repr(b["cmd"]))[:4]}']
        desc = f'cmd={b["cmd"]} clock faults={r.fired} {kn}'; o.sample = {'cmd': b['cmd'], 'clock': segs[:5], 'readings': times[:5]}
        if status(r): return o.fail('status', f'run fails ({status(r):#x}) under clock changes: {desc} {r.err["r0"][-200:]!r}')
        tried = []
        for T in [t for t in dict.fromkeys(times) if t in cands or any(a <= t <= z for a, z in segs)] + sorted(cands):
            if T in tried: continue
            if len(tried) > 12: break
            tried.append(T)
            g = self.goldrun(ctx, dict(b, knobs={'now': T, 'now_ns': 0, 'tick': 0}, mt=s['mtimes']), '') if False else self.const(ctx, b, T, s['mtimes'])
            if g.out['r0'] == r.out['r0'] and g.err['r0'] == r.err['r0'] and all(r.fs.get(p, (0,))[:2] == g.fs.get(p, (1,))[:2] for p in b['outs']): break
        else:
            return o.fail('instant', f'the outputs are those of no single instant the clock showed during the run (tried {tried}): {desc}')
        if b['mode'] == 'E':
            text = r.out['r0'].decode('latin1'); tm = time.gmtime(T)
            d = f'{MON[tm.tm_mon - 1]} {tm.tm_mday:2d} {tm.tm_year}'; h = f'{tm.tm_hour:02d}:{tm.tm_min:02d}:{tm.tm_sec:02d}'
            cur = None
            for l in text.split('\n'):
                mk = re.match(r'# \d+ "(.*)"', l)
                if mk: cur = mk.group(1); continue
                for var, val in re.findall(r'\b([ht][dts]\d*)\[\]\s*=\s*"([^"]*)"', l):
                    if var[1] == 'd' and val != d: return o.fail('date', f'{var}: __DATE__ is {val!r}, expected {d!r}: {desc}')
                    if var[1] == 't' and val != h: return o.fail('time', f'{var}: __TIME__ is {val!r}, expected {h!r}: {desc}')
                    if var[1] == 's' and cur:
                        p = os.path.normpath(os.path.join('/w', cur)); mt = time.gmtime(s['mtimes'][p][0]) if p in s['mtimes'] else None
                        if mt is None: continue
                        e = time.strftime('%a %b ', mt) + f'{mt.tm_mday:2d} {mt.tm_hour:02d}:{mt.tm_min:02d}:{mt.tm_sec:02d} {mt.tm_year}'
                        if val != e: return o.fail('timestamp', f'{var} in {cur}: __TIMESTAMP__ is {val!r}, the file was modified {e!r}: {desc}')
        return o
    def const(self, ctx, b, T, mt):
        key = sha(repr(b), T, repr(mt)); g = ctx.gold.get(key)
        if g is None:
            g = self.run(ctx, b, knobs={'now': T, 'now_ns': 0, 'tick': 0}, mtimes=mt); ctx.gold[key] = g
            if len(ctx.gold) > 64: ctx.gold.popitem(last=False)
        return g
    def shrink(self, s):
        yield from shrink_list(s, 'faults')
        for k in ('tick',):
            if s['knobs'].get(k): n = copy.deepcopy(s); n['knobs'][k] = 0; yield n

class C13(SimA):
    id = 'C13'
    technique = 'deterministic simulation: one run over several inputs against separate runs of each input, under seeded process ids, temporary-name collisions, allocator behaviour and schedules'
    note = ''
    rule = 'case = 1-5 inputs of mixed kinds in random order with options; evaluation = one environment; non-trivial always'
    quick_cases = 8000; thorough_cases = 300000
    def cases(self, ctx, r, i, tier):
        n = r.choice([1, 2, 2, 3, 3, 4, 4]); files, srcs = ccgen.project(r, n, r.choice([1, 2, 5]), embed=r.random() < .2)
        if r.random() < .5:
            for s in srcs:
                if r.random() < .6: files['/w/' + s] = (macro_text(r, 3) + files['/w/' + s]) if r.random() < .5 else files['/w/' + s] + '#define LEAK 1\n#pragma once\n'
                if r.random() < .4: files['/w/' + s] = '#ifdef LEAK\n#error leaked\n#endif\n' + files['/w/' + s]
        files['/w/m.S'] = '#define K 5\n.globl m\nm: mov $K, %eax\n ret\n'; files['/w/n.s'] = '.globl n\nn: ret\n'; files['/w/p.o'] = 'OBJECT\npre\n'; files['/w/l.a'] = 'LIB\nar\n'; files['/w/odd.txt'] = 'int odd;\n'
        opts = list(ccgen.BASE) + ccgen.INC + list(r.choice(ccgen.OPTS)); mode = r.choice(['c', 'c', 'S', 'E', 'M', 'link', 'link', 'MD'])
        ins = srcs + r.sample(['m.S', 'n.s', 'p.o', 'l.a'], r.randrange(0, 4)) if mode in ('c', 'link') else list(srcs) + (['m.S'] if mode == 'S' and False else [])
        if n == 1 and mode in ('c', 'link') and r.random() < .5: ins = [r.choice(['m.S', 'n.s', srcs[0]])]
        r.shuffle(ins); x = []
        if r.random() < .25: x = ['-x', 'c', 'odd.txt', '-x', 'none']
        if mode == 'MD': opts += ['-MD'] + (['-MP'] if r.random() < .5 else [])
        if r.random() < .3: opts += ['-DQ=%d' % r.randrange(9)]
        pos = r.randrange(len(ins) + 1)
        for v in range(2):
            yield {'files': files, 'opts': opts, 'mode': mode, 'ins': ins, 'x': x, 'pos': pos, 'knobs': {'tmpspace': r.choice([1 << 30, 40]), 'seed': r.randrange(1, 9999), 'pidbase': r.choice([100, 7]), 'bufsiz': r.choice([4096, 300]), 'rss_mode': r.choice([0, 1, 3]), 'fill': r.choice([-1, 256])}}
    def cmdline(self, s):
        items = [[a] for a in s['ins']]
        if s['x']: items.insert(s['pos'], s['x'])
        return items
    def execute(self, ctx, s):
        o = Outcome(); mode = s['mode']; items = self.cmdline(s); flag = {'c': ['-c'], 'S': ['-S'], 'E': ['-E'], 'M': ['-M'], 'MD': ['-c'], 'link': []}[mode]
        B = {'files': s['files'], 'stdin': None}
        alone = []
        for it in items:
            name = it[0] if len(it) == 1 else it[2]
            if name.endswith(('.o', '.a')): alone.append(None); continue
            f = flag if mode != 'link' else ['-c']
            g = self.goldrun(ctx, dict(B, cmd=s['opts'] + f + it[:3]), '')
            alone.append(g)
            if status(g): o.skipped = True; o.loghash = g.hash; return o
        multi = dict(B, cmd=s['opts'] + flag + [a for it in items for a in it] + (['-o', 'prog'] if mode == 'link' else []))
        r = self.run(ctx, multi, 't', knobs=s['knobs']); base_outcome(r, o)
        o.nontrivial = True; o.cover = [sha(mode, repr([i[-1] if len(i) == 1 else i[2] for i in items]), shape(r), repr(s['opts']))]; o.counts[mode] += 1; o.sample = {'cmd': multi['cmd']}
        desc = f'cmd={multi["cmd"]}'
        if status(r): return o.fail('status', f'the joint run fails although every input compiles alone: {desc} {r.err["r0"][-300:]!r}')
        want = {}
        for it, g in zip(items, alone):
            if g: want.update({p: v for p, v in g.new.items()})
        if mode == 'link':
            # link the separately made objects in the same order
            ctx.sv.cmd('reset'); first = True; objs = []
            for k, (it, g) in enumerate(zip(items, alone)):
                if g is None: objs.append(it[0]); continue
                ph = self.phase(dict(B, cmd=s['opts'] + ['-c'] + it[:3] + ['-o', f'sep{k}.o']))
                if not first: ph['files'] = {}
                run_phase(ctx.sv, ph); first = False; objs.append(f'sep{k}.o')
            ph = self.phase(dict(B, cmd=s['opts'] + objs + ['-o', 'prog']))
            if not first: ph['files'] = {}
            l = run_phase(ctx.sv, ph); o.loghash = sha(o.loghash, l.hash)
            if status(l): o.skipped = True; return o
            want = {'/w/prog': l.fs['/w/prog']}
        for p, v in sorted(want.items()):
            if p not in r.fs: return o.fail('missing', f'the joint run does not produce {p}: {desc}')
            if r.fs[p][:2] != v[:2]: return o.fail('differs', f'{p} differs between the joint run and {"linking separately compiled objects" if mode == "link" else "the run over that input alone"}: {desc}')
        extra = [p for p in r.fs if p not in s['files'] and p not in want]
        if extra: return o.fail('extra', f'the joint run also leaves {extra}: {desc}')
        if mode in ('E', 'M'):
            exp = b''.join(g.out['r0'] for g in alone if g)
            if r.out['r0'] != exp: return o.fail('stdout', f'standard output of the joint run is not the concatenation of the separate ones: {desc}')
        return o
    def shrink(self, s):
        for k in range(len(s['ins']) if len(s['ins']) > 1 else 0):
            n = copy.deepcopy(s); del n['ins'][k]; n['pos'] = min(n['pos'], len(n['ins'])); yield n
        if s['x']: yield dict(s, x=[])
        for nb in shrink_base({'files': s['files'], 'cmd': [], 'stdin': None}): yield dict(s, files=nb['files'])
def shape(r): return sha(*[(e[0], e[2]) for e in r.ev if e[2] in ('fork', 'exec', 'exit')])
