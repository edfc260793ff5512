"""C01 output faults, C02 input faults."""
import copy
from checks.simbase import *

WR = ('openw', 'creat', 'write', 'close', 'lseek')

class C01(SimA):
    id = 'C01'; level = 'exploration'
    technique = 'deterministic simulation with fault injection: write/close/open/disk-full faults at seeded points of simulated driver runs, compared with the fault-free run'
    note = 'Seeded fault placement (not exhaustive); assembler and linker are stubs; kernel reports failures honestly.'
    rule = 'case = generated project + command line; every evaluation injects 1-3 write-side faults chosen among the events of the fault-free run of that command; non-trivial when a fault fired on an output, intermediate or dependency file or stdout'
    quick_cases = 16000; thorough_cases = 600000
    def cases(self, ctx, r, i, tier):
        b = gen_base(r, size=r.choice([1, 3, 6, 10]))
        b['knobs'] = {'bufsiz': r.choice([4096, 4096, 1024, 256, 64, 8192])}
        if r.random() < .3: b['pre'] = {p: 'OLD\n' * r.randrange(1, 300) for p in b['outs']}
        g = self.goldrun(ctx, b)
        if status(g): return
        evs = [e for e in g.ev if e[2] in WR and not (e[2] == 'close' and e[3] in b['files']) and '/include/' not in e[3]]
        # interesting first: last events of each path (flush/close), then anything
        yield {'base': b, 'faults': [], 'knobs': {}}
        if not evs: return
        last = {}
        for e in evs: last[(e[0], e[3], e[2])] = e
        pick = list(last.values())
        for v in range(6):
            f = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                e = r.choice(pick) if r.random() < .6 else r.choice(evs)
                k = r.random()
                errs = {'write': [28, 5, 122, 27], 'close': [5, 28, 122], 'openw': [28, 13, 24, 23, 30, 12], 'creat': [28, 13, 24, 23, 30, 12], 'lseek': [29, 5]}[e[2]]
                if e[2] == 'write' and k < .15: f.append((e[0], e[1], 'short', r.randrange(1, 60), 0, e[2]))
                elif e[2] == 'write' and k < .3 and e[3] != '<std1>': f.append((e[0], e[1], 'quota', r.choice([0, 1, 10, 100, 1000]), 0, e[2]))
                elif e[2] == 'close': f.append((e[0], e[1], 'err', r.choice(errs), r.choice([0, 1, 2]), e[2]))
                else: f.append((e[0], e[1], 'err', r.choice(errs), 0, e[2]))
            yield {'base': b, 'faults': f, 'knobs': {}}
        for v in range(2):
            tot = sum(s for s, *_ in g.new.values())
            yield {'base': b, 'faults': [], 'knobs': {'quota': r.randrange(0, tot + 200)}}
    def execute(self, ctx, s):
        b = s['base']; g = self.goldrun(ctx, b, nopre=True); o = Outcome()
        if status(g): o.skipped = True; o.loghash = g.hash; return o
        r = self.run(ctx, b, faults=s['faults'], knobs=s['knobs'])
        base_outcome(r, o)
        for f in r.fired:
            nm = f[5:7]
            kind = 'stdout' if nm[1] == '<std1>' else 'tmp' if nm[1].startswith('/tmp') else 'output'
            o.counts[f'{f[2]}:{nm[0]}:{kind}'] += 1; o.cover.append(f'{b["mode"]}:{f[2]}:{nm[0]}:{kind}:{f[1] if len(r.fired) < 2 else 0}:{sha(repr(b["cmd"]))[:6]}')
        if s['knobs']: o.counts['diskfull'] += 1; o.cover.append('quota' + sha(repr(s))[:8])
        o.nontrivial = bool(r.fired or s['knobs'])
        o.sample = {'cmd': b['cmd'], 'faults': s['faults'], 'knobs': s['knobs'], 'status': status(r)}
        if r.hung or r.deadlock: return o.fail('hang', f'the driver does not terminate after {s["faults"]}')
        if status(r) == 0:
            for p in sorted(set(b['outs']) | set(g.new)):
                if p not in r.fs: return o.fail('missing', f'exit status 0 but {p} does not exist; cmd={b["cmd"]} faults={s["faults"]} {s["knobs"]}')
                if r.fs[p][:2] != g.fs[p][:2]:
                    return o.fail('wrong', f'exit status 0 but {p} differs from the fault-free output ({r.fs[p][0]} vs {g.fs[p][0]} bytes); cmd={b["cmd"]} faults={s["faults"]} {s["knobs"]}')
            if r.out['r0'] != g.out['r0']: return o.fail('stdout', f'exit status 0 but standard output differs ({len(r.out["r0"])} vs {len(g.out["r0"])} bytes); cmd={b["cmd"]} faults={s["faults"]}')
        o.counts['exit0' if status(r) == 0 else 'exitN'] += 1
        return o
    def shrink(self, s):
        yield from shrink_list(s, 'faults')
        for nb in shrink_base(s['base']): yield dict(s, base=nb)

class C02(SimA):
    id = 'C02'
    technique = 'deterministic simulation with fault injection: open/read/stat/lseek errors and short reads on every input at seeded points, compared with the fault-free run'
    note = 'Seeded fault placement; a lookup that fails with EACCES/ENOENT/ENOTDIR counts as "not there".'
    rule = 'case = generated project (headers, embeds, -include, stdin, .S) + command; every evaluation injects input-side faults at events of the fault-free run or limits all reads to N bytes; non-trivial when a fault fired on an input or a short read happened'
    quick_cases = 16000; thorough_cases = 600000
    def cases(self, ctx, r, i, tier):
        b = gen_base(r, size=r.choice([1, 2, 4, 8]), embed=r.random() < .5)
        b['knobs'] = {'bufsiz': r.choice([4096, 4096, 512, 64, 16])}
        if r.random() < .15:
            p = '/w/' + b['srcs'][0]
            if p in b['files'] and b['stdin'] is None: b['files'][p] = b['files'][p].rstrip('\n') + r.choice(['', '\\', '\\\n', '\n\n', '//x', '\r\n', '/*c*/'])
        g = self.goldrun(ctx, b)
        if status(g): yield {'base': b, 'faults': [], 'knobs': {}}; return
        if r.random() < .3: # the same text as a file and on standard input
            c = copy.deepcopy(b); c['text'] = b['files']['/w/' + b['srcs'][0]].replace('__FILE__', '"f"'); c['way'] = r.choice(['-S', '-c', '-E']); c['cmd'] = list(ccgen.BASE) + ccgen.INC + list(r.choice([o for o in ccgen.OPTS if '-g' not in o])) + (['-P'] if c['way'] == '-E' else []) + [x for x in b['cmd'] if x[:2] == '-D' or x[:2] == '-U']
            for k, x in enumerate(b['cmd']):
                if x == '-include': c['cmd'] += b['cmd'][k:k + 2]
            if not b['srcs'][0].endswith('.S'): yield {'base': c, 'faults': [], 'knobs': {'readmax': r.choice([1, 2, 5, 100, 4096, 1 << 20])}, 'via': 1}
        evs = [e for e in g.ev if e[2] in ('open', 'read', 'stat', 'fstat', 'lseek', 'close') and e[0] in [l for l, p in g.procs.items() if not p.execname]
               and not e[3].startswith('/tmp') and not e[3].startswith('/usr/lib')
               and not (e[2] == 'close' and os.path.normpath(os.path.join('/w', e[3])) in b['outs'])]
        if not evs: return
        byp = {}
        for e in evs: byp.setdefault((e[2], e[3]), []).append(e)
        mine = [e for e in evs if not e[3].startswith(('/usr', '/cc'))]
        for v in range(7):
            f = []
            for _ in range(r.choice([1, 1, 1, 2])):
                e = r.choice(mine if mine and r.random() < .7 else evs)
                if e[2] == 'read' and r.random() < .25: f.append((e[0], e[1], 'short', r.randrange(1, 200), 0, e[2]))
                elif e[2] == 'stat' or e[2] == 'fstat': f.append((e[0], e[1], 'err', r.choice([5, 5, 12, 116, 75]), 0, e[2]))
                elif e[2] == 'open': f.append((e[0], e[1], 'err', r.choice([13, 5, 24, 23, 12, 116, 4]), 0, e[2]))
                elif e[2] == 'lseek': f.append((e[0], e[1], 'err', r.choice([5, 29]), 0, e[2]))
                elif e[2] == 'close': f.append((e[0], e[1], 'err', 5, 0, e[2]))
                else: f.append((e[0], e[1], 'err', r.choice([5, 5, 116, 12, 21]), 0, e[2]))
            yield {'base': b, 'faults': f, 'knobs': {}}
        yield {'base': b, 'faults': [], 'knobs': {'readmax': r.choice([1, 2, 3, 7, 64, 4095])}}
        # a directory where a file is expected: reading it fails
        hs = [p for p in b['files'] if p.endswith('.h') or p.endswith('.bin')]
        if hs: yield {'base': b, 'faults': [], 'knobs': {}, 'dirfor': r.choice(hs)}
    def via(self, ctx, s):
        b = s['base']; o = Outcome(); two = []
        for f in (0, 1):
            x = dict(b, files={**b['files'], '/w/stdtxt.c': b['text']}, stdin=b['text'] if f else None, cmd=b['cmd'] + [b['way'], '-o', 'via.out'] + (['-x', 'c', '-'] if f else ['stdtxt.c']))
            r = self.run(ctx, x, knobs=s['knobs']); base_outcome(r, o); two.append((status(r), r.fs.get('/w/via.out', ('',))[:2] if status(r) == 0 else r.err['r0'][-300:]))
        o.nontrivial = True; o.counts['file and standard input'] += 1; o.cover.append('via' + sha(repr(s))[:10]); o.sample = {'cmd': b['cmd'], 'knobs': s['knobs'], 'via': 'stdin'}
        if two[0] != two[1]: return o.fail('via', f'the same text as a file and on standard input gives different results: {two[0]!r} and {two[1]!r}: cmd={b["cmd"]} {b["way"]} {s["knobs"]}')
        return o
    def execute(self, ctx, s):
        if s.get('via'): return self.via(ctx, s)
        b = s['base']; g = self.goldrun(ctx, b); o = Outcome()
        if status(g):
            o.loghash = g.hash
            if not s['faults'] and not s['knobs'] and not s.get('dirfor'): return o.fail('rejected', f'a valid project is not compiled without any fault: cmd={b["cmd"]} status {status(g):#x} stderr={g.err["r0"][-300:]!r}')
            o.skipped = True; return o
        bb = b
        if s.get('dirfor'):
            bb = copy.deepcopy(b); del bb['files'][s['dirfor']]; bb['dirs'] = bb.get('dirs', []) + [s['dirfor']]
        r = self.run(ctx, bb, faults=s['faults'], knobs=s['knobs'])
        base_outcome(r, o)
        hard = 0; soft = not r.fired
        for f in r.fired:
            nm = f[5:7]
            o.counts[f'{f[2]}:{nm[0]}'] += 1; o.cover.append(f'{b["mode"]}:{f[2]}:{nm[0]}:{f[1]}:{sha(repr(b["cmd"]))[:6]}')
            if f[2] == 'err' and nm[0] in ('open', 'read', 'stat', 'fstat'): hard += 1
        if s['knobs']: o.counts['readmax'] += 1; o.cover.append('readmax' + sha(repr(s))[:8])
        if s.get('dirfor'): o.counts['directory'] += 1; o.cover.append('dir' + sha(repr(s))[:8])
        o.nontrivial = bool(r.fired or s['knobs'] or s.get('dirfor'))
        o.sample = {'cmd': b['cmd'], 'faults': s['faults'], 'knobs': s['knobs'], 'dir': s.get('dirfor'), 'status': status(r)}
        desc = f'cmd={b["cmd"]} faults={r.fired} {s["knobs"]} dir={s.get("dirfor")}'
        if r.hung or r.deadlock: return o.fail('hang', f'the driver does not terminate: {desc}')
        if status(r) == 0:
            if s.get('dirfor') and (s['dirfor'].endswith('.h') or s['dirfor'].endswith('.bin')):
                # the file may simply not be used by this translation
                used = any(e[3].endswith(s['dirfor'].split('/')[-1]) and e[2] == 'open' and e[4] >= 0 for e in g.ev if e[4] != 'KILL')
                if not used: return o
            for p in sorted(g.new):
                if p not in r.fs or r.fs[p][:2] != g.fs[p][:2]:
                    return o.fail('wrong', f'exit status 0 but {p} differs from the fault-free output: {desc}')
            if r.out['r0'] != g.out['r0']: return o.fail('stdout', f'exit status 0 but standard output differs from the fault-free output: {desc}')
        else:
            only_soft = not s.get('dirfor') and all(f[2] == 'short' or f[5] == 'close' and not f[6].startswith(('/tmp', '<')) and os.path.normpath(os.path.join('/w', f[6])) not in b['outs'] for f in r.fired)
            if only_soft: return o.fail('shortread', f'short reads make the run fail (status {status(r):#x}): {desc} stderr={r.err["r0"][-300:]!r}')
            if r.procs['r0'].exited and not r.err['r0'].strip() and (not r.fired or len(r.fired) == 1 and r.fired[0][5] in ('open', 'read', 'stat', 'fstat', 'lseek')): return o.fail('nodiag', f'run fails without a diagnostic: {desc}')
            if not r.procs['r0'].exited: return o.fail('crash', f'input fault kills the compiler (status {status(r):#x}): {desc}')
        o.counts['exit0' if status(r) == 0 else 'exitN'] += 1
        return o
    def shrink(self, s):
        yield from shrink_list(s, 'faults')
        for nb in shrink_base(s['base']): yield dict(s, base=nb)
