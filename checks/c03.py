"""C03 helper failures, C04 temp hygiene, C05 failed compilation keeps earlier outputs, C06 concurrency, C07 kill and rerun."""
import copy
from checks.simbase import *

def absw(p): return os.path.normpath(os.path.join('/w', p))
def own(r, root='r0'): return {l: p for l, p in r.procs.items() if l.startswith(root + '.') and not p.inherited}
def is_ld(p): return p.execname.startswith('ld')
def shape(r):
    """order of forks, execs and child ends: the interleaving measure"""
    return sha(*[(e[0], e[2], e[4] if e[2] in ('fork', 'exec') else 0) for e in r.ev if e[2] in ('fork', 'exec', 'exit', 'wait')])

class C03(SimA):
    id = 'C03'
    technique = 'deterministic simulation with fault injection: seeded fork/exec failures, helper exit codes, signals, partial outputs, unrelated children and schedules; history checked for exit status, dependent stages and reaping'
    note = 'Seeded fault placement; the helpers themselves are stubs.'
    rule = 'case = driver command with several inputs or stages; evaluation = 1-3 process faults (fork/exec error, helper exit/signal/partial output, kill of a per-input compilation), 0-3 inherited children with their own status and time of death, random schedule; non-trivial when a fault fired or an inherited child existed'
    quick_cases = 12000; thorough_cases = 400000
    def cases(self, ctx, r, i, tier):
        b = gen_base(r, size=r.choice([1, 2, 4]), allow=('c', 'link', 'link', 'multi', 'multi', 'asm', 'stdin', 'MD'))
        b['knobs'] = {'bufsiz': r.choice([4096, 512])}
        if r.random() < .3: b['pre'] = {p: 'OLD\n' for p in b['outs']}
        g = self.goldrun(ctx, b)
        if status(g): return
        kids = own(g); forks = [e for e in g.ev if e[2] == 'fork']; execs = [e for e in g.ev if e[2] == 'exec']; kev = [e for e in g.ev if e[0] in kids]
        for v in range(8):
            f = []; inh = []; sched = []
            for _ in range(r.choice([0, 1, 1, 1, 2, 3]) if v else 0):
                k = r.random()
                if k < .2 and forks: e = r.choice(forks); f.append((e[0], e[1], 'err', r.choice([11, 12, 38]), 0, 'fork'))
                elif k < .35 and execs: e = r.choice(execs); f.append((e[0], e[1], 'err', r.choice([2, 13, 8, 12, 7, 26, 40]), 0, 'exec'))
                elif k < .75 and execs:
                    e = r.choice(execs); kind = r.choice(['hexit', 'hsig', 'hpartial', 'hunlink', 'hdone'])
                    f.append((e[0], e[1], kind, r.choice({'hexit': [1, 2, 127, 255, 64, 128], 'hsig': [9, 11, 6, 15, 13], 'hpartial': [9, 11, 24], 'hunlink': [1, 3], 'hdone': [1, 2, 255, 256 + 11, 256 + 9]}[kind]), 0, 'exec'))
                elif kev: e = r.choice(kev); f.append((e[0], e[1], 'kill', r.choice([9, 11, 6, 15, 2])))
            for _ in range(r.choice([0, 0, 1, 2, 3]) if v else r.choice([1, 2])):
                inh.append(('r0', r.choice([0, 0, 256, 9, 512, 11]), r.choice([0, 1, r.randrange(0, g.steps + 5), r.randrange(0, g.steps + 5), 1 << 40])))
            if kids:
                for _ in range(r.choice([0, 0, 2, 5])): sched.append((r.randrange(1, g.steps + 1), r.choice(['r0'] + list(kids))))
            s = {'base': b, 'faults': f, 'inherit': inh, 'sched': sorted(sched)}
            if r.random() < .15: s['nochld'] = 1
            yield s
    def execute(self, ctx, s):
        b = s['base']; g = self.goldrun(ctx, b); o = Outcome()
        if status(g): o.skipped = True; o.loghash = g.hash; return o
        if s.get('nochld'): b = dict(b, knobs=dict(b['knobs'], nochld=1)); o.counts['SIGCHLD ignored'] += 1
        r = self.run(ctx, b, 't', faults=s['faults'], inherit=s['inherit'], sched=s['sched'])
        base_outcome(r, o)
        for f in r.fired: o.counts[f'{f[2]}:{f[5] if f[2] == "err" else "helper" if f[2] != "kill" else "cc1"}'] += 1
        if s['inherit']: o.counts['inherited children'] += len(s['inherit'])
        if r.switches: o.counts['schedule switches'] += r.switches
        o.nontrivial = bool(r.fired or s['inherit']); o.cover = [f'{b["mode"]}:{shape(r)}:{sorted((f[2], f[3], f[0]) for f in r.fired)}']
        st = status(r); kids = own(r); desc = f'cmd={b["cmd"]} fired={r.fired} inherit={s["inherit"]}'
        o.sample = {'cmd': b['cmd'], 'fired': r.fired, 'inherit': s['inherit'], 'status': st, 'children': {l: (p.execname, p.status) for l, p in kids.items()}}
        if r.hung or r.deadlock: return o.fail('hang', f'the driver never terminates ({"waiting for an unrelated child" if r.deadlock else r.hangwhy}): {desc}')
        bad = {l: p for l, p in kids.items() if p.status}
        forkerr = any(f[2] == 'err' and f[5] == 'fork' for f in r.fired)
        if st == 0:
            if bad: return o.fail('success', f'exit status 0 although {[(l, p.execname or "compilation", hex(p.status)) for l, p in bad.items()]} failed: {desc}')
            for p in sorted(set(b['outs']) | set(g.new)):
                if p not in r.fs or r.fs[p][:2] != g.fs[p][:2]: return o.fail('wrong', f'exit status 0 but {p} differs from the fault-free output: {desc}')
        elif not bad and not forkerr and not s.get('nochld'): # with SIGCHLD ignored no status can be learnt: failing is right
            return o.fail('spurious', f'all its processes succeeded but the driver ends with status {st:#x}: {desc} {r.err["r0"][-200:]!r}')
        if st & 127: return o.fail('signal', f'driver killed by signal {st & 127}: {desc}')
        first = min((p.exitstep for p in bad.values()), default=None)
        if first is not None or forkerr:
            for l, p in kids.items():
                if is_ld(p) and l not in bad: return o.fail('linked', f'the linker ran although {sorted(bad)} failed: {desc}')
        made = {}
        for lid, op, path in r.touch:
            if lid in bad and not bad[lid].execname and op in ('create', 'openw', 'trunc'): made[path] = lid
        for e in r.ev:
            if e[2] == 'open' and e[0] in kids and kids[e[0]].execname and absw(e[3]) in made and bad[made[absw(e[3])]].exitstep < e[5]:
                return o.fail('dependent', f'{kids[e[0]].execname} was run on {e[3]}, the output of the failed {made[absw(e[3])]}: {desc}')
        # stages whose input is the (not rewritten) temporary of a failed compile in the same input
        for l, p in kids.items():
            if p.orphan or not p.reaped: return o.fail('unreaped', f'the driver finished without waiting for {l} ({p.execname or "compilation"}): {desc}')
        o.counts['exit0' if st == 0 else 'exitN'] += 1
        return o
    def shrink(self, s):
        for k in ('faults', 'inherit', 'sched'): yield from shrink_list(s, k)
        if s.get('nochld'): yield {k: v for k, v in s.items() if k != 'nochld'}
        for nb in shrink_base(s['base']): yield dict(s, base=nb)

class C04(SimA):
    id = 'C04'
    technique = 'deterministic simulation with fault injection: I/O, process, allocation and source-error faults over driver runs in a populated file system; every file creation, truncation and removal is recorded and judged'
    note = 'Faults in unlink itself and death by signal are excluded (the statement covers runs that end by themselves).'
    rule = 'case = command in a directory with unrelated files and temporary-name collisions; evaluation = 0-3 faults at events of the fault-free run; non-trivial when a fault fired or a name collision was arranged'
    quick_cases = 10000; thorough_cases = 400000
    def cases(self, ctx, r, i, tier):
        err = r.random() < .3
        b = gen_base(r, size=r.choice([1, 2, 4]), err=err)
        if r.random() < .08: b['cmd'].append('nosuch.c')
        b['knobs'] = {'bufsiz': r.choice([4096, 512]), 'tmpspace': r.choice([1 << 30, 64, 16, 12]), 'seed': r.randrange(1, 1000)}
        pre = {p: 'OLD\n' * r.randrange(1, 50) for p in b['outs'] if r.random() < .3}
        for p in ('/w/keep.o', '/w/s0.x', '/w/README', '/tmp/other', '/tmp/slimcc-keepme', '/w/s0.d', '/w/s0.o', '/w/s0.s', '/w/a.out', '/w/s1.o', '/w/s0.i'):
            if p not in b['outs'] and p not in b['files'] and r.random() < .4: pre[p] = 'UNRELATED ' + p
        b['pre'] = pre
        g = self.goldrun(ctx, b)
        if r.random() < .5: # decoys under the very names the run would pick first
            for l, op, p in g.touch:
                if op == 'creat' and p.startswith('/tmp/slimcc-') and r.random() < .7: b['pre'][p] = 'SOMEONE ELSE\n'
            if len(b['pre']) > 8 and b['knobs']['tmpspace'] < 64: b['knobs']['tmpspace'] = 64
            g = self.goldrun(ctx, b)
        kids = own(g)
        evs = [e for e in g.ev if e[2] not in ('unlink', 'kill', 'exit', 'writeerr', 'time', 'getrusage', 'wait')]
        yield {'base': b, 'faults': [], 'mfail': []}
        for v in range(6):
            f = []; mf = []
            for _ in range(r.choice([1, 1, 2, 3])):
                k = r.random()
                if k < .12: mf.append((r.choice(['r0'] + list(kids)), r.randrange(1, max(2, g.procs['r0'].nalloc)), r.choice(['once', 'from']))); continue
                e = r.choice(evs)
                if k < .35:
                    x = [e for e in evs if e[2] in ('fork', 'exec', 'creat', 'openw')]
                    if x: e = r.choice(x)
                if e[2] == 'exec' and r.random() < .7: f.append((e[0], e[1], r.choice(['hexit', 'hsig', 'hpartial', 'hunlink', 'hdone']), r.choice([1, 9, 11]), 0, 'exec'))
                elif e[2] == 'write' and r.random() < .2: f.append((e[0], e[1], r.choice(['short', 'quota']), r.choice([0, 1, 10]), 0, 'write'))
                else: f.append((e[0], e[1], 'err', r.choice([5, 28, 12, 24, 13, 11]), 0, e[2]))
            yield {'base': b, 'faults': f, 'mfail': mf}
    def execute(self, ctx, s):
        b = s['base']; o = Outcome()
        r = self.run(ctx, b, 't', faults=s['faults'], mfail=s['mfail'])
        base_outcome(r, o)
        for f in r.fired: o.counts[f'{f[2]}:{f[5]}'] += 1
        if r.mfired: o.counts['malloc'] += len(r.mfired)
        st = status(r); col = any(t[1] == 'creat' and False for t in r.touch)
        coll = sum(1 for e in r.ev if e[2] == 'creat' and e[4] == -17)
        if coll: o.counts['temporary name collision'] += coll
        o.nontrivial = bool(r.fired or r.mfired or coll); o.cover = [f'{b["mode"]}:{st}:{shape(r)}:{sorted((f[2], f[5], f[4]) for f in r.fired)}']
        o.sample = {'cmd': b['cmd'], 'fired': r.fired, 'mfail': s['mfail'], 'status': st, 'touched': sorted({t[2] for t in r.touch})}
        o.counts['exit0' if st == 0 else 'exitN' if not st & 127 else 'signalled'] += 1
        desc = f'cmd={b["cmd"]} fired={r.fired} mfail={s["mfail"]} status={st:#x}'
        byself = not st & 127 and not r.hung and not r.deadlock
        pre = set(b['files']) | set(b.get('pre', {}))
        mytmp = {os.path.normpath(e[3]) for e in r.ev if e[2] == 'creat' and e[4] != 'KILL' and e[4] >= 0 and e[3].startswith('/tmp/')}; outs = set(b['outs'])
        for lid, op, p in r.touch:
            p = os.path.normpath(p)
            if op == 'signal': return o.fail('signal', f'{lid} sends a signal to another process: {desc}')
            if p in mytmp or p in outs or p.startswith('/dev/'): continue
            return o.fail('stray', f'{lid} does {op} on {p}, which is neither an output of the command nor a temporary file of this run: {desc}')
        for p in pre:
            if p not in r.fs and not (p in outs): return o.fail('removed', f'{p} is gone: {desc}')
        if byself:
            left = [p for p in r.fs if p not in pre and p not in outs]
            if left: return o.fail('left', f'left behind: {left}: {desc}')
            for p in mytmp & pre: return o.fail('clobber', f'existing {p} was taken as a temporary file: {desc}')
        if st == 0 and not s['faults'] and not s['mfail']:
            miss = [p for p in outs if p not in r.fs]
            if miss: return o.fail('missing', f'no {miss} after success: {desc}')
        return o
    def shrink(self, s):
        for k in ('faults', 'mfail'): yield from shrink_list(s, k)
        for nb in shrink_base(s['base']): yield dict(s, base=nb)

class C05(SimA):
    id = 'C05'
    technique = 'deterministic simulation with fault injection: source errors, missing inputs and helper failures in runs over earlier outputs; the file system afterwards is compared with the earlier state and with the fault-free outputs'
    note = 'Direct write errors on an output are C01; the helper stubs do not modify the output before failing, except where the fault is "partial output", which is not used here.'
    rule = 'case = command over existing outputs where one input is rejected (error in any compilation stage, missing file, failing or unstartable helper); non-trivial when the run failed'
    quick_cases = 24000; thorough_cases = 800000
    def cases(self, ctx, r, i, tier):
        mode = r.choice(['S', 'c', 'multi', 'multi', 'link', 'MD', 'MD', 'E', 'M', 'mdmulti'])
        n = 1 if mode in 'S c MD E M'.split() else r.randrange(2, 4)
        files, srcs = ccgen.project(r, n, r.choice([1, 3, 6, 20]), embed=r.random() < .1)
        bad = r.randrange(n); how = r.choice(['err', 'err', 'err', 'missing', 'helper', 'exec', 'fork', 'hdr', 'hdrerr'])
        if mode in ('S', 'E', 'M') and how in ('helper', 'exec', 'fork'): how = 'err'
        cmd = list(ccgen.BASE) + ccgen.INC + list(r.choice(ccgen.OPTS))
        outs = {}; so = False
        md = mode in ('MD', 'mdmulti')
        if md: cmd += [r.choice(['-MD', '-MMD'])] + (['-MP'] if r.random() < .3 else [])
        if mode == 'link': outs = {'/w/prog': list(range(n))}; tail = srcs + ['-o', 'prog']
        elif mode in ('S', 'c', 'E', 'M') or mode == 'MD' and r.random() < .5:
            kind = mode if mode != 'MD' else r.choice(['c', 'S', 'E'])
            out = {'S': 'x.s', 'c': 'x.o', 'E': 'x.i', 'M': 'x.dep'}[kind]; outs = {'/w/' + out: [0]}
            tail = ['-' + kind, srcs[0], '-o', out]
            if md: outs['/w/x.d'] = [0]
            if r.random() < .3 and md: tail += ['-MF', 'f.d']; outs.pop('/w/x.d'); outs['/w/f.d'] = [0]
        else:
            kind = r.choice(['c', 'S']); ext = {'c': '.o', 'S': '.s'}[kind]
            if kind == 'S' and how in ('helper', 'exec'): how = 'err'
            tail = ['-' + kind] + srcs; outs = {}
            for k, s_ in enumerate(srcs):
                outs[f'/w/s{k}{ext}'] = [k]
                if md: outs[f'/w/s{k}.d'] = [k]
        if n == 1 and how == 'fork' and mode == 'S': how = 'err'
        cmd += tail
        b = {'files': files, 'cmd': cmd, 'stdin': None, 'outs': sorted(outs), 'mode': mode, 'srcs': srcs, 'knobs': {'bufsiz': r.choice([4096, 128])}}
        g = self.goldrun(ctx, b)
        if status(g): return
        kids = own(g)
        for v in range(4):
            s = {'base': b, 'outs': outs, 'bad': [bad], 'how': how, 'pre': {p: 'OLD %s\n' % p * r.randrange(1, 100) for p in outs if r.random() < .75}, 'edit': {}, 'rm': [], 'faults': []}
            src = '/w/' + srcs[bad]
            if how == 'err':
                e = r.choice(ccgen.ERRS).replace('@', '777')
                ls = files[src].split('\n'); pos = r.choice([0, len(ls), r.randrange(len(ls) + 1)])
                if pos == 0 or pos >= len(ls) - 1: t = '\n'.join(ls[:pos] + [e] + ls[pos:])
                else: t = files[src] + e + '\n' + ccgen.SN[r.randrange(len(ccgen.SN))].replace('@', '888') + '\n'
                s['edit'] = {src: t}
            elif how == 'hdrerr': # an error inside a header only this input includes
                s['edit'] = {src: files[src] + '\n#include "bad.h"\n', '/w/bad.h': r.choice(ccgen.ERRS).replace('@', '779') + '\n'}
            elif how == 'hdr': s['edit'] = {src: '#include "gone.h"\n' + files[src]}
            elif how == 'missing': s['rm'] = [src]
            else:
                hs = [e for e in g.ev if e[2] == ('fork' if how == 'fork' else 'exec')]
                if not hs: return
                e = r.choice(hs)
                s['bad'] = None
                if how == 'fork': s['faults'] = [(e[0], e[1], 'err', r.choice([11, 12]), 0, 'fork')]
                elif how == 'exec': s['faults'] = [(e[0], e[1], 'err', r.choice([2, 13, 12]), 0, 'exec')]
                else: s['faults'] = [(e[0], e[1], r.choice(['hexit', 'hsig']), r.choice([1, 9, 11]), 0, 'exec')]
            yield s
            if how in ('missing', 'hdr'): break
    def execute(self, ctx, s):
        b = s['base']; g = self.goldrun(ctx, b); o = Outcome()
        if status(g): o.skipped = True; o.loghash = g.hash; return o
        bb = copy.deepcopy(b); bb['files'].update(s['edit'])
        for p in s['rm']: bb['files'].pop(p, None)
        bb['pre'] = s['pre']
        r = self.run(ctx, bb, 't', faults=s['faults'])
        base_outcome(r, o)
        st = status(r); desc = f'cmd={b["cmd"]} how={s["how"]} fired={r.fired} status={st:#x} stderr={r.err["r0"][-160:]!r}'
        stage = sha(r.err['r0'][-40:])[:4]
        o.counts[s['how']] += 1; o.counts['exit0' if st == 0 else 'exitN'] += 1; o.nontrivial = st != 0
        o.cover = [f'{b["mode"]}:{s["how"]}:{sorted(s["pre"])}:{stage}:{sha(repr(b["cmd"]))[:5]}']; o.sample = {'cmd': b['cmd'], 'how': s['how'], 'status': st, 'stderr': r.err['r0'][-120:].decode(errors='replace'), 'existing': sorted(s['pre'])}
        if st == 0 or r.hung: return o
        faulty_kid = [f[0] for f in r.fired if f[2] != 'err' or f[5] in ('exec', 'fork')]
        for p, who in sorted(s['outs'].items()):
            old = s['pre'].get(p); now = r.fs.get(p)
            isold = (now is None) if old is None else (now is not None and self.same(ctx, now, old))
            isnew = p in g.fs and now is not None and now[:2] == g.fs[p][:2]
            if s['bad'] is not None and s['bad'][0] in who:
                if not isold: return o.fail('touched', f'{p} is {"created" if old is None else "lost" if now is None else "changed"} although its input was rejected: {desc}')
            elif not isold and not isnew:
                return o.fail('partial', f'{p} is neither the earlier nor the complete new output: {desc}')
            elif s['bad'] is None and s['faults'] and p.endswith(('.o', 'prog')) and len(s['outs']) == 1 and not isold:
                return o.fail('touched', f'{p} changed although its helper failed: {desc}')
        return o
    def same(self, ctx, now, text):
        h = 0xcbf29ce484222325
        bs = text.encode()
        if now[0] != len(bs): return False
        for c in bs: h = ((h ^ c) * 0x100000001b3) & 0xffffffffffffffff
        return now[1] == '%016x' % h
    def shrink(self, s):
        for p in list(s['pre']):
            n = copy.deepcopy(s); n['pre'].pop(p); yield n
        for p, t in list(s['edit'].items()):
            ls = t.split('\n'); step = len(ls) // 2
            while step >= 1:
                for i in range(0, len(ls), step):
                    n = copy.deepcopy(s); n['edit'][p] = '\n'.join(ls[:i] + ls[i + step:]); yield n
                step //= 2

class C06(SimA):
    id = 'C06'
    technique = 'deterministic simulation: seeded scheduler interleaves the system calls of 2-4 simultaneous driver runs sharing directories, inputs and the temporary name space; each is compared with its solo run'
    note = 'Interleaving at system-call granularity, which is where the processes can interact; seeded, not exhaustive.'
    rule = 'case = 2-4 commands over one project; evaluation = one seeded schedule with temporary names drawn from a small space; non-trivial when a process switch happened between events of different runs'
    quick_cases = 5000; thorough_cases = 200000
    def cases(self, ctx, r, i, tier):
        n = r.choice([2, 2, 3, 4]); files, srcs = ccgen.project(r, 2, r.choice([1, 2, 4]), embed=r.random() < .2)
        files['/w/bad.c'] = files['/w/s0.c'] + '\n' + r.choice(ccgen.ERRS).replace('@', '778') + '\n'
        files['/w/k.s'] = '.globl k\nk: ret\n'; files['/w/m.S'] = '#define K 5\n.globl m\nm: mov $K, %eax\n ret\n'
        cmds = []
        for k in range(n):
            c = list(ccgen.BASE) + ccgen.INC + list(r.choice(ccgen.OPTS)); s = r.choice(srcs); m = r.randrange(9); outs = []
            if m == 0: c += ['-c', s, '-o', f'o{k}.o']; outs = [f'/w/o{k}.o']
            elif m == 1: c += ['-S', s, '-o', f'o{k}.s']; outs = [f'/w/o{k}.s']
            elif m == 2: c += srcs + ['-o', f'p{k}']; outs = [f'/w/p{k}']
            elif m == 3: c += ['-E', s]
            elif m == 4: c += ['-MD', '-MF', f'd{k}.d', '-c', s, '-o', f'o{k}.o']; outs = [f'/w/o{k}.o', f'/w/d{k}.d']
            elif m == 5: c += ['-c', 'bad.c', '-o', f'o{k}.o']; outs = [f'/w/o{k}.o']
            elif m == 6: c += [s, 'k.s', 'm.S', '-shared', '-o', f'l{k}.so']; outs = [f'/w/l{k}.so']
            elif m == 7: c += ['-c', 'm.S', '-o', f'o{k}.o']; outs = [f'/w/o{k}.o']
            else: c += ['-M', s, '-o', f'd{k}.dep']; outs = [f'/w/d{k}.dep']
            cmds.append((c, outs))
        b = {'files': files, 'cmds': cmds}
        tot = sum(self.solo(ctx, b, k).steps for k in range(n)); lids = []
        for k in range(n):
            g = self.solo(ctx, b, k); lids += [l.replace('r0', f'r{k}', 1) for l in g.procs]
        for v in range(6):
            sw = r.choice([3, 10, 30, 100, tot // 2]); roots = [l for l in lids if '.' not in l]
            if v % 3 == 2: # concentrate on the temporary-file operations
                pts = sorted(r.randrange(1, tot) for _ in range(sw))
            else: pts = sorted(r.randrange(1, tot + 1) for _ in range(sw))
            yield {'base': b, 'sched': [(p, r.choice(lids)) for p in pts], 'knobs': {'tmpspace': r.choice([24, 32, 64, 1 << 30]), 'seed': r.randrange(1, 10000), 'bufsiz': r.choice([4096, 256]), 'pidbase': r.choice([100, 30000])}}
    def solo(self, ctx, b, k):
        return self.goldrun(ctx, {'files': b['files'], 'cmd': b['cmds'][k][0]}, '')
    def execute(self, ctx, s):
        b = s['base']; o = Outcome(); n = len(b['cmds'])
        gs = [self.solo(ctx, b, k) for k in range(n)]
        ctx.sv.cmd('reset')
        r = run_phase(ctx.sv, {'files': b['files'], 'knobs': s['knobs'], 'spawns': [(f'r{k}', '/w', None, ['/cc/slimcc'] + list(b['cmds'][k][0])) for k in range(n)], 'sched': s['sched']}, 't')
        base_outcome(r, o)
        order = [e[0] for e in r.ev]
        sw = sum(1 for x, y in zip(order, order[1:]) if x.split('.')[0] != y.split('.')[0])
        coll = sum(1 for e in r.ev if e[2] == 'creat' and e[4] == -17)
        o.nontrivial = sw > n - 1; o.counts['switches between runs'] += sw; o.counts['temporary name collision'] += coll; o.counts[f'{n} runs'] += 1
        o.cover = [sha(*order)]; o.sample = {'cmds': [c[0][-4:] for c in b['cmds']], 'switches': sw, 'collisions': coll, 'knobs': s['knobs']}
        desc = f'cmds={[" ".join(c[0]) for c in b["cmds"]]}'
        if r.hung or r.deadlock: return o.fail('hang', f'a run does not terminate: {desc}')
        for k in range(n):
            g = gs[k]; l = f'r{k}'
            if r.procs[l].status != g.procs['r0'].status: return o.fail('status', f'run {k} ends with {r.procs[l].status:#x} instead of {g.procs["r0"].status:#x}: {desc} {r.err[l][-200:]!r}')
            if r.out[l] != g.out['r0']: return o.fail('stdout', f'run {k} prints different output: {desc}')
            if r.err[l] != g.err['r0']: return o.fail('stderr', f'run {k} prints different diagnostics: {r.err[l][-200:]!r} / {g.err["r0"][-200:]!r}: {desc}')
            for p in b['cmds'][k][1]:
                if (p in r.fs) != (p in g.fs): return o.fail('missing', f'run {k}: {p} {"missing" if p not in r.fs else "unexpected"}: {desc}')
                if p in r.fs and r.fs[p][:2] != g.fs[p][:2]: return o.fail('wrong', f'run {k}: {p} differs from its solo run: {desc}')
        allow = set(b['files']) | {p for c in b['cmds'] for p in c[1]}
        left = [p for p in r.fs if p not in allow]
        if left: return o.fail('left', f'left behind {left}: {desc}')
        return o
    def shrink(self, s):
        yield from shrink_list(s, 'sched')

class C07(SimA):
    id = 'C07'
    technique = 'deterministic simulation with crash injection: the driver, one of its processes or all of them are killed at a seeded event, then the command is run again on the surviving file system'
    note = 'Crash = process death (SIGKILL); the file system keeps everything written before. Power loss is not modelled: the compiler gives no durability promise.'
    rule = 'case = command; evaluation = 1-3 killed runs (each at a seeded event, possibly with a buffered write lost or a disk-full) followed by one undisturbed run; non-trivial when a kill fired'
    quick_cases = 10000; thorough_cases = 400000
    def cases(self, ctx, r, i, tier):
        b = gen_base(r, size=r.choice([1, 2, 4, 8]))
        b['knobs'] = {'bufsiz': r.choice([4096, 512, 64])}
        if r.random() < .3: b['pre'] = {p: 'OLD\n' * 40 for p in b['outs']}
        g = self.goldrun(ctx, b)
        if status(g): return
        late = [e for e in g.ev if e[2] in ('creat', 'openw', 'write', 'close', 'fork', 'exec', 'unlink', 'exit', 'rename')] or g.ev
        for v in range(7):
            ks = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                e = r.choice(late if r.random() < .7 else g.ev); kind = r.choice(['kill', 'killtree', 'killtree'])
                ks.append({'faults': [(e[0], e[1], kind, r.choice([9, 9, 15, 2]))], 'seed': r.randrange(1, 1 << 20), 'pidbase': r.choice([100, 100, 5000, 32000])})
            yield {'base': b, 'kills': ks, 'knobs': {'tmpspace': r.choice([64, 64, 1 << 30]), 'seed': r.choice([ks[0]['seed'], r.randrange(1, 1 << 20)]), 'pidbase': r.choice([100, 100, 777])}}
    def execute(self, ctx, s):
        b = s['base']; g = self.goldrun(ctx, b); o = Outcome()
        if status(g): o.skipped = True; o.loghash = g.hash; return o
        ctx.sv.cmd('reset'); fired = []; first = True
        for k in s['kills']:
            ph = self.phase(b, knobs={'tmpspace': s['knobs']['tmpspace'], 'seed': k['seed'], 'pidbase': k['pidbase']}, faults=k['faults'])
            if not first: ph['files'] = {}; ph['hfiles'] = {}; ph['dirs'] = []
            r1 = run_phase(ctx.sv, ph); first = False
            fired += r1.fired; base_outcome(r1, o)
        ph = self.phase(b, knobs=s['knobs']); ph['files'] = {}; ph['hfiles'] = {}; ph['dirs'] = []
        r = run_phase(ctx.sv, ph, 't'); base_outcome(r, o)
        for f in fired: o.counts[f'{f[2]}:{f[5]}'] += 1
        coll = sum(1 for e in r.ev if e[2] == 'creat' and e[4] == -17)
        if coll: o.counts['temporary name collision'] += coll
        o.nontrivial = bool(fired); o.cover = [f'{b["mode"]}:{[(f[0], f[2], f[4]) for f in fired]}:{sha(repr(b["cmd"]))[:6]}']
        o.sample = {'cmd': b['cmd'], 'killed at': [(f[0], f[2], f[5], f[6]) for f in fired], 'leftover temporaries': [p for p in r.fs if p.startswith('/tmp/')]}
        desc = f'cmd={b["cmd"]} killed at {[(f[0], f[2], f[5], f[6]) for f in fired]}'
        if r.hung or r.deadlock: return o.fail('hang', f'the rerun does not terminate: {desc}')
        if status(r): return o.fail('status', f'the rerun ends with {status(r):#x}: {desc} {r.err["r0"][-200:]!r}')
        for p in sorted(set(g.new) | set(b['outs'])):
            if p not in r.fs or r.fs[p][:2] != g.fs[p][:2]: return o.fail('wrong', f'after the rerun {p} differs from the undisturbed output: {desc}')
        if r.out['r0'] != g.out['r0']: return o.fail('stdout', f'the rerun prints different output: {desc}')
        if r.err['r0'] != g.err['r0']: return o.fail('stderr', f'the rerun prints different diagnostics: {desc}')
        return o
    def shrink(self, s):
        yield from shrink_list(s, 'kills')
        for nb in shrink_base(s['base']): yield dict(s, base=nb)
