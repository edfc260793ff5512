"""Common part of the checks on compiled programs (simulator B): batches of seeded schedules, schedule minimisation."""
import re
from lib.framework import *
from lib.simrt import Lab, Rejected, RefFailed, build_slimcc, build_rt
REAL = ['slimcc built from /repo (compiler driver, preprocessor, parser, code generator)', 'GNU as and ld', "the compiled program's machine code, executed on the CPU", 'glibc thread-local storage set-up']
STUB = ['thread scheduler (seeded, switches between any two instructions)', 'store buffers of the processor (TSO model)', 'asynchronous signal delivery (frame at the ABI limit, clean registers)', 'the program under simulation has no other I/O']
ASM = ['x86-64 TSO without same-address reordering; locked instructions and mfence drain the store buffer', 'instructions are the unit of interleaving; a single instruction is never torn by the simulator',
       'the reference meaning of single operations is the same text compiled by gcc with ordinary types']
def psched(s):
    out = []
    for a in s.split():
        m = re.match(r'([a-z])(\d+)(?:\*(\d+))?$', a); out.append([m.group(1), int(m.group(2)), int(m.group(3) or 0)])
    return out
def usched(l): return ' '.join(f'{k}{t}*{n}' if k == 'r' else f'{k}{t}' for k, t, n in l)
def merged(l):
    o = []
    for a in l:
        if a[0] == 'r':
            if a[2] <= 0: continue
            if o and o[-1][0] == 'r' and o[-1][1] == a[1]: o[-1] = ['r', a[1], o[-1][2] + a[2]]; continue
        o.append(list(a))
    return o
def shrink_sched(s):
    l = psched(s); n = len(l)
    c = [a for a in l if a[0] == 'c']; b = [a for a in l if a[0] != 'c']
    seen = {s}
    def out(x):
        t = usched(merged(x))
        if t not in seen: seen.add(t); yield t
    w = max(1, len(b) // 2)
    while w >= 1:
        for i in range(0, len(b), w):
            yield from out(b[:i] + b[i + w:] + c)
        if w == 1: break
        w //= 2
    for i in range(len(b) - 2):      # swap neighbours so that runs of one thread merge
        if b[i][0] == 'r' and b[i + 1][0] == 'r' and b[i][1] != b[i + 1][1]: 
            x = b[:]; x[i], x[i + 1] = x[i + 1], x[i]; t = usched(merged(x + c))
            if len(t.split()) < n and t not in seen: seen.add(t); yield t
    for i in range(len(c)):
        if c[i][1]: yield from out(b + c[:i] + [['c', 0, 0]] + c[i + 1:])
    if c: yield from out(b + c[:-1])
def kindof(msg): return ' '.join(re.sub(r'[^a-z ]', '', msg.split(':')[0].lower()).split()[:4])

class SimB(Check):
    real = REAL; stub = STUB; assumptions = ASM; runs_quick = 40; runs_thorough = 150; quick_wall = 60; thorough_wall = 780
    rule = 'non-trivial: the schedule switched threads or delivered a signal or took a seeded decision at least once; distinct: hash of (program, sequence of switch points)'
    oracle = ('sc',)
    def prepare(self): build_slimcc(); build_rt()
    def open(self): return Lab()
    def close(self, ctx):
        if ctx: ctx.close()
    def spec(self, r, i, tier): raise NotImplementedError          # random program description (JSON-able)
    def render(self, spec): raise NotImplementedError              # -> dict(src=, model=, more=, opts=, link=, mflags=)
    def shrink_spec(self, spec): return iter(())
    def cases(self, ctx, r, i, tier):
        n = self.runs_quick if tier == 'quick' else self.runs_thorough
        yield {'spec': self.spec(r, i, tier), 'first': r.randrange(1 << 40), 'count': n}
    def execute(self, ctx, scn):
        o = Outcome(); d = self.render(scn['spec']); o.runs = scn.get('count', 1) if 'sched' not in scn else 1
        try:
            exe = ctx.build(d['src'], d['model'], tuple(d.get('opts', ())), link=d.get('link', 'static'), oracle=d.get('oracle', self.oracle), more=d.get('more', {}), mflags=tuple(d.get('mflags', ())), extra=tuple(d.get('extra', ())))
        except Rejected as e:
            o.loghash = sha('rejected'); o.runs = 1; return o.fail('rejected', f'the compiler does not translate a valid program: {e}')
        except RefFailed as e: o.skipped = True; o.loghash = sha('skipped'); o.runs = 1; o.counts['reference-compiler-failed'] += 1; return o
        rs = [ctx.one(exe, scn['seed'], scn['sched'])] if 'sched' in scn else ctx.run(exe, scn['first'], scn['count'])
        pk = sha(d['src'], repr(d.get('opts')), d.get('link'))[:8]
        C = o.counts; nt = 0; seenb = None
        for x in rs:
            C['instructions'] += x.steps; C['thread-switch'] += x.switches; C['delayed-store-drained'] += x.drains; C['signal-delivered'] += x.sigs; C['serialising-instruction'] += x.ser; C['call-clobbers-registers'] += x.clob
            if self.hook: C[self.hook] += x.hooks
            if x.switches or x.sigs or x.hooks or self.always_nt: nt += 1; o.cover.append(sha(pk, x.cover)[:12])
            if x.bad and seenb is None: seenb = x
        C['program'] += 1; C['link-' + d.get('link', 'static')] += 1; C['opts ' + (' '.join(d.get('opts', ())) or 'default')] += 1
        for k in d.get('counts', ()): C[k] += 1
        o.nontrivial = nt; o.simtime = sum(x.steps for x in rs) * 1e-9; o.loghash = sha(*[x.hash + x.msg for x in rs])
        o.sample = {'link': d.get('link', 'static'), 'opts': list(d.get('opts', ())), 'program': d['src'][-700:], 'runs': len(rs), 'instructions': rs[0].steps, 'switches': rs[0].switches}
        if seenb is not None:
            if 'sched' not in scn: o.narrow = {'spec': scn['spec'], 'seed': seenb.seed, 'sched': seenb.sched if seenb.sched is not None else ''}
            if seenb.bad == 2 and 'sched' not in scn: o.narrow = None
            o.fail(kindof(seenb.msg), f'seed {seenb.seed}: {seenb.msg}\nschedule: {seenb.sched}\noptions: {" ".join(d.get("opts", ()))} link: {d.get("link", "static")}\nprogram:\n{d["src"]}')
        return o
    always_nt = False; hook = None
    def shrink(self, scn):
        if 'sched' in scn:
            for s in shrink_sched(scn['sched']): yield dict(scn, sched=s)
            return
        for s in self.shrink_spec(scn['spec']): yield dict(scn, spec=s)
LINKS = ['static'] * 6 + ['dyn', 'pie', 'pie', 'shared']
OPTS = [[]] * 5 + [['-O0']] * 3 + [['-O2'], ['-g']]
