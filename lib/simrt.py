"""Simulator B: builds the real compiler from /repo, compiles generated programs with it, links them with the in-process
single-stepping simulator (simrt/rt.c) and runs them under seeded schedules."""
import os, subprocess, shutil, tempfile, glob
from lib.common import *
H = os.path.join(V, 'simrt')
RTF = ['-O1', '-g', '-fno-stack-protector', '-mfsgsbase', '-w', '-fno-pie', '-fno-builtin']

def build_slimcc():
    srcs = repo_sources(); incs = glob.glob(os.path.join(REPO, 'include', '**'), recursive=True)
    key = sha(filehash(srcs), filehash(repo_headers()), filehash([f for f in incs if os.path.isfile(f)]), ' '.join(map(os.path.basename, srcs)), filehash([__file__]))
    out = os.path.join(BUILD, 'slimcc-' + key); exe = os.path.join(out, 'slimcc')
    with locked('slimcc-' + key):
        if os.path.exists(exe): os.utime(out); return exe
        prune('slimcc', out)
        tmp = tempfile.mkdtemp(prefix='slimcc-tmp', dir=BUILD)
        try:
            from concurrent.futures import ThreadPoolExecutor
            objs = []
            def cc(a): sh(['gcc', '-O1', '-std=c99', '-w', '-D_GNU_SOURCE', '-I' + REPO, '-c', a[0], '-o', a[1]]) if False else sh(['gcc', '-O1', '-w', '-I' + REPO, '-c', a[0], '-o', a[1]])
            jobs = [(s, os.path.join(tmp, f'{i}.o')) for i, s in enumerate(srcs)]
            with ThreadPoolExecutor(8) as ex: list(ex.map(cc, jobs))
            sh(['gcc', '-o', os.path.join(tmp, 'slimcc')] + [j[1] for j in jobs])
            for j in jobs: os.unlink(j[1])
            shutil.copytree(os.path.join(REPO, 'include'), os.path.join(tmp, 'include'))
            shutil.rmtree(out, ignore_errors=True); os.rename(tmp, out)
        finally: shutil.rmtree(tmp, ignore_errors=True)
    return exe

def build_rt():
    fs = sorted(glob.glob(os.path.join(H, '*')))
    out = os.path.join(BUILD, 'simrt-' + sha(filehash(fs), filehash([__file__])))
    with locked('simrt'):
        if os.path.exists(out): os.utime(out); return out
        prune('simrt', out)
        tmp = tempfile.mkdtemp(prefix='simrt-tmp', dir=BUILD)
        for f in fs:
            if f.endswith('.c'):
                sh(['gcc'] + RTF + ['-c', f, '-o', os.path.join(tmp, os.path.basename(f)[:-2] + '.o')])
                sh(['gcc'] + [x for x in RTF if x != '-fno-pie'] + ['-fPIC', '-c', f, '-o', os.path.join(tmp, os.path.basename(f)[:-2] + '.pic.o')])
        b = open(os.path.join(H, 'bound.s')).read()
        for n in ('wtext_start', 'wtext_end'):
            p = os.path.join(tmp, n + '.s'); open(p, 'w').write(b.replace('NAME', n)); sh(['as', p, '-o', p[:-2] + '.o'])
        os.rename(tmp, out)
    return out

class Run:
    __slots__ = ('seed', 'steps', 'switches', 'drains', 'sigs', 'ser', 'clob', 'hooks', 'cover', 'hash', 'bad', 'msg', 'sched')

class Rejected(Exception): pass
class RefFailed(Exception): pass   # the reference compiler gave up (internal errors, values of statement expressions lost)

class Lab:
    """Scratch directory of one worker; compiles and runs programs."""
    def __init__(self):
        self.cc = build_slimcc(); self.rt = build_rt(); self.dir = tempfile.mkdtemp(prefix='simrt-', dir='/tmp'); self.cache = {}; self.n = 0
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def slimcc(self, args, cwd, timeout=60):
        return subprocess.run([self.cc] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    def build(self, src, model, opts=(), link='static', extra=(), oracle=('sc',), more={}, mflags=()):
        """-> path of the simulation executable. src: program text (compiled by the compiler under test); model: text compiled by gcc."""
        key = sha(src, model, opts, link, extra, oracle, repr(sorted(more.items())), mflags)
        if key in self.cache: return self.cache[key]
        self.n += 1; d = os.path.join(self.dir, 'p%d' % self.n); os.mkdir(d)
        open(d + '/w.c', 'w').write(src); open(d + '/m.c', 'w').write(model); shutil.copy(H + '/sim.h', d); shutil.copy(H + '/rt.h', d)
        wobjs = ['w.o']
        for n, t in more.items():
            open(f'{d}/{n}', 'w').write(t)
        pic = link in ('pie', 'shared')
        try:
            r = self.slimcc(list(opts) + (['-fPIC'] if link == 'shared' else ['-fPIE'] if link == 'pie' else []) + ['-c', 'w.c', '-o', 'w.o'], d)
            if r.returncode: raise Rejected(r.stdout.decode(errors='replace')[-1500:])
            for n in sorted(more):
                if n.endswith('.c'):
                    r = self.slimcc(list(opts) + (['-fPIC'] if link == 'shared' else ['-fPIE'] if link == 'pie' else []) + ['-c', n, '-o', n[:-2] + '.o'], d)
                    if r.returncode: raise Rejected(r.stdout.decode(errors='replace')[-1500:])
                    wobjs.append(n[:-2] + '.o')
            try: sh(['gcc', '-O1' if 'O1' in mflags else '-O0', '-w', '-fwrapv', '-fno-strict-aliasing', '-fno-stack-protector', '-fPIC' if pic else '-fno-pie', '-c', 'm.c', '-o', 'm.o'] + [f for f in mflags if f != 'O1'], cwd=d)
            except BuildError as e:
                if os.environ.get('SIM_STRICT') and 'internal compiler error' not in str(e): raise
                raise RefFailed(str(e)[:300])
            sfx = '.pic.o' if pic else '.o'
            rt = [os.path.join(self.rt, n + sfx) for n in ('rt',) + tuple(oracle)]
            b = [os.path.join(self.rt, 'wtext_start.o')] + wobjs + [os.path.join(self.rt, 'wtext_end.o')]
            if link == 'static': sh(['gcc', '-static', '-no-pie', '-o', 'prog'] + b + ['m.o'] + rt + ['-lm'] + list(extra), cwd=d)
            elif link == 'dyn': sh(['gcc', '-no-pie', '-o', 'prog'] + b + ['m.o'] + rt + ['-lm', '-Wl,-z,now'], cwd=d)
            elif link == 'pie': sh(['gcc', '-pie', '-o', 'prog'] + b + ['m.o'] + rt + ['-lm', '-Wl,-z,now'], cwd=d)
            else:
                sh(['gcc', '-shared', '-o', 'work.so'] + wobjs + ['-lm', '-Wl,-z,now'], cwd=d)
                sh(['gcc', '-pie', '-o', 'prog', 'm.o'] + rt + ['./work.so', '-lm', '-Wl,-z,now', '-Wl,-rpath,' + d, '-Wl,-E', '-Wl,--allow-shlib-undefined'], cwd=d)
            out = d + '/prog'
        except (Rejected, RefFailed): shutil.rmtree(d, ignore_errors=True); raise
        self.cache[key] = out
        if len(self.cache) > 40:
            k = next(iter(self.cache)); shutil.rmtree(os.path.dirname(self.cache.pop(k)), ignore_errors=True)
        return out
    def _parse(self, txt):
        rs = []
        for l in txt.decode(errors='replace').split('\n'):
            if not l: continue
            if l[0] == 'S': rs[-1].sched = l[2:]; continue
            f = l.split(' ', 11); r = Run(); r.seed = int(f[0]); r.steps, r.switches, r.drains, r.sigs, r.ser, r.clob, r.hooks = map(int, f[1:8]); r.cover, r.hash, r.bad, r.msg = f[8], f[9], int(f[10]), f[11]; r.sched = None; rs.append(r)
        return rs
    def run(self, exe, first, count, timeout=600):
        p = subprocess.run([exe, 'run', str(first), str(count)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(exe))
        rs = self._parse(p.stdout)
        if len(rs) != count: raise RuntimeError(f'simulator printed {len(rs)} of {count} runs; rc={p.returncode} {p.stderr[-500:]!r}')
        return rs
    def one(self, exe, seed, sched=None):
        p = subprocess.run([exe, 'one', str(seed)] + ([sched] if sched is not None else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=os.path.dirname(exe))
        rs = self._parse(p.stdout)
        if len(rs) != 1: raise RuntimeError(f'simulator died: rc={p.returncode} {p.stderr[-500:]!r}')
        return rs[0]
