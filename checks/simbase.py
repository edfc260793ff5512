"""Common parts of the compile-side checks (simulator A)."""
import copy, os, sys
from collections import OrderedDict
from lib.framework import Check, Outcome
from lib.simcc import Server, run_phase, SimError
from lib.common import *
from lib import ccgen

REAL = ['every translation unit of slimcc (driver, tokenizer, preprocessor, parser, code generator, allocator), unmodified object code',
        'include/ and the host system headers (read through the simulated file system)']
STUB = ['libc stdio, malloc, process and time functions (user-level reimplementation inside each simulated process)',
        'kernel: file system, processes, scheduler, clock (simulated)', 'assembler and linker (stubs whose output contains their complete input and arguments)']

class Ctx:
    def __init__(self, exe): self.sv = Server(exe); self.gold = OrderedDict()

class SimA(Check):
    real = REAL; stub = STUB
    assumptions = ['the assembler and the linker report their own failures through their exit status and write their output last',
                   'a failed write, flush or close is reported by the kernel (no silent data loss)', 'rename, link and open with O_EXCL are atomic, as in POSIX']
    def prepare(self):
        from simcc.build import build
        self.exe = build()
    def open(self): return Ctx(self.exe)
    def close(self, ctx): ctx.sv.close()
    def extra(self):
        w = open(os.path.join(os.path.dirname(self.exe), 'warnings')).read().split()
        return {'unsimulated_symbols': w}

    # a base: {'files','cmd','stdin','pre','knobs','dirs'}
    def phase(self, b, **kw):
        ph = {'files': b['files'], 'spawns': [('r0', b.get('cwd', '/w'), b.get('stdin'), ['/cc/slimcc'] + b['cmd'])], 'knobs': dict(b.get('knobs', {})), 'dirs': b.get('dirs', [])}
        if b.get('pre'): ph['files'] = {**ph['files'], **b['pre']}
        ph['hfiles'] = b.get('hfiles', {})
        ph['knobs'].update(kw.pop('knobs', {}))
        ph.update(kw)
        return ph
    def run(self, ctx, b, flags='', **kw):
        ctx.sv.cmd('reset')
        try: return run_phase(ctx.sv, self.phase(b, **kw), flags)
        except SimError:
            ctx.sv.close(); raise
    def goldrun(self, ctx, b, flags='t', outputs=True, nopre=False):
        key = sha(repr(b), flags, nopre)
        g = ctx.gold.get(key)
        if g is None:
            bb = dict(b, pre={}) if nopre else b
            g = self.run(ctx, bb, flags)
            g.new = {p: v for p, v in g.fs.items() if p not in bb['files'] and p not in bb.get('pre', {}) and p not in bb.get('hfiles', {})}
            ctx.gold[key] = g
            if len(ctx.gold) > 64: ctx.gold.popitem(last=False)
        return g

def status(r, lid='r0'): return r.procs[lid].status

def base_outcome(r, o=None):
    o = o or Outcome()
    o.loghash = r.hash if not o.loghash else sha(o.loghash, r.hash)
    o.simtime += r.clk[-1][2] - r.clk[0][0] + (r.clk[-1][3] - r.clk[0][1]) / 1e9
    return o

# ---------------------------------------------------------------- command lines
def gen_base(r, size=6, allow=('S', 'c', 'E', 'M', 'MD', 'link', 'multi', 'asm', 'stdin'), embed=None, err=False, repo_tests=False):
    """-> base dict with 'outs' (declared output files, absolute), 'stdout' (bool), 'mode', 'srcs'"""
    mode = r.choice(list(allow))
    nsrc = 1
    if mode == 'multi': nsrc = r.randrange(2, 4)
    if mode == 'link': nsrc = r.randrange(1, 4)
    files, srcs = ccgen.project(r, nsrc, size, embed=(r.random() < 0.25 if embed is None else embed), err_in=(r.randrange(nsrc) if err else None))
    cmd = list(ccgen.BASE) + ccgen.INC + list(r.choice(ccgen.OPTS))
    for k in range(r.choice([0, 0, 0, 0, 1, 1, 2, 3])): # some lie in the current directory, others are found on the include path
        w, n = r.choice([('/w/', 'pre%d.h'), ('/w/', 'pre%d.h'), ('/w/inc/', 'pin%d.h'), ('/w/inc/sub/', 'psu%d.h'), ('/w/', 'inc/pdi%d.h')]); n = n % k
        files[w + n] = r.choice(['typedef int pre_t%d;\n#define PRE%d 3\n' % (k, k), '#define PRE%d 4' % k, '', '#pragma once\nextern int prex%d;\n' % k, '#ifdef PRE0\n#define PRE%d 5\n#else\nenum { PRE%d = 2 };\n#endif\n' % (k, k)] + (['#include <stddef.h>\nextern size_t prez%d;\n' % k, '#include "pre0.h"\n'] if k and '/w/pre0.h' in files else [])); cmd += ['-include', n]
    if r.random() < 0.2: cmd += [r.choice(['-DQX=1', '-DFOO(x)=x', '-D', 'BAR'])] if False else ['-DQX=%d' % r.randrange(9), '-UNOPE1']
    if mode in ('S', 'c', 'link', 'multi', 'stdin', 'E') and r.random() < .1: cmd += r.choice([['-MP'], ['-MT', 'unused'], ['-MQ', 'unused'], ['-MF', 'unused.d'], ['-MP', '-MF', 'unused.d']][:3 if mode == 'multi' else 5]) # no effect without -M or -MD
    outs = []; so = False; stdin = None; dirs = []
    def o(name): outs.append(os.path.normpath(os.path.join('/w', name))); return name
    stem = srcs[0][:-2]
    if mode == 'S':
        k = r.randrange(3)
        if k == 0: cmd += ['-S', srcs[0]]; o(stem + '.s')
        elif k == 1: cmd += ['-S', srcs[0], '-o', o('out/x.s')]; dirs.append('/w/out')
        else: cmd += ['-S', '-o', '-', srcs[0]]; so = True
    elif mode == 'c':
        if r.random() < .5: cmd += ['-c', srcs[0]]; o(stem + '.o')
        else: cmd += ['-c', srcs[0], '-o' + o('x.o')]
    elif mode == 'E':
        k = r.randrange(3)
        cmd += ['-E'] + (['-P'] if r.random() < .3 else [])
        if k == 0: cmd += [srcs[0]]; so = True
        elif k == 1: cmd += [srcs[0], '-o', o('x.i')]
        else: stdin = files['/w/' + srcs[0]]; cmd += ['-']; so = True
    elif mode == 'M':
        k = r.randrange(4); cmd += [r.choice(['-M', '-MM'])] + (['-MP'] if r.random() < .3 else []) + (['-MT', 'tgt'] if r.random() < .3 else [])
        if k == 0: cmd += [srcs[0]]; so = True
        elif k == 1: cmd += [srcs[0], '-o', o('x.dep')]
        elif k == 2: cmd += [srcs[0], '-MF', o('x.dep')]
        else: cmd += ['-E', srcs[0], '-MF', o('y.dep')]
    elif mode == 'MD':
        cmd += [r.choice(['-MD', '-MMD'])] + (['-MP'] if r.random() < .3 else [])
        k = r.randrange(6)
        if k == 4: cmd += [srcs[0]]; o('a.out'); o(stem + '.d')
        elif k == 5: cmd += [srcs[0], '-o', o('prog')] + r.choice([['-MF', o('l.dep')], ['-MF', 'l.dep', '-MT', 'prog']]); o('l.dep')
        elif k == 0: cmd += ['-c', srcs[0]]; o(stem + '.o'); o(stem + '.d')
        elif k == 1: cmd += ['-c', srcs[0], '-o', o('z.o')]; o('z.d')
        elif k == 2: cmd += ['-S', srcs[0], '-MF', o('q.dep')]; o(stem + '.s')
        else: cmd += ['-E', srcs[0], '-MF', o('q.dep')]; so = True
    elif mode == 'link':
        extra = []
        for k in range(r.randrange(0, 3)):
            kind = r.randrange(4)
            if kind == 0: files[f'/w/x{k}.o'] = f'OBJECT\nprebuilt {k}\n'; extra.append(f'x{k}.o')
            elif kind == 1: files[f'/w/x{k}.s'] = f'.globl as{k}\nas{k}: ret\n'; extra.append(f'x{k}.s')
            elif kind == 2: files[f'/w/x{k}.S'] = f'#define R ret\n.globl as{k}\nas{k}: R\n'; extra.append(f'x{k}.S')
            else: files[f'/w/lib{k}.a'] = 'LIB\nar\n'; extra.append(f'lib{k}.a')
        ins = srcs + extra; r.shuffle(ins)
        cmd += ins + r.choice([[], ['-shared'], ['-static'], ['-pie'], ['-r'], ['-no-pie'], ['-static-pie'], ['-nostdlib'], ['-lm', '-Wl,--gc-sections']])
        if r.random() < .6: cmd += ['-o', o('prog')]
        else: o('a.out')
    elif mode == 'multi':
        k = r.randrange(4)
        if k == 0: cmd += ['-c'] + srcs; [o(s[:-2] + '.o') for s in srcs]
        elif k == 1: cmd += ['-S'] + srcs; [o(s[:-2] + '.s') for s in srcs]
        elif k == 2: cmd += ['-E'] + srcs; so = True
        else: cmd += ['-c', '-MD'] + srcs; [o(s[:-2] + e) for s in srcs for e in ('.o', '.d')]
    elif mode == 'asm':
        k = r.randrange(9)
        files['/w/m.S'] = '#define K 5\n#include "mi.h"\n.globl m\nm: mov $K, %eax\n ret\n'; files['/w/mi.h'] = '#define INCLUDED 1\n'
        files['/w/n.s'] = '.globl n\nn: ret\n'
        if k == 0: cmd += ['-c', 'm.S']; o('m.o')
        elif k == 1: cmd += ['-c', 'm.S', 'n.s']; o('m.o'); o('n.o')
        elif k == 2: cmd += ['-S', 'm.S', '-o', o('m2.s')]
        elif k == 3: cmd += ['-E', 'm.S']; so = True
        elif k == 4: cmd += [r.choice(['-M', '-MM']), 'm.S'] + r.choice([[], ['n.s']]); so = True
        elif k == 5: cmd += r.choice([['-E', 'm.S', 'n.s'], ['-E', 'n.s', 'm.S', 'x.o']]); files['/w/x.o'] = 'OBJECT\n'; so = True
        elif k == 6: cmd += ['-S', 'm.S', 'n.s', srcs[0], 'x.o']; so = True; o(stem + '.s'); files['/w/x.o'] = 'OBJECT\n'
        else: cmd += r.choice([['m.S', 'n.s', srcs[0]], ['m.S'], ['n.s'], ['m.S', 'n.s']]) + ['-o', o('prog')]
        srcs = ['m.S']
    elif mode == 'stdin':
        stdin = files['/w/' + srcs[0]]; cmd += ['-x', 'c', '-', '-S', '-o', o('in.s')]
    return {'files': files, 'cmd': cmd, 'stdin': stdin, 'outs': sorted(set(outs)), 'so': so, 'mode': mode, 'dirs': dirs, 'srcs': srcs}

# ---------------------------------------------------------------- shrinking of bases
def shrink_base(b):
    """Smaller variants of a base: drop lines of C sources and headers, drop options."""
    for p in sorted(b['files'], key=lambda p: -len(b['files'][p])):
        t = b['files'][p]
        if not t: continue
        ls = t.split('\n')
        n = len(ls)
        step = n // 2
        while step >= 1:
            for i in range(0, n, step):
                nl = ls[:i] + ls[i + step:]
                if len(nl) == n: continue
                nb = copy.deepcopy(b); nb['files'][p] = '\n'.join(nl)
                if b.get('stdin') is not None and b['stdin'] == t: nb['stdin'] = nb['files'][p]
                yield nb
            step //= 2
    for i in range(len(b['cmd'])):
        a = b['cmd'][i]
        if a in ('-g', '-O0', '-fPIC', '-fPIE', '-fno-pic', '-fcommon', '-femulated-tls', '-P', '-MP') or a.startswith('-D') or a.startswith('-ff') or a.startswith('-fd') and a != '-fdefer-ts':
            nb = copy.deepcopy(b); del nb['cmd'][i]; yield nb
def shrink_list(scn, key):
    l = scn.get(key) or []
    n = len(l); step = max(1, n // 2)
    while n and step >= 1:
        for i in range(0, n, step):
            s = copy.deepcopy(scn); s[key] = l[:i] + l[i + step:]; yield s
        step //= 2
