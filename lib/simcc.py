"""Client of simulator A. A scenario is a list of phases executed on one simulated machine; everything the
simulator decides is explicit in the scenario, so running it twice gives the identical event log."""
import os, subprocess, sys, urllib.parse
from lib.common import *

class SimError(Exception): pass

_Q = [('%%%02X' % i) for i in range(256)]
for _c in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./,:;=+*()[]{}<>#&|!?@^~\"'\\$`": _Q[_c] = chr(_c)
def q(s):
    if isinstance(s, str): s = s.encode('utf-8', 'surrogateescape')
    if not s: return '%00'
    return ''.join([_Q[b] for b in s])
def qd(s):
    return '' if not s else q(s)
def unq(s): return urllib.parse.unquote_to_bytes(s)

class Proc:
    __slots__ = ('lid', 'status', 'ended', 'nsys', 'nalloc', 'execname', 'inherited', 'reaped', 'orphan', 'exitstep')
    @property
    def exited(self): return (self.status & 127) == 0
    @property
    def code(self): return self.status >> 8

class Result:
    def __init__(self): self.procs = {}; self.out = {}; self.err = {}; self.fired = []; self.fs = {}; self.dirs = set(); self.touch = []; self.ev = []; self.clk = []; self.mfired = []
    def fsview(self): return {k: v[:2] for k, v in self.fs.items()}

class Server:
    """One simulator process; a scenario starts with reset, so runs are independent."""
    def __init__(self, exe):
        self.exe = exe; self.p = None; self.goes = 0
    def start(self):
        self.p = subprocess.Popen([self.exe, REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=1 << 20)
    def close(self):
        if self.p:
            try: self.p.stdin.close()
            except Exception: pass
            self.p.stdout.close(); self.p.wait(); self.p = None
    def cmd(self, line):
        if self.p is None: self.start()
        try: self.p.stdin.write(line.encode() + b'\n')
        except BrokenPipeError: raise SimError('simulator died')
    def put(self, path, data): self.cmd(f'put {q(path)} {qd(data)}')
    def get(self, path):
        self.cmd('get ' + q(path)); self.p.stdin.flush()
        l = self.p.stdout.readline().decode()
        if not l: raise SimError('simulator died')
        w = l.split()
        return None if w[0] == 'none' else (unq(w[1]) if len(w) > 1 else b'')
    def go(self, flags=''):
        self.cmd('go ' + flags if flags else 'go'); self.p.stdin.flush(); self.goes += 1
        r = Result()
        rd = self.p.stdout
        while True:
            l = rd.readline()
            if not l: self.p = None; raise SimError('simulator died')
            w = l.decode().split(); k = w[0]
            if k == 'p':
                p = Proc(); p.lid = w[1]; p.status, p.ended, p.nsys, p.nalloc = map(int, w[2:6]); p.execname = w[6] if w[6] != '-' else ''
                p.inherited, p.reaped, p.orphan, p.exitstep = map(int, w[7:11]); r.procs[p.lid] = p
            elif k == 'ev': r.ev.append((w[1], int(w[2]), w[3], unq(w[4]).decode('utf-8', 'surrogateescape'), int(w[5]) if w[5] != 'KILL' else 'KILL', int(w[6]) if len(w) > 6 else 0))
            elif k == 'fs': r.fs[unq(w[1]).decode('utf-8', 'surrogateescape')] = (int(w[2]), w[3], int(w[4]), int(w[5]))
            elif k == 'dir': r.dirs.add(unq(w[1]).decode('utf-8', 'surrogateescape'))
            elif k == 'out': r.out[w[1]] = unq(w[2]) if len(w) > 2 else b''
            elif k == 'err': r.err[w[1]] = unq(w[2]) if len(w) > 2 else b''
            elif k == 'fired': r.fired.append((w[1], int(w[2]), w[3], int(w[4]), int(w[5]), w[6], unq(w[7]).decode('utf-8', 'surrogateescape')))
            elif k == 'mfired': r.mfired.append((w[1], int(w[2]), int(w[3])))
            elif k == 'touch': r.touch.append((w[1], w[2], unq(w[3]).decode('utf-8', 'surrogateescape')))
            elif k == 'clk': r.clk.append(tuple(map(int, w[1:5])))
            elif k == 'end':
                r.hash = w[1]; r.steps = int(w[2]); r.switches = int(w[3]); r.hung = int(w[4]); r.deadlock = int(w[5]); r.hangwhy = w[6]
                if r.hung: self.p.wait(); self.p = None
                return r
            else: raise SimError('bad reply ' + repr(l))

def run_phase(sv, ph, flags=''):
    """ph: dict(files={path:text}, hfiles={path:host}, rm=[], mtimes={}, knobs={}, spawns=[(lid,cwd,stdin|None,[args])],
    inherit=[(lid,status,due)], faults=[(lid,idx,kind,arg,arg2)], mfail=[(lid,idx,mode)], sched=[(step,lid)])"""
    for k, v in ph.get('knobs', {}).items(): sv.cmd(f'knob {k} {v}')
    for d in ph.get('dirs', []): sv.cmd('mkdir ' + q(d))
    for p, t in ph.get('files', {}).items(): sv.put(p, t)
    for p, t in ph.get('hfiles', {}).items(): sv.cmd(f'hput {q(p)} {q(t)}')
    for p in ph.get('rm', []): sv.cmd('rm ' + q(p))
    for p, t in ph.get('mtimes', {}).items(): sv.cmd(f'mtime {q(p)} {t[0]} {t[1]}')
    for lid, cwd, stdin, args in ph['spawns']:
        sv.cmd('spawn %s %s %s %s' % (lid, q(cwd), '-' if stdin is None else '=' + qd(stdin), ' '.join(q(a) for a in args)))
    for a in ph.get('inherit', []): sv.cmd('inherit %s %d %d' % tuple(a))
    for f in ph.get('faults', []): sv.cmd('fault ' + ' '.join(map(str, f)))
    for f in ph.get('mfail', []): sv.cmd('mfail ' + ' '.join(map(str, f)))
    for s in ph.get('sched', []): sv.cmd('sched %d %s' % tuple(s))
    return sv.go(flags)
