"""Seeded exploration, violation gating, minimisation, replay files and evidence."""
import json, multiprocessing as mp, os, signal, subprocess, sys, time, traceback, resource
from collections import Counter
from lib.common import *

class Outcome:
    """Result of one simulated scenario."""
    __slots__ = ('viol', 'sig', 'cover', 'counts', 'loghash', 'simtime', 'nontrivial', 'sample', 'skipped', 'runs', 'narrow')
    def __init__(self):
        self.viol = None; self.sig = ''; self.cover = []; self.counts = Counter(); self.loghash = ''; self.simtime = 0.0; self.nontrivial = False; self.sample = None; self.skipped = False; self.runs = 1; self.narrow = None
    def fail(self, sig, msg):
        if self.viol is None: self.viol = msg; self.sig = sig
        return self

class Check:
    id = ''; technique = 'deterministic simulation with fault injection: '; level = 'exploration'; note = ''
    rule = ''; assumptions = []; real = []; stub = []; fault_kinds = []
    quick_cases = 100; thorough_cases = 1000; quick_wall = 90; thorough_wall = 780; workers = 8
    def open(self): return None                       # per-worker context
    def close(self, ctx): pass
    def cases(self, ctx, r, i, tier): raise NotImplementedError   # yields explicit scenarios (JSON-able)
    def execute(self, ctx, scn): raise NotImplementedError        # -> Outcome
    def shrink(self, scn): return iter(())            # smaller candidates
    def prepare(self): pass                           # build, once
    def extra(self): return {}

def known_findings(pid):
    out = {}
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                kv = dict(w.split('=', 1) for w in l[7:].split() if '=' in w)
                if kv.get('property') == pid: out[kv['sig']] = l.strip().split(' -- ', 1)[-1]
    return out

class Agg:
    def __init__(self): self.n = 0; self.nontrivial = 0; self.cover = set(); self.cover_nt = set(); self.counts = Counter(); self.sim = 0.0; self.samples = []; self.skipped = 0; self.viol = []; self.known = Counter(); self.audit = [0, 0]; self.cases = 0; self.err = None; self.dig = 0
    def add(self, o):
        self.n += o.runs; self.counts.update(o.counts); self.sim += o.simtime
        if o.skipped: self.skipped += 1
        h = o.loghash
        keys = o.cover or [h]
        for k in keys: self.cover.add(k)
        if o.nontrivial:
            self.nontrivial += int(o.nontrivial); self.cover_nt.update(keys)
            if o.sample is not None and len(self.samples) < 4: self.samples.append(o.sample)
        self.dig = (self.dig * 1000003 + int(sha(o.loghash, o.sig)[:12], 16)) & ((1 << 61) - 1)

def _worker(ck, w, nw, ncases, seed, tier, deadline, best, q, known, chunk):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    a = Agg(); ctx = None
    try:
        ctx = ck.open()
        for i in range(w, ncases, nw):
            if time.time() > deadline or i > best.value: break
            a.cases += 1
            r = rng(ck.id, seed, i)
            k = 0
            for scn in ck.cases(ctx, r, i, tier):
                o = ck.execute(ctx, scn); a.add(o); k += 1
                if o.viol is None and (i * 31 + k) % 97 == 0:
                    o2 = ck.execute(ctx, scn); a.audit[0] += 1
                    if o2.loghash != o.loghash or o2.sig != o.sig: a.audit[1] += 1
                if o.viol is not None:
                    if o.sig in known: a.known[o.sig] += 1; continue
                    a.viol.append((i, k, scn, o.sig, o.viol))
                    with best.get_lock():
                        if i < best.value: best.value = i
                    break
                if time.time() > deadline: break
    except BaseException:
        a.err = traceback.format_exc()
    finally:
        try: ck.close(ctx)
        except Exception: pass
    q.send(a); q.close()

def minimise(ck, ctx, scn, sig, budget=60):
    t0 = time.time(); tried = 0
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for cand in ck.shrink(scn):
            if time.time() - t0 > budget: break
            tried += 1
            try: o = ck.execute(ctx, cand)
            except Exception: continue
            if o.viol is not None and o.sig == sig:
                scn = cand; improved = True; break
        if not improved:
            o = ck.execute(ctx, scn)
            if o.narrow is not None and o.sig == sig:      # from a batch of runs to the failing run's explicit schedule
                o2 = ck.execute(ctx, o.narrow); tried += 1
                if o2.viol is not None and o2.sig == sig: scn = o.narrow; improved = True
    return scn, tried

def replay_main(ck, path):
    d = json.load(open(path))
    ck.prepare(); ctx = ck.open()
    o = ck.execute(ctx, d['scenario']); ck.close(ctx)
    print('loghash', o.loghash)
    if o.viol is not None:
        print('sig', o.sig); print(o.viol); print(f'VIOLATION property={ck.id} replay={path}'); return 1
    print('no violation'); return 0

def run_check(ck, seed, tier):
    t0 = time.time()
    ck.prepare()
    tb = time.time() - t0
    known = known_findings(ck.id)
    ncases = ck.quick_cases if tier == 'quick' else ck.thorough_cases
    ncases = int(os.environ.get('SIM_CASES', ncases))
    nw = int(os.environ.get('SIM_WORKERS', ck.workers)); deadline = time.time() + (ck.quick_wall if tier == 'quick' else ck.thorough_wall)
    print(f'{ck.id}: seed={seed} tier={tier} cases={ncases} workers={nw}', flush=True)
    best = mp.Value('q', 1 << 60); ps = []
    for w in range(nw):
        rd, wr = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(ck, w, nw, ncases, seed, tier, deadline, best, wr, known, 0)); p.start(); wr.close(); ps.append((p, rd))
    A = Agg(); errs = []
    for p, rd in ps:
        try: a = rd.recv()
        except EOFError: errs.append('worker died'); continue
        p.join()
        if a.err: errs.append(a.err)
        A.n += a.n; A.nontrivial += a.nontrivial; A.cover |= a.cover; A.cover_nt |= a.cover_nt; A.counts.update(a.counts); A.sim += a.sim; A.samples += a.samples[:1]; A.skipped += a.skipped
        A.viol += a.viol; A.known.update(a.known); A.audit[0] += a.audit[0]; A.audit[1] += a.audit[1]; A.cases += a.cases; A.dig ^= a.dig
    texp = time.time() - t0 - tb
    rc = 0; rep = None
    if A.viol:
        A.viol.sort(key=lambda v: (v[0], v[1]))
        i, k, scn, sig, msg = A.viol[0]
        ctx = ck.open()
        o1 = ck.execute(ctx, scn); o2 = ck.execute(ctx, scn)
        if o1.sig != sig or o2.sig != sig or o1.loghash != o2.loghash:
            print(f'ERROR: violation not reproducible: {sig} / {o1.sig} / {o2.sig} {o1.loghash} {o2.loghash}\n{msg}'); rc = 2
        else:
            small, tried = minimise(ck, ctx, scn, sig)
            o = ck.execute(ctx, small)
            ck.close(ctx)
            os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
            rep = os.path.join(V, 'evidence', 'replay', f'{ck.id}-{sha(json.dumps(small, sort_keys=True, default=str))}.json')
            json.dump({'property': ck.id, 'seed': seed, 'case': i, 'sub': k, 'signature': sig, 'violation': o.viol, 'loghash': o.loghash, 'minimised_from_candidates': tried, 'scenario': small, 'original_scenario': scn}, open(rep, 'w'), indent=1)
            r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), ck.id, '--replay', rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if r.returncode == 1 and o.loghash.encode() in r.stdout:
                print(o.viol); print(f'VIOLATION property={ck.id} replay={rep}', flush=True); rc = 1
            else:
                print('ERROR: fresh-process replay did not reproduce\n' + r.stdout.decode(errors='replace')[-2000:]); rc = 2
    elif errs:
        print('ERROR in worker:\n' + errs[0]); rc = 2
    if not rc and A.skipped * 2 > max(A.cases, A.n, 8): print(f'ERROR: {A.skipped} of {A.cases} cases skipped'); rc = 2
    for s, d in known.items(): print(f'KNOWN-FINDING: property={ck.id} {d}')
    wall = time.time() - t0
    ev = {'property': ck.id, 'tier': tier, 'seed': seed, 'level': ck.level,
          'coverage': {'evaluations': A.n, 'distinct_nontrivial': len(A.cover_nt), 'rule': ck.rule, 'samples': A.samples[:6] or ['none'],
                       'cases': A.cases, 'distinct_states_or_interleavings': len(A.cover), 'nontrivial_evaluations': A.nontrivial, 'skipped': A.skipped,
                       'simulated_runs_per_hour': int(A.n / max(texp, 1e-3) * 3600), 'cases_per_hour': int(A.cases / max(texp, 1e-3) * 3600), 'simulated_seconds': round(A.sim, 6),
                       'fired': dict(sorted(A.counts.items())), 'determinism_audits': A.audit[0], 'determinism_mismatches': A.audit[1], 'run_digest': '%016x' % A.dig,
                       'known_findings_seen': dict(A.known), 'real_components': ck.real, 'stub_components': ck.stub, **ck.extra()},
          'assumptions': ck.assumptions, 'wall_s': round(wall, 2), 'violations': len(A.viol) if rc == 1 else 0}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', ck.id + '.json'), 'w'), indent=1, default=str)
    print(f'{ck.id}: {A.n} runs ({A.nontrivial} nontrivial, {len(A.cover_nt)} distinct) in {texp:.1f}s (+{tb:.1f}s build), sim {A.sim:.1f}s, rc={rc}')
    print('fired:', dict(sorted(A.counts.items())))
    if A.audit[1]: print(f'WARNING: {A.audit[1]} determinism mismatches of {A.audit[0]}')
    return rc
