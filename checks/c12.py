"""C12 dependency files: histories of edits and failed runs against a simulated make."""
import copy
from checks.simbase import *

def parse_rules(text):
    """GNU make's reading of the rule subset compilers emit -> list of (targets, prerequisites)"""
    text = text.replace('\\\n', ' '); rules = []
    for line in text.split('\n'):
        toks = []; cur = ''; i = 0; colon = None; n = len(line)
        while i < n:
            c = line[i]
            if c == '\\':
                j = i
                while j < n and line[j] == '\\': j += 1
                k = j - i
                if j < n and line[j] in ' \t#': # 2k+1 backslashes: k and a literal character; 2k: k and a separator
                    cur += '\\' * (k // 2)
                    if k % 2: cur += line[j]; i = j + 1
                    else: i = j
                    continue
                cur += '\\' * k; i = j; continue
            if c == '#': break
            if c == '$':
                if i + 1 < n and line[i + 1] == '$': cur += '$'; i += 2; continue
                # a variable reference: single letter or ${}/() -- expands to nothing here
                if i + 1 < n and line[i + 1] in '({':
                    e = line.find(')' if line[i + 1] == '(' else '}', i); i = (e if e >= 0 else n) + 1
                else: i += 2
                continue
            if c in ' \t':
                if cur: toks.append(cur); cur = ''
                i += 1; continue
            if c == ':' and colon is None:
                if cur: toks.append(cur); cur = ''
                colon = len(toks); i += 1; continue
            cur += c; i += 1
        if cur: toks.append(cur)
        if colon is not None: rules.append((toks[:colon], toks[colon:]))
        elif toks: rules.append((None, toks))
    return rules

NAMES = ['h%d.h', 'inc/h%d.h', 'inc/sub/h%d.h', 'a b/h%d.h', 'h %d.h', 'h#%d.h', 'h$%d.h', 'inc/x  y%d.h', 'd$$/h%d.h', 'z+%d.h', 'q~%d=.h', 'bp%d.h', 'c(%d).h', "e'%d.h", 'k,%d@.h', 'sysi2/h%d.h', 'sysi2/h%d.h', 'sysd.x/h%d.h']
T0 = 1700000000
class C12(SimA):
    id = 'C12'
    technique = 'deterministic simulation: a simulated make (own reader of the generated rules, simulated clock and time stamps) drives the real compiler through seeded histories of edits, removals, additions, failed runs and I/O faults; every object it calls up to date is compared with a clean build'
    note = 'Shadowing additions (a new header found earlier on the search path) and files only probed by __has_include are outside what any dependency file can express and are not generated. Kills in the middle of a run are C07.'
    rule = 'case = project of 1-3 units with headers, embeds, unusual names; evaluation = one history of 3-9 steps; non-trivial when a step changed a file some object depended on or a run failed'
    quick_cases = 10000; thorough_cases = 400000
    def cases(self, ctx, r, i, tier):
        nh = r.randrange(1, 6); odd = r.random() < .5; hs = []
        for k in range(nh): hs.append((r.choice(NAMES) if odd else r.choice(NAMES[:3])) % k)
        es = [(r.choice(['e%d.bin', 'data/e %d.bin', 'e#$%d.bin']) if odd else 'e%d.bin') % k for k in range(r.randrange(0, 3))]
        incl = {k: [j for j in range(k) if r.random() < .35] for k in range(nh)}  # header k includes earlier headers
        nu = r.randrange(1, 4); units = []
        for u in range(nu):
            src = (r.choice(['u%d.c', 'u %d.c', 's$%d.c', 's#%d.c']) if odd and r.random() < .4 else 'u%d.c') % u
            if r.random() < .1: src = 'u%d.S' % u
            units.append({'src': src, 'inc': [k for k in range(nh) if r.random() < .6], 'emb': [k for k in range(len(es)) if r.random() < .6], 'pre': r.random() < .2 and not src.endswith('.S'), 'body': r.randrange(100), 'style': r.randrange(6), 'line': r.random() < .15})
        opt = r.choice([['-MD'], ['-MMD'], ['-MD'], ['-MD', '-MP'], ['-MMD', '-MP']]); 
        s = {'hs': hs, 'es': es, 'incl': incl, 'units': units, 'opt': opt, 'form': [r.choice(['plain', 'mf', 'o', 'omt', 'M', 'Mo', 'Mout']) for _ in units], 'opts': list(r.choice(ccgen.OPTS)), 'sub': r.random() < .3, 'sys': r.random() < .5, 'second': r.random() < .4, 'fpath': r.choice(['force.h', 'inc/force.h']), 'usys': [r.random() < .6 for _ in units]}
        for v in range(3):
            steps = []
            for _ in range(r.randrange(3, 10)):
                k = r.random(); u = r.randrange(nu)
                if k < .22: st = ['header', r.randrange(nh), r.randrange(1000)]
                elif k < .34 and es: st = ['embed', r.randrange(len(es)), r.choice(['', 'abc', 'x' * r.randrange(40), 'zz\x00\xff'])]
                elif k < .44: st = ['unit', u, r.randrange(1000)]
                elif k < .54: st = ['reinc', u, [k for k in range(nh) if r.random() < .6], [k for k in range(len(es)) if r.random() < .6]]
                elif k < .62: st = ['drop', r.randrange(nh)]         # remove a header and every use of it
                elif k < .68: st = ['rehinc', r.randrange(nh), r.random()]
                elif k < .74: st = ['error', r.choice(['unit', 'header']), r.randrange(max(nu, nh)), r.randrange(len(ccgen.ERRS))]
                elif k < .80: st = ['vanish', r.randrange(nh)]       # remove a header without editing its users, restore later
                elif k < .88: st = ['fault', u, r.choice(['hexit', 'hsig', 'exec', 'read', 'write', 'close', 'open', 'quota', 'mfail']), r.random(), r.randrange(1 << 16)]
                elif k < .92 and any(x['pre'] for x in units): st = ['force', r.randrange(1000)]
                elif k < .94: st = ['touch', r.randrange(nh)]
                else: st = ['rmobj', u, r.choice(['o', 'd'])]
                steps.append(st)
                if r.random() < .25: steps.append(['skip'])       # two edits before the next build
            yield dict(s, steps=steps)
    # ---------- state of the simulated project
    def text_h(self, s, st, k):
        b = ''.join(f'#include "{self.rel(s, s["hs"][k], s["hs"][j])}"\n' for j in st['incl'][k] if j not in st['dropped'])
        b += f'#define HV{k} {st["hv"][k]}\n'
        e = st['err'].get(('header', k))
        if e is not None: b += '\n' + ccgen.ERRS[e].replace('@', '78%d' % k) + '\n'
        if k % 3 == 2: return b                       # no guard: may be included again and again
        return f'#ifndef H{k}_H\n#define H{k}_H\n{b}#endif\n' if k % 2 else '#pragma once\n' + b
    def rel(self, s, frm, to): return os.path.relpath(to, os.path.dirname(frm) or '.')
    def text_u(self, s, st, u):
        U = s['units'][u]; asm = U['src'].endswith('.S'); L = []
        if U['line'] and not asm: L.append('#line 100 "h0.h"\n')
        for k in st['uinc'][u]:
            if k in st['dropped']: continue
            n = s['hs'][k]
            if n.startswith('sys'): L.append(f'#include <{os.path.basename(n)}>\n'); continue
            L.append(f'#include "{n}"\n' if U['style'] % 3 == 0 else f'#include <{n}>\n' if U['style'] % 3 == 1 else f'#define HN{k} "./{n}"\n#include HN{k}\n')
        if s['sys'] and s['usys'][u]: L.append('#include <y0.h>\n#include <y1.h>\n')
        if U['style'] > 3 and not asm: L.append('#include <stddef.h>\nsize_t zz;\n')
        for k in range(len(s['hs'])): L.append((f'#ifdef HV{k}\n.long HV{k}\n#endif\n') if asm else f'#ifdef HV{k}\nint v{k}=HV{k};\n#endif\n')
        if asm: L.append(f'm{u}: ret\n.long {st["uv"][u]}\n')
        else:
            for k in st['uemb'][u]:
                n = s['es'][k]
                L.append(f'char e{k}[]={{\n#embed "{n}" if_empty(77)\n}};\n' if (k + U['style']) % 2 else f'#if __has_embed("{n}") == 2\nint he{k}=2;\n#elif __has_embed(<{n}>)\nint he{k}=1;\n#endif\n')
            L.append(f'int body{u}={st["uv"][u]};\n')
            if U['pre']: L.append('int forced=FORCED;\n#ifdef THIRD\nint third=THIRD;\n#endif\n')
        e = st['err'].get(('unit', u))
        if e is not None: L.append('\n' + ccgen.ERRS[e].replace('@', '77%d' % u) + '\n')
        return ''.join(L)
    def cmd(self, s, u):
        U = s['units'][u]; f = s['form'][u]; src = U['src']; stem = os.path.splitext(os.path.basename(src))[0]
        base = list(ccgen.BASE) + s['opts'] + ['-I.', '-Iinc'] + (['-include', 'force.h'] if U['pre'] else []) + (['-include', 'second.h'] if U['pre'] and s.get('second') else [])
        if s['sys']: base += ['-isystem', 'sysi', '-idirafter', 'sysd']
        base += ['-Isysi2', '-Isysd.x']; obj, dep = stem + '.o', stem + '.d'
        if f == 'plain': c = s['opt'] + ['-c', src]
        elif f == 'mf': dep = f'dep {u}.mk'; c = s['opt'] + ['-MF', dep, '-c', src]
        elif f == 'o': obj = f'out{u}.o'; dep = f'out{u}.d'; c = s['opt'] + ['-c', src, '-o', obj]
        elif f == 'omt': obj = f'out{u}.o'; dep = f'x{u}.d'; c = s['opt'] + ['-MT', obj, '-MF', dep, '-c', src, '-o', obj]
        else: # separate dependency run
            return base, obj, dep, [['-M' if '-MD' in s['opt'] else '-MM'] + [x for x in s['opt'] if x == '-MP'] + {'M': ['-MF', dep], 'Mo': ['-o', dep], 'Mout': []}[f] + [src], ['-c', src]]
        return base, obj, dep, [c]
    def execute(self, ctx, s):
        o = Outcome(); sv = ctx.sv; sv.cmd('reset'); nh = len(s['hs']); now = T0
        st = {'force': 1, 'hv': {k: k for k in range(nh)}, 'incl': {int(k): list(v) for k, v in s['incl'].items()}, 'dropped': set(), 'uinc': [list(u['inc']) for u in s['units']], 'uemb': [list(u['emb']) for u in s['units']], 'uv': [u['body'] for u in s['units']], 'ev': ['E%d' % k for k in range(len(s['es']))], 'err': {}, 'gone': set()}
        files = {}; mtime = {}; objs = {}; hist = []
        def sync(force=()):
            fp = '/w/' + s.get('fpath', 'force.h'); want = {fp: '#define FORCED %d\n' % st['force']}
            if s.get('second'): want['/w/inc/second.h'] = '#include "third.h"\n'; want['/w/inc/third.h'] = '#define THIRD %d\n' % (st['force'] // 2)
            if s['sys']:
                # system headers that include user headers again, but only ones the user has included
                y = ''.join(f'#ifdef HV{k}\n#include <{os.path.basename(n) if n.startswith("sys") else n}>\n#endif\n' for k, n in enumerate(s['hs']) if k not in st['dropped'] and "'" not in n)
                want['/w/sysi/y0.h'] = '#define Y0 1\n' + y; want['/w/sysd/y1.h'] = '#pragma once\n#define Y1 1\n' + y
            for k in range(nh):
                if k not in st['dropped'] and k not in st['gone']: want['/w/' + s['hs'][k]] = self.text_h(s, st, k)
            for k, n in enumerate(s['es']): want['/w/' + n] = st['ev'][k]
            for u, U in enumerate(s['units']): want['/w/' + U['src']] = self.text_u(s, st, u)
            put = {p: t for p, t in want.items() if files.get(p) != t or p in force}; rm = [p for p in files if p not in want]
            files.clear(); files.update(want)
            for p in rm: mtime.pop(p, None)
            return put, rm
        pend = set(); log = []
        def phase(spawn, knobs=None, faults=(), mfail=(), flags='', put={}, rm=()):
            nonlocal now
            ph = {'files': put, 'rm': rm, 'knobs': {'now': now, 'now_ns': 0, **(knobs or {})}, 'spawns': spawn, 'faults': faults, 'mfail': mfail, 'dirs': ['/w/inc', '/w/inc/sub', '/w/data', '/w/a b', '/w/d$$'] if now == T0 else []}
            r = run_phase(sv, ph, flags); now += 3; log.append(r.hash); return r
        fsn = {}
        def absn(p): return os.path.normpath(os.path.join('/w', p))
        def norm(r): fsn.clear(); fsn.update({os.path.normpath(p): v for p, v in r.fs.items()})
        def uptodate(u):
            base, obj, dep, _ = self.cmd(s, u); op, dp = '/w/' + obj, '/w/' + dep
            if op not in fsn or dp not in fsn: return False, 'no object or rule'
            t = (sv.get(dp) or b'').decode('utf-8', 'surrogateescape'); rules = parse_rules(t)
            first = next((k for k, (tg, pr) in enumerate(rules) if tg), None)   # the object's rule comes first; an empty one names nothing
            if first is None: return False, 'no rule'
            mine = [pr for k, (tg, pr) in enumerate(rules) if tg and (pr or k == first)]
            phony = {x for k, (tg, pr) in enumerate(rules) if tg and not pr and k != first for x in tg}
            ot = fsn[op][2:4]
            for pre in [x for pr in mine for x in pr]:
                a = absn(pre)
                if a not in fsn and not a.startswith(('/usr', '/cc')):
                    if '-MP' in s['opt'] and pre not in phony and a != absn(s['units'][u]['src']): return None, f'blocked: no rule to make target {pre!r} needed by {obj}'
                    return False, 'prerequisite gone'
                if a in fsn and fsn[a][2:4] > ot: return False, 'newer ' + pre
            return True, 'up to date'
        def clean(u):
            base, obj, dep, cs = self.cmd(s, u)
            g = self.goldrun(ctx2, {'files': dict(files), 'cmd': base + ['-c', s['units'][u]['src'], '-o', 'clean.o'], 'stdin': None}, '')
            return (status(g) == 0), g.fs.get('/w/clean.o', (0, ''))[:2]
        ctx2 = ctx.alt
        put, rm = sync(); r = phase([], put=put, rm=rm); norm(r)
        changes = 0; fails = 0; stale = 0
        def build(tag, fault=None):
            nonlocal fails
            for u, U in enumerate(s['units']):
                up, why = uptodate(u)
                if up is None: return o.fail('blocked', f'after {hist}: {why}; removing a header must not block the rebuild when phony targets were requested')
                if up and not (fault and fault[1] == u): o.counts['up to date'] += 1; continue
                base, obj, dep, cs = self.cmd(s, u)
                for c in cs:
                    kw = {}
                    if fault and fault[1] == u: kw = fault[2](c == cs[-1])
                    r = phase([('r0', '/w', None, ['/cc/slimcc'] + base + c)], flags='', **kw); o.simtime += 0.01
                    norm(r)
                    for f in r.fired: o.counts[f'fault {f[2]}:{f[5]}'] += 1
                    if r.mfired: o.counts['fault malloc'] += 1
                    if status(r): fails += 1; o.counts['failed runs'] += 1; break
                    if s['form'][u] == 'Mout' and c == cs[0]: q = phase([], put={'/w/' + dep: r.out['r0'].decode('utf-8', 'surrogateescape')}); norm(q)   # cc -M x.c >x.t && mv x.t x.d
                    o.counts['compilations'] += 1
            for u, U in enumerate(s['units']):
                up, why = uptodate(u)
                if up is None: return o.fail('blocked', f'after {hist}: {why}; removing a header must not block the rebuild when phony targets were requested')
                if up:
                    ok, want = clean(u); base, obj, dep, cs = self.cmd(s, u)
                    if not ok: return o.fail('stale', f'after {hist}: {obj} counts as up to date but a clean build fails; rule: {sv.get("/w/" + dep)!r}')
                    if fsn['/w/' + obj][:2] != want: return o.fail('stale', f'after {hist}: {obj} counts as up to date but differs from a clean build; cmd={base + cs[-1]} rule: {sv.get("/w/" + dep)!r}')
                    o.counts['objects verified'] += 1
            return None
        try:
            if build('first'): return self.fin(o, log)
            restore = None; todo = 0
            for x in s['steps']:
                k = x[0]; fault = None; force = (); hist.append(x)
                if restore: (st['gone'].discard(restore[1]) if restore[0] == 'vanish' else st['err'].pop(restore[1], None)); restore = None
                if k == 'header': st['hv'][x[1]] = x[2]; st['dropped'].discard(x[1])
                elif k == 'embed' and x[1] < len(st['ev']): st['ev'][x[1]] = x[2]
                elif k == 'unit' and x[1] < len(st['uv']): st['uv'][x[1]] = x[2]
                elif k == 'reinc' and x[1] < len(st['uv']): st['uinc'][x[1]] = x[2]; st['uemb'][x[1]] = [e for e in x[3] if e < len(s['es'])]
                elif k == 'drop': st['dropped'].add(x[1])
                elif k == 'rehinc': st['incl'][x[1]] = [j for j in range(x[1]) if (x[2] * (j + 3) * 7) % 1 < .5]
                elif k == 'error': key = (x[1], x[2] % (len(s['units']) if x[1] == 'unit' else nh)); st['err'][key] = x[3]; restore = ('error', key)
                elif k == 'vanish': st['gone'].add(x[1]); restore = ('vanish', x[1])
                elif k == 'force': st['force'] = x[1]
                elif k == 'touch': force = ('/w/' + s['hs'][x[1]],)
                elif k == 'rmobj' and x[1] < len(s['units']):
                    b_, ob, dp, _ = self.cmd(s, x[1]); p = '/w/' + (ob if x[2] == 'o' else dp)
                    if p in fsn: r = phase([], rm=[p]); norm(r)
                elif k == 'fault' and x[1] < len(s['units']):
                    st['uv'][x[1]] += 1000  # the faulty run rebuilds after an edit of a header when there is one
                    if x[4] % 2: st['uv'][x[1]] -= 1000; h = x[4] % nh; st['hv'][h] += 1; st['dropped'].discard(h)
                    kind, fr, z = x[2], x[3], x[4]
                    def mk(last, kind=kind, fr=fr, z=z, u=x[1]):
                        n = int(fr * 60) + 1
                        if kind in ('hexit', 'hsig'): return {'faults': [('r0.0', 1, kind, 1 if kind == 'hexit' else 11, 0, 'exec')]} if last else {}
                        if kind == 'exec': return {'faults': [('r0.0', 1, 'err', 2, 0, 'exec')]} if last else {}
                        if kind == 'read': return {'faults': [('r0', n, 'err', 5, 0, 'read')]}
                        if kind == 'open': return {'faults': [('r0', n, 'err', 23, 0, 'open')]}
                        if kind in ('write', 'close'): return {'faults': [('r0', n + z % 40, 'err', 28, z % 3 if kind == 'close' else 0, kind)], 'knobs': {'bufsiz': [4096, 64, 16][z % 3]}}
                        if kind == 'quota': return {'faults': [('r0', n, 'quota', int(fr * 900))], 'knobs': {'bufsiz': 64}}
                        return {'mfail': [('r0', int(fr * fr * 9000) + 1, 'once')]}
                    fault = ('f', x[1], mk)
                put, rm = sync(force)
                if put or rm: changes += 1
                r = phase([], put=put, rm=rm, knobs={'quota': -1, 'bufsiz': 4096}); norm(r)
                if k == 'skip' or (s['steps'].index(x) + 1 < len(s['steps']) and s['steps'][s['steps'].index(x) + 1] == ['skip']): continue
                if build(k, fault): return self.fin(o, log)
                if fault:
                    r = phase([], knobs={'quota': -1, 'bufsiz': 4096}); norm(r)
                    if build(k): return self.fin(o, log)
        finally:
            o.nontrivial = changes > 0 or fails > 0; self.fin(o, log)
        o.cover = [sha(repr(hist), repr(s['hs']), repr(s['form']), repr(s['opt']))]
        o.sample = {'headers': s['hs'], 'forms': s['form'], 'opt': s['opt'], 'steps': s['steps'][:6]}
        return o
    def fin(self, o, log): o.loghash = sha(*log, o.sig); return o
    def open(self):
        c = Ctx(self.exe); c.alt = Ctx(self.exe); return c
    def close(self, ctx): ctx.sv.close(); ctx.alt.sv.close()
    def shrink(self, s):
        yield from shrink_list(s, 'steps')
        if len(s['units']) > 1:
            for k in range(len(s['units'])):
                n = copy.deepcopy(s); n['units'].pop(k); n['form'].pop(k); yield n
        for u in range(len(s['units'])):
            for key in ('inc', 'emb'):
                for k in range(len(s['units'][u][key])):
                    n = copy.deepcopy(s); n['units'][u][key].pop(k); yield n
        for k in list(s['incl']):
            if s['incl'][k]: n = copy.deepcopy(s); n['incl'][k] = []; yield n
