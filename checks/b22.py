"""C22 neighbouring objects and the bytes at the end of an object."""
from checks.simb import *
from lib import snip
ITY = [('char', 8), ('unsigned char', 8), ('signed char', 8), ('short', 16), ('unsigned short', 16), ('int', 32), ('unsigned', 32), ('long', 64), ('unsigned long', 64)]
NEST = {  # structures used as members and elements: members (name, type) 'i' integer, 'f' floating
    'struct n1@': ('char a;', [('a', 'i')]), 'struct n2@': ('short a;', [('a', 'i')]), 'struct n3@': ('char a[3];', [('a[0]', 'i'), ('a[1]', 'i'), ('a[2]', 'i')]), 'struct n5@': ('unsigned char a[5];', [('a[0]', 'i'), ('a[3]', 'i'), ('a[4]', 'i')]), 'struct n6@': ('short a[3];', [('a[0]', 'i'), ('a[2]', 'i')]),
    'struct n7@': ('char a[7];', [('a[0]', 'i'), ('a[4]', 'i'), ('a[6]', 'i')]), 'struct n8@': ('int a; float x;', [('a', 'i'), ('x', 'f')]), 'struct n9@': ('char a[9];', [('a[0]', 'i'), ('a[7]', 'i'), ('a[8]', 'i')]), 'struct nc@': ('float x, y, z;', [('x', 'f'), ('y', 'f'), ('z', 'f')]), 'struct nC@': ('int a[3];', [('a[0]', 'i'), ('a[1]', 'i'), ('a[2]', 'i')]),
    'struct nd@': ('char a[13];', [('a[0]', 'i'), ('a[8]', 'i'), ('a[12]', 'i')]), 'struct nf@': ('double x; char a[6]; } __attribute__((packed));', [('x', 'f'), ('a[0]', 'i'), ('a[5]', 'i')]), 'struct nF@': ('double x; float y;', [('x', 'f'), ('y', 'f')]), 'struct ng@': ('char a[17];', [('a[0]', 'i'), ('a[15]', 'i'), ('a[16]', 'i')]), 'struct nh@': ('short a[11];', [('a[0]', 'i'), ('a[7]', 'i'), ('a[10]', 'i')]),
    'struct nk@': ('long a[5]; char b[3];', [('a[0]', 'i'), ('a[4]', 'i'), ('b[2]', 'i')]), 'struct nb@': ('unsigned a : 5; int b : 11; char c;', [('a', 'b'), ('b', 'b'), ('c', 'i')]), 'struct np@': ('int a : 13; unsigned b : 7; } __attribute__((packed));', [('a', 'b'), ('b', 'b')]), 'union nu@': ('unsigned char a[11]; short s;', [('a[0]', 'i'), ('a[10]', 'i')])}
NTXT = ''.join(f'{k} {{ {d}' + ('' if d.endswith('));') else ' };') + '\n' for k, (d, _) in NEST.items())
NPACK = [k for k in NEST if k not in ('struct nF@',)]
class C22(SimB):
    id = 'C22'; level = 'exploration'; quick_cases = 900; thorough_cases = 40000; runs_quick = 14; runs_thorough = 60; oracle = ('ref', 'nb'); hook = 'neighbouring-bytes-changed'
    technique = SimB.technique + 'threads of generated programs update members, bit-fields, elements and nested structures that are neighbours in memory, each thread its own, in objects that end or begin at an unmapped page; under every seeded interleaving of instructions every thread and a final reader must see what the same text compiled by gcc sees when the threads run one after another'
    note = 'a run of adjacent bit-fields belongs to one thread (C11 memory locations)'
    stub = STUB + ['pages around the objects (inaccessible)']
    def struct(self, r, k):
        packed = r.random() < .4; ms = []; al = r.choice([0] * 6 + [2, 4, 8]) if packed else r.choice([0] * 8 + [16, 32])
        for i in range(r.randrange(2, 9)):
            n = f'm{i}'; c = r.randrange(16)
            if c < 5:
                run = []
                for j in range(r.randrange(1, 5)):
                    t, w = r.choice(ITY + [('_Bool', 1)] if r.random() < .9 else [('_Bool', 1)]); b = 1 if w == 1 else r.choice([r.randrange(1, w + 1), r.randrange(1, min(w, 9) + 1), w, 8, min(16, w)])
                    run.append((f'{n}b{j}', t, b))
                    if r.random() < .08: run.append((None, t, r.randrange(1, b + 1)))
                ms.append({'k': 'b', 'run': run, 'end': r.choice(['', 'char', 'int', 'short', 'long'])})
            elif c < 9: ms.append({'k': 'i', 'n': n, 't': r.choice(ITY)[0]})
            elif c == 9: ms.append({'k': 'B', 'n': n, 't': '_Bool'})
            elif c == 10: ms.append({'k': 'f', 'n': n, 't': r.choice(['float', 'double', 'float', 'long double'])})
            elif c == 11: ms.append({'k': 'a', 'n': n, 't': r.choice(['char', 'short', 'unsigned char', 'int', 'long']), 'len': r.randrange(2, 8)})
            elif c == 12 and not packed: ms.append({'k': 'A', 'n': n, 't': r.choice(['char', 'short', 'int', 'long', 'unsigned char'])})
            elif c == 13: ms.append({'k': 'p', 'n': n, 't': 'int *'})
            else: ms.append({'k': 's', 'n': n, 't': r.choice(NPACK if packed else list(NEST)), 'len': r.choice([0, 0, 2, 3])})
        return {'k': k, 'packed': packed, 'al': al, 'ms': ms, 'vol': r.random() < .1}
    def decl(self, s):
        o = f'struct S{s["k"]}@ {{'; V = 'volatile ' if s['vol'] else ''
        for i, m in enumerate(s['ms']):
            if m['k'] == 'b':
                o += ''.join(f' {V}{t} {n or ""}: {b};' for n, t, b in m['run'])
                if m['end'] or i + 1 < len(s['ms']) and s['ms'][i + 1]['k'] == 'b': o += f' {m["end"] or "int"} : 0;'
            elif m['k'] == 'a': o += f' {V}{m["t"]} {m["n"]}[{m["len"]}];'
            elif m['k'] == 's': o += f' {m["t"]} {m["n"]}{"[%d]" % m["len"] if m["len"] else ""};'
            elif m['k'] == 'A': o += f' _Atomic {m["t"]} {m["n"]};'
            elif m['k'] == 'p': o += f' int *{V}{m["n"]};'
            else: o += f' {V}{m["t"]} {m["n"]};'
        at = (['packed'] if s['packed'] else []) + ([f'aligned({s["al"]})'] if s['al'] else [])
        return o + ' }' + (f' __attribute__(({", ".join(at)}))' if at else '') + ';\n'
    def spec(self, r, i, tier):
        S = [self.struct(r, k) for k in range(r.randrange(1, 4))]; objs = []; locs = []
        for k in range(r.randrange(1, 4)):
            s = r.choice(S); where = r.choice(['glob', 'glob', 'end', 'end', 'start', 'init']); n = r.choice([1, 1, 2, 3]); objs.append({'k': k, 's': s['k'], 'where': where, 'n': n})
            for e in range(n):
                b = f'g{k}@' + (f'[{e}]' if n > 1 else '')
                if n > 1 and r.random() < .2: locs.append({'k': 'S', 's': s['k'], 'lv': b, 'in': [x for m in s['ms'] for x in self.locs(m, b)]}); continue
                for m in s['ms']: locs += self.locs(m, b)
        for k in range(r.randrange(0, 3)): # plain arrays and neighbouring variables
            c = r.randrange(4); where = r.choice(['glob', 'end', 'end', 'start']); u = len(objs)
            if c == 0: t = r.choice(list(NEST)); n = r.randrange(2, 5)
            else: t = r.choice(ITY)[0] if c < 3 else r.choice(['float', 'double', 'long double', '_Bool']); n = r.randrange(2, 9)
            objs.append({'k': u, 't': t, 'where': where, 'n': n})
            locs += [{'k': 's' if c == 0 else 'B' if t == '_Bool' else 'f' if c == 3 else 'i', 't': t, 'lv': f'g{u}@[{e}]'} for e in range(n)]
        nt = r.choice([2, 2, 3, 4]); own = [[] for _ in range(nt)]
        for l in locs: own[r.randrange(nt)].append(l)
        s = {'S': S, 'objs': objs, 'own': own, 'opts': r.choice(OPTS)[:], 'link': r.choice(['static'] * 6 + ['pie', 'shared'])}
        s['body'] = [[x for _ in range(r.randrange(4, 12)) for x in [self.op(r, o)] if x] if o else [] for o in own]
        return s
    def locs(self, m, b):
        if m['k'] == 'b': return [{'k': 'b', 'f': [f'{b}.{n}' for n, t, w in m['run'] if n], 't': [t for n, t, w in m['run'] if n]}]
        if m['k'] == 'a': return [{'k': 'i', 't': m['t'], 'lv': f'{b}.{m["n"]}[{i}]'} for i in range(m['len'])]
        if m['k'] == 's' and m['len']: return [{'k': 's', 't': m['t'], 'lv': f'{b}.{m["n"]}[{i}]'} for i in range(m['len'])]
        return [{'k': m['k'], 't': m['t'], 'lv': f'{b}.{m["n"]}'}]
    def flat(self, o): return [y for x in o for y in (x['in'] if x['k'] == 'S' else [x])]
    def rd(self, r, o):
        x = r.choice(self.flat(o))
        if x['k'] == 'b': return f'(long){r.choice(x["f"])}'
        if x['k'] in 'iBA': return f'(long){x["lv"]}'
        if x['k'] == 'f': return f'clamp@({x["lv"]})'
        if x['k'] == 's': m, k = r.choice(NEST[x['t']][1]); return f'clamp@({x["lv"]}.{m})' if k == 'f' else f'(long){x["lv"]}.{m}'
        return f'({x["lv"]} ? {x["lv"]} - base@ : -1)'
    def e(self, r, o, d=2):
        if d <= 0 or r.random() < .25: return r.choice([self.rd(r, o), self.rd(r, o), 'me', str(r.randrange(-9, 300)), f'{r.randrange(-2**63 + 1, 2**63)}L', f'{r.randrange(2**32)}u', '-1'])
        return f'({self.e(r, o, d - 1)} {r.choice(["+", "-", "*", "^", "&", "|"])} {self.e(r, o, d - 1)})'
    def fe(self, r, o): return f'{self.rd(r, o)} * {r.choice(["0.5", "0.25f", "1", "2.0L"])}'
    def sval(self, r, o, t, x):
        c = r.randrange(7); ini = ', '.join(f'.{m} = {self.fe(r, o) if k == "f" else self.e(r, o, 1)}' for m, k in NEST[t][1])
        n = t.split(' ')[1]
        return [f'({t}){{ {ini} }}', f'mk{n}({self.e(r, o, 1)})', f'mk{n}({self.e(r, o, 1)})', f'id{n}(3, {x})', f'va{n}(2, mk{n}({self.e(r, o, 1)}), {x})', f'({self.e(r, o, 1)} & 1 ? {x} : mk{n}(me))', f'rt{n}(&{x})'][c]
    def op(self, r, o, d=1):
        x = r.choice(o); k = x['k']; E = lambda n=2: self.e(r, o, n)
        if d and r.random() < .12: u = r.randrange(10**6); b = [y for _ in range(2) for y in [self.op(r, o, 0)] if y]; return [f'for (int i{u} = 0; i{u} < {r.randrange(2, 5)}; i{u}++) {{', b, '}']
        if r.random() < .2: return f'LOG(%I, {self.rd(r, o)});'
        if k == 'S':
            if r.random() < .6 or len(x['in']) == 0: return f'{{ struct S{x["s"]}@ *q = &{x["lv"]}, t = *q; *q = t; }}' if r.random() < .5 else f'{{ struct S{x["s"]}@ t = {x["lv"]}; {x["lv"]} = (struct S{x["s"]}@){{ 0 }}; {x["lv"]} = t; }}'
            x = r.choice(x['in']); k = x['k']
        if k == 'b':
            j = r.randrange(len(x['f'])); f, t = x['f'][j], x['t'][j]; c = r.randrange(9)
            if t == '_Bool': return r.choice([f'{f} = {E()};', f'LOG(%I, {f} = {E(1)});', f'{f} ^= 1;', f'{f} |= {E(1)};'])
            if c < 2: return f'{f} = {E()};'
            if c == 2: return f'LOG(%I, {f} = {E()});'
            if c == 3: return f'{f} {r.choice(["+=", "-=", "*=", "^=", "|=", "&="])} {E()};'
            if c == 4: return f'LOG(%I, {f} {r.choice(["+=", "-=", "^=", "|="])} {E(1)});'
            if c == 5: return f'LOG(%I, {r.choice(["++%s", "--%s", "%s++", "%s--"]) % f});'
            if c == 6: return f'{r.choice(["++%s", "%s--"]) % f};'
            if c == 7: return f'{{ long q_ = {E(1)}; __asm__("mov %1, %q0" : "=r"({f}) : "r"(q_)); }}'
            return f'LOG(%I, {f} ? {f} : 9);'
        v = x['lv']
        if k == 'i':
            T = x['t']; c = r.randrange(11)
            if c < 2: return f'{v} = {E()};'
            if c == 2: return f'LOG(%I, {v} {r.choice(["+=", "-=", "*=", "^=", "|=", "&="])} {E(1)});'
            if c == 3: return f'{v} {r.choice(["+=", "-=", "*=", "^=", "|=", "&="])} {E()};'
            if c == 4: return f'LOG(%I, {r.choice(["++%s", "--%s", "%s++", "%s--"]) % v});'
            if c == 5: return f'{r.choice(["++%s", "%s--"]) % v};'
            if c == 6: return f'{v} {r.choice(["<<= 1", ">>= 1", "/= 3", "%= 5", "/= 4"])};'
            if c == 7: return f'{{ {T} q_ = {E(1)}; __asm__("mov %1, %0" : "=r"({v}) : "r"(q_)); }}'
            if c == 8: return f'{{ {T} q_ = {E(1)}; __asm__("{r.choice(["add", "xor"])} %1, %0" : "+m"({v}) : "r"(q_) : "cc"); }}'
            if c == 9: return f'{v} = {self.fe(r, o)} > 3 ? {E(1)} : {v};'
            return f'{{ {T} *q_ = ({T} *)&{v}; *q_ {r.choice(["=", "+=", "^="])} {E(1)}; }}'
        if k == 'A': return r.choice([f'{v} = {E()};', f'{v} += {E(1)};', f'LOG(%I, {v} ^= {E(1)});', f'LOG(%I, {v}++);', f'--{v};', f'LOG(%I, __atomic_fetch_add(&{v}, 3, 5));' if 0 else f'{v} |= {E(1)};'])
        if k == 'B': return r.choice([f'{v} = {E()};', f'LOG(%I, {v} = {E(1)});', f'{v} = !{v};', f'{v} ^= 1;'])
        if k == 'f': return r.choice([f'{v} = {self.fe(r, o)};', f'{v} += 0.5;', f'{v} = clamp@({v}) * 0.75;', f'LOGD(%I, {v}++);', f'LOGD(%I, {v} = {self.fe(r, o)});', f'{v} = (int){E(1)};'])
        if k == 'p': return r.choice([f'{v} = &base@[{r.randrange(50)}];', f'{v} = base@ + ({E(1)} & 31);', f'{v} = &base@[me];'])
        t = x['t']; n = t.split(' ')[1]; c = r.randrange(8); m, mk = r.choice(NEST[t][1])
        if c < 4: return f'{v} = {self.sval(r, o, t, v)};'
        if c == 4: return f'{{ {t} q_ = {v}; {v} = q_; }}'
        if c == 5: return f'LOG(%I, {r.choice([f"su{n}(me, {v})", f"sf{n}({v}, me)", f"sp{n}(&{v})", f"sp{n}(&{v})"])});'
        if c == 6: return f'LOG(%I, su{n}(me, {v} = {self.sval(r, o, t, v)}));'
        return f'{v}.{m} = {self.fe(r, o)};' if mk == 'f' else f'{v}.{m} {r.choice(["=", "+=", "^="])} {E(1)};'
    def logall(self, o, seq):
        out = []
        for x in self.flat(o):
            if x['k'] == 'b': out += [f'LOG(%I, {f});' for f in x['f']]
            elif x['k'] in 'iBA': out.append(f'LOG(%I, {x["lv"]});')
            elif x['k'] == 'f': out.append(f'LOGD(%I, {x["lv"]});')
            elif x['k'] == 's': out += [f'LOGD(%I, {x["lv"]}.{m});' if k == 'f' else f'LOG(%I, {x["lv"]}.{m});' for m, k in NEST[x['t']][1]]
            else: out.append(f'LOG(%I, {x["lv"]} ? {x["lv"]} - base@ : -1);')
        return out
    def marks(self, o):
        return ' '.join(' '.join(f'{f} = {"1" if t == "_Bool" else "-1"};' for f, t in zip(x['f'], x['t'])) if x['k'] == 'b' else f'__builtin_memset((void *)&{x["lv"]}, 255, sizeof {x["lv"]});' for x in o)
    def text(self, s, ref):
        seq = [0]; used = {y['t'] for o in s['own'] for y in self.flat(o) if y['k'] == 's'} | {o.get('t') for o in s['objs']} | {m['t'] for q in s['S'] for m in q['ms'] if m['k'] == 's'}
        o = snip.PRE + 'typedef struct { long v; } pad_@;\nstatic int clamp@(double d) { return d > -30000 && d < 30000 ? (int)d : 9; }\nstatic int base@[64];\n'
        for t, (d, ms) in NEST.items():
            if t not in used: continue
            n = t.split(' ')[1]; o += f'{t} {{ {d}' + ('' if d.endswith('));') else ' };') + '\n'
            o += f'static {t} mk{n}(long v) {{ {t} q = {{ 0 }}; ' + ' '.join(f'q.{m} = {"(int)v % 1000 * 0.5" if k == "f" else "v"}; v = v * 7 + 3;' for m, k in ms) + ' return q; }\n'
            o += f'static {t} id{n}(int k, {t} q) {{ return q; }}\nstatic {t} va{n}(int k, ...) {{ va_list ap; va_start(ap, k); {t} q = va_arg(ap, {t}); if (k > 1) q = va_arg(ap, {t}); va_end(ap); return q; }}\n'
            o += f'static long su{n}(long s, {t} q) {{ ' + ' '.join(f's = s * 3 + {"clamp@(q.%s)" % m if k == "f" else "q.%s" % m};' for m, k in ms) + ' return s; }\n'
            o += f'static {t} rt{n}({t} *p) {{ return *p; }}\nstatic long sf{n}({t} q, long s) {{ return su{n}(s, q); }}\nstatic long sp{n}({t} *p) {{ return sf{n}(*p, 3); }}\n'
        for q in s['S']: o += self.decl(q)
        for x in s['objs']:
            t = x.get('t') or f'struct S{x["s"]}@'; dim = f'[{x["n"]}]' if x['n'] > 1 or 't' in x else ''
            if x['where'] in ('glob', 'init'): o += f'{"static " if x["k"] & 1 else ""}{t} g{x["k"]}@{dim};\n'
            else:
                o += f'typedef {t} T{x["k"]}@{dim};\n'
                page = f'(PG@ + {x["k"] * 0x4000 + 0x1000}ul)'
                o += f'#define g{x["k"]}@ (*(T{x["k"]}@ *)({page}{" + 4096 - sizeof(T%d@)" % x["k"] if x["where"] == "end" else ""}))\n'
        o += f'volatile long dn@[{len(s["own"])}];\n'
        for t, b in enumerate(s['body']):
            o += f'void t{t}@(void) {{\n  int me = {t + 3};\n' + snip.text(b, 1, seq) + snip.text(self.logall(s['own'][t], seq), 1, seq) + f'  dn@[{t}] = 1;\n}}\n'
        o += f'void tf@(void) {{\n  for (int i = 0; i < {len(s["own"])}; i++) while (!dn@[i]) sim_yield();\n' + snip.text([y for w in s['own'] for y in self.logall(w, seq)], 1, seq) + '}\n'
        o += 'void *ob@(int k) { ' + ' '.join(f'if (k == {i}) return (void *)&g{x["k"]}@;' for i, x in enumerate(s['objs'])) + ' return 0; }\n'
        if ref: o += f'static const int obz@[] = {{ ' + ', '.join(f'sizeof g{x["k"]}@' for x in s['objs']) + ', 0 };\nstatic void mark@(int t) {\n' + ''.join(f'  if (t == {t}) {{ {self.marks(w)} }}\n' for t, w in enumerate(s['own'])) + '}\n'
        return o.replace('@', 'r_' if ref else 'p_')
    def render(self, s):
        pre = 'void sim_yield(void);\n#define PGp_ 0x30000000ul\n#define PGr_ 0x38000000ul\n'; n = len(s['own'])
        pages = [x['k'] * 0x4000 + 0x1000 for x in s['objs'] if x['where'] in ('end', 'start')]
        m = '#include "rt.h"\n#include <sys/mman.h>\n' + pre + self.text(s, True) + ''.join(f'void t{t}p_(void); ' for t in range(n)) + 'void tfp_(void);\nint sim_pool = %d; long sim_maxsteps = 400000;\n' % (2 * n + 2)
        m += 'void sim_setup(void) { ' + ' '.join(f'mmap((void *)({b} + {p}ul), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);' for p in pages for b in ('PGp_', 'PGr_')) + ' }\n'
        m += f'void *obp_(int); struct nb {{ unsigned char *p; int n; unsigned char *foreign; }} nb_objs[{len(s["objs"]) + 1}]; int nb_nobj = {len(s["objs"])}, nb_on; static unsigned char fb[{len(s["objs"]) + 1}][4096]; static void all(void); void (*ref_thr[{n + 2}])(void);\n'
        m += f'void (*const pt[])(void) = {{ {", ".join(f"t{t}p_" for t in range(n))} }}, (*const rt_[])(void) = {{ {", ".join(f"t{t}r_" for t in range(n))} }};\n'
        m += '''void prog_threads(void) {
  int n = %d;
  if (sim_seed %% 2) { for (int i = 0; i < n; i++) sim_spawn(pt[i]), ref_thr[i] = rt_[i]; sim_spawn(tfp_); ref_thr[n] = tfr_; return; }
  int T = sim_seed / 2 %% n; nb_on = 1; sim_spawn(pt[T]); ref_thr[0] = rt_[T];
  for (int i = 0; i < nb_nobj; i++) { nb_objs[i].p = obp_(i); nb_objs[i].n = obzr_[i]; nb_objs[i].foreign = fb[i]; }
  for (int t = 0; t < n; t++) if (t != T) { markr_(t); for (int i = 0; i < nb_nobj; i++) for (int k = 0; k < obzr_[i]; k++) if (((unsigned char *)obr_(i))[k]) fb[i][k] = 1, ((unsigned char *)obr_(i))[k] = 0; }
  markr_(T); for (int i = 0; i < nb_nobj; i++) for (int k = 0; k < obzr_[i]; k++) if (((unsigned char *)obr_(i))[k]) fb[i][k] = 0, ((unsigned char *)obr_(i))[k] = 0;
}
''' % n
        return {'src': pre + self.text(s, False), 'model': m, 'opts': s['opts'], 'link': s['link']}
    def shrink_spec(self, s):
        for t in range(len(s['own'])):
            if s['body'][t] and len(s['own']) > 1:
                n = dict(s); n['body'] = s['body'][:t] + s['body'][t + 1:]; n['own'] = s['own'][:t] + s['own'][t + 1:]; yield n
        for t, b in enumerate(s['body']):
            for c in snip.cuts(b): yield dict(s, body=s['body'][:t] + [c] + s['body'][t + 1:])
        txt = repr(s['body'])
        for t, o in enumerate(s['own']):
            for i in range(len(o)): yield dict(s, own=s['own'][:t] + [o[:i] + o[i + 1:]] + s['own'][t + 1:])
        for i, x in enumerate(s['objs']):
            if f'g{x["k"]}@' not in repr(s['body']) + repr(s['own']): yield dict(s, objs=s['objs'][:i] + s['objs'][i + 1:])
        for i, q in enumerate(s['S']):
            for j, m in enumerate(q['ms']): yield dict(s, S=s['S'][:i] + [dict(q, ms=q['ms'][:j] + q['ms'][j + 1:])] + s['S'][i + 1:])
        if s['link'] != 'static': yield dict(s, link='static')
        if s['opts']: yield dict(s, opts=[])
