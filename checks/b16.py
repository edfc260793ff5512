"""C16 thread-local storage."""
import copy
from checks.simb import *
COMMON = '''
void sim_log(int, long, long); long sim_bits(const void *, int);
#define LOG(id, e) sim_log(id, (long)(e), 0)
#define LOGD(id, e) ({ double d_ = (e); sim_log(id, sim_bits(&d_, 8), 1); })
'''
HELP = '''
struct S@ { char c; long l; short a[3]; }; struct B@ { unsigned a : 5; int b : 11; unsigned c : 20; }; union U@ { long l; unsigned char b[8]; }; struct F@ { short n; char k; unsigned char a[]; }; struct G@ { int n; struct { int x, y; } a[]; }; typedef unsigned short us@;
%S int bump@(int *p) { *p += 3; return *p; }
%S long bumpl@(long *p, int k) { *p ^= k * 5; return *p - 1; }
%S long sum8@(long a, int b, short c, long d, int e, unsigned f, long g, long h, int i) { return a + b * 3 - c + d * 7 + e - f + g * 2 + h + i; }
%S double fsum@(double a, int b, float c, long d, double e) { return a + b - c * 2 + d + e; }
%S struct S@ mk@(long v) { struct S@ r = { v, v * 2, { v, v + 1, v + 2 } }; return r; }
%S long tk@(struct S@ s) { return s.c + s.l * 3 + s.a[1]; }
'''
def small(r): return r.randrange(-50, 100)
# kind -> (type text, declarator suffix, initialiser or None, list of (lvalue, 'i'|'d'), alignment to check)
def kinds(r, k):
    n = f'v{k}@'; v = small(r)
    return r.choice([
        ('int', '', f'{v}', [(n, 'i')], 4), ('int', '', None, [(n, 'i')], 4), ('long', '', f'{v * 100000007}', [(n, 'i')], 8), ('char', '', f'{v % 100}', [(n, 'i')], 1), ('short', '', f'{v}', [(n, 'i')], 2),
        ('unsigned', '', '4000000000u', [(n, 'i')], 4), ('unsigned char', '', '200', [(n, 'i')], 1), ('_Bool', '', '1', [(n, 'b')], 1), ('double', '', f'{v}.25', [(n, 'd')], 8), ('float', '', f'{v}.5f', [(n, 'f')], 4),
        ('long double', '', f'{v}.75L', [(n, 'd')], 16), (f'struct S@', '', f'{{ 3, {v}, {{ 1, 2, {v} }} }}', [(n + '.c', 'i'), (n + '.l', 'i'), (n + '.a[1]', 'i'), (n + '.a[2]', 'i')], 8), ('struct S@', '', None, [(n + '.l', 'i'), (n + '.a[0]', 'i')], 8),
        ('struct B@', '', f'{{ 7, {v}, 123456 }}', [(n + '.a', 'i'), (n + '.b', 'i'), (n + '.c', 'i')], 4), ('int', '[5]', f'{{ 1, {v}, 3, [4] = 9 }}', [(f'{n}[{i}]', 'i') for i in range(5)] + [(f'{n}[ix@ & 3]', 'i')], 4),
        ('char', '[9]', '"hello"', [(f'{n}[1]', 'i'), (f'{n}[7]', 'i'), (f'{n}[ix@ & 7]', 'i')], 1), ('long', '[70]', None, [(f'{n}[0]', 'i'), (f'{n}[69]', 'i'), (f'{n}[(ix@ & 15) * 4]', 'i')], 8),
        ('int *', '', f'&g@[{k % 4}]', [(f'*{n}', 'ro'), (f'{n}[1]', 'ro')], 8), ('struct S@', '[3]', f'{{ [1] = {{ .l = {v} }}, [2] = {{ 1, 2, {{ 3 }} }} }}', [(n + '[1].l', 'i'), (n + '[2].a[0]', 'i'), (n + '[ix@ & 1].c', 'i')], 8),
        ('struct F@', '', f'{{ {v}, 5, {{ 1, 2, 3, 4, {v & 127}, 6, 7, 8, 9, 10, 11, 12, 13 }} }}', [(n + '.n', 'i'), (n + '.a[4]', 'i'), (n + '.a[12]', 'i'), (n + '.a[ix@ * 4 & 12]', 'i')], 2), ('struct G@', '', f'{{ {v}, {{ {{ 1, 2 }}, {{ 3, {v} }}, {{ 5 }} }} }}', [(n + '.n', 'i'), (n + '.a[1].y', 'i'), (n + '.a[2].x', 'i'), (n + '.a[2].y', 'i')], 4),
        ('union U@', '', f'{{ {v} }}', [(n + '.l', 'i'), (n + '.b[3]', 'i')], 8), ('us@', '', '60000', [(n, 'i')], 2), ('int', '[2][3]', '{ { 1, 2 }, { 4, 5, 6 } }', [(n + '[1][2]', 'i'), (n + '[0][1]', 'i'), (n + '[ix@ & 1][1]', 'i')], 4),
        ('int (*', ')(int *)', 'bump@', [], 8), ('_Atomic int', '', f'{v}', [(n, 'a')], 4), ('volatile int', '', f'{v}', [(n, 'i')], 4), ('const int', '', f'{v}', [(n, 'ro')], 4), ('char', '', '1', [(n, 'i')], 1)])
class C16(SimB):
    id = 'C16'; level = 'exploration'; quick_cases = 600; thorough_cases = 25000; runs_quick = 10; runs_thorough = 25; oracle = ('ref',)
    technique = SimB.technique + 'programs whose threads use generated sets of thread-local objects are compiled by slimcc in every code model and interleaved instruction by instruction; each thread must report exactly what the same text compiled by gcc reports when the threads run one after another, and instances must be disjoint and stationary'
    note = 'glibc allocates and initialises the thread images; called functions destroy every caller-saved register'
    def spec(self, r, i, tier):
        nv = r.randrange(2, 8); nt = r.choice([2, 2, 3, 4]); vs = []
        for k in range(nv):
            ty, suf, init, lvs, al = kinds(r, k)
            st = r.choice(['plain', 'plain', 'static', 'static', 'extern', 'local', 'fwd', 'gccdef', 'hidden', 'externlocal', 'weak', 'section', 'dup', 'static dup'])
            if suf.startswith(')') or ty.endswith('*') and not suf: st = 'static' if st in ('gccdef', 'extern', 'externlocal') else st
            if suf.startswith(')') and st == 'local': st = 'static'
            if 'const' in ty and (st == 'fwd' or 'dup' in st): st = 'plain'
            if ty in ('struct F@', 'struct G@') and st not in ('plain', 'static', 'hidden', 'weak', 'section'): st = 'static'
            if 'dup' in st and suf.startswith(')'): st = 'static'
            sp = r.choice(['_Thread_local', '_Thread_local', '__thread', 'thread_local'])
            vs.append({'ty': ty, 'suf': suf, 'init': init, 'lvs': lvs, 'al': al, 'st': st, 'sp': sp, 'bal': r.choice([0, 0, 0, 0, 16, 32, 64]), 'k': k})
        emu = r.random() < .2
        link = r.choice(['static', 'static', 'static', 'dyn', 'pie', 'pie', 'shared', 'shared'])
        opts = r.choice(OPTS)[:]
        if emu:
            opts.append('-femulated-tls')
            for v in vs:
                if v['st'] in ('gccdef', 'section'): v['st'] = 'plain'
        if link != 'shared' and r.random() < .3: opts.append(r.choice(['-fPIC', '-fPIE', '-fpic']))
        if r.random() < .25: opts.append('-fcommon')
        if r.random() < .15: opts.append(r.choice(['-fdata-sections', '-ffunction-sections'] if not any(v['st'] == 'section' for v in vs) else ['-ffunction-sections']))
        if link in ('static', 'dyn') and r.random() < .1: opts.append('-fvisibility=hidden')
        thr = [[self.op(r, vs, 4) for _ in range(r.randrange(3, 11))] for _ in range(nt)]
        return {'vs': vs, 'thr': thr, 'same': r.random() < .35, 'opts': opts, 'link': link}
    def op(self, r, vs, d):
        lv = [(l, k, v['k']) for v in vs for l, k in v['lvs']]; L = [x for x in lv if x[1] in 'idbfa']; I = [x for x in lv if x[1] in ('i', 'ro', 'b', 'a')]; F = [x for x in lv if x[1] in 'df']; W = [x for x in lv if x[1] == 'i']; A = [x for x in lv if x[1] == 'a']
        def rd():
            x = r.choice(lv) if lv else ('7', 'i', 0); return f'(long){x[0]}' if x[1] in 'df' else x[0]
        def ex(n):
            if n <= 0 or r.random() < .15: return rd() if r.random() < .85 else str(r.randrange(1, 30))
            a, b = ex(n - 1), ex(n - 1)
            return r.choice([f'({a} + {b})', f'({a} - {b})', f'({a} * (long)({b}))', f'({a} ^ {b})', f'(({a}) & 255) * ({b})', f'({a} ? {b} : {ex(n - 2)})', f'sum8@({a}, {rd()}, {rd()}, {b}, {rd()}, {rd()}, {rd()}, {ex(n - 2)}, {rd()})', f'(int)({a} | {b})', f'({a} < {b})', f'tk@(mk@({a}))', f'({a} && {b})', f'({a}, {b})' if 0 else f'-({a})', f'(long)(unsigned char)({a} + {b})'])
        c = r.randrange(15)
        v = r.choice(vs)
        if c in (0, 1): return f'LOG(%I, {ex(r.randrange(1, 4))});'
        if c == 2 and W: return f'{r.choice(W)[0]} = {ex(2)};'
        if c == 3 and W: return f'{r.choice(W)[0]} {r.choice(["+=", "-=", "^=", "|=", "&=", "*="])} {ex(2)};'
        if c == 4 and W: x = r.choice(W)[0]; return f'LOG(%I, {r.choice([x + "++", "++" + x, x + "--", "--" + x])});'
        if c == 5: return f'sim_log({1000 + v["k"]}, (long)&v{v["k"]}@, sizeof v{v["k"]}@);'
        if c == 6:
            s = [x for x in vs if x['ty'] == 'struct S@' and not x['suf']]
            if s: n = f'v{r.choice(s)["k"]}@'; return r.choice([f'{{ struct S@ q = {n}; q.l++; {n} = q; LOG(%I, {n}.l + q.a[2]); }}', f'{n} = mk@({ex(1)}); LOG(%I, tk@({n}));', f'{{ struct S@ *p = &{n}; p->a[1] += {rd()}; LOG(%I, {n}.a[1]); }}'])
        if c == 7:
            s = [x for x in vs if x['ty'] == 'int' and not x['suf']]
            if s: n = f'v{r.choice(s)["k"]}@'; return r.choice([f'LOG(%I, bump@(&{n}));', f'LOG(%I, sum8@(bump@(&{n}), 1, 2, 3, 4, 5, 6, 7, 8));', f'{{ int *p = &{n}; *p += 3; LOG(%I, {n}); }}', f'__asm__("addl %1, %0" : "+m"({n}) : "r"(5) : "cc"); LOG(%I, {n});', f'__asm__("addl %1, %0" : "+r"({n}) : "r"(7) : "cc"); LOG(%I, {n});'])
        if c == 8 and W: x, y = r.choice(W)[0], rd(); return f'for (int i@ = 0; i@ < 3; i@++) {x} += i@ * (int)({y});'
        if c == 9 and F: x = r.choice(F); return r.choice([f'{x[0]} += {r.choice(["1.5", "2", "0.25f"])}; LOGD(%I, {x[0]});', f'LOGD(%I, fsum@({x[0]}, {rd()}, {x[0]}, {rd()} & 255, {x[0]}));', f'{x[0]} = (char)({rd()}) * 0.5; LOGD(%I, {x[0]} - 1);', f'LOGD(%I, {x[0]}++ + ((int)({rd()}) & 7));'])
        if c == 10 and A: x = r.choice(A)[0]; return f'LOG(%I, {x}++ + 2);' if r.random() < .5 else f'{x} += 5; LOG(%I, {x});'
        if c == 11: return r.choice(['LOG(%I, rec@(3));', f'LOG(%I, ALN((long)&v{v["k"]}@ & {(v["al"] if v["suf"].startswith(")") else max(v["al"], v["bal"])) - 1}));', 'LOG(%I, cnt@(2));'])
        if c == 12: 
            s = [x for x in vs if x['suf'].startswith(')')]
            if s: return f'{{ int q = 4; LOG(%I, v{s[0]["k"]}@(&q)); }}'
        if c == 13 and len(vs) > 1 and W: x = r.choice(W)[0]; return f'{{ long t1 = {ex(1)}, t2 = {ex(2)}; {x} = t1 - t2; LOG(%I, {x} + {ex(1)}); }}'
        if c == 14 and W: return f'if ({ex(1)}) {r.choice(W)[0]} -= 2; else {r.choice(W)[0]} = 11;'
        return f'LOG(%I, {ex(3)});'
    def text(self, s, ref):
        """-> (main unit, second unit, unit compiled by gcc)"""
        out = COMMON + f'#undef ALN\n#define ALN(x) {"0" if ref else "(x)"}\n' + HELP.replace('%S', 'static') + 'int g@[8] = { 5, 6, 7, 8, 9, 10 }; static int ix@ = 2;\n'; two = COMMON + HELP.replace('%S', 'static') + 'extern int g@[8];\n'; three = two; late = ''; pre = ''
        for v in s['vs']:
            k = v['k']; sp = '_Thread_local' if ref or (v['sp'] == 'thread_local' and '-std=c23' not in s['opts']) else v['sp']; al = f'_Alignas({v["bal"]}) ' if v['bal'] > v['al'] and not v['suf'].startswith(')') else ''
            dc = f'{v["ty"]}{"" if v["ty"].endswith("*") else " "}v{k}@{v["suf"]}'; ini = f' = {v["init"]}' if v['init'] else ''
            if v['ty'] == 'int (*' : dc = f'int (*v{k}@)(int *)'
            st = v['st']
            if st in ('static', 'local', 'static dup') : q = f'static {sp} '
            else: q = f'{sp} '
            if st == 'local': # block scope static, reached through its address
                out += f'static __typeof__({v["ty"]}{v["suf"]}) *a{k}@(void) {{ static {sp} {al}{dc}{ini}; return &v{k}@; }}\n#define v{k}@ (*a{k}@())\n'
            elif st == 'fwd': out += f'extern {sp} {dc};\n'; late += f'{sp} {al}{dc}{ini};\n'
            elif st in ('extern', 'externlocal'): out += f'extern {sp} {dc};\n'; two += f'{q}{al}{dc}{ini};\n'
            elif st == 'gccdef': out += f'extern {sp} {dc};\n'; three += f'{q}{al}{dc}{ini};\n'
            elif 'dup' in st: out += f'{q}{al}{dc};\n{q}{al}{dc}{ini};\n' + (f'{q}{al}{dc};\n' if k & 1 else '')
            elif st == 'weak': out += f'__attribute__((weak)) {q}{al}{dc}{ini};\n'
            elif st == 'section': out += f'__attribute__((section("{".tdata.my" if ini else ".tbss.my"}"))) {q}{al}{dc}{ini};\n' if not ref else f'{q}{al}{dc}{ini};\n'
            elif st == 'hidden': out += f'__attribute__((visibility("hidden"))) {q}{al}{dc}{ini};\n' if not ref else f'{q}{al}{dc}{ini};\n'
            else: out += f'{q}{al}{dc}{ini};\n'
        out += 'static int rec@(int n) { static _Thread_local int c = 4; c++; return n ? rec@(n - 1) + c : c; }\nstatic int cnt@(int n) { static _Thread_local struct { int a, b; } q; static _Thread_local int w[3] = { 1, 2, 3 }; q.a += n; w[q.a % 3]++; q.b += w[1]; return q.a * 100 + q.b; }\n'
        seq = 0
        for t, ops in enumerate(s['thr']):
            if s['same'] and t: out += f'void t{t}@(void) {{ t0@(); }}\n'; continue
            out += f'void t{t}@(void) {{\n'
            for o in ops: out += '  ' + o.replace('%I', str(seq)) + '\n'; seq += 1
            out += '}\n'
        return [x.replace('@', 'r_' if ref else 'p_') for x in (out + late, two, three)]
    def render(self, s):
        a, b, c = self.text(s, False); ra, rb, rc = self.text(s, True); nt = len(s['thr'])
        src = a; more = {'w2.c': b}
        body = ra + '\n' + '\n'.join(l for x in (rb, rc, c) for l in x.split('\n') if re.match(r'(_Thread_local|__thread)', l))
        body = '#include "rt.h"\n' + '\n'.join(l for l in self.dedupe(ra, rb, rc, c)) 
        body += ''.join(f'void t{t}p_(void); ' for t in range(nt)) + f'\nint sim_pool = {2 * nt};\nvoid prog_threads(void) {{ ' + ' '.join(f'sim_spawn(t{t}p_);' for t in range(nt)) + ' }\nvoid (*ref_thr[])(void) = { ' + ', '.join(f't{t}r_' for t in range(nt)) + ', 0 };\n'
        return {'src': src, 'model': body, 'more': more, 'opts': s['opts'], 'link': s['link'], 'counts': ['storage ' + v['st'] for v in s['vs']]}
    def dedupe(self, ra, rb, rc, c):
        yield ra
        for x in (rb, rc):
            for l in x.split('\n'):
                if l.startswith(('_Thread_local', '__thread')): yield l
        yield HELP.replace('%S', 'static').replace('@', 'p_') + 'extern int gp_[8];'
        for l in c.split('\n'):
            if l.startswith(('_Thread_local', '__thread')): yield l
    def shrink_spec(self, s):
        for t in range(len(s['thr'])):
            for i in range(len(s['thr'][t])): n = copy.deepcopy(s); del n['thr'][t][i]; yield n
        if len(s['thr']) > 1: n = copy.deepcopy(s); n['thr'].pop(); yield n
        for i, v in enumerate(s['vs']):
            if not any(f'v{v["k"]}@' in o for t in s['thr'] for o in t): n = copy.deepcopy(s); del n['vs'][i]; yield n
        if s['link'] not in ('static', 'shared'): yield dict(s, link='static')
        for i in range(len(s['opts'])): yield dict(s, opts=s['opts'][:i] + s['opts'][i + 1:])
