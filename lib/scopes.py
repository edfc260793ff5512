"""Generator of functions full of scopes that end in every possible way.
Two texts are produced from one tree: the program's (defer, labelled break and continue, declarations in conditions) and the reference's, where gcc is given the same behaviour by
cleanup attributes on nested functions, gotos and explicit blocks.  \x01P\x02R\x03 = P in the program, R in the reference."""
import re
PRE = '''void sim_log(int, long, long); long sim_bits(const void *, int); int sim_self(void); long sim_choose(int); long sim_rsp(void);
#ifndef SNIP_TYPES
#define SNIP_TYPES
#define LOG(id, ...) sim_log(id, (long)(__VA_ARGS__), 0)
#define LOGD(id, ...) ({ double d_ = (__VA_ARGS__); sim_log(id, d_ == 0 ? 0 : d_ == d_ ? sim_bits(&d_, 8) : 77, 1); })
#define CL(f) __attribute__((cleanup(f)))
#endif
struct S@ { long a; short b; }; struct B@ { long v[5]; double d; }; struct F@ { float x, y; }; struct C@ { char c[3]; };
static long G@;
static void ci@(int *p) { LOG(1, *p); G@ = G@ * 31 + *p; *p = -7; }
static void cl@(long *p) { LOG(2, *p); G@ ^= *p * 5; *p += 1000; }
static int cc@(signed char *p) { LOG(3, *p); G@ += *p; *p = 99; return 5; }
static void cd@(double *p) { LOGD(4, *p); G@ += 3; *p = -1.5; }
static void cv@(void *p) { LOG(5, *(int *)p); G@ = G@ * 3 + 1; *(int *)p = 77; }
static void cs@(struct S@ *p) { LOG(6, p->a * 100 + p->b); G@ -= p->a; p->a = -1; p->b = -2; }
static void cb@(struct B@ *p) { LOG(7, p->v[0] + p->v[4]); G@ ^= 85; for (int i = 0; i < 5; i++) p->v[i] = -9; p->d = 0; }
static void ca@(int (*p)[3]) { LOG(8, (*p)[0] + (*p)[2]); G@ += (*p)[1]; (*p)[1] = 4; }
static void cp@(long **p) { LOG(9, **p); **p = **p * 2 + 1; }
static void cx@(long double *p) { LOG(10, *p); G@ = G@ * 7 + (long)*p; *p = 1; }
static void cf@(struct F@ *p) { LOGD(11, p->x); p->x = 8; p->y = 9; }
'''
CLEAN = [('int', 'ci@', 'i'), ('long', 'cl@', 'i'), ('signed char', 'cc@', 'i'), ('double', 'cd@', 'd'), ('int', 'cv@', 'i'), ('struct S@', 'cs@', 'S'), ('struct B@', 'cb@', 'B'), ('int', 'ca@', 'a'), ('long *', 'cp@', 'p'), ('long double', 'cx@', 'd'), ('struct F@', 'cf@', 'F')]
RET = ['int', 'long', 'signed char', 'double', 'float', 'long double', 'struct S@', 'struct B@', 'struct F@', 'struct C@', '_Bool', 'unsigned short', 'void']
def alt(p, r): return f'\x01{p}\x02{r}\x03'
class Gen:
    def __init__(self, r, defer, labelled, longjmp=False): self.r = r; self.defer = defer; self.labelled = labelled; self.fns = []; self.n = 0; self.lj = longjmp
    def uid(self): self.n += 1; return self.n
    # expressions without side effects
    def ie(self, d=2):
        r = self.r; c = r.randrange(9)
        if d <= 0 or c < 3: return r.choice([v for v, k in self.vars if k == 'i'] + ['G@']) if r.random() < .75 else str(r.randrange(-3, 60))
        if c < 7: return f'({self.ie(d - 1)} {r.choice("+-*&|^")} {self.ie(d - 1)})'
        if c == 7: return f'({self.ie(d - 1)} < {self.ie(d - 1)} ? {self.ie(d - 1)} : {self.ie(d - 1)})'
        v = [v for v, k in self.vars if k == 'd']; return f'cl2i@({r.choice(v)})' if v else self.ie(d - 1)
    def de(self): v = [v for v, k in self.vars if k == 'd']; return self.r.choice(v) if v and self.r.random() < .6 else f'(({self.ie(1)} & 1023) * 0.5)'
    def val(self, t, d=2): # an expression of type t
        r = self.r
        if t.startswith('struct'):
            v = [v for v, k in self.vars if k == t]
            if v and r.random() < .7: return r.choice(v)
            return {'struct S@': f'(struct S@){{ {self.ie(d)}, {r.randrange(99)} }}', 'struct B@': f'(struct B@){{ {{ {self.ie(d)}, 1, 2, 3, {self.ie(1)} }}, {self.de()} }}', 'struct F@': f'(struct F@){{ {r.randrange(9)}, {r.randrange(9)} }}', 'struct C@': f'(struct C@){{ {{ {r.randrange(9)}, 2, {self.ie(1)} & 63 }} }}'}[t]
        return self.de() if t in ('double', 'float', 'long double') else f'({self.ie(d)} & 127)' if t == 'signed char' else self.ie(d)
    def cond(self):
        r = self.r; k = r.choice([2, 2, 3, 4]); c = r.randrange(8)
        if c < 4: return f'sim_choose({k}) {r.choice(["== 0", "", "!= 1"])}'.strip()
        if c == 4: return f'{self.ie(2)} & 1'
        if c == 5: return f'sim_choose(2) && {self.ie(1)} > 3'
        if c == 6: return f'sim_choose(3) == 1 || !sim_choose(2)'
        return f'!sim_choose({k})'
    def cleanup(self, one=False, init=None, nop=False):
        r = self.r; t, f, k = r.choice(CLEAN if not one else [c for c in CLEAN if c[2] == 'i']); out = []
        if nop and k == 'p': return self.cleanup(one, init, nop)
        n = 1 if one or k not in 'id' else r.choice([1, 1, 2]); ds = []
        for _ in range(n):
            u = self.uid(); a = f'CL({f})'
            iv = init or (self.val(t) if k not in 'ap' else None)
            if k == 'a': ds.append(f'x{u}[3] {a} = {{ {self.ie(1)}, {r.randrange(9)}, 2 }}'); self.vars.append((f'x{u}[{r.randrange(3)}]', 'i'))
            elif k == 'p': e = self.ie(1); self.vars.append((f'o{u}', 'i')); self.blk['decl'] = True; return f'long o{u} = {e}; long *x{u} {a} = &o{u};'
            else: ds.append(f'x{u} {a} = {iv}'); self.vars.append((f'x{u}', k if k in 'id' else t))
            if k == 'S': self.vars.append((f'x{u}.a', 'i'))
            if k == 'B': self.vars.append((f'x{u}.v[2]', 'i'))
        self.blk['decl'] = True
        return f'{t} ' + ', '.join(ds)
    def vla(self):
        r = self.r; u = self.uid(); n = r.randrange(1, 9); self.hot += 1; self.blk['vla'] = True
        t = r.choice(['char', 'int', 'long', 'short', 'struct S@']); c = r.randrange(6)
        if t == 'struct S@': e = self.ie(1); self.vars.append((f'a{u}[{n - 1}].a', 'i')); return f'int n{u} = {n} + ({e} & 15); struct S@ a{u}[n{u}]; for (int i = 0; i < n{u}; i++) a{u}[i] = (struct S@){{ i * 5, i }};'
        if c == 0: e = self.ie(1); self.vars.append((f'a{u}[{n - 1}][1]', 'i')); return f'int n{u} = {n} + ({e} & 15); {t} a{u}[n{u}][2]; for (int i = 0; i < n{u}; i++) a{u}[i][0] = a{u}[i][1] = i * {r.randrange(1, 9)};'
        al = '_Alignas(64) ' if c == 1 else ''
        x = f'int n{u} = {n} + ({self.ie(1)} & 31); {al}{t} a{u}[n{u}]; for (int i = 0; i < n{u}; i++) a{u}[i] = i * {r.randrange(1, 9)};'
        if al: x += f' LOG(%I, (long)a{u} & 63);'
        self.vars.append((f'a{u}[{n - 1}]', 'i')); return x
    def stmt(self, d, out):
        r = self.r; c = r.randrange(34); b = self.blk
        nodecl = b['nodecl']
        if c < 5 and not nodecl:
            x = self.cleanup(); out.append(x if x.endswith(';') else x + ';'); return
        if c < 7 and not nodecl: out.append(self.vla()); return
        if c < 10 and not nodecl and self.defer and not self.indefer > 1:
            u = self.uid(); sv = self.save(); self.loops = []; self.targets = []; self.canret = False; self.indefer += 1; self.blk = dict(nodecl=False, decl=False, vla=False, labels=[])
            if r.random() < .3: body = [self.plain()]; o, cl = alt(f'{r.choice(["defer", "_Defer"])}', f'auto void d{u}(int *); void d{u}(int *z_) {{'), alt('', f'}} int u{u} CL(d{u}) = 0;')
            else: body = self.block(d - 1, 3); o, cl = alt('defer {', f'auto void d{u}(int *); void d{u}(int *z_) {{'), alt('}', f'}} int u{u} CL(d{u}) = 0;')
            self.load(sv); b['decl'] = True; out.append([o, body, cl]); return
        if c == 10 and not nodecl: u = self.uid(); t = r.choice(['long', 'int', 'double']); out.append(f'{t} v{u} = {self.val(t)};'); self.vars.append((f'v{u}', 'd' if t == 'double' else 'i')); return
        if c < 14: out.append(self.plain()); return
        if c == 14: self.exit(out, True); return
        if c < 18: self.exit(out, False); return
        if c == 18 and not self.hot and not self.noheight and b.get('h'): out.append(f'LOG(%I, sim_rsp() - {b["h"]});'); return
        if c == 19 and not self.indefer: # a label to come back to
            u = self.uid(); self.counters.append(u); out.append(f'M{u}:;'); b['labels'].append((f'M{u}', u)); return
        if c == 20 and self.fns: out.append(self.callfn(r.choice(self.fns))); return
        if d <= 0: out.append(self.plain()); return
        if c < 24: return self.iff(d, out)
        if c < 28: return self.loop(d, out)
        if c == 28: return self.switch(d, out)
        if c < 31:
            u = self.uid(); sv = self.save(); body = self.block(d - 1, 4, fresh=True); e = r.choice(['i', 'i', 'S', 'd', 'call'])
            t = {'S': 'struct S@', 'd': 'double'}.get(e, 'long'); v = self.val('struct S@') if e == 'S' else self.de() if e == 'd' else self.ie(2)
            body.append(alt(f'{v};', f'rv{u} = {v};')); o = alt('({', f'({{ {t} rv{u}; {{'); z = alt('})', f'}} rv{u}; }})') # gcc loses values of statement expressions with VLAs
            if e == 'S': x = [f'{{ struct S@ q{u} = {o}', body, f'{z}; LOG(%I, q{u}.a * 100 + q{u}.b); }}']
            elif e == 'd': x = [f'{{ double q{u} = {o}', body, f'{z}; LOGD(%I, q{u}); }}']
            elif e == 'call': x = [f'LOG(%I, mix@({r.randrange(9)}, {o}', body, f'{z}, {r.randrange(9)}));']
            else: x = [f'{{ long q{u} = {o}', body, f'{z}; G@ ^= q{u}; }}']
            self.load(sv, keep=True); out.append(x); return
        sv = self.save(); body = self.block(d - 1, 5, fresh=True); self.load(sv, keep=True); out.append(['{', body, '}'])
    def callfn(self, f):
        a = ', '.join(str(self.r.randrange(50)) for _ in range(2)); x = f'{f["name"]}({a})'; t = f['ret']; u = self.uid()
        if t == 'void': return x + ';'
        if t == 'struct S@': return f'{{ struct S@ q{u} = {x}; LOG(%I, q{u}.a * 100 + q{u}.b); }}'
        if t == 'struct B@': return f'{{ struct B@ q{u} = {x}; LOG(%I, q{u}.v[0] * 3 + q{u}.v[4]); LOGD(%I, q{u}.d); }}'
        if t == 'struct F@': return f'{{ struct F@ q{u} = {x}; LOGD(%I, q{u}.x * 16 + q{u}.y); }}'
        if t == 'struct C@': return f'{{ struct C@ q{u} = {x}; LOG(%I, q{u}.c[0] * 100 + q{u}.c[2]); }}'
        return f'LOGD(%I, {x});' if t in ('double', 'float', 'long double') else f'LOG(%I, {x});'
    def plain(self):
        r = self.r; c = r.randrange(5)
        w = [v for v, k in self.vars if k == 'i' and not v.startswith('c')]
        if c < 2: return f'LOG(%I, {self.ie(2)});'
        if c == 2 and w: return f'{r.choice(w)} {r.choice(["=", "+=", "^="])} {self.ie(2)} & 63;'
        if c == 3: return f'G@ = G@ * 3 + {r.randrange(50)};'
        return f'LOG(%I, {r.randrange(99)});'
    def guard(self, s, body=None):
        return f'if ({self.cond()}) {s}'
    def ways(self):
        """the ways out of here: program text, reference text"""
        r = self.r; w = []
        for i, l in enumerate(reversed(self.loops)):
            near = i == 0; nearloop = l['k'] == 'loop' and all(x['k'] == 'switch' for x in list(reversed(self.loops))[:i])
            def j(kind):
                plain = near if kind == 'break' else nearloop
                if plain and not (l['special'] and kind == 'continue') : return kind + ';', kind + ';'
                if plain and r.random() < .6 : l['used'] = True; return kind + ';', f'goto {"bk" if kind == "break" else "ct"}{l["u"]};'
                if self.labelled: l['used'] = l['lab'] = True; return f'{kind} L{l["u"]};', f'goto {"bk" if kind == "break" else "ct"}{l["u"]};'
            w += [j('break')]
            if l['k'] == 'loop': w.append(j('continue'))
        w = [x for x in w if x]
        for n, u, blk in self.targets:
            if u is None: w.append(('E', n, blk))
            else: w.append((f'if (k{u}-- > 0) goto {n};',) * 2)
        for n, u in self.blk['labels']: w.append((f'if (k{u}-- > 0) goto {n};',) * 2)
        if self.canret: w += ['ret'] * 2
        return w
    def exit(self, out, final):
        r = self.r; w = self.ways()
        if not w: out.append(self.plain()); return
        x = r.choice(w)
        if x == 'ret': s = 'return;' if self.ret == 'void' else f'return {self.val(self.ret)};'
        elif x[0] == 'E': s = f'goto {x[1]};'; x[2]['nodecl'] = x[2]['used'] = True
        else: s = alt(*x) if x[0] != x[1] else x[0]
        if r.random() < .35 and not s.startswith('if'): # leave through a scope of its own
            sv = self.save(); self.blk = dict(nodecl=False, decl=False, vla=False, labels=[]); o = []
            if r.random() < .5: y = self.cleanup(); o.append(y if y.endswith(';') else y + ';')
            else: o.append(self.vla())
            self.load(sv, keep=True); o.append(s); out.append([f'if ({self.cond()}) {{', o, '}'])
        else: out.append(f'if ({self.cond()}) {{ {s} }}' if r.random() < .5 or s.startswith('if') else f'if ({self.cond()}) {s}')
    def save(self): return (self.vars[:], self.loops[:], self.targets[:], self.canret, self.indefer, self.blk, self.hot)
    def load(self, s, keep=False): self.vars, self.loops, self.targets, self.canret, self.indefer, self.blk, self.hot = s[0][:], s[1][:], s[2][:], *s[3:]
    def block(self, d, n, fresh=False):
        """statements of a new block (the caller saves and restores)"""
        r = self.r; up = self.blk; self.targets = self.targets + [(a, b, up) for a, b in up['labels']]; b = self.blk = dict(nodecl=False, decl=False, vla=False, labels=[], used=False); out = []; u = self.uid(); self.hot = 0
        if r.random() < .4 and not self.noheight: b['h'] = f'h{u}'; out.append(f'long h{u} = sim_rsp();')
        if not self.indefer: self.targets = self.targets + [(f'E{u}', None, b)]
        for _ in range(r.randrange(1, n + 1)): self.stmt(d, out)
        if b['used']: out.append(f'E{u}:;')
        if b.get('h') and not self.hot: out.append(f'LOG(%I, sim_rsp() - h{u});')
        return out
    def iff(self, d, out):
        r = self.r; sv = self.save(); c = r.randrange(4)
        if c == 0 and self.labelled: self.blk = dict(nodecl=False, decl=False, vla=False, labels=self.blk['labels']); x = self.cleanup(True, 'sim_choose(3)'); v = self.vars[-1][0]; p, e = alt(f'if ({x}) {{', f'{{ {x}; if ({v}) {{'), alt('}', '} }')
        elif c == 1 and self.labelled: self.blk = dict(nodecl=False, decl=False, vla=False, labels=self.blk['labels']); x = self.cleanup(nop=True); k = self.cond(); p, e = alt(f'if ({x}; {k}) {{', f'{{ {x}; if ({k}) {{'), alt('}', '} }')
        else: p, e = f'if ({self.cond()}) {{', '}'
        s2 = self.save(); a = self.block(d - 1, 3)
        if r.random() < .4: self.load(s2); z = self.block(d - 1, 3); out.append([p, a, '} else {', z, e])
        elif isinstance(p, str) and '\x01' not in p and len(a) == 1 and self.single(a[0]): out.append([p[:-1], a, ''])
        else: out.append([p, a, e])
        self.load(sv)
    def loop(self, d, out):
        r = self.r; u = self.uid(); n = r.randrange(1, 4); c = r.randrange(10); l = dict(k='loop', u=u, special=False, used=False, lab=False); pre = ''; first = []
        wrap = self.blk['nodecl'] or r.random() < .3
        sv = self.save()
        self.blk = dict(nodecl=False, decl=False, vla=False, labels=self.blk['labels'])
        x = None; init = f'int i{u} CL(ci@) = 0' if c == 1 else f'int i{u} = 0'; more = ' && sim_choose(3)' if r.random() < .5 else ''
        if c == 2 and self.labelled: # declaration in the condition
            l['special'] = True; t, f, k = r.choice([q for q in CLEAN if q[2] == 'i']); x = f'{t} c{u} CL({f}) = {n} - i{u}'
            o = alt(f'for ({init}; {x}; i{u}++) {{', f'{{ {init}; for (;;) {{ {x}; if (!c{u}) break; {{'); oc = alt('}', f'}} ct{u}:; i{u}++; }} bk{u}:; }}')
        elif c == 3 and self.labelled:
            l['special'] = True; t, f, k = r.choice([q for q in CLEAN if q[2] == 'i']); x = f'{t} c{u} CL({f}) = i{u}-- > 0'
            pre = f'int i{u} = {n};'; o = alt(f'while ({x}) {{', f'for (;;) {{ {x}; if (!c{u}) break; {{'); oc = alt('}', f'}} ct{u}:; }} bk{u}:;')
        elif c == 4: pre = f'int i{u} = {n};'; o, oc = f'do {{', f'}} while (i{u}-- > 0{more});'
        elif c == 5: pre = f'int i{u} = {n};'; o, oc = f'while (i{u}-- > 0{more}) {{', '}'
        elif c == 6: o, oc = f'for (long i{u} = 0, b{u}[i{u} + {n}]; i{u} < {n}; b{u}[i{u}] = i{u}, i{u}++) {{', '}'
        elif c == 7: # left by break only
            pre = f'int i{u} = {n};'; o, oc = r.choice([('for (;;) {', '}'), ('while (1) {', '}'), ('do {', '} while (1);'), (f'for (; 1; G@++) {{', '}'), (f'for (;;) {{', '}')]); first = [f'if (i{u}-- <= 0{" || !sim_choose(3)" if r.random() < .3 else ""}) break;']
        elif c == 8: pre = f'int i{u} = {n};'; o, oc = r.choice([(f'for (; i{u}-- > 0{more};) {{', '}'), (f'for (; ; i{u}--) {{', '}')]); first = [f'if (i{u} <= 0) break;'] if '; ;' in o else []
        else: o, oc = f'for ({init}; i{u} < {n}; i{u}++) {{', '}'
        if x: self.vars.append((f'c{u}', 'i'))
        self.loops = self.loops + [l]
        if first and r.random() < .3: body = []
        else: body = self.block(d - 1, 4)
        body = first + body; self.load(sv)
        if l['used'] or l['special']:
            lab = f'L{u}: ' if l['lab'] else ''
            if not l['special']: # labels for the reference
                oc = alt(oc, f'}} ct{u}:; {oc} bk{u}:;')
                o = alt(lab + o, o + ' {')
            else: o = '\x01' + lab + o[1:]
        elif len(body) == 1 and self.single(body[0]) and not o.startswith('do'): o = o[:-1]; oc = oc[1:] # a body without braces
        if wrap and pre: out.append([f'{{ {pre} ' + o, body, oc + ' }'])
        else:
            if pre: out.append(pre); self.blk['decl'] = True
            out.append([o, body, oc])
    def single(self, s, noif=False):
        """is this text one statement (not a declaration)?"""
        k = s[0] if isinstance(s, list) else s
        if isinstance(s, list) and (len(s) != 3 or not s[2] or not isinstance(s[0], str)): return False
        k = k.lstrip()
        return self.r.random() < .8 and '\x01' not in k and k.startswith(('for ', 'while ', 'do ', 'switch ') + (() if noif else ('if ',))) and not k.startswith('for (long')
    def switch(self, d, out):
        r = self.r; u = self.uid(); sv = self.save(); l = dict(k='switch', u=u, special=False, used=False, lab=False); node = []
        self.blk = dict(nodecl=False, decl=False, vla=False, labels=self.blk['labels']); k = r.randrange(3)
        if k == 0 and self.labelled: x = self.cleanup(True, 'sim_choose(4)'); v = self.vars[-1][0]; p, e = f'switch ({x}) {{', '}'; pr, er = f'{{ {x}; switch ({v}) {{', '} }'
        elif k == 1 and self.labelled: x = self.cleanup(nop=True); p, e = f'switch ({x}; sim_choose(4)) {{', '}'; pr, er = f'{{ {x}; switch (sim_choose(4)) {{', '} }'
        else: p = pr = 'switch (sim_choose(4)) {'; e = er = '}'
        how = r.randrange(7) if 'sim_choose(4)' in p and not (k == 0 and self.labelled) else 0
        ce, val = [('sim_choose(4)', lambda q: str(q)), ('sim_choose(4) - 2', lambda q: str(q - 2)), ('(sim_choose(4) - 2L) * 0x100000000', lambda q: f'{q - 2} * 0x100000000'), ('(unsigned char)(sim_choose(4) + 254)', lambda q: str((q + 254) & 255)), ('(signed char)(sim_choose(4) * 64)', lambda q: str([0, 64, -128, -64][q])),
                   ('(unsigned)(sim_choose(4) - 2)', lambda q: ['4294967294u', '4294967295', '0', '1'][q]), ('(sim_choose(4) - 2) * 1000000000L', lambda q: f'{(q - 2) * 1000000000}L')][how]
        if how: p = p.replace('sim_choose(4)', ce); pr = pr.replace('sim_choose(4)', ce)
        self.loops = self.loops + [l]; s2 = self.save(); cs = r.sample(range(4), r.randrange(2, 4)); segs = []
        for q in cs:
            self.load(s2); segs.append((f'case {val(q)}: {{', self.block(d - 1, 2), '}' + r.choice([' break;', ' break;', ''])))
        if how in (1, 2, 6) and cs[-1] - 1 not in cs and cs[-1] > 0 and r.random() < .6: segs[-1] = (segs[-1][0].replace(f'case {val(cs[-1])}:', f'case {val(cs[-1] - 1)} ... {val(cs[-1])}:'),) + segs[-1][1:]
        if r.random() < .5: self.load(s2); segs.insert(r.choice([len(segs), len(segs), r.randrange(len(segs) + 1)]), ('default: {', self.block(d - 1, 2), '}' + r.choice(['', ' break;'])))
        node = [None]
        for i, (a, b, c) in enumerate(segs): node[-1] = (node[-1] or '') + ' ' + a; node += [b, c]
        p0 = node[0]; L = f'L{u}: ' if l['lab'] else ''
        node[0] = alt(L + p, pr) + p0; node[-1] += alt(' ' + e, ' ' + (f'}} bk{u}:;' + er[1:] if l['used'] else er)); self.load(sv); out.append(node)
    def fn(self, nst=6, depth=3):
        r = self.r; k = len(self.fns); self.vars = [('p0', 'i'), ('p1', 'i')]; self.loops = []; self.targets = []; self.canret = True; self.indefer = 0; self.counters = []; self.hot = 0; self.noheight = False
        self.ret = r.choice(RET); self.blk = dict(nodecl=False, decl=False, vla=False, labels=[])
        body = self.block(depth, nst); tail = 'return;' if self.ret == 'void' else f'return {self.val_tail()};'
        body = [f'int {", ".join(f"k{u} = {r.randrange(1, 3)}" for u in self.counters)};'] * bool(self.counters) + body + [tail]
        f = {'name': f'f{k}@', 'ret': self.ret, 'body': body}; self.fns.append(f); return f
    def val_tail(self): self.vars = [v for v in self.vars]; return self.val(self.ret)
def dialect(s, ref): return re.sub('\x01(.*?)\x02(.*?)\x03', lambda m: m.group(2 if ref else 1), s)
def text(body, ref, seq, ind=1):
    def num(s):
        while '%I' in s: s = s.replace('%I', str(100 + seq[0] % 700), 1); seq[0] += 1
        return dialect(s, ref)
    o = ''
    for s in body:
        if isinstance(s, str): o += '  ' * ind + num(s) + '\n'
        else:
            for x in s: o += '  ' * ind + num(x) + '\n' if isinstance(x, str) else text(x, ref, seq, ind + 1)
    return o
def cuts(body):
    for i in range(len(body)): yield body[:i] + body[i + 1:]
    for i, s in enumerate(body):
        if isinstance(s, str): continue
        if len(s) == 3: yield body[:i] + s[1] + body[i + 1:]
        for j, x in enumerate(s):
            if isinstance(x, list):
                for b in cuts(x): yield body[:i] + [s[:j] + [b] + s[j + 1:]] + body[i + 1:]
HELP = 'static long mix@(long a, long b, long c) { return a * 7 + b - c; } static int cl2i@(double d) { return d > -30000 && d < 30000 ? (int)d : 9; }\n'
def funcs(fns, ref, seq): return ''.join(f'static {f["ret"]} {f["name"]}(long p0, int p1) {{\n{text(f["body"], ref, seq)}}}\n' for f in fns)
