"""Random C projects for simulator A: valid translation units composed of feature snippets, headers, embeds, errors."""
SN = []
def S(t): SN.append(t)
S('int add@(int a,int b){return a+b*3;}')
S('static unsigned long u@[]={1,2,3,0xffffffffffUL,[9]=7};unsigned long get@(int i){return u@[i];}')
S('struct p@{int x;char c;double d;struct{short s,t;}in;};struct p@ mk@(int v){struct p@ r={.x=v,.c=\'q\',.in={1,2}};r.d=v/2.0;return r;}')
S('union w@{long l;double d;char b[8];};long tw@(double d){union w@ u;u.d=d;return u.l;}')
S('struct bf@{unsigned a:3,b:5;int c:11;unsigned long d:40;};int bf@(struct bf@*p,int v){p->a=v;p->c+=v;p->d^=v;return p->b+p->c;}')
S('int sw@(int k){switch(k){case 1:return 10;case 2 ... 6:k+=3;break;case 100:case 200:k=7;default:k--;}return k;}')
S('int lp@(int n){int s=0;for(int i=0;i<n;i++){if(i%3==0)continue;if(s>1000)break;s+=i;while(s&1)s>>=1;}do s++;while(s<5);return s;}')
S('void *cg@(int i){static void*t[]={&&a,&&b,&&c};goto *t[i];a:return "a";b:return "bb";c:return 0;}')
S('int vla@(int n){int a[n][n+1];for(int i=0;i<n;i++)for(int j=0;j<=n;j++)a[i][j]=i*j;return a[n-1][n]+sizeof a;}')
S('typeof(1+2L) ty@=5;typeof(ty@)*pty@=&ty@;int gen@(void){return _Generic(ty@,int:1,long:2,default:3)+_Generic("x",char*:10,default:20);}')
S('static int rec@(int n){return n<2?n:rec@(n-1)+rec@(n-2);}int callrec@(void){return rec@(12);}')
S('double fl@(float f,double d,long double l){return f*2+d/3-(double)(l*l)+(int)d+(unsigned char)f;}')
S('long double ld@(long double a,long b){return a+b-(a<b?1.5L:-2.25L);}')
S('#include <stdarg.h>\nint va@(int n,...){va_list ap;va_start(ap,n);int s=0;while(n--)s+=va_arg(ap,int)+(int)va_arg(ap,double);va_end(ap);return s;}int cva@(void){return va@(2,1,2.0,3,4.5);}')
S('int sl@(void){static int cnt=3;static struct{int a;char*s;}st={4,"str@"};return cnt+++st.a+st.s[1];}')
S('char *str@="abc" "def\\n\\t\\x41\\101" ;char sa@[]="xyz@";int wc@=L\'q\';unsigned short u16@[]=u"hi\\u00e9";unsigned u32@[]=U"\\U0001F600";char u8@[]=u8"\\u00df";')
S('enum e@{A@,B@=5,C@,D@=-3};enum e@ ev@=C@;int ec@(enum e@ x){return x==B@?A@:D@;}')
S('typedef int (*fp@)(int,char);static int f1@(int a,char b){return a-b;}fp@ fp@tab[3]={f1@,0,f1@};int cf@(int i){return fp@tab[i]?fp@tab[i](i,2):-1;}')
S('int cl@(void){int *p=(int[]){1,2,3,4};struct q@{int a,b;}s=(struct q@){.b=p[2]};return s.a+s.b+(&(struct q@){5,6})->b;}')
S('#define STR@(x) #x\n#define XSTR@(x) STR@(x)\n#define CAT@(a,b) a##b\n#define VA@(f,...) f(__VA_ARGS__ __VA_OPT__(,) 3)\nchar *ms@=XSTR@(CAT@(ab,cd) + __LINE__);static int vo@(int a,int b){return a*b;}int mv@(void){return VA@(vo@,2)+CAT@(1,2);}')
S('#if defined(__x86_64__) && (1 ? 2 : 0) == 2 && !defined(NOPE@)\nint cond@=1;\n#elif 1/0\n#error no\n#else\nint cond@=2;\n#endif\n#ifdef NOPE@\nint cond2@ = }{;\n#else\nint cond2@=3;\n#endif')
S('#if __has_include(<stddef.h>) && !__has_include("no_such@.h")\n#include <stddef.h>\nsize_t off@=offsetof(struct{int a;long b;char c;},c);\n#endif')
S('_Static_assert(sizeof(long)==8,"long");int sz@=sizeof(struct{char c;long l;})+_Alignof(double);_Alignas(32) char al@[7];')
S('int at@(_Atomic int*p){(*p)++;*p+=3;return *p--;}')
S('#include <stdatomic.h>\nint ca@(atomic_int*p){int e=3;return atomic_compare_exchange_strong(p,&e,4)+atomic_exchange(p,9)+atomic_load(p);}')
S('_Thread_local int tl@=5;static _Thread_local long tz@;long tla@(void){tz@+=tl@++;return tz@;}')
S('int as@(int a){int r;__asm__("movl %1,%0\\n\\taddl $1,%0":"=r"(r):"r"(a):"cc");__asm__ volatile("":::"memory");return r;}')
S('static void cu@(int*p){*p=0;}int cln@(void){int x __attribute__((cleanup(cu@)))=4;{int y __attribute__((cleanup(cu@)))=5;if(y>4)return x+y;}return x;}')
S('int lo@(int a,int b){return (a&&b)||!a?a^b:~a|b<<2;}unsigned sh@(unsigned x,int n){return x<<n|x>>(32-n);}')
S('long cv@(signed char c,unsigned short s,unsigned u,long l){return c*s+u-(long)(int)l+(char)l+(_Bool)l;}')
S('struct ll@{struct ll@*n;int v;};int len@(struct ll@*p){int n=0;for(;p;p=p->n)n+=p->v;return n;}struct ll@ ls@[2]={{&ls@[1],1},{0,2}};')
S('int kr@(a,b)int a;char b;{return a+b;}')
S('extern int ext@;int *pe@=&ext@;int ext@=4;static int tent@;static int tent@=3;int usetent@(void){return tent@+*pe@;}')
S('inline int il@(int a){return a+1;}static inline int il2@(int a){return il@(a)*2;}int uil@(void){return il2@(3);}')
S('int arr@[3][4]={{1,2},{[2]=5},{6,7,8,9}};int sumarr@(void){int s=0;for(int i=0;i<3;i++)for(int j=0;j<4;j++)s+=arr@[i][j];return s;}')
S('struct fx@{int n;char d[];};struct fx@ fx@v={3,"abc"};int fxs@=sizeof(struct fx@);')
S('int st@(void){return ({int a=3;for(int i=0;i<4;i++)a+=i;a;})+({struct{int z;}q={8};q;}).z;}')
S('const char*fn@(void){return __func__;}int ln@=__LINE__;char*fi@=__FILE__;int ctr@=__COUNTER__;int ctr2@=__COUNTER__;')
S('struct big@{long a[20];};struct big@ bigf@(struct big@ b,int i){b.a[i]++;return b;}long ub@(void){struct big@ b={{1,2}};return bigf@(b,1).a[1];}')
S('struct mix@{float f;int i;double d;};struct mix@ mxf@(struct mix@ a,float b){a.f+=b;return a;}')
S('int lab@(int n){if(n>5)goto out;n*=2;again:n++;if(n<4)goto again;out:;return n;}')
S('_Bool bo@(double d,void*p){return d&&p;}int nb@(long l){_Bool b=l;return !b+-b;}')
S('int cmp@(unsigned a,int b,double d,float f){return (a<b)+(d>=f)*2+(a!=b)*4+(d==d)*8;}')
S('int dm@(int a,unsigned b,long c){return a/7+a%5+(int)(b/3)+(int)(c%9)-(-a>>2);}')
S('__attribute__((section(".mysec"),aligned(16),used))static int sec@=7;__attribute__((weak))int wk@(void){return 1;}')
S('struct __attribute__((packed)) pk@{char a;int b;short c;};int pko@(struct pk@*p){p->b=p->a+p->c;return sizeof*p;}')
S('#pragma pack(push,1)\nstruct pp@{char a;long b;};\n#pragma pack(pop)\nint pps@=sizeof(struct pp@);')
S('int cx@(int x){return x?:5;}int rng@(int x){return (x,x+1,x+2);}')
S('static const int tab@[]={1,4,9,16};constexpr int ce@=7;int utab@(int i){return tab@[i]+ce@;}')
S('int (*retf@(int a))[3]{static int q[3]={1,2,3};q[0]=a;return &q;}int urf@(void){return (*retf@(4))[0];}')
S('int al@2(int n){char*p=__builtin_alloca(n);p[0]=n;return p[0];}')
S('int ov@(int a){if(__builtin_expect(a>3,0))return __builtin_constant_p(3);return __builtin_types_compatible_p(int,signed);}' )
S('struct an@{union{int i;float f;};struct{char a,b;};}an@v={.f=1.5f,.b=3};int anf@(void){return an@v.i+an@v.a;}')
S('int bigsw@(int x){switch(x){case 0:return 5;case 1:return 9;case 2:return 1;case 3:return 7;case 10:return 2;case 11:return 4;case 12:return 6;}return 0;}')
S('int nul@(void){auto au@=3.5;int*p=0;return p==(void*)0?(int)au@:1;}')
S('int deep@(int a){return ((((((a+1)*2+3)*4+5)*6+7)*8+9)*10+11)*(a?((a-1)?((a-2)?3:4):5):6);}')
S('int many@(int a,int b,int c,int d,int e,int f,int g,int h,double i){return a+b*2+c*3+d*4+e*5+f*6+g*7+h*8+(int)i;}int cmany@(void){return many@(1,2,3,4,5,6,7,8,9.5);}')
S('int vol@(volatile int*p){int a=*p;*p=a+1;return *p;}')
S('[[nodiscard]] int attr@(int a [[maybe_unused]]){return 3;}[[deprecated("x")]] int dep@;')
S('char hexs@[]={0x7f,0b1010,017,1\'000%100,\'\\377\'};double hf@=0x1.8p3,ef@=1e-3;float sf@=3.f;')
S('struct d@{int a[3];struct{int x,y;}p[2];}dv@={.a[1]=4,.p[1].y=6,.p[0]={1,2}};')
S('int defr@(int n){int r=0;{defer r+=n;if(n>2)r=10;}return r;}')
S('int pc@(void){int i=0,j=i++ + ++i;j-=i--;j<<=1;j%=7;return j*i;}int ptr@(int*p,int*q){return q-p+(p+1<q)+*(p+2)+p[-1];}')
S('void emptyf@(void){;;{}}int proto@(int,...);int vp@(void*p,const char*restrict s){return p==s;}')
S('int fc@(float f){int i=f;unsigned u=f;long l=f;unsigned long ul=f;return i+u+l+ul+(int)(float)ul+(int)(double)u;}')
S('struct sr@{char c[3];}srf@(void){return(struct sr@){"ab"};}int usr@(void){return srf@().c[1];}')

# declarations in unusual places: their types and scopes live longer or shorter than the construct they stand in
S('_Static_assert(sizeof(struct sa@{int a;long b[3];})==32,"");struct sa@ sav@={1,{2,3,4}};long saf@(void){return sav@.a+sav@.b[2];}')
S('_Static_assert(sizeof(enum se@{SEA@=5,SEB@})==4,"");enum se@ sev@=SEB@;static_assert(SEA@==5);int sef@(void){return SEA@+sev@;}')
S('int szg@=sizeof(struct gs@{char c[7];short d;}[2][3]);struct gs@ gsv@={{1,2},3};int gsf@(void){return gsv@.d+sizeof gsv@.c;}')
S('int arb@[sizeof(enum ab@{ABX@=2,ABY@=9})+ABY@];int abf@(void){return ABY@+(int)sizeof arb@;}')
S('struct bw@{int a:sizeof(struct bwi@{char q[3];});struct bwi@ in;};int bwf@(struct bw@*p){return p->a+p->in.q[2];}')
S('typeof(struct ty@{int k,l;}) tyv@={3,4};struct ty@*tyf@(void){return &tyv@;}typeof(tyv@.l) tyl@=6;')
S('int be@(void){extern struct bes@{int a;char b[5];} bev@;extern int bea@[7];struct bes@{int z;};return sizeof bea@;}int bea@[7]={1};')
S('int bp@(int q){int inner@(struct bps@{int a;}*,int[]);struct bps@{int a;};return q+sizeof(struct bps@);}int bpa@(void){struct z{int y[4];}v={{1}};return v.y[0];}')
S('int sl2@(int i){static struct{int a;char*s;struct{short q[3];}in[2];}st[2]={{1,"x@",{{{1,2,3}}}},{5}};typedef struct{long v;}T;static T t={9};static T*p=&t;return st[i].in[1].q[2]+p->v;}')
S('int sl3@(int i){typedef int V[3];static V v[2]={{1,2,3},{4}};{static V v={7};i+=v[0];}for(static int k=3;i<k;)i++;return v[1][0]+i;}')
S('int en2@(int i){enum{LA@=3,LB@};enum lt@{LC@=LB@*2};{enum{LA@=50};i+=LA@;}switch(i){case LA@:return 1;case LC@:return 2;}return LC@;}int en3@(void){enum lt@{Q=1};return Q;}')
S('struct clt@*clp@=&(struct clt@{int a;struct clt@*n;}){4,0};int clf@(void){return clp@->a;}int*clq@=(int[]){1,2,3};char*clr@=(char[]){"abc"};')
S('int gc@(void){return _Generic((struct gq@{int a;}*)0,struct gq@*:1,default:2)+sizeof(struct gq@);}')
S('int cst@(int n){struct ct@{int a[4];};int(*p)[n]=0;typedef int VT[n];VT v;typeof(v)*q=&v;return sizeof(struct ct@)+sizeof(VT)+sizeof *p+(q==&v);}')
S('int fnp@(int(*f)(struct{int a;}*),int n,int a[n][n+1]){return a[1][0]+n;}int fnq@(int n,int a[static n],int b[const]){return a[0]+b[0];}')
S('typedef struct tn@ tn@;struct tn@{tn@*l,*r;int(*cmp)(tn@*,tn@*);};int tnc@(tn@*a,tn@*b){return a->l==b->r;}tn@ tnv@={.cmp=tnc@};')
S('struct ic@;int icf@(struct ic@*p);struct ic@{int a;struct ic2@{int b;}*q;};struct ic2@ icv@={5};int icf@(struct ic@*p){return p->a+p->q->b;}')
S('extern int inc@[];int inc@s(void){return inc@[1];}int inc@[3]={1,2};int inc@z=sizeof inc@;int unc@[];int unc@u(void){return unc@[0];}')
S('union{struct{int a,b;};long l;}anu@={{1,2}};int anuf@(void){return anu@.b;}struct{enum{AE@=4}e;union{int x;};}aev@={AE@,{3}};int aef@(void){return aev@.x+AE@;}')
S('int seg@(void){return ({struct sg@{int a;}v={3};enum{SG=4};static int k=SG;v.a+k;})+({typedef char T[5];sizeof(T);});}')
S('__asm__(".globl tas@\\ntas@:\\n\\tret");void tas@(void);__asm__("# comment @ " "joined");int uas@(void){tas@();return 1;}')
S('int rn@(int)__asm__("renamed@");int rn@v=3;int rn@(int a){return a+rn@v;}int rn@u(void){return rn@(2);}')
S('[[gnu::aligned(32)]] static char ga@[3];struct [[gnu::packed]] gp@{char a;long b;};int gpf@(void){return sizeof(struct gp@)+_Alignof(ga@);}__attribute__((constructor)) static void ctor@(void){ga@[0]=1;}__attribute__((visibility("hidden"))) int vh@=1;int al@s=2;extern int al@t __attribute__((alias("al@s")));')
S('int fnl@(void){const char*a=__func__;{struct{char n[sizeof __func__];}q;a+=sizeof q;}return a[-2];}int fnm@(void){return sizeof(__FUNCTION__);}')
S('int kr2@(s,f,p)struct krs@{int a;}*s;float f;int(*p)(int);{return s->a+f+p(2);}')
S('auto aut@=sizeof(struct aus@{int x[3];});constexpr struct cs@{int a,b;}csv@={1,2};int csf@(void){static_assert(csv@.b==2);constexpr int z=5;int arr[z]={1};return arr[0]+csv@.a;}')
S('int lbl@(int i){struct{void*p[2];}t={{&&x,&&y}};static void*s[]={&&y,&&x};goto *s[i];x:return 1;y:return t.p[0]==s[1];}')

# types completed after a function used a (qualified) incomplete form of them
S('struct fw@;typedef const struct fw@ cfw@;int fwq@(const struct fw@*p,volatile struct fw@*q){const struct fw@*a=p;volatile struct fw@**b=&q;struct fw@*const c=0;return a&&*b&&!c;}struct fw@{int a;long b[2];};int fws@=sizeof(cfw@);long fwr@(const struct fw@*p,cfw@*q,volatile struct fw@*v){return p->b[1]+q->a+v->b[0]+sizeof*q;}')
S('struct fx2@;union fu@;struct fx2@*fxg@;int fxq@(void){extern const struct fx2@ fxv@;const volatile union fu@*u=0;{struct fx2@{char q[3];};const struct fx2@*sh=0;const struct fx2@ loc={{1}};if(sh)return sizeof*sh+loc.q[0];}return &fxv@==fxg@||u;}union fu@{int i;short h[3];};struct fx2@{union fu@ u;const union fu@*p;};const struct fx2@ fxv@={{7},0};int fxr@(const volatile union fu@*u){return u->h[1]+fxv@.u.i+sizeof(struct fx2@);}')
S('extern const int ica@[];int icb@(void){extern const int ica@[];const int(*p)[]=&ica@;typeof(ica@)*q=p;return (*q)[1];}const int ica@[4]={1,2,3};int icc@=sizeof ica@;const int icd@[]={4,5,6,7,8};int ice@(void){typeof(icd@) l={9};return l[0]+sizeof l;}int ich@=sizeof(icd@);')
S('typedef struct op@ op@;static int opf@(op@*const*l,const op@*const p){const op@*volatile t=p;return l!=0&&t==*l;}struct op@{op@ const*next;int(*const f)(op@*const*,const op@*const);};static op@ opv@={&opv@,opf@};int opu@(void){op@*const a[2]={&opv@};return opv@.f(a,opv@.next);}')
S('enum fe@ fen@(void);enum fe@{FEA@=3,FEB@=-1};enum fe@ fen@(void){const enum fe@ k=FEB@;return k;}void vfn@(struct vs@*p,const struct vs@*q);struct vs@{int a;};int(*fpt@(const struct vs@*x))(const struct vs@*);static int fpi@(const struct vs@*x){return x->a;}int(*fpt@(const struct vs@*x))(const struct vs@*){return x->a?fpi@:0;}')
S('#define LONG@ "abc" "\\x41" L@\n#define L@ "tail@" __FILE__\nstatic const char*const lg@[]={LONG@,&LONG@[2],(LONG@)+1};static int*const lh@[]={(int[]){1,2},(int[1]){5}};char*lf@(int i){static const char*const t[]={LONG@ "x",__func__};static char w[]=LONG@;return i?(char*)t[i]:w;}')
S('static int rf1@(int);static inline int rf2@(int a){return rf1@(a)+1;}static int(*const rt@[])(int)={rf2@,rf1@};static int rf1@(int a){static int(*const in[])(int)={rf2@};return a>0?in[0](a-2):a;}int rf3@(int i){return rt@[i&1](i);}__attribute__((alias("rf3@")))int rf4@(int);')
S('int df2@(int n){int r=n;defer{r++;if(r>5){int k=r;r=k-1;}}for(int i=0;i<n;i++){defer{if(i==2)r+=i;}if(i==3)break;defer r*=2;if(i==1)continue;r+=i;}{int v[n+1];defer v[n]=r;v[0]=n;if(v[0]>4)goto o;r+=v[0];}o:return r;}')
S('int ag@(int a){__asm__ goto(""::"r"(a):"cc":l1,l2);return 1;l1:return 2;l2:{__asm__ goto(""::::l3);}l3:return 3;}int ax@(int*p,long v){long o;__asm__("":"=&r"(o),[mm]"+m"(*p):"0"(v),[imm]"i"(5):"memory");register int q __asm__("r12")=4;__asm__("":"+r"(q));return o+q;}')

MACRO_HDR = ['#define HM@ (@+1)\n', '#define HF@(x) ((x)*@+HM@)\n#define HM@ 4\n', 'struct hs@{int a,b[@+1];};\n', 'typedef long ht@;\nextern ht@ hv@;\n', 'static inline int hi@(int x){return x+@;}\n', 'enum{HE@=@};\n', '#undef QX\n#define QX @\n']

ERRS = [ # each is rejected by the compiler; chosen from every stage
 'int er@ = ;', 'int er@(void){return undeclared@;}', 'int er@(void){return 1', '#error deliberate@\n', '#include "nosuch@.h"\n', 'int er@(void){goto nowhere@;}',
 'int er@(int x){switch(x){case x:return 1;}return 0;}', '"unterminated@\n;', "int er@='';", 'int er@(void){break;}', '_Static_assert(0,"no@");', '#if 1\nint er@;\n', '#define BAD@(x) #y\nint er@=BAD@(1);\n',
 'int er@(void){int a;a.b=3;return a;}', 'int er@(void){5=6;return 0;}', 'int er@(void){__asm__("%0"::"Z"(1));return 0;}', 'int er@(void){__asm__("mov %3,%0"::"r"(1));return 0;}', 'int er@(void){__asm__("":"=r"(*(struct{int a[9];}*)0));return 0;}',
 '#embed "nosuch@.bin"\n', 'int er@ = 1 ? : ;', 'void er@(void){int x=({});}', 'int er@(void){return sizeof(struct nope@);}', '#elif\n', 'int er@=0x;', 'int er@(void){return *3;}', 'typedef int er@; er@ er@(int){return er@;', 'int er@(int a,int a){return 0;}}',
]

def unit(r, n, uid0=0, need=()):
    """n snippets, unique names from uid0 on"""
    parts = []
    for k in range(n):
        t = SN[r.randrange(len(SN))]
        parts.append(t.replace('@', str(uid0 + k)))
    return parts

def project(r, nsrc=1, size=6, headers=True, sysinc=True, embed=False, err_in=None, timemac=False, guard_mix=True, dirs=('inc', 'inc/sub')):
    """-> (files{path:text}, srcs[list], uses{src:set(paths)}) under /w"""
    files = {}; hs = []
    nh = r.randrange(0, 5) if headers else 0
    for i in range(nh):
        d = r.choice(['', 'inc/', 'inc/sub/'])
        name = f'{d}h{i}.h'
        body = ''.join(r.choice(MACRO_HDR).replace('@', str(i * 10 + k)) for k in range(r.randrange(1, 4)))
        for hp, hn in hs:
            if r.random() < 0.4:
                body = f'#include "{hn}"\n' + body
        style = r.randrange(3)
        if style == 0: body = f'#ifndef H{i}_H\n#define H{i}_H\n{body}#endif\n'
        elif style == 1: body = '#pragma once\n' + body
        else: body = f'#ifndef H{i}_H\n#define H{i}_H 1\n{body}\n#endif // H{i}\n'
        hs.append((f'/w/{name}', f'h{i}.h')); files[f'/w/{name}'] = body
    srcs = []
    for s in range(nsrc):
        parts = unit(r, max(1, size + r.randrange(-2, 3)), s * 1000)
        for hp, hn in hs:
            if r.random() < 0.7: parts.insert(r.randrange(0, len(parts) + 1), f'\n#include {r.choice([chr(34) + hn + chr(34), "<" + hn + ">"])}\n')
        if sysinc and r.random() < 0.15: parts.insert(0, f'\n#include <{r.choice(["stddef.h", "stdint.h", "limits.h", "stdio.h", "stdlib.h", "string.h", "stdbool.h", "errno.h"])}>\n')
        if embed:
            for k in range(r.randrange(1, 3)):
                en = f'e{s}_{k}.bin'; files['/w/' + en] = ''.join(r.choice('abc\x01\x00\xffZ\n') for _ in range(r.randrange(0, 60)))
                opt = r.choice(['', ' limit(5)', ' prefix(1,) suffix(,2) if_empty(9)', ' if_empty(7)'])
                parts.append(f'\nunsigned char emb{s}_{k}[]={{\n#embed "{en}"{opt if opt else " if_empty(0)"}\n}};\n#if __has_embed("{en}")\nint he{s}_{k}=__has_embed("{en}");\n#endif\n')
        if err_in == s: parts.insert(r.randrange(0, len(parts) + 1), '\n' + r.choice(ERRS).replace('@', str(s * 7 + 3)) + '\n')
        name = f's{s}.c'; files['/w/' + name] = '\n'.join(parts) + '\n'
        srcs.append(name)
    return files, srcs
INC = ['-I.', '-Iinc', '-Iinc/sub']
BASE = ['-std=c23', '-fdefer-ts', '-fenable-universal-char']
OPTS = [[], [], ['-g'], ['-fPIC'], ['-O0'], ['-fno-pic'], ['-ffunction-sections', '-fdata-sections'], ['-fcommon'], ['-femulated-tls'], ['-fPIE']]
