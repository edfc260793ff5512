"""Builds simulator A around /repo's current sources."""
import os, sys, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *
HERE = os.path.dirname(os.path.abspath(__file__))
CF = ['-O1', '-g', '-fno-pie', '-fno-pic', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-w', '-fno-common']
# libc functions without I/O, process state, clock or allocation
PURE = set('''memcpy memmove memset memcmp memchr memrchr mempcpy rawmemchr strlen strnlen strcmp strncmp strcasecmp strncasecmp strchr strrchr
strstr strcasestr strcpy strncpy strcat strncat stpcpy stpncpy strspn strcspn strpbrk strsep strerror strsignal snprintf sprintf vsnprintf vsprintf sscanf
__isoc99_sscanf __isoc23_sscanf isalpha isdigit isalnum isspace isxdigit isupper islower ispunct isprint tolower toupper
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc qsort bsearch abs labs llabs div ldiv setjmp _setjmp longjmp __sigsetjmp siglongjmp atoi atol atoll atof
dirname __xpg_basename basename fnmatch strverscmp strcoll strftime difftime timegm ldexp ldexpl frexp frexpl fabs floor ceil pow sqrt log log2 fmod isnan isinf nan
__isnan __isinf __signbit signbit copysign setlocale localeconv sigemptyset sigaddset sigfillset sigdelset wcwidth mbrtowc wcrtomb __mempcpy __stpcpy strchrnul
posix_spawn_file_actions_init posix_spawn_file_actions_destroy posix_spawnattr_init posix_spawnattr_destroy posix_spawn_file_actions_adddup2
__fpclassify __fpclassifyl roundl truncl lroundl modf modfl nextafter bcmp bzero bcopy index rindex ffs ffsl'''.split())

def build(variant=''):
    defs = ['-DUSE_ASAN=1'] if variant == 'asan' else []
    srcs = repo_sources()
    key = variant + sha(variant, filehash(srcs), filehash(repo_headers()), filehash([os.path.join(HERE, f) for f in ('kern.c', 'kern.h', 'ulibc.c', 'build.py')]), ' '.join(map(os.path.basename, srcs)))
    out = os.path.join(BUILD, 'simcc-' + key)
    exe = os.path.join(out, 'simcc')
    with locked('simcc-' + key):
        if os.path.exists(exe): os.utime(out); return exe
        prune('simcc', out)
        tmp = tempfile.mkdtemp(prefix='simcc-tmp', dir=BUILD)
        try:
            def cc(a):
                src, o, extra = a
                sh(['gcc'] + CF + extra + ['-c', src, '-o', o])
            jobs, objs = [], []
            for i, s in enumerate(srcs):
                o = os.path.join(tmp, f'sut{i}.o'); objs.append(o)
                jobs.append((s, o, ['-D__pie__=2', '-D__PIE__=2', '-I' + REPO] + defs))
            uo, ko = os.path.join(tmp, 'ulibc.o'), os.path.join(tmp, 'kern.o')
            jobs += [(os.path.join(HERE, 'ulibc.c'), uo, []), (os.path.join(HERE, 'kern.c'), ko, [])]
            with ThreadPoolExecutor(8) as ex: list(ex.map(cc, jobs))
            syms = [l.split()[-1] for l in sh(['nm', '--defined-only', '-g', uo]).decode().splitlines()]
            m = {s[2:]: s for s in syms if s.startswith('u_')}
            for n in list(m):
                m.setdefault(n + '64', m[n]); m.setdefault('__' + n, m[n]); m.setdefault('__isoc23_' + n, m[n]); m.setdefault(n + '_unlocked', m[n])
            m['_IO_putc'] = m['putc']; m['_IO_getc'] = m['getc']; m['main'] = 'sut_main'
            sut = os.path.join(tmp, 'sut.o')
            sh(['ld', '-r', '-o', sut] + objs)
            defined = {l.split()[-1] for l in sh(['nm', '--defined-only', '-g', sut]).decode().splitlines()}
            und = [l.split()[-1] for l in sh(['nm', '-u', sut]).decode().splitlines() if l.split()]
            lst = os.path.join(tmp, 'redef'); warn = []
            with open(lst, 'w') as f:
                for s in sorted(set(und) | {'main'}):
                    if s in m and (s == 'main' or s not in defined): f.write(f'{s} {m[s]}\n')
                    elif s not in PURE and s not in defined: warn.append(s)
            # keep the program's own symbols apart from the simulator's and libc's (an equal name would clash)
            with open(lst, 'a') as f:
                for s in sorted(defined - {'main'}): f.write(f'{s} sut_{s}\n')
            sut2 = os.path.join(tmp, 'sut2.o')
            sh(['objcopy', '--redefine-syms=' + lst, sut, sut2])
            img = os.path.join(tmp, 'img.o'); img2 = os.path.join(tmp, 'img2.o')
            sh(['ld', '-r', '-o', img, sut2, uo])
            secs = sh(['readelf', '-SW', img]).decode()
            bad = [l for l in secs.splitlines() if ' WA ' in l and not any(x in l for x in (' .data ', ' .bss ', '.init_array', '.fini_array'))]
            bad = [l for l in bad if l.split(']')[1].split()[4].strip('0')]
            ren = ['--rename-section', '.data=simdata,alloc,load,data,contents', '--rename-section', '.bss=simbss,alloc']
            for l in bad:
                n = l.split(']')[1].split()[0]
                if 'NOBITS' not in l and not n.startswith('.t'): ren += ['--rename-section', f'{n}=simdata,alloc,load,data,contents']; continue
                warn.append('section ' + n)
            sh(['objcopy'] + ren + [img, img2])
            sh(['gcc', '-static', '-no-pie', '-o', os.path.join(tmp, 'simcc'), ko, img2])
            os.makedirs(out, exist_ok=True)
            with open(os.path.join(out, 'warnings'), 'w') as f: f.write('\n'.join(warn))
            os.rename(os.path.join(tmp, 'simcc'), exe)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return exe
if __name__ == '__main__':
    e = build(); print(e); print(open(os.path.dirname(e) + '/warnings').read())
