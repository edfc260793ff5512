"""Shared helpers: paths, build cache, hashing, deterministic PRNG."""
import hashlib, os, subprocess, sys, fcntl, glob, shutil, time, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(V, 'build')

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:16]

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:16]

def repo_sources():
    """The translation units a builder compiles: top-level *.c plus the platform preset in use."""
    cs = sorted(glob.glob(os.path.join(REPO, '*.c')))
    if not os.path.exists(os.path.join(REPO, 'platform.c')):
        cs = [c for c in cs if os.path.basename(c) != 'platform.c'] + [os.path.join(REPO, 'platform', 'linux-glibc-generic.c')]
    return cs

def repo_headers():
    return sorted(glob.glob(os.path.join(REPO, '*.h')) + glob.glob(os.path.join(REPO, 'platform', '*.[ch]')))

class BuildError(Exception): pass

def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildError(f"{' '.join(cmd)}\n{r.stdout.decode(errors='replace')[-4000:]}")
    return r.stdout

class locked:
    def __init__(self, name): os.makedirs(BUILD, exist_ok=True); self.p = os.path.join(BUILD, name + '.lock')
    def __enter__(self): self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def prune(prefix, keep):
    """Drop old cached builds so the disk does not fill up."""
    ds = sorted((d for d in glob.glob(os.path.join(BUILD, prefix + '-*')) if os.path.isdir(d) and d != keep), key=os.path.getmtime)
    for d in ds[:-3]:
        if os.path.getmtime(d) < time.time() - 1800:
            shutil.rmtree(d, ignore_errors=True)

def rng(*key):
    return random.Random(int(sha(*key), 16))
