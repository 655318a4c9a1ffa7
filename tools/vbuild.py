"""Incremental builder: compiles /repo's current sources (and /verif harnesses) into /verif/build.
A translation unit is rebuilt when its command line or the content of any file it includes changed."""
import hashlib, json, os, subprocess, sys, concurrent.futures, threading, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EXTRA = '/opt/vp/extra'
SRC = REPO + '/src'
CORE = SRC + '/core'
JOBS = 8

DEFS = ['-DVS_CURRENT_RELEASE=78', '-DVS_GRAPH_API', '-DVS_USE_LATEST_API', '-DVSSCRIPT_USE_LATEST_API',
        '-DVS_TARGET_OS_LINUX', '-DVS_TARGET_CPU_X86', '-DHAVE_SCHED_GETAFFINITY', '-DNOMINMAX']
BASE = ['-std=c++20', '-fno-char8_t', '-fno-math-errno', '-Wno-ignored-attributes', '-w', '-fPIC',
        '-I' + REPO + '/include', '-I' + SRC + '/core', '-I' + CORE + '/expr', '-I' + CORE + '/kernel', '-I' + SRC] + DEFS

class BuildError(Exception):
    pass

_hash_cache = {}
_hl = threading.Lock()

def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return 'missing'
    k = (p, st.st_mtime_ns, st.st_size)
    with _hl:
        if k in _hash_cache:
            return _hash_cache[k]
    h = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    with _hl:
        _hash_cache[k] = h
    return h

def parse_deps(d):
    try:
        t = open(d).read()
    except OSError:
        return None
    t = t.replace('\\\n', ' ')
    return t.split(':', 1)[1].split() if ':' in t else None

def compile_tu(cfg, src, flags, cc='g++'):
    """returns object path"""
    od = os.path.join(BUILD, cfg)
    os.makedirs(od, exist_ok=True)
    key = hashlib.sha256((src + ' '.join(flags) + cc).encode()).hexdigest()[:12]
    base = os.path.join(od, os.path.basename(src) + '-' + key)
    obj, dep, meta = base + '.o', base + '.d', base + '.json'
    cmd = [cc, '-c', src, '-o', obj, '-MD', '-MF', dep] + flags
    sig = ' '.join(cmd)
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m['sig'] == sig and all(fhash(p) == h for p, h in m['deps'].items()):
                return obj
        except (ValueError, KeyError):
            pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('compile failed: %s\n%s' % (sig, r.stderr[-4000:]))
    deps = parse_deps(dep) or [src]
    json.dump({'sig': sig, 'deps': {p: fhash(p) for p in deps if not p.startswith('/usr/')}}, open(meta, 'w'))
    return obj

def compile_all(cfg, jobs):
    """jobs: list of (src, flags) -> objects in order"""
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_tu, cfg, s, f) for s, f in jobs]
        return [f.result() for f in futs]

def link(cfg, out, objs, flags, cc='g++'):
    od = os.path.join(BUILD, cfg)
    os.makedirs(od, exist_ok=True)
    path = os.path.join(od, out)
    sig = hashlib.sha256((' '.join(objs + flags) + ''.join(fhash(o) for o in objs)).encode()).hexdigest()
    st = path + '.link'
    if os.path.exists(path) and os.path.exists(st) and open(st).read() == sig:
        return path
    tmp = path + '.tmp'
    r = subprocess.run([cc, '-o', tmp] + objs + flags, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('link failed: %s\n%s' % (out, r.stderr[-6000:]))
    os.replace(tmp, path)
    open(st, 'w').write(sig)
    return path

CORE_SRC = ['cpufeatures.cpp', 'internalfilters.cpp', 'kernel/cpulevel.cpp', 'memoryuse.cpp', 'textfilter.cpp',
            'vsapi.cpp', 'vscore.cpp', 'vslog.cpp', 'vsthreadpool.cpp']

def meson_list(name):
    """reads a file list out of /repo/meson.build so that moved or added sources are followed"""
    t = open(REPO + '/meson.build').read()
    import re
    m = re.search(r'^%s\s*=\s*files\((.*?)\)' % re.escape(name), t, re.S | re.M)
    return re.findall(r"'([^']+)'", m.group(1)) if m else []

def core_jobs(flags):
    return [(CORE + '/' + s, BASE + ['-DVS_CORE_EXPORTS', '-fvisibility=hidden'] + flags) for s in CORE_SRC] + \
           [(EXTRA + '/resize_left_out.cpp', BASE + ['-DVS_CORE_EXPORTS', '-fvisibility=hidden'] + flags)]

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(BUILD + '/.lock', 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self
    def __exit__(self, *a):
        self.f.close()
