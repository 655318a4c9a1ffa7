"""What the checks are built from."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import *

V3, V4 = ['-march=x86-64-v3'], ['-march=x86-64-v4']
ZN4 = ['-march=znver4', '-mno-sse4a', '-mno-avx512bf16']

def filter_jobs(flags, kflags=None, level=[]):
    """the filters plugin; kernels (kflags) may be built with different flags than the filter logic"""
    kflags = flags if kflags is None else kflags
    b = BASE + ['-fvisibility=hidden']
    jobs = []
    for f in meson_list('filters_sources'):
        k = '/kernel/' in f or '/expr/' in f
        jobs.append((REPO + '/' + f, b + (kflags if k else flags) + level))
    for f in meson_list('    sse2_kernel_sources') or meson_indented('sse2_kernel_sources'):
        jobs.append((REPO + '/' + f, b + kflags + level))
    for f in meson_indented('avx2_kernel_sources'):
        jobs.append((REPO + '/' + f, b + kflags + (level or V3)))
    for f in meson_indented('avx512_kernel_sources'):
        jobs.append((REPO + '/' + f, b + kflags + (level if level == ZN4 else V4)))
    return jobs

def meson_indented(name):
    import re
    t = open(REPO + '/meson.build').read()
    m = re.search(r'^\s*%s\s*=\s*files\((.*?)\)' % re.escape(name), t, re.S | re.M)
    return re.findall(r"'([^']+)'", m.group(1)) if m else []

RT = VERIF + '/mc'
TSAN = ['-O1', '-g', '-fsanitize=thread', '-fno-omit-frame-pointer']
LINKBASE = ['-ldl', '-lpthread', '-lzimg', '-rdynamic', '-no-pie']
HFLAGS = BASE + ['-O1', '-g', '-I' + VERIF + '/mc']

def mc_exe(name, scenario_srcs, plugin='stub', extra_jobs=(), extra_link=(), kernels=None):
    """an explorer binary: instrumented core + scenarios + plugin next to it. returns its path"""
    cfg = 'mc'
    jobs = core_jobs(TSAN)
    ncore = len(jobs)
    jobs += [(RT + '/' + s, HFLAGS + ['-fno-threadsafe-statics']) for s in ['rt.cpp', 'explore.cpp', 'kit.cpp']]
    jobs += [(RT + '/' + s, HFLAGS) for s in scenario_srcs]
    jobs += list(extra_jobs)
    pj = [(RT + '/stub_plugin.cpp', HFLAGS)] if plugin == 'stub' else filter_jobs(TSAN, kernels or ['-O2', '-g'])
    objs = compile_all(cfg, jobs + pj)
    pobjs = objs[len(jobs):]
    objs = objs[:len(jobs)]
    exe = link(cfg + '/' + name, name, objs, list(extra_link) + LINKBASE)
    link(cfg + '/' + name, 'libvapoursynthfilters', pobjs, ['-shared', '-Wl,--unresolved-symbols=ignore-all'])
    return exe

def pipe_exe(name='mc_pipe'):
    """the vspipe program under the explorer"""
    V = SRC + '/vspipe'
    jobs = [(SRC + '/common/wave.cpp', BASE + TSAN), (V + '/printgraph.cpp', BASE + TSAN), (V + '/vsjson.cpp', BASE + TSAN),
            (V + '/vspipe.cpp', BASE + TSAN + ['-Dmain=vspipe_main'])]
    return mc_exe(name, ['sc_pipe.cpp'], plugin='full', extra_jobs=jobs, extra_link=['-Wl,--wrap=fopen,--wrap=fopen64'])

def filters_mc_exe(name='mc_filters'):
    """the built-in filters under the explorer; kernels are instrumented too"""
    return mc_exe(name, ['sc_filters.cpp'], plugin='full', kernels=TSAN)

# ---- bounded-exhaustive checkers
SQ = VERIF + '/seq'
FAST = ['-O2', '-g1', '-fno-omit-frame-pointer']
ASAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,nonnull-attribute,shift', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

def seq_exe(name, srcs, cfg='fast', plugin='full', guard=True):
    """an enumeration checker: core + checker in one program, filters plugin next to it"""
    flags = list(FAST if cfg == 'fast' else ASAN)
    if guard:
        flags.append('-DVS_FRAME_GUARD')
    jobs = core_jobs(flags)
    hf = BASE + flags + ['-I' + SQ]
    jobs += [(SQ + '/' + s, hf) for s in ['seq.cpp', 'vk.cpp'] + list(srcs)]
    pj = filter_jobs(flags) if plugin == 'full' else [(RT + '/stub_plugin.cpp', hf)]
    hook = [(SQ + '/hook_plugin.cpp', hf)] if plugin == 'stub' else []
    tiny = []
    if 'sq_plugin.cpp' in srcs:
        tiny = [(SQ + '/tiny_plugin.cpp', hf), (SQ + '/tiny_plugin.cpp', hf + ['-DNOENTRY'])]
    objs = compile_all(cfg, jobs + pj + hook + tiny)
    san = [f for f in flags if f.startswith('-fsanitize')]
    sub = '%s/%s' % (cfg, 'full' if plugin == 'full' else 'stub')
    exe = link(sub, name, objs[:len(jobs)], san + LINKBASE)
    shared = san + ['-shared', '-Wl,--unresolved-symbols=ignore-all']
    link(sub, 'libvapoursynthfilters', objs[len(jobs):len(jobs) + len(pj)], shared)
    if hook:
        link(sub, 'libhook', objs[len(jobs) + len(pj):len(jobs) + len(pj) + len(hook)], shared)
    if tiny:
        link(sub, 'libtiny', objs[-2:-1], shared)
        link(sub, 'libtinynoentry', objs[-1:], shared)
    return exe

# ---- the Python module
def py_site():
    """the Python package, built from the current tree: core + filters + Cython module. returns a program that runs checks on it"""
    import glob, shutil, subprocess, sys, sysconfig
    b = BUILD + '/py'
    pkg = b + '/site/vapoursynth'
    os.makedirs(pkg, exist_ok=True)
    cy = SRC + '/cython'
    srcs = sorted(glob.glob(cy + '/*'))
    sig = hashlib.sha256(' '.join(fhash(f) for f in srcs).encode()).hexdigest()
    cpp = b + '/vapoursynth.pyx.cpp'
    if not (os.path.exists(cpp) and os.path.exists(cpp + '.sig') and open(cpp + '.sig').read() == sig):
        r = None
        for c in (['/opt/vp/venv/bin/cython'], ['cython'], [sys.executable, '-m', 'cython']):
            try:
                r = subprocess.run(c + ['-M', '--fast-fail', '-3', '--cplus', cy + '/vapoursynth.pyx', '-o', cpp], capture_output=True, text=True)
            except OSError:
                continue
            if r.returncode == 0:
                break
        if r is None or r.returncode:
            raise BuildError('cython failed\n%s' % (r.stderr[-4000:] if r else 'not found'))
        open(cpp + '.sig', 'w').write(sig)
    flags = list(FAST) + ['-DVS_FRAME_GUARD']
    jobs = core_jobs(flags)
    pj = filter_jobs(flags)
    pf = ['-std=c++20', '-O1', '-w', '-fPIC', '-fno-char8_t', '-I' + REPO, '-I' + REPO + '/include', '-I' + SRC, '-I' + SRC + '/common', '-I' + cy, '-I' + sysconfig.get_path('include'), '-DPy_LIMITED_API=0x030c0000'] + DEFS
    mj = [(cpp, pf), (SRC + '/common/wave.cpp', pf)]
    objs = compile_all('fast', jobs + pj)
    mobjs = compile_all('py', mj)
    lib = link('py', 'libvapoursynth.so.4', objs[:len(jobs)], ['-shared', '-Wl,-soname,libvapoursynth.so.4', '-ldl', '-lpthread', '-lzimg'])
    flt = link('py', 'libvapoursynthfilters.so', objs[len(jobs):], ['-shared', '-Wl,--unresolved-symbols=ignore-all'])
    mod = link('py', 'vapoursynth.abi3.so', mobjs, ['-shared', lib, '-Wl,-rpath,$ORIGIN'])
    for f, n in [(lib, 'libvapoursynth.so.4'), (lib, 'libvapoursynth.so'), (flt, 'libvapoursynthfilters.so'), (flt, 'libvapoursynthfilters.so.4'), (flt, 'libvapoursynthfilters'), (mod, 'vapoursynth.abi3.so')]:
        d = pkg + '/' + n
        if os.path.lexists(d):
            os.unlink(d)
        os.link(f, d)
    for f in glob.glob(SRC + '/py/*.py'):
        shutil.copy(f, pkg)
    link('py', 'libtestsrc.so', compile_all('py', [(VERIF + '/py/testsrc.cpp', ['-std=c++20', '-O1', '-w', '-fPIC', '-I' + REPO + '/include'])]), ['-shared'])
    return py_runner('frames_mc.py')

def py_runner(name):
    os.chmod(VERIF + '/py/' + name, 0o755)
    return VERIF + '/py/' + name

def py_seq(name):
    py_site()
    return py_runner(name)

def py_script(name):
    """+ the VSScript library of the current tree and a program that makes calls to it"""
    py_site()
    f = ['-std=c++20', '-O1', '-w', '-fPIC', '-fno-char8_t', '-I' + REPO + '/include']
    import sysconfig
    link('py', 'libvsscript.so', compile_all('py', [(SRC + '/vsscript/vsscript.cpp', f + ['-DPy_NO_LINK_LIB', '-DVS_CORE_EXPORTS', '-I' + sysconfig.get_path('include')] + DEFS)]), ['-shared', '-ldl'])
    link('py', 'vss_host', compile_all('py', [(VERIF + '/py/vss_host.cpp', f)]), ['-ldl', '-lpthread'])
    return py_runner(name)
