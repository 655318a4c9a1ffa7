#!/usr/bin/env python3
"""C31: the VSScript API. Sequences of calls are run by build/py/vss_host on the library built from the tree and compared with a model."""
import glob, itertools, json, os, select, shutil, subprocess, sys, sysconfig, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyseq import Case, case, check, Fail, main

PYB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build', 'py')

def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()
def unhx(s):
    return None if s is None else bytes.fromhex(s)

class Host:
    """a process with an interpreter of its own that runs VSScript calls"""
    def __init__(self, home):
        os.makedirs(home + '/vapoursynth', exist_ok=True)
        d = sysconfig.get_config_var('LIBDIR')
        libs = [d + '/' + sysconfig.get_config_var('INSTSONAME'), d + '/libpython3.12.so.1.0', '/usr/lib/x86_64-linux-gnu/libpython3.12.so.1.0']
        lib = [l for l in libs if l.endswith('.so.1.0') and os.path.exists(l)][0]
        exe = os.path.realpath(sys.executable)
        with open(home + '/vapoursynth/vapoursynth.toml', 'w') as f:
            f.write('"%s" = "%s", "%s", "%d"\n' % (PYB + '/libvsscript.so', exe, lib, int(os.stat(exe).st_mtime)))
        self.err = open(home + '/stderr', 'w+')
        self.p = subprocess.Popen([PYB + '/vss_host', PYB + '/libvsscript.so'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=dict(os.environ, XDG_CONFIG_HOME=home, HOME=home), cwd=home)
    def run(self, mode, ops):
        try:
            self.p.stdin.write((mode + ' ' + ' '.join(ops) + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        buf = b''
        end = time.time() + 60
        while not buf.endswith(b'\n'):
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                self.p.kill()
                raise Fail('a call does not return')
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b:
                rc = self.p.wait()
                self.err.seek(0)
                raise Fail('the process died (%d): %s' % (rc, self.err.read()[-600:]))
            buf += b
        try:
            return json.loads(buf.splitlines()[-1])
        except ValueError:
            raise Fail('unexpected output %r' % buf[-300:])

HDR = 'import vapoursynth as vs\n'
# name: (source, effect on the model, return code, part of the error message, exit code)
SCRIPTS = {
    'def': HDR + "x = globals().get('x', 0) + 1\nclip = vs.core.std.BlankClip(length=x + 2, width=16, height=8, format=vs.GRAY8, color=x)\nclip.set_output(0)\n",
    'more': HDR + "a = vs.core.std.BlankClip(length=4, width=32, height=16, format=vs.YUV420P8)\na.set_output(2, alpha=vs.core.std.BlankClip(a, format=vs.GRAY8, color=9), alt_output=1)\nvs.core.std.BlankAudio(length=5000).set_output(-3)\n",
    'clr': HDR + "vs.clear_output(0)\n",
    'clrall': HDR + "vs.clear_outputs()\n",
    'info': "info = [__name__, globals().get('__file__', '-')]\nimport os\ncwd = os.getcwd()\n",
    'vals': "i, f, s, b, li, lf = 5, 2.5, 'caf\\xe9', b'a\\0b', [1, 2, 3], [.5, 1.0]\nnone, obj = None, object()\n",
    'iso': HDR + "n = len(vs.get_outputs())\nonly = sorted(k for k in globals() if k in ('x', 'clip', 'a'))\n",
    'fe': HDR + "def pick(n, f):\n    if n == 1: raise ValueError('frame error')\n    return f\nc = vs.core.std.BlankClip(length=3, width=16, height=8, format=vs.GRAY8, color=33)\nvs.core.std.ModifyFrame(c, c, pick).set_output(7)\n",
    'syn': 'x = = 1\n', 'exc': "x = 50\nraise ValueError('boom \\xe9')\n", 'base': "raise KeyboardInterrupt('stop')\n", 'gen': "raise GeneratorExit('gone')\n",
    'vserr': HDR + "vs.core.std.BlankClip(length=-5)\n", 'surr': "raise ValueError('bad \\udc80')\n", 'nostr': "class NoStr(Exception):\n    def __str__(self):\n        raise RuntimeError('no text')\nraise NoStr()\n",
    'exitnostr': "class C:\n    def __str__(self):\n        raise RuntimeError('no text')\nraise SystemExit(C())\n",
    'thlog': "import logging, warnings, threading\nlog = []\ndef th_f():\n    try:\n        logging.warning('from a thread')\n        warnings.warn('careful')\n        log.append('ok')\n    except BaseException as e:\n        log.append(repr(e))\nt = threading.Thread(target=th_f)\nt.start()\nt.join()\nth_f()\nassert log == ['ok', 'ok'], log\n", 'chd': "import os\nos.chdir('/')\n", 'chdx': "import os\nos.chdir('/')\nraise ValueError('boom')\n",
    'exit': 'import sys\nsys.exit()\n', 'exit0': 'import sys\nsys.exit(0)\n', 'exit3': 'import sys\nsys.exit(3)\n', 'exitneg': 'import sys\nsys.exit(-1)\n', 'exitbig': 'import sys\nsys.exit(1 << 40)\n', 'exitstr': "import sys\nsys.exit('text')\n", 'exittrue': 'import sys\nsys.exit(True)\n',
    'cb': "import vapoursynth as vs, os\ntag = 'g'\nframe = vs.core.std.BlankClip(length=1, width=16, height=8, format=vs.GRAY8, color=77).get_frame(0)\n"
          "def done(core=vs.core.core, f=frame):\n    with open(%r, 'a') as o:\n        o.write('%%s %%s %%d %%d\\n' %% (tag, core is vs.core.core, f.copy()[0][0, 0], core.std.BlankClip(length=1, color=[1, 2, 3]).get_frame(0)[2][0, 0]))\n"
          "vs.register_on_destroy(done)\n",
    'cbx': "import vapoursynth as vs\ndef boom():\n    raise KeyError('in callback')\nvs.register_on_destroy(boom)\n",
    'pend': HDR + "import time\ndef slow(n, f):\n    time.sleep(.002)\n    return f\nc = vs.core.std.BlankClip(length=20, width=16, height=8, format=vs.GRAY8)\nfuts = [vs.core.std.ModifyFrame(c, c, slow).get_frame_async(n) for n in range(8)]\n",
    'del': HDR + "class D:\n    def __del__(self):\n        global gone, gone2\n        gone = gone2 = 1\nd = D()\nvs.core.std.BlankClip(length=2, width=16, height=8, format=vs.GRAY8, color=3).set_output(1)\n",
    'keep': HDR + "import sys\nsys.kept = [vs.core.core, vs.core.std.BlankClip(length=1, width=16, height=8, format=vs.GRAY8)]\nsys.kept.append(sys.kept[1].get_frame(0))\n",
    'after': HDR + "import sys\nk = getattr(sys, 'kept', None)\nr = []\nfor f in (lambda: k[0].num_threads, lambda: k[1].get_frame(0), lambda: k[2].copy()):\n    try:\n        f()\n        r.append('ok')\n    except (vs.Error, ValueError, RuntimeError, TypeError):\n        r.append('raised')\n",
}
ERR = {'syn': (2, 'invalid syntax', 0), 'exc': (2, 'boom \xe9', 0), 'base': (2, 'stop', 0), 'gen': (2, 'gone', 0), 'vserr': (2, 'BlankClip', 0), 'surr': (2, 'ValueError: bad ', 0), 'nostr': (2, 'NoStr', 0), 'exitnostr': (3, 'exit', 1), 'chdx': (2, 'boom', 0), 'exit': (3, 'exit', 0), 'exit0': (3, 'exit', 0), 'exit3': (3, 'exit', 3), 'exitneg': (3, 'exit', -1),
       'exitbig': (3, 'exit', 1), 'exitstr': (3, 'text', 1), 'exittrue': (3, 'exit', 1)}

class Model:
    """one script handle"""
    def __init__(self, own):
        self.own, self.ns, self.outs, self.error, self.exit, self.cbs, self.cwd, self.held = own, {}, {}, None, 0, 0, 0, []
    def evaluate(self, name, file=None):
        if name == 'def':
            self.ns['x'] = self.ns.get('x', 0) + 1
            self.ns['clip'] = [self.ns['x'] + 2, 16, 8]
            self.outs[0] = [self.ns['clip'] + [self.ns['x']], None, 0]
        elif name == 'more':
            self.ns['a'] = [4, 32, 16]
            self.outs[2] = [[4, 32, 16, 0], [4, 32, 16, 9], 1]
            self.outs[-3] = [[5000, 0, 0, 0], None, 0]
        elif name == 'clr':
            self.outs.pop(0, None)
        elif name == 'clrall':
            self.outs.clear()
        elif name == 'info':
            self.ns['info'] = ['__vapoursynth__', file or '-']
        elif name == 'vals':
            self.ns['vals'] = 1
        elif name == 'iso':
            self.ns['n'], self.ns['only'] = len(self.outs), sorted(k for k in ('x', 'clip', 'a') if k in self.ns)
        elif name == 'fe':
            self.outs[7] = [[3, 16, 8, 33], None, 0]
        elif name == 'del':
            self.outs[1] = [[2, 16, 8, 3], None, 0]
        elif name == 'cb':
            self.cbs += 1
        if name in ERR:
            rc, text, self.exit = ERR[name]
            self.error = text or ''
            return rc
        return 0

class ScriptCase(Case):
    def setup(self, vs):
        self.vs = vs
        self.home = os.getcwd() + '/h%d' % os.getpid()
        os.makedirs(self.home)
        self.hosts = {}
        self.log = self.home + '/cb.txt'
        for k, v in SCRIPTS.items():
            os.makedirs(self.home + '/dir', exist_ok=True)
            open('%s/dir/%s.vpy' % (self.home, k), 'w').write(v % self.log if k == 'cb' else v)
    def host(self):
        if 'h' not in self.hosts:
            self.hosts['h'] = Host(self.home)
        return self.hosts['h']
    def src(self, name):
        return SCRIPTS[name] % self.log if name == 'cb' else SCRIPTS[name]

# ------------------------------------------------------------------ sequences on two handles
@case
class Sequences(ScriptCase):
    name, props = 'vss_sequences', 'C31'
    bounds = 'all sequences of up to 3 (thorough 4) evaluations of 30 scripts on two handles (a core of their own or a given one), everything the API can tell about both handles compared after every one, on one thread and with every call on another thread'
    def items(self, thorough):
        names = [k for k in SCRIPTS if k not in ('keep', 'after')]
        small = ['def', 'more', 'clr', 'clrall', 'iso', 'exc', 'exit3', 'cb', 'cbx', 'fe', 'vals', 'pend', 'chd']
        for mode in ('same', 'threads'):
            for n in names:
                for h in ('null', 'own'):
                    for via in 'bBf':
                        yield [mode, h, [[0, via, n]]]
            for a, b in itertools.product(names, repeat=2):
                yield [mode, 'own', [[0, 'f', a], [0, 'b', b]]]
                yield [mode, 'null', [[0, 'b', a], [1, 'f', b]]]
            for vias in itertools.product('funB', repeat=3):    # what is left of the name of an earlier evaluation
                for who in ((0, 0, 0), (0, 1, 0)):
                    yield [mode, 'null', [[w, v, 'info'] for w, v in zip(who, vias)]]
            for seq in itertools.product(small, repeat=4 if thorough else 3):
                for who in ((0, 0, 0, 0), (0, 1, 0, 1), (0, 1, 1, 0)) if thorough else ((0, 0, 0), (0, 1, 0)):
                    if mode == 'same' or thorough:
                        yield [mode, 'null', [[w, 'b', n] for w, n in zip(who, seq)]]
    def observe(self, ops, want, i, m, full=True):
        """calls that ask everything, and the answers there should be"""
        def add(op, w):
            ops.append(op)
            want.append((op, w))
        add('e:%d' % i, (lambda r: r is None) if m.error is None else (lambda r, e=m.error: r is not None and e.encode() in unhx(r)))
        add('x:%d' % i, m.exit)
        if m.error is not None:
            return                                     # only these two may be called
        for o in (0, 1, 2, 7, -3):
            add('o:%d:%d' % (i, o), m.outs.get(o, [None, None, 0]))
        for size in (0, 1, 2, 8):
            k = sorted(m.outs)
            add('a:%d:%d' % (i, size), lambda r, size=size, k=k: r[0] == len(k) and sorted(r[1:1 + min(size, len(k))]) == r[1:1 + min(size, len(k))] and set(r[1:1 + min(size, len(k))]) <= set(k) and len(set(r[1:1 + min(size, len(k))])) == min(size, len(k)) and set(r[1 + min(size, len(k)):]) == {-777})
        add('k:%d' % i, [1, 1 if m.own else 2, 1])
        if full:
            for v in ('x', 'clip', 'a', 'n'):
                if v in m.ns:
                    t = 1 if isinstance(m.ns[v], int) else 5
                    add('g:%d:%s' % (i, hx(v)), [0, [[hx(v), t, m.ns[v]]]])
                else:
                    add('g:%d:%s' % (i, hx(v)), [1, []])
            if 'only' in m.ns:
                add('g:%d:%s' % (i, hx('only')), [0, [[hx('only'), 3] + [hx(x) for x in m.ns['only']]]] if m.ns['only'] else lambda r: True)
            if 'info' in m.ns:
                add('g:%d:%s' % (i, hx('info')), [0, [[hx('info'), 3] + [hx(x) for x in m.ns['info']]]])
            if 'vals' in m.ns:
                for k, w in (('i', [1, 5]), ('f', [2, 2.5]), ('s', [3, hx('caf\xe9')]), ('b', [3, hx(b'a\0b')]), ('li', [1, 1, 2, 3]), ('lf', [2, .5, 1])):
                    add('g:%d:%s' % (i, hx(k)), [0, [[hx(k)] + w]])
                add('g:%d:%s' % (i, hx('obj')), lambda r: r[0] == 1 and not r[1])
    def run(self, item):
        mode, own, seq = item
        if os.path.exists(self.log):
            os.unlink(self.log)
        ops, want = ['c:0:' + own, 'c:1:null'], [('create', 1), ('create', 1)]
        M = [Model(own == 'own'), Model(False)]
        for step, (i, via, name) in enumerate(seq):
            m = M[i]
            if m.error is not None:
                continue
            path = '%s/dir/%s.vpy' % (self.home, name)
            if via == 'f':
                ops.append('f:%d:%s' % (i, hx(path)))
                rc = m.evaluate(name, path)
            else:
                fn = '<x>' if via == 'B' else 'named.vpy' if via == 'n' else None if via == 'u' else 'some name.vpy' if len(seq) == 2 else None
                ops.append('b:%d:%s:%s' % (i, hx(self.src(name)), hx(fn) if fn else '-'))
                rc = m.evaluate(name, None if via == 'B' else fn)
            want.append((ops[-1][:4] + name, rc))
            if name in ('chd', 'chdx'):
                ops.append('b:1:%s:-' % hx('import os\nos.chdir(%r)\n' % self.home) if M[1].error is None else 'p')
                want.append(('back', lambda r: True))
            for k in (0, 1):
                self.observe(ops, want, k, M[k], step == len(seq) - 1)
        for i in (0, 1):
            ops.append('F:%d' % i)
            want.append(('free %d' % i, lambda r: r[0] == 1))
        try:
            got = self.host().run(mode, ops)
        except Fail:
            self.hosts.clear()
            raise
        check(len(got) == len(want), 'answers are missing')
        self.transitions += len(ops)
        for (what, w), g in zip(want, got):
            check(w(g) if callable(w) else g == w, '%s gave %s%s' % (what, g, '' if callable(w) else ', expected %s' % (w,)))
        lines = open(self.log).read().splitlines() if os.path.exists(self.log) else []
        n = sum(m.cbs for m in M)
        check(lines == ['g True 77 3'] * n, 'the destroy callbacks wrote %r, expected %d lines "g True 77 3"' % (lines, n))
        self.state(repr([(m.ns, m.outs, m.error, m.exit) for m in M]))
        self.sample('%r: %d calls, outputs %s' % (item, len(ops), [sorted(m.outs) for m in M]))

# ------------------------------------------------------------------ working directories, files, variables, kept objects
@case
class Files(ScriptCase):
    name, props = 'vss_files', 'C31'
    bounds = 'script files: missing, empty, with a NUL byte, not UTF-8, with other encodings, with BOM and CRLF, around 16 MiB; setting the working directory or not x every outcome; setting variables of every type, in every order with evaluations; objects kept beyond the end of their script'
    def items(self, thorough):
        for f in ('missing', 'empty', 'nul', 'notutf8', 'latin1', 'bom', 'crlf', 'dir', 'big', 'noeol'):
            yield ['file', f]
        for n in ('def', 'exc', 'exit3', 'syn', 'chd', 'chdx', 'info', 'surr', 'nostr', 'exitnostr'):
            for flag in (0, 1):
                for via in ('f', 'rel', 'b', 'bn', 'b<'):
                    yield ['cwd', n, flag, via]
        for order in itertools.product(['sx', 'sx2', 'sn', 'sl', 'sd', 'def', 'iso'], repeat=3):
            yield ['vars', list(order)]
        for end in ('own', 'null'):
            for mode in ('same', 'threads'):
                yield ['kept', end, mode]
        for seq in itertools.product(['h', 'def', 'clrall', 'q', 'more'], repeat=4 if thorough else 3):
            yield ['held', list(seq)]
        yield ['null']
    def run(self, item):
        kind = item[0]
        h = self.home
        ops, want = ['c:0:null'], [1]
        def add(op, w):
            ops.append(op)
            want.append(w)
        if kind == 'null':
            ops, want = ['N'], [1]
        elif kind == 'file':
            body = b"x = 'before'\n"
            p = '%s/f_%s.vpy' % (h, item[1])
            data = dict(empty=b'', nul=body + b"y = 1\0\nx = 'after'\n", notutf8=body + b"y = '\xff'\n", latin1=b"# -*- coding: latin-1 -*-\nx = '\xe9'\n", bom=b'\xef\xbb\xbf' + body, crlf=b"x = '''a\r\nb'''\r\n", noeol=b"if 1:\n    x = 'end'",
                        big=b"x = 'before'\n" + b'#' * (16 << 20) + b"\nx = 'after'\n").get(item[1])
            if item[1] == 'dir':
                os.makedirs(p, exist_ok=True)
            elif data is not None:
                open(p, 'wb').write(data)
            bad = item[1] in ('missing', 'dir', 'nul', 'notutf8')
            add('f:0:' + hx(p), 2 if bad else 0)
            if bad:
                add('e:0', lambda r: r is not None)
            else:
                add('e:0', None)
                val = dict(empty=None, latin1='\xe9', bom='before', crlf='a\nb', big='after', noeol='end')[item[1]]
                add('g:0:' + hx('x'), [1, []] if val is None else [0, [[hx('x'), 3, hx(val)]]])
        elif kind == 'cwd':
            _, n, flag, via = item
            add('w:0:%d' % flag, 0)
            add('p', hx(h))
            full = '%s/dir/%s.vpy' % (h, n)
            if via in ('f', 'rel'):
                add('f:0:' + hx(full if via == 'f' else 'dir/%s.vpy' % n), ERR.get(n, (0,))[0])
            else:
                add('b:0:%s:%s' % (hx(self.src(n)), {'b': '-', 'bn': hx(full), 'b<': hx('<dir/x>')}[via]), ERR.get(n, (0,))[0])
            inside = flag and via in ('f', 'rel', 'bn')
            add('p', hx(h) if inside or n not in ('chd', 'chdx') else hx('/'))
            if n == 'info':
                add('g:0:' + hx('cwd'), [0, [[hx('cwd'), 3, hx(h + '/dir' if inside else h)]]])
            add('F:0', lambda r: True)
            add('c:0:null', 1)
            add('b:0:%s:-' % hx('import os\nos.chdir(%r)\n' % h), 0)
            add('p', hx(h))
        elif kind == 'vars':
            ns, n = {}, 0
            outs = 0
            for o in item[1]:
                if o == 'sx':
                    add('s:0:%s:i:41' % hx('x'), 0)
                    ns['x'] = [1, 41]
                elif o == 'sx2':
                    add('s:0:%s:f:2.5:%s:d:%s' % (hx('x'), hx('t'), hx('h\xe9')), 0)
                    ns['x'], ns['t'] = [2, 2.5], [3, hx('h\xe9')]
                elif o == 'sl':
                    add('s:0:' + ':'.join('%s:i:%d' % (hx('li'), v) for v in (3, 1, 2)), 0)
                    ns['li'] = [1, 3, 1, 2]
                elif o == 'sd':
                    add('s:0:%s:d:%s' % (hx('t'), hx(b'a\0b')), 0)
                    ns['t'] = [3, hx(b'a\0b')]
                elif o == 'sn':
                    add('s:0:%s:n:0' % hx('nd'), 0)
                    if outs:
                        ns['nd'] = [5, [3, 16, 8]]
                elif o == 'def':
                    add('b:0:%s:-' % hx(HDR + "vs.core.std.BlankClip(length=3, width=16, height=8, format=vs.GRAY8).set_output(0)\nfirst = lambda v: v[0] if isinstance(v, list) else v\nx = first(globals().get('x', 7))\n"), 0)
                    outs = 1
                    ns['x'] = ns.get('x', [1, 7])
                elif o == 'iso':
                    add('b:0:%s:-' % hx("names = sorted(k for k in globals() if k in ('x', 't', 'li', 'nd')) or 0\n"), 0)
                    ns['names'] = [3] + [hx(k) for k in sorted(set(ns) & {'x', 't', 'li', 'nd'})]
                    if len(ns['names']) == 1:
                        ns['names'] = [1, 0]
                for k in ('x', 't', 'li', 'nd', 'names'):
                    add('g:0:' + hx(k), [0, [[hx(k)] + ns[k]]] if k in ns else [1, []])
        elif kind == 'kept':
            _, own, mode_ = item
            ops[0] = 'c:0:' + own
            add('c:1:null', 1)
            add('b:0:%s:-' % hx(SCRIPTS['keep']), 0)
            add('b:1:%s:-' % hx(SCRIPTS['after']), 0)
            add('g:1:' + hx('r'), [0, [[hx('r'), 3] + [hx('ok')] * 3]])
            add('F:0', lambda r: r[0] == 1)            # the given core is freed with the script, whoever still has it
            add('b:1:%s:-' % hx(SCRIPTS['after'] + "sys.kept = None\n"), 0)
            add('g:1:' + hx('r'), [0, [[hx('r'), 3] + [hx('raised')] * 3]])
        elif kind == 'held':
            held, cur, x = [], None, 0
            for o in item[1]:
                if o == 'h':
                    add('h:0:0', 1 if cur else 0)
                    if cur:
                        held.append(cur)
                elif o == 'q':
                    add('q:0', list(held))
                elif o == 'def':
                    x += 1
                    cur = [x + 2, 16, 8, x]
                    add('b:0:%s:-' % hx(SCRIPTS['def']), 0)
                elif o == 'more':
                    add('b:0:%s:-' % hx(SCRIPTS['more']), 0)
                else:
                    cur = None
                    add('b:0:%s:-' % hx(SCRIPTS['clrall']), 0)
            add('q:0', list(held))
        ops.append('F:0')
        want.append(lambda r: r[0] == 1)
        if kind in ('null', 'kept'):
            ops.pop(), want.pop()
        try:
            got = self.host().run(item[2] if kind == 'kept' else 'same', ops)
        except Fail:
            self.hosts.clear()
            raise
        self.transitions += len(ops)
        for op, w, g in zip(ops, want, got):
            check(w(g) if callable(w) else g == w, '%s gave %s%s' % (op[:80], g, '' if callable(w) else ', expected %s' % (w,)))
        self.state(repr(got))
        self.sample('%r: %s' % (item, got))

if __name__ == '__main__':
    main(os.path.abspath(__file__))
