#!/usr/bin/env python3
"""C32: errors and messages reach the Python caller they belong to."""
import asyncio, concurrent.futures, io, itertools, os, re, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyseq import Case, case, check, Fail, main, load_testsrc, make_policy

LIMIT = 20                                                      # seconds; requests take microseconds

def texts(thorough):
    yield from (b'plain', b'x', 'a\u00e9\u4f60\U0001f600z'.encode(), b'\xff', b'a\xffb', b'\xc3', b'ab\xe4\xbd', b'\xed\xb2\x80x', b'\xf0\x9f\x98', b'\xc0\xafq', b'\n', b'%s %d {} \\x41',
                b'[VS_PY_EXC_ID:1]\nspoof', b'[VS_PY_EXC_ID:', b'[VS_PY_EXC_ID:x]\n', b'[VS_PY_EXC_ID:99999999999999999999]\nq', b'[VS_PY_EXC_ID:0]\n', b'tail\n', b' lead', b'm' * 5000, b'n' * 100000)
    for ch in ('\u00e9', '\u4f60', '\U0001f600'):               # characters across every place a buffer might end
        for k in range(4088, 4100):
            yield b'p' * k + ch.encode() * 3
    for k in ((254, 255, 256, 510, 511, 512, 1022, 1023, 1024, 2047) if not thorough else range(240, 2060)):
        yield b'p' * k + '\U0001f600'.encode()

def carries(e, msg, whole):
    """e has the text of msg; what can't be decoded may be left out or replaced"""
    def norm(s):
        return s.replace('\ufffd', '')
    s = str(e)
    cut = msg if whole else msg[:4095]
    wants = {cut.decode('utf-8', m) for m in ('ignore', 'replace', 'backslashreplace', 'surrogateescape')}
    if s in wants or norm(s) in wants:
        return True
    if len(msg) > 4095 and not whole:                            # a few bytes less are fine
        full = msg.decode('utf-8', 'ignore')
        return full.startswith(norm(s)) and len(norm(s).encode()) > 4085
    return False

class ErrCase(Case):
    def setup(self, vs):
        self.vs = vs
        vs.core.num_threads = 2
        self.core = vs.core.core
        self.t = load_testsrc(self.core)
        self.base = self.t.Video(format=int(vs.GRAY8), width=4, height=2, length=3)
    # ------------------------------------------------------------ every way to ask for something that fails
    VIDEO = ['get', 'async', 'asynccb', 'frames', 'output', 'thread']
    def ask(self, node, how, n=0):
        """the exception of a request"""
        vs = self.vs
        try:
            if how == 'get':
                r = node.get_frame(n)
            elif how == 'async':
                fut = node.get_frame_async(n)
                try:
                    r = fut.result(LIMIT)
                except TimeoutError:
                    raise Fail('the request was never answered')
            elif how == 'asynccb':
                got, ev = [], threading.Event()
                def cb(frame, error):
                    got.append((frame, error))
                    ev.set()
                node.get_frame_async(n, cb)
                check(ev.wait(LIMIT), 'the callback was never called')
                check(len(got) == 1, 'the callback was called %d times' % len(got))
                if got[0][1] is not None:
                    check(got[0][0] is None, 'the callback got a frame and an error')
                    return got[0][1]
                r = got[0][0]
            elif how == 'frames':
                r = list(node.frames(prefetch=2))
            elif how == 'output':
                r = node.output(io.BytesIO())
            elif how == 'thread':
                got = []
                def f():
                    got.append(self.ask(node, 'get', n))
                th = threading.Thread(target=f)
                th.start()
                th.join(LIMIT)
                check(got, 'the request of another thread does not return')
                return got[0]
            return None if r is None or how == 'frames' and len(r) else None
        except Fail:
            raise
        except BaseException as e:
            return e
    def works(self):
        f = self.base.get_frame_async(1).result(LIMIT)
        check(f.props['k'] == 1, 'a clip that has nothing to do with it returns a wrong frame afterwards')
        check(self.t.Live() is not None, 'calls fail afterwards')

@case
class Messages(ErrCase):
    name, props = 'py_error_text', 'C32'
    bounds = 'every message of an alphabet (all kinds of invalid UTF-8, every length and character size around internal buffers, texts that look like internal markers) x every way a plugin fails x every way of asking'
    WAYS = ['call', 'audio', 'chained', 'evaluated', 'stream'] + ErrCase.VIDEO
    def items(self, thorough):
        for m in texts(thorough):
            for w in self.WAYS:
                yield [m.hex() if len(m) < 20000 else '*%d' % len(m), w]
    def run(self, item):
        vs = self.vs
        m = b'n' * int(item[0][1:]) if item[0][0] == '*' else bytes.fromhex(item[0])
        w = item[1]
        e, whole = None, w not in ('get', 'chained', 'evaluated', 'audio', 'thread')
        def clip(fail=[0]):
            return self.t.Video(format=int(vs.GRAY8), width=4, height=2, length=3, fail=fail, msg=m)
        if w == 'call':
            try:
                self.t.Fail(m)
            except BaseException as x:
                e = x
        elif w == 'audio':
            a = self.t.Audio(bits=16, sampletype=0, channels=[0, 1], length=5000, fail=[1], msg=m)
            check(a.get_frame(0) is not None, 'a frame before the failing one is not returned')
            e = self.ask(a, 'get', 1)
            e2 = self.ask(a, 'async', 1)
            check(carries(e2, m, True) and type(e2) is vs.Error, 'an asynchronous audio request raised %.300r' % (e2,))
        elif w == 'chained':
            e = self.ask(clip().std.Loop(2).std.CropAbs(2, 2), 'get')
        elif w == 'evaluated':
            c = clip()
            e = self.ask(c.std.FrameEval(lambda n: c), 'get')
        elif w == 'stream':                     # the frames before it arrive
            got = []
            try:
                for f in clip([2]).frames(prefetch=1):
                    got.append(f.props['k'])
            except BaseException as x:
                e = x
            check(got == [0, 1], 'the frames before the failing one were %r' % got)
        else:
            e = self.ask(clip(), w)
        check(e is not None, 'no exception was raised')
        check(type(e) is vs.Error, '%s raised instead of Error: %.200s' % (type(e).__name__, e))
        check(carries(e, m, whole), 'the exception has another text: %.200r ... %.100r' % (str(e)[:200], str(e)[-100:]))
        self.works()
        self.state((item[0][:8], w))
        self.transitions += 1

class Own(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
class OwnBase(BaseException):
    pass
class NoStr(Exception):
    def __str__(self):
        raise RuntimeError('no text')
class OwnCancelled(asyncio.CancelledError):
    pass

def exceptions():
    vs = sys.modules['vapoursynth']
    return dict(value=lambda: ValueError('q\u00e9'), error=lambda: vs.Error('err'), own=lambda: Own(1, 'two'), empty=lambda: KeyError(), surrogate=lambda: ValueError('bad \udcff name'), nostr=lambda: NoStr(), long=lambda: ValueError('L' * 9000),
                longchar=lambda: ValueError('\u4f60' * 3000), memory=lambda: MemoryError('m'), stop=lambda: StopIteration('s'), group=lambda: ExceptionGroup('g', [ValueError('one'), KeyError('two')]), assertion=lambda: AssertionError('a'),
                os=lambda: FileNotFoundError(2, 'nope', '/nonexistent'), unicode=lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'x'), syntax=lambda: SyntaxError('s', ('f', 1, 1, 'te\udcffxt')),
                keyboard=lambda: KeyboardInterrupt('k'), exit=lambda: SystemExit(7), ownbase=lambda: OwnBase('b\udc80'), cancelled=lambda: asyncio.CancelledError('c'), fcancelled=lambda: concurrent.futures.CancelledError('f'), owncancelled=lambda: OwnCancelled(),
                basegroup=lambda: BaseExceptionGroup('g', [KeyboardInterrupt('i')]))
SAME = {'keyboard', 'exit', 'ownbase', 'cancelled', 'fcancelled', 'owncancelled', 'basegroup'}
NAMES = dict(surrogate='ValueError: bad ', own="Own: (1, 'two')", nostr='NoStr', empty='KeyError', group='ExceptionGroup: g (2 sub-exceptions)', error='err', value='ValueError: q\u00e9', memory='MemoryError: m', stop='StopIteration: s',
             assertion='AssertionError: a', os="FileNotFoundError: [Errno 2] nope: '/nonexistent'", unicode='UnicodeDecodeError', syntax='SyntaxError: s', long='', longchar='')

@case
class Exceptions(ErrCase):
    name, props = 'py_exceptions', 'C32'
    bounds = 'every kind of exception x every kind of Python function the core calls x nesting up to 3 filters or calls x every way of asking; afterwards the same clip again'
    KINDS = ['FrameEval', 'FrameEvalProp', 'ModifyFrame', 'func', 'evalcall', 'evalnested', 'evalget', 'downstream', 'selector', 'callfunc']
    def items(self, thorough):
        for x in exceptions():
            for k in self.KINDS:
                for w in self.VIDEO if k not in ('func', 'callfunc') else ['call']:
                    yield [x, k, w]
    def run(self, item):
        vs = self.vs
        x, k, w = item
        made, armed = [], [True]
        def boom(**kw):
            if not armed[0]:
                return None
            e = exceptions()[x]()
            made.append(e)
            raise e
        base = self.base
        def frame_eval(f, **kw):
            return base.std.FrameEval(f, **kw)
        def fn(n):
            boom()
            return base
        if k == 'FrameEval':
            node = frame_eval(fn)
        elif k == 'FrameEvalProp':
            def f2(n, f):
                boom()
                return base
            node = base.std.FrameEval(f2, prop_src=[base])
        elif k in ('ModifyFrame', 'selector'):
            def f3(n, f):
                boom()
                return f.copy() if k == 'ModifyFrame' else f[0]
            node = base.std.ModifyFrame([base] if k == 'ModifyFrame' else [base, base], f3)
        elif k == 'evalnested':
            inner = frame_eval(fn)
            node = frame_eval(lambda n: frame_eval(lambda n: inner))
        elif k == 'evalcall':                               # the function calls a function of the core that fails in Python again
            fr = base.get_frame(0).copy()
            fr.props['f'] = lambda: (boom(), 3)[1]
            def f4(n):
                fr.props['f']()
                return base
            node = frame_eval(f4)
        elif k == 'evalget':                                # the error of a request made by the function is handled by it
            inner = frame_eval(fn)
            seen = []
            def f5(n, f):
                return f
            node = base.std.ModifyFrame([inner], f5)
        elif k == 'downstream':
            node = frame_eval(fn).std.Trim(first=0).std.Loop(3).std.FlipVertical()
        else:
            fr = base.get_frame(0).copy()
            fr.props['f'] = lambda **kw: (boom(), 3)[1]
            f = fr.props['f']
            if k == 'callfunc':                             # through another function held by the core
                fr.props['g'] = lambda f=f: f(a=[1, 2]) and 4
                f = fr.props['g']
        def ask():
            if w == 'call':
                try:
                    return None, f()
                except BaseException as e:
                    return e, None
            return self.ask(node, w), None
        e, _ = ask()
        check(e is not None, 'the exception was lost')
        self.judge(x, e, made, k)
        # what was asked for works once the function does
        armed[0] = False
        made.clear()
        e, r = ask()
        check(e is None, 'it still raises when the function no longer does: %r' % (e,))
        check(not made and (w != 'call' or r == (4 if k == 'callfunc' else 3)), 'wrong result after an exception')
        self.works()
        self.state(tuple(item))
        self.transitions += 2
    def judge(self, x, e, made, k):
        vs = self.vs
        if x in SAME:
            check(any(e is m for m in made), 'another exception was raised instead of the one of the function: %s %.300r' % (type(e).__name__, str(e) if x != 'nostr' else ''))
        else:
            check(type(e) is vs.Error, '%s was raised instead of Error' % type(e).__name__)
            check(NAMES[x] in str(e) or NAMES[x].encode('utf-8')[:3000].decode() in str(e), 'the text of the exception is missing: %.900r' % str(e)[-900:])
            if x in ('long', 'longchar'):
                check(len(str(e).encode()) > 3500, 'the text of the exception is missing: %.900r' % str(e)[-900:])
            check('VS_PY_EXC_ID' not in str(e), 'an internal marker is shown: %.100r' % str(e))

@case
class Outstanding(ErrCase):
    name, props = 'py_exceptions_outstanding', 'C32'
    bounds = 'every order in which up to 4 outstanding requests that fail with exceptions of their own (or succeed) complete, every way of asking; every number of uncollected exceptions around the limit; frames which need up to 256 others that all fail'
    def items(self, thorough):
        kinds = ['keyboard', 'value', 'ok', 'exit']
        n = 4 if thorough else 3
        for ks in itertools.product(kinds, repeat=n):
            for order in itertools.permutations(range(n)):
                yield ['order', list(ks), list(order)]
        for k in (0, 1, 2, 998, 999, 1000, 1001, 1500):
            yield ['lost', k]
        for k in (1, 2, 3, 5, 8, 16, 33, 64, 128, 256):
            for threads in (1, 2):
                for order in ('up', 'down'):
                    yield ['many', k, threads, order]
        for a in ('keyboard', 'exit', 'fcancelled'):
            for b in ('keyboard', 'exit', 'value'):
                yield ['inside', a, b]
    def run(self, item):
        vs = self.vs
        if item[0] == 'order':
            ks, order = item[1:]
            n = len(ks)
            self.core.num_threads = n + 1
            evs = [threading.Event() for _ in ks]
            made = {}
            def fn(i):
                def f(n):
                    evs[i].wait(LIMIT)
                    if ks[i] != 'ok':
                        made[i] = exceptions()[ks[i]]()
                        raise made[i]
                    return self.base
                return f
            clips = [self.base.std.FrameEval(fn(i)) for i in range(n)]
            futs = [c.get_frame_async(i % 3) for i, c in enumerate(clips)]
            for i in order:
                evs[i].set()
                try:
                    r = futs[i].result(LIMIT)
                    check(ks[i] == 'ok' and r.props['k'] == i % 3, 'request %d returned a frame' % i)
                except Fail:
                    raise
                except BaseException as e:
                    check(ks[i] != 'ok', 'request %d raised %r' % (i, e))
                    Exceptions.judge(self, ks[i], e, [made[i]], '')
                for j in range(n):
                    check(futs[j].done() == evs[j].is_set(), 'request %d was answered %s' % (j, 'early' if futs[j].done() else 'late'))
            self.core.num_threads = 2
        elif item[0] == 'many':                     # one frame that needs many which all fail: the consumer collects one
            _, k, threads, order = item
            made = []
            def mk(i):
                def f(n, f):
                    made.append(SystemExit(i))
                    raise made[-1]
                return self.base.std.ModifyFrame(self.base, f)
            clips = [mk(i) for i in range(k)]
            if order == 'down':
                clips.reverse()
            c = self.base.std.ModifyFrame(clips, lambda n, f: f[0] if isinstance(f, list) else f)
            self.core.num_threads = threads
            for w in self.VIDEO:
                del made[:]
                e = self.ask(c, w)
                check(any(e is m for m in made), 'of %d functions that fail for one frame none of the exceptions was raised but %r' % (k, e))
            self.core.num_threads = 2
        elif item[0] == 'lost':                     # functions whose exceptions nobody asks for
            fr = self.base.get_frame(0).copy()
            def boom():
                raise KeyboardInterrupt('uncollected')
            fr.props['f'] = boom
            f = fr.props['f']
            keep = None
            def last():
                nonlocal keep
                for _ in range(item[1]):            # collected by the text only: the caller in between swallows it
                    try:
                        f()
                    except BaseException:
                        pass
                keep = SystemExit(5)
                raise keep
            fr.props['g'] = last
            try:
                fr.props['g']()
                raise Fail('no exception')
            except Fail:
                raise
            except BaseException as e:
                check(e is keep, 'another exception: %r' % (e,))
        else:
            a, b = item[1:]
            made = []
            def inner(n):
                made.append(exceptions()[b]())
                raise made[-1]
            inn = self.base.std.FrameEval(inner)
            def outer(n):
                try:
                    inn.std.Trim(first=0)
                    g = self.base.get_frame(0).copy()
                    g.props['f'] = lambda: inner(0)
                    g.props['f']()
                except BaseException as e:
                    Exceptions.judge(self, b, e, made, '')
                    made.append(exceptions()[a]())
                    raise made[-1]
            for w in self.VIDEO:
                e = self.ask(self.base.std.FrameEval(outer), w)
                check(any(e is m for m in made if type(m) is type(exceptions()[a]())), 'the exception of the outer function was replaced by %r' % (e,))
        self.works()
        self.state(str(item)[:60])
        self.transitions += 1

@case
class Elsewhere(Case):
    name, props = 'py_exceptions_elsewhere', 'C32'
    bounds = 'every kind of exception raised by a function of one environment x every way of asking for it from that environment, another one (with and without an exception of its own outstanding) and none'
    def setup(self, vs):
        self.vs = vs
        self.P = make_policy(vs)
    def items(self, thorough):
        for x in ('keyboard', 'exit', 'value', 'surrogate', 'fcancelled'):
            for where in ('own', 'other', 'none'):
                for w in ('get', 'async', 'frames', 'func', 'output', 'create'):
                    for busy in (0, 1):
                        yield [x, where, w, busy]
    def run(self, item):
        vs = self.vs
        x, where, w, busy = item
        p = self.P()
        vs.register_policy(p)
        e1, e2 = p.api.create_environment(), p.api.create_environment()
        w1, w2 = p.api.wrap_environment(e1), p.api.wrap_environment(e2)
        import contextlib
        made, got = [], None
        try:
            with w2.use():
                c2 = vs.core.core
                b2 = c2.std.BlankClip(width=4, height=4, format=vs.GRAY8, length=2)
            with w1.use():
                c1 = vs.core.core
                b1 = c1.std.BlankClip(width=4, height=4, format=vs.GRAY8, length=2)
                def boom(n=0):
                    made.append(exceptions()[x]())
                    raise made[-1]
                node = b1.std.FrameEval(boom)
                fr = b1.get_frame(0).copy()
                fr.props['f'] = boom
                f = fr.props['f']
            if busy:                            # the other environment has an exception waiting for somebody
                with w2.use():
                    fr2 = b2.get_frame(0).copy()
                    ev, go = threading.Event(), threading.Event()
                    def boom2(n):
                        raise KeyboardInterrupt('of the other environment')
                    n2 = b2.std.FrameEval(boom2)
                    t = [n2.get_frame_async(0, lambda fr, er: (go.set(), ev.wait(LIMIT)))]
                    check(go.wait(LIMIT), 'a request was never answered')
            with {'own': w1.use, 'other': w2.use, 'none': contextlib.nullcontext}[where]():
                try:
                    if w == 'get':
                        node.get_frame(0)
                    elif w == 'async':
                        node.get_frame_async(0).result(LIMIT)
                    elif w == 'frames':
                        list(node.frames(prefetch=1))
                    elif w == 'output':
                        node.output(io.BytesIO())
                    elif w == 'func':
                        f()
                    else:
                        c1.std.LoadPlugin('/nonexistent')
                except BaseException as e:
                    got = e
            if busy:
                ev.set()
            check(got is not None, 'no exception')
            if w == 'create':
                check(type(got) is vs.Error and 'nonexistent' in str(got), 'raised %r' % (got,))
            else:
                Exceptions.judge(self, x, got, made, '')
        finally:
            got = None
            for e in (e1, e2):
                p.api.destroy_environment(e)
            p.api.unregister_policy()
        self.state(tuple(item))
        self.transitions += 1

@case
class Logs(ErrCase):
    name, props = 'py_log_messages', 'C32'
    bounds = 'every message of the alphabet x every level x every way a message is made, two handlers, one of them raising; handlers added and removed in between'
    def items(self, thorough):
        lv = [0, 1, 2, 3]
        for m in texts(False):
            for l in lv if len(m) < 100 else [1]:
                for how in ('plugin', 'python'):
                    yield [m.hex() if len(m) < 20000 else '*%d' % len(m), l, how]
    def run(self, item):
        vs = self.vs
        m = b'n' * int(item[0][1:]) if item[0][0] == '*' else bytes.fromhex(item[0])
        l, how = item[1:]
        a, b = [], []
        ha = self.core.add_log_handler(lambda t, s: a.append((t, s)))
        def hb(t, s):
            b.append((t, s))
        h2 = self.core.add_log_handler(hb)
        try:
            a.clear(), b.clear()
            if how == 'plugin':
                self.t.Log(l, m)
                want = m
            else:
                try:
                    want = m.decode('utf-8')
                except UnicodeDecodeError:
                    want = m.decode('utf-8', 'surrogateescape')
                    try:
                        self.core.log_message(l, want)
                    except (UnicodeEncodeError, vs.Error):
                        return                  # refused
                    want = m
                else:
                    self.core.log_message(l, want)
                    want = m
            for g in (a, b):
                check(len(g) == 1, 'a handler got %d messages' % len(g))
                check(g[0][0] == l, 'level %r instead of %r' % (g[0][0], l))
                check(carries(g[0][1], want, True), 'another text: %.200r' % (g[0][1],))
        finally:
            check(self.core.remove_log_handler(ha), 'a handler is not there')
            check(self.core.remove_log_handler(h2), 'a handler is not there')
        n = len(a)
        self.core.log_message(1, 'nobody')
        check(len(a) == n, 'a removed handler got a message')
        self.transitions += 2
        self.state((item[0][:8], l, how))

if __name__ == '__main__':
    main(os.path.abspath(__file__))
