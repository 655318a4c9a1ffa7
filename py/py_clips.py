#!/usr/bin/env python3
"""C29: clips as Python sequences, and writing them to files."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyseq import Case, case, check, Fail, main, load_testsrc, frame_bytes

BAD = object()

def tryit(f):
    try:
        return f(), None
    except Exception as e:
        return None, e

# ------------------------------------------------------------------ video clips as lists of frames
class Clips(Case):
    def setup(self, vs):
        self.vs = vs
        t = load_testsrc(vs.core)
        self.clips = {n: t.Video(format=int(vs.GRAY8), width=1, height=1, length=n) for n in range(1, 9)}
        self.other = t.Video(format=int(vs.GRAY8), width=1, height=1, length=2, seed=100)
        self.audio = vs.core.std.BlankAudio(length=10)
    def ids(self, clip):
        return [f[0][0, 0] for f in clip.frames(close=False)]
    def base(self, n, seed=0):
        return [(k * 41 + 1 + seed) & 255 for k in range(n)]
    def compare(self, clip, want, what):
        check(clip.num_frames == len(want) == len(clip), '%s has %d frames, expected %d' % (what, clip.num_frames, len(want)))
        got = [clip.get_frame(i)[0][0, 0] for i in range(clip.num_frames)]
        check(got == want, '%s has the frames %r, expected %r' % (what, got, want))

@case
class Slices(Clips):
    name, props = 'py_slices', 'C29'
    bounds = 'clips of 1..8 frames, every start and stop from -n-2 to n+2 or left out, steps -3..3 and around n'
    def items(self, thorough):
        for n in range(1, 9):
            pos = [None] + list(range(-n - 2, n + 3))
            for a in pos:
                for b in pos:
                    for s in sorted({None, 1, -1, 2, -2, 3, -3, n, -n, n + 1, 0}, key=lambda x: (x is None, x or 0)):
                        yield [n, a, b, s]
            for b in (2**31 - 1, 2**31, 2**63, 2**70, -2**31, -2**70):
                for a in (None, 0, -1):
                    yield [n, a, b, None]
                    yield [n, b, a, None]
                    yield [n, a, b, -1]
                    yield [n, b, a, -1]
    def run(self, item):
        n, a, b, s = item
        c = self.clips[n]
        if s == 0:
            r, e = tryit(lambda: c[a:b:s])
            check(isinstance(e, ValueError), 'a step of zero was accepted or raised %r' % (e,))
            return
        want = self.base(n)[a:b:s]
        r, e = tryit(lambda: c[a:b:s])
        if not want:
            check(e is not None, 'an empty slice gave a clip of %d frames' % (r.num_frames if r is not None else -1))
            return
        check(e is None, 'refused: %r' % (e,))
        self.compare(r, want, 'clip[%r:%r:%r]' % (a, b, s))
        self.state(repr(want))

@case
class Index(Clips):
    name, props = 'py_index', 'C29'
    bounds = 'clips of 1..6 frames and every index around them, wrong index types, iteration, repetition counts'
    def items(self, thorough):
        for n in range(1, 7):
            for i in list(range(-n - 3, n + 4)) + [2**31, 2**32, 2**32 + 1, -2**31, -2**32, 2**64, -2**64]:
                yield ['index', n, i]
            for b in ('f', 's', 'n', 't'):
                yield ['badindex', n, b]
            yield ['iter', n]
            for m in (-2**40, -1, 0, 1, 2, 3, True, False, 2**31, 2**40):
                yield ['mul', n, m]
                yield ['rmul', n, m]
            for m in ('f', 's', 'n', 'c'):
                yield ['badmul', n, m]
            for m in ('int', 'none', 'list', 'audio', 'str'):
                yield ['badadd', n, m]
            yield ['frames', n]
    def run(self, item):
        k, n = item[0], item[1]
        c = self.clips[n]
        want = self.base(n)
        if k == 'index':
            i = item[2]
            r, e = tryit(lambda: c[i])
            if -n <= i < n:
                check(e is None, 'refused: %r' % (e,))
                self.compare(r, [want[i]], 'clip[%d]' % i)
            else:
                check(isinstance(e, (IndexError, OverflowError)), 'clip[%d] of %d frames was accepted or raised %r' % (i, n, e))
        elif k == 'badindex':
            r, e = tryit(lambda: c[{'f': 1.0, 's': '1', 'n': None, 't': (0, 1)}[item[2]]])
            check(isinstance(e, TypeError), 'accepted or raised %r' % (e,))
        elif k == 'iter':
            l = list(c)
            check(len(l) == n, 'iteration gives %d clips' % len(l))
            for i, x in enumerate(l):
                self.compare(x, [want[i]], 'element %d' % i)
            self.compare(sum(l[1:], l[0]), want, 'the sum of all elements')
            check([x.get_frame(0)[0][0, 0] for x in reversed(c)] == want[::-1], 'reversed() gives other frames')
        elif k in ('mul', 'rmul'):
            m = item[2]
            r, e = tryit(lambda: c * m if k == 'mul' else m * c)
            if k == 'rmul' and isinstance(e, TypeError):
                return
            if m <= 0:
                check(isinstance(e, ValueError), 'clip * %r was accepted or raised %r' % (m, e))
            elif m * n >= 2**31:
                check(e is not None or r.num_frames == 2**31 - 1, 'clip * %r gave %d frames' % (m, r.num_frames if r is not None else 0))      # as long as a clip can be
            else:
                check(e is None, 'refused: %r' % (e,))
                self.compare(r, want * m, 'clip * %r' % m)
        elif k == 'badmul':
            r, e = tryit(lambda: c * {'f': 1.5, 's': 'x', 'n': None, 'c': c}[item[2]])
            check(isinstance(e, TypeError), 'accepted or raised %r' % (e,))
        elif k == 'badadd':
            r, e = tryit(lambda: c + {'int': 1, 'none': None, 'list': [c], 'audio': self.audio, 'str': 'x'}[item[2]])
            check(isinstance(e, (TypeError, NotImplementedError)), 'accepted or raised %r' % (e,))
        elif k == 'frames':
            check(self.ids(c) == want, 'frames() gives %r' % self.ids(c))

@case
class Algebra(Clips):
    name, props = 'py_clip_algebra', 'C29'
    bounds = 'all sequences of up to 4 (thorough 5) slices, indexes, sums and repetitions of a clip of 5 frames'
    OPS = [['s', 1, None, None], ['s', None, -1, None], ['s', None, None, 2], ['s', None, None, -1], ['s', 1, 4, None], ['s', -2, None, None], ['s', None, None, -2], ['s', 4, 0, -3], ['i', 0], ['i', -1], ['i', 2],
           ['+self'], ['+other'], ['other+'], ['*', 2], ['*', 3], ['+orig']]
    def items(self, thorough):
        for d in (1, 2, 3, 4, 5) if thorough else (1, 2, 3, 4):
            yield from itertools.product(self.OPS, repeat=d)
    def run(self, item):
        c, m = self.clips[5], self.base(5)
        for op in item:
            self.transitions += 1
            o = op[0]
            if o == 's':
                f = lambda x: x[op[1]:op[2]:op[3]]
            elif o == 'i':
                f = lambda x: x[op[1]] if not isinstance(x, list) else [x[op[1]]]
            elif o == '+self':
                f = lambda x: x + x
            elif o == '+other':
                f = lambda x: x + (self.other if not isinstance(x, list) else self.base(2, 100))
            elif o == 'other+':
                f = lambda x: (self.other if not isinstance(x, list) else self.base(2, 100)) + x
            elif o == '+orig':
                f = lambda x: x + (self.clips[5] if not isinstance(x, list) else self.base(5))
            else:
                f = lambda x: x * op[1]
            try:
                m2 = f(m)
            except IndexError:
                m2 = []
            r, e = tryit(lambda: f(c))
            if not m2:
                check(e is not None, 'an empty selection was accepted')
                return
            check(e is None, '%r refused: %r' % (op, e))
            c, m = r, m2
        self.compare(c, m, 'the result')
        self.state(repr(m))

# ------------------------------------------------------------------ audio clips as lists of samples
@case
class AudioSlices(Case):
    name, props = 'py_audio_slices', 'C29'
    bounds = 'lengths and positions around the frame size (3072), sums, repetitions and sequences of 3 (thorough 4) of these operations'
    def setup(self, vs):
        self.vs = vs
        self.t = load_testsrc(vs.core)
    def edges(self, n):
        return [None] + sorted({x for b in (0, 1, 3072, 3072 - n, n, -n, 6144 - n, -3072) for x in (b - 1, b, b + 1)})
    def items(self, thorough):
        for n in (1, 2, 3071, 3072, 3073, 6144, 6145) + (9216, 9217):
            for a in self.edges(n):
                for b in self.edges(n):
                    yield ['slice', n, a, b, None]
                    yield ['slice', n, a, b, -1]
            for s in (0, 2, -2, 3):
                yield ['slice', n, None, None, s]
            for i in (0, 1, n - 1, n, -1, -n, -n - 1, 3071, 3072, 2**40, -2**40):
                yield ['index', n, i]
            for m in (0, -1, 1, 2, 3):
                yield ['mul', n, m]
        ops = [['s', 1, None], ['s', None, -1], ['s', 3072, None], ['s', None, 3073], ['s', 3071, 3074], ['r'], ['+'], ['*'], ['+o']]
        for n in (3073, 6145):
            for s in itertools.product(ops, repeat=4 if thorough else 3):
                yield ['ops', n] + list(s)
    def data(self, clip):
        out = []
        for k in range(clip.num_frames):
            f = clip.get_frame(k)
            out += f[0].tolist()
            check(f[1].tolist() == [(x + 20011) & 65535 for x in f[0].tolist()], 'the channels of frame %d do not match' % k)
        return out
    def base(self, n, seed=0):
        return [(i * 3 + 1 + seed) & 65535 for i in range(n)]
    def compare(self, r, e, want, what):
        if not want:
            check(e is not None, '%s: an empty selection was accepted' % what)
            return
        check(e is None, '%s refused: %r' % (what, e))
        check(r.num_samples == len(want) == len(r) and r.num_frames == (len(want) + 3071) // 3072, '%s has %d samples in %d frames, expected %d' % (what, r.num_samples, r.num_frames, len(want)))
        got = self.data(r)
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Fail('%s: sample %d of %d is %r, expected %r' % (what, i, len(got), got[i:i + 3], want[i:i + 3]))
    def run(self, item):
        k, n = item[0], item[1]
        c = self.t.Audio(bits=16, sampletype=0, channels=[0, 1], length=n)
        m = self.base(n)
        if k == 'slice':
            _, _, a, b, s = item
            r, e = tryit(lambda: c[a:b:s])
            if s not in (None, 1, -1):
                check(isinstance(e, ValueError), 'a step of %r was accepted or raised %r' % (s, e))
                return
            self.compare(r, e, m[a:b:s], 'clip[%r:%r:%r]' % (a, b, s))
        elif k == 'index':
            i = item[2]
            r, e = tryit(lambda: c[i])
            if -n <= i < n:
                self.compare(r, e, [m[i]], 'clip[%d]' % i)
            else:
                check(isinstance(e, (IndexError, OverflowError)), 'clip[%d] was accepted or raised %r' % (i, e))
        elif k == 'mul':
            r, e = tryit(lambda: c * item[2])
            if item[2] <= 0:
                check(isinstance(e, ValueError), 'accepted or raised %r' % (e,))
            else:
                self.compare(r, e, m * item[2], 'clip * %d' % item[2])
        else:
            r, e = c, None
            o = self.t.Audio(bits=16, sampletype=0, channels=[0, 1], length=2, seed=900)
            for op in item[2:]:
                self.transitions += 1
                if op[0] == 's':
                    f = lambda x: x[op[1]:op[2]]
                elif op[0] == 'r':
                    f = lambda x: x[::-1]
                elif op[0] == '+':
                    f = lambda x: x + x
                elif op[0] == '*':
                    f = lambda x: x * 2
                else:
                    f = lambda x: x + (o if not isinstance(x, list) else self.base(2, 900))
                m = f(m)
                r, e = tryit(lambda: f(r))
                if not m or e is not None:
                    break
            self.compare(r, e, m, 'the result')
        self.state(repr(item[:2]) + str(len(m)))

# ------------------------------------------------------------------ writing to files
class Sink:
    """records what is written; may fail at the k-th call"""
    def __init__(self, fail=None, flush=True):
        self.data, self.calls, self.fail, self.flushed = [], 0, fail, 0
        if flush:
            self.flush = self._flush
    def write(self, b):
        self.calls += 1
        if self.fail is not None and self.calls > self.fail:
            raise OSError('disk full')
        self.data.append(bytes(b))
        return len(self.data[-1])
    def _flush(self):
        self.flushed += 1
    def all(self):
        return b''.join(self.data)

Y4M = {'GRAY8': 'mono', 'GRAY9': 'mono9', 'GRAY10': 'mono10', 'GRAY16': 'mono16', 'YUV420P8': '420', 'YUV420P10': '420p10', 'YUV422P8': '422', 'YUV422P16': '422p16', 'YUV444P8': '444', 'YUV444P12': '444p12',
       'YUV411P8': '411', 'YUV410P8': '410', 'YUV440P8': '440'}

@case
class VideoOutput(Case):
    name, props = 'py_video_output', 'C29'
    bounds = 'formats x widths 1..20,31..34 x containers, prefetch and backlog 1..4, alpha frames of every kind, failing frames, writes and progress functions at every position'
    FMT = list(Y4M) + ['RGB24', 'RGB48', 'RGBS', 'GRAYS', 'YUV444PS', 'YUV420P16', 'GRAY32']
    def setup(self, vs):
        self.vs = vs
        self.t = load_testsrc(vs.core)
    def items(self, thorough):
        for f in self.FMT:
            for w in list(range(1, 21)) + [31, 32, 33, 34, 64]:
                for h in (1, 4):
                    for y in (0, 1):
                        yield dict(f=f, w=w, h=h, n=2, y=y)
        for n in (1, 2, 3, 5):
            for y in (0, 1):
                for pre in (0, 1, 2, 3, 4):
                    for bl in (-1, 0, 1, 2, 5):
                        for prog in (0, 1):
                            for fl in (0, 1):
                                yield dict(f='GRAY8', w=5, h=2, n=n, y=y, pre=pre, bl=bl, prog=prog, flush=fl)
                for k in range(n):
                    for pre in (1, 2, 4):
                        yield dict(f='YUV420P8', w=6, h=2, n=n, y=y, pre=pre, bad=k)
                        yield dict(f='GRAY8', w=5, h=2, n=n, y=y, pre=pre, prog=2 + k)
                for k in range(n * 5 + 1):
                    for pre in (1, 3):
                        yield dict(f='YUV420P8', w=6, h=2, n=n, y=y, pre=pre, wfail=k)
        for f in ('GRAY8', 'YUV420P10', 'RGBS'):
            for w in (4, 5, 33):
                for kind in ('same', 'small', 'large', 'larger', 'float', 'rgb', 'int', 'str', 'clip', 'audio', 'two', 'partial'):
                    for y in (0, 1):
                        for pre in (1, 3):
                            yield dict(f=f, w=w & ~1 if 'YUV4' in f else w, h=4, n=2, y=y, alpha=kind, pre=pre)
        for k in ('none', 'int', 'path', 'nowrite', 'varsize', 'varformat', 'progint', 'stdout'):
            for y in (0, 1):
                yield dict(odd=k, y=y)
    def run(self, o):
        vs, t = self.vs, self.t
        c = vs.core
        y4m = bool(o['y'])
        if 'odd' in o:
            clip = t.Video(format=int(vs.GRAY8), width=5, height=2, length=2)
            kw = dict(y4m=y4m)
            k = o['odd']
            s = Sink()
            if k in ('varsize', 'varformat'):
                other = t.Video(format=int(vs.GRAY8 if k == 'varsize' else vs.GRAY16), width=7 if k == 'varsize' else 5, height=2, length=2)
                clip = c.std.Splice([clip, other], mismatch=True)
            f = {'none': None, 'int': 3, 'path': '/nonexistent/x', 'nowrite': object()}.get(k, s)
            if k == 'progint':
                kw['progress_update'] = 3
            if k == 'stdout':
                return
            r, e = tryit(lambda: clip.output(f, **kw))
            check(e is not None, 'accepted')
            check(s.all() == b'', 'something was written')
            return
        fmt = c.get_video_format(int(getattr(vs, o['f'])))
        w, h, n = o['w'], o['h'], o['n']
        if w % (1 << fmt.subsampling_w) or h % (1 << fmt.subsampling_h):
            return
        kw = dict(format=int(fmt), width=w, height=h, length=n)
        if 'bad' in o:
            kw.update(fail=[o['bad']], msg='broken frame')
        clip = t.Video(**kw)
        frames = [frame_bytes(fmt, w, h, k) for k in range(n)]
        extra = [b''] * n
        err = None
        if 'alpha' in o:
            k = o['alpha']
            al = dict(same=(o['f'] if fmt.num_planes == 1 else 'GRAY16', w, h), small=('GRAY8', 1, 1), large=('GRAY16', w + 3, h + 5), larger=('GRAYS', 3 * w + 1, 9 * h), float=('GRAYS', w, h), rgb=('RGB24', w + 1, h), partial=('GRAY16', 77, 31)).get(k)
            if al:
                af = c.get_video_format(int(getattr(vs, al[0])))
                a = t.Video(format=int(af), width=al[1], height=al[2], length=n, seed=9)
                aclip = c.std.ClipToProp(clip, a, prop='_Alpha')
                extra = [b''.join(frame_bytes(af, al[1], al[2], i, 9)) for i in range(n)]
                if k == 'partial':
                    aclip = clip[:1] + aclip[1:]
                    extra[0] = b''
                clip = aclip
            elif k == 'int':
                clip = clip.std.SetFrameProp('_Alpha', intval=1)
            elif k == 'str':
                clip = clip.std.SetFrameProp('_Alpha', data='x')
            elif k in ('clip', 'audio', 'two'):
                v = {'clip': clip, 'audio': c.std.BlankAudio(length=4).get_frame(0), 'two': [clip.get_frame(0), clip.get_frame(0)]}[k]
                clip = c.std.SetFrameProps(clip, _Alpha=v)
            if y4m or not al:
                err = 'alpha'
        head = b''
        if y4m:
            if o['f'] in Y4M:
                head = b'YUV4MPEG2 C%s W%d H%d F24:1 Ip A0:0 XLENGTH=%d\n' % (Y4M[o['f']].encode(), w, h, n)
            elif fmt.color_family == vs.RGB:
                head = None
            else:
                head = BAD                   # the container has no name for these; only the frames are checked
        s = Sink(o.get('wfail'), o.get('flush', 1))
        calls = []
        def prog(a, b):
            calls.append((a, b))
            if o.get('prog', 0) >= 2 and a == o['prog'] - 1:
                raise KeyError('progress')
        ok = dict(y4m=y4m)
        if 'pre' in o:
            ok['prefetch'] = o['pre']
        if 'bl' in o:
            ok['backlog'] = o['bl']
        if o.get('prog'):
            ok['progress_update'] = prog
        r, e = tryit(lambda: clip.output(s, **ok))
        got = s.all()
        if head is None:
            check(e is not None and got == b'', 'y4m output of this format was accepted')
            return
        if head is BAD:
            if e is not None:
                check(got == b'', 'refused after writing')
                return
            head = got[:got.index(b'\n') + 1]
        exp = [head] if head else []
        body = []
        for k in range(n):
            body.append((b'FRAME\n' if y4m else b'') + b''.join(frames[k]) + extra[k])
        full = b''.join(exp + body)
        if 'wfail' in o:
            if e is None:
                check(s.calls <= o['wfail'] and got == full, 'the failure to write was lost')
            else:
                check(isinstance(e, OSError), 'raised %r instead of the error of write' % (e,))
                check(full.startswith(got) and len(got) < len(full), 'something else was written before the failure')
        elif 'bad' in o:
            check(isinstance(e, vs.Error) and 'broken frame' in str(e), 'the failing frame raised %r' % (e,))
            check(got == b''.join(exp + body[:o['bad']]), 'before the failing frame %d bytes were written, expected %d' % (len(got), len(b''.join(exp + body[:o['bad']]))))
        elif o.get('prog', 0) >= 2:
            check(isinstance(e, KeyError), 'the exception of the progress function was lost: %r' % (e,))
            check(calls == [(i, n) for i in range(o['prog'])], 'progress calls %r' % calls)
            check(got == b''.join(exp + body[:o['prog'] - 1]), 'the wrong frames were written before it')
        elif err:
            check(e is not None, 'accepted and wrote %d bytes' % len(got))
            check(isinstance(e, (ValueError, TypeError, vs.Error)), 'raised %r' % (e,))
            check(full.startswith(got) or not y4m, 'something else was written before the error')
        else:
            check(e is None, 'failed: %r' % (e,))
            if got != full:
                i = next((i for i, (a, b) in enumerate(zip(got, full)) if a != b), min(len(got), len(full)))
                raise Fail('%d bytes were written, expected %d; the first difference is at %d' % (len(got), len(full), i))
            check(s.flushed == (1 if o.get('flush', 1) else 0), 'flushed %d times' % s.flushed)
            check(calls == ([(i, n) for i in range(n + 1)] if o.get('prog') else []), 'progress calls %r' % calls)
        # the clip is still usable
        if 'bad' not in o:
            check(b''.join(p.tobytes() for p in clip.get_frame(0)) == b''.join(frames[0]), 'the clip changed')
        self.state(repr((len(full), len(got))))

@case
class AudioOutput(Case):
    name, props = 'py_audio_output', 'C29'
    bounds = 'sample formats x layouts x lengths around the frame size x containers, prefetch and backlog, failing frames and writes'
    def setup(self, vs):
        self.vs = vs
        self.t = load_testsrc(vs.core)
    def items(self, thorough):
        for st, bits in ((0, 16), (0, 17), (0, 20), (0, 24), (0, 32), (1, 32)):
            for lay in ([2], [0, 1], [0, 1, 3], list(range(8)), [0, 33]):
                for n in (1, 2, 3071, 3072, 3073, 6149):
                    for cont in ('', 'wav', 'w64'):
                        yield dict(st=st, bits=bits, lay=lay, n=n, cont=cont)
        for pre in (0, 1, 2, 4):
            for bl in (-1, 0, 1, 3):
                for n in (3072, 9217):
                    for prog in (0, 1):
                        yield dict(st=0, bits=16, lay=[0, 1], n=n, cont='wav', pre=pre, bl=bl, prog=prog)
        for k in range(4):
            for cont in ('', 'wav', 'w64'):
                for pre in (1, 3):
                    yield dict(st=0, bits=16, lay=[0, 1], n=9217, cont=cont, bad=k, pre=pre)
                    yield dict(st=0, bits=16, lay=[0, 1], n=9217, cont=cont, wfail=k, pre=pre)
                    yield dict(st=0, bits=16, lay=[0, 1], n=9217, cont=cont, prog=2 + k, pre=pre)
        yield dict(st=0, bits=16, lay=[0, 1], n=5, cont='both')
        for huge in (2**29, 2**30, 2**30 - 100, 2**31 + 5):
            yield dict(st=0, bits=16, lay=[0, 1], n=huge, cont='wav', bad=0, huge=1)
            yield dict(st=0, bits=16, lay=[0, 1], n=huge, cont='w64', bad=0, huge=1)
    def run(self, o):
        vs = self.vs
        n, lay, bits, st, cont = o['n'], o['lay'], o['bits'], o['st'], o['cont']
        kw = dict(bits=bits, sampletype=st, channels=lay, length=n)
        if 'bad' in o:
            kw.update(fail=[o['bad']], msg='broken frame')
        clip = self.t.Audio(**kw)
        nc, ob = len(lay), (bits + 7) // 8
        mask = sum(1 << x for x in lay)
        nbytes = n * nc * ob
        pcm = struct.pack('<HHIIHHHHIIHH', 0xfffe, nc, 44100, 44100 * nc * ob, nc * ob, ob * 8, 22, bits, mask & 0xffffffff, 3 if st else 1, 0, 0x10) + b'\x80\0\0\xaa\0\x38\x9b\x71'
        head = b''
        if cont and mask >> 32:
            head = None                      # these headers have no bit for the channel
        elif cont == 'wav':
            head = None if nbytes + 60 > 0xffffffff else b'RIFF' + struct.pack('<I', nbytes + 60) + b'WAVEfmt ' + struct.pack('<I', 40) + pcm + b'data' + struct.pack('<I', nbytes)
        elif cont == 'w64':
            g = b'\xF3\xAC\xD3\x11\x8C\xD1\x00\xC0\x4F\x8E\xDB\x8A'
            head = b'riff\x2E\x91\xCF\x11\xA5\xD6\x28\xDB\x04\xC1\0\0' + struct.pack('<Q', nbytes + 128) + b'wave' + g + b'fmt ' + g + struct.pack('<Q', 64) + pcm + b'data' + g + struct.pack('<Q', nbytes + 24)
        def smp(i, c):
            v = i * 3 + c * 20011 + 1
            if ob == 2:
                return struct.pack('<H', v & 65535)
            if st:
                return struct.pack('<f', v)
            return struct.pack('<I', v << 8 & 0xffffffff)[4 - ob:]
        frames = []
        if 'huge' not in o:
            for k in range(0, n, 3072):
                frames.append(b''.join(smp(i, c) for i in range(k, min(n, k + 3072)) for c in range(nc)))
        nf = (n + 3071) // 3072
        s = Sink(o.get('wfail'))
        calls = []
        def prog(a, b):
            calls.append((a, b))
            if o.get('prog', 0) >= 2 and a == o['prog'] - 1:
                raise KeyError('progress')
        ok = dict(wav=cont in ('wav', 'both'), w64=cont in ('w64', 'both'))
        if 'pre' in o:
            ok['prefetch'] = o['pre']
        if 'bl' in o:
            ok['backlog'] = o['bl']
        if o.get('prog'):
            ok['progress_update'] = prog
        r, e = tryit(lambda: clip.output(s, **ok))
        got = s.all()
        if cont == 'both':
            check(isinstance(e, ValueError) and not got, 'two containers accepted')
            return
        if head is None:
            check(e is not None and 'broken frame' not in str(e) and not got, 'a file its header cannot describe was started: %r' % (e,))
            return
        exp = [head]
        full = b''.join(exp + frames)
        if 'wfail' in o:
            check(isinstance(e, OSError) if len(s.data) < len(frames) + (1 if head else 0) else e is None, 'raised %r' % (e,))
            check(full.startswith(got), 'something else was written before the failure')
        elif 'bad' in o and o['bad'] < nf:
            check(isinstance(e, vs.Error) and 'broken frame' in str(e), 'the failing frame raised %r' % (e,))
            check(got == b''.join(exp + frames[:o['bad']]), 'something else was written before the failing frame')
        elif o.get('prog', 0) >= 2:
            check(isinstance(e, KeyError), 'the exception of the progress function was lost: %r' % (e,))
            check(got == b''.join(exp + frames[:o['prog'] - 1]) or o['prog'] == 1, 'something else was written before')
        else:
            check(e is None, 'failed: %r' % (e,))
            if got != full:
                i = next((i for i, (a, b) in enumerate(zip(got, full)) if a != b), min(len(got), len(full)))
                raise Fail('%d bytes were written, expected %d; the first difference is at %d (header %d)' % (len(got), len(full), i, len(head)))
            check(s.flushed == 1, 'flushed %d times' % s.flushed)
            check(calls == ([(i, nf) for i in range(nf + 1)] if o.get('prog') else []), 'progress calls %r' % calls)
        self.state(repr((len(full), len(got))))

if __name__ == '__main__':
    main(os.path.abspath(__file__))
