#!/usr/bin/env python3
"""C28: values, frame properties and frame memory seen from Python."""
import ctypes, itertools, math, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyseq import Case, case, check, Fail, main, sequences

def same(a, b):
    """equal in value and type, recursively"""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
    return a == b

BAD = object()

class Val:
    """something assigned to a property and what must be read back (BAD: must be refused)"""
    def __init__(self, name, make, want):
        self.name, self.make, self.want = name, make, want

def flat(v):
    return v[0] if isinstance(v, list) and len(v) == 1 else v

# ------------------------------------------------------------------ FrameProps as a mapping
@case
class Props(Case):
    name, props = 'py_frame_props', 'C28'
    bounds = 'all sequences of 1..3 (on fewer operations 4) mapping operations on a frame and its copies, 2 keys, 22 values'
    def setup(self, vs):
        self.vs = vs
        c = vs.core
        self.base = c.std.BlankClip(width=2, height=2, format=vs.GRAY8, length=1, color=3)
        f0 = self.base.get_frame(0).copy()
        f0.props.clear()
        self.empty = f0
        sub = f0.copy()
        sub.props['inner'] = 77
        clip = self.base.std.SetFrameProp('mark', intval=5)
        self.vals = dict(
            i=(1, 1), neg=(-2**63, -2**63), big=(2**63 - 1, 2**63 - 1), t=(True, 1), f=(2.5, 2.5), z=(-0.0, -0.0), nan=(float('nan'), float('nan')),
            s=('h\u00e9', 'h\u00e9'), s0=('', ''), sn=('a\0b', 'a\0b'), b=(b'\xff\0x', b'\xff\0x'), b0=(b'', b''), ba=(bytearray(b'q'), b'q'),
            li=([1, 2, 3], [1, 2, 3]), l1=([7], 7), tu=((1.5, 2.5), [1.5, 2.5]), ls=(['a', 'b\0c'], ['a', 'b\0c']), en=(vs.GRAY, int(vs.GRAY)),
            mix=([1, 'a'], BAD), mix2=([1.0, 2], BAD), over=(2**63, BAD), part=([1, 2, 2**70], BAD), un=(object(), BAD), none=(None, BAD),
            li0=([], []), node=(clip, 'node'), frame=(sub, 'frame'), fn=(lambda: 41, 'func'), nodes=([clip, clip], 'nodes'), gen=('gen', [4, 5]))
    def value(self, k):
        v, w = self.vals[k]
        if k == 'gen':
            v = (x for x in (4, 5))
        if k == 'part':
            v = [1, 2, 2**70]
        return v, w
    def items(self, thorough):
        ks = ['i', 'f', 's', 'sn', 'b', 'li', 'l1', 'mix', 'part', 'li0', 'node', 'frame', 'fn']
        allk = ['i', 'neg', 'big', 't', 'f', 'z', 'nan', 's', 's0', 'sn', 'b', 'b0', 'ba', 'li', 'l1', 'tu', 'ls', 'en', 'mix', 'mix2', 'over', 'part', 'un', 'none', 'li0', 'node', 'frame', 'fn', 'nodes', 'gen']
        def ops(keys, vals):
            r = []
            for fr in (0, 1):
                for k in keys:
                    r += [['set', fr, k, v] for v in vals]
                    r += [['del', fr, k], ['pop', fr, k], ['popd', fr, k], ['setdefault', fr, k], ['getattr', fr, k], ['get', fr, k]]
                    r += [['setattr', fr, k, 'i'], ['delattr', fr, k]]
                r += [['popitem', fr], ['clear', fr], ['update', fr], ['assign', fr, 1 - fr], ['copy', fr]]
            return r
        for s in sequences(ops('ab', allk), 1):
            yield s
        for v in allk:
            for w in allk:
                yield [['set', 0, 'a', v], ['copy', 0], ['set', 0, 'a', w], ['get', 1, 'a']]
                yield [['set', 0, 'a', v], ['set', 0, 'b', w], ['popitem', 0], ['assign', 1, 0]]
        for s in sequences(ops('ab', ks), 2):
            yield s
        for s in itertools.product(ops('ab', ['i', 'ls', 'part', 'mix', 'fn', 's']), repeat=3):
            yield s
        for s in itertools.product(ops('a', ['i', 'part'] if thorough else ['part']), repeat=4):
            yield s
    def norm(self, v):
        """comparable form of a value read back"""
        vs = self.vs
        if isinstance(v, list):
            return [self.norm(x) for x in v]
        if isinstance(v, vs.VideoNode):
            with v.get_frame(0) as f:
                return ('node', f.props['mark'])
        if isinstance(v, vs.VideoFrame):
            return ('frame', v.props['inner'], v[0].tolist())
        if isinstance(v, vs.Func):
            return ('func', v())
        return v
    def want(self, w):
        return {'node': ('node', 5), 'frame': ('frame', 77, [[3, 3], [3, 3]]), 'func': ('func', 41), 'nodes': [('node', 5), ('node', 5)]}.get(w, w) if isinstance(w, str) and w in ('node', 'frame', 'func', 'nodes') else w
    def run(self, item):
        fr = [self.empty.copy(), self.empty.copy()]
        model = [{}, {}]
        for op in item:
            self.transitions += 1
            o, i = op[0], op[1]
            p, m = fr[i].props, model[i]
            k = op[2] if len(op) > 2 else None
            if o in ('set', 'setattr'):
                v, w = self.value(op[3])
                try:
                    if o == 'set':
                        p[k] = v
                    else:
                        setattr(p, k, v)
                    err = None
                except Exception as e:
                    err = e
                if w is BAD:
                    check(err is not None, 'assigning %s was accepted' % op[3])
                    if not (k in m and k in p):
                        m.pop(k, None)              # a refused assignment may or may not remove the old value, but leaves no part of the new one
                else:
                    check(err is None, 'assigning %s was refused: %r' % (op[3], err))
                    m.pop(k, None)
                    if w != []:
                        m[k] = self.want(w)
            elif o in ('del', 'delattr'):
                try:
                    if o == 'del':
                        del p[k]
                    else:
                        delattr(p, k)
                except (KeyError, AttributeError):
                    check(k not in m, 'deleting an existing key raised')
                m.pop(k, None)
            elif o == 'pop':
                try:
                    r = self.norm(p.pop(k))
                    check(k in m, 'pop of a missing key returned %r' % (r,))
                    check(same(r, m.pop(k)), 'pop returned %r' % (r,))
                except KeyError:
                    check(k not in m, 'pop of an existing key raised KeyError')
            elif o == 'popd':
                r = self.norm(p.pop(k, 'dflt'))
                check(same(r, m.pop(k, 'dflt')), 'pop with default returned %r' % (r,))
            elif o == 'setdefault':
                r = self.norm(p.setdefault(k, 9))
                check(same(r, m.setdefault(k, 9)), 'setdefault returned %r' % (r,))
            elif o == 'getattr':
                r = self.norm(getattr(p, k, 'dflt'))
                check(same(r, m.get(k, 'dflt')), 'attribute access gave %r' % (r,))
            elif o == 'get':
                r = self.norm(p.get(k, 'dflt'))
                check(same(r, m.get(k, 'dflt')), 'get gave %r' % (r,))
                try:
                    r = self.norm(p[k])
                    check(k in m and same(r, m[k]), 'read %r' % (r,))
                except KeyError:
                    check(k not in m, 'reading an existing key raised KeyError')
            elif o == 'popitem':
                try:
                    kk, v = p.popitem()
                    check(kk in m and same(self.norm(v), m.pop(kk)), 'popitem returned (%r, %r)' % (kk, v))
                except KeyError:
                    check(not m, 'popitem raised KeyError on a non-empty mapping')
            elif o == 'clear':
                p.clear()
                m.clear()
            elif o == 'update':
                p.update({'b': 3, 'c': 'x'}, a=[1, 2])
                m.update({'b': 3, 'c': 'x', 'a': [1, 2]})
            elif o == 'assign':
                fr[i].props = fr[op[2]].props
                model[i] = dict(model[op[2]])
            elif o == 'copy':
                fr[1 - i] = fr[i].copy()
                model[1 - i] = dict(m)
        for i in (0, 1):
            p, m = fr[i].props, model[i]
            d = {k: self.norm(v) for k, v in p.items()}
            check(list(d) == sorted(m) and all(same(d[k], m[k]) for k in m), 'frame %d has the properties %r, expected %r' % (i, d, m))
            check(len(p) == len(m) and sorted(p) == sorted(m) and sorted(p.keys()) == sorted(m) and len(list(p.values())) == len(m), 'frame %d: size or keys wrong' % i)
            for k in 'abcq':
                check((k in p) == (k in m), '%r in props is %r' % (k, k in p))
            check({k: self.norm(v) for k, v in p.copy().items()} == d or any(v != v for v in d.values()), 'copy() differs')
        self.state(repr(model))

# ------------------------------------------------------------------ read only frames
@case
class ReadOnly(Case):
    name, props = 'py_readonly_frames', 'C28'
    bounds = 'every way of changing a frame obtained from a clip, and every operation on a closed frame'
    def items(self, thorough):
        for kind in ('video', 'audio'):
            for op in ('set', 'del', 'setattr', 'delattr', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'assign', 'wptr', 'view', 'chunks', 'cast'):
                yield ['ro', kind, op]
            for w in (0, 1):
                for op in ('props', 'heldprops', 'heldset', 'heldlen', 'heldin', 'helditer', 'item', 'len', 'copy', 'rptr', 'wptr', 'stride', 'chunks', 'close', 'repr', 'with', 'closed', 'asprop', 'asprops', 'asarg', 'ascallarg', 'asresult', 'asmodify', 'inlist'):
                    yield ['closed', kind, w, op]
    def run(self, item):
        vs = self.vs
        c = vs.core
        clip = c.std.BlankClip(width=5, height=2, format=vs.GRAY8, length=1, color=3).std.SetFrameProp('x', intval=1) if item[1] == 'video' else c.std.BlankAudio(length=10)
        f = clip.get_frame(0)
        if item[0] == 'ro':
            before = dict(f.props), [bytes(f[0])]
            try:
                p = f.props
                op = item[2]
                if op == 'set': p['x'] = 2
                elif op == 'del': del p['x']
                elif op == 'setattr': p.x = 2
                elif op == 'delattr': del p.x
                elif op == 'pop': p.pop('x')
                elif op == 'popitem': p.popitem()
                elif op == 'clear': p.clear()
                elif op == 'update': p.update(x=3)
                elif op == 'setdefault': p.setdefault('newkey', 3)
                elif op == 'assign': f.props = {'y': 1}
                elif op == 'wptr': f.get_write_ptr(0)
                elif op == 'view': f[0][(0, 0) if item[1] == 'video' else 0] = 9
                elif op == 'chunks':
                    if item[1] == 'audio':
                        raise Fail
                    next(iter(f.readchunks()))[0, 0] = 9
                elif op == 'cast':
                    f[0].cast('B')[0] = 9
                changed = True
            except Exception:
                changed = False
            check(f.readonly, 'a frame of a clip is not read only')
            if changed and before == (dict(f.props), [bytes(f[0])]) and item[1] == 'audio':
                return                       # nothing there to change
            check(not changed, '%s on a read only frame did not raise' % item[2])
            check(before == (dict(f.props), [bytes(f[0])]), 'a read only frame was changed')
            with clip.get_frame(0) as g:
                check(before == (dict(g.props), [bytes(g[0])]), 'a read only frame was changed')
            return
        if item[2]:
            f = f.copy()
        view = f[0]
        data = bytes(view)
        p = f.props
        f.close()
        op = item[3]
        check(f.closed, 'closed is False after close')
        check(bytes(view) == data, 'the content of a view changed when its frame was closed')
        if op in ('close', 'repr', 'closed'):
            {'close': f.close, 'repr': lambda: repr(f), 'closed': lambda: f.closed}[op]()
            return
        if op == 'with':
            with f:
                pass
            return
        calls = dict(props=lambda: f.props, heldprops=lambda: p['x'], heldset=lambda: p.__setitem__('x', 1), heldlen=lambda: len(p), heldin=lambda: 'x' in p, helditer=lambda: list(p),
                     item=lambda: f[0], len=lambda: len(f), copy=lambda: f.copy(), rptr=lambda: f.get_read_ptr(0), wptr=lambda: f.get_write_ptr(0), stride=lambda: f.get_stride(0),
                     chunks=lambda: list(f.readchunks()))
        g = c.std.BlankClip(width=5, height=2, format=vs.GRAY8, length=1).get_frame(0).copy()
        g.props['f'] = lambda **kw: f if not kw else 1
        def bad(n, f):
            f.close()
            return f
        blank = c.std.BlankClip(width=5, height=2, format=vs.GRAY8, length=1)
        calls.update(asprop=lambda: g.props.__setitem__('v', f), asprops=lambda: c.std.SetFrameProps(blank, v=f), asarg=lambda: c.std.SetFrameProps(blank, v=[g, f]),
                     ascallarg=lambda: g.props['f'](v=f), asresult=lambda: g.props['f'](), asmodify=lambda: blank.std.ModifyFrame(blank, bad).get_frame(0), inlist=lambda: g.props.__setitem__('v', [g, f]))
        try:
            calls[op]()
        except (RuntimeError, vs.Error, AttributeError):
            check('v' not in g.props, 'a refused assignment left a value')
            return
        raise Fail('%s on a closed frame did not raise' % op)

# ------------------------------------------------------------------ plane memory
@case
class Views(Case):
    name, props = 'py_plane_views', 'C28'
    bounds = 'formats x widths 1..18,31..33,64 x heights 1..3: shape, strides, item format, every sample of every plane, chunks, index errors'
    FMT = ['GRAY8', 'GRAY9', 'GRAY16', 'GRAY32', 'GRAYH', 'GRAYS', 'YUV420P8', 'YUV422P10', 'YUV444P16', 'YUV411P8', 'YUV440P8', 'YUV410P8', 'YUV444PS', 'YUV444PH', 'RGB24', 'RGB30', 'RGBS', 'RGBH']
    def items(self, thorough):
        for f in self.FMT:
            for w in list(range(1, 19)) + [31, 32, 33, 64]:
                for h in (1, 2, 3, 4, 8):
                    yield [f, w, h]
    def run(self, item):
        vs = self.vs
        fmt, w, h = item
        f = vs.core.get_video_format(getattr(vs, fmt))
        ssw, ssh = f.subsampling_w, f.subsampling_h
        if w % (1 << ssw) or h % (1 << ssh):
            return
        fr = vs.core.create_video_frame(int(f), w, h)
        check(len(fr) == f.num_planes and fr.width == w and fr.height == h and fr.format == f and not fr.readonly, 'frame description wrong')
        code = {(0, 1): 'B', (0, 2): 'H', (0, 4): 'I', (1, 2): 'e', (1, 4): 'f'}[(int(f.sample_type), f.bytes_per_sample)]
        conv = float if f.sample_type == vs.FLOAT else int
        mod = 251 if code in 'Be' else 60000
        val = lambda p, y, x: conv((p * 83 + y * 29 + x * 7 + 1) % mod)
        for p in range(f.num_planes):
            pw, ph = (w >> ssw, h >> ssh) if p else (w, h)
            v = fr[p]
            check(v.shape == (ph, pw) and v.itemsize == f.bytes_per_sample and v.format == code and not v.readonly, 'plane %d: view has shape %r, format %r' % (p, v.shape, v.format))
            check(v.strides == (fr.get_stride(p), f.bytes_per_sample), 'plane %d: strides %r' % (p, v.strides))
            for y in range(ph):
                for x in range(pw):
                    v[y, x] = val(p, y, x)
        raw = b''
        for p in range(f.num_planes):
            pw, ph = (w >> ssw, h >> ssh) if p else (w, h)
            exp = [[val(p, y, x) for x in range(pw)] for y in range(ph)]
            for idx in (p, p - f.num_planes):
                check(fr[idx].tolist() == exp, 'plane %d reads %r, expected %r' % (idx, fr[idx].tolist(), exp))
            raw += fr[p].tobytes()
            a = fr.get_read_ptr(p).value
            st = fr.get_stride(p)
            got = b''.join(ctypes.string_at(a + st * y, pw * f.bytes_per_sample) for y in range(ph))
            check(got == fr[p].tobytes(), 'plane %d: read pointer and view disagree' % p)
        check(b''.join(c.tobytes() for c in fr.readchunks()) == raw, 'readchunks differs from the planes')
        cp = fr.copy()
        check(b''.join(c.tobytes() for c in cp.readchunks()) == raw, 'readchunks of a copy differs from the planes')
        keep = list(cp.readchunks())
        cp.close()
        del cp
        check(b''.join(c.tobytes() for c in keep) == raw, 'chunks changed after their frame was closed')
        for bad in (f.num_planes, -f.num_planes - 1, 99):
            try:
                fr[bad]
                raise Fail('plane index %d accepted' % bad)
            except IndexError:
                pass
        for bad in (f.num_planes, 99):
            for g in (fr.get_read_ptr, fr.get_write_ptr, fr.get_stride):
                try:
                    g(bad)
                    raise Fail('plane index %d accepted by %s' % (bad, g.__name__))
                except IndexError:
                    pass
        for bad in (1.0, '0', slice(0, 1), None):
            try:
                fr[bad]
                raise Fail('plane index %r accepted' % (bad,))
            except TypeError:
                pass
        self.state(repr(item))

@case
class AudioViews(Case):
    name, props = 'py_channel_views', 'C28'
    bounds = 'audio formats x layouts x lengths at frame boundaries: every channel view'
    def items(self, thorough):
        for st, bits in ((0, 16), (0, 24), (0, 32), (1, 32)):
            for lay in ([0], [0, 1], [0, 1, 2, 3, 4, 5], [33, 2]):
                for n in (1, 2, 3071, 3072, 3073, 6145):
                    yield [st, bits, lay, n]
    def run(self, item):
        vs = self.vs
        st, bits, lay, n = item
        clip = vs.core.std.BlankAudio(channels=lay, bits=bits, sampletype=st, length=n)
        total = 0
        for k in range(clip.num_frames):
            f = clip.get_frame(k)
            want = min(3072, n - k * 3072)
            code = 'f' if st else ('H' if bits == 16 else 'I')
            check(len(f) == len(lay) and f.num_channels == len(lay) and f.bits_per_sample == bits, 'frame description wrong')
            check(sorted(int(x) for x in f.channels) == sorted(lay), 'channels %r' % (list(f.channels),))
            for c in range(-len(lay), len(lay)):
                v = f[c]
                check(v.shape == (want,) and v.format == code and v.readonly and not any(bytes(v)), 'channel %d: view %r %r' % (c, v.shape, v.format))
            for bad in (len(lay), -len(lay) - 1):
                try:
                    f[bad]
                    raise Fail('channel index %d accepted' % bad)
                except IndexError:
                    pass
            g = f.copy()
            for c in range(len(lay)):
                g[c][want - 1] = 7 + c
                g[c][0] = 9 + c
            for c in range(len(lay)):
                check(f[c][0] == 0 and f[c][want - 1] == 0, 'writing to a copy changed the original')
                check(g[c][0] == 9 + c and (want == 1 or g[c][want - 1] == 7 + c), 'channel %d does not hold what was written' % c)
            total += want
        check(total == clip.num_samples == n, 'frames hold %d samples' % total)

@case
class Isolation(Case):
    name, props = 'py_frame_isolation', 'C28'
    bounds = 'all sequences of 5..7 (thorough 8) operations: copies, writes through fresh and kept views and pointers, reads, closing; 3 frame slots, 2 planes, video and audio'
    def setup(self, vs):
        self.vs = vs
        self.v = vs.core.std.BlankClip(width=2, height=1, format=vs.RGB24, length=1, color=[1, 1, 1])
        self.a = vs.core.std.BlankAudio(length=2, channels=[0, 1], bits=16)
    def items(self, thorough):
        ops = [['copy', 0, 1], ['copy', 1, 2], ['copy', 1, 0], ['copy', 0, 2]]
        for i in (0, 1):
            ops += [['write', i, 0], ['keep', i, 0], ['kept', i, 0], ['ptr', i, 0], ['read', i, 0]]
        ops += [['write', 0, 1], ['write', 2, 0], ['close', 0], ['close', 1], ['prop', 0], ['prop', 1]]
        first = [o for o in ops if o[0] not in ('kept', 'close', 'read') and o[1] == 0]
        for o in first:
            for s in itertools.product(ops, repeat=4):
                yield ['video', o] + list(s)
        if thorough:
            tiny = [o for o in ops if o[0] in ('copy', 'write', 'keep', 'kept', 'ptr') and 2 not in o[1:] and o != ['write', 0, 1]]
            for s in itertools.product(tiny, repeat=6):
                yield ['video', ['copy', 0, 1]] + list(s)
        small = [['copy', 0, 1], ['copy', 1, 0], ['write', 0, 0], ['write', 1, 1], ['write', 0, 1], ['keep', 0, 0], ['kept', 0, 0], ['ptr', 0, 0], ['read', 1, 0], ['close', 0], ['close', 1], ['ptr', 1, 0]]
        for o in small:
            if o[1] == 0 and o[0] not in ('kept', 'close'):
                for s in itertools.product(small, repeat=5 if thorough else 4):
                    yield ['audio', o] + list(s)
        for s in itertools.product([['copy', 0, 1], ['copy', 1, 0], ['write', 0, 0], ['write', 1, 0], ['keep', 0, 0], ['kept', 0, 0], ['ptr', 0, 0], ['close', 1]], repeat=7 if thorough else 6):
            yield ['video'] + [['copy', 0, 0]] + list(s)
    def run(self, item):
        vid = item[0] == 'video'
        src = (self.v if vid else self.a).get_frame(0)
        np = 2
        at = (lambda x: (0, x)) if vid else (lambda x: x)
        fr = [src.copy(), None, None]
        mod = [[[1, 1], [1, 1]] if vid else [[0, 0], [0, 0]], None, None]
        base = [list(x) for x in mod[0]]
        views = {}
        n = 10
        for op in item[1:]:
            self.transitions += 1
            n += 1
            o, i = op[0], op[1]
            if fr[i] is None:
                continue
            if o == 'copy':
                g = fr[i].copy()
                fr[op[2]] = g
                mod[op[2]] = [list(x) for x in mod[i][:np]] + mod[i][np:]
                for k in [k for k in views if k[0] == op[2]]:
                    views[k][1] = False                  # belongs to a frame that is gone
            elif o == 'write':
                fr[i][op[2]][at(0)] = n
                mod[i][op[2]][0] = n
            elif o == 'keep':
                views[(i, op[2])] = [fr[i][op[2]], True]
            elif o == 'kept':
                v = views.get((i, op[2]))
                if v:
                    v[0][at(1)] = n
                    if v[1]:
                        mod[i][op[2]][1] = n
            elif o == 'ptr':
                es = 1 if vid else 2
                p = fr[i].get_write_ptr(op[2]).value
                ctypes.memmove(p, n.to_bytes(es, 'little'), es)
                mod[i][op[2]][0] = n
            elif o == 'read':
                got = fr[i][op[2]].tolist()
                got = got[0] if vid else got
                check(got == mod[i][op[2]], 'frame %d plane %d reads %r, expected %r' % (i, op[2], got, mod[i][op[2]]))
            elif o == 'prop':
                fr[i].props['p'] = n
                mod[i] = mod[i][:np] + [n]
            elif o == 'close':
                fr[i].close()
                fr[i] = mod[i] = None
                for k in [k for k in views if k[0] == i]:
                    views[k][1] = False
        for i in range(3):
            if fr[i] is None:
                continue
            for p in range(np):
                es = 1 if vid else 2
                a = fr[i].get_read_ptr(p).value
                raw = ctypes.string_at(a, 2 * es)
                got = [int.from_bytes(raw[k * es:k * es + es], 'little') for k in range(2)]
                check(got == mod[i][p], 'frame %d plane %d holds %r, expected %r' % (i, p, got, mod[i][p]))
            if vid:
                check(fr[i].props.get('p') == (mod[i][np] if len(mod[i]) > np else None), 'frame %d property is %r' % (i, fr[i].props.get('p')))
        for k, v in views.items():
            if v[1]:
                got = v[0].tolist()
                got = got[0] if vid else got
                check(got == mod[k[0]][k[1]], 'a kept view of frame %d plane %d reads %r, expected %r' % (k[0], k[1], got, mod[k[0]][k[1]]))
        got = src[0].tolist()
        check((got[0] if vid else got) == base[0], 'the source frame was changed')
        self.state(repr(mod))

# ------------------------------------------------------------------ arguments and results of functions
@case
class Callbacks(Case):
    name, props = 'py_callback_values', 'C28'
    bounds = 'every list of up to 3 values of every type passed to a Python function held by the core, and returned from it'
    def setup(self, vs):
        self.vs = vs
        f = vs.core.std.BlankClip(width=2, height=2, format=vs.GRAY8, length=1).get_frame(0).copy()
        self.seen = None
        def echo(**kw):
            self.seen = kw
            return dict(kw)
        def give():
            return self.ret
        f.props['echo'] = echo
        f.props['give'] = give
        self.echo, self.give = f.props['echo'], f.props['give']
        self.keep = f
        self.vals = dict(i=[0, 1, -1, 2**63 - 1, -2**63], f=[0.0, -0.0, 1e300, float('inf'), 2.0], s=['', 'x', 'a\0b', '\u20ac'], b=[b'', b'\0', b'\xff\xfe', bytearray(b'\xfex')])
    def items(self, thorough):
        alpha = [(t, k) for t in 'ifsb' for k in range(5 if t in 'if' else 4)]
        for n in (1, 2):
            for combo in itertools.product(alpha, repeat=n):
                yield ['list', [list(c) for c in combo]]
        for t in 'ifsb':
            for combo in itertools.product([a for a in alpha if a[0] == t], repeat=3):
                yield ['list', [list(c) for c in combo]]
            for u in 'ifsb':
                for v in 'ifsb':
                    yield ['list', [[t, 0], [u, 1], [v, 2]]]
        for r in ('none', 'int', 'float', 'str', 'bytes', 'list', 'empty', 'emptydict', 'two', 'raise', 'raisebase', 'unsupported', 'mixed', 'nested', 'bool', 'badkey'):
            yield ['ret', r]
    def run(self, item):
        vs = self.vs
        if item[0] == 'list':
            v = [self.vals[t][k] for t, k in item[1]]
            ok = len({'b' if t == 's' else t for t, _ in item[1]}) == 1        # text and bytes are both data
            for arg in ((v, tuple(v)) + ((v[0],) if len(v) == 1 else ())):
                self.seen = None
                try:
                    r = self.echo(a=arg, b=5)
                    err = None
                except Exception as e:
                    err = e
                if not ok:
                    check(err is not None and self.seen is None, 'a list of mixed types was accepted')
                    continue
                check(err is None, 'refused: %r' % (err,))
                v = [bytes(x) if isinstance(x, bytearray) else x for x in v]
                check(same(self.seen['a'], flat(v)) and self.seen['b'] == 5 and len(self.seen) == 2, 'the function received %r, expected %r' % (self.seen, flat(v)))
                check(sorted(r) == ['a', 'b'] and same(r['a'], flat(v)) and r['b'] == 5, 'the caller got %r back, expected %r' % (r, flat(v)))
            return
        k = item[1]
        class Boom(Exception):
            pass
        f = self.keep
        if k in ('raise', 'raisebase'):
            def bad():
                raise (Boom('boom \u20ac') if k == 'raise' else KeyboardInterrupt('stop'))
            f.props['bad'] = bad
            try:
                f.props['bad']()
            except vs.Error as e:
                check(k == 'raise' and 'boom \u20ac' in str(e), 'error text %r' % (str(e),))
            except KeyboardInterrupt:
                check(k == 'raisebase', 'wrong exception')
            else:
                raise Fail('an exception in the function was lost')
            return
        ret, want = dict(none=(None, 0), int=(7, 7), float=(2.5, 2.5), str=('t', 't'), bytes=(b'\0t', b'\0t'), list=([1, 2], [1, 2]), empty=([], None), emptydict=({}, None), two=({'x': 1, 'y': [2.5, 3.5]}, {'x': 1, 'y': [2.5, 3.5]}),
                         unsupported=(object(), BAD), mixed=([1, 'a'], BAD), nested=([[1]], BAD), bool=(True, 1), badkey=({'a b': 1}, BAD))[k]
        self.ret = ret
        try:
            r = self.give()
            err = None
        except vs.Error as e:
            err = e
        if want is BAD:
            check(err is not None, 'the result %r was accepted as %r' % (ret, r if err is None else None))
        else:
            check(err is None and (same(r, want) if not isinstance(want, dict) else sorted(r) == sorted(want) and all(same(r[x], want[x]) for x in want)), 'the caller got %r (%r), expected %r' % (r if err is None else None, err, want))

@case
class Arguments(Case):
    name, props = 'py_arguments', 'C28'
    bounds = 'every way of passing the arguments of built-in functions by position and by name, omitted, None, misspelled, surplus or of the wrong type'
    def setup(self, vs):
        self.vs = vs
        c = vs.core
        self.clip = c.std.BlankClip(width=4, height=2, format=vs.GRAY8, length=9)
        self.other = c.std.BlankClip(width=4, height=2, format=vs.GRAY8, length=9, color=9)
    def items(self, thorough):
        # Trim(clip, first:int:opt, last:int:opt, length:int:opt)
        for inj in (0, 1):
            for first in ('pos', 'kw', 'kw_', 'no', 'none', 'posnone'):
                for last in ('pos', 'kw', 'kw_', 'no', 'none'):
                    for extra in ('', 'unknown', 'surplus', 'dup'):
                        yield ['trim', inj, first, last, extra]
        for fn, key, types in (('SetFrameProp', 'intval', 'int'), ('SetFrameProp', 'floatval', 'float'), ('SetFrameProp', 'data', 'data')):
            for v in ('i', 'f', 's', 'b', 'li', 'lf', 'ls', 'l0', 't', 'clip', 'fn', 'bool', 'enum', 'bigint', 'mixed', 'ba', 'bt', 'lb', 's0', 'b0', 'ba0'):
                yield ['set', key, v]
        for v in ('i', 'f', 's', 'b', 'li', 'lf', 'ls', 'clip', 'frame', 'fn', 'bool', 'none', 'obj', 'mixed', 'two', 'clips', 'badkey', 'ba', 'bt', 'lb', 's0', 'b0', 'ba0'):
            yield ['any', v]
        for v in ('clip', 'list', 'tuple', 'one', 'str', 'frame', 'audio', 'mixed', 'empty'):
            yield ['nodes', v]
    def run(self, item):
        vs = self.vs
        c = vs.core
        k = item[0]
        if k == 'trim':
            _, inj, first, last, extra = item
            args, kw = [], {}
            if not inj:
                args.append(self.clip)
            want = [None, None]
            ok = True
            if first == 'pos': args.append(2); want[0] = 2
            elif first == 'posnone': args.append(None)
            elif first == 'kw': kw['first'] = 2; want[0] = 2
            elif first == 'kw_': kw['first_'] = 2; want[0] = 2
            elif first == 'none': kw['first'] = None
            if last == 'pos':
                if first == 'no':
                    want[0] = 6
                    args.append(6)
                else:
                    args.append(6); want[1] = 6
            elif last == 'kw': kw['last'] = 6; want[1] = 6
            elif last == 'kw_': kw['last_'] = 6; want[1] = 6
            elif last == 'none': kw['last'] = None
            if extra == 'unknown': kw['lst'] = 1; ok = False
            elif extra == 'surplus': args += [None] * (6 - len(args)); ok = False
            elif extra == 'dup': kw['clip'] = self.clip; ok = False
            if extra == 'dup' and inj:
                ok = None                    # the injected clip then takes the next name
            f = self.clip.std.Trim if inj else c.std.Trim
            try:
                r = f(*args, **kw)
                err = None
            except Exception as e:
                err = e
            if ok is None or (extra == 'dup'):
                check(err is not None, 'giving the clip twice was accepted')
                return
            if not ok:
                check(isinstance(err, vs.Error), 'accepted or raised %r' % (err,))
                return
            check(err is None, 'refused: %r' % (err,))
            lo, hi = want[0] or 0, 8 if want[1] is None else want[1]
            check(r.num_frames == hi - lo + 1, 'Trim returned %d frames, expected %d' % (r.num_frames, hi - lo + 1))
            return
        if k == 'nodes':
            v = dict(clip=self.clip, list=[self.clip, self.other], tuple=(self.clip, self.other), one=[self.clip], str='x', frame=self.clip.get_frame(0), audio=c.std.BlankAudio(), mixed=[self.clip, 1], empty=[])[item[1]]
            try:
                r = c.std.Splice(v)
                err = None
            except Exception as e:
                err = e
            if item[1] in ('clip', 'list', 'tuple', 'one'):
                check(err is None and r.num_frames == (18 if item[1] in ('list', 'tuple') else 9), 'refused or wrong: %r' % (err,))
                if item[1] in ('list', 'tuple'):
                    check(r.get_frame(0)[0][0, 0] == 0 and r.get_frame(9)[0][0, 0] == 9, 'clips arrived in the wrong order')
            else:
                check(err is not None, 'accepted')
            return
        vals = dict(ba=bytearray(b'\xff\0'), bt=bytearray(b'text'), lb=['p', b'q', bytearray(b'r'), b'\xfe'], s0='', b0=b'', ba0=bytearray(), i=3, f=2.0, s='x\0y', b=b'\xff\0', li=[1, 2, -3], lf=[1.5, 2.5], ls=['p', 'q\0r'], l0=[], t=(4, 5), clip=self.clip, fn=lambda: 1, bool=True, enum=vs.GRAY, bigint=2**64, mixed=[1, 'a'], none=None, obj=object(), frame=self.clip.get_frame(0), two=[1], clips=[self.clip, self.other], badkey=1)
        v = vals[item[-1]]
        if k == 'set':
            key = item[1]
            good = {'intval': dict(i=3, li=[1, 2, -3], t=[4, 5], bool=1, enum=int(vs.GRAY)),
                    'floatval': dict(f=2.0, lf=[1.5, 2.5], i=3.0, li=[1.0, 2.0, -3.0], t=[4.0, 5.0]),
                    'data': dict(s='x\0y', b=b'\xff\0', ls=['p', 'q\0r'], ba=b'\xff\0', bt=b'text', lb=['p', b'q', b'r', b'\xfe'], s0='', b0=b'', ba0=b'')}[key]
            bad = {'intval': ('s', 'ls', 'clip', 'fn', 'bigint', 'mixed'), 'floatval': ('s', 'ls', 'clip', 'fn', 'mixed'), 'data': ()}[key]
            try:
                with self.clip.std.SetFrameProp(prop='q', **{key: v}).get_frame(0) as f:
                    r = f.props['q'] if 'q' in f.props else []
                err = None
            except Exception as e:
                err = e
            if item[2] in good:
                check(err is None and same(r, good[item[2]]), 'the frame has %r (%r), expected %r' % (r if err is None else None, err, good[item[2]]))
            elif item[2] in bad:
                check(err is not None, 'accepted')
            return
        good = dict(ba=b'\xff\0', bt=b'text', lb=['p', b'q', b'r', b'\xfe'], s0='', b0=b'', ba0=b'', i=3, f=2.0, s='x\0y', b=b'\xff\0', li=[1, 2, -3], lf=[1.5, 2.5], ls=['p', 'q\0r'], bool=1, two=1)
        try:
            with c.std.SetFrameProps(self.clip, **{('a b' if item[1] == 'badkey' else 'q'): v}).get_frame(0) as f:
                r = f.props['q']
            err = None
        except Exception as e:
            err = e
        if item[1] in good:
            check(err is None and same(r, good[item[1]]), 'the frame has %r (%r), expected %r' % (r if err is None else None, err, good[item[1]]))
        elif item[1] in ('obj', 'mixed', 'badkey', 'none'):
            check(err is not None, 'accepted')

if __name__ == '__main__':
    main(os.path.abspath(__file__))
