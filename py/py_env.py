#!/usr/bin/env python3
"""C30: environments of the Python module."""
import itertools, os, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyseq import Case, case, check, Fail, main, load_testsrc, make_policy

class EnvCase(Case):
    def setup(self, vs):
        self.vs = vs
        self.P = make_policy(vs)
    def begin(self):
        check(not self.vs.has_policy(), 'a policy is still registered')
        p = self.P()
        self.vs.register_policy(p)
        return p

def outcome(f):
    """runs f; None if it raised one of the exceptions that mean 'gone', else its result"""
    try:
        return 'ok', f()
    except (RuntimeError, AttributeError, ValueError, IndexError, KeyError, TypeError) as e:
        return 'raised', e
    except Exception as e:
        if type(e).__name__ == 'Error':
            return 'raised', e
        raise

# ------------------------------------------------------------------ everything that can be held across the end of an environment
OBJECTS = 'core proxy timings plugins_it functions_it plugin bound function boundfn node audio mode_node frame wframe view props chunks fmt loghandle gen gen2 func outputs wrapper local fut envdata channel'.split()

@case
class AfterDestroy(EnvCase):
    name, props = 'py_after_destroy', 'C30'
    bounds = 'every way an environment ends x every operation on every kind of object made in it, used afterwards outside and inside another environment'
    ENDS = ['destroy', 'inside', 'other', 'callback', 'unregister', 'generator', 'pending', 'twice', 'failing_callback']
    USES = {
        'core': ['num_threads', 'num_threads=', 'max_cache_size', 'max_cache_size=', 'used_cache_size', 'flags', 'std', 'plugins', 'query', 'getvf', 'cvf', 'log', 'addlog', 'rmlog', 'clear', 'core_version', 'api_version', 'version', 'version_number', 'dir', 'repr', 'str'],
        'timings': ['enabled', 'enabled=', 'freed', 'freed=', 'repr', 'str'],
        'plugin': ['functions', 'attr', 'version', 'path', 'dir', 'repr', 'call', 'names'],
        'bound': ['functions', 'attr', 'call', 'dir', 'repr'],
        'function': ['call', 'sig', 'repr', 'name'], 'boundfn': ['call', 'sig', 'repr'],
        'iter': ['plugins', 'functions'],
        'node': ['get', 'async', 'asynccb', 'frames', 'framesnext', 'output', 'set_output', 'std', 'slice', 'index', 'add', 'mul', 'dir', 'repr', 'str', 'len', 'clear', 'timings', 'timings=', 'mode', 'deps', 'name', 'hash', 'eq', 'inspect', 'asarg', 'asprop', 'asalpha', 'aslist', 'fps', '_name'],
        'audio': ['get', 'async', 'frames', 'output', 'set_output', 'std', 'slice', 'add', 'mul', 'repr', 'str', 'timings', 'mode', 'deps', 'name', 'asarg'],
        'frame': ['item', 'copy', 'rptr', 'wptr', 'stride', 'chunks', 'props', 'repr', 'str', 'len', 'close', 'with', 'closed', 'asprop', 'format'],
        'wframe': ['item', 'copy', 'rptr', 'wptr', 'stride', 'props', 'setprop', 'asprop', 'close', 'setnode'],
        'aframe': ['copy', 'item', 'props', 'closed', 'rptr', 'asprop'], 'xframe': ['copy', 'item', 'props', 'closed', 'rptr', 'asprop'], 'xcopy': ['copy', 'item', 'props', 'closed', 'wptr', 'setprop'],
        'xnode': ['get', 'slice', 'std', 'asarg', 'timings'], 'pnode': ['get', 'slice', 'std', 'asarg', 'timings'], 'onode': ['get', 'slice', 'std', 'asarg', 'timings'],
        'view': ['read', 'write', 'bytes'], 'props': ['get', 'set', 'del', 'keys', 'len', 'copy', 'repr', 'clear'],
        'chunks': ['read'], 'fmt': ['replace', 'repr', 'str', 'eq', 'int', 'dict'], 'gen': ['next', 'close', 'list'],
        'func': ['call', 'callarg', 'callfn', 'asprop'], 'wrapper': ['use', 'alive', 'active', 'copy', 'repr', 'eq', 'id'], 'local': ['get', 'set', 'del'], 'fut': ['result'],
        'envdata': ['destroy', 'wrap', 'coreptr', 'logger'],
    }
    def items(self, thorough):
        for end in self.ENDS:
            for obj, uses in self.USES.items():
                for u in uses:
                    for where in ('outside', 'other') if end != 'unregister' else ('outside',):
                        yield [end, obj, u, where]
        if thorough:                            # two uses in a row
            flat = [(o, u) for o, us in self.USES.items() for u in us]
            for a in flat:
                for b in flat:
                    if a == b and a[0] == 'iter':
                        continue
                    yield ['destroy', a[0], a[1], 'other', b[0], b[1]]
    def isolated(self, item):
        return item[0] == 'unregister'           # afterwards the module falls back to a policy that can't be removed
    def run(self, item):
        vs = self.vs
        end = item[0]
        pol = self.begin()
        try:
            env = pol.api.create_environment()
            env2 = pol.api.create_environment()
            w, w2 = pol.api.wrap_environment(env), pol.api.wrap_environment(env2)
            h = {}
            called = []
            with w.use():
                core = vs.core.core
                core.num_threads = 2
                t = load_testsrc(core)
                h['core'], h['timings'], h['plugin'] = core, core.timings, core.std
                clip = t.Video(format=int(vs.GRAY8), width=5, height=2, length=4)
                h['node'] = clip
                h['sub'] = clip.std.Trim(first=1)
                h['bound'], h['boundfn'], h['function'] = clip.std, clip.std.Trim, core.std.BlankClip
                h['audio'] = t.Audio(bits=16, sampletype=0, channels=[0, 1], length=10)
                f = clip.get_frame(1)
                h['frame'], h['wframe'] = f, f.copy()
                h['view'], h['props'], h['chunks'] = h['wframe'][0], h['wframe'].props, list(f.readchunks())
                h['fmt'] = clip.format
                h['loghandle'] = core.add_log_handler(lambda a, b: None)
                h['pit'], h['fit'] = core.plugins(), core.std.functions()
                next(h['pit']), next(h['fit'])
                h['gen'] = clip.frames(prefetch=1)
                next(h['gen'])
                if end == 'generator':
                    h['gen2'] = clip.frames(prefetch=3)
                    next(h['gen2'])
                h['wframe'].props['fn'] = lambda **kw: 3
                h['func'] = h['wframe'].props['fn']
                h['local'] = vs.Local()
                h['local'].x = 4
                clip.set_output(0)
                h['aframe'] = clip.get_frame_async(3).result()
                h['wframe'].props['clip'] = h['sub']
                h['fut'] = clip.get_frame_async(2)
                if end != 'pending':
                    h['fut'].result()
                else:
                    h['futs'] = [clip.get_frame_async(i % 4) for i in range(8)]
                vs.register_on_destroy(lambda: called.append(vs.core.num_threads))
                if end == 'callback':
                    vs.register_on_destroy(lambda: called.append((len(vs.get_outputs()), h['local'].x, clip.get_frame(0)[0][0, 0])))
                if end == 'failing_callback':
                    def boom():
                        raise KeyError('boom')
                    vs.register_on_destroy(boom)
                    vs.register_on_destroy(lambda: called.append('after'))
            with w2.use():
                h['core2'] = vs.core.core
                t2 = load_testsrc(vs.core)
                h['node2'] = t2.Video(format=int(vs.GRAY8), width=5, height=2, length=2, seed=50)
                h['wframe2'] = h['node2'].get_frame(0).copy()
                h['node2'].set_output(0)
                h['local'].x = 5
                # made while another environment was the current one
                h['xframe'] = clip.get_frame(2)
                h['xcopy'] = h['frame'].copy()
                h['xnode'] = clip[1:3]
                h['pnode'] = h['wframe'].props['clip']
            h['onode'] = clip[1:3]
            check(h['frame'].copy()[0][0, 1] == 49, 'a copy made outside of any environment is wrong')
            if end == 'inside':
                with w.use():
                    pol.api.destroy_environment(env)
            elif end == 'other':
                with w2.use():
                    pol.api.destroy_environment(env)
                    check(pol.get_current_environment() is env2, 'destroying another environment changed the current one')
            elif end == 'unregister':
                pol.api.unregister_policy()
                check(pol.cleared == 1, 'on_policy_cleared was called %d times' % pol.cleared)
            else:
                pol.api.destroy_environment(env)
                if end == 'twice':
                    pol.api.destroy_environment(env)
            check(called[:1] == [2] and len(called) == (2 if end in ('callback', 'failing_callback') else 1), 'the destroy callbacks ran %r' % called)
            if end == 'callback':
                check(called[1] == (1, 4, 1), 'during destruction the environment showed %r' % (called[1],))
            check(not w.alive and pol.get_current_environment() is None, 'the environment is still alive or current')
            if end == 'pending':
                check(all(x.done() for x in h['futs']), 'requests were still running when the environment was gone')
            for i in range(1, len(item), 3):
                obj, use = item[i], item[i + 1]
                where = item[3]
                if where == 'other' and end != 'unregister':
                    with w2.use():
                        self.use(pol, h, env, w, obj, use)
                else:
                    self.use(pol, h, env, w, obj, use)
                if i >= 4:
                    break
            # the other environment is as it was
            if end != 'unregister':
                check(w2.alive, 'the other environment is gone')
                with w2.use():
                    check(vs.core.core is h['core2'], 'the other environment has a different core')
                    check(h['node2'].get_frame(1)[0][0, 0] == 92, 'a clip of the other environment changed')
                    check(list(vs.get_outputs()) == [0] and vs.get_output(0)[0] is h['node2'], 'the outputs of the other environment changed')
                    touched = {('local', 'set'), ('local', 'del')} & {(item[1], item[2]), tuple(item[4:6])} if where == 'other' else False
                    check(touched or h['local'].x == 5, 'the variables of the other environment changed')
        finally:
            w = w2 = None
            h.clear()
            if vs.has_policy() and end != 'unregister':
                pol.tls.cur = None
                pol.api.unregister_policy()
    def use(self, pol, h, env, w, obj, u):
        vs = self.vs
        o = h.get(obj)
        n2 = h['node2']
        def gone(f):
            k, r = outcome(f)
            check(k == 'raised', '%s.%s of a destroyed environment returned %r' % (obj, u, r))
        def okay(f):
            outcome(f)
        def is_(f, v):
            k, r = outcome(f)
            check(k == 'ok' and r == v, '%s.%s gave %r' % (obj, u, r))
        if obj == 'core':
            gone({'num_threads': lambda: o.num_threads, 'num_threads=': lambda: setattr(o, 'num_threads', 1), 'max_cache_size': lambda: o.max_cache_size, 'max_cache_size=': lambda: setattr(o, 'max_cache_size', 4),
                  'used_cache_size': lambda: o.used_cache_size, 'flags': lambda: o.flags, 'std': lambda: o.std, 'plugins': lambda: list(o.plugins()), 'query': lambda: o.query_video_format(vs.GRAY, 0, 8), 'getvf': lambda: o.get_video_format(int(vs.GRAY8)),
                  'cvf': lambda: o.create_video_frame(int(vs.GRAY8), 2, 2), 'log': lambda: o.log_message(0, 'x'), 'addlog': lambda: o.add_log_handler(lambda a, b: None), 'rmlog': lambda: o.remove_log_handler(h['loghandle']),
                  'clear': o.clear_cache, 'core_version': lambda: o.core_version, 'api_version': lambda: o.api_version, 'version': o.version, 'version_number': o.version_number, 'dir': lambda: dir(o), 'repr': lambda: repr(o), 'str': lambda: str(o)}[u])
        elif obj == 'timings':
            gone({'enabled': lambda: o.enabled, 'enabled=': lambda: setattr(o, 'enabled', True), 'freed': lambda: o.freed_nodes, 'freed=': lambda: setattr(o, 'freed_nodes', 0), 'repr': lambda: repr(o), 'str': lambda: str(o)}[u])
        elif obj == 'plugin':
            (okay if u in ('repr', 'names') else gone)({'functions': lambda: list(o.functions()), 'attr': lambda: o.Trim, 'version': lambda: o.version, 'path': lambda: o.plugin_path, 'dir': lambda: dir(o), 'repr': lambda: repr(o), 'call': lambda: o.BlankClip(), 'names': lambda: (o.namespace, o.identifier, o.name)}[u])
        elif obj == 'bound':
            (okay if u == 'repr' else gone)({'functions': lambda: list(o.functions()), 'attr': lambda: o.Trim, 'call': lambda: o.Trim(first=1), 'dir': lambda: dir(o), 'repr': lambda: repr(o)}[u])
        elif obj in ('function', 'boundfn'):
            if u == 'call':
                gone(lambda: o(length=1))
            else:
                okay({'sig': lambda: o.__signature__, 'repr': lambda: repr(o), 'name': lambda: (o.name, o.signature)}[u])
        elif obj == 'iter':
            gone(lambda: list(h['pit' if u == 'plugins' else 'fit']))
        elif obj in ('node', 'audio', 'xnode', 'pnode', 'onode'):
            base = h['wframe2']
            d = {'get': lambda: o.get_frame(0), 'async': lambda: o.get_frame_async(0).result(), 'asynccb': lambda: o.get_frame_async(0, lambda *a: None), 'frames': lambda: list(o.frames()), 'framesnext': lambda: next(o.frames(prefetch=1)), 'output': lambda: o.output(open(os.devnull, 'wb')),
                 'set_output': lambda: o.set_output(3), 'std': lambda: o.std, 'slice': lambda: o[1:2], 'index': lambda: o[0], 'add': lambda: o + o, 'mul': lambda: o * 2, 'dir': lambda: dir(o), 'repr': lambda: repr(o), 'str': lambda: str(o), 'len': lambda: len(o),
                 'clear': o.clear_cache, 'timings': lambda: o.timings, 'timings=': lambda: setattr(o, 'timings', 0), 'mode': lambda: o.mode, 'deps': lambda: (h['sub'] if obj == 'node' else o).dependencies, 'name': lambda: o.node_name, 'hash': lambda: hash(o),
                 'eq': lambda: o == n2, 'inspect': lambda: o.is_inspectable(0), 'asprop': lambda: base.props.__setitem__('v', o), 'fps': lambda: o.fps, '_name': lambda: o._name,
                 'asarg': lambda: h['core2'].std.Trim(o, first=1) if obj != 'audio' else h['core2'].std.AudioTrim(o, first=1), 'asalpha': lambda: n2.set_output(3, alpha=o), 'aslist': lambda: n2 + o}
            if u in ('repr', 'str', 'dir', 'hash', 'eq', 'inspect', 'fps', '_name'):
                okay(d[u])
            elif u == 'len':
                is_(d[u], 4)
            else:
                gone(d[u])
            if pol.get_current_environment() is not None:
                check(3 not in vs.get_outputs(), 'a clip of a destroyed environment became an output')
        elif obj in ('frame', 'wframe', 'aframe', 'xframe', 'xcopy'):
            d = {'item': lambda: o[0], 'copy': o.copy, 'rptr': lambda: o.get_read_ptr(0), 'wptr': lambda: o.get_write_ptr(0), 'stride': lambda: o.get_stride(0), 'chunks': lambda: list(o.readchunks()), 'props': lambda: o.props, 'len': lambda: len(o),
                 'repr': lambda: repr(o), 'str': lambda: str(o), 'close': o.close, 'with': lambda: o.__enter__(), 'closed': lambda: o.closed, 'asprop': lambda: h['wframe2'].props.__setitem__('v', o), 'format': lambda: (o.format.name, o.width, o.height),
                 'setprop': lambda: o.props.__setitem__('v', 1), 'setnode': lambda: o.props.__setitem__('v', n2)}
            (okay if u in ('repr', 'str', 'close', 'with', 'closed', 'format') else gone)(d[u])
            if u == 'closed':
                is_(d[u], True)
            if u == 'format':
                is_(d[u], ('Gray8', 5, 2))
        elif obj == 'view':
            if u == 'write':
                o[0, 0] = 9
            is_(lambda: o[0, 1], 1 + 41 + 7)
            is_(lambda: len(bytes(o)), 10)
        elif obj == 'chunks':
            is_(lambda: b''.join(c.tobytes() for c in o), bytes(1 + 41 + y * 29 + x * 7 for y in range(2) for x in range(5)))
        elif obj == 'props':
            (okay if u == 'repr' else gone)({'get': lambda: o['k'], 'set': lambda: o.__setitem__('a', 1), 'del': lambda: o.__delitem__('k'), 'keys': lambda: list(o.keys()), 'len': lambda: len(o), 'copy': o.copy, 'repr': lambda: repr(o), 'clear': o.clear}[u])
        elif obj == 'fmt':
            okay({'replace': lambda: o.replace(bits_per_sample=16), 'repr': lambda: repr(o), 'str': lambda: str(o), 'eq': lambda: o == n2.format, 'int': lambda: int(o), 'dict': lambda: o._as_dict()}[u])
            is_(lambda: o.name, 'Gray8')
        elif obj == 'gen':
            for g in ('gen', 'gen2'):
                if g in h:
                    okay({'next': lambda: next(h[g], None), 'close': h[g].close, 'list': lambda: [(f.closed, repr(f)) for f in h[g]]}[u])
        elif obj == 'func':
            okay({'call': o, 'callarg': lambda: o(a=n2, b=[1, 2], c='x'), 'callfn': lambda: o(a=lambda: 1), 'asprop': lambda: h['wframe2'].props.__setitem__('v', o)}[u])
        elif obj == 'wrapper':
            if u == 'use':
                def f():
                    with w.use():
                        pass
                okay(f)
            elif u == 'alive':
                is_(lambda: w.alive, False)
            else:
                okay({'active': lambda: w.active, 'copy': lambda: w.copy().alive, 'repr': lambda: repr(w), 'eq': lambda: w == w.copy(), 'id': lambda: w.env_id}[u])
        elif obj == 'local':
            okay({'get': lambda: o.x, 'set': lambda: setattr(o, 'x', 77), 'del': lambda: delattr(o, 'x')}[u])
        elif obj == 'fut':
            okay(lambda: repr(o.result()))
        elif obj == 'envdata':
            okay({'destroy': lambda: pol.api.destroy_environment(env), 'wrap': lambda: pol.api.wrap_environment(env).alive, 'coreptr': lambda: pol.api.get_core_ptr(env), 'logger': lambda: pol.api.set_logger(env, lambda a, b: None)}[u])

# ------------------------------------------------------------------ sequences of operations on two environments against a model
@case
class EnvSequences(EnvCase):
    name, props = 'py_env_sequences', 'C30'
    bounds = 'all sequences of 4 (thorough 5) operations on two environments from 3 starting points: enter, leave, leave by exception, destroy, set and clear outputs, set and delete a Local, register and remove destroy callbacks (also ones that destroy an environment or request a frame), with the whole visible state compared after every one'
    OPS = ['eA', 'eB', 'l', 'x', 'dA', 'dB', 'o0', 'o1', 'c0', 'cc', 'ls', 'ld', 'r', 'u', 'rd', 'rf', 'k']
    STARTS = [[], ['eA'], ['eA', 'eB']]
    def items(self, thorough):
        for st in self.STARTS:
            for seq in itertools.product(self.OPS, repeat=5 if thorough else 4):
                depth, ok, dead = len(st), True, set()
                for o in seq:
                    if o in ('eA', 'eB'):
                        depth += 1
                    elif o in ('l', 'x'):
                        depth -= 1
                    elif o in ('dA', 'dB'):
                        ok = ok and o not in dead
                        dead.add(o)
                    if depth < 0 or depth > 3:
                        ok = False
                # a trailing plain enter or leave says nothing that the shorter sequence doesn't
                if ok and seq[-1] not in ('eA', 'eB'):
                    yield [st, list(seq)]
    def run(self, item):
        vs = self.vs
        pol = self.begin()
        log = []
        try:
            E = {}
            for k in 'AB':
                e = pol.api.create_environment()
                E[k] = dict(env=e, w=pol.api.wrap_environment(e), alive=True, core=None, outs={}, local={}, cbs=[], clip=None)
            loc = vs.Local()
            stack = []                                 # (context manager, name of the environment before, name entered)
            cur = None
            serial = 0
            def destroyed(k, how):
                """what destroying k runs, in order"""
                e = E[k]
                want = []
                e['dying'] = True
                for kind, sid in e['cbs']:
                    want.append((k, kind, sid))
                    if kind == 'rd':
                        o = 'B' if k == 'A' else 'A'
                        if E[o]['alive'] and not E[o].get('dying'):
                            want += destroyed(o, 'callback')
                e.update(alive=False, outs={}, local={}, cbs=[], core=None)
                return want
            for step in list(item[0]) + list(item[1]):
                self.transitions += 1
                c = E[cur] if cur else None
                usable = c is not None and c['alive']
                def expect(f, good, exc=Exception):
                    """f has to work in a living environment and fail outside of any; in a destroyed one it only mustn't crash"""
                    try:
                        r = f()
                    except exc as e:
                        check(not usable, '%s failed in a living environment: %r' % (step, e))
                        return False
                    check(usable or c is not None, '%s worked outside of any environment' % step)
                    return usable
                if step in ('eA', 'eB'):
                    k = step[1]
                    cm = E[k]['w'].use()
                    cm.__enter__()
                    stack.append((cm, cur, k))
                    cur = k
                elif step in ('l', 'x'):
                    cm, before, k = stack.pop()
                    r = cm.__exit__(*((None,) * 3 if step == 'l' else (KeyError, KeyError('x'), None)))
                    check(not r, 'leaving an environment swallowed the exception')
                    cur = before if before and E[before]['alive'] else None
                elif step in ('dA', 'dB'):
                    k = step[1]
                    log.clear()
                    was = E[k]['alive']
                    want = destroyed(k, 'op') if was else []
                    now = pol.get_current_environment()
                    pol.api.destroy_environment(E[k]['env'])
                    check([x[:3] for x in log] == want, 'destroying %s ran the callbacks %r, expected %r' % (k, [x[:3] for x in log], want))
                    for who, kind, sid, inside in log:
                        check(inside, 'a destroy callback of %s ran in another environment' % who)
                    if was and cur and cur != k and not E[cur]['alive']:
                        cur = None                     # the current one died in a callback
                elif step == 'k':
                    if c is not None and not c['alive']:
                        continue
                    if expect(lambda: vs.core.core, 1):
                        if c['core'] is None:
                            c['core'] = vs.core.core
                            check(all(E[x]['core'] is not c['core'] for x in E if x != cur), 'two environments share a core')
                elif step in ('o0', 'o1'):
                    if c is not None and not c['alive']:
                        continue
                    if c is None:
                        any_ = [E[x]['clip'] for x in E if E[x]['clip'] is not None and E[x]['alive']]
                        if any_:
                            expect(lambda: any_[0].set_output(int(step[1])), 1)
                    else:
                        if c['clip'] is None:
                            c['clip'] = vs.core.std.BlankClip(length=2, width=8, height=8, format=int(vs.GRAY8), color=[7 if cur == 'A' else 9])
                            check(c['core'] is None or c['core'] is vs.core.core, 'the core of the environment changed')
                            c['core'] = vs.core.core
                        serial += 1
                        n = c['clip'][serial % 2]
                        if expect(lambda: n.set_output(int(step[1])), 1):
                            c['outs'][int(step[1])] = n
                elif step == 'c0':
                    if expect(lambda: vs.clear_output(0), 1):
                        c['outs'].pop(0, None)
                elif step == 'cc':
                    if expect(lambda: vs.clear_outputs(), 1):
                        c['outs'].clear()
                elif step == 'ls':
                    serial += 1
                    if expect(lambda: setattr(loc, 'x', serial), 1):
                        c['local']['x'] = serial
                elif step == 'ld':
                    if usable and 'x' not in c['local']:
                        try:
                            del loc.x
                            raise Fail('a variable that was never set in this environment could be deleted')
                        except (KeyError, AttributeError):
                            pass
                    elif expect(lambda: delattr(loc, 'x'), 1):
                        del c['local']['x']
                elif step in ('r', 'rd', 'rf'):
                    serial += 1
                    def cb(k=cur, kind=step, sid=serial):
                        log.append((k, kind, sid, pol.get_current_environment() is E[k]['env'] and E[k]['w'].active))
                        if kind == 'rd':
                            o = 'B' if k == 'A' else 'A'
                            pol.api.destroy_environment(E[o]['env'])
                        if kind == 'rf':
                            check(vs.core.std.BlankClip(length=1).get_frame(0).width == 640, 'no frames in a destroy callback')
                            raise KeyError('swallowed')
                    if expect(lambda: vs.register_on_destroy(cb), 1):
                        c['cbs'].append((step, serial))
                        c.setdefault('fns', []).append(cb)
                elif step == 'u':
                    if usable and c['cbs']:
                        vs.unregister_on_destroy(c['fns'].pop())
                        c['cbs'].pop()
                    else:
                        try:
                            vs.unregister_on_destroy(print)
                            raise Fail('a callback that was never registered could be removed')
                        except (RuntimeError, ValueError):
                            pass
                self.compare(pol, E, cur, loc, step)
            self.state(repr([(k, E[k]['alive'], sorted(E[k]['outs']), E[k]['local'], E[k]['core'] is None, len(E[k]['cbs'])) for k in E]) + str(cur))
            self.sample('%r -> current %s, %s' % (item, cur, ', '.join('%s %s' % (k, 'alive' if E[k]['alive'] else 'dead') for k in E)))
            n, cores = pol.cleared, [E[k]['core'] for k in E]
        finally:
            E = c = e = None
            stack = []
            log.clear()
            if vs.has_policy():
                pol.tls.cur = None
                stderr, sys.stderr = sys.stderr, open(os.devnull, 'w')
                pol.api.unregister_policy()
                sys.stderr = stderr
    def compare(self, pol, E, cur, loc, step):
        vs = self.vs
        real = pol.get_current_environment()
        check(real is (E[cur]['env'] if cur else None), 'after %s the current environment is %s, expected %s' % (step, [k for k in E if E[k]['env'] is real], cur))
        for k, e in E.items():
            w = e['w']
            check(bool(w.alive) == e['alive'], 'after %s environment %s is %salive' % (step, k, '' if w.alive else 'not '))
            check(bool(w.active) == (cur == k), 'after %s environment %s says active=%r' % (step, k, w.active))
            if not e['alive']:
                continue
            with w.use():
                check(pol.get_current_environment() is e['env'], 'use() entered another environment')
                outs = vs.get_outputs()
                check(sorted(outs) == sorted(e['outs']), 'after %s environment %s has the outputs %r, expected %r' % (step, k, sorted(outs), sorted(e['outs'])))
                for i, n in e['outs'].items():
                    check(outs[i][0] is n and vs.get_output(i)[0] is n, 'after %s output %d of %s is another clip' % (step, i, k))
                x = getattr(loc, 'x', None)
                check(x == e['local'].get('x'), 'after %s the variable of %s is %r, expected %r' % (step, k, x, e['local'].get('x')))
                if e['core'] is not None:
                    check(vs.core.core is e['core'], 'after %s environment %s has another core' % (step, k))
            check(pol.get_current_environment() is real or (cur and not E[cur]['alive']), 'use() did not restore the environment that was current')
            if cur and not E[cur]['alive']:
                pol.set_environment(E[cur]['env'])

# ------------------------------------------------------------------ context managers made long before they are entered
@case
class EnvManagers(EnvCase):
    name, props = 'py_env_managers', 'C30'
    bounds = 'all sequences of 6 (thorough 7) operations: ask environment A or B for a context manager, enter the oldest or newest one not entered yet, leave, leave by exception, destroy an environment nobody is in, enter and leave in another thread'
    OPS = ['mA', 'mB', 'e0', 'e1', 'l', 'x', 'dB', 't']
    def items(self, thorough):
        def rec(seq, pending, depth, dead, n):
            if not n:
                yield list(seq)
                return
            for o in self.OPS:
                if o[0] == 'm' and (len(pending) == 3 or o == 'mB' and dead):
                    continue
                if o in ('e0', 'e1', 't') and (not pending or o == 'e1' and len(pending) == 1):
                    continue
                if o in ('l', 'x') and not depth:
                    continue
                if o == 'dB' and (dead or 'B' in pending or 'B' in depth):
                    continue
                p, d = list(pending), list(depth)
                if o[0] == 'm':
                    p.append(o[1])
                elif o in ('e0', 'e1'):
                    d.append(p.pop(-1 if o == 'e1' else 0))
                elif o == 't':
                    p.pop(0)
                elif o in ('l', 'x'):
                    d.pop()
                yield from rec(seq + [o], p, d, dead or o == 'dB', n - 1)
        yield from rec([], [], [], False, 7 if thorough else 6)
    def run(self, item):
        vs = self.vs
        pol = self.begin()
        E, W = {}, {}
        try:
            for k in 'AB':
                E[k] = pol.api.create_environment()
                W[k] = pol.api.wrap_environment(E[k])
            pending, stack, cur = [], [], None
            for step in item:
                self.transitions += 1
                if step[0] == 'm':
                    pending.append((W[step[1]].use(), step[1]))
                elif step in ('e0', 'e1'):
                    cm, k = pending.pop(-1 if step == 'e1' else 0)
                    cm.__enter__()
                    stack.append((cm, cur))
                    cur = k
                elif step in ('l', 'x'):
                    cm, cur = stack.pop()
                    check(not cm.__exit__(*((None,) * 3 if step == 'l' else (KeyError, KeyError('x'), None))), 'leaving an environment swallowed the exception')
                elif step == 'dB':
                    pol.api.destroy_environment(E['B'])
                else:
                    cm, k = pending.pop(0)
                    got = []
                    def other():
                        got.append(pol.get_current_environment())
                        with cm:
                            got.append(pol.get_current_environment())
                        got.append(pol.get_current_environment())
                    t = threading.Thread(target=other)
                    t.start()
                    t.join()
                    check(len(got) == 3 and got[0] is None and got[1] is E[k] and got[2] is None, 'in another thread the environment went through %s, expected none, %s, none' % ([n for g in got for n in [*(x for x in E if E[x] is g)] or ['none']], k))
                now = pol.get_current_environment()
                check(now is (E[cur] if cur else None), 'after %s the current environment is %s, expected %s' % (step, [k for k in E if E[k] is now], cur))
            self.state('%s %s %s' % (cur, [k for _, k in pending], len(stack)))
        finally:
            stack = pending = None
            if vs.has_policy():
                pol.tls.cur = None
                stderr, sys.stderr = sys.stderr, open(os.devnull, 'w')
                pol.api.unregister_policy()
                sys.stderr = stderr

# ------------------------------------------------------------------ requests that complete while their environment is destroyed
@case
class DestroyRequests(EnvCase):
    name, props = 'py_destroy_requests', 'C30'
    bounds = 'two chains of up to 3 requests (each callback makes the next) made in the environment, another one or none or a frames() generator over 6 frames (prefetch 1-3), every request completing before destruction, after it began, during a destroy callback or after the clips were invalidated, in every order that is possible'
    def setup(self, vs):
        super().setup(vs)
        import ctypes
        from pyseq import TESTSRC
        self.lib = ctypes.CDLL(TESTSRC)
    def items(self, thorough):
        chains = []
        for length in (1, 2, 3):
            for ph in itertools.product(range(4), repeat=length):
                # a request made before destruction began is waited for; one made by a callback is made when its predecessor completes
                if list(ph) == sorted(ph) and ph[0] <= 1 and all(b <= 1 for a, b in zip(ph, ph[1:]) if a == 0):
                    chains.append(list(ph))
        for kind in ('video', 'audio', 'future', 'video@other', 'video@none', 'future@other', 'audio@other', 'block@own', 'block@other', 'block@none'):
            for a in chains:
                if kind.startswith('block') and len(a) > 1:
                    continue
                yield [kind, [a]]
                for b in chains:
                    for swap in (0, 1):
                        if kind == 'video' or thorough:
                            yield [kind, [a, b], swap]
        for prefetch in (1, 2, 3):
            for backlog in (prefetch, prefetch + 2, 8) if thorough else (prefetch, 8):
                for taken in (0, 1, 2) if thorough else (0, 1):
                    for ph in itertools.combinations_with_replacement(range(4), 6):
                        yield ['frames', list(ph), prefetch, backlog, taken]
    def until(self, f, what, limit=60):
        end = time.time() + limit
        while not f():
            if time.time() > end:
                if what is None:
                    return False
                raise Fail(what + ' (waited for %d s)' % limit)
            time.sleep(0.0002)
        return True
    def run(self, item):
        vs, lib = self.vs, self.lib
        pol = self.begin()
        lib.tsrc_reset()
        env, env2 = pol.api.create_environment(), pol.api.create_environment()
        w, w2 = pol.api.wrap_environment(env), pol.api.wrap_environment(env2)
        before = lib.tsrc_live()
        kind, _, place = item[0].partition('@')
        import contextlib
        def inside():
            """where requests are made"""
            pol.tls.cur = None
            return {'other': w2.use, 'none': contextlib.nullcontext}.get(place, w.use)()
        unanswered = []
        chains = item[1] if item[0] != 'frames' else []
        got = {}                                       # n -> list of outcomes
        frames = len(item[1]) if item[0] == 'frames' else 8
        opened = set()
        def open_(n):
            opened.add(n)
            lib.tsrc_open(n)
        indestroy, go = threading.Event(), threading.Event()
        errors = []
        try:
            with w.use():
                vs.core.num_threads = 8
                t = load_testsrc(vs.core)
                if kind == 'audio':
                    clip = t.Audio(bits=16, sampletype=0, channels=[0, 1], length=frames * 3072, gate=list(range(frames)))
                else:
                    clip = t.Video(format=int(vs.GRAY8), width=4, height=2, length=frames, gate=list(range(frames)))
                def ondestroy():
                    unanswered.extend(r * 4 for r in range(len(chains)) if r * 4 not in got)
                    indestroy.set()
                    go.wait(60)
                vs.register_on_destroy(ondestroy)
                def request(r, j):
                    n = r * 4 + j
                    def done(result, error):
                        ok = result is not None and (result[0][0, 0] == n * 41 + 1 & 255 if kind != 'audio' else len(result[0]) == 3072)
                        got.setdefault(n, []).append('ok' if ok else 'error' if error is not None and result is None else 'wrong')
                        if j + 1 < len(chains[r]):
                            try:
                                request(r, j + 1)
                            except vs.Error:
                                got.setdefault(n + 1, []).append('refused')
                    if kind == 'future':
                        def fdone(f):
                            e = f.exception()
                            done(None if e else f.result(), e)
                        clip.get_frame_async(n).add_done_callback(fdone)
                    elif kind == 'block':                        # a thread of its own waits for the frame
                        def block():
                            with inside():
                                try:
                                    done(clip.get_frame(n), None)
                                except vs.Error as e:
                                    done(None, e)
                        threading.Thread(target=block, daemon=True).start()
                        self.until(lambda: lib.tsrc_waiting() > r or n in opened, 'the request does not reach the source')
                    else:
                        clip.get_frame_async(n, done)
                if item[0] == 'frames':
                    gen = clip.frames(prefetch=item[2], backlog=item[3])
                    taken = []
                    if item[4]:
                        for n in range(item[4]):       # the generator starts with its first frame
                            open_(n)
                            f = next(gen)
                            taken.append(f[0][0, 0])
                            f.close()
                        check(taken == [n * 41 + 1 for n in range(item[4])], 'frames() gave %r' % taken)
                else:
                    for r in range(len(chains)):
                        with inside():
                            request(r, 0)
            phases = item[1] if item[0] == 'frames' else None
            def release(phase):
                if phases is not None:
                    for n, p in enumerate(phases):
                        if p == phase and n not in opened:
                            open_(n)
                    return
                # chain links become due one after another
                todo = [r for r in range(len(chains))]
                if len(item) > 2 and item[2]:
                    todo.reverse()
                for j in range(3):
                    for r in todo:
                        if j < len(chains[r]) and chains[r][j] == phase:
                            open_(r * 4 + j)
                            self.until(lambda: got.get(r * 4 + j), 'request %d never completed' % (r * 4 + j))
            release(0)
            def destroy():
                try:
                    pol.api.destroy_environment(env)
                except BaseException as e:
                    errors.append(e)
            d = threading.Thread(target=destroy, daemon=True)
            d.start()
            def clip_invalid():
                try:
                    clip.timings
                except vs.Error:
                    return True
                return False
            # destruction has begun: no more destroy callbacks can be registered once they run; before that it only waits
            time.sleep(0.001)
            release(1)
            if item[0] == 'frames':
                # everything that was asked for before destruction has to complete for it to go on
                if not self.until(indestroy.is_set, None, 0.3):
                    for n in range(frames):
                        if n not in opened and lib.tsrc_waiting():
                            open_(n)
                            if self.until(indestroy.is_set, None, 0.05):
                                break
            self.until(indestroy.is_set, 'the destroy callback was not called', 30)
            release(2)
            go.set()
            if item[0] == 'frames' or any(3 in c for c in chains):
                self.until(lambda: clip_invalid() or not d.is_alive(), 'the clips were not invalidated', 30)
            release(3)
            for n in range(frames):
                open_(n)
            d.join(60)
            check(not d.is_alive(), 'destroying the environment does not return')
            check(not errors, 'destroying the environment raised %r' % errors)
            check(not w.alive, 'the environment is still alive')
            check(not unanswered, 'the destroy callbacks ran before the requests %r were answered' % unanswered)
            for r, c in enumerate(chains):
                for j, p in enumerate(c):
                    g = got.get(r * 4 + j, [])
                    check(len(g) == 1, 'request %d, completed in phase %d, was answered %r' % (r * 4 + j, p, g))
                    check(g[0] == 'ok' if p <= 2 else g[0] in ('ok', 'error', 'refused'), 'request %d, completed in phase %d, gave %s' % (r * 4 + j, p, g[0]))
            if item[0] == 'frames':
                rest = []
                k, r = outcome(lambda: [rest.append(f.closed) for f in gen])
                check(k == 'raised' or all(rest), 'a generator gave usable frames of a destroyed environment')
                gen = None
            self.until(lambda: lib.tsrc_live() == before, 'the clip was never freed', 10)
            self.sample('%r: %r' % (item, got))
            self.transitions += max(len(got), 1)
            self.state(repr(sorted(got.items())))
        finally:
            clip = t = gen = None
            for n in range(frames):
                open_(n)
            go.set()
            if vs.has_policy():
                pol.tls.cur = None
                if env is not None and not w.alive:
                    pol.api.unregister_policy()

# ------------------------------------------------------------------ objects belong to the environment of their core, wherever they were made
@case
class Owner(EnvCase):
    name, props = 'py_owner', 'C30'
    bounds = 'every way to get a clip or frame x every place it can be got in (outside, its own environment, another one, nested both ways, another thread) x which environment ends'
    KINDS = ['get_frame', 'async', 'frames', 'index', 'copy', 'wcopy', 'create', 'slice', 'add', 'call', 'propclip', 'propframe', 'deps', 'audioframe', 'audiocopy', 'audioslice', 'result_list']
    PLACES = ['outside', 'own', 'other', 'own-other', 'other-own', 'thread', 'thread-other']
    def items(self, thorough):
        for k in self.KINDS:
            for p in self.PLACES:
                for dies in ('own', 'other'):
                    yield [k, p, dies]
    def run(self, item):
        import contextlib
        vs = self.vs
        kind, place, dies = item
        pol = self.begin()
        try:
            A, B = pol.api.create_environment(), pol.api.create_environment()
            wa, wb = pol.api.wrap_environment(A), pol.api.wrap_environment(B)
            with wa.use():
                core = vs.core.core
                clip = load_testsrc(core).Video(format=int(vs.GRAY8), width=5, height=2, length=4)
                sub = clip.std.Trim(first=1)
                audio = core.tsrc.Audio(bits=16, sampletype=0, channels=[0, 1], length=7000)
                f = clip.get_frame(1)
                wf = f.copy()
                wf.props['c'], wf.props['f'] = sub, f
                af = audio.get_frame(1)
                fn = core.std.Trim
            with wb.use():
                vs.core.num_threads
            def make():
                with contextlib.ExitStack() as st:
                    for k in place.replace('thread-other', 'other').split('-'):
                        if k in ('own', 'other'):
                            st.enter_context((wa if k == 'own' else wb).use())
                    if kind == 'get_frame': return sub.get_frame(0)
                    if kind == 'async': return sub.get_frame_async(0).result()
                    if kind == 'frames': return next(sub.frames(prefetch=1))
                    if kind == 'index': return sub[0]
                    if kind == 'copy': return f.copy()
                    if kind == 'wcopy': return wf.copy()
                    if kind == 'create': return core.create_video_frame(int(vs.GRAY8), 5, 2)
                    if kind == 'slice': return clip[1:]
                    if kind == 'add': return sub + clip
                    if kind == 'call': return fn(clip, first=1)
                    if kind == 'propclip': return wf.props['c']
                    if kind == 'propframe': return wf.props['f']
                    if kind == 'deps': return next(iter(sub.dependencies))[1:]
                    if kind == 'audioframe': return audio.get_frame(1)
                    if kind == 'audiocopy': return af.copy()
                    if kind == 'audioslice': return audio[1:]
                    if kind == 'result_list': return clip.std.SplitPlanes()[1:]
            box = []
            if place.startswith('thread'):
                t = threading.Thread(target=lambda: box.append(outcome(make)))
                t.start()
                t.join()
            else:
                box.append(outcome(make))
            k, o = box[0]
            check(k == 'ok', 'could not be made: %r' % o)
            pol.api.destroy_environment(A if dies == 'own' else B)
            def use():
                if isinstance(o, (vs.VideoFrame, vs.AudioFrame)):
                    b = bytes(o[0])[0]
                    return b == 42 or kind in ('create', 'audioframe', 'audiocopy') or b
                fr = o.get_frame(0)
                return isinstance(fr, vs.VideoFrame) and fr[0][0, 0] in (42, 83, 1) or isinstance(fr, vs.AudioFrame) or fr[0][0, 0]
            for w in (None, wa, wb):
                with contextlib.ExitStack() as st:
                    if w is not None and w.alive:
                        st.enter_context(w.use())
                    k, r = outcome(use)
                if dies == 'own':
                    check(k == 'raised', 'it can still be used after its environment ended (%r)' % (r,))
                else:
                    check(k == 'ok' and r is True, 'it stopped working when another environment ended: %r' % (r,))
            del o, box
        finally:
            r = clip = sub = audio = f = wf = af = fn = core = use = make = None
            pol.tls.cur = None
            pol.api.unregister_policy()

if __name__ == '__main__':
    main(os.path.abspath(__file__))
