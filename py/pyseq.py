"""Bounded-exhaustive checks of the Python module built from /repo (build/py/site).

A case enumerates items (argument combinations or operation sequences up to a depth); every item is run on the real module and
compared with a reference model written here. Items are split over worker processes; the item a worker was running when it died
or hung is the counterexample."""
import faulthandler, gc, itertools, json, mmap, os, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SITE = os.path.join(os.path.dirname(HERE), 'build', 'py', 'site')
HANG = 120
TESTSRC = os.path.join(os.path.dirname(HERE), 'build', 'py', 'libtestsrc.so')

def load_testsrc(core):
    if not any(p.namespace == 'tsrc' for p in core.plugins()):
        core.std.LoadPlugin(TESTSRC)
    return core.tsrc

def sample(fmt, n, p, y, x, seed=0):
    """raw bytes of a sample of tsrc.Video"""
    import struct
    v = n * 41 + p * 83 + y * 29 + x * 7 + 1 + seed
    if fmt.bytes_per_sample == 1:
        return bytes([v & 255])
    if fmt.bytes_per_sample == 2:
        return struct.pack('<H', v * 31 & 65535)
    return struct.pack('<f', v) if int(fmt.sample_type) else struct.pack('<I', v * 7001 & 0xffffffff)

def frame_bytes(fmt, w, h, n, seed=0):
    out = []
    for p in range(fmt.num_planes):
        pw, ph = (w >> fmt.subsampling_w, h >> fmt.subsampling_h) if p else (w, h)
        out.append(b''.join(sample(fmt, n, p, y, x, seed) for y in range(ph) for x in range(pw)))
    return out

def make_policy(vs):
    class P(vs.EnvironmentPolicy):
        def __init__(self):
            self.tls = threading.local()
            self.cleared = 0
        def on_policy_registered(self, api):
            self.api = api
        def on_policy_cleared(self):
            self.cleared += 1
        def get_current_environment(self):
            return getattr(self.tls, 'cur', None)
        def set_environment(self, env):
            old = self.get_current_environment()
            self.tls.cur = env
            return old
    return P

class Fail(Exception):
    pass

def check(cond, text):
    if not cond:
        raise Fail(text)

CASES = []

class Case:
    """subclasses: name, props, bounds; items(thorough), run(item); setup() once per worker"""
    name = props = bounds = ''
    def __init__(self):
        self.states, self.transitions, self.outcomes = set(), 0, set()
    def setup(self, vs):
        self.vs = vs
    def items(self, thorough):
        return []
    def run(self, item):
        raise NotImplementedError
    def isolated(self, item):
        """needs a process of its own"""
        return False
    def state(self, s):
        self.states.add(hash(s))
    def sample(self, s):
        if len(self.outcomes) < 3:
            self.outcomes.add(s)

def case(c):
    CASES.append(c)
    return c

def sequences(ops, depth):
    """all operation sequences of exactly 1..depth operations"""
    for d in range(1, depth + 1):
        yield from itertools.product(ops, repeat=d)

# ------------------------------------------------------------------ runner
def worker(name, i, of, thorough, slot, only):
    f = open(slot, 'r+b')
    m = mmap.mmap(f.fileno(), 65536)
    import vapoursynth as vs
    c = [x for x in CASES if x.name == name][0]()
    c.setup(vs)
    faulthandler.enable()
    n = 0
    def dump(**o):
        o.update(case=name, execs=n, states=len(c.states), transitions=c.transitions, samples=sorted(c.outcomes))
        print(json.dumps(o), flush=True)
        os._exit(0)
    its = [only] if only is not None else c.items(thorough)
    for k, item in enumerate(its):
        if k % of != i and only is None:
            continue
        b = json.dumps(item).encode()[:65000]
        m[:len(b) + 1] = b + b'\0'
        if n % 64 == 0:
            faulthandler.dump_traceback_later(HANG, exit=True)
        try:
            if only is None and c.isolated(item):
                sub = slot + '.sub'
                open(sub, 'wb').write(b'\0' * 65536)
                r = subprocess.run([sys.executable, os.path.abspath(sys.argv[0]), '--worker', '0/1', '--case', name, '--slot', sub, '--item', json.dumps(item)], capture_output=True, text=True, errors='replace')
                os.unlink(sub)
                l = [x for x in r.stdout.splitlines() if x.startswith('{') and '"case"' in x]
                if not l:
                    raise Fail('the process died (%d): %s' % (r.returncode, r.stderr.strip()[-500:]))
                if not json.loads(l[0]).get('ok'):
                    raise Fail(json.loads(l[0])['fail'])
            else:
                c.run(item)
        except Fail as e:
            faulthandler.cancel_dump_traceback_later()
            dump(fail=str(e), item=item)
        except Exception as e:
            faulthandler.cancel_dump_traceback_later()
            import traceback
            dump(fail='unexpected %s: %s' % (type(e).__name__, e), item=item, tb=traceback.format_exc()[-1500:])
        n += 1
        if n % 500 == 0:
            gc.collect()
    faulthandler.cancel_dump_traceback_later()
    dump(ok=1)

def main(script):
    a = sys.argv[1:]
    thorough = '--thorough' in a
    def opt(n, d=None):
        return a[a.index(n) + 1] if n in a else d
    if '--worker' in a:
        i, of = map(int, opt('--worker').split('/'))
        return worker(opt('--case'), i, of, thorough, opt('--slot'), json.loads(opt('--item')) if '--item' in a else None)
    rdir = opt('--replay-dir', '/tmp')
    os.makedirs(rdir, exist_ok=True)
    prop, only = opt('--property'), opt('--case')
    known = [a[i + 1].split('=', 1) for i, x in enumerate(a) if x == '--known']
    nw = int(opt('--workers', '8'))
    home = os.path.join(rdir, '.home%d' % os.getpid())
    os.makedirs(home, exist_ok=True)
    env = dict(os.environ, PYTHONPATH=SITE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME=home, XDG_CONFIG_HOME=home, PYTHONWARNINGS='ignore', MALLOC_PERTURB_='165', VP_SITE=SITE)
    def start(name, i, of, extra=[]):
        slot = '%s/.pyslot%d_%d' % (rdir, os.getpid(), i)
        open(slot, 'wb').write(b'\0' * 65536)
        p = subprocess.Popen([sys.executable, script, '--worker', '%d/%d' % (i, of), '--case', name, '--slot', slot] + (['--thorough'] if thorough else []) + extra,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, cwd=home)
        return p, slot
    def finish(p, slot):
        out, err = p.communicate()
        at = open(slot, 'rb').read().split(b'\0')[0].decode() or 'null'
        os.unlink(slot)
        for l in out.splitlines():
            if l.startswith('{') and '"case"' in l:
                try:
                    return json.loads(l)
                except ValueError:
                    pass
        return dict(died=p.returncode, item=json.loads(at), err=err[-4000:])
    rc = 0
    for cls in CASES:
        if (prop and prop not in cls.props.split(',')) or (only and cls.name != only):
            continue
        t0 = time.time()
        if '--item' in a:
            r = finish(*start(cls.name, 0, 1, ['--item', opt('--item')]))
            print(json.dumps(r, indent=1))
            rc |= 0 if r.get('ok') else 1
            continue
        ps = [start(cls.name, i, nw) for i in range(nw)]
        res = [finish(*x) for x in ps]
        viol = path = None
        kn = []
        tot = dict(execs=0, states=0, transitions=0)
        samples = []
        for r in res:
            for k in tot:
                tot[k] += r.get(k, 0)
            samples += r.get('samples', [])
            if r.get('ok'):
                continue
            if 'died' in r:
                if r['item'] is None:
                    print('worker of %s died before its first item: %s' % (cls.name, r), file=sys.stderr)
                    sys.exit(2)
                c = finish(*start(cls.name, 0, 1, ['--item', json.dumps(r['item'])]))       # again, alone
                if c.get('fail'):
                    r = c
                else:
                    hang = 'Timeout' in r['err']
                    r['fail'] = ('does not return' if hang else 'the process died (%s)' % r['died']) + ('' if 'died' in c else ' (not when run alone)') + ': ' + r['err'].strip()[-1500:].replace('\n', ' | ')
            text = '%s: %s' % (json.dumps(r['item']), r['fail'])
            hit = [k[1] for k in known if k[0] == cls.name and k[1] in text]
            if hit:
                kn += hit
            elif viol is None:
                viol = text
                path = '%s/%s.json' % (rdir, cls.name)
                json.dump(dict(case=cls.name, item=r['item'], what=r['fail'], trace=r.get('tb'), how='%s --case %s --item %s' % (script, cls.name, json.dumps(json.dumps(r['item'])))), open(path, 'w'), indent=1)
        print(json.dumps(dict(scenario=cls.name, properties=cls.props, bounds=cls.bounds, items=tot['execs'], executions=tot['execs'], transitions=max(tot['transitions'], tot['execs']),
                              states=max(tot['states'], 1), samples=samples[:3], wall_s=round(time.time() - t0, 1), violation=viol, replay=path, known=sorted(set(kn)))), flush=True)
        rc |= 1 if viol else 0
    import shutil
    shutil.rmtree(home, ignore_errors=True)
    sys.exit(rc)
