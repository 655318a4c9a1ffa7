#!/usr/bin/env python3
"""Explorer for the Python frame iterator (C23).

Runs RawNode.frames() of the module built from /repo on real clips, with the two threads that take part (the consumer and
the thread delivering completions) under a controlled scheduler: every order in which completions can be delivered and every
switch between the threads at a point where CPython can switch (entering Python code of Future, waiting for a lock, sleeping),
up to a bound on preemptions. The module's Future and RLock are replaced by versions that stop at these points; requests go to
the real core and their completions are held back until the schedule delivers them."""
import _thread, faulthandler, fcntl, gc, json, os, subprocess, sys, threading, time, weakref

HERE = os.path.dirname(os.path.abspath(__file__))
SITE = os.path.join(os.path.dirname(HERE), 'build', 'py', 'site')
HANG = 20

# ------------------------------------------------------------------ scheduler
class Thr:
    def __init__(self, name):
        self.name, self.alive, self.pred, self.steps, self.unissued = name, True, None, 0, []
        self.go = _thread.allocate_lock()
        self.go.acquire()

class Sched:
    def __init__(self):
        self.prefix, self.tree = [], []
        self.cond = threading.Condition()
        self.on = False

    def begin(self, bound):
        self.bound, self.pre, self.depth, self.fps = bound, 0, 0, set()
        self.con, self.dlv = Thr('consumer'), Thr('completions')
        self.cur = self.con
        self.pending, self.recorded, self.created, self.yielded, self.refs = [], 0, 0, 0, []
        self.limit = None
        self.trace = []
        self.fin = False
        self.on = True

    def choose(self, n):
        if n <= 1:
            return 0
        d = self.depth
        self.depth += 1
        if d < len(self.tree):
            c = self.tree[d]
            if c[1] != n:
                fail('internal: not deterministic at choice %d (%d, then %d alternatives)' % (d, c[1], n), internal=True)
            return c[0]
        c = self.prefix[d] if d < len(self.prefix) else 0
        self.tree.append([c, n])
        return c

    def advance(self):
        while self.tree and self.tree[-1][0] + 1 >= self.tree[-1][1]:
            self.tree.pop()
        if not self.tree:
            return False
        self.tree[-1][0] += 1
        return True

    def settle(self, t):
        if not t.unissued:
            return
        end = time.time() + 10
        with self.cond:
            while any(not f.rec for f in t.unissued):
                if not self.cond.wait(end - time.time()) and time.time() > end:
                    fail('internal: a request was never completed by the core', internal=True)
            t.unissued = []
            self.pending.sort(key=lambda f: f.idx)
        if self.limit and len(self.pending) > self.limit[0]:
            fail('%d requests are outstanding, prefetch is %d' % (len(self.pending), self.limit[0]))
        if self.limit and self.recorded - self.yielded > self.limit[1] + 1:
            fail('%d frames were requested but not consumed, backlog is %d' % (self.recorded - self.yielded, self.limit[1]))

    def point(self, what, pred=None):
        t = self.cur
        if _thread.get_ident() != t.ident:
            return                                   # not one of the controlled threads
        if what != 'Future()':
            self.settle(t)                           # requests made so far have been completed by the core
        o = self.dlv if t is self.con else self.con
        t.steps += 1
        self.trace.append('%s:%s' % (t.name[0], what))
        me = pred is None or pred()
        oth = o.alive and (o.pred is None or o.pred())
        if me and oth:
            sw = self.choose(2) if self.pre < self.bound else 0
            self.pre += sw
        elif oth:
            sw = 1
        elif me:
            sw = 0
        else:
            fail('no thread can continue: %s waits at "%s"%s' % (t.name, what, ', completions have all been delivered' if not self.pending else ''))
        if sw:
            t.pred = pred
            self.cur = o
            o.go.release()
            t.go.acquire()
            t.pred = None
        self.fps.add(hash((t.name, what, len(self.pending), self.recorded, self.yielded, sum(f.state for f in self.refs_f))))

    def leave(self, t):
        o = self.dlv if t is self.con else self.con
        self.settle(t)
        t.alive = False
        if o.alive:
            if o.pred is not None and not o.pred():
                fail('%s can not continue after %s has ended' % (o.name, t.name))
            self.cur = o
            o.go.release()

    # completions arrive here on the core's threads
    def completed(self, fut, value, exc):
        with self.cond:
            fut.rec = True
            if value is not None or exc is not None:
                fut.value, fut.exc = value, exc
                self.pending.append(fut)
                self.refs_f.append(fut)
                self.recorded += 1
                if value is not None:
                    self.refs.append(weakref.ref(value))
            self.cond.notify_all()

S = Sched()
CURRENT = {}

def fail(text, internal=False):
    print(json.dumps(dict(fail=text, internal=internal, cfg=CURRENT.get('cfg'), path=[c[0] for c in S.tree], trace=S.trace[-60:])))
    sys.stdout.flush()
    os._exit(3)

class CFuture:
    def __init__(self):
        self.state, self.rec, self.value, self.exc, self.cbs = 0, False, None, None, []
        self.idx = -1
        if S.on and _thread.get_ident() in (S.con.ident, S.dlv.ident):
            S.point('Future()')
            self.idx = S.created
            S.created += 1
            S.cur.unissued.append(self)
    def set_running_or_notify_cancel(self):
        return True
    def set_result(self, v):
        S.completed(self, v, None)
    def set_exception(self, e):
        S.completed(self, None, e)
    def running(self):
        return not self.state
    def cancelled(self):
        return False
    def cancel(self):
        return False
    def done(self):
        S.point('done')
        return bool(self.state)
    def add_done_callback(self, cb):
        S.point('add_done_callback')
        if self.state:
            self.call(cb)
        else:
            self.cbs.append(cb)
    def call(self, cb):
        try:
            cb(self)
        except BaseException as e:
            fail('a completion callback raised %r' % e)
    def exception(self, timeout=None):
        S.point('exception', lambda: self.state)
        return self.exc
    def result(self, timeout=None):
        S.point('result', lambda: self.state)
        if self.exc is not None:
            raise self.exc
        return self.value

class CLock:
    def __init__(self):
        self.owner, self.n = None, 0
    def acquire(self, blocking=True, timeout=-1):
        me = S.cur
        if self.owner not in (None, me):
            if not blocking:
                return False
            S.point('lock', lambda: self.owner is None)
        self.owner = me
        self.n += 1
        return True
    def release(self):
        if self.owner is not S.cur:
            fail('a lock is released by a thread not holding it')
        self.n -= 1
        if not self.n:
            self.owner = None
    __enter__ = acquire
    def __exit__(self, *a):
        self.release()

class CCondition:
    """for implementations that wait for each other with a condition variable"""
    def __init__(self, lock=None):
        self.lock = lock or CLock()
        self.gen = 0
        self.acquire, self.release = self.lock.acquire, self.lock.release
    def __enter__(self):
        return self.lock.acquire()
    def __exit__(self, *a):
        self.lock.release()
    def wait(self, timeout=None):
        n, self.lock.n, self.lock.owner = self.lock.n, 0, None
        g = self.gen
        S.point('wait', lambda: self.gen != g and self.lock.owner is None)
        self.lock.n, self.lock.owner = n, S.cur
        return True
    def wait_for(self, p, timeout=None):
        while not p():
            self.wait()
        return True
    def notify(self, n=1):
        self.gen += 1
    def notify_all(self):
        self.gen += 1

def csleep(t=0):
    if S.on and _thread.get_ident() in (S.con.ident, S.dlv.ident):
        o = S.dlv if S.cur is S.con else S.con
        k = o.steps
        S.point('sleep', lambda: o.steps > k)
    else:
        REAL_SLEEP(t)

REAL_SLEEP = time.sleep

def patch(m):
    import concurrent.futures
    rep = {id(concurrent.futures.Future): CFuture, id(threading.RLock): CLock, id(threading.Lock): CLock, id(threading.Condition): CCondition, id(time.sleep): csleep}
    keep = [concurrent.futures.Future, threading.RLock, threading.Lock, threading.Condition, time.sleep]
    for k, v in list(vars(m).items()):
        if id(v) in rep and any(v is x for x in keep):
            setattr(m, k, rep[id(v)])
    time.sleep = csleep
    if getattr(m, 'gc', None) is gc:                 # frames() collects garbage every time; done here only when it matters
        import types
        g = types.ModuleType('gc')
        g.__dict__.update(vars(gc))
        g.collect = lambda *a: 0
        m.gc = g

# ------------------------------------------------------------------ one execution
def deliver():
    t = S.dlv
    t.ident = _thread.get_ident()
    t.go.acquire()
    while True:
        S.point('idle', lambda: S.pending or S.fin)
        if not S.pending:
            break
        f = S.pending.pop(S.choose(len(S.pending)))
        f.state = 1
        S.point('delivered')
        cbs, f.cbs = f.cbs, []
        for cb in cbs:
            f.call(cb)
        cbs = cb = f = None
    S.leave(t)
    S.over.release()

def run(vs, clip, cfg, bound):
    n, prefetch, backlog, err, stop, close = cfg
    S.refs_f = []
    S.begin(bound)
    S.over = _thread.allocate_lock()
    S.over.acquire()
    S.con.ident = _thread.get_ident()
    S.dlv.ident = None
    S.dlv.pred = lambda: S.pending or S.fin
    _thread.start_new_thread(deliver, ())
    while S.dlv.ident is None:
        REAL_SLEEP(0)
    p = prefetch if prefetch and prefetch > 0 else vs.core.num_threads
    b = p * 3 if backlog is None or backlog < 0 else max(backlog, p)
    S.limit = (p, b)
    got, error, held = [], None, []
    it = clip.frames(prefetch, backlog, close)
    try:
        while True:
            S.point('next')
            try:
                f = next(it)
            except StopIteration:
                break
            S.yielded += 1
            if f.closed:
                fail('frame %d was closed before it was returned' % len(got))
            got.append(int(f[0][0, 0]) if hasattr(f, 'format') else int(f[0][0]))
            if close and held and not held[-1].closed:
                fail('frame %d is still open after the next one has been returned' % (len(got) - 2))
            held.append(f)
            f = None
            if stop is not None and len(got) > stop:
                S.point('close')
                it.close()
                break
    except vs.Error as e:
        error = str(e)
    except BaseException as e:
        fail('iteration raised %r' % e)
    want = list(range(n))
    if stop is not None:
        want = want[:stop + 1]
    if err is not None and err < len(want):
        if error is None:
            fail('frame %d failed but the iteration did not raise (frames %s)' % (err, got))
        if 'boom%d' % err not in error:
            fail('frame %d failed but the iteration raised "%s"' % (err, error))
        want = want[:err]
    elif error is not None:
        fail('the iteration raised "%s"' % error)
    if got != want:
        fail('the iteration returned frames %s instead of %s' % (got, want))
    if close and any(not f.closed for f in held):
        fail('frame %d is still open after the iteration has ended' % [f.closed for f in held].index(False))
    S.fin = True
    if stop is None and err is None and S.pending:
        fail('the iteration ended with requests outstanding')
    S.leave(S.con)
    S.over.acquire()
    S.on = False
    rec = S.recorded
    if rec > n:
        fail('%d requests for %d frames' % (rec, n))
    it = f = None
    keep = {id(x) for x in held}
    S.refs_f = []
    alive = [r() for r in S.refs if r() is not None and id(r()) not in keep and not r().closed]
    for i in range(200):                             # the core's thread may still be on its way out of the callback
        if not alive:
            break
        alive = None
        gc.collect()
        REAL_SLEEP(0.001 * i)
        alive = [r() for r in S.refs if r() is not None and id(r()) not in keep and not r().closed]
    if alive:
        fail('%d frames that were not returned are still referenced after the iteration has ended' % len(alive))
    held = None
    return hash((tuple(got), error, rec))

# ------------------------------------------------------------------ configurations
def configs(thorough):
    out = []
    for n in range(1, 7 if thorough else 6):
        for p in range(1, 4):
            for b in ([p, p + 1, None] if n > p else [p]):
                for err in [None] + list(range(n)):
                    out.append((n, p, b, err, None, False))
                for stop in range(n):
                    out.append((n, p, b, None, stop, False))
                out.append((n, p, b, None, None, True))
                if n > 1:
                    out.append((n, p, b, n - 1, 0, True))
                    out.append((n, p, b, 0, None, True))
    out += [(2, 0, 0, None, None, False), (3, None, 1, None, None, False), (3, -1, -1, 1, None, False)]
    return out

def bounds(cfg, thorough):
    n, p = cfg[0], cfg[1] or 8
    if thorough:
        return 4 if n <= 2 else 3 if n <= 4 else 2
    return 3 if n <= 2 else 2 if n <= 4 or p <= 2 else 1

def make_clip(vs, n, err, audio=False):
    core = vs.core
    blanks = [core.std.BlankClip(width=16, height=2, format=vs.GRAY8, length=1, color=[i]) for i in range(n)]
    clip = blanks[0]
    for b in blanks[1:]:
        clip = clip + b
    if err is not None:
        def sel(n):
            if n == err:
                raise vs.Error('boom%d' % n)
            return clip
        clip2 = core.std.FrameEval(clip, sel)
        return clip2
    return clip

def worker(i, of, thorough, known, slot, only=None, path=None):
    sys.path.insert(0, SITE)
    import vapoursynth as vs
    import vapoursynth.vapoursynth as m
    vs.core.num_threads = 4
    logerr = open(os.devnull, 'w')
    sys.stderr = logerr
    gc.disable()
    stat = open(slot, 'r+b', buffering=0)
    todo = [only] if only else configs(thorough)
    todo.sort(key=lambda c: -c[0] * 10 - (c[1] or 8))
    def mine():
        if only:
            yield only
            return
        with open(slot.rsplit('-', 1)[0] + '.next', 'r+') as q:      # shared among the workers
            while True:
                fcntl.flock(q, fcntl.LOCK_EX)
                q.seek(0)
                k = int(q.read())
                q.seek(0)
                q.write('%8d' % (k + 1))
                q.flush()
                fcntl.flock(q, fcntl.LOCK_UN)
                if k >= len(todo):
                    return
                yield todo[k]
    clips, nconf = {}, 0
    execs, states, maxd, outcomes = 0, set(), 0, set()
    patched = False
    for cfg in todo:
        key = (cfg[0], cfg[3])
        if key not in clips:
            clips[key] = make_clip(vs, *key)
    patch(m)
    for cfg in mine():
        nconf += 1
        S.prefix, S.tree = (path or []), []
        CURRENT['cfg'] = cfg
        bound = bounds(cfg, thorough)
        while True:
            stat.seek(0)
            stat.write((json.dumps([cfg, [c[0] for c in S.tree] or S.prefix]) + '\n').encode().ljust(2000))
            if execs % 64 == 0:
                faulthandler.dump_traceback_later(HANG, exit=True, file=logerr)
            outcomes.add(run(vs, clips[(cfg[0], cfg[3])], cfg, bound))
            execs += 1
            maxd = max(maxd, S.depth)
            states |= {hash((cfg, x)) for x in S.fps}
            if execs % 256 == 0:
                gc.collect()
            if path is not None or not S.advance():
                break
            S.prefix = []
    faulthandler.cancel_dump_traceback_later()
    print(json.dumps(dict(ok=1, execs=execs, states=len(states), depth=maxd, configs=nconf, outcomes=len(outcomes))))
    sys.stdout.flush()
    os._exit(0)

def main():
    a = sys.argv[1:]
    thorough = '--thorough' in a
    def opt(n, d=None):
        return a[a.index(n) + 1] if n in a else d
    known = [a[i + 1].split('=', 1) for i, x in enumerate(a) if x == '--known']
    rdir = opt('--replay-dir', '/tmp')
    os.makedirs(rdir, exist_ok=True)
    replay = opt('--replay')
    if '--worker' in a:
        i, of = map(int, opt('--worker').split('/'))
        cfg = opt('--cfg')
        return worker(i, of, thorough, known, opt('--slot'), tuple(json.loads(cfg)) if cfg else None, json.loads(opt('--path')) if '--path' in a else None)
    t0 = time.time()
    nw = int(opt('--workers', '8'))
    env = dict(os.environ, PYTHONPATH=SITE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    def start(i, extra=[]):
        slot = '%s/.slot%d-%d' % (rdir, os.getpid(), i)
        open(slot, 'w').write(' ' * 2001)
        cmd = [sys.executable, os.path.abspath(__file__), '--worker', '%d/%d' % (i, nw), '--slot', slot] + (['--thorough'] if thorough else []) + extra
        return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env), slot
    def finish(p, slot):
        out, err = p.communicate()
        st = open(slot).read().strip()
        os.unlink(slot)
        for l in out.splitlines():
            if l.startswith('{'):
                return json.loads(l)
        # the process died: which execution was it?
        return dict(died=p.returncode, at=json.loads(st) if st else None, err=err[-500:])
    if replay:
        r = json.load(open(replay))
        p, s = start(0, ['--cfg', json.dumps(r['cfg']), '--path', json.dumps(r['path'])])
        o = finish(p, s)
        print(json.dumps(o, indent=1))
        sys.exit(0 if o.get('ok') else 1)
    open('%s/.slot%d.next' % (rdir, os.getpid()), 'w').write('%8d' % 0)
    ps = [start(i) for i in range(nw)]
    res = [finish(p, s) for p, s in ps]
    os.unlink('%s/.slot%d.next' % (rdir, os.getpid()))
    violation, path = None, None
    tot = dict(execs=0, states=0, depth=0, configs=0)
    for r in res:
        if 'ok' in r:
            for k in tot:
                tot[k] = max(tot[k], r[k]) if k == 'depth' else tot[k] + r[k]
            continue
        if 'died' in r:
            if not r['at']:
                print('worker died at start: %s' % r, file=sys.stderr)
                sys.exit(2)
            # up to 64 executions share one timer: run this one alone
            p, s = start(0, ['--cfg', json.dumps(r['at'][0]), '--path', json.dumps(r['at'][1])])
            c = finish(p, s)
            if 'ok' in c:
                print('worker died but its last execution passes alone: %s' % r, file=sys.stderr)
                sys.exit(2)
            if 'died' in c:
                c = dict(fail='the iteration never returns: the consumer spins without ever letting another thread run' if c['died'] == 1 else 'the process died (%d)' % c['died'], cfg=r['at'][0], path=r['at'][1], trace=[])
            r = c
        if r.get('internal'):
            print(json.dumps(r), file=sys.stderr)
            sys.exit(2)
        n, pf, bl, e, st, cl = r['cfg']
        text = 'frames(prefetch=%s, backlog=%s, close=%s) of a clip of %d frames%s%s: %s' % (pf, bl, cl, n, '' if e is None else ', frame %d failing' % e, '' if st is None else ', closed after frame %d' % st, r['fail'])
        if violation is None:
            violation = text
            path = rdir + '/python_frames.json'
            json.dump(dict(cfg=r['cfg'], path=r['path'], what=text, trace=r.get('trace')), open(path, 'w'), indent=1)
    print(json.dumps(dict(scenario='python_frames', properties='C23', bounds='clips of 1..%d frames x prefetch 1..3 (and the defaults) x backlogs x failing frame x early close x close=True; every delivery order, every switch up to %s preemptions' % (6 if thorough else 5, '2-4' if thorough else '2-3'),
                          items=tot['configs'], executions=tot['execs'], transitions=tot['execs'], states=tot['states'], samples=[], wall_s=round(time.time() - t0, 1), violation=violation, replay=path)))
    sys.exit(1 if violation else 0)

main()
