"""Generated-input engine: integer choice sequences, deterministic seeding, forked workers,
crash/hang attribution, shrinking on the choice sequence, replay files, evidence.

Every random decision of a check is an integer drawn with Draw.below(n) (0 = simplest).
A case is the list of these integers, so replay and shrinking never depend on a RNG."""
import hashlib, json, mmap, os, random, resource, select, signal, struct, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, '.work')
CAP = 200000          # choices recorded per case in the crash buffer


class Violation(Exception):
    pass


class Discard(Exception):
    """the drawn case is outside the domain of the property"""


class Draw:
    def __init__(self, rng=None, replay=None, shm=None):
        self.rng = rng
        self.replay = replay
        self.pos = 0
        self.trace = []
        self.labels = {}
        self.nt = False
        self._sample = None
        self.shm = shm

    # ---- primitive
    def below(self, n):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        else:
            v = int(self.rng.random() * n)
        self.trace.append(v)
        s = self.shm
        if s is not None:
            k = len(self.trace)
            if k <= CAP:
                struct.pack_into('<q', s, 64 + 8 * (k - 1), v)
                struct.pack_into('<q', s, 24, k)
        return v

    # ---- derived
    def int(self, lo, hi):
        """uniform integer in [lo,hi]; simplest = lo"""
        return lo + self.below(hi - lo + 1)

    def sint(self, m):
        """signed integer in [-m,m]; simplest 0"""
        k = self.below(2 * m + 1)
        return (k + 1) // 2 if k % 2 else -(k // 2)

    def bool(self, p=0.5):
        """True with probability p; simplest False"""
        return self.below(1000) >= 1000 - int(1000 * p)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        k = self.below(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def size(self, hi, lo=0):
        """size in [lo,hi]: mostly small, boundaries 0/1/2 likely, sometimes anything"""
        if hi <= lo:
            return lo
        m = self.below(10)
        if m < 3:
            return lo + self.below(min(3, hi - lo + 1))
        if m < 8:
            return lo + self.below(min(12, hi - lo + 1))
        return lo + self.below(hi - lo + 1)

    def ints(self, n, lo, hi):
        return [self.int(lo, hi) for _ in range(n)]

    def perm(self, n):
        p = list(range(n))
        for i in range(n - 1):
            j = i + self.below(n - i)
            p[i], p[j] = p[j], p[i]
        return p

    def subset(self, n, p=0.5):
        return [i for i in range(n) if self.bool(p)]

    def sample_ids(self, n, k):
        """k distinct ids of range(n), in random order"""
        p = list(range(n))
        out = []
        for i in range(k):
            j = self.below(len(p))
            out.append(p[j])
            p[j] = p[-1]
            p.pop()
        return out

    def dyadic(self, m=64, den=8):
        """exact dyadic rational k/den, |k|<=m; simplest 0"""
        return self.sint(m) / den

    def uniform(self, lo=0., hi=1.):
        return lo + (hi - lo) * (self.below(1 << 20) / float(1 << 20))

    def real(self):
        """a float: small integers, dyadics, generic, tiny, huge, special magnitudes"""
        m = self.below(8)
        if m < 2:
            return float(self.sint(5))
        if m < 4:
            return self.dyadic(200, 16)
        if m < 6:
            return self.uniform(-10, 10)
        if m == 6:
            return self.uniform(-1, 1) * 10 ** self.sint(8)
        return self.choice([0., -0., 1., -1., 0.5, 1e-12, 1e12, -1e-12, -1e12])

    def seed(self):
        return self.below(1 << 31)

    def nprng(self):
        import numpy
        return numpy.random.RandomState(self.seed())

    # ---- bookkeeping
    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def sample(self, text):
        self._sample = text

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg='', *args):
        if not cond:
            raise Violation(msg % args if args else str(msg))

    def assume(self, cond):
        if not cond:
            raise Discard()


# ---------------------------------------------------------------- registry
class Sub:
    def __init__(self, fn, n, rule, hang, thorough):
        self.fn, self.name, self.n, self.rule, self.hang, self.thorough = fn, fn.__name__, n, rule, hang, thorough


REG = []


def check(n=1000, rule='', hang=120, thorough=15):
    def deco(fn):
        REG.append(Sub(fn, n, rule or (fn.__doc__ or '').strip().split('\n')[0], hang, thorough))
        return fn
    return deco


def case_rng(seed, prop, sub, idx):
    h = hashlib.sha256(('%s|%s|%s|%s' % (seed, prop, sub, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'little'))


def run_one(sub, d):
    """-> (status, message); status in ok/discard/fail"""
    try:
        sub.fn(d)
        return 'ok', ''
    except Discard:
        return 'discard', ''
    except Violation as e:
        return 'fail', str(e)
    except MemoryError:
        return 'fail', 'MemoryError: ' + traceback.format_exc()[-1500:]
    except Exception as e:
        return 'fail', 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:])


# ---------------------------------------------------------------- workers
HDR = 64


def new_shm():
    return mmap.mmap(-1, HDR + 8 * CAP)


def worker(prop, seed, tasks, nxt, shm, wfd, stop, variant):
    """tasks: list of (sub, start, end); nxt: shared counter mmap"""
    import fcntl
    out = os.fdopen(wfd, 'w', buffering=1)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    limits(variant)
    lock = open(os.path.join(WORK, 'tasklock.%s.%d' % (prop, os.getppid())), 'w')
    while True:
        fcntl.flock(lock, fcntl.LOCK_EX)
        k = struct.unpack_from('<q', nxt, 0)[0]
        struct.pack_into('<q', nxt, 0, k + 1)
        fcntl.flock(lock, fcntl.LOCK_UN)
        if k >= len(tasks) or stop[0]:
            break
        sub, a, b = tasks[k]
        agg = dict(sub=sub.name, evals=0, discards=0, labels={}, nt=[], samples=[], t=0.)
        t0 = time.time()
        for i in range(a, b):
            if stop[0]:
                break
            struct.pack_into('<qqqd', shm, 0, k, i, a, 0.)
            struct.pack_into('<q', shm, 24, 0)
            struct.pack_into('<d', shm, 32, time.time())
            struct.pack_into('<q', shm, 40, 1)
            d = Draw(rng=case_rng(seed, prop, sub.name, i), shm=shm)
            st, msg = run_one(sub, d)
            struct.pack_into('<q', shm, 40, 0)
            agg['evals'] += 1
            if st == 'discard':
                agg['discards'] += 1
                continue
            for l, c in d.labels.items():
                agg['labels'][l] = agg['labels'].get(l, 0) + 1
            if d.nt:
                agg['nt'].append(hashlib.blake2b(repr(d.trace).encode(), digest_size=6).hexdigest())
                if len(agg['samples']) < 1 and a == 0:
                    agg['samples'].append(d._sample or ('choices ' + repr(d.trace[:60])))
            if st == 'fail':
                out.write(json.dumps(dict(kind='fail', sub=sub.name, index=i, start=a, msg=msg, trace=d.trace)) + '\n')
                if not ALLMODE:
                    break
                break
        agg['t'] = time.time() - t0
        out.write(json.dumps(dict(kind='task', k=k, **agg)) + '\n')
    out.write(json.dumps(dict(kind='done')) + '\n')
    out.flush()
    os._exit(0)


ALLMODE = False


def limits(variant):
    if variant != 'asan':
        g = 1 << 30
        try:
            resource.setrlimit(resource.RLIMIT_AS, (8 * g, 8 * g))
        except Exception:
            pass
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    # library chatter on stdout must not mix with the verdict lines
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


def in_child(fn, timeout, variant):
    """run fn() in a forked child; -> (status, payload) status ok/crash/hang"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            limits(variant)
            res = fn()
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(res))
        except BaseException:
            os._exit(77)
        os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 1.))
        if rl:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    os.close(r)
    if hang:
        return 'hang', 'no answer within %d s' % timeout
    if os.WIFSIGNALED(st):
        return 'crash', 'process killed by signal %d' % os.WTERMSIG(st)
    if os.WEXITSTATUS(st) != 0:
        return 'crash', 'process exited with code %d (99: AddressSanitizer report)' % os.WEXITSTATUS(st)
    return 'ok', json.loads(buf)


def try_trace(sub, trace, timeout, variant):
    """-> (failed, kind, msg, consumed trace)"""
    def f():
        d = Draw(replay=trace)
        st, msg = run_one(sub, d)
        return [st, msg, d.trace]
    st, p = in_child(f, timeout, variant)
    if st == 'ok':
        return p[0] == 'fail', 'fail', p[1], p[2]
    return True, st, p, list(trace)


def shrink(sub, trace, kind, variant, budget=60.):
    """greedy reduction of the choice list; keeps the failure kind"""
    end = time.time() + budget
    tmo = 20 if kind == 'hang' else 60
    best = list(trace)
    msg = None
    seen = set()

    def ok(c):
        nonlocal best, msg
        key = tuple(c)
        if key in seen or time.time() > end:
            return False
        seen.add(key)
        f, k, m, used = try_trace(sub, c, tmo, variant)
        if f and k == kind:
            best = c if k != 'fail' else used
            while best and best[-1] == 0:
                best = best[:-1]
            msg = m
            return True
        return False
    if kind == 'hang':
        return best, msg
    progress = True
    while progress and time.time() < end:
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                c = best[:i] + best[i + size:]
                if len(c) < len(best) and ok(c):
                    progress = True
                else:
                    z = best[:i] + [0] * min(size, len(best) - i) + best[i + size:]
                    if z != best and ok(z):
                        progress = True
                    i += size
            size //= 2
        for i in range(len(best)):
            if time.time() > end or i >= len(best):
                break
            v = best[i]
            for nv in (0, 1, v // 2, v - 1):
                if 0 <= nv < v and i < len(best) and best[i] == v:
                    if ok(best[:i] + [nv] + best[i + 1:]):
                        progress = True
                        break
    return best, msg


# ---------------------------------------------------------------- driver
def run_property(prop, seed, tier, variant, only=None, scale=1.0, allmode=False, jobs=None, max_wall=None, level='exploration', assumptions=(), extra_evidence=None):
    global ALLMODE
    ALLMODE = allmode
    t_start = time.time()
    os.makedirs(WORK, exist_ok=True)
    subs = [s for s in REG if not only or s.name in only]
    jobs = jobs or min(8, os.cpu_count() or 8)
    max_wall = max_wall or (500 if tier == 'quick' else 4 * 3600)
    tasks = []
    for s in subs:
        n = int(max(1, s.n * scale * (1 if tier == 'quick' else s.thorough)))
        ch = max(1, min(400, n // (jobs * 4)))
        for a in range(0, n, ch):
            tasks.append((s, a, min(n, a + ch)))
    # interleave subchecks so that a wall stop still covers all of them
    order = sorted(range(len(tasks)), key=lambda k: (tasks[k][1] / max(1, int(tasks[k][0].n)), k))
    tasks = [tasks[k] for k in order]
    nxt = mmap.mmap(-1, 8)
    stop = mmap.mmap(-1, 1)

    class Stop:
        def __getitem__(self, i):
            return stop[0] != 0
    stopv = Stop()
    W = {}

    def spawn():
        r, w = os.pipe()
        shm = new_shm()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(prop, seed, tasks, nxt, shm, w, stopv, variant)
            finally:
                os._exit(78)
        os.close(w)
        W[r] = dict(pid=pid, shm=shm, buf=b'')
    for _ in range(jobs):
        spawn()
    per = {s.name: dict(evals=0, discards=0, labels={}, nt=set(), samples=[], t=0.) for s in subs}
    byname = {s.name: s for s in subs}
    fails = []
    truncated = False

    def crash_case(w, kind, msg):
        k, i, a, _ = struct.unpack_from('<qqqd', w['shm'], 0)
        running = struct.unpack_from('<q', w['shm'], 40)[0]
        cnt = min(CAP, struct.unpack_from('<q', w['shm'], 24)[0])
        tr = list(struct.unpack_from('<%dq' % cnt, w['shm'], HDR))
        if k < len(tasks):
            fails.append(dict(sub=tasks[k][0].name, index=i, start=a, msg=msg, trace=tr, kind=kind))

    while W:
        rl, _, _ = select.select(list(W), [], [], 1.0)
        for r in rl:
            w = W[r]
            c = os.read(r, 1 << 16)
            if c:
                w['buf'] += c
                while b'\n' in w['buf']:
                    line, w['buf'] = w['buf'].split(b'\n', 1)
                    m = json.loads(line)
                    if m['kind'] == 'fail':
                        m['kind'] = 'fail'
                        fails.append(m)
                        if not allmode:
                            stop[0] = 1
                    elif m['kind'] == 'task':
                        p = per[m['sub']]
                        p['evals'] += m['evals']
                        p['discards'] += m['discards']
                        p['t'] += m['t']
                        for l, cc in m['labels'].items():
                            p['labels'][l] = p['labels'].get(l, 0) + cc
                        p['nt'].update(m['nt'])
                        p['samples'] += m['samples']
                continue
            _, st = os.waitpid(w['pid'], 0)
            os.close(r)
            del W[r]
            if w.get('killed'):
                kind = 'hang'
            elif os.WIFSIGNALED(st) or os.WEXITSTATUS(st) != 0:
                kind = 'crash'
            else:
                continue
            crash_case(w, kind, 'worker ' + (('killed by signal %d' % os.WTERMSIG(st)) if os.WIFSIGNALED(st) else 'exited %d' % os.WEXITSTATUS(st)) + (' (hang)' if kind == 'hang' else ''))
            if not allmode:
                stop[0] = 1
            elif len(fails) < 200:
                spawn()
        now = time.time()
        for r, w in W.items():
            k, i, a, _ = struct.unpack_from('<qqqd', w['shm'], 0)
            if struct.unpack_from('<q', w['shm'], 40)[0] and not w.get('killed'):
                t0 = struct.unpack_from('<d', w['shm'], 32)[0]
                if k < len(tasks) and now - t0 > tasks[k][0].hang:
                    w['killed'] = True
                    os.kill(w['pid'], signal.SIGKILL)
        if now - t_start > max_wall and not stop[0]:
            truncated = True
            stop[0] = 1
    try:
        os.unlink(os.path.join(WORK, 'tasklock.%s.%d' % (prop, os.getpid())))
    except OSError:
        pass
    # ---- evidence
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(
                  evaluations=sum(p['evals'] for p in per.values()),
                  distinct_nontrivial=sum(len(p['nt']) for p in per.values()),
                  rule='cases are choice sequences drawn from VERIF_SEED, one stream per subcheck; distinct = distinct choice sequences; non-trivial per subcheck: '
                       + '; '.join('%s: %s' % (s.name, s.rule) for s in subs),
                  samples=[dict(subcheck=n, case=x) for n, p in per.items() for x in p['samples'][:2]] or ['none'],
                  subchecks={n: dict(evaluations=p['evals'], discarded=p['discards'], distinct_nontrivial=len(p['nt']),
                                     labels=dict(sorted(p['labels'].items())), cpu_s=round(p['t'], 2)) for n, p in per.items()},
                  truncated_by_wall_limit=truncated),
              assumptions=list(assumptions), wall_s=round(time.time() - t_start, 2), violations=0)
    if extra_evidence:
        ev['coverage'].update(extra_evidence)
    return ev, fails, byname


def confirm(prop, f, byname, seed, tier, variant, runpy, shrink_budget=60.):
    """shrink, write the replay file, replay in fresh processes; -> replay path or None"""
    sub = byname[f['sub']]
    os.makedirs(os.path.join(WORK, 'replays'), exist_ok=True)
    path = os.path.join(WORK, 'replays', '%s-%s-%d-%d.json' % (prop, f['sub'], seed, f['index']))
    kind = f['kind']
    tmo = sub.hang if kind == 'hang' else 120
    failed, k, msg, used = try_trace(sub, f['trace'], tmo, variant)
    rec = dict(property=prop, subcheck=f['sub'], seed=seed, tier=tier, index=f['index'], variant=variant)
    if failed:
        tr, m = shrink(sub, used if k == 'fail' else f['trace'], k, variant, shrink_budget)
        rec.update(kind='trace', failure=k, trace=tr, original_trace=f['trace'][:5000], msg=m or msg or f['msg'])
    else:
        rec.update(kind='batch', failure=kind, start=f['start'], msg=f['msg'])
    json.dump(rec, open(path, 'w'))
    hits = 0
    for _ in range(3):
        r = subprocess.run([sys.executable, runpy, prop, '--replay', path, '--no-build'], capture_output=True, text=True)
        hits += r.returncode == 1
    if hits < 3 and rec['kind'] == 'trace':
        rec.update(kind='batch', failure=kind, start=f['start'], msg=f['msg'])
        json.dump(rec, open(path, 'w'))
        hits = 0
        for _ in range(3):
            r = subprocess.run([sys.executable, runpy, prop, '--replay', path, '--no-build'], capture_output=True, text=True)
            hits += r.returncode == 1
    rec['confirmed'] = hits
    json.dump(rec, open(path, 'w'))
    return (path if hits >= 2 else None), rec


def replay(rec, variant):
    subs = {s.name: s for s in REG}
    sub = subs[rec['subcheck']]
    if rec['kind'] == 'trace':
        return try_trace(sub, rec['trace'], sub.hang + 10, variant)

    def f():
        for i in range(rec['start'], rec['index'] + 1):
            d = Draw(rng=case_rng(rec['seed'], rec['property'], sub.name, i))
            st, msg = run_one(sub, d)
            if st == 'fail':
                return [st, msg, d.trace]
        return ['ok', '', []]
    st, p = in_child(f, 600, variant)
    if st == 'ok':
        return p[0] == 'fail', 'fail', p[1], p[2]
    return True, st, p, []
