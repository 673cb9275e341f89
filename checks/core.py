"""Search and replay engine: turns seeds into simulated runs of a property's workloads and judges them.

Vocabulary
  workload  a closed program over the library (one class; parameters drawn from a seed)
  group     one parameter draw ("wseed"): set-up and reference runs are done once, then many simulated runs
  spec      the complete description of one simulated run (JSON); evaluating it again repeats it exactly
"""
import os, sys, json, time, random, hashlib, traceback, pickle, importlib
import numpy as np
import simlib

GROUPSEC = dict(quick=6.0, thorough=60.0)
BAD = ('TERMINATE', 'CRASH', 'HEAP', 'DEADLOCK', 'HANG')

def seed_of(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], 'big')

class Workload:
    name = ''
    weight = 1.0            # share of the groups
    runs = 10               # simulated runs per group
    threads = (2, 8)
    sched = True            # schedules matter
    maxfactor = 30          # step limit relative to the reference run
    refhang = False         # a reference run that exceeds the step limit is a violation (otherwise the draw is too costly: inconclusive)
    def params(self, rng): return {}
    def setup(self, p): return {}
    def prepare(self, p, ctx): pass       # inside the forked child, before the simulation starts
    def run(self, p, ctx, x): raise NotImplementedError
    def refspec(self, p): return [('ref', dict(policy='seq', nthreads=1), {})]
    def plan(self, rng, p, ref, sidx):
        """-> (cfg overrides, extra); default: schedules only"""
        return swarm(rng, self.threads, ref['ref']), {}
    def refcheck(self, p, ref): return []
    def judge(self, p, ref, out, cfg, x): return []

def swarm(rng, threads=(2, 8), ref=None, maxsw=6000):
    """random scheduler configuration"""
    pol = rng.choice(['random']*5 + ['pct']*4 + ['starve']*2 + ['burst']*2 + ['reverse', 'rr'])
    c = dict(seed=rng.getrandbits(48), policy=pol, nthreads=rng.randint(*threads), nested=rng.choice([1, 1, 1, 2]),
        q=int(round(10**rng.uniform(0.9, 3.7))), psync=rng.choice([0, 50, 300, 700]), d=rng.randint(1, 6), victim=rng.randint(0, 7),
        dynteam=rng.choice([0, 0, 0, 400]), pbrk=rng.choice([100, 300, 700]))
    if ref is not None:
        c['horizon'] = max(1000, ref.parsteps if ref.parsteps else ref.steps)
        c['q'] = max(c['q'], int(c['horizon']//maxsw))      # bound the number of preemptions of long runs
    return c

# ---------------------------------------------------------------- comparison of observations
def flat(o, path=''):
    """observation -> list of (path, value) leaves"""
    if isinstance(o, dict):
        for k in o: yield from flat(o[k], path+'/'+str(k))
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o): yield from flat(v, path+'/'+str(i))
    else: yield path, o

def same(a, b, tol=0.0, atol=0.0):
    """'' if observations agree, otherwise a description of the first difference (bitwise if tol==0)"""
    la, lb = list(flat(a)), list(flat(b))
    if [x[0] for x in la] != [x[0] for x in lb]:
        return 'different structure: %s vs %s' % ([x[0] for x in la][:8], [x[0] for x in lb][:8])
    for (k, x), (_, y) in zip(la, lb):
        if isinstance(x, (np.ndarray, np.generic, float)) or isinstance(y, (np.ndarray, np.generic, float)):
            x = np.asarray(x); y = np.asarray(y)
            if x.shape != y.shape or x.dtype != y.dtype: return '%s: shape/type %s %s vs %s %s' % (k, x.shape, x.dtype, y.shape, y.dtype)
            if x.dtype == object:
                for i, (u, v) in enumerate(zip(x.ravel(), y.ravel())):
                    d = same(u, v, tol, atol)
                    if d: return '%s[%d]%s' % (k, i, d)
                continue
            xb = np.ascontiguousarray(x); yb = np.ascontiguousarray(y)
            if xb.tobytes() == yb.tobytes(): continue
            if x.dtype.kind not in 'fc': return '%s: %r vs %r' % (k, x.ravel()[:6], y.ravel()[:6])
            nx, ny = np.isnan(x), np.isnan(y)
            if tol == 0 and atol == 0:
                bad = ~((x == y) | (nx & ny))
                if not bad.any(): continue       # differs in the sign of zero or NaN payload only
            else:
                with np.errstate(all='ignore'):
                    bad = ~((x == y) | (nx & ny) | (np.abs(x-y) <= atol + tol*np.maximum(np.abs(x), np.abs(y))))
                if not bad.any(): continue
            i = np.argmax(bad.ravel())
            return '%s: %d of %d values differ, first at index %d: %.17g vs %.17g' % (k, bad.sum(), bad.size, i, np.ravel(x)[i], np.ravel(y)[i])
        elif x != y: return '%s: %.200r vs %.200r' % (k, x, y)
    return ''

# ---------------------------------------------------------------- evaluation
def load(prop):
    m = importlib.import_module('p_' + prop.lower())
    return {w.name: w for w in m.WORKLOADS}, m

class TooCostly(Exception): pass

class Group:
    """a parameter draw of a workload with its reference runs; lives in its own process"""
    def __init__(self, prop, wl, wseed, params=None):
        self.prop, self.wl, self.wseed = prop, wl, wseed
        self.p = params if params is not None else wl.params(random.Random(seed_of('params', wseed)))
        self.ctx = wl.setup(self.p)
        self.ref = {}
        self.bad = []
        self.nref = 0
        for name, cfg, x in wl.refspec(self.p):
            out = self.execute(simlib.default_cfg(**dict(dict(maxsteps=4000000000), **cfg)), x)
            self.nref += 1
            self.ref[name] = out
            if out.status == 'TIMEOUT' or out.status == 'HANG' and not wl.refhang: raise TooCostly('reference run %s: %s %s' % (name, out.status, out.msg[:200]))
            if out.status in BAD: self.bad.append(('%s:ref-%s:%s' % (wl.name, name, out.status), 'reference run %s: %s %s%s' % (name, out.status, out.msg[:400], callers(out.msg))))
            elif out.status not in ('OK', 'FAIL'): raise RuntimeError('reference run %s of %s: %s %s' % (name, wl.name, out.status, out.msg))
        if not self.bad: self.bad = list(wl.refcheck(self.p, self.ref))
    def execute(self, cfg, x, want_dec=False, wall=60.0):
        def body(): return self.wl.run(self.p, self.ctx, x)
        return simlib.execute(body, cfg, want_dec=want_dec, wall=wall, prepare=lambda: self.wl.prepare(self.p, self.ctx))
    def limit(self):
        m = max(o.steps for o in self.ref.values()) if self.ref else 1000000
        return int(m*self.wl.maxfactor + 20000000)
    def judge(self, out, cfg, x):
        wl = self.wl
        if out.status in BAD:
            extra = wl.badstatus(self.p, self.ref, out, cfg, x) if hasattr(wl, 'badstatus') else None
            if extra is not None: return extra
            return [('%s:%s' % (wl.name, out.status), '%s: %s%s' % (out.status, out.msg[:1000], callers(out.msg)))]
        if out.status in ('TIMEOUT', 'INTERNAL', 'NONE'): return None      # inconclusive
        if out.status == 'FAIL': return [('%s:fail' % wl.name, out.msg[:600])]
        return list(wl.judge(self.p, self.ref, out, cfg, x))
    def spec(self, cfg, x, sidx):
        return dict(prop=self.prop, workload=self.wl.name, wseed=self.wseed, sidx=sidx, params=self.p, cfg=cfg, x=x)

def callers(msg):
    """readable form of the addresses in a crash message"""
    import re
    m = re.search(r'callers ((?:[0-9a-f]+ ?)+)', msg)
    if not m: return ''
    pcs = [int(x, 16) for x in m.group(1).split()]
    d = simlib.symbolize(pcs)
    return ' [' + ' <- '.join(str(d[x]) for x in pcs if x in d) + ']'

def run_group(prop, wl, wseed, emit, tier, deadline):
    rng = random.Random(seed_of('plan', wseed))
    try:
        g = Group(prop, wl, wseed)
    except TooCostly as e:
        emit(dict(t='skip', wl=wl.name, msg=str(e)))
        return
    except Exception as e:
        sp = dict(prop=prop, workload=wl.name, wseed=wseed, sidx=-1, params=None, cfg=None, x=None)
        emit(dict(t='viol', spec=sp, sig='%s:setup' % wl.name, msg='set-up failed: %s: %s' % (type(e).__name__, str(e)[:500]), hash='-', tb=traceback.format_exc()[-1500:]))
        return
    emit(dict(t='group', wl=wl.name, nref=g.nref, refsteps=max(o.steps for o in g.ref.values())))
    for sig, msg in g.bad:
        emit(dict(t='viol', spec=g.spec(None, None, -1), sig=sig, msg=msg, hash='-'))
    if g.bad: return
    brk = set(); fresh = False
    n = wl.runs if not callable(wl.runs) else wl.runs(g.p, g.ref, tier)
    tend = min(deadline, time.time() + GROUPSEC[tier])       # costly parameter draws get fewer runs
    for sidx in range(n):
        if time.time() > (tend if sidx > 0 and not fresh else deadline): break     # races found in the previous run are followed up in any case
        cfg, x = wl.plan(rng, g.p, g.ref, sidx)
        cfg = simlib.default_cfg(**cfg)
        cfg['maxsteps'] = g.limit()
        if wl.sched and sidx < 2 and not (fresh and time.time() > tend): cfg['racedetect'] = 1
        elif brk and (fresh or rng.random() < 0.7): cfg['brk'] = sorted(brk)
        double = sidx == n-1 or (sidx == 2)
        out = g.execute(cfg, x, wall=30.0)
        n0 = len(brk)
        for r in out.races:
            if len(brk) < simlib.MAXBRK-2: brk.add(r[0]); brk.add(r[1])
        fresh = len(brk) > n0
        v = g.judge(out, cfg, x)
        rec = dict(t='run', wl=wl.name, st=out.status, h=out.hash, steps=out.steps, sw=out.switches, pre=out.preempts, par=out.parallels, tm=out.maxteam,
            pol=cfg['policy'], nt=cfg['nthreads'], fired=out.fired, vc=out.vclock_ns, races=len(out.races), wall=round(out.wall, 4), io=out.ioops, shr=out.shrunk)
        if hasattr(wl, 'stats'): rec['stats'] = wl.stats(g.p, out, x)
        if v is None: rec['inc'] = out.status + ' ' + out.msg[:300]; v = []
        if double and v == []:
            cfg2 = dict(cfg); o2 = g.execute(cfg2, x, wall=60.0)
            rec['dbl'] = int(o2.hash == out.hash and o2.status == out.status)
            if not rec['dbl']: rec['dblspec'] = g.spec(cfg, x, sidx)
        emit(rec)
        for sig, msg in v:
            emit(dict(t='viol', spec=g.spec(cfg, x, sidx), sig=sig, msg=msg, hash=out.hash))
        if v: break

def evaluate(spec, want_dec=False):
    """-> (list of (sig,msg) or None, Out)"""
    wls, _ = load(spec['prop'])
    wl = wls[spec['workload']]
    try: g = Group(spec['prop'], wl, spec['wseed'], spec['params'])
    except TooCostly: return [], None, None
    except Exception as e:
        return [('%s:setup' % wl.name, 'set-up failed: %s: %s' % (type(e).__name__, str(e)[:500]))], None, None
    if spec['sidx'] < 0 or g.bad: return g.bad, None, g
    out = g.execute(spec['cfg'], spec['x'], want_dec=want_dec)
    return g.judge(out, spec['cfg'], spec['x']), out, g

# ---------------------------------------------------------------- minimisation
def ddmin(items, test, budget):
    n = 2
    while len(items) >= 1 and time.time() < budget:
        size = max(1, len(items)//n); chunks = [items[i:i+size] for i in range(0, len(items), size)]
        hit = False
        for i in range(len(chunks)):
            if time.time() > budget: return items
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if test(rest):
                items = rest; n = max(n-1, 2); hit = True; break
        if not hit:
            if size == 1: break
            n = min(len(items), n*2)
    return items

def minimise(spec, sig, seconds):
    """reduce the fault list and the list of scheduling decisions while the same violation persists"""
    t1 = time.time() + seconds
    viol, out, g = evaluate(spec, want_dec=True)
    if out is None or not viol or sig not in [v[0] for v in viol]: return spec, None
    info = dict(decisions=len(out.dec), faults=len(spec['cfg']['faults']))
    cfg = dict(spec['cfg'])
    def holds(c, x=spec['x']):
        o = g.execute(c, x, wall=30)
        v = g.judge(o, c, x)
        return bool(v) and sig in [q[0] for q in v]
    if len(cfg['faults']) > 1:
        cfg['faults'] = ddmin(list(cfg['faults']), lambda f: holds(dict(cfg, faults=f)), t1)
    if cfg['policy'] != 'seq' and not out.decoverflow and g.wl.sched:
        seq = dict(cfg, policy='seq', brk=[])
        if holds(seq): cfg = seq
        else:
            base = dict(cfg, dec=[list(d) for d in out.dec], brk=[])
            if holds(base):
                dec = ddmin(base['dec'], lambda d: holds(dict(base, dec=d)), t1)
                base['dec'] = dec; cfg = base
    sp = dict(spec, cfg=cfg)
    info['decisions_min'] = len(cfg['dec']) if cfg['dec'] is not None else 0
    info['faults_min'] = len(cfg['faults'])
    return sp, info

class Share:
    """divides the time of all workers between the workloads: cheap ones explore many more parameter draws than costly ones"""
    def __init__(self, tag, weights): self.w = weights; self.path = 'share.%s' % tag
    def update(self, fn):
        import fcntl
        with open(self.path, 'a+') as f:
            fcntl.flock(f, fcntl.LOCK_EX); f.seek(0)
            t = f.read(); d = json.loads(t) if t else {n: [0., 0, 0] for n in self.w}      # time spent, groups done, groups in progress
            r = fn(d)
            f.seek(0); f.truncate(); f.write(json.dumps(d))
        return r
    def start(self):
        def fn(d):
            n = min(sorted(d), key=lambda k: (d[k][0] + d[k][2]*max(1., d[k][0]/d[k][1] if d[k][1] else 0))/self.w[k])
            d[n][2] += 1; return n
        return self.update(fn)
    def stop(self, n, t):
        def fn(d): d[n][0] += t; d[n][1] += 1; d[n][2] -= 1
        self.update(fn)

# ---------------------------------------------------------------- command line used by check.py
def worker(argv):
    prop, tier, base, idx, nwork, tstart, tlimit = argv[0], argv[1], int(argv[2]), int(argv[3]), int(argv[4]), float(argv[5]), float(argv[6])
    only = argv[7].split(',') if len(argv) > 7 and argv[7] else None
    wls, mod = load(prop)
    names = sorted(wls)
    if only: names = [n for n in names if n in only]
    deadline = tstart + tlimit
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    def emit(d): out.write(json.dumps(d, default=jsdef)+'\n'); out.flush()
    try: os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[idx % len(os.sched_getaffinity(0))]})
    except OSError: pass
    gi = 0; share = Share(tstart, {n: wls[n].weight for n in names})
    while time.time() < deadline:
        n = share.start(); t0 = time.time()
        wseed = seed_of('group', prop, base, n, idx, gi)
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try: run_group(prop, wls[n], wseed, emit, tier, deadline)
            except BaseException as e:
                emit(dict(t='err', wl=n, wseed=wseed, msg=traceback.format_exc()[-2000:])); code = 1
            os._exit(code)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            # the set-up (outside the simulation) crashed: same verdict on replay
            sp = dict(prop=prop, workload=n, wseed=wseed, sidx=-1, params=None, cfg=None, x=None)
            emit(dict(t='viol', spec=sp, sig='%s:setup-crash' % n, msg='library crashed with signal %d during set-up' % os.WTERMSIG(st), hash='-'))
        share.stop(n, max(0.05, time.time()-t0))
        gi += 1
    emit(dict(t='end', idx=idx, groups=gi))

def jsdef(o):
    if isinstance(o, (np.integer,)): return int(o)
    if isinstance(o, (np.floating,)): return float(o)
    if isinstance(o, np.ndarray): return o.tolist()
    if isinstance(o, bytes): return o.decode('latin1')
    raise TypeError(repr(o))

def isolated(fn):
    """run fn in a forked process exactly as run_group is, so that the process image is the same in search and replay"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(r)
        try: data = json.dumps(fn(), default=jsdef).encode()
        except BaseException: data = json.dumps(dict(error=traceback.format_exc()[-2000:])).encode()
        off = 0
        while off < len(data): off += os.write(w, data[off:off+65536])
        os._exit(0)
    os.close(w); buf = b''
    while True:
        b = os.read(r, 65536)
        if not b: break
        buf += b
    os.close(r); _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st): return dict(signal=os.WTERMSIG(st))
    return json.loads(buf)

def replay(path, verbose=False):
    d = json.load(open(path)); spec = d['spec']
    def fn():
        v, out, g = evaluate(spec, want_dec=verbose)
        rr = dict(viol=v, hash=out.hash if out else '-', status=out.status if out else '-', msg=out.msg[:1500] if out else '', fired=out.fired if out else {}, exc=out.exc if out else None)
        return rr
    r = isolated(fn)
    if 'signal' in r: r = dict(viol=[['%s:setup-crash' % spec['workload'], 'library crashed with signal %d during set-up' % r['signal']]], hash='-', status='-', msg='', fired={})
    return r

if __name__ == '__main__':
    import core
    cmd = sys.argv[1]
    if cmd == 'worker': core.worker(sys.argv[2:])
    elif cmd == 'replay':
        print('RESULT '+json.dumps(core.replay(sys.argv[2], len(sys.argv) > 3), default=core.jsdef))
    elif cmd == 'min':
        d = json.load(open(sys.argv[2]))
        def fn():
            sp, info = core.minimise(d['spec'], d['sig'], float(sys.argv[3]))
            return dict(spec=sp, info=info)
        r = core.isolated(fn)
        print('RESULT '+json.dumps(r, default=core.jsdef))
