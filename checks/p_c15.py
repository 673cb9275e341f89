"""C15: a batch of orbits is the same as its orbits integrated one by one, with correct bookkeeping of times, storage and progress."""
from common import *
from common import _lib
from p_c01 import unpack
import types, io, math

class Bar:
    """stand-in for the tqdm progress bar"""
    log = None
    def __init__(self, total=None, unit=None, leave=None):
        self.total = total; self.n = 0; self.closed = 0; self.bad = []; Bar.log.append(self)
        if Bar.mode == 'ctor': raise RuntimeError('no terminal')
    def update(self, n=1):
        if self.closed: self.bad.append('update after close')
        if n < 0: self.bad.append('negative increment %d' % n)
        if Bar.mode == 'yield': simlib.yield_gil()
        self.n += n
        if self.n > self.total: self.bad.append('%d orbits of %d reported as complete' % (self.n, self.total))
        if Bar.mode == 'raise': raise RuntimeError('terminal closed')
    def close(self):
        self.closed += 1
        if Bar.mode == 'raiseclose': raise RuntimeError('terminal closed')

POTS = ('plummer', 'mn', 'dehnen_tri', 'log', 'moving', 'growing', 'user', 'userfail', 'composite')
def make_pot(p, box):
    s = p['src']
    if s == 'moving': return agama.Potential(type='Plummer', center=[[-10, 0, 0, 0, 0.05, 0, 0], [0, 0.5, 0.1, 0, 0.05, 0.02, 0], [10, 1., 0, 0, 0.05, 0, 0]])
    if s == 'growing': return agama.Potential(type='Dehnen', gamma=0.5, axisRatioZ=0.8, scale=[[-10, 0.5, 1.0], [0, 1.0, 1.1], [10, 1.5, 0.9]])
    if s == 'composite': return agama.Potential(dict(type='Plummer', mass=0.5, scaleRadius=0.5), dict(type='MiyamotoNagai', mass=1, scaleRadius=1, scaleHeight=0.2, rotation=0.1))
    if s in ('user', 'userfail'):
        def f(x):
            if p['yields']: simlib.yield_gil()
            if box['bad'] and len(x) and abs(x[0][0]) > 5: box['fired'] += 1; raise Bomb('outside')
            with np.errstate(all='ignore'): return -1/np.sqrt(0.5+np.sum(x**2, axis=1))
        return agama.Potential(potential=f, symmetry='s')
    return agama.Potential(**dens(s))

class OrbitSet(Workload):
    name = 'orbit-set'; runs = 10; threads = (2, 8)
    def params(self, rng):
        n = rng.choice([1, 2, 3, 5, 9, 17, 40])
        src = rng.choice(POTS)
        if src.startswith('user'): n = min(n, 5)
        d = dict(seed=rng.getrandbits(30), src=src, n=n, time=rng.choice(['scalar', 'array', 'array', 'neg', 'mixed', 'zero', 'wide', 'tiny']), start=rng.choice([None, None, 'scalar', 'array']),
            ts=rng.choice([None, 0, 1, 2, 7, 'array', 'array', 'array0']), dtype=rng.choice([None, 'float', 'float32', 'complex', 'complex64', 'object', 'object']), method=rng.choice([None, None, 'hermite', 'dop853']),
            om=rng.choice([0., 0., 0.3, -1.]), acc=rng.choice([1e-4, 1e-6, 1e-8]), maxn=rng.choice([None, None, None, 20]), tgt=rng.choice([0, 0, 0, 1, 2]), der=rng.random() < 0.25, lyap=rng.random() < 0.3,
            units=rng.random() < 0.3, verbose=rng.random() < 0.6, bar=rng.choice(['none', 'quiet', 'quiet', 'yield', 'yield', 'raise', 'ctor', 'raiseclose']), yields=rng.random() < 0.5, special=rng.random() < 0.2)
        if d['om'] and d['method'] == 'hermite': d['method'] = None      # not implemented
        return d
    def setup(self, p):
        if p['units']: agama.setUnits(mass=2., length=3., velocity=0.7)
        box = dict(bad=False, fired=0)
        c = dict(box=box, pot=make_pot(p, box))
        c['t'] = [agama.Target(type='DensitySphHarm', gridr=np.array([0.2, 0.5, 1., 2.]), lmax=2, mmax=2), agama.Target(type='KinemShell', gridr=np.array([0.2, 0.5, 1.]), degree=1)][:p['tgt']]
        n = p['n']; r = NPRNG(p['seed'])
        ic = points(p['seed'], n, 6, 0.7)
        if p['special'] and n > 1:
            ic[0] = 0; ic[-1] = [1e3, 0, 0, 0, 1e-3, 0]
            if n > 3: ic[1, :3] *= 1e-4; ic[2, :2] = 0; ic[2, 3:5] = 0
        if p['src'] == 'userfail' and n > 1: ic[n//2] = [6., 0, 0, 0.1, 0, 0]
        T = r.uniform(0.5, 3, n)
        t = dict(scalar=1.5, array=T, neg=-T, mixed=T*np.where(r.uniform(size=n) < 0.5, -1, 1), zero=np.where(r.uniform(size=n) < 0.4, 0., T), wide=10**r.uniform(-2.5, 1.2, n), tiny=np.where(r.uniform(size=n) < 0.3, 1e-17, T))[p['time']]
        s = dict(scalar=-0.4, array=r.uniform(-3, 3, n)).get(p['start'])
        z = p['ts']
        if z == 'array': z = r.integers(0, 6, n)
        elif z == 'array0': z = np.where(r.uniform(size=n) < 0.5, 0, r.integers(1, 12, n))
        if z is None and not p['tgt'] and not p['lyap'] and p['dtype'] != 'object' or z is None and p['der'] and p['dtype'] != 'object': z = 3
        c.update(ic=ic, time=t, start=s, ts=z)
        return c
    def prepare(self, p, ctx):
        sys_modules = __import__('sys').modules
        if p['bar'] == 'none': sys_modules['tqdm'] = None
        else:
            m = types.ModuleType('tqdm'); m.tqdm = Bar; sys_modules['tqdm'] = m
        Bar.log = []; Bar.mode = p['bar']
    def call(self, p, c, idx, verbose):
        """integrate the orbits listed in idx (an int: a single orbit)"""
        g = lambda v: v if v is None or np.ndim(v) == 0 else v[idx]
        kw = dict(potential=c['pot'], ic=c['ic'][idx], time=g(c['time']), accuracy=p['acc'], verbose=verbose)
        if c['start'] is not None: kw['timestart'] = g(c['start'])
        if c['ts'] is not None: kw['trajsize'] = g(c['ts'])
        if p['dtype']: kw['dtype'] = object if p['dtype'] == 'object' else p['dtype']
        if p['method']: kw['method'] = p['method']
        if p['om']: kw['Omega'] = p['om']
        if p['maxn']: kw['maxNumSteps'] = p['maxn']
        if c['t']: kw['targets'] = c['t'] if len(c['t']) > 1 else c['t'][0]
        if p['der']: kw['der'] = True
        if p['lyap']: kw['lyapunov'] = True
        return agama.orbit(**kw)
    def nout(self, p, c): return len(c['t']) + (c['ts'] is not None or p['dtype'] == 'object') + p['der'] + p['lyap']
    def run(self, p, ctx, x):
        import sys
        ctx['box']['bad'] = p['src'] == 'userfail'
        live0 = live(); h0 = sigint_handler()
        err = sys.stderr; sys.stderr = io.StringIO()
        r = e = None
        try:
            if x.get('single'):
                r = []
                for i in range(p['n']):
                    try: r.append((self.rows(p, ctx, self.call(p, ctx, i, False), single=True), None))
                    except Exception as ex: r.append((None, (type(ex).__name__, msg1(str(ex)))))
            else:
                simlib.rt.agsim_arm_signal(1)
                q = self.call(p, ctx, slice(None), p['verbose'])
                simlib.rt.agsim_arm_signal(0)
                r = self.rows(p, ctx, q, single=False); q = None
        except KeyboardInterrupt as ex: e = ('KeyboardInterrupt', '')
        except Exception as ex: e = (type(ex).__name__, msg1(str(ex)))
        simlib.rt.agsim_arm_signal(0)
        text = sys.stderr.getvalue(); bars = [(b.total, b.n, b.closed, b.bad) for b in Bar.log]
        if e and not x.get('single'):        # again, to see if memory is lost each time
            live0 = live()
            try: self.call(p, ctx, slice(None), p['verbose'])
            except KeyboardInterrupt: pass
            except Exception: pass
        sys.stderr = err
        return dict(r=r, e=e, bars=bars, text=text, live=live()-live0, handler=sigint_handler() == h0, fired=ctx['box']['fired'])
    def rows(self, p, c, q, single):
        """-> list over orbits (or the only one) of lists of plain arrays"""
        k = self.nout(p, c)
        q = [q] if k == 1 else list(q)
        assert len(q) == k, 'number of outputs %d instead of %d' % (len(q), k)
        if single: return [unpack(v) for v in q]
        for v in q: assert len(v) == p['n'], 'length of output'
        return [[unpack(v[i]) for v in q] for i in range(p['n'])]
    def refspec(self, p): return [('ref', {}, dict(single=1)), ('batch', {}, {})]
    def refcheck(self, p, ref):
        v = []; s, b = ref['ref'], ref['batch']
        for r in (s, b):
            if r.exc is not None: return [(self.name+':ref-exception', str(r.exc[:2]))]
        m = self.model(p, s.obs)
        if m: return [(self.name+':model', m)]
        return self.verify(p, ref, b)
    def model(self, p, o):
        """what the documentation says about times and sizes of the output of each orbit"""
        c = self.setup_cached(p)
        for i, (r, e) in enumerate(o['r']):
            if e is not None:
                if p['src'] == 'userfail' or p['time'] == 'tiny' or p['special']: continue
                return 'orbit %d failed: %s' % (i, e)
            T = c['time'] if np.ndim(c['time']) == 0 else c['time'][i]; t0 = 0. if c['start'] is None else c['start'] if np.ndim(c['start']) == 0 else c['start'][i]
            ts = c['ts'] if c['ts'] is None or np.ndim(c['ts']) == 0 else c['ts'][i]
            if p['dtype'] == 'object' and ts is None: ts = 0
            k = len(c['t'])
            if p['special'] and i in (0, 1, 2, p['n']-1): continue      # may pass through the singularity at the origin
            if ts is not None and T != 0 and p['maxn'] is None and p['time'] != 'tiny':
                q = r[k]
                t = np.array(q[0]); X = np.array(q[1]) if len(q) > 1 else None
                if ts > 0 and len(t) != ts: return 'orbit %d: %d points instead of %d' % (i, len(t), ts)
                if len(t) < 1: return 'orbit %d is empty' % i
                if abs(t[-1]-t0-T) > 1e-12*(abs(t0)+abs(T)): return 'orbit %d ends at %g instead of %g' % (i, t[-1], t0+T)
                if ts != 1:
                    if abs(t[0]-t0) > 1e-12*(abs(t0)+abs(T)): return 'orbit %d begins at %g instead of %g' % (i, t[0], t0)
                    d = np.diff(t)*np.sign(T)
                    if not np.all(d > 0): return 'orbit %d: times are not monotonic' % i
                    if ts > 1 and np.max(np.abs(d-abs(T)/(ts-1))) > 1e-9*(abs(T)+abs(t0)): return 'orbit %d: irregular interval of times' % i
                    ic = c['ic'][i]
                    x0 = X[0] if X.dtype.kind != 'c' else np.concatenate((X[0].real, X[0].imag))
                    if not np.allclose(x0, ic, rtol=1e-6, atol=1e-6*np.max(np.abs(ic))): return 'orbit %d begins at %s instead of %s' % (i, x0, ic)
        return ''
    def setup_cached(self, p):
        if not hasattr(self, '_c') or self._cp != p: self._c = self.setup(dict(p, units=False)); self._cp = p
        return self._c
    def bookkeeping(self, p, o, interrupted):
        v = []; n = self.name; bars = o['bars']
        show = p['verbose'] and p['n'] > 1
        if not show and (bars or o['text'] and not o['fired']): v.append((n+':silent', 'output although none was requested: %.200r' % o['text']))
        if show and p['bar'] not in ('none',):
            if len(bars) != 1 and not (interrupted and not bars): return [(n+':progress', '%d progress bars' % len(bars))]
            total, cnt, closed, bad = bars[0] if bars else (p['n'], 0, 1, [])
            if total != p['n']: v.append((n+':progress', 'total of %d orbits instead of %d' % (total, p['n'])))
            if bad: v.append((n+':progress', 'progress of the computation is wrong: %s' % bad[:3]))
            if p['bar'] != 'ctor' and closed != 1 and not (interrupted and closed == 0): v.append((n+':progress', 'the progress bar was closed %d times' % closed))
        if show and not interrupted:
            last = o['text'].replace('\r', '\n').strip().split('\n')[-1]
            if not last.startswith('%d orbits complete' % p['n']) and not o['e']: v.append((n+':progress', 'the final message is %r' % last))
        for l in o['text'].replace('\r', '\n').split('\n'):
            if '/' in l.split(' ')[0]:
                try: a, b = [int(k) for k in l.split(' ')[0].split('/')]
                except ValueError: v.append((n+':progress', 'garbled message %r' % l)); continue
                if b != p['n'] or not 0 < a <= b: v.append((n+':progress', 'message %r' % l))
        return v
    def plan(self, rng, p, ref, sidx):
        cfg = swarm(rng, self.threads, ref['batch'])
        f = []
        st = max(1000, ref['batch'].steps)
        # the clock runs fast enough to make the progress visible, and jumps
        cfg['nsperstep'] = rng.choice([20, max(20, int(1e9*rng.choice([2, 10, 60])/st))])
        for _ in range(rng.choice([0, 0, 1, 3])): f.append(('clockjump', rng.randint(1, st), rng.choice([-3600000, -1500, 1000, 1001, 5000, 86400000])))
        if rng.random() < 0.2: f.append(('signal', rng.randint(1, st)))
        cfg['faults'] = f
        return cfg, {}
    def verify(self, p, ref, out):
        n = self.name; v = []
        if out.exc is not None:      # a signal that Python reports only after the computation is over
            return [] if out.exc[0] == 'KeyboardInterrupt' and out.fired.get('signal', 0) else [(n+':harness', str(out.exc[:2]))]
        o = out.obs; s = ref['ref'].obs; sig = out.fired.get('signal', 0)
        errs = [e for _, e in s['r'] if e is not None]
        if o['e'] is not None:
            if o['e'][0] == 'KeyboardInterrupt':
                if not sig: v.append((n+':spurious', 'KeyboardInterrupt without a signal'))
            elif not errs: v.append((n+':spurious', 'the batch failed although each orbit can be integrated: %s' % (o['e'],)))
            elif o['e'][0] not in [e[0] for e in errs]: v.append((n+':error', 'the batch failed with %s, single orbits with %s' % (o['e'], errs[:2])))
        elif errs: v.append((n+':swallowed', 'the batch succeeded although an orbit fails: %s' % (errs[0],)))
        else:
            for i in range(p['n']):
                d = same(s['r'][i][0], o['r'][i])
                if d: v.append((n+':result', 'orbit %d of %d in the batch differs from the same orbit alone: %s' % (i, p['n'], d))); break
        if not o['handler'] and not sig: v.append((n+':handler', 'the interrupt handler is not restored'))
        if o['r'] is None and o['live'] > 0 and not sig: v.append((n+':leak', '%d objects remain allocated after a failure' % o['live']))
        return v + self.bookkeeping(p, o, bool(sig))
    def judge(self, p, ref, out, cfg, x): return self.verify(p, ref, out)
    def stats(self, p, out, x):
        o = out.obs
        return dict(failed=int(bool(o and o['e'])), updates=sum(b[1] for b in o['bars']) if o else 0, user_failures=o['fired'] if o else 0)

WORKLOADS = [OrbitSet()]
