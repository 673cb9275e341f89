"""C03: a failure inside parallel work reaches the caller as one exception, and leaves the library usable."""
from common import *
from p_c01 import make_df, unpack, aperture_target
import io, contextlib, sys, gc

class Null(io.TextIOBase):
    def write(self, s): return len(s)
    def flush(self): pass

def nanor(o, g): return any(np.any(np.isnan(np.asarray(v, dtype=float))) for _, v in core.flat(o['r'])) or not same(g['r'], o['r'])

class Failing(Workload):
    """op(cb, p, ctx) is a library call that evaluates the user function cb; the function fails at some call"""
    runs = 8
    modes = ('raise', 'raise', 'raise', 'type', 'shape')
    tol = 0.0; atol = 0.0
    lasts = (None, None, 1, 2, 5)
    def params(self, rng): return dict(seed=rng.getrandbits(30), mode=rng.choice(self.modes), yields=rng.random() < 0.5, **self.more(rng))
    def more(self, rng): return {}
    def fn(self, x): return np.exp(-np.sum(x**2, axis=1))
    def op(self, cb, p, ctx): raise NotImplementedError
    def refspec(self, p):
        return [('good', dict(policy='seq', nthreads=1), dict(at=None)), ('bad', dict(policy='seq', nthreads=1), dict(at='last', last=self.lasts[0]))]
    def run(self, p, ctx, x):
        h0 = sigint_handler()
        cb = Callback(self.fn, p['mode'] if x['at'] is not None else None, 0, x.get('last'), p['yields'])
        rc0 = sys.getrefcount(cb)
        obs = {}
        if x['at'] == 'last':          # reference: fails in the last part of the evaluation; first count the calls
            cb.mode = None
            self.op(cb, p, ctx); n = cb.calls
            cb = Callback(self.fn, p['mode'], max(0, n//2), x['last'], p['yields']); obs['n'] = n
        elif x['at'] is not None: cb.at = x['at']
        err = io.StringIO()
        lives = []
        def attempt():
            r = None; e = None
            try: r = self.op(cb, p, ctx)
            except Exception as ex: e = (type(ex).__name__, msg1(str(ex)))
            return r, e
        with contextlib.redirect_stderr(err):
            r, e = attempt()
        obs['r'] = r; obs['e'] = e; obs['fired'] = cb.fired; obs['calls'] = cb.calls
        obs['handler'] = sigint_handler() == h0
        # afterwards: the same operation with a healthy function gives the right answer
        if x['at'] is not None:
            cb.armed = False; cb.yields = False
            try: obs['again'] = self.op(cb, p, ctx)
            except Exception as ex: obs['again'] = None; obs['againexc'] = (type(ex).__name__, str(ex)[:300])
            # repeated failures do not accumulate memory
            cb.armed = True
            ls = []; hs = []
            with contextlib.redirect_stderr(Null()):
                for i in range(4):
                    cb.calls = 0; cb.yields = p['yields']; r, e2 = attempt(); r = None; e2 = None; gc.collect(); ls.append(live()); hs.append(heap())
                while 4 <= len(hs) < 12 and min(b-a for a, b in zip(hs[1:], hs[2:])) > 50000:     # an allocator cache that fills up stops growing
                    cb.calls = 0; cb.yields = p['yields']; r, e2 = attempt(); r = None; e2 = None; gc.collect(); hs.append(heap())
            obs['leak'] = ls[3]-ls[2] if ls[3]-ls[2] == ls[2]-ls[1] == ls[1]-ls[0] else 0
            obs['heap'] = min(b-a for a, b in zip(hs[1:], hs[2:]))
        return obs
    def plan(self, rng, p, ref, sidx):
        n = max(1, ref['bad'].obs['n'] if ref['bad'].obs else 1)
        at = rng.choice([0, rng.randrange(n), rng.randrange(n), n-1])
        return swarm(rng, self.threads, ref['good']), dict(at=at, last=rng.choice(self.lasts))
    def refcheck(self, p, ref):
        g = ref['good']
        if g.exc is not None or g.obs['e'] is not None: return [('%s:ref-exception' % self.name, 'fault-free run failed: %s %s' % (g.exc, g.obs and g.obs['e']))]
        return self.verdict(p, ref, ref['bad'])
    def judge(self, p, ref, out, cfg, x): return self.verdict(p, ref, out)
    def verdict(self, p, ref, out):
        n = self.name; v = []
        if out.exc is not None: return [('%s:harness-exception' % n, str(out.exc))]
        o = out.obs; g = ref['good'].obs
        if not o['handler']: v.append(('%s:sigint-handler' % n, 'the interrupt handler was not restored after the failure'))
        if o['fired']:
            if o['e'] is None and not self.tolerated(p, o, g): v.append(('%s:swallowed' % n, 'the user function failed %d time(s) in %d calls but the operation returned normally' % (o['fired'], o['calls'])))
            elif o['e'] is not None:
                want = self.message(p, ref)
                if want and not any(w in o['e'][1] for w in want): v.append(('%s:message' % n, 'unexpected error %r' % (o['e'],)))
        elif o['e'] is not None: v.append(('%s:spurious' % n, 'no failure was injected but the operation failed: %r' % (o['e'],)))
        else:
            d = same(g['r'], o['r'], self.tol, self.atol)
            if d: v.append(('%s:result' % n, 'fault did not occur, but the result differs: '+d))
        if 'again' in o:
            if o.get('againexc'): v.append(('%s:unusable' % n, 'after the failure the same operation with a healthy function fails: %r' % (o['againexc'],)))
            else:
                d = same(g['r'], o['again'], self.tol, self.atol)
                if d: v.append(('%s:after' % n, 'after the failure the same operation gives another result: '+d))
        if o.get('leak', 0) > 0: v.append(('%s:leak' % n, 'every failing call leaks %d allocation(s)' % o['leak']))
        if o.get('heap', 0) > 50000: v.append(('%s:heap' % n, 'every failing call leaks %d bytes' % o['heap']))
        return v
    def tolerated(self, p, o, g): return False      # the library is documented to log the failure and go on
    def message(self, p, ref): return ['user-defined', 'bomb', 'inside integrand', 'a number', 'user function']
    def stats(self, p, out, x): return dict(callback_failures=out.obs['fired']) if out.obs else {}

class FDensExp(Failing):
    name = 'density-expansion'
    def more(self, rng): return dict(type=rng.choice(['DensitySphericalHarmonic', 'DensityAzimuthalHarmonic']), m=rng.choice([0, 2]))
    def op(self, cb, p, ctx):
        kw = dict(gridSizeR=8, rmin=0.1, rmax=10, lmax=2, mmax=p['m']) if 'Spher' in p['type'] else dict(gridSizeR=6, gridSizeZ=6, rmin=0.1, rmax=10, zmin=0.1, zmax=10, mmax=p['m'])
        d = agama.Density(type=p['type'], density=cb, symmetry='t', **kw)
        return d.density(points(1, 5, 3))

class FPotExp(Failing):
    name = 'potential-expansion'; weight = 1.5
    def more(self, rng): return dict(type=rng.choice(['Multipole', 'CylSpline', 'BasisSet', 'Multipole-pot', 'CylSpline-pot', 'BasisSet-pot']), m=rng.choice([0, 2]))
    def op(self, cb, p, ctx):
        t = p['type'].split('-')[0]
        kw = dict(Multipole=dict(gridSizeR=7, rmin=0.1, rmax=10, lmax=2, mmax=p['m']), CylSpline=dict(gridSizeR=5, gridSizeZ=5, rmin=0.1, rmax=10, zmin=0.1, zmax=10, mmax=0 if 'pot' not in p['type'] else p['m']), BasisSet=dict(nmax=3, lmax=2, mmax=p['m'], r0=1.))[t]
        if 'pot' in p['type']: q = agama.Potential(type=t, potential=cb, symmetry='a' if p['m'] == 0 else 't', **kw)
        else: q = agama.Potential(type=t, density=cb, symmetry='a' if t == 'CylSpline' else 't', **kw)
        return q.potential(points(1, 5, 3))
    def fn(self, x): return (1+np.sum(x**2, axis=1))**-2.5*(1 if True else 0)
    def run(self, p, ctx, x): return super().run(p, ctx, x)

class FBatch(Failing):
    name = 'batch-evaluation'; weight = 2.5
    SLOW = ('rcirc', 'tcirc', 'rmax', 'rperi', 'proj', 'projd', 'emass')
    def more(self, rng):
        w = rng.choice(['pot', 'dens', 'force', 'eval', 'rcircL', 'rcircE', 'tcirc', 'rmax', 'rperi', 'proj', 'projd', 'emass'])
        return dict(what=w, n=rng.choice([2, 5, 40, 1030, 2500] if w in ('pot', 'dens', 'force', 'eval') else [2, 8] if w in ('proj', 'emass') else [3, 66, 140]))
    def fn(self, x): return -(1+np.sum(x**2, axis=1))**-0.5
    def tolerated(self, p, o, g): return p['what'] == 'emass' and nanor(o, g)     # issues a warning and returns NaN
    def op(self, cb, p, ctx):
        w = p['what']; q = points(p['seed'], p['n'], 3)
        if w in ('dens', 'projd', 'emass'):
            d = agama.Density(lambda x: -cb(x)**5, symmetry='s')
            return d.density(q) if w == 'dens' else d.projectedDensity(q[:, :2]) if w == 'projd' else d.enclosedMass(np.linspace(0.3, 2, p['n']))
        pot = agama.Potential(cb, symmetry='s')
        v = np.linspace(0.1, 0.9, p['n'])
        return {'pot': lambda: pot.potential(q), 'force': lambda: pot.force(q), 'eval': lambda: pot.eval(q, pot=True, acc=True, der=True),
            'rcircL': lambda: pot.Rcirc(L=v), 'rcircE': lambda: pot.Rcirc(E=-v*0.9), 'tcirc': lambda: pot.Tcirc(-v*0.9), 'rmax': lambda: pot.Rmax(-v*0.9),
            'rperi': lambda: pot.Rperiapo(np.column_stack((-v*0.5-0.3, v*0.1))), 'proj': lambda: pot.projectedEval(q[:, :2], acc=True)}[w]()

class FOrbit(Failing):
    name = 'orbit'; weight = 2.0; modes = ('raise', 'raise', 'type', 'shape')
    def more(self, rng): return dict(n=rng.choice([1, 2, 4, 7]), dtype=rng.choice(['float32', 'complex128', 'object']), ts=rng.choice([0, 1, 3]), der=rng.random() < 0.3, tgt=rng.random() < 0.3)
    def fn(self, x): return -(1+np.sum(x**2, axis=1))**-0.5
    def op(self, cb, p, ctx):
        pot = agama.Potential(cb, symmetry='t')
        kw = {}
        if p['tgt']: kw['targets'] = [agama.Target(type='KinemShell', gridr=np.array([0.2, 0.5, 1.]), degree=1)]
        return unpack(agama.orbit(potential=pot, ic=points(p['seed'], p['n'], 6, 0.8), time=1.5, trajsize=p['ts'], dtype=object if p['dtype'] == 'object' else p['dtype'], der=p['der'], accuracy=1e-4, verbose=False, **kw))

class FModel(Failing):
    name = 'galaxy-model'; weight = 2.0; lasts = (7, 1, 2, 5, 40)
    def more(self, rng): return dict(what=rng.choice(['moments', 'projdf', 'vdf', 'mass', 'dfproj', 'sf', 'dfmass']), n=rng.choice([1, 2, 3]))
    def fn(self, x): return np.exp(-5*np.sum(np.abs(x[:, :3]), axis=1))
    def tolerated(self, p, o, g): return p['what'] != 'dfmass'     # logged, the affected points count as zero
    def setup(self, p):
        pot = agama.Potential(**dens('plummer'))
        c = dict(pot=pot, af=agama.ActionFinder(pot, interp=True), df=make_df('dp', pot))
        return c
    def op(self, cb, p, ctx):
        w = p['what']; q = np.abs(points(p['seed'], p['n'], 3, 0.7))+0.05
        if w == 'dfmass': return agama.DistributionFunction(cb).totalMass()
        if w == 'sf': gm = agama.GalaxyModel(ctx['pot'], ctx['df'], ctx['af'], cb)
        else: gm = agama.GalaxyModel(ctx['pot'], cb, ctx['af'])
        if w in ('moments', 'sf'): return gm.moments(q, dens=True, vel=False, vel2=False)
        if w == 'projdf': return gm.projectedDF(np.column_stack((q, np.zeros((p['n'], 5))+[0.1, 0.2, np.inf, np.inf, 0.3])))
        if w == 'vdf': return np.array([s[0](0.1) if np.ndim(s) else s(0.1) for s in gm.vdf(q, gridv=np.linspace(-1.2, 1.2, 5))])
        if w == 'mass': return gm.totalMass()
        if w == 'dfproj': return agama.Target(type='KinemShell', gridr=np.array([0.2, 0.5, 1.]), degree=1)(gm)

class FTarget(Failing):
    name = 'target-density'; weight = 1.5
    def more(self, rng): return dict(kind=rng.choice(['losvd', 'losvd', 'classic', 'sphharm', 'cyl']), deg=rng.randint(0, 2))
    tol = 1e-9; atol = 1e-12
    def op(self, cb, p, ctx):
        d = agama.Density(cb, symmetry='t'); k = p['kind']
        if k == 'losvd': t = aperture_target(1, p['deg'], 't', 2)
        elif k == 'classic': t = agama.Target(type='DensityClassicTopHat', gridr=np.array([0.2, 0.5, 1.]), stripsPerPane=1, axisratioy=0.9, axisratioz=0.8)
        elif k == 'sphharm': t = agama.Target(type='DensitySphHarm', gridr=np.array([0.2, 0.5, 1., 2.]), lmax=2, mmax=2)
        else: t = agama.Target(type='DensityCylindricalTopHat', gridR=np.array([0.2, 0.5, 1., 2.]), gridz=np.array([0.2, 0.5, 1.]), mmax=2)
        return t(d)

class FCubature(Failing):
    name = 'integrate-sample'; weight = 1.0
    def tolerated(self, p, o, g): return p['what'] in ('axes', 'emass') and nanor(o, g)     # issues a warning and returns NaN
    def more(self, rng): return dict(what=rng.choice(['int', 'sample', 'sample', 'dsample', 'emass', 'axes', 'proj']), d=rng.randint(1, 3), ns=rng.choice([50, 3000, 15000]))
    def fn(self, x): return np.exp(-np.sum(x**2, axis=1))
    def op(self, cb, p, ctx):
        agama.setRandomSeed(42); w = p['what']
        if w == 'int': return list(agama.integrateNdim(cb, [-1]*p['d'], [1.5]*p['d'], toler=1e-4, maxeval=3000))
        if w == 'sample':
            r = agama.sampleNdim(cb, p['ns'], [-1]*p['d'], [1.5]*p['d']); return [np.shape(r[0]), r[1] > 0]
        d = agama.Density(cb, symmetry='t')
        if w == 'dsample': return [np.shape(d.sample(30 if p['ns'] < 100 else 2500)[0])]
        if w == 'emass': return d.enclosedMass([0.5, 1.])
        if w == 'axes': return d.principalAxes([0.5, 1.])
        if w == 'proj': return d.projectedDensity(points(p['seed'], 8, 2), beta=0.4)

class FActions(Failing):
    name = 'action-finder'; weight = 0.6
    def message(self, p, ref): return None
    def more(self, rng): return dict(sym='s', interp=rng.random() < 0.7)
    def fn(self, x): return -(1+np.sum(x**2, axis=1))**-0.5
    def op(self, cb, p, ctx):
        pot = agama.Potential(cb, symmetry=p['sym'])
        af = agama.ActionFinder(pot, interp=p['interp'])
        return af(points(p['seed'], 6, 6, 0.5))

class FSCM(Failing):
    name = 'self-consistent-model'; weight = 0.7; runs = 4
    def tolerated(self, p, o, g): return True
    def message(self, p, ref): return None
    def fn(self, x): return np.exp(-5*np.sum(np.abs(x[:, :3]), axis=1))
    def op(self, cb, p, ctx):
        pot = agama.Potential(**dens('plummer'))
        scm = agama.SelfConsistentModel(rminSph=0.1, rmaxSph=20., sizeRadialSph=4, lmaxAngularSph=0, RminCyl=0.1, RmaxCyl=10., zminCyl=0.1, zmaxCyl=10., sizeRadialCyl=5, sizeVerticalCyl=5, verbose=False, useActionInterpolation=False)
        scm.components.append(agama.Component(df=cb if False else agama.DistributionFunction(cb), disklike=False, rminSph=0.1, rmaxSph=20., sizeRadialSph=4, lmaxAngularSph=0))
        scm.potential = pot
        try: scm.iterate()
        except Exception:
            # the model must still be in a usable state
            assert np.isfinite(scm.potential.potential(1., 0., 0.))
            raise
        return scm.potential.potential(points(1, 4, 3))

class FVelocity(Failing):
    name = 'velocity-sampling'; weight = 1.0
    def message(self, p, ref): return None
    def fn(self, x): return -(1+np.sum(x**2, axis=1))**-0.5
    def more(self, rng): return dict(meth=rng.choice(['jeans', 'eddington']), n=rng.choice([3, 20]))
    def op(self, cb, p, ctx):
        agama.setRandomSeed(42)
        d = agama.Density(**dens('plummer'))
        pot = agama.Potential(cb, symmetry='a' if p['meth'] == 'jeans' else 's')
        r = d.sample(p['n'], potential=pot, beta=0.2, kappa=0.5) if p['meth'] == 'jeans' else d.sample(p['n'], potential=pot)
        return [np.shape(r[0])]

WORKLOADS = [c() for c in (FDensExp, FPotExp, FBatch, FOrbit, FModel, FTarget, FCubature, FActions, FSCM, FVelocity)]
import sys
