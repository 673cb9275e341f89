"""C12: an allocation that fails inside a parallel computation is reported to the caller as an exception, and nothing else is affected."""
from common import *
from p_c01 import aperture_target
import p_c02, io, contextlib, gc

class NoMem(p_c02.Shared):
    """one operation of the catalogue, during which one or several allocations made inside parallel regions fail"""
    name = 'allocation-failure'; runs = 14; threads = (1, 5)
    OPS = ('denslong', 'potlong', 'force', 'eval', 'rcirc', 'rperi', 'tcirc', 'proj', 'mass', 'axes', 'aflong', 'df', 'moments', 'vdf', 'orbit', 'orbitobj', 'orbitlyap', 'target', 'targetpart', 'targetdf',
        'mkpot', 'mkcyl', 'mkaf', 'mkdf', 'mkbasis', 'splinefit', 'integrate', 'sample', 'sampledens', 'samplegm', 'gh', 'ghfit', 'actions', 'mkpart', 'mkparts', 'mktarget', 'mkafi', 'samplejeans', 'samplejeans', 'splinedens')
    # operations in which an integrand that cannot be computed is logged and left out of the result (documented behaviour: a warning, or a zero or NaN value)
    LENIENT = ('moments', 'vdf', 'axes', 'mass', 'targetdf', 'proj', 'mkdf', 'samplegm')
    NANOK = ('orbit', 'orbitlyap')      # quantities determined when the integration of an orbit ends are NaN if they cannot be computed
    def params(self, rng):
        o = rng.choice(self.OPS)
        return dict(seed=rng.getrandbits(30), ops=[[(o, rng.getrandbits(20) | 32*(rng.random() < 0.3))]], pot=rng.choice(['mn', 'dehnen_tri', 'plummer', 'multipole', 'cylspline', 'composite', 'user']), yields=False)
    def setup(self, p):
        c = super().setup(p)
        if p['ops'][0][0][0] in ('ghfit',): c['mat'] = np.abs(NPRNG(p['seed']).normal(size=(20, 2*7)))
        return c
    def op(self, p, c, name, s):
        if name == 'orbitlyap':
            r = agama.orbit(potential=c['pot'], ic=points(s, 3, 6, 0.8), time=1.5, accuracy=1e-5, verbose=False, lyapunov=True, der=True, trajsize=5)
            return [[np.array(list(np.ravel(q)), dtype=object).shape if 0 else [np.asarray(v, float) for v in np.ravel(q)] if getattr(q, 'dtype', None) == object else q for q in r][0]]
        if name == 'ghfit': return agama.ghMoments(degree=2, gridv=np.linspace(-1, 1, 6), matrix=c['mat'], ghorder=4, ghbasis=np.array([[1, 0.1, 0.5]]*2))
        if name == 'mkafi': return agama.ActionFinder(c['mn'] if s & 1 else c['pl'], interp=True)(points(s, 4, 6, 0.5))
        if name == 'samplejeans':
            r = agama.Density(**dens('mn' if s & 1 else 'plummer')).sample(60, potential=c['mn'] if s & 1 else c['pl'], **(dict(beta=0.1, kappa=0.5) if s & 1 else dict(beta=0.2)))
            return [np.shape(r[0]), bool(np.all(np.isfinite(r[0])))]
        if name == 'splinedens': return agama.splineLogDensity(np.linspace(-1, 1, 6), np.sort(points(s, 60, 1, 0.4)[:, 0]), np.ones(60), infLeft=True, infRight=True)(np.linspace(-1, 1, 5))
        if name == 'mktarget': return aperture_target(1, 1, 't', 3)(c['dens'])
        if name == 'mkparts': return agama.Potential(type='BasisSet' if s & 1 else 'CylSpline', particles=cloud_(s), symmetry='t', **(dict(nmax=3, lmax=2, r0=1.) if s & 1 else dict(gridSizeR=4, gridSizeZ=4, rmin=0.1, rmax=10, zmin=0.1, zmax=10, mmax=2))).potential(points(s, 4, 3, 0.8))
        if name == 'mkpart': return agama.Potential(type='Multipole', particles=cloud_(s), symmetry='t', gridSizeR=8, lmax=2, rmin=0.1, rmax=10).potential(points(s, 4, 3, 0.8))
        return super().op(p, c, name, s)
    TOL = dict(p_c02.TOL, mkpart=1e-9, mkparts=1e-9, mktarget=1e-9, splinefit=1e-4, splinedens=1e-9, mkafi=1e-9)
    def run(self, p, ctx, x):
        h0 = sigint_handler(); err = io.StringIO(); o = {}; n, s = p['ops'][0][0]; rt = simlib.rt
        def attempt(arm):
            agama.setRandomSeed(42)
            m0 = rt.agsim_malloc_failures()
            if arm: rt.agsim_arm_alloc(2)
            try: r = self.op(p, ctx, n, s), None
            except Exception as e: r = None, (type(e).__name__, msg1(str(e))[:200])
            rt.agsim_arm_alloc(0)
            gc.collect()
            return r + (rt.agsim_malloc_failures()-m0,)
        with contextlib.redirect_stderr(err):
            attempt(False); attempt(False); l0 = live()
            o['r'], o['e'], o['m'] = attempt(True); o['leak'] = live()-l0
            o['handler'] = sigint_handler() == h0
            o['r2'], o['e2'], _ = attempt(False)
        return o
    def refspec(self, p): return [('ref', dict(policy='seq', nthreads=1), {})]
    def refcheck(self, p, ref):
        r = ref['ref']
        if r.exc is not None or r.obs['e']: return [('%s:ref-exception' % self.name, 'operation %s failed without faults: %s %s' % (p['ops'][0][0], r.exc, r.obs and r.obs['e']))]
        return []
    def plan(self, rng, p, ref, sidx):
        n = max(1, ref['ref'].allocs); at = rng.choice([rng.randint(1, n), rng.randint(1, n), 1+int(n*rng.random()**4), rng.randint(1, min(n, 40))])
        c = swarm(rng, self.threads, ref['ref'])
        c['faults'] = [('alloc', at)]
        while rng.random() < 0.3: c['faults'].append(('alloc', at+rng.choice([1, 1, 2, rng.randint(1, n)])))
        return c, {}
    def judge(self, p, ref, out, cfg, x):
        op = p['ops'][0][0][0]; n = '%s:%s' % (self.name, op); v = []
        if out.exc is not None: return [(n+':harness', str(out.exc[:2]))]
        o = out.obs; g = ref['ref'].obs; tol = self.TOL.get(op, 0)
        if not o['handler']: v.append((n+':handler', 'the interrupt handler was not restored'))
        if o['e'] is None:
            d = same(unnan(g['r'], o['r']) if out.fired and op in self.NANOK else g['r'], o['r'], tol, tol*0.1)
            if d and not (out.fired and op in self.LENIENT): v.append((n+':swallowed', 'an allocation failed (%s), but the operation returned normally with a wrong result: %s' % (out.fired, d)))
        elif not out.fired: v.append((n+':spurious', 'failed without a fault: %s' % (o['e'],)))
        if o['e2'] is not None: v.append((n+':after', 'the operation repeated after a failure fails: %s' % (o['e2'],)))
        else:
            d = same(g['r'], o['r2'], tol, tol*0.1)
            if d: v.append((n+':after', 'the operation repeated after a failure gives another result: '+d))
        if out.fired and not o['m'] and o['leak'] > max(0, g['leak']): v.append((n+':leak', '%d memory blocks were not released when an allocation failed (%s)' % (o['leak']-max(0, g['leak']), o['e'])))
        return v
    def stats(self, p, out, x): return dict(errors=int(bool(out.obs and out.obs['e']))) if out.fired else {}

def unnan(a, b):
    """a with the elements that are NaN in b replaced by NaN"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b): return [unnan(x, y) for x, y in zip(a, b)]
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype.kind == 'f' and b.dtype.kind == 'f': return np.where(np.isnan(b), b, a)
    if isinstance(a, float) and isinstance(b, float) and b != b: return b
    return a
def cloud_(s):
    from p_c01 import cloud
    return cloud(s, 200)

WORKLOADS = [NoMem()]
