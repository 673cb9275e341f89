"""C05: evaluating an array of points in parallel = evaluating its points one by one, for any size, schedule and team."""
from common import *
from p_c01 import make_df

SIZES = dict(big=[0, 1, 2, 3, 63, 500, 1023, 1024, 1025, 2047, 2048, 2049, 3100, 5000], mid=[0, 1, 2, 63, 64, 65, 127, 128, 129, 200, 300], one=[0, 1, 2, 3, 5, 9])

def leaves(o):
    if isinstance(o, (tuple, list)):
        for x in o: yield from leaves(x)
    else: yield o

def aux(p, lo, hi, k=0):
    """per-point values of an auxiliary parameter, in patterns that a shortcut might mistake for a constant or a ramp"""
    n = p['n']; r = np.random.default_rng(p['seed']+11+k); i = np.arange(n); pat = (p['var'] >> 2 ^ p['seed'] >> 3+k) % 8
    if pat == 0 or n < 2: return np.linspace(lo, hi, n)
    if pat == 1: return r.uniform(lo, hi, n)
    if pat == 2: v = np.full(n, (lo+hi)/2); v[r.integers(n)] = hi; return v           # all but one equal
    if pat == 3: return np.where(i % 1024 == 0, lo, np.where((i % 1024 == 1023) | (i == n-1), lo, lo+(hi-lo)*((i*7) % 13)/13.))   # each block begins and ends with the same value
    if pat == 4: v = np.linspace(lo, hi, n); v[-1] = v[0]; return v
    if pat == 5: return np.full(n, hi)
    if pat == 6: return lo+(hi-lo)*(i % 2)
    return np.repeat(r.uniform(lo, hi, n//7+1), 7)[:n]

def layout(p, X):
    """the same array in a different memory layout or type"""
    k = (p['var'] ^ p['seed'] >> 9) % 9
    if k == 0: return np.repeat(X, 2, axis=0)[::2]
    if k == 1: return np.asfortranarray(X)
    if k == 2 and len(X) and len(X) <= 300: return X.tolist()
    if k == 3: return np.ascontiguousarray(X[::-1])[::-1]
    if k == 4 and X.ndim == 2: return np.column_stack((X, X))[:, :X.shape[1]]
    return X

class Batch(Workload):
    runs = 8; maxfactor = 200
    cls = 'big'
    METH = ()
    tol = 0.0
    def params(self, rng):
        m = rng.choice(self.METH)
        return dict(seed=rng.getrandbits(30), meth=m, n=rng.choice(SIZES[self.size(m)]), src=rng.choice(self.srcs(m)), var=rng.getrandbits(8), units=rng.random() < 0.3, special=rng.random() < 0.4)
    def size(self, m): return self.cls
    def srcs(self, m): return ['plummer', 'mn', 'dehnen_ax', 'log']
    def setup(self, p):
        if p['units']: agama.setUnits(mass=1e3, length=0.7, velocity=1.3)
        c = self.make(p)
        X, kw, f = c['call'] = self.call(p, c)
        return c
    def make(self, p): return {}
    def call(self, p, c): raise NotImplementedError
    def tolerance(self, p): return self.tol
    def xyz(self, p, dim=3):
        q = points(p['seed'], p['n'], dim)
        if p['special'] and p['n'] > 3:
            r = np.random.default_rng(p['seed']+7)
            for k in range(1 + p['n']//50):
                i = r.integers(p['n']); v = [0., 1e-8, 1e6, np.nan][r.integers(4)]
                q[i, r.integers(3) if r.integers(2) else slice(0, min(3, dim))] = v
        return q
    def indices(self, p):
        n = p['n']
        if n <= 40: return list(range(n))
        r = np.random.default_rng(p['seed']+5)
        s = {0, 1, n-1, n-2, n//2} | {i for b in (64, 1024) for k in range(0, n+b, b) for i in (k-1, k) if 0 <= i < n} | set(int(i) for i in r.integers(0, n, 12))
        return sorted(s)
    def run(self, p, ctx, x):
        X, kw, f = ctx['call']
        if p['n'] == 0: kw = {}       # arrays of per-point parameters of length zero are rejected by design
        if not x.get('single'):
            if p['n'] == 0 and x.get('skip0'): return None
            return dict(r=[np.asarray(a) for a in leaves(f(layout(p, X), {k: layout(p, v) if np.ndim(v) else v for k, v in kw.items()}))])
        out = []
        for i in self.indices(p):
            r = f(X[i], {k: (v[i] if np.ndim(v) else v) for k, v in kw.items()})
            out.append([np.asarray(a) for a in leaves(r)])
        return dict(r=out)
    def refspec(self, p): return [('ref', dict(policy='seq', nthreads=1), dict(single=True))]
    def refcheck(self, p, ref):
        if ref['ref'].exc is not None: return [('%s:ref-exception' % self.name, 'point-by-point evaluation failed: %s' % (ref['ref'].exc,))]
        return []
    def judge(self, p, ref, out, cfg, x):
        what = '%s:%s' % (self.name, p['meth'])
        if out.exc is not None: return [(what+':exception', 'evaluation of an array of %d points failed: %s' % (p['n'], out.exc[:2]))]
        want = ref['ref'].obs['r']; got = out.obs['r']
        for a in got:
            if a.shape[:1] != (p['n'],): return [(what+':shape', 'array of %d points gives a result of shape %s' % (p['n'], a.shape))]
        for k, i in enumerate(self.indices(p)):
            if len(want[k]) != len(got): return [(what+':shape', 'number of outputs differs')]
            for w, g in zip(want[k], got):
                d = same(w, np.asarray(g[i], dtype=w.dtype), self.tolerance(p))
                if d: return [(what+':value', 'point %d of %d (team of %d): array and single evaluation differ: %s' % (i, p['n'], cfg['nthreads'], d))]
        return []

class PotEval(Batch):
    name = 'batch-potential'; weight = 1.4
    METH = ('potential', 'force', 'forceDeriv', 'density', 'eval', 'evalt', 'potalt')
    def srcs(self, m): return ['plummer', 'mn', 'dehnen_tri', 'log', 'mult', 'cyl', 'user', 'evolv', 'densexp']
    def params(self, rng):
        p = super().params(rng)
        if p['src'] == 'dehnen_tri': p['n'] = min(p['n'], 1100)
        return p
    def make(self, p):
        s = p['src']
        if s == 'mult': pot = agama.Potential(type='Multipole', density=agama.Density(**dens('dehnen_ax')), lmax=4, gridSizeR=12, rmin=0.01, rmax=100.)
        elif s == 'cyl': pot = agama.Potential(type='CylSpline', potential=agama.Potential(**dens('mn')), gridSizeR=8, gridSizeZ=8, rmin=0.1, rmax=20., zmin=0.1, zmax=20., mmax=0)
        elif s == 'user': pot = agama.Potential(lambda q: -(1+np.sum(q**2, axis=1))**-0.5, symmetry='s')
        elif s == 'evolv': pot = agama.Potential(type='Plummer', mass=1., scaleRadius=1., center=np.array([[0., 0, 0, 0], [1., 0.3, 0.1, 0], [2., 0.2, 0.5, 0.1]]), rotation=[[0, 0], [2, 1.0]], scale=[[0., 1., 1.], [2, 0.5, 1.5]])
        elif s == 'densexp': pot = agama.Potential(type='BasisSet', density=agama.Density(**dens('plummer')), lmax=2, nmax=4)
        else: pot = agama.Potential(**dens(s))
        return dict(pot=pot)
    def call(self, p, c):
        pot = c['pot']; m = p['meth']; X = self.xyz(p); v = p['var']
        t = aux(p, 0, 2)
        if m == 'potential': return X, {}, lambda q, k: pot.potential(q)
        if m == 'force': return X, {}, lambda q, k: pot.force(q)
        if m == 'forceDeriv': return X, {}, lambda q, k: pot.forceDeriv(q)
        if m == 'density': return X, {}, lambda q, k: pot.density(q)
        if m == 'potalt': return X, dict(t=t), lambda q, k: (pot.potential(q, **k), pot.density(q, **k))
        fl = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)][v % 7]
        fl = dict(pot=bool(fl[0]), acc=bool(fl[1]), der=bool(fl[2]))
        return X, dict(t=t) if m == 'evalt' else {}, lambda q, k: pot.eval(q, **fl, **k)

class Interp(Batch):
    name = 'batch-potential-tools'; weight = 1.2; cls = 'mid'
    METH = ('rcircL', 'rcircE', 'tcirc', 'tcirc6', 'rmax', 'rmaxL', 'rperi', 'rperi6', 'proj', 'projeval', 'mass', 'axes', 'dens', 'dens')
    def size(self, m): return 'one' if m in ('mass', 'axes') else 'mid'
    def srcs(self, m): return ['plummer', 'mn', 'dehnen_ax', 'nfw']
    def params(self, rng):
        p = super().params(rng)
        if p['meth'] == 'dens': p['n'] = rng.choice(SIZES['big']); p['src'] = rng.choice(['plummer', 'dehnen_tri', 'user', 'sphharm', 'azimharm', 'evolv', 'comp'])
        if p['meth'] in ('rcircL', 'rcircE', 'tcirc', 'rmax') and rng.random() < 0.3: p['n'] = rng.choice([1023, 1025, 2049])
        if p['n'] == 1 and p['meth'] in ('rcircL', 'rcircE', 'tcirc', 'rmax', 'rmaxL', 'mass', 'axes'): p['n'] = 2     # an array of one number is a single point here
        return p
    def make(self, p):
        if p['meth'] != 'dens': return dict(pot=agama.Potential(**dens(p['src'])))
        s = p['src']; D = agama.Density; d = D(**dens('dehnen_ax')); u = D(lambda q: np.exp(-np.sum(q**2, axis=1)), symmetry='s')
        if s == 'user': return dict(den=u)
        if s == 'sphharm': return dict(den=D(type='DensitySphericalHarmonic', density=d, lmax=4, gridSizeR=10, rmin=0.05, rmax=50.))
        if s == 'azimharm': return dict(den=D(type='DensityAzimuthalHarmonic', density=D(**dens('plummer')), mmax=0, gridSizeR=8, gridSizeZ=8, rmin=0.1, rmax=20., zmin=0.1, zmax=20.))
        if s == 'evolv': return dict(den=D(density=d, center=np.array([[0., 0, 0, 0], [1., 0.3, 0.1, 0], [2., 0.2, 0.5, 0.1]]), rotation=[[0, 0], [2, 1.0]], scale=[[0., 1., 1.], [2, 0.5, 1.5]]))
        if s == 'comp': return dict(den=D(d, D(density=D(**dens('plummer')), center=[0.3, 0.2, 0.1], orientation=[0.3, 0.5, 0.7]), D(**dens('dehnen_tri')), u))
        return dict(den=D(**dens(s)))
    def tolerance(self, p): return 1e-6 if p['meth'] in ('rcircL', 'rcircE', 'tcirc', 'tcirc6', 'rmax', 'rmaxL') else 0.     # many points: an interpolated curve is used
    def call(self, p, c):
        if p['meth'] == 'dens': return self.xyz(p), dict(t=aux(p, 0, 2)) if p['var'] & 1 else dict(t=0.7) if p['var'] & 2 else {}, lambda q, k: c['den'].density(q, **k)
        pot = c['pot']; m = p['meth']; n = p['n']; v = np.random.default_rng(p['seed']).uniform(0.05, 0.9, n)
        E0 = pot.potential(0, 0, 0); E = E0*v
        if m == 'rcircL': return v*2, {}, lambda q, k: pot.Rcirc(L=q)
        if m == 'rcircE': return E, {}, lambda q, k: pot.Rcirc(E=q)
        if m == 'tcirc': return E, {}, lambda q, k: pot.Tcirc(q)
        X6 = points(p['seed'], n, 6, 0.5)
        if m == 'tcirc6': return X6, {}, lambda q, k: pot.Tcirc(q)
        if m in ('rmax', 'rmaxL'): return E, {}, lambda q, k: pot.Rmax(q)
        if m == 'rperi': return np.column_stack((E, v*0.05)).reshape(n, 2), {}, lambda q, k: pot.Rperiapo(q)
        if m == 'rperi6': return X6, {}, lambda q, k: pot.Rperiapo(q)
        X2 = points(p['seed'], n, 2); b = [aux(p, 0, 3, k) for k in range(3)]
        kw = dict(beta=b[0]) if p['var'] & 1 else dict(alpha=b[0], beta=b[1], gamma=b[2]) if p['var'] & 2 else dict(beta=0.7) if p['var'] & 4 else {}
        if p['var'] & 16: kw = dict(kw, t=b[0]*0.5)
        if m == 'proj': return X2, kw, lambda q, k: pot.projectedDensity(q, **k)
        fl = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)][p['var'] % 7]
        fl = dict(pot=bool(fl[0]), acc=bool(fl[1]), der=bool(fl[2]))
        if m == 'projeval': return X2, kw, lambda q, k: pot.projectedEval(q, **fl, **k)
        d = agama.Density(**dens('dehnen_tri'))
        if m == 'mass': return v*3, {}, lambda q, k: d.enclosedMass(q)
        return v*3, {}, lambda q, k: d.principalAxes(q)

class Act(Batch):
    name = 'batch-actions'; weight = 1.0; cls = 'mid'
    METH = ('finder', 'finder', 'finderi', 'standalone', 'mapper')
    def params(self, rng):
        p = super().params(rng)
        if p['meth'] in ('finder', 'finderi') and p['src'] != 'plummer': p['units'] = False
        return p
    def srcs(self, m): return ['plummer', 'nfw'] if m in ('mapper',) else ['plummer', 'mn', 'perfect']
    def make(self, p): return dict(pot=agama.Potential(**dens(p['src'])))
    def call(self, p, c):
        pot = c['pot']; m = p['meth']; n = p['n']; v = p['var']
        fl = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)][v % 7]
        fl = dict(actions=bool(fl[0]), angles=bool(fl[1]), frequencies=bool(fl[2]))
        X = points(p['seed'], n, 6, 0.5)
        if m in ('finder', 'finderi'):
            af = agama.ActionFinder(pot, interp=m == 'finderi')
            return X, {}, lambda q, k: af(q, **fl)
        if m == 'standalone': return X, {}, lambda q, k: agama.actions(pot, q, fd=0.3 if p['src'] not in ('plummer', 'nfw') else 0., **fl)
        am = agama.ActionMapper(pot)
        r = np.random.default_rng(p['seed'])
        A = np.column_stack((r.uniform(0.05, 0.3, (n, 3)), r.uniform(0, 6.28, (n, 3)))).reshape(n, 6)
        fr = bool(v & 1)
        return A, {}, lambda q, k: am(q, frequencies=fr)

class Model(Batch):
    name = 'batch-model'; weight = 1.0; cls = 'one'
    METH = ('df', 'sf', 'userdf', 'dfder', 'userdfder', 'usersf', 'moments', 'moments', 'moments2', 'projdf', 'vdf')
    def size(self, m): return 'one' if m in ('usersf', 'moments', 'moments2', 'projdf', 'vdf') else 'big'
    def srcs(self, m): return ['plummer']
    def params(self, rng):
        p = super().params(rng)
        if p['meth'] == 'usersf': p['n'] = min(p['n'], 2)
        if p['meth'] == 'projdf': p['n'] = min(p['n'], 3)
        if p['meth'] == 'vdf': p['n'] = min(p['n'], 3)
        return p
    def make(self, p):
        pot = agama.Potential(**dens('plummer'))
        return dict(pot=pot, df=make_df('dp', pot), af=agama.ActionFinder(pot, interp=True))
    def call(self, p, c):
        m = p['meth']; n = p['n']; r = np.random.default_rng(p['seed']); v = p['var']
        df = c['df'] if not v & 1 else agama.DistributionFunction(c['df'], make_df('exp', c['pot']))
        gm = agama.GalaxyModel(c['pot'], df, c['af'], *([agama.SelectionFunction(point=[0.3, 0.2, 0.1], radius=1.5, steepness=3.)] if v & 2 else []))
        sep = bool(v & 4)
        if m == 'df': return r.uniform(0, 1, (n, 3)), {}, lambda q, k: df(q)
        if m == 'dfder': return r.uniform(0, 1, (n, 3)), {}, lambda q, k: df(q, der=True)
        if m in ('userdfder', 'usersf'):
            def fn(q, der=False):
                w = np.exp(-np.sum(np.abs(q), axis=1))
                return (w, -w[:, None]*np.array([1., 2., 3.])) if der else w
            if m == 'usersf': g2 = agama.GalaxyModel(c['pot'], df, c['af'], fn); return np.abs(points(p['seed'], n, 3, 0.7))+0.05, {}, lambda q, k: g2.moments(q, dens=True, vel=False, vel2=False)
            u = agama.DistributionFunction(fn); u = agama.DistributionFunction(u, df) if v & 2 else u
            return r.uniform(0, 1, (n, 3)), {}, lambda q, k: u(q, der=True)
        if m == 'userdf':
            u = agama.DistributionFunction(lambda q: np.exp(-np.sum(np.abs(q), axis=1)))
            return r.uniform(0, 1, (n, 3)), {}, lambda q, k: u(q)
        if m == 'sf': s = agama.SelectionFunction(point=[0.3, 0.2, 0.1], radius=1.5, steepness=3.); return self.xyz(p, 6), {}, lambda q, k: s(q)
        X = np.abs(points(p['seed'], n, 3, 0.7))+0.05; b = [aux(p, 0, 3, k) for k in range(3)]
        fl = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)][(v >> 4) % 7]
        if m == 'moments': return X, dict(beta=b[0], gamma=b[1]) if v & 8 else {}, lambda q, k: gm.moments(q, dens=bool(fl[0]), vel=bool(fl[1]), vel2=bool(fl[2]), separate=sep, **k)
        if m == 'moments2': return X[:, :2]*1., dict(alpha=b[0], beta=b[1]*0.5) if v & 8 else {}, lambda q, k: gm.moments(q, dens=True, vel=False, vel2=False, separate=sep, **k)
        if m == 'projdf': return np.column_stack((X[:, :3], np.zeros((n, 5))+[0.1, 0.2, np.inf, np.inf, 0.3])).reshape(n, 8), dict(beta=b[0]) if v & 8 else {}, lambda q, k: gm.projectedDF(q, separate=sep, **k)
        g = np.linspace(-1, 1, 5); vv = np.linspace(-1, 1, 6)
        def vdf(q, k):
            o = gm.vdf(q, gridv=g, dens=True, separate=sep, **k)
            def ev(t):
                if isinstance(t, agama.Spline): return t(vv)
                a = np.asarray(t)
                return np.array([s(vv) for s in a.ravel()]).reshape(a.shape+(6,))
            return [ev(t) for t in o[:3]] + [o[3]]
        return X, dict(beta=b[0]) if v & 8 else {}, vdf

WORKLOADS = [c() for c in (PotEval, Interp, Act, Model)]
