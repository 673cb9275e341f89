"""C02: several host threads may use the library, and share its objects, at the same time; each gets what it would get alone."""
from common import *
from p_c01 import make_df, unpack, aperture_target, cloud
import io, contextlib

OPS = ('pot', 'potlong', 'dens', 'denslong', 'force', 'eval', 'rcirc', 'rperi', 'tcirc', 'proj', 'mass', 'axes', 'af', 'aflong', 'df', 'moments', 'vdf', 'orbit', 'orbitobj', 'orbitinterp',
    'target', 'targetpart', 'targetdf', 'mkpot', 'mkcyl', 'mkaf', 'mkdf', 'mkbasis', 'spline', 'splinefit', 'integrate', 'sample', 'sampledens', 'samplegm', 'solve', 'bad_integrand', 'bad_root', 'bad_type', 'bad_file', 'bad_user', 'gh', 'actions', 'find', 'export')
TOL = dict(mkcyl=1e-9, mkpot=1e-10, mkbasis=1e-8, targetpart=1e-5, targetdf=1e-5, target=1e-9, gh=1e-9, moments=1e-9)

class Shared(Workload):
    name = 'concurrent-callers'; runs = 8; threads = (1, 4); maxfactor = 40
    def params(self, rng):
        nt = rng.randint(2, 4); pool = rng.sample(OPS, rng.randint(1, 6)) if rng.random() < 0.7 else OPS
        return dict(seed=rng.getrandbits(30), ops=[[(rng.choice(pool), rng.getrandbits(20)) for _ in range(rng.randint(1, 4))] for _ in range(nt)],
            pot=rng.choice(['mn', 'dehnen_tri', 'plummer', 'multipole', 'cylspline', 'composite', 'user']), yields=rng.random() < 0.5)
    def setup(self, p):
        y = p['yields']
        def f(x):
            if y: simlib.yield_gil()
            return -(1+np.sum(x**2, axis=1))**-0.5
        def bad(x):
            if y: simlib.yield_gil()
            if np.any(x > 0.5): raise Bomb('bomb at call')
            return np.exp(-np.sum(x**2, axis=1))
        pl = agama.Potential(**dens('plummer'))
        mult = agama.Potential(type='Multipole', density=agama.Density(**dens('dehnen_tri')), gridSizeR=10, rmin=0.05, rmax=50, lmax=4, mmax=2)
        pot = {'multipole': lambda: mult, 'cylspline': lambda: agama.Potential(type='CylSpline', potential=agama.Potential(**dens('mn')), gridSizeR=8, gridSizeZ=8, rmin=0.1, rmax=20, zmin=0.1, zmax=20, mmax=0),
            'composite': lambda: agama.Potential(agama.Potential(**dens('mn')), mult, pl), 'user': lambda: agama.Potential(f, symmetry='s')}.get(p['pot'], lambda: agama.Potential(**dens(p['pot'])))()
        used = {o[0] for l in p['ops'] for o in l}
        c = dict(pot=pot, pl=pl, dens=agama.Density(**dens('dehnen_tri')), udens=agama.Density(lambda x: -f(x)**5, symmetry='s'), bad=bad, f=f)
        axi = c['mn'] = agama.Potential(**dens('mn'))
        if used & {'af', 'aflong'}: c['af'] = agama.ActionFinder(axi, interp=bool(p['seed'] & 1))
        if 'am' in used: c['am'] = agama.ActionMapper(axi)
        if used & {'df', 'moments', 'vdf', 'targetdf', 'samplegm'}:
            c['df'] = make_df('dp', pl); c['gm'] = agama.GalaxyModel(pl, c['df'], agama.ActionFinder(pl))
        if used & {'target', 'targetpart'}: c['tg'] = aperture_target(1, 1, 't', 3)
        if used & {'targetdf', 'orbit'}: c['ts'] = agama.Target(type='KinemShell', gridr=np.array([0.2, 0.5, 1.]), degree=1)
        if 'orbitinterp' in used: c['orb'] = agama.orbit(potential=pl, ic=points(p['seed'], 1, 6, 0.7)[0], time=5., dtype=object)
        if 'spline' in used: c['spl'] = agama.Spline(np.linspace(0, 1, 9), np.sin(np.linspace(0, 1, 9)))
        if 'gh' in used: c['mat'] = np.abs(NPRNG(p['seed']).normal(size=(60, 2*7)))
        return c
    def op(self, p, c, name, s):
        q = lambda n, d=3: points(s, n, d, 0.8)
        n = 1 + s % 30
        if name == 'pot': return c['pot'].potential(q(n))
        if name == 'potlong': return c['pot'].potential(q(1030+n*40))
        if name == 'dens': return c['dens'].density(q(n))
        if name == 'denslong': return (c['udens'] if s & 32 else c['pot']).density(q(1030+n*40)) if p['pot'] != 'user' or s & 32 else c['dens'].density(q(1030+n*40))
        if name == 'force': return c['pot'].force(q(n if s & 32 else 1500))
        if name == 'eval': return c['pot'].eval(q(n if s & 32 else 1200), pot=True, acc=True, der=True)
        v = np.linspace(0.1, 0.9, 3+n if s & 32 else 140)
        axi = c['pl'] if p['pot'] in ('dehnen_tri', 'multipole', 'composite') else c['pot']
        if name == 'rcirc': return axi.Rcirc(L=v)
        if name == 'tcirc': return axi.Tcirc(axi.potential(np.column_stack((v, 0*v, 0*v)))*0.7)
        if name == 'rperi': return axi.Rperiapo(np.column_stack((v, 0*v, 0*v, 0.1*v, 0.3+0*v, 0*v)))
        if name == 'proj': return c['dens'].projectedDensity(q(2+s % 70, 2), beta=0.3)
        if name == 'mass': return c['dens'].enclosedMass(np.linspace(0.3, 2, 3))
        if name == 'axes': return c['dens'].principalAxes(np.linspace(0.5, 2, 2))
        if name in ('af', 'aflong'): return c['af'](q(n if name == 'af' else 150, 6), actions=True, frequencies=True) if 0 else c['af'](q(n if name == 'af' else 150, 6))
        if name == 'am': return c['am'](np.abs(q(1+n % 4, 6))*[0.2, 0.2, 1, 1, 1, 1]+[0.01, 0.01, 0.3, 0, 0, 0])
        if name == 'df': return c['df'](np.abs(q(n if s & 32 else 1300)))
        if name == 'moments': return c['gm'].moments(np.abs(q(2))+0.1, dens=True, vel=False, vel2=False)
        if name == 'vdf': return np.array([[t(0.1) for t in np.ravel(u)] for u in c['gm'].vdf(np.abs(q(2))+0.1, gridv=np.linspace(-1.2, 1.2, 5))])
        if name in ('orbit', 'orbitobj'):
            kw = dict(trajsize=4) if name == 'orbit' and s & 32 else dict(targets=[c['ts']], trajsize=3) if name == 'orbit' else dict(dtype=object)
            return unpack(agama.orbit(potential=c['pot'], ic=q(1+n % 5, 6), time=1.5, accuracy=1e-5, verbose=False, **kw))
        if name == 'orbitinterp': return c['orb'](np.linspace(0, 5, n))
        if name == 'target': return c['tg'](c['dens'])
        if name == 'targetpart': return c['tg']((q(400, 6), np.linspace(0.5, 1.5, 400)))
        if name == 'targetdf': return c['ts'](c['gm'])
        if name == 'mkpot': return agama.Potential(type='Multipole', density=c['dens'] if s & 32 else c['udens'], gridSizeR=8, rmin=0.05, rmax=50, lmax=2, mmax=2).potential(q(4))
        if name == 'mkcyl': return agama.Potential(type='CylSpline', particles=(cloud(s, 100)), symmetry='a', gridSizeR=5, gridSizeZ=5, rmin=0.1, rmax=10, zmin=0.1, zmax=10).potential(q(4)) if s & 32 else agama.Potential(type='CylSpline', potential=c['pot'], symmetry='a', mmax=0, gridSizeR=5, gridSizeZ=5, rmin=0.1, rmax=10, zmin=0.1, zmax=10).potential(q(4))
        if name == 'mkbasis': return agama.Potential(type='BasisSet', density=c['dens'], nmax=3, lmax=2, mmax=2, r0=1.).potential(q(4))
        if name == 'mkaf': return agama.ActionFinder(c['mn'] if s & 32 else c['pl'], interp=False)(q(4, 6))
        if name == 'mkdf': return agama.DistributionFunction(type='QuasiSpherical', potential=c['pl'], density=c['pl'])(np.abs(q(4)))
        if name == 'spline': return [c['spl'](np.linspace(0, 1, n)), c['spl'](0.3, der=1)]
        if name == 'splinefit': return agama.splineApprox(np.linspace(0, 1, 8), np.linspace(0, 1, 60), np.sin(np.linspace(0, 9, 60)+s % 7), smooth=0.5)(np.linspace(0, 1, 9))
        g = lambda x: (simlib.yield_gil() if p['yields'] else None, np.exp(-np.sum(x**2, axis=1)))[1]
        if name == 'integrate': return list(agama.integrateNdim(g, [-1]*2, [1.5]*2, toler=1e-4, maxeval=1500))
        if name == 'sample':
            r = agama.sampleNdim(g, 60, [-1]*2, [1.5]*2); return [np.shape(r[0]), bool(np.all(r[0] >= -1) and np.all(r[0] <= 1.5)), abs(r[1]/1.7-1) < 0.5]
        if name == 'sampledens':
            r = c['dens'].sample(50, potential=c['pl'] if s & 32 else None) if s & 32 else c['dens'].sample(50); return [np.shape(r[0]), bool(np.all(np.isfinite(r[0]))), abs(np.sum(r[1])-1) < 0.3]
        if name == 'samplegm':
            r = c['gm'].sample(30); return [np.shape(r[0]), bool(np.all(np.isfinite(r[0]))), bool(np.sum(r[1]) > 0)]
        if name == 'solve':
            A = np.abs(NPRNG(s).normal(size=(3, 8)))+0.1; r = A.dot(np.ones(8)); return agama.solveOpt(matrix=A, rhs=r, rpenl=np.ones(3))
        if name == 'bad_integrand': return agama.integrateNdim(c['bad'], [-1]*2, [1.5]*2)
        if name == 'bad_root': return c['pl'].Rcirc(E=np.linspace(0.5, 2, 3+n))        # positive energy
        if name == 'bad_type': return agama.Potential(type='Nonexistent')
        if name == 'bad_file': return agama.readSnapshot(SCRATCH+'/does_not_exist_%d' % (s % 3))
        if name == 'bad_user':
            d = agama.Density(c['bad'], symmetry='t'); return d.density(q(1100))
        if name == 'gh': return agama.ghMoments(degree=2, gridv=np.linspace(-1, 1, 6), matrix=c['mat'], ghorder=4)
        if name == 'actions': return agama.actions(c['pl'] if s & 32 else axi if p['pot'] != 'user' else c['pl'], q(n, 6), fd=0.5)
        if name == 'find': return [axi.Rmax(axi.potential(1., 0., 0.)), axi.Rcirc(L=0.3)]
        if name == 'export':
            import threading
            f = SCRATCH+'/c02_%d_%d.ini' % (os.getpid(), s); m = c['pot'] if p['pot'] in ('multipole', 'cylspline', 'composite') else c['dens']
            m.export(f); r = open(f, 'rb').read().decode(); os.unlink(f); return r
        raise RuntimeError(name)
    def attempt(self, p, c, name, s):
        try: return self.op(p, c, name, s), None
        except Exception as e: return None, (type(e).__name__, msg1(str(e))[:200])
    def run(self, p, ctx, x):
        h0 = sigint_handler(); err = io.StringIO(); o = {}
        def body(i): return lambda: [self.attempt(p, ctx, n, s) for n, s in p['ops'][i]]
        fns = [body(i) for i in range(len(p['ops']))]
        with contextlib.redirect_stderr(err):
            if x.get('seq'): r = [(f(), None) for f in fns]
            else: r = simlib.run_threads(fns)
            o['r'] = [q[0] for q in r]; o['exc'] = [repr(q[1]) if q[1] is not None else None for q in r]
            o['handler'] = sigint_handler() == h0
            if not x.get('seq'): o['after'] = [self.attempt(p, ctx, *p['ops'][i][0]) for i in range(len(p['ops']))]
        return o
    def refspec(self, p): return [('ref', dict(policy='seq', nthreads=1), dict(seq=1)), ('conc', dict(policy='seq', nthreads=1), {})]
    def refcheck(self, p, ref):
        r = ref['ref']
        if r.exc is not None: return [('%s:ref-exception' % self.name, str(r.exc))]
        for l, ops in zip(r.obs['r'], p['ops']):
            for (v, e), (n, s) in zip(l, ops):
                if e is not None and not n.startswith('bad') and not (n in ('export',)): return [('%s:ref-exception:%s' % (self.name, n), 'operation %s failed: %s' % (n, e))]
        return self.verdict(p, ref, ref['conc'])
    def judge(self, p, ref, out, cfg, x): return self.verdict(p, ref, out)
    def cmp(self, n, a, b):
        if (a[1] is None) != (b[1] is None): return 'failed: %s' % (b[1],) if b[1] else 'did not fail'
        if a[1] is not None: return '' if a[1] == b[1] else 'failed with %s instead of %s' % (b[1], a[1])
        return same(a[0], b[0], TOL.get(n, 0), TOL.get(n, 0)*0.1)
    def verdict(self, p, ref, out):
        if out.exc is not None: return [('%s:harness' % self.name, str(out.exc))]
        g = ref['ref'].obs; o = out.obs; v = []
        if not o['handler']: v.append(('%s:handler' % self.name, 'the interrupt handler is not the one in place before the calls'))
        for i, ops in enumerate(p['ops']):
            if o['exc'][i]: v.append(('%s:thread' % self.name, 'thread %d ended with %s' % (i, o['exc'][i]))); continue
            for j, (n, s) in enumerate(ops):
                d = self.cmp(n, g['r'][i][j], o['r'][i][j])
                if d: v.append(('%s:%s' % (self.name, n), 'call %d (%s) of thread %d, made while other threads use the library, differs from the same call alone: %s' % (j, n, i, d)))
            if 'after' in o:
                n = ops[0][0]; d = self.cmp(n, g['r'][i][0], o['after'][i])
                if d: v.append(('%s:after:%s' % (self.name, n), 'after the concurrent calls, %s differs from the same call alone: %s' % (n, d)))
        return v
    def stats(self, p, out, x): return dict(host_threads=len(p['ops']), calls=sum(len(l) for l in p['ops']))

WORKLOADS = [Shared()]
