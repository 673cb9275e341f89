"""C01: results of every parallel construction and computation do not depend on the schedule or the number of threads."""
from common import *

def cloud(seed, n, kind=0):
    r = NPRNG(seed)
    x = r.normal(size=(n, 3))*np.array([1., 0.8, 0.6] if kind else [1., 1., 1.])
    return x, np.ones(n)/n

class FromParticles(Fn):
    name = 'expansion-from-particles'; weight = 1.6; tol = 1e-10; atol = 1e-11
    def params(self, rng):
        return dict(seed=rng.getrandbits(30), n=rng.choice([1, 7, 60, 300, 700]), type=rng.choice(['Multipole', 'Multipole', 'CylSpline', 'BasisSet', 'DensitySphericalHarmonic', 'DensityAzimuthalHarmonic']),
            l=rng.choice([0, 2, 5]), m=rng.choice([0, 2, 3]), sym=rng.choice(['t', 'a', 's', 'n', 'b']), ng=rng.randint(6, 14), kind=rng.randint(0, 1))
    def run(self, p, ctx, x):
        xyz, m = cloud(p['seed'], p['n'] if p['type'] != 'CylSpline' else min(p['n'], 200), p['kind'])
        kw = dict(type=p['type'], particles=(xyz, m), symmetry=p['sym'], lmax=p['l'], mmax=min(p['m'], p['l']))
        if p['type'] in ('Multipole', 'DensitySphericalHarmonic'): kw.update(gridSizeR=p['ng'])
        if p['type'] in ('CylSpline', 'DensityAzimuthalHarmonic'): kw.update(gridSizeR=max(6, p['ng']//2), gridSizeZ=max(6, p['ng']//2), mmax=p['m'])
        if p['type'] == 'BasisSet': kw.update(nmax=p['ng']//2)
        q = points(p['seed']+1, 12, 3)
        if p['type'].startswith('Density'):
            d = agama.Density(**kw)
            return dict(dens=d.density(q))
        pot = agama.Potential(**kw)
        return dict(pot=pot.potential(q), force=pot.force(q), dens=pot.density(q))
    def mayfail(self, p): return True

class FromModel(Fn):
    name = 'expansion-from-model'; weight = 1.6
    def params(self, rng):
        return dict(seed=rng.getrandbits(30), type=rng.choice(['Multipole', 'CylSpline', 'CylSpline', 'BasisSet', 'DensitySphericalHarmonic', 'DensityAzimuthalHarmonic']), src=rng.choice(['dehnen_ax', 'dehnen_tri', 'spheroid', 'ferrers', 'plummer']),
            frompot=rng.random() < 0.4, l=rng.choice([0, 2, 4, 6]), m=rng.choice([0, 0, 2]), ng=rng.randint(6, 16))
    def run(self, p, ctx, x):
        kw = dict(type=p['type'], lmax=p['l'], mmax=min(p['m'], p['l']))
        src = agama.Potential(**dens(p['src'])) if p['frompot'] and not p['type'].startswith('Density') else agama.Density(**dens(p['src']))
        if p['type'] in ('Multipole', 'DensitySphericalHarmonic'): kw.update(gridSizeR=p['ng'])
        if p['type'] in ('CylSpline', 'DensityAzimuthalHarmonic'):
            ng = 6 + p['ng']//5
            kw.update(gridSizeR=ng, gridSizeZ=ng, mmax=p['m'], rmin=0.1, rmax=20., zmin=0.1, zmax=20.)
            if p['frompot'] is False and p['type'] == 'CylSpline': kw.update(gridSizeR=6, gridSizeZ=6, mmax=0, symmetry='axi')
        if p['type'] == 'BasisSet': kw.update(nmax=p['ng']//2)
        q = points(p['seed']+1, 12, 3)
        if p['type'].startswith('Density'): return dict(dens=agama.Density(density=src, **kw).density(q))
        pot = agama.Potential(**{'potential' if p['frompot'] else 'density': src}, **kw)
        return dict(pot=pot.potential(q), force=pot.force(q), dens=pot.density(q))
    def mayfail(self, p): return True

class Actions(Fn):
    name = 'action-finder-tables'; weight = 1.4
    def params(self, rng): return dict(seed=rng.getrandbits(30), src=rng.choice(['plummer', 'dehnen_sph', 'nfw', 'mn', 'dehnen_ax', 'perfect']), interp=rng.random() < 0.8, n=rng.choice([0, 1, 3, 40]), ang=rng.random() < 0.5)
    def mayfail(self, p): return True
    def setup(self, p): return dict(pot=agama.Potential(**dens(p['src'])))
    def run(self, p, ctx, x):
        af = agama.ActionFinder(ctx['pot'], interp=p['interp'])
        q = points(p['seed'], p['n'], 6, 0.7)
        if p['n'] == 0: return dict(a=0)
        r = af(q, angles=p['ang'], frequencies=p['ang'])
        return dict(a=r)

class Interp(Fn):
    name = 'potential-interpolators'; weight = 0.5
    def params(self, rng): return dict(seed=rng.getrandbits(30), src=rng.choice(['plummer', 'mn', 'dehnen_ax', 'nfw']), n=rng.choice([1, 5, 100]))
    def setup(self, p): return dict(pot=agama.Potential(**dens(p['src'])))
    def run(self, p, ctx, x):
        pot = ctx['pot']; q = points(p['seed'], p['n'], 6, 0.5)
        E = np.linspace(-0.4, -0.02, max(2, p['n']))
        return dict(rperi=pot.Rperiapo(q), rc=pot.Rcirc(E=E), tc=pot.Tcirc(E), rmax=pot.Rmax(E), proj=pot.projectedDensity(q[:8, :2], beta=0.3), mass=pot.enclosedMass(np.abs(q[:4, 0])+0.1))

def make_df(kind, pot):
    if kind == 'dp': return agama.DistributionFunction(type='DoublePowerLaw', norm=1., J0=1., slopeIn=1., slopeOut=6., coefJrIn=1.2, coefJzIn=0.9, coefJrOut=1., coefJzOut=1.)
    if kind == 'qi': return agama.DistributionFunction(type='QuasiIsothermal', potential=pot, Sigma0=1., Rdisk=1., Hdisk=0.2, sigmar0=0.4, Rsigmar=2.)
    if kind == 'exp': return agama.DistributionFunction(type='Exponential', norm=1., Jr0=0.2, Jz0=0.1, Jphi0=0.8)
    if kind == 'qs': return agama.DistributionFunction(type='QuasiSpherical', potential=pot, density=pot)
    if kind == 'qsani': return agama.DistributionFunction(type='QuasiSpherical', potential=pot, density=pot, beta0=0.3, r_a=4.)

class Galaxy(Fn):
    name = 'galaxy-model'; weight = 1.4; maxfactor = 60
    def params(self, rng):
        return dict(seed=rng.getrandbits(30), df=rng.choice(['dp', 'qs', 'exp']), what=rng.choice(['moments', 'projectedDF', 'vdf', 'mapped', 'densdf']), n=rng.choice([1, 2, 3]), sep=rng.random() < 0.3)
    def setup(self, p):
        pot = agama.Potential(**dens('plummer'))
        df = make_df(p['df'], pot)
        af = agama.ActionFinder(pot, interp=True)
        return dict(pot=pot, df=df, af=af)
    def run(self, p, ctx, x):
        gm = agama.GalaxyModel(ctx['pot'], ctx['df'], ctx['af'])
        q = np.abs(points(p['seed'], p['n'], 3, 0.7))+0.05
        if p['what'] == 'moments': return dict(r=gm.moments(q, dens=True, vel=False, vel2=True))
        if p['what'] == 'projectedDF': return dict(r=gm.projectedDF(np.column_stack((q, np.zeros((p['n'], 5))+[0.1, 0.2, np.inf, np.inf, 0.3]))[:, :8]))
        if p['what'] == 'vdf':
            r = gm.vdf(q, gridv=np.linspace(-1.2, 1.2, 6))
            v = np.linspace(-1, 1, 5)
            return dict(r=[np.array([s(v) for s in np.ravel(np.array(t, dtype=object))]) if not callable(t) else t(v) for t in r[:3]])
        if p['what'] == 'densdf':
            d = agama.Density(type='DensitySphericalHarmonic', density=lambda xyz: np.exp(-np.sum(xyz**2, axis=1)), symmetry='s', lmax=0, gridSizeR=8, rmin=0.1, rmax=10)
            return dict(r=d.density(q))
        if p['what'] == 'mapped':
            am = agama.ActionMapper(ctx['pot'])
            return dict(r=am(np.abs(points(p['seed'], 5, 6, 0.2))+0.01))

class DFQuasi(Fn):
    name = 'spherical-df-inversion'; weight = 0.6
    def params(self, rng): return dict(df=rng.choice(['qs', 'qsani']), src=rng.choice(['plummer', 'dehnen_sph', 'nfw']), seed=rng.getrandbits(30))
    def setup(self, p): return dict(pot=agama.Potential(**dens(p['src'])))
    def run(self, p, ctx, x):
        df = make_df(p['df'], ctx['pot'])
        return dict(f=df(np.abs(points(p['seed'], 20, 3, 0.5))))

class SCM(Fn):
    name = 'self-consistent-model'; weight = 0.5; runs = 5; tol = 1e-9; maxfactor = 60
    def params(self, rng): return dict(seed=rng.getrandbits(30), disk=rng.random() < 0.5)
    def run(self, p, ctx, x):
        pot = agama.Potential(**dens('plummer'))
        df = make_df('qs', pot)
        scm = agama.SelfConsistentModel(rminSph=0.1, rmaxSph=20., sizeRadialSph=5, lmaxAngularSph=0, RminCyl=0.1, RmaxCyl=10., zminCyl=0.1, zmaxCyl=10., sizeRadialCyl=5, sizeVerticalCyl=5, verbose=False, useActionInterpolation=False)
        scm.components.append(agama.Component(df=df, disklike=False, rminSph=0.1, rmaxSph=20., sizeRadialSph=5, lmaxAngularSph=0))
        if p['disk']: scm.components.append(agama.Component(density=agama.Density(type='Disk', surfaceDensity=0.02, scaleRadius=1., scaleHeight=0.2), disklike=True))
        scm.potential = pot
        scm.iterate()
        q = points(p['seed'], 6, 3)
        return dict(pot=scm.potential.potential(q), dens=scm.components[0].density.density(q))

def small_target(deg, sym):
    g = np.array([-0.3, 0.3])
    return agama.Target(type='LOSVD', degree=deg, gridx=g, gridy=g, gridv=np.linspace(-1., 1., 3), apertures=[np.array([[0.1, 0.1], [0.25, 0.1], [0.1, 0.2]])], symmetry=sym, psf=0.1, beta=0.6)

def aperture_target(rng_seed, deg, sym, npix=4, psf=0.1):
    g = np.linspace(-1., 1., npix+1)
    ap = [np.array([[0.1, 0.1], [0.6, 0.1], [0.6, 0.5], [0.1, 0.5]]), np.array([[-0.5, -0.6], [0., -0.3], [-0.4, 0.2]]), np.array([[-0.2, -0.2], [0.2, -0.2], [0., 0.3]])]
    return agama.Target(type='LOSVD', degree=deg, gridx=g, gridy=g, gridv=np.linspace(-1.5, 1.5, 6), apertures=ap, symmetry=sym, psf=psf, velpsf=0.1, beta=0.6, alpha=0.2)

class Targets(Fn):
    name = 'targets'; weight = 1.6; tol = 1e-9; atol = 1e-9; maxfactor = 60
    tolpaths = {'part': (2e-5, 1e-6), 'df': (2e-5, 1e-6)}    # single-precision storage, order of summation
    def params(self, rng):
        return dict(seed=rng.getrandbits(30), kind=rng.choice(['losvd', 'losvd', 'shell', 'classic', 'sphharm', 'cyl']), deg=rng.randint(0, 3), sym=rng.choice(['t', 'a', 's', 'n']), n=rng.choice([1, 2, 9, 200]),
            what=rng.choice(['dens', 'part', 'part']), npix=rng.randint(2, 4))
    def setup(self, p):
        pot = agama.Potential(**dens('plummer')); c = dict(pot=pot)
        if p['what'] == 'df': c['gm'] = agama.GalaxyModel(pot, make_df('dp', pot), agama.ActionFinder(pot, interp=True))
        return c
    def run(self, p, ctx, x):
        k = p['kind']
        if k == 'losvd': t = small_target(p['deg'], p['sym']) if p['what'] == 'df' else aperture_target(p['seed'], p['deg'], p['sym'], p['npix'])
        elif k == 'shell': t = agama.Target(type='KinemShell', gridr=np.array([0.2, 1.] if p['what'] == 'df' else [0.2, 0.5, 1.]), degree=p['deg'])
        elif k == 'classic': t = agama.Target(type='DensityClassicLinear' if p['deg'] % 2 else 'DensityClassicTopHat', gridr=np.array([0.2, 0.5, 1., 2.]), stripsPerPane=2, axisratioy=0.9, axisratioz=0.8)
        elif k == 'sphharm': t = agama.Target(type='DensitySphHarm', gridr=np.array([0.2, 0.5, 1., 2.]), lmax=4, mmax=2)
        else: t = agama.Target(type='DensityCylindricalLinear' if p['deg'] % 2 else 'DensityCylindricalTopHat', gridR=np.array([0.2, 0.5, 1., 2.]), gridz=np.array([0.2, 0.5, 1.]), mmax=2)
        if p['what'] == 'dens' and k != 'shell': return dict(dens=t(ctx['pot']))
        if p['what'] == 'df': return dict(df=t(ctx['gm']))
        return dict(part=t((points(p['seed'], p['n'], 6, 0.7), np.linspace(0.5, 1.5, p['n'])/p['n'])))

class TargetsDF(Targets):
    name = 'targets-df'; weight = 1.; runs = 14
    def params(self, rng):
        k = rng.choice(['losvd', 'shell', 'shell'])
        return dict(seed=rng.getrandbits(30), kind=k, deg=rng.randint(0, 1 if k == 'losvd' else 3), sym=rng.choice(['t', 'a', 's', 'n']), n=0, what='df', npix=2)

class Splines(Fn):
    name = 'spline-fits'; weight = 0.6
    def params(self, rng): return dict(seed=rng.getrandbits(30), n=rng.choice([30, 100, 400]), k=rng.randint(4, 12), what=rng.choice(['approx', 'approx1', 'logdens', 'gh']), ght=rng.choice(['fit', 'basis']))
    def run(self, p, ctx, x):
        r = NPRNG(p['seed'])
        if p['what'].startswith('approx'):
            xx = np.sort(r.normal(size=p['n'])); y = np.sin(xx)+r.normal(size=p['n'])*0.1
            s = agama.splineApprox(np.linspace(-2, 2, p['k']), xx, y) if p['what'] == 'approx' else agama.splineApprox(np.linspace(-2, 2, p['k']), xx, y, smooth=1.0)
            return dict(r=s(np.linspace(-2, 2, 11)))
        if p['what'] == 'logdens':
            s = agama.splineLogDensity(np.linspace(-2, 2, p['k']), r.normal(size=p['n']))
            return dict(r=s(np.linspace(-2, 2, 11)))
        nap, nrow, deg = 3, 5, 2
        gv = np.linspace(-1, 1, 6)
        mat = np.abs(r.normal(size=(nrow, nap*(len(gv)+deg-1))))
        if p['ght'] == 'fit': return dict(r=agama.ghMoments(degree=deg, gridv=gv, matrix=mat, ghorder=4))
        gh = np.array([[1., 0., 0.5]]*nap)
        return dict(r=agama.ghMoments(degree=deg, gridv=gv, matrix=mat, ghorder=4, ghbasis=gh))

class Integrate(Fn):
    name = 'cubature-callback'; weight = 0.6
    def params(self, rng): return dict(seed=rng.getrandbits(30), d=rng.randint(1, 3), n=rng.choice([300, 3000]), vec=rng.random() < 0.5)
    def run(self, p, ctx, x):
        f = lambda q: np.exp(-np.sum(np.atleast_2d(q)**2, axis=1))
        r = agama.integrateNdim(f, [-1]*p['d'], [1.5]*p['d'], toler=1e-4, maxeval=p['n'])
        d = agama.Density(**dens('dehnen_tri'))
        return dict(r=list(r), em=d.enclosedMass([0.5, 2.]), tot=d.totalMass(), ax=d.principalAxes([0.4, 2.0]))

class Orbits(Fn):
    name = 'orbit-batch'; weight = 1.2
    tolpaths = {}
    def params(self, rng):
        return dict(seed=rng.getrandbits(30), src=rng.choice(['plummer', 'mn', 'dehnen_tri']), n=rng.choice([0, 1, 2, 3, 9, 17]), ts=rng.choice([0, 1, 2, 11]), dtype=rng.choice(['float', 'complex', 'object', 'double']), lyap=rng.random() < 0.3, om=rng.choice([0., 0.3]), tgt=rng.random() < 0.4, der=rng.random() < 0.3)
    def setup(self, p):
        c = dict(pot=agama.Potential(**dens(p['src'])))
        if p['tgt']: c['t'] = [agama.Target(type='DensitySphHarm', gridr=np.array([0.2, 0.5, 1., 2.]), lmax=2, mmax=2), agama.Target(type='KinemShell', gridr=np.array([0.2, 0.5, 1.]), degree=1)]
        return c
    def run(self, p, ctx, x):
        ic = points(p['seed'], p['n'], 6, 0.8)
        kw = {}
        if p['tgt']: kw['targets'] = ctx['t']
        if p['der']: kw['der'] = True
        if p['lyap']: kw['lyapunov'] = True
        dt = dict(float='float32', complex='complex64', object=object, double='float64')[p['dtype']]
        try:
            r = agama.orbit(potential=ctx['pot'], ic=ic, time=np.linspace(2, 5, max(1, p['n'])) if p['n'] else 1., trajsize=p['ts'] if p['ts'] else (0 if p['tgt'] or p['lyap'] else 2), dtype=dt, Omega=p['om'], verbose=False, **kw)
        except Exception as e: return dict(exc=str(e))
        return dict(r=unpack(r))
    def judge(self, p, ref, out, cfg, x): return super().judge(p, ref, out, cfg, x)

def unpack(r):
    """orbit results -> plain arrays"""
    if isinstance(r, (tuple, list)): return [unpack(t) for t in r]
    if isinstance(r, np.ndarray) and r.dtype == object: return [unpack(t) for t in r.ravel()]
    if r is None: return 0
    if type(r).__name__ == 'Orbit':
        t = [r[i] for i in range(len(r))]
        t = np.array(t)
        return [t, np.array(r(t))] if len(t) else [np.zeros(0)]
    return r

class Batch(Fn):
    name = 'batch-evaluation'; weight = 0.8
    def params(self, rng): return dict(seed=rng.getrandbits(30), n=rng.choice([0, 1, 2, 3, 5, 8, 33, 130, 1030]), src=rng.choice(['plummer', 'mn', 'dehnen_tri', 'log']))
    def setup(self, p): return dict(pot=agama.Potential(**dens(p['src'])))
    def run(self, p, ctx, x):
        q = points(p['seed'], p['n'], 3); pot = ctx['pot']
        return dict(p=pot.potential(q), f=pot.force(q), e=pot.eval(q, acc=True, der=True), d=pot.density(q))

class Raga(Fn):
    name = 'raga'; weight = 0.0
    def params(self, rng): return {}

WORKLOADS = [c() for c in (FromParticles, FromModel, Actions, Interp, Galaxy, DFQuasi, SCM, Targets, TargetsDF, Splines, Integrate, Orbits, Batch)]
