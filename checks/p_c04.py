"""C04: a keyboard interrupt at any instant of a lengthy operation stops it promptly, and leaves nothing behind."""
from common import *
from p_c01 import make_df, unpack, aperture_target, cloud
import io, contextlib, gc, signal

class Interrupt(Workload):
    runs = 8; maxfactor = 60
    tol = 0.0; atol = 0.0
    OPS = ()
    PROMPT = ()                # operations that are documented to stop as soon as possible
    late = 0.45                # allowed share of the whole operation (steps of the reference run) that may be executed after the interrupt
    def params(self, rng): return dict(seed=rng.getrandbits(30), op=rng.choice(self.OPS), user=rng.random() < 0.35, var=rng.getrandbits(10))
    def setup(self, p):
        c = self.make(p)
        c['handler'] = sigint_handler()
        return c
    def make(self, p): return {}
    def op(self, p, ctx): raise NotImplementedError
    def attempt(self, p, ctx, arm):
        """one execution of the operation -> result, exception, steps, number of interrupts raised after its end"""
        st = dict(r=None, e=None, s1=None, pend=0)
        s0 = simlib.rt.agsim_steps()
        def go():
            try:
                if arm: simlib.rt.agsim_arm_signal(1)
                st['r'] = self.op(p, ctx)
            except KeyboardInterrupt: st['e'] = ('KeyboardInterrupt', '')
            except Exception as ex: st['e'] = (type(ex).__name__, msg1(str(ex)), [type(t).__name__ for t in (ex.__context__, ex.__cause__) if t is not None])
        todo = [go]
        while True:             # pending interrupts may be raised by the interpreter at any place of this loop
            try:
                if todo: todo.pop()()
                if st['s1'] is None: st['s1'] = simlib.rt.agsim_steps()
                simlib.rt.agsim_arm_signal(0)
                for _ in range(50): pass
                break
            except KeyboardInterrupt: st['pend'] += 1
        if st['pend'] and st['e'] is None: st['e'] = ('KeyboardInterrupt', 'pending')
        return st['r'], st['e'], st['s1']-s0, st['pend']
    def run(self, p, ctx, x):
        h0 = ctx['handler']; err = io.StringIO(); o = {}
        with contextlib.redirect_stderr(err):
            r, e, steps, pend = self.attempt(p, ctx, True)
            o.update(r=r, e=e, steps=steps, pend=pend, handler=sigint_handler() == h0)
            if x.get('again', 0):
                r, e, steps, pend = self.attempt(p, ctx, False)
                o.update(r2=r, e2=e, pend2=pend, handler2=sigint_handler() == h0)
        return o
    def plan(self, rng, p, ref, sidx):
        n = ref['ref'].obs['steps']
        at = [int(n*rng.choice([rng.random(), rng.random()*0.3, rng.random()**4]))]
        while rng.random() < 0.25: at.append(at[-1] + int(10**rng.uniform(0, 4)))
        c = swarm(rng, self.threads, ref['ref'])
        c['faults'] = [('signal', a) for a in at]
        return c, dict(again=1, at=at[0])
    def refcheck(self, p, ref):
        r = ref['ref']
        if r.exc is not None or r.obs['e'] is not None: return [('%s:ref-exception' % self.name, 'uninterrupted run failed: %s %s' % (r.exc, r.obs and r.obs['e']))]
        return []
    def judge(self, p, ref, out, cfg, x):
        n = '%s:%s' % (self.name, p['op'] + ('-user' if p['user'] else ''))
        if out.exc is not None: return [(n+':harness', str(out.exc[:2]))]
        o = out.obs; g = ref['ref'].obs; v = []
        hit = out.fired.get('signal', 0)
        after = o['steps'] - x['at'] if hit else 0
        if not o['handler']: v.append((n+':handler', 'the interrupt handler in place before the operation was not restored'))
        if o['e'] is None:
            d = same(g['r'], o['r'], self.tol, self.atol)
            if d: v.append((n+':result', 'the operation returned normally after an interrupt, but its result is incomplete or wrong: '+d))
            if hit and after > self.bound(p, ref, cfg): v.append((n+':lost', 'interrupt at step %d was ignored: the operation went on for %d steps (whole operation %d) and returned normally' % (x['at'], after, g['steps'])))
        elif not hit: v.append((n+':spurious', 'no interrupt occurred, but the operation failed: %s' % (o['e'],)))
        elif o['e'][0] in ('TypeError', 'ValueError') and x['at'] < 3000 and 'array' in o['e'][1]: pass    # during the conversion of the arguments, before the computation: reported as an invalid argument
        elif o['e'][0] != 'KeyboardInterrupt': v.append((n+':type', 'the interrupt is reported as %s' % (o['e'],)))
        elif p['op'] in self.PROMPT and x['at'] > 0.05*g['steps'] and after > self.bound(p, ref, cfg): v.append((n+':slow', 'after the interrupt at step %d the operation went on for %d steps (whole operation: %d)' % (x['at'], after, g['steps'])))
        if x.get('again') and not v:
            if o['e2'] is not None: v.append((n+':sticky', 'the operation repeated after an interrupt fails: %s' % (o['e2'],)))
            else:
                d = same(g['r'], o['r2'], self.tol, self.atol)
                if d: v.append((n+':after', 'the operation repeated after an interrupt gives another result: '+d))
            if o['pend2']: v.append((n+':late', 'the interrupt was reported only after the following operation'))
            if not o['handler2']: v.append((n+':handler', 'the interrupt handler was not restored'))
        return v
    UNITS = {}          # number of units of work that the operation consists of: those that have been started are finished
    def bound(self, p, ref, cfg):
        u = self.UNITS.get(p['op'])
        if p['op'] == 'proj' and p['user']: u = 4       # fewer points
        f = self.late if u is None else 0.1 + 1.6*(cfg['nthreads']+1)/u
        return f*ref['ref'].obs['steps'] + 20000
    def stats(self, p, out, x):
        if not out.obs: return {}
        g = 1
        return dict(kbdint=int(bool(out.obs['e']) and out.obs['e'][0] == 'KeyboardInterrupt'), completed=int(out.obs['e'] is None))

class IBatch(Interrupt):
    name = 'interrupt-batch'; weight = 1.5
    OPS = ('pot', 'dens', 'eval', 'rperi', 'rcirc', 'proj', 'mass', 'axes', 'actions', 'moments', 'projdf', 'vdf', 'df')
    PROMPT = OPS
    UNITS = dict(pot=20, dens=20, eval=20, rperi=11, rcirc=4, proj=11, mass=24, axes=24, actions=23, moments=16, projdf=16, vdf=16, df=20)
    def make(self, p):
        c = {}
        if p['user']:
            c['pot'] = agama.Potential(lambda x: -(1+np.sum(x**2, axis=1))**-0.5, symmetry='s'); c['dens'] = agama.Density(lambda x: (1+np.sum(x**2, axis=1))**-2.5, symmetry='s')
        else: c['pot'] = agama.Potential(**dens('dehnen_ax')); c['dens'] = agama.Density(**dens('dehnen_tri'))
        pl = agama.Potential(**dens('plummer'))
        if p['op'] == 'actions': c['af'] = agama.ActionFinder(agama.Potential(**dens('mn')))
        if p['op'] in ('moments', 'projdf', 'vdf', 'df'):
            df = make_df('dp', pl) if not p['user'] else agama.DistributionFunction(lambda q: np.exp(-5*np.sum(np.abs(q[:, :3]), axis=1)))
            c['df'] = df; c['gm'] = agama.GalaxyModel(pl, df, agama.ActionFinder(pl, interp=True))
        return c
    def op(self, p, c):
        m = p['op']; s = p['seed']
        if m == 'pot': return c['pot'].potential(points(s, 20000, 3))
        if m == 'dens': return c['dens'].density(points(s, 20000, 3))
        if m == 'eval': return c['pot'].eval(points(s, 20000, 3), pot=True, acc=True, der=True)
        v = np.linspace(0.1, 0.9, 700)
        if m == 'rperi': return c['pot'].Rperiapo(np.column_stack((-v*0.5-0.1, v*0.1)))
        if m == 'rcirc': return c['pot'].Rcirc(L=v[:250])
        if m == 'proj': return c['dens'].projectedDensity(points(s, 700 if not p['user'] else 200, 2), beta=0.4)
        if m == 'mass': return c['dens'].enclosedMass(np.linspace(0.2, 3, 24))
        if m == 'axes': return c['dens'].principalAxes(np.linspace(0.4, 3, 24))
        if m == 'actions': return c['af'](points(s, 1500, 6, 0.5))
        q = np.abs(points(s, 16, 3, 0.7))+0.05
        if m == 'moments': return c['gm'].moments(q, dens=True, vel=False, vel2=False)
        if m == 'projdf': return c['gm'].projectedDF(np.column_stack((q, np.zeros((16, 5))+[0.1, 0.2, np.inf, np.inf, 0.3])))
        if m == 'vdf': return np.array([[s(0.1) for s in np.ravel(t)] for t in c['gm'].vdf(q, gridv=np.linspace(-1.2, 1.2, 5))])
        if m == 'df': return c['df'](np.abs(points(s, 20000, 3)))

class IBuild(Interrupt):
    name = 'interrupt-construction'; weight = 1.5; tol = 1e-9; atol = 1e-10
    OPS = ('Multipole', 'Multipole-pot', 'Multipole-part', 'CylSpline', 'CylSpline-pot', 'CylSpline-part', 'BasisSet', 'BasisSet-pot', 'BasisSet-part', 'DensitySphericalHarmonic', 'DensityAzimuthalHarmonic', 'af', 'afs')
    PROMPT = ('CylSpline',)
    late = 0.6
    def op(self, p, c):
        t, src = (p['op'].split('-')+[''])[:2]
        f = lambda x: (1+np.sum(x**2, axis=1))**(-0.5 if src == 'pot' else -2.5)*(-1 if src == 'pot' else 1)
        if p['op'] in ('af', 'afs'):
            pot = agama.Potential(**dens('mn' if t == 'af' else 'plummer')) if not p['user'] else agama.Potential(f, symmetry='s')
            if p['user']: pot = agama.Potential(lambda x: -(1+np.sum(x**2, axis=1))**-0.5, symmetry='s')
            return agama.ActionFinder(pot, interp=True)(points(1, 4, 6, 0.5))
        kw = dict(gridSizeR=20, rmin=0.05, rmax=50, lmax=4, mmax=2) if t in ('Multipole', 'DensitySphericalHarmonic') else dict(gridSizeR=10, gridSizeZ=10, rmin=0.1, rmax=10, zmin=0.1, zmax=10, mmax=2 if t[0] == 'D' or src == 'pot' else 0) if t in ('CylSpline', 'DensityAzimuthalHarmonic') else dict(nmax=8, lmax=4, mmax=2, r0=1.)
        sym = 'axi' if t == 'CylSpline' and src == '' else 't'
        q = points(1, 5, 3)
        if src == 'part':
            xyz, m = cloud(p['seed'], 800 if t != 'CylSpline' else 300)
            return agama.Potential(type=t, particles=(xyz, m), symmetry='t' if t != 'CylSpline' else 'a', **kw).potential(q)
        if t[0] == 'D': return agama.Density(type=t, density=f if p['user'] else agama.Density(**dens('dehnen_tri')), symmetry=sym, **kw).density(q)
        s = f if p['user'] else agama.Potential(**dens('dehnen_ax' if t == 'CylSpline' and src == '' else 'dehnen_tri'))
        return agama.Potential(type=t, symmetry=sym, **{'potential' if src == 'pot' else 'density': s}, **kw).potential(q)

class IRun(Interrupt):
    name = 'interrupt-computation'; weight = 1.5; tol = 2e-5; atol = 1e-6
    OPS = ('orbit', 'orbitobj', 'orbittgt', 'sample', 'samplevel', 'modelsample', 'sampleNdim', 'integrate', 'target', 'targetpart', 'targetdf', 'totalmass', 'ghmoments')
    PROMPT = ('orbit', 'orbitobj', 'orbittgt', 'modelsample', 'ghmoments')
    late = 0.6
    def make(self, p):
        pl = agama.Potential(**dens('plummer')) if not p['user'] else agama.Potential(lambda x: -(1+np.sum(x**2, axis=1))**-0.5, symmetry='s')
        de = agama.Density(**dens('plummer')) if not p['user'] else agama.Density(lambda x: (1+np.sum(x**2, axis=1))**-2.5, symmetry='s')
        c = dict(pot=pl, dens=de)
        if p['op'] in ('modelsample', 'targetdf'):
            apl = agama.Potential(**dens('plummer'))
            df = make_df('dp', apl) if not p['user'] else agama.DistributionFunction(lambda q: np.exp(-5*np.sum(np.abs(q[:, :3]), axis=1)))
            c['gm'] = agama.GalaxyModel(apl, df, agama.ActionFinder(apl, interp=True))
        if p['op'] == 'ghmoments': c['mat'] = np.abs(NPRNG(p['seed']).normal(size=(300, 3*7)))
        return c
    def op(self, p, c):
        agama.setRandomSeed(42)
        m = p['op']; s = p['seed']
        if m.startswith('orbit'):
            n = 24 if not p['user'] else 12
            kw = dict(trajsize=5) if m == 'orbit' else dict(dtype=object) if m == 'orbitobj' else dict(targets=[agama.Target(type='KinemShell', gridr=np.array([0.2, 0.5, 1.]), degree=1)])
            return unpack(agama.orbit(potential=c['pot'], ic=points(s, n, 6, 0.8), time=2.0, accuracy=1e-4, verbose=bool(p['var'] & 1), **kw))
        if m == 'sample': r = c['dens'].sample(2000); return [np.shape(r[0]), np.sum(r[1])]
        if m == 'samplevel': r = c['dens'].sample(300, potential=c['pot']); return [np.shape(r[0]), np.sum(r[1])]
        if m == 'modelsample': r = c['gm'].sample(200); return [np.shape(r[0]), np.sum(r[1])]
        g = lambda x: np.exp(-np.sum(x**2, axis=1))
        if m == 'sampleNdim': r = agama.sampleNdim(g, 2000, [-1]*2, [1.5]*2); return [np.shape(r[0]), r[1]]
        if m == 'integrate': return list(agama.integrateNdim(g, [-1]*3, [1.5]*3, toler=1e-6, maxeval=30000))
        if m == 'target': return aperture_target(1, 1, 't', 4)(c['dens'])
        if m == 'targetpart': return aperture_target(1, 1, 't', 4)((points(s, 3000, 6, 0.7), np.linspace(0.5, 1.5, 3000)))
        if m == 'targetdf': return agama.Target(type='KinemShell', gridr=np.array([0.2, 0.5, 1.]), degree=1)(c['gm'])
        if m == 'totalmass': return agama.DistributionFunction((lambda q: np.exp(-np.sum(np.abs(q[:, :3]), axis=1))) if p['user'] else make_df('dp', c['pot'])).totalMass() if not p['user'] else agama.DistributionFunction(lambda q: np.exp(-np.sum(np.abs(q[:, :3]), axis=1))).totalMass()
        if m == 'ghmoments': return agama.ghMoments(degree=2, gridv=np.linspace(-1, 1, 6), matrix=c['mat'], ghorder=4)

WORKLOADS = [c() for c in (IBatch, IBuild, IRun)]
