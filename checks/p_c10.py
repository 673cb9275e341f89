"""C10: everything random is a function of the seed alone - not of the schedule, the team size or earlier failures."""
from common import *
from p_c01 import make_df, aperture_target, unpack

class Sampling(Fn):
    runs = 8; maxfactor = 60
    OPS = ()
    def params(self, rng):
        return dict(seed=rng.getrandbits(31) or 1, ops=[rng.choice(self.OPS) for _ in range(rng.randint(1, 3))], n=rng.choice([1, 2, 10, 60, 300]), fail=rng.random() < 0.35, src=rng.choice(['plummer', 'dehnen_ax', 'dehnen_tri']))
    def setup(self, p):
        pl = agama.Potential(**dens('plummer'))
        return dict(pl=pl, dens=agama.Density(**dens(p['src'])), pot=agama.Potential(**dens(p['src'])), mn=agama.Potential(**dens('dehnen_ax')), sph=agama.Density(**dens('spheroid')))
    def op(self, o, p, ctx): raise NotImplementedError
    def failing(self, p, ctx):
        # an operation that fails or is abandoned half-way must not influence later results
        cb = Callback(lambda x: np.exp(-np.sum(x**2, axis=1)), 'raise', p['n'] % 3 + 1)
        import io, contextlib
        with contextlib.redirect_stderr(io.StringIO()):
            try: agama.sampleNdim(cb, 100, [-1, -1], [1, 1])
            except Exception as e: return type(e).__name__
        return 'no failure'
    def run(self, p, ctx, x):
        if x.get('pre'): self.failing(p, ctx)
        agama.setRandomSeed(p['seed'])
        first = [self.op(o, p, ctx) for o in p['ops']]
        more = self.op(p['ops'][0], p, ctx)
        agama.setRandomSeed(p['seed'])
        again = self.op(p['ops'][0], p, ctx)
        agama.setRandomSeed(p['seed']+1)
        other = self.op(p['ops'][0], p, ctx)
        return dict(first=first, more=more, again=again, other=other)
    def refcheck(self, p, ref): return super().refcheck(p, ref) or self.internal(p, ref['ref'])
    def internal(self, p, out):
        if out.exc is not None or out.obs is None: return []
        o = out.obs; v = []
        d = same(o['first'][0], o['again'])
        if d: v.append(('%s:repeat' % self.name, 'the same seed gives another result: '+d))
        if not same(o['first'][0], o['other']): v.append(('%s:seed-ignored' % self.name, 'another seed gives the same result'))
        if not same(o['first'][0], o['more']): v.append(('%s:no-advance' % self.name, 'two consecutive draws are identical'))
        return v
    def plan(self, rng, p, ref, sidx):
        return swarm(rng, self.threads, ref['ref']), dict(pre=p['fail'] and rng.random() < 0.5)
    def judge(self, p, ref, out, cfg, x): return super().judge(p, ref, out, cfg, x) or self.internal(p, out)

class Ndim(Sampling):
    name = 'sampling-function'; weight = 1.2
    OPS = ('s1', 's2', 's3', 'cb')
    def op(self, o, p, ctx):
        if o == 'cb':
            cb = Callback(lambda x: np.exp(-np.sum(x**2, axis=1)), yields=True)
            return list(agama.sampleNdim(cb, p['n'], [-1, 0], [1, 2])[:3])
        d = int(o[1])
        return list(agama.sampleNdim(lambda x: np.exp(-np.sum(x**2, axis=1)/0.1), p['n'], [-1]*d, [1]*d)[:3])

class Dens(Sampling):
    name = 'sampling-density'; weight = 1.6
    OPS = ('dens', 'pot', 'edd', 'jsph', 'jaxi', 'userdens')
    def op(self, o, p, ctx):
        n = p['n']
        if o == 'dens': r = ctx['dens'].sample(n)
        if o == 'pot': r = ctx['pot'].sample(n)
        if o == 'edd': r = ctx['pl'].sample(n, potential=ctx['pl'])
        if o == 'jsph': r = ctx['pl'].sample(n, potential=ctx['pl'], beta=0.3)
        if o == 'jaxi': r = ctx['sph'].sample(n, potential=ctx['mn'], beta=0.2, kappa=0.7)
        if o == 'userdens': r = agama.Density(lambda x: np.exp(-np.sum(x**2, axis=1)), symmetry='t').sample(n)
        return list(r)

class Model(Sampling):
    name = 'sampling-model'; weight = 0.9
    OPS = ('gm', 'gmpos', 'df', 'gmsf')
    def setup(self, p):
        c = super().setup(p)
        c['df'] = make_df('dp', c['pl']); c['gm'] = agama.GalaxyModel(c['pl'], c['df'], agama.ActionFinder(c['pl'], interp=True))
        c['gmsf'] = agama.GalaxyModel(c['pl'], c['df'], agama.ActionFinder(c['pl'], interp=True), lambda x: (x[:, 0] > 0)*1.)
        return c
    def op(self, o, p, ctx):
        n = min(p['n'], 60)
        if o == 'gm': return list(ctx['gm'].sample(n))
        if o == 'gmsf': return list(ctx['gmsf'].sample(n))
        if o == 'gmpos': return list(ctx['pl'].sample(n, potential=ctx['pl']))
        if o == 'df': return list(ctx['gm'].sample(n))

class ClockSeed(Fn):
    """setRandomSeed(0) takes the seed from the clock: a pure function of the (virtual) time"""
    name = 'seed-from-clock'; weight = 0.3; runs = 4
    def params(self, rng): return dict(n=rng.choice([2, 30]), jump=rng.randint(1, 10**6))
    def run(self, p, ctx, x):
        import time
        t0 = int(time.time()); agama.setRandomSeed(0); t1 = int(time.time())
        f = lambda x: np.exp(-np.sum(x**2, axis=1))
        a = agama.sampleNdim(f, p['n'], [-1], [1])[0]
        if t0 != t1: return dict(ok=True, t=t0)
        agama.setRandomSeed(t0)
        b = agama.sampleNdim(f, p['n'], [-1], [1])[0]
        return dict(ok=same(a, b) == '', a=a, t=t0)
    def plan(self, rng, p, ref, sidx): return dict(swarm(rng, self.threads, ref['ref']), faults=[['clockjump', 0, p['jump']*1000 + sidx*5000]]), {}
    def judge(self, p, ref, out, cfg, x):
        if out.exc is not None: return [('%s:exception' % self.name, str(out.exc))]
        v = []
        if not out.obs['ok']: v.append(('%s:seed' % self.name, 'seed 0 does not give the sequence of the current time'))
        r = ref['ref'].obs
        if 'a' in out.obs and 'a' in r and out.obs['t'] != r['t'] and not same(r['a'], out.obs['a']): v.append(('%s:constant' % self.name, 'the same sequence at different times'))
        return v

class TargetSym(Fn):
    name = 'target-symmetrization'; weight = 0.8; tol = 2e-5; atol = 1e-6
    def params(self, rng): return dict(seed=rng.getrandbits(30) or 1, sym=rng.choice(['s', 'a', 't']), n=rng.choice([1, 5, 60]), deg=rng.randint(0, 2), orbit=rng.random() < 0.4)
    def setup(self, p): return dict(t=aperture_target(1, p['deg'], p['sym'], 3), pl=agama.Potential(**dens('plummer')))
    def run(self, p, ctx, x):
        q = points(p['seed'], p['n'], 6, 0.7)
        agama.setRandomSeed(p['seed'])
        if p['orbit']: return dict(r=unpack(agama.orbit(potential=ctx['pl'], ic=q[:9], time=2., targets=ctx['t'], verbose=False)))
        a = ctx['t']((q, np.ones(p['n'])/p['n']))
        agama.setRandomSeed(p['seed']+1)
        b = ctx['t']((q, np.ones(p['n'])/p['n']))
        return dict(a=a, b=b)

WORKLOADS = [c() for c in (Ndim, Dens, Model, TargetSym, ClockSeed)]
