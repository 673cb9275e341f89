"""C14: everything passed to the library lives exactly as long as something uses it."""
from common import *
from p_c01 import make_df, unpack, aperture_target, cloud
import p_c02, p_c12, io, contextlib, gc, sys, weakref, warnings, array

class UF:
    """user function: counts its calls, may fail or perform an action at a given call"""
    def __init__(self, fn): self.fn = fn; self.calls = 0; self.at = None; self.act = None; self.yields = False
    def __call__(self, x, *a, **kw):
        if self.yields: simlib.yield_gil()
        if len(x) == 2 and not np.any(x): return self.fn(x, *a, **kw)       # the library probes the function before accepting it
        k = self.calls; self.calls += 1
        if self.act is not None and k == self.at: self.act()
        return self.fn(x, *a, **kw)

FN = dict(
    fpot=lambda x: -(1+np.sum(x**2, axis=1))**-0.5,
    fdens=lambda x: np.exp(-np.sum(x**2, axis=1))*0.2,
    fdf=lambda x: np.exp(-x[:, 0]-x[:, 1]-abs(x[:, 2])),
    fsf=lambda x: 1/(1+np.sum(x[:, :3]**2, axis=1)))

# ------------------------------------------------------------------------------------------------ histories of objects
# kind: (result type, types of the objects it is made from)
KINDS = dict(
    pot_user=('P', ['fpot']), pot_an=('P', []), pot_comp=('P', ['P', 'P']), pot_mod=('P', ['P']), pot_item=('P', ['P']), pot_iter=('P', ['P']), pot_mult=('P', ['D']), pot_multf=('P', ['fdens']), pot_nest=('P', ['P', 'P', 'P']),
    dens_user=('D', ['fdens']), dens_an=('D', []), dens_comp=('D', ['D', 'fdens']), dens_mod=('D', ['D']), dens_pot=('D', ['P']), dens_sph=('D', ['D']), dens_item=('D', ['D']),
    df_user=('DF', ['fdf']), df_an=('DF', []), df_comp=('DF', ['DF', 'fdf']), df_item=('DF', ['DF']), df_qs=('DF', ['S', 'D']), pot_sph=('S', []), pot_sphu=('S', ['fpot']),
    af=('AF', ['P']), af_axi=('AF', ['X']), pot_axi=('X', []), af_sph=('AF', ['S']), am=('AM', ['S']),
    gm=('GM', ['S', 'DF']), gm_af=('GM', ['S', 'DF', 'AF']), gm_sf=('GM', ['S', 'DF', 'fsf']), gm_fdf=('GM', ['S', 'fdf']), gm_pot=('S', ['GM']), gm_df=('DF', ['GM']), gm_afof=('AF', ['GM']), gm_sfo=('GM', ['S', 'DF', 'SF']),
    sf=('SF', []), comp=('C', ['D']), compf=('C', ['fdens']), comp_df=('C', ['DF']), scm=('M', ['C', 'C']), scm_pot=('M', ['C', 'P']), scm_set=('M', ['M', 'C']), scm_comp=('C', ['M']), scm_getpot=('P', ['M']), comp_dens=('D', ['C']),
    orb=('O', ['P']), orbmeth=('FN', ['O']), target=('T', []), spline=('SP', []), bound=('FN', ['P']), boundd=('FN', ['D']))

# cheap ways to make an object of each type
CHEAP = dict(P=['pot_user', 'pot_an', 'pot_comp'], D=['dens_user', 'dens_an'], DF=['df_user', 'df_an'], S=['pot_sph', 'pot_sph', 'pot_sphu'], X=['pot_axi'], AF=['af_sph'], GM=['gm_fdf', 'gm'], C=['compf', 'comp', 'comp_df'], M=['scm'], O=['orb'], SF=['sf'])

def build(kind, a):
    g = dict(gridSizeR=6, rmin=0.1, rmax=10, lmax=2, mmax=2, symmetry='t')
    S = dict(symmetry='s')
    if kind == 'pot_user': return agama.Potential(a[0], symmetry='s')
    if kind == 'pot_an': return agama.Potential(**dens('mn'))
    if kind == 'pot_axi': return agama.Potential(type='MiyamotoNagai', mass=1, scaleRadius=1.3, scaleHeight=0.4)
    if kind == 'pot_sph': return agama.Potential(**dens('plummer'))
    if kind == 'pot_sphu': return agama.Potential(a[0], symmetry='s')
    if kind == 'pot_comp': return agama.Potential(a[0], a[1])
    if kind == 'pot_nest': return agama.Potential(agama.Potential(a[0], agama.Potential(a[1], a[2])), a[0])
    if kind == 'pot_mod': return agama.Potential(potential=a[0], center=np.array([0.1, 0.2, 0.3]), orientation=[0.1, 0.2, 0.3], scale=[1.5, 1.1])
    if kind == 'pot_item': return a[0][len(a[0])-1]
    if kind == 'pot_iter': return [q for q in a[0]][0]
    if kind == 'pot_mult': return agama.Potential(type='Multipole', density=a[0], **g)
    if kind == 'pot_multf': return agama.Potential(type='Multipole', density=a[0], **g)
    if kind == 'dens_user': return agama.Density(a[0], symmetry='s')
    if kind == 'dens_an': return agama.Density(**dens('dehnen_tri'))
    if kind == 'dens_comp': return agama.Density(a[0], agama.Density(a[1], symmetry='t'))
    if kind == 'dens_mod': return agama.Density(density=a[0], center=[0.1, 0, 0.1])
    if kind == 'dens_pot': return agama.Density(a[0])
    if kind == 'dens_item': return a[0][0]
    if kind == 'dens_sph': return agama.Density(type='DensitySphericalHarmonic', density=a[0], **g)
    if kind == 'df_user': return agama.DistributionFunction(a[0])
    if kind == 'df_an': return make_df('dp', agama.Potential(**dens('plummer')))
    if kind == 'df_comp': return agama.DistributionFunction(a[0], a[1])
    if kind == 'df_item': return a[0][0]
    if kind == 'df_qs': return agama.DistributionFunction(type='QuasiSpherical', potential=a[0], density=agama.Density(**dens('plummer')) )
    if kind == 'af' or kind == 'af_sph' or kind == 'af_axi': return agama.ActionFinder(a[0])
    if kind == 'am': return agama.ActionMapper(a[0])
    if kind == 'gm': return agama.GalaxyModel(a[0], a[1])
    if kind == 'gm_af': return agama.GalaxyModel(a[0], a[1], a[2])
    if kind in ('gm_sf', 'gm_sfo'): return agama.GalaxyModel(a[0], a[1], sf=a[2])
    if kind == 'gm_fdf': return agama.GalaxyModel(a[0], a[1])
    if kind == 'gm_pot': return a[0].potential
    if kind == 'gm_df': return a[0].df
    if kind == 'gm_afof': return a[0].af
    if kind == 'sf': return agama.SelectionFunction(point=[0.1, 0, 0], radius=1., steepness=2.)
    if kind == 'comp' or kind == 'compf': return agama.Component(density=a[0] if kind == 'comp' else agama.Density(a[0], symmetry='s'), disklike=False)
    if kind == 'comp_df': return agama.Component(df=a[0], disklike=False, rminSph=0.1, rmaxSph=10, sizeRadialSph=6, lmaxAngularSph=0)
    m = dict(rminSph=0.1, rmaxSph=10, sizeRadialSph=6, lmaxAngularSph=0, verbose=False)
    if kind == 'scm': return agama.SelfConsistentModel(components=[a[0], a[1]], **m)
    if kind == 'scm_pot':
        s = agama.SelfConsistentModel(components=[a[0]], **m); s.potential = a[1]; return s
    if kind == 'scm_set':
        a[0].components; a[0].components = [a[1]]+a[0].components; return a[0]
    if kind == 'scm_comp': return a[0].components[0]
    if kind == 'scm_getpot': return a[0].potential or agama.Potential(**dens('plummer'))
    if kind == 'comp_dens': return a[0].density or agama.Density(**dens('plummer'))
    if kind == 'orb': return agama.orbit(potential=a[0], ic=[1, 0.1, 0.2, 0, 0.4, 0.1], time=1., accuracy=1e-4, dtype=object, verbose=False)
    if kind == 'orbmeth': return a[0].x
    if kind == 'target': return aperture_target(1, 1, 't', 3)
    if kind == 'spline': return agama.Spline(np.linspace(0, 1, 5), np.linspace(0, 1, 5)**2)
    if kind == 'bound': return a[0].potential
    if kind == 'boundd': return a[0].density
    raise RuntimeError(kind)

def evaluate(t, o, s):
    q = lambda n, d=3: points(s, n, d, 0.8)
    n = 300 if s % 5 == 0 else 1+s % 7
    if t in ('P', 'S', 'X'): return o.potential(q(n)) if s & 8 else o.force(q(2))
    if t == 'D': return o.density(q(n))
    if t == 'DF': return o(np.abs(q(n)))
    if t == 'AF': return o(q(2, 6))
    if t == 'AM': return o([0.1, 0.2, 0.3, 1, 2, 3.])
    if t == 'GM': return [o.df(np.abs(q(2))), o.moments(np.abs(q(1))[0]+0.1, dens=True, vel=False, vel2=False)] if s & 8 else [o.af(q(1, 6)), o.potential.potential(q(2)), str(type(o.sf)) != '']
    if t == 'C': return o.density.density(q(2)) if o.density is not None else [o.df(np.abs(q(2))) if hasattr(o, 'df') else 0]
    if t == 'M': return [c.density.density(q(2)) for c in o.components if c.density is not None]
    if t == 'O': return o(np.linspace(0, 1, 3))
    if t == 'T': return [len(str(o)) > 0]
    if t == 'SP': return o(np.linspace(0, 1, 3))
    if t == 'FN': return o(q(2)) if 'method' in type(o).__name__ else o(np.linspace(0, 1, 3))
    if t == 'SF': return o(q(2, 6))
    raise RuntimeError(t)

class Lifetimes(Workload):
    """random histories of making objects from others, using them, and dropping references to them, in one or several threads"""
    name = 'lifetimes'; runs = 6; threads = (1, 4); weight = 1.5; maxfactor = 60
    def params(self, rng):
        nb = rng.choice([0, 0, 2, 4, 6]); objs = []; base = []
        def make(l, pool, shared=()):
            for _ in range(20):
                k = rng.choice(list(KINDS)); t, need = KINDS[k]
                par = []
                for w in need:
                    if w in FN: par.append(('f', w, rng.randrange(3))); continue
                    c = [i for i, (u, _) in pool.items() if (u == w or (w == 'P' and u in 'SX')) and not (k == 'scm_set' and w == 'M' and i in shared)]
                    if not c: break
                    par.append(('o', rng.choice(c)))
                if len(par) == len(need): l.append(('make', self.nid, k, par)); pool[self.nid] = (t, k); self.nid += 1; return
        self.nid = 0
        pool0 = {}
        while len(base) < nb: make(base, pool0)
        def fresh(h, pool, k, depth, mine):
            """an object of the given kind made from new objects as far as possible"""
            t, need = KINDS[k]; par = []
            for w in need:
                if w in FN: par.append(('f', w, rng.randrange(3))); continue
                old = [i for i, (u, z) in pool.items() if u == w and i not in mine and not (k == 'scm_set' and w == 'M')]
                if old and rng.random() < 0.2: par.append(('o', rng.choice(old))); continue
                c = CHEAP[w]
                par.append(('o', fresh(h, pool, rng.choice(c), depth+1, mine)))
            h.append(('make', self.nid, k, par)); pool[self.nid] = (t, k); mine.append(self.nid); self.nid += 1
            return mine[-1]
        hist = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            pool = dict(pool0); h = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                # an object that becomes the only one to refer to those it is made from
                mine = []; l = fresh(h, pool, rng.choice(list(KINDS)), 1, mine)
                if rng.random() < 0.5: h.append(('eval', l, pool[l][0], rng.getrandbits(16)))
                rest = [i for i in mine if i != l]; rng.shuffle(rest)
                for i in rest: h.append(('drop', i)); del pool[i]
                if rng.random() < 0.3: make(h, pool, pool0)
                h.append(('eval', l, pool[l][0], rng.getrandbits(16)))
            for _ in range(rng.randint(3, 22)):
                u = rng.random()
                if u < 0.45 or not pool: make(h, pool, pool0)
                elif u < 0.7: i = rng.choice(list(pool)); h.append(('eval', i, pool[i][0], rng.getrandbits(16)))
                elif u < 0.97:
                    i = rng.choice(list(pool)); h.append(('drop', i)); del pool[i]
                else: h.append(('gc',))
            for i in pool:
                if rng.random() < 0.5: h.append(('eval', i, pool[i][0], rng.getrandbits(16)))
            hist.append(h)
        return dict(base=base, hist=hist, yields=rng.random() < 0.5)
    def once(self, p, drop, conc):
        """one pass over the histories -> values, functions that outlive their users, names of objects that should be dead"""
        fs = {}; early = []
        def fun(w, i):
            if (w, i) not in fs:
                f = UF(lambda x, *a, _s=1+0.1*i, _g=FN[w], **kw: _s*_g(x)); f.yields = p['yields']; fs[w, i] = f
            return fs[w, i]
        def do(l, pool, anc, out, single):
            for st in l:
                if st[0] == 'make':
                    a = [fun(*q[1:]) if q[0] == 'f' else pool[q[1]] for q in st[3]]
                    try: pool[st[1]] = build(st[2], a); out.append(None)
                    except Exception as e: pool[st[1]] = None; out.append((type(e).__name__, msg1(str(e))[:120]))
                    s = set()
                    for q in st[3]: s |= {q[1:]} if q[0] == 'f' else anc[q[1]]
                    anc[st[1]] = s
                    if st[2] == 'scm_set': anc[st[3][0][1]] |= s      # the same object
                    del a
                elif st[0] == 'eval':
                    o = pool[st[1]]
                    if o is None: out.append(None); continue
                    try: out.append(evaluate(st[2], o, st[3]))
                    except Exception as e: out.append((type(e).__name__, msg1(str(e))[:120]))
                    del o
                elif st[0] == 'drop':
                    if drop:
                        pool.pop(st[1])
                        if single:
                            gc.collect(); used = set()
                            for i in pool: used |= anc[i]
                            for k in list(fs):
                                if k not in used:
                                    w = weakref.ref(fs.pop(k))
                                    if w() is not None: early.append('%s after dropping %d' % (k, st[1]))
                elif st[0] == 'gc': gc.collect()
        pool0 = {}; anc0 = {}; out0 = []; outs = [[] for _ in p['hist']]
        do(p['base'], pool0, anc0, out0, False)
        pools = [dict(pool0) for _ in p['hist']]; ancs = [dict(anc0) for _ in p['hist']]
        pool0.clear()
        def body(i): return lambda: do(p['hist'][i], pools[i], ancs[i], outs[i], len(p['hist']) == 1)
        exc = []
        if conc and len(p['hist']) > 1: exc = [repr(r[1]) for r in simlib.run_threads([body(i) for i in range(len(p['hist']))]) if r[1] is not None]
        else:
            for i in range(len(p['hist'])): body(i)()
        ws = {k: weakref.ref(f) for k, f in fs.items()}
        fs.clear(); pools = None; ancs = None; pool0 = None
        gc.collect()
        dead = ['%s%d' % k for k, w in ws.items() if w() is not None]
        return [out0, outs], exc, early, dead
    def run(self, p, ctx, x):
        n = 48 if x.get("drop") else 1; l = array.array('q', [0]*n); b = array.array('q', [0]*n); first = None; early = []; dead = []; exc = []; i = 0
        with contextlib.redirect_stderr(None), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            while i < min(n, 5) or i < n and (grows(l[:i]) or grows(b[:i])):
                v, e, y, d = self.once(p, x.get('drop', 0), x.get('conc', 0))
                if i == 0: first = v
                if y and not early: early += y
                if d and not dead: dead += d
                if e: exc += e
                v = e = y = d = None
                gc.collect(); l[i] = live(); b[i] = sys.getallocatedblocks(); i += 1
        return dict(v=first, exc=exc[:3], early=early[:3], dead=dead[:5], l=list(l[:i]), b=list(b[:i]), h=sigint_handler() == ctx['h'])
    def setup(self, p): return dict(h=sigint_handler())
    def refspec(self, p): return [('ref', dict(policy='seq', nthreads=1), dict()), ('drop', dict(policy='seq', nthreads=1), dict(drop=1))]
    def refcheck(self, p, ref):
        if ref['ref'].exc is not None: return [('%s:ref-exception' % self.name, str(ref['ref'].exc))]
        return self.verdict(p, ref, ref['drop'])
    def plan(self, rng, p, ref, sidx):
        r = ref['drop']
        return swarm(rng, self.threads, r), dict(drop=1, conc=1)
    def judge(self, p, ref, out, cfg, x): return self.verdict(p, ref, out)
    def verdict(self, p, ref, out):
        n = self.name
        if out.exc is not None: return [(n+':harness', str(out.exc))]
        o = out.obs; g = ref['ref'].obs; v = []
        for q in o['exc']: v.append((n+':thread', 'a thread ended with '+q))
        d = same(g['v'], o['v'], 1e-9, 1e-10)
        if d: v.append((n+':value', 'an object gives another result after other references were dropped: '+d))
        if o['early']: v.append((n+':kept', 'user function not released after the last object using it was dropped: %s' % o['early'][0]))
        if o['dead']: v.append((n+':kept', 'user functions still referenced after all objects were dropped: %s' % o['dead']))
        if grows(o['l']): v.append((n+':memory', 'memory allocated by the library grows with every repetition of the history: %s blocks' % [q-o['l'][0] for q in o['l']]))
        if grows(o['b']): v.append((n+':objects', 'Python memory blocks grow with every repetition of the history: %s' % [q-o['b'][0] for q in o['b']]))
        if not o['h']: v.append((n+':handler', 'the interrupt handler was not restored'))
        return v

def grows(l):
    d = [b-a for a, b in zip(l, l[1:])][-3:]
    return len(d) > 2 and min(d) > 0

# ------------------------------------------------------------------------------------------------ leaks of a single operation
class Leaks(p_c12.NoMem):
    """an operation, successful or failing in some way, is repeated: nothing may accumulate, and the reference counts of its arguments are what they were"""
    name = 'leaks'; runs = 6; threads = (1, 4); weight = 1.5
    OPS = tuple(o for o in p_c12.NoMem.OPS) + p_c02.OPS + ('files', 'misc', 'scm', 'scmuser', 'point', 'attrs', 'units', 'uorbit', 'umodel', 'uder', 'inter')
    def params(self, rng):
        p = super().params(rng)
        p['yields'] = rng.random() < 0.3; p['fault'] = rng.choice(['none', 'none', 'user', 'user', 'alloc', 'signal', 'signal'])
        return p
    def setup(self, p):
        c = super().setup(p)
        n = p['ops'][0][0][0]
        if n in ('am',): c['am'] = agama.ActionMapper(c['mn'])
        return c
    def op(self, p, c, n, s):
        f = c['uf']; q = points(s, 1+s % 5, 3, 0.8)
        if n == 'files':
            fn = SCRATCH+'/c14_%d' % os.getpid()
            try:
                if s % 3 == 0:
                    agama.writeSnapshot(fn, (points(s, 5, 6), np.ones(5)), 'nemo' if s & 8 else 'text'); return agama.readSnapshot(fn)
                if s % 3 == 1:
                    c['dens'].export(fn); return agama.Density(fn).density(q)
                open(fn, 'wb').write(b'[Potential]\ntype=Plummer\nmass=1\n[Potential 2]\ntype=%s\n' % (b'Dehnen' if s & 8 else b'Nonexistent')); return agama.Potential(fn).potential(q)
            finally:
                for e in (fn,):
                    try: os.unlink(e)
                    except OSError: pass
        if n == 'misc':
            r = s % 9; sp = agama.Spline(np.linspace(0, 1, 6), np.linspace(0, 1, 6)**2-0.1*(s >> 5 & 1), reg=bool(s & 16))
            if r == 0: return sp.roots(0.3) if s & 32 else sp.extrema()
            if r == 1: return [sp.x, sp.y] if hasattr(sp, 'x') else [str(sp), len(sp), sp[0]]
            if r == 2: return sp(np.linspace(0, 1, 3), conv=0.1) if s & 32 else sp(0.5, conv=sp)
            if r == 3: return list(agama.getUnits().keys())
            if r == 4: return agama.Spline('__import__("numpy").linspace(0,1,6)', '[0,1,2,4,5,6]')(0.5)
            if r == 5: return agama.Spline(np.linspace(0, 1, 5), ampl=np.ones(5+s % 5))(0.3)
            if r == 6:
                with agama.setNumThreads(1 + (s >> 4) % 3) as t: return c['udens'].density(points(s, 300, 3))
            if r == 7: return [str(c['pot'])[:5], str(c['dens'])[:5], len(repr(c['pl'])) > 0]
            return agama.Spline(np.linspace(0, 1, 6), np.linspace(0, 1, 6)**2, left=0.1, reg=bool(s & 16))(np.linspace(0, 1, 3), der=s % 3)
        if n == 'scm':
            m = agama.SelfConsistentModel(rminSph=0.1, rmaxSph=10, sizeRadialSph=6, lmaxAngularSph=0, verbose=False)
            k = agama.Component(density=agama.Density(f, symmetry='s'), disklike=False)
            m.components = [k]; m.components.append(agama.Component(density=c['pl'], disklike=False))
            if s & 8: m.potential = c['pl']
            m.iterate()
            return [m.potential.potential(q), m.components[0].density.density(q), m.af(points(s, 1, 6))] if s & 16 else [m.potential.potential(q)]
        if n == 'scmuser':
            # the model holds the only reference to user functions that are replaced during the iteration
            m = agama.SelfConsistentModel(rminSph=0.1, rmaxSph=10, sizeRadialSph=6, lmaxAngularSph=0, verbose=False, useActionInterpolation=bool(s & 64))
            m.components = [agama.Component(density=c['pl'], disklike=False)] + ([agama.Component(density=agama.Density(f, symmetry='s'), disklike=False)] if s & 8 else [])
            g = UF(FN['fpot']); w = weakref.ref(g)
            m.potential = agama.Potential(g, symmetry='s') if s & 16 else agama.Potential(agama.Potential(g, symmetry='s'), c['pl'])
            g = None
            try: m.iterate()
            except Exception: m = None; raise
            if w() is not None: self.kept += 1
            return None
        if n == 'point':
            # a user function at a single point
            d = agama.Density(f, symmetry='s'); P = agama.Potential(f.pot, symmetry='st'[s >> 3 & 1]); x = [0.3, 0.4, 0.5]; x = x if s & 16 else [x]
            r = (s >> 5) % 9
            if r == 0: return d.density(x)
            if r == 1: return P.potential(x)
            if r == 2: return P.force(x)
            if r == 3: return P.eval(x, pot=True, acc=True, der=True)
            if r == 4: return P.Rcirc(E=-0.5)
            if r == 5: return P.density(x)
            if r == 6: return agama.DistributionFunction(f)(x)
            if r == 7: return P.Tcirc(-0.4)
            return P.enclosedMass(0.5)
        if n == 'attrs':
            g = agama.GalaxyModel(c['pl'], make_df('dp', c['pl']), sf=f if s & 8 else None)if 0 else agama.GalaxyModel(c['pl'], make_df('dp', c['pl']))
            k = agama.Component(density=c['dens'], disklike=False); l = [k, k]
            m = agama.SelfConsistentModel(components=l); m.components = l; m.components = [k]; m.potential = c['pot']; m.potential = c['pl']
            return [g.potential.potential(q), m.potential.potential(q), len(m.components), [z.potential(q) for z in agama.Potential(c['pot'], c['pl'])], k.density.density(q), c['pl'] == c['pl'], c['pot'] != c['pl'], hash(c['pl']) == hash(c['pl']), k.potential is None]
        if n == 'units': return [agama.getUnits(), agama.G]
        if n == 'uorbit': return unpack(agama.orbit(potential=agama.Potential(f.pot, symmetry='s'), ic=points(s, 2, 6, 0.8), time=0.5, accuracy=1e-3, verbose=False, trajsize=3 if s & 8 else 0, dtype=(object if s & 16 else float), **(dict(timestart=[0., 1.]) if s & 32 else {})))
        if n == 'umodel':
            g = agama.GalaxyModel(c['pl'], make_df('dp', c['pl']), sf=f.six)
            return g.moments(np.abs(q[:1])+0.1, dens=True, vel=False, vel2=False)
        if n == 'uder':
            d = agama.DistributionFunction(f.der if s & 8 else f)
            return d(np.abs(points(s, 3 if s & 16 else 200, 3)), der=bool(s & 8 and s & 4))
        if n == 'inter': return [agama.integrateNdim(f, [-1]*3, [1.]*3, toler=0.05, maxeval=500)[0]] if s & 8 else [np.shape(agama.sampleNdim(f, 20, [-1]*3, [1.]*3)[0])]
        return super().op(p, c, n, s)
    def run(self, p, ctx, x):
        err = io.StringIO(); n, s = p['ops'][0][0]; rt = simlib.rt; x = dict(x); self.kept = 0
        f = ctx['uf'] = UF(FN['fdens']); f.yields = p['yields']
        f.pot = UF(FN['fpot']); f.six = UF(FN['fsf']); f.der = UF(lambda z, der=False: (np.exp(-np.sum(z, axis=1)), -np.exp(-np.sum(z, axis=1))[:, None]*np.ones(3)) if der else np.exp(-np.sum(z, axis=1)))
        def boom(): raise Bomb('bomb at call')
        for g in (f, f.pot, f.six, f.der): g.act = boom
        probes = [v for v in ctx.values() if not isinstance(v, (int, float, bool, str))] + [f, f.pot, f.six, f.der, agama.Potential, agama.Density, agama.Spline, agama.Target, agama.GalaxyModel, agama.DistributionFunction, np.dtype('f8'), np.dtype('f4'), np.dtype('O'), object, Bomb]
        names = [k for k, v in ctx.items() if not isinstance(v, (int, float, bool, str))] + ['user function', 'user potential', 'user selection', 'user df', 'Potential', 'Density', 'Spline', 'Target', 'GalaxyModel', 'DistributionFunction', 'float64', 'float32', 'object dtype', 'object', 'exception']
        h0 = sigint_handler(); fault = x.get('fault'); ops = [0]
        def attempt(arm):
            agama.setRandomSeed(42); e = None
            for g in (f, f.pot, f.six, f.der): g.calls = 0; g.at = x['at'] if arm and fault == 'user' else None
            rt.agsim_rearm()
            try:
                try:
                    if arm and fault == 'alloc': rt.agsim_arm_alloc(2)
                    if arm and fault == 'signal': rt.agsim_arm_signal(1)
                    self.op(p, ctx, n, s)
                except Exception as ex: e = sys.intern(type(ex).__name__)
                rt.agsim_arm_signal(0); rt.agsim_arm_alloc(0)
                for _ in range(30): pass
            except KeyboardInterrupt: e = 'KeyboardInterrupt'
            rt.agsim_arm_signal(0); rt.agsim_arm_alloc(0)
            return e
        N = 48; e = [None]*(N+1); l = array.array('q', [0]*N); b = array.array('q', [0]*N); rc = np.zeros((N, len(probes)), dtype=int)
        def clean():
            try: gc.collect(); gc.collect()
            except KeyboardInterrupt: pass
        with contextlib.redirect_stderr(None), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s0 = simlib.rt.agsim_steps(); e[N] = attempt(False); ops[0] = simlib.rt.agsim_steps()-s0
            i = 0
            while i < 6 or i < N and (grows(l[:i]) or grows(b[:i]) or np.any(np.all(np.diff(rc[i-4:i], axis=0) > 0, axis=0))):
                e[i] = attempt(True)
                clean()
                l[i] = live(); b[i] = sys.getallocatedblocks()
                for j in range(len(probes)): rc[i, j] = sys.getrefcount(probes[j])
                i += 1
        return dict(e=[e[N]]+e[:i], l=list(l[:i]), b=list(b[:i]), rc=[names[j] for j in range(len(probes)) if grows(rc[:i, j].tolist())], steps=ops[0], calls=max(q.calls for q in (f, f.pot, f.six, f.der)),
            m=rt.agsim_malloc_failures(), n=i, kept=self.kept, h=sigint_handler() == h0)
    def refspec(self, p): return [('ref', dict(policy='seq', nthreads=1), {})]
    def refcheck(self, p, ref): return self.judge(p, ref, ref['ref'], None, {})
    def plan(self, rng, p, ref, sidx):
        r = ref['ref']; c = swarm(rng, self.threads, r); x = dict(fault=p['fault'], at=0)
        if p['fault'] == 'alloc': c['faults'] = [('alloc', rng.randint(1, max(1, r.allocs//6)))]
        if p['fault'] == 'signal': c['faults'] = [('signal', int(max(1, r.obs['steps'])*rng.choice([rng.random(), rng.random()**3])))]
        if p['fault'] == 'user': x['at'] = rng.choice([0, rng.randrange(max(1, r.obs['calls'])), 1])
        return c, x
    def judge(self, p, ref, out, cfg, x):
        op = p['ops'][0][0]; n = '%s:%s' % (self.name, op[0]); v = []
        if out.exc is not None: return [(n+':harness', str(out.exc))]
        o = out.obs; how = 'successful' if not any(o['e'][1:]) else 'failing (%s)' % [q for q in o['e'][1:] if q][0]
        if grows(o['l']) and not o['m']: v.append((n+':memory', 'each %s call leaves allocated memory behind: %s blocks' % (how, [q-o['l'][0] for q in o['l']])))
        if grows(o['b']): v.append((n+':objects', 'each %s call leaves Python objects behind: %s blocks' % (how, [q-o['b'][0] for q in o['b']])))
        if o['rc']: v.append((n+':refcount', 'each %s call increases the reference count of %s' % (how, o['rc'])))
        if o['kept']: v.append((n+':kept', 'a user function is still referenced %d time(s) after the last object using it was replaced' % o['kept']))
        if not o['h']: v.append((n+':handler', 'the interrupt handler was not restored'))
        return v
    def stats(self, p, out, x): return dict(errors=sum(1 for q in out.obs['e'] if q)) if out.obs else {}

class CheapLeaks(Leaks):
    name = 'leaks-cheap'; runs = 4; weight = 1.5
    OPS = ('point', 'point', 'scmuser', 'misc', 'attrs', 'files')
    def params(self, rng):
        p = super().params(rng); p['pot'] = 'plummer'
        if p['ops'][0][0][0] == 'point': p['fault'] = rng.choice(['user', 'user', 'user', 'signal'])
        if p['ops'][0][0][0] == 'scmuser': p['fault'] = rng.choice(['none', 'none', 'user'])
        return p

# ------------------------------------------------------------------------------------------------ arguments that are not accepted
WRONG = dict(
    potential=lambda A, c, a, q: c['pl'].potential(a), force=lambda A, c, a, q: c['pl'].force(q, t=a), eval=lambda A, c, a, q: c['pl'].eval(q, pot=a, acc=True), evalpos=lambda A, c, a, q: c['pl'].eval(a, der=True),
    density=lambda A, c, a, q: c['dens'].density(a), udensity=lambda A, c, a, q: c['udens'].density(a), proj=lambda A, c, a, q: c['pl'].projectedDensity([1., 2.], alpha=a, beta=a), projxy=lambda A, c, a, q: c['pl'].projectedDensity(a),
    projforce=lambda A, c, a, q: c['pl'].projectedForce([1., 2.], gamma=a), mass=lambda A, c, a, q: c['dens'].enclosedMass(a), rcirc=lambda A, c, a, q: c['pl'].Rcirc(L=a), rcircE=lambda A, c, a, q: c['pl'].Rcirc(E=a), rmax=lambda A, c, a, q: c['pl'].Rmax(a),
    tcirc=lambda A, c, a, q: c['pl'].Tcirc(a), rperi=lambda A, c, a, q: c['pl'].Rperiapo(a), axes=lambda A, c, a, q: c['pl'].principalAxes(a), dsample=lambda A, c, a, q: c['pl'].sample(a), dsamplep=lambda A, c, a, q: c['pl'].sample(5, potential=a), dsampleb=lambda A, c, a, q: c['pl'].sample(5, potential=c['pl'], beta=a),
    dexport=lambda A, c, a, q: c['pl'].export(a), item=lambda A, c, a, q: c['pl'][a],
    orbic=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=a, time=1, trajsize=2, verbose=False), orbtime=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(2), time=a if a is not HUGE else -1, trajsize=2, verbose=False),
    orbstart=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(2), time=1., timestart=a, trajsize=2, verbose=False), orbsize=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(2), time=1., trajsize=a, verbose=False),
    orbdtype=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(2), time=1., trajsize=3, dtype=a, verbose=False), orbtarget=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(2), time=1., targets=a, verbose=False), orbtargets=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(2), time=1., targets=[a], verbose=False),
    orbpot=lambda A, c, a, q: A.orbit(potential=a, ic=IC(2), time=1, trajsize=2, verbose=False), orbacc=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(2), time=1., trajsize=2, lyapunov=a, Omega=a, verbose=False), orbmeth=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(2), time=1., trajsize=2, method=a, verbose=False),
    orbder=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(2), time=1., trajsize=2, der=a, lyapunov=a, verbose=False), orbobj=lambda A, c, a, q: A.orbit(potential=c['pl'], ic=IC(1)[0], time=1., dtype=object, verbose=False)(a),
    losvd=lambda A, c, a, q: A.Target(type='LOSVD', degree=1, gridx=a, gridv=a, apertures=[SQ], alpha=0, beta=0, gamma=0), losvdap=lambda A, c, a, q: A.Target(type='LOSVD', degree=1, gridx=[0., 1, 2], gridv=[0., 1, 2], apertures=a, alpha=0, beta=0, gamma=0),
    losvdaps=lambda A, c, a, q: A.Target(type='LOSVD', degree=1, gridx=[0., 1, 2], gridv=[0., 1, 2], apertures=[SQ, a], alpha=0, beta=0, gamma=0), losvdpsf=lambda A, c, a, q: A.Target(type='LOSVD', degree=1, gridx=[0., 1, 2], gridv=[0., 1, 2], apertures=[SQ], psf=a, alpha=0, beta=0, gamma=0),
    losvdgy=lambda A, c, a, q: A.Target(type='LOSVD', degree=a, gridx=[0., 1, 2], gridy=a, gridv=[0., 1, 2], apertures=[SQ], alpha=a, beta=0, gamma=0), tardens=lambda A, c, a, q: A.Target(type='DensityClassicTopHat', gridr=a), tartype=lambda A, c, a, q: A.Target(type=a, gridr=[1, 2, 3.]),
    tarextra=lambda A, c, a, q: A.Target(type='DensitySphericalHarmonic', gridr=[1, 2, 3.], lmax=a, mmax=a, nonsense=a), tarkin=lambda A, c, a, q: A.Target(type='KinemShell', gridr=a, degree=1), tarcall=lambda A, c, a, q: TARGET()(a), tarpart=lambda A, c, a, q: TARGET()((a, a)), tarpart2=lambda A, c, a, q: TARGET()((np.ones((3, 6)), a)), taritem=lambda A, c, a, q: TARGET()[a],
    gm=lambda A, c, a, q: A.GalaxyModel(a, a), gmdf=lambda A, c, a, q: A.GalaxyModel(c['pl'], a), gmaf=lambda A, c, a, q: A.GalaxyModel(c['pl'], c['uf'], a), gmsf=lambda A, c, a, q: A.GalaxyModel(c['pl'], c['df0'], c['af0'], sf=a), gmmom=lambda A, c, a, q: c['gm0'].moments(a, dens=True, vel=False, vel2=False),
    gmvdf=lambda A, c, a, q: c['gm0'].vdf(np.zeros((0, 3)), gridv=a, dens=a), gmvdfp=lambda A, c, a, q: c['gm0'].vdf(a, gridv=[-1, 0, 1.]) if np.size(a) == 0 or isinstance(a, str) else None, gmproj=lambda A, c, a, q: c['gm0'].projectedDF(a) if np.ndim(a) == 3 or isinstance(a, str) else None, gmsample=lambda A, c, a, q: c['gm0'].sample(a) if not isinstance(a, (int, float)) else None, gmmomsep=lambda A, c, a, q: c['gm0'].moments(np.zeros((0, 3)), separate=a, alpha=a),
    df=lambda A, c, a, q: A.DistributionFunction(a), df2=lambda A, c, a, q: A.DistributionFunction(c['df0'], a), dfpar=lambda A, c, a, q: A.DistributionFunction(type='DoublePowerLaw', norm=a, J0=a), dfqs=lambda A, c, a, q: A.DistributionFunction(type='QuasiSpherical', potential=a, density=a), dfcall=lambda A, c, a, q: c['df0'](a), dfitem=lambda A, c, a, q: c['df0'][a],
    sf=lambda A, c, a, q: A.SelectionFunction(point=a, radius=1., steepness=2.), sfcall=lambda A, c, a, q: A.SelectionFunction(point=[0, 0, 0], radius=1., steepness=2.)(a), sfrad=lambda A, c, a, q: A.SelectionFunction(point=[0., 0, 0], radius=a, steepness=a),
    af=lambda A, c, a, q: A.ActionFinder(a), afcall=lambda A, c, a, q: c['af0'](a), afkw=lambda A, c, a, q: c['af0'](IC(2), angles=a, frequencies=a, fd=a), am=lambda A, c, a, q: A.ActionMapper(a), amcall=lambda A, c, a, q: c['am0'](a) if np.size(a) != 6 else None, actions=lambda A, c, a, q: A.actions(a, a), actionsp=lambda A, c, a, q: A.actions(c['pl'], a, fd=a),
    pot=lambda A, c, a, q: A.Potential(a), pots=lambda A, c, a, q: A.Potential(c['pl'], a), potd=lambda A, c, a, q: A.Potential(a, a, symmetry='s'), potm=lambda A, c, a, q: A.Potential(type='Multipole', density=a), potp=lambda A, c, a, q: A.Potential(type='Multipole', particles=a), potp1=lambda A, c, a, q: A.Potential(type='Multipole', particles=(a, a)), potp2=lambda A, c, a, q: A.Potential(type='CylSpline', particles=(np.ones((4, 3)), a)),
    potgrid=lambda A, c, a, q: A.Potential(type='CylSpline', density=c['pl'], gridSizeR=a, rmin=a, rmax=a), potkw=lambda A, c, a, q: A.Potential(type='Plummer', mass=a, center=a), poto=lambda A, c, a, q: A.Potential(type='Plummer', orientation=a), potsc=lambda A, c, a, q: A.Potential(type='Plummer', scale=a, rotation=a), potmod=lambda A, c, a, q: A.Potential(potential=c['pl'], center=a), potsym=lambda A, c, a, q: A.Potential(c['uf'], symmetry=a), potx=lambda A, c, a, q: A.Potential(dict(type='Plummer'), dict(type='Plummer', mass=a)),
    dens=lambda A, c, a, q: A.Density(a), dens2=lambda A, c, a, q: A.Density(c['dens'], a), densp=lambda A, c, a, q: A.Density(type='DensitySphericalHarmonic', particles=(np.ones((4, 3)), a)), cumul=lambda A, c, a, q: A.Density(cumulmass=a), cumul2=lambda A, c, a, q: A.Density(cumulmass=[a, a]),
    comp=lambda A, c, a, q: A.Component(density=a, disklike=a), compdf=lambda A, c, a, q: A.Component(df=a, disklike=False), compgrid=lambda A, c, a, q: A.Component(df=c['df0'], disklike=False, rminSph=a, rmaxSph=a, sizeRadialSph=a, lmaxAngularSph=a), scm=lambda A, c, a, q: A.SelfConsistentModel(components=a), scmit=lambda A, c, a, q: A.SelfConsistentModel(components=[a]).iterate(), scmkw=lambda A, c, a, q: A.SelfConsistentModel(potential=a, rminSph=a, nonsense=a),
    scmset=lambda A, c, a, q: setattr(A.SelfConsistentModel(), 'components', a), scmsetp=lambda A, c, a, q: setattr(A.SelfConsistentModel(), 'potential', a),
    spline=lambda A, c, a, q: A.Spline(a, a), spliney=lambda A, c, a, q: A.Spline([0., 1, 2], a), splined=lambda A, c, a, q: A.Spline([0., 1, 2], [0., 1, 4], der=a), splinea=lambda A, c, a, q: A.Spline([0., 1, 2], ampl=a), splineq=lambda A, c, a, q: A.Spline([0., 1, 2], [0., 1, 4], quintic=a, left=0.1), splinel=lambda A, c, a, q: A.Spline([0., 1, 2], [0., 1, 4], left=a, right=a, reg=a),
    splcall=lambda A, c, a, q: c['sp0'](a), splext=lambda A, c, a, q: c['sp0'](2.5, ext=a), splexta=lambda A, c, a, q: c['sp0']([0.5, 2.5], ext=a), splconv=lambda A, c, a, q: c['sp0']([0.5, 0.6], conv=a), splder=lambda A, c, a, q: c['sp0']([0.5, 0.6], der=a), splroots=lambda A, c, a, q: c['sp0'].roots(a), splitem=lambda A, c, a, q: c['sp0'][a],
    spapprox=lambda A, c, a, q: A.splineApprox([0., 1, 2], a, a), spapprox2=lambda A, c, a, q: A.splineApprox(a, np.arange(5.), np.arange(5.)), spapproxw=lambda A, c, a, q: A.splineApprox([0., 1, 2], np.arange(5.)/2, np.arange(5.), w=a), splog=lambda A, c, a, q: A.splineLogDensity(a, np.ones(3)), splogw=lambda A, c, a, q: A.splineLogDensity([0., 1, 2], np.ones(3), w=a),
    solve=lambda A, c, a, q: A.solveOpt(matrix=a, rhs=a), solve2=lambda A, c, a, q: A.solveOpt(matrix=[np.ones((2, 3)), a], rhs=[np.ones(2), a]), solvex=lambda A, c, a, q: A.solveOpt(matrix=np.ones((2, 3)), rhs=np.ones(2), xpenl=a), solvexq=lambda A, c, a, q: A.solveOpt(matrix=np.ones((2, 3)), rhs=np.ones(2), xpenl=np.ones(3), rpenl=a, rpenq=a), solvemin=lambda A, c, a, q: A.solveOpt(matrix=np.ones((2, 3)), rhs=np.ones(2), xmin=a),
    write=lambda A, c, a, q: A.writeSnapshot(TMPF(), a, 'text'), write2=lambda A, c, a, q: A.writeSnapshot(TMPF(), (np.ones((3, 6)), a), 'nemo'), write3=lambda A, c, a, q: A.writeSnapshot(TMPF(), (np.ones((3, 6)), np.ones(3)), a), writef=lambda A, c, a, q: A.writeSnapshot(a, (np.ones((3, 6)), np.ones(3)), 'text') if not isinstance(a, str) else None, read=lambda A, c, a, q: A.readSnapshot(a),
    integ=lambda A, c, a, q: A.integrateNdim(c['uf'], a) if not isinstance(a, (int, float)) and np.size(a) != 3 else None, integ2=lambda A, c, a, q: A.integrateNdim(c['uf'], [0., 0, 0], a), integ3=lambda A, c, a, q: A.integrateNdim(a, 2), samp=lambda A, c, a, q: A.sampleNdim(c['uf'], a, [0.]*3, [1.]*3), samp2=lambda A, c, a, q: A.sampleNdim(c['uf'], 5, a, a), samp3=lambda A, c, a, q: A.sampleNdim(c['uf'], 5, [0.]*3, a), samp4=lambda A, c, a, q: A.sampleNdim(a, 5, 2),
    gh=lambda A, c, a, q: A.ghMoments(degree=2, gridv=a, matrix=a, ghorder=4), ghm=lambda A, c, a, q: A.ghMoments(degree=2, gridv=np.linspace(-1, 1, 5), matrix=a, ghorder=4), ghb=lambda A, c, a, q: A.ghMoments(degree=2, gridv=np.linspace(-1, 1, 5), matrix=np.ones((2, 6)), ghorder=4, ghbasis=a), gho=lambda A, c, a, q: A.ghMoments(degree=2, gridv=np.linspace(-1, 1, 5), matrix=np.ones(6), ghorder=a if a is not HUGE else -1, ghbasis=[[1., 0, 1]]),
    threads=lambda A, c, a, q: A.setNumThreads(a) if not isinstance(a, int) else None, seed=lambda A, c, a, q: A.setRandomSeed(a) if not isinstance(a, int) else None, kw=lambda A, c, a, q: c['pl'].potential(q, nonsense=a))
HUGE = 1e400
IC = lambda n: points(3, n, 6, 0.5)
SQ = np.array([[0., 0], [1, 0], [1, 1], [0, 1]])
TMPF = lambda: SCRATCH+'/c14w_%d' % os.getpid()
TARGET = lambda: agama.Target(type='DensityClassicTopHat', gridr=[0.5, 1, 2.], axisratioy=1., axisratioz=1., stripsperpane=2)
def bad(f):
    return [np.array(['x', 'y', 'z']), [[1, 2], [3]], 'abc', None, {}, np.zeros((2, 2, 2)), f, [f], np.ones(3)*1j, object(), (), [1, None, 2], np.zeros((0, 3)), HUGE, -1, [1e5, 'q'],
        '[0,1,2]', '1/0', 1.5, np.array(2.), [], np.arange(5.), [0., 1, 1, 0], (1., 2.), np.ones((2, 3), dtype='f4')[:, ::2], [np.ones((2, 2)), np.ones(3)], True, b'abc', np.nan, (np.ones((2, 3)), np.ones(2)), np.array([1, 2, 3], dtype=object), np.ones(6)]

class WrongArgs(Leaks):
    """arguments of every kind in every place of every function: whatever the outcome, repeating the call accumulates nothing (and the process survives)"""
    name = 'wrongargs'; runs = 1; threads = (1, 3); weight = 1.2
    def params(self, rng):
        n = len(bad(None))
        return dict(seed=rng.getrandbits(30), ops=[[('wrong', 0)]], pot=rng.choice(['plummer', 'mn']), yields=False, fault='none', calls=[(rng.choice(list(WRONG)), rng.sample(range(n), 8)) for _ in range(3)])
    def setup(self, p):
        c = super().setup(p); c['df0'] = make_df('dp', c['pl']); c['af0'] = agama.ActionFinder(c['pl']); c['am0'] = agama.ActionMapper(c['pl']); c['gm0'] = agama.GalaxyModel(c['pl'], c['df0']); c['sp0'] = agama.Spline([0., 1, 2], [0., 1, 4])
        return c
    def run(self, p, ctx, x):
        ctx = dict(ctx); f = ctx['uf'] = UF(FN['fdens']); vals = bad(f); out = []; h0 = sigint_handler(); q = points(7, 3, 3, 0.8); errs = 0; N = 48; done = 0
        probes = [v for v in ctx.values() if not isinstance(v, (int, float, bool, str))] + vals; names = [k for k, v in ctx.items() if not isinstance(v, (int, float, bool, str))] + ['value %d' % i for i in range(len(vals))]
        with contextlib.redirect_stderr(None), contextlib.redirect_stdout(None), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for n, ks in p['calls']:
                for k in ks:
                    l = array.array('q', [0]*N); b = array.array('q', [0]*N); rc = np.zeros((N, len(probes)), dtype=int); i = 0; e = None
                    while i < 5 or i < N and (grows(l[:i]) or grows(b[:i]) or np.any(np.all(np.diff(rc[i-4:i], axis=0) > 0, axis=0))):
                        agama.setRandomSeed(42)
                        try: WRONG[n](agama, ctx, vals[k], q)
                        except Exception as ex:
                            e = sys.intern(type(ex).__name__)
                        if i > 3: gc.collect()
                        l[i] = live(); b[i] = sys.getallocatedblocks()
                        for j in range(len(probes)): rc[i, j] = sys.getrefcount(probes[j])
                        i += 1
                    errs += e is not None; done += 1
                    if grows(l[:i]): out.append((n, k, 'memory', e))
                    if grows(b[:i]): out.append((n, k, 'objects', e))
                    for j in range(len(probes)):
                        if grows(rc[:i, j].tolist()): out.append((n, k, 'refcount', '%s %s' % (names[j], e)))
        try: os.unlink(TMPF())
        except OSError: pass
        return dict(out=out[:6], h=sigint_handler() == h0, errs=errs, done=done, e=[], calls=0, steps=1)
    def judge(self, p, ref, out, cfg, x):
        if out.exc is not None: return [(self.name+':harness', str(out.exc))]
        v = [('%s:%s:%s' % (self.name, n, w), 'call %s with value %d: each call leaves behind %s (%s)' % (n, k, w, e)) for n, k, w, e in out.obs['out']]
        if not out.obs['h']: v.append((self.name+':handler', 'the interrupt handler was not restored'))
        return v
    def stats(self, p, out, x): return dict(calls=out.obs['done'], errors=out.obs['errs']) if out.obs else {}

# ------------------------------------------------------------------------------------------------ user code that does things in the middle of a computation
class Reentrant(Workload):
    """a user function, called back in the middle of an operation, drops references, empties the lists given to it, collects garbage, or calls the library itself"""
    name = 'reentrant'; runs = 8; threads = (1, 5); weight = 1.0; maxfactor = 80
    OPS = ('long', 'longdens', 'mult', 'cyl', 'basis', 'orbit', 'orbit', 'orbitobj', 'target', 'moments', 'scm', 'scm', 'integrate', 'sample', 'af', 'df', 'sampledens', 'mass', 'proj', 'rcirc', 'qs')
    ACTS = ('gc', 'drop', 'mutate', 'mutate', 'attr', 'pot', 'potlong', 'orbit', 'mult', 'fail', 'same', 'gmm')
    TOL = dict(target=1e-9, moments=1e-6, cyl=1e-9, mass=1e-9, proj=1e-9, qs=1e-8, mult=1e-12, basis=1e-9, scm=1e-9)
    def params(self, rng): return dict(seed=rng.getrandbits(30), op=rng.choice(self.OPS), acts=[rng.choice(self.ACTS) for _ in range(rng.choice([1, 1, 2, 3, 5]))], yields=rng.random() < 0.4)
    def setup(self, p):
        pl = agama.Potential(**dens('plummer'))
        return dict(pl=pl, gm=agama.GalaxyModel(pl, make_df('dp', pl)), h=sigint_handler())
    def op(self, p, c, F, h, inner=False):
        """h: the references kept by the caller, l: lists given to the library"""
        n = p['op']; s = p['seed']; L = h.setdefault('lists', [])
        def ls(*a): L.append(list(a)); return L[-1]
        ud = lambda: agama.Density(F('fdens'), symmetry='t'); up = lambda: agama.Potential(F('fpot'), symmetry='s')
        g = dict(gridSizeR=6, rmin=0.1, rmax=10, symmetry='t')
        if n == 'long': h['o'] = up(); return h['o'].potential(points(s, 20 if inner else 300, 3).tolist())
        if n == 'longdens': h['o'] = agama.Density(ud(), agama.Density(**dens('plummer'))); return h['o'].density(points(s, 20 if inner else 300, 3))
        if n == 'mult': return agama.Potential(type='Multipole', density=F('fdens'), lmax=2, mmax=2, **g).potential(points(s, 3, 3))
        if n == 'basis': return agama.Potential(type='BasisSet', density=F('fdens'), lmax=2, mmax=2, nmax=3, r0=1., symmetry='t').potential(points(s, 3, 3))
        if n == 'cyl': return agama.Potential(type='CylSpline', potential=F('fpot'), symmetry='a', gridSizeR=5, gridSizeZ=5, rmin=0.1, rmax=10, zmin=0.1, zmax=10, mmax=0).potential(points(s, 3, 3))
        if n == 'orbit':
            return unpack(agama.orbit(potential=up(), ic=ls(*points(s, 3, 6, 0.8).tolist()), time=ls(0.5, 0.6, 0.7), timestart=ls(0., 1., 2.), accuracy=1e-3, verbose=False, trajsize=ls(3, 2, 4),
                targets=ls(agama.Target(type='KinemShell', gridr=np.array([0.2, 0.5, 1.]), degree=1), agama.Target(type='DensitySphHarm', gridr=np.array([0.2, 0.5, 1., 2.]), lmax=2, mmax=2))))
        if n == 'orbitobj': return unpack(agama.orbit(potential=up(), ic=ls(*points(s, 3, 6, 0.8).tolist()), time=ls(0.5, 0.6, 0.7), accuracy=1e-3, verbose=False, dtype=object))
        if n == 'target': h['o'] = agama.Target(type='LOSVD', degree=1, gridx=ls(-1., 0., 1.), gridy=ls(-1., 0., 1.), gridv=ls(-1., 0., 1.), apertures=ls(*[np.array([[0.1, 0.1], [0.6, 0.1], [0.6, 0.5]])]), symmetry='t', psf=0.1); return h['o'](ud())
        if n == 'moments': h['o'] = agama.GalaxyModel(agama.Potential(**dens('plummer')), make_df('dp', c['pl']), sf=F('fsf')); return h['o'].moments(ls(*(np.abs(points(s, 2, 3))+0.1).tolist()), dens=True, vel=False, vel2=False)
        if n == 'scm':
            m = h['scm'] = agama.SelfConsistentModel(components=ls(agama.Component(density=agama.Density(F('fdens'), symmetry='t'), disklike=False), agama.Component(density=agama.Density(**dens('plummer')), disklike=False)), rminSph=0.1, rmaxSph=10, sizeRadialSph=6, lmaxAngularSph=2, verbose=False)
            m.iterate(); return m.potential.potential(points(s, 3, 3))
        if n == 'integrate': return list(agama.integrateNdim(F('fdens'), ls(-1., -1., -1.), ls(1., 1., 1.5), toler=1e-3, maxeval=1500))
        if n == 'sample':
            r = agama.sampleNdim(F('fdens'), 60, ls(-1., -1., -1.), ls(1., 1., 1.5)); return [np.shape(r[0]), bool(np.all(np.isfinite(r[0])))]
        if n == 'af': h['o'] = agama.ActionFinder(up(), interp=False); return h['o'](ls(*points(s, 5, 6, 0.6).tolist()))
        if n == 'df': h['o'] = agama.DistributionFunction(F('fdf'), F('fdf')); return h['o'](np.abs(points(s, 20 if inner else 1100, 3)))
        if n == 'sampledens':
            r = ud().sample(50); return [np.shape(r[0]), bool(np.all(np.isfinite(r[0])))]
        if n == 'mass': return ud().enclosedMass(ls(0.3, 1., 2.))
        if n == 'proj': return ud().projectedDensity(ls(*points(s, 3, 2).tolist()), beta=0.4)
        if n == 'rcirc': h['o'] = up(); return h['o'].Rcirc(L=ls(0.1, 0.5, 1.))
        if n == 'qs': return agama.DistributionFunction(type='QuasiSpherical', potential=c['pl'], density=agama.Density(F('fdens'), symmetry='s'))(ls(*np.abs(points(s, 3, 3)).tolist()))
        raise RuntimeError(n)
    def run(self, p, ctx, x):
        ws = []; log = []; st = dict(calls=0, inside=0); at = dict(zip(x.get('at', []), p['acts'])); h = {}
        def probe(): return 0
        def action(a):
            if st['inside']: return
            st['inside'] = 1
            try:
                if a == 'gc': gc.collect(); return
                if a == 'drop': h.clear(); gc.collect(); return
                if a == 'mutate':
                    for l in h.get('lists', []): l.clear()
                    gc.collect(); return
                if a == 'attr':
                    m = h.get('scm')
                    if m is not None: m.components = []; m.potential = ctx['pl']; m.components = [agama.Component(density=ctx['pl'], disklike=False)]
                    return
                if a == 'pot': r = ctx['pl'].potential(points(p['seed'], 3, 3))
                elif a == 'potlong': r = agama.Density(lambda z: FN['fdens'](z), symmetry='s').density(points(p['seed'], 1100, 3))
                elif a == 'orbit': r = unpack(agama.orbit(potential=ctx['pl'], ic=points(p['seed'], 2, 6, 0.8), time=1., accuracy=1e-4, trajsize=3, verbose=False))
                elif a == 'mult': r = agama.Potential(type='Multipole', density=lambda z: FN['fdens'](z), lmax=2, mmax=0, gridSizeR=5, rmin=0.1, rmax=10, symmetry='a').potential(points(p['seed'], 3, 3))
                elif a == 'gmm': r = ctx['gm'].moments(np.abs(points(p['seed'], 1, 3))+0.1, dens=True, vel=False, vel2=False)
                elif a == 'fail':
                    r = []
                    for f in (lambda: agama.Potential(type='Nonexistent'), lambda: agama.Density(lambda z: np.zeros(len(z)+1), symmetry='s'), lambda: ctx['pl'].potential('abc'), lambda: ctx['pl'].Rcirc(E=1.)):
                        try: f(); r.append(None)
                        except Exception as e: r.append((type(e).__name__, msg1(str(e))[:100]))
                elif a == 'same':
                    def F2(w): f = UF(FN[w]); ws.append(weakref.ref(f)); return f
                    r = self.op(p, ctx, F2, {}, True)
                log.append((a, r))
            finally: st['inside'] = 0
        def F(w):
            f = UF(FN[w]); f.yields = p['yields'] and not x.get('log0'); ws.append(weakref.ref(f)); g = f.fn
            def fn(*a, **kw):
                k = st['calls']; st['calls'] += 1
                if k in at: action(at.pop(k))
                return g(*a, **kw)
            f.fn = fn
            return f
        o = {}
        with contextlib.redirect_stderr(None), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            l0 = live()
            try: o['r'] = self.op(p, ctx, F, h); o['e'] = None
            except Exception as e: o['r'] = None; o['e'] = (type(e).__name__, msg1(str(e))[:200])
            o['calls'] = st['calls']
            if x.get('alone'):      # what the actions give when they are not inside the operation
                h.clear()
                for a in sorted(set(p['acts'])): action(a)
            h.clear(); F = None; gc.collect(); gc.collect()
            o['log'] = sorted(log, key=lambda q: q[0]); o['kept'] = sum(w() is not None for w in ws); o['h'] = sigint_handler() == ctx['h']
        return o
    def refspec(self, p): return [('ref', dict(policy='seq', nthreads=1), dict(alone=1)), ('act', dict(policy='seq', nthreads=1), dict(at=list(range(3, 3+len(p['acts'])))))]
    def refcheck(self, p, ref):
        r = ref['ref']
        if r.exc is not None or r.obs['e']: return [('%s:ref-exception' % self.name, '%s: %s' % (p['op'], r.exc or r.obs['e']))]
        return self.judge(p, ref, ref['act'], None, {})
    def plan(self, rng, p, ref, sidx):
        n = max(1, ref['ref'].obs['calls']); c = swarm(rng, self.threads, ref['ref'])
        return c, dict(at=sorted({rng.choice([rng.randrange(n), rng.randrange(n), int(n*rng.random()**4)]) for _ in p['acts']}))
    def judge(self, p, ref, out, cfg, x):
        n = '%s:%s' % (self.name, p['op']); v = []
        if out.exc is not None: return [(n+':harness', str(out.exc))]
        o = out.obs; g = ref['ref'].obs; tol = self.TOL.get(p['op'], 0)
        if o['e']: v.append((n+':failed', 'with user code that does %s in the middle, the operation fails: %s' % (p['acts'], o['e'])))
        else:
            d = same(g['r'], o['r'], tol, tol*0.1)
            if d: v.append((n+':value', 'with user code that does %s in the middle, the result differs: %s' % (p['acts'], d)))
        lg = dict(g['log'])
        for a, r in o['log']:
            if a in lg:
                t = 1e-5 if a in ('gmm',) else 1e-9
                d = same(lg[a], r, t, t*0.1)
                if d: v.append((n+':inner:'+a, 'a call (%s) made by the user function in the middle of the operation gives another result: %s' % (a, d)))
        if o['kept']: v.append((n+':kept', 'user functions still referenced after the operation: %d' % o['kept']))
        if not o['h']: v.append((n+':handler', 'the interrupt handler was not restored'))
        return v
    def stats(self, p, out, x): return dict(actions=len(x.get('at', ())))

class Null(io.TextIOBase):
    def write(self, s): return len(s)
    def flush(self): pass

WORKLOADS = [Lifetimes(), Leaks(), CheapLeaks(), WrongArgs(), Reentrant()]
