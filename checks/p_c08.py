"""C08: an exported model can be loaded back as the same model; a damaged file is never taken for a complete one."""
from common import *
from p_c06 import Disk
from p_c01 import cloud

def build(kind, seed):
    r = random.Random(seed)
    d = dens(r.choice(['plummer', 'dehnen_ax', 'dehnen_tri', 'spheroid'])); src = agama.Density(**d)
    sph = dict(lmax=r.choice([0, 2, 3, 4]), gridSizeR=r.choice([8, 12, 20]), rmin=r.choice([0.03, 0.1]), rmax=r.choice([50., 5e3]))
    cyl = dict(mmax=r.choice([0, 1, 2]), gridSizeR=r.choice([5, 6, 10]), gridSizeZ=r.choice([5, 6, 9]), rmin=0.1, rmax=20., zmin=0.1, zmax=20.)
    mod = agama.Potential(type='Plummer', mass=r.uniform(0.3, 3), scaleRadius=1.) if r.random() < 0.4 else agama.Potential(type='Logarithmic', axisRatioY=0.8, axisRatioZ=0.7, scaleRadius=0.5)
    part = r.random() < 0.35
    pt = dict(particles=cloud(seed & 0xffff, 300), symmetry=r.choice(['n', 'r', 't', 'a', 's']))
    if kind == 'Multipole':
        if part: return agama.Potential(type=kind, **pt, **dict(sph, rmin=r.choice([0.5, 0.7])))    # there must be enough particles inside the innermost radius, or else the inner slope is ill-defined
        return agama.Potential(type=kind, **r.choice([dict(density=src), dict(potential=mod)]), **sph)
    if kind == 'BasisSet':
        o = dict(lmax=sph['lmax'], nmax=r.choice([0, 2, 6, 11]), **({} if r.random() < 0.5 else dict(eta=r.uniform(0.6, 1.5), r0=r.uniform(0.5, 2))))
        return agama.Potential(type=kind, **(pt if part else dict(density=src)), **o)
    if kind == 'CylSpline': return agama.Potential(type=kind, **(pt if part else dict(potential=mod) if r.random() < 0.6 else dict(density=agama.Density(**dens('plummer')))), **cyl)
    if kind == 'DensitySphericalHarmonic': return agama.Density(type=kind, density=src, **dict(sph, lmax=r.choice([0, 2, 4])))
    if kind == 'DensityAzimuthalHarmonic': return agama.Density(type=kind, density=src, **cyl)
    if kind == 'CompPot': return agama.Potential(*[build(r.choice(['Multipole', 'BasisSet', 'CylSpline']), seed*7+i) for i in range(r.choice([2, 3]))])
    if kind == 'CompDens': return agama.Density(*[build(r.choice(['DensitySphericalHarmonic', 'DensityAzimuthalHarmonic']), seed*7+i) for i in range(2)])

SPH = ('Multipole', 'BasisSet', 'DensitySphericalHarmonic')

class Export(Disk):
    name = 'export-import'
    runs = 16; weight = 2
    TOL = (2e-5, 1e-7, 1e-6)       # density (second derivative of the stored coefficients), potential, force: the file keeps ~12-15 digits
    KINDS = SPH + ('CylSpline', 'DensityAzimuthalHarmonic', 'CompPot', 'CompDens')
    def gdir(self): return SCRATCH + '/ex%d' % os.getpid()
    def params(self, rng): return dict(kind=rng.choice(self.KINDS), seed=rng.getrandbits(24), units=rng.random() < 0.5)
    def make(self, p): return dict(m=build(p['kind'], p['seed']))
    def cls(self, p): return agama.Density if 'Dens' in p['kind'] else agama.Potential
    def values(self, p, o):
        X = np.vstack((points(p['seed'], 40, 3, 1.5), points(p['seed']+1, 10, 3, 8.), [[0., 0, 0.3], [1e-3, 0, 0], [0, 40., 30.]]))
        return [o.density(X)] + ([] if 'Dens' in p['kind'] else [o.potential(X), o.force(X)])
    def run(self, p, ctx, x):
        o = dict(werr=None, rerr=None, err=None, v=None); fd0 = self.nfd()
        self.armio(1, b'o_')
        try: ctx['m'].export('o_m')
        except Exception as e: o['werr'] = (type(e).__name__, msg1(str(e)))
        if x.get('wonly'): self.armio(0); return o
        if 'cut' in x or 'junk' in x: self.armio(0)
        if 'cut' in x: os.truncate('o_m', min(x['cut'], os.path.getsize('o_m')))
        if 'junk' in x:
            b = open('o_m', 'rb').read().split(b'\n'); k = x['junk'] % len(b)
            if x['junkkind'] == 'dup': b.insert(k, b[k])
            elif x['junkkind'] == 'del': del b[k]
            elif x['junkkind'] == 'blank': b.append(b'   ')
            elif x['junkkind'] == 'hole': b[k] = b'\0'*len(b[k])
            with open('o_m', 'wb') as f: f.write(b'\n'.join(b))
        if 'cut' in x or 'junk' in x: self.armio(1, b'o_')
        if o['werr'] is None or 'cut' in x:
            try:
                m = self.cls(p)('o_m'); o['v'] = self.values(p, m)
                if not x:
                    m.export('o_2'); m2 = self.cls(p)('o_2'); o['v2'] = self.values(p, m2)
            except Exception as e: o['rerr'] = (type(e).__name__, msg1(str(e)))
        self.armio(0)
        o['file'] = open('o_m', 'rb').read() if os.path.exists('o_m') else b''
        o['fds'] = self.nfd()-fd0
        return o
    def tols(self, p): return (2e-3, 1e-5, 2e-5) if p['kind'] in ('Multipole', 'CompPot') else self.TOL    # log-scaled interpolation amplifies rounding errors near the centre
    def compare(self, a, b, tols):
        for k, (x, y) in enumerate(zip(a, b)):
            n = ('density', 'potential', 'force')[k]
            s = np.nanmax(np.abs(x)) if x.size else 0; tol = tols[k]
            bad = ~(np.abs(x-y) <= tol*s) & ~(np.isnan(x) & np.isnan(y))
            if bad.any(): i = np.argmax(bad.ravel()); return '%s at point %d: %.12g vs %.12g' % (n, i, x.ravel()[i], y.ravel()[i])
        return ''
    def refcheck(self, p, ref):
        o = ref['ref'].obs; n = '%s:%s' % (self.name, p['kind'])
        if ref['ref'].exc is not None or o['werr'] or o['rerr']: return [(n+':ref-exception', 'export or import failed: %s %s %s' % (ref['ref'].exc, o and o['werr'], o and o['rerr']))]
        w = self.values(p, build(p['kind'], p['seed']))
        d = self.compare(w, o['v'], self.tols(p))
        if d: return [(n+':roundtrip', 'the loaded model differs from the exported one: '+d)]
        d = self.compare(o['v'], o['v2'], self.tols(p))
        if d: return [(n+':second', 'exporting the loaded model again changes it: '+d)]
        return []
    def plan(self, rng, p, ref, sidx):
        r = ref['ref']; n = len(r.obs['file']); f = []; x = {}
        k = rng.choice(['cut', 'cut', 'cut', 'io', 'io', 'junk'])
        if k == 'cut': x['cut'] = rng.choice([rng.randint(0, n), rng.randint(0, n), n-rng.randint(1, 60) if n > 60 else 0, self.lineend(rng, r.obs['file'])])
        elif k == 'junk': x = dict(junk=rng.getrandbits(16), junkkind=rng.choice(['dup', 'del', 'blank', 'hole']))
        if k == 'io' or rng.random() < 0.1:
            x['fault'] = 1
            for _ in range(rng.choice([1, 2])):
                q = rng.choice(['wshort', 'weintr', 'rshort', 'reintr', 'werr', 'space', 'rerr', 'closeerr'])
                at = rng.randint(1, max(1, r.nwrite if q[0] == 'w' else r.nreads))
                f.append((q, rng.randint(0, r.bytesw) if q == 'space' else at, dict(wshort=rng.choice([1, 500]), rshort=rng.choice([1, 9, 700])).get(q, 5), 0))
        return dict(seed=rng.getrandbits(40), faults=f), x
    def lineend(self, rng, b):
        e = [i+1 for i, c in enumerate(b) if c == 10]
        return rng.choice(e) if e else 0
    def complete(self, p, cut, b):
        """number of data fields dropped by the cut: 0 - nothing of value is lost; None - cannot be told (inside the last number)"""
        lost = b[cut:]
        if not lost.strip(): return 0
        if cut > 0 and b[cut-1:cut].strip() and b[cut:cut+1].strip(): lost = b[cut:].split(None, 1); return len(lost[1].split()) if len(lost) > 1 else None
        return len(lost.split())
    def judge(self, p, ref, out, cfg, x):
        n = '%s:%s' % (self.name, p['kind']); v = []
        if out.exc is not None: return [(n+':harness', str(out.exc[:2]))]
        o = out.obs; g = ref['ref'].obs; full = g['file']
        harm = [k for k in out.fired if k not in ('wshort', 'weintr', 'rshort', 'reintr')]
        damaged = 'cut' in x or 'junk' in x
        if o['fds']: v.append((n+':fd', 'file descriptors leaked'))
        for e in (o['werr'], o['rerr']):
            if e and e[0] not in ('RuntimeError', 'ValueError'): v.append((n+':type', 'unusual error %s' % (e,)))
        if not harm and not damaged:
            if o['werr'] or o['rerr']: v.append((n+':spurious', 'short or interrupted I/O makes export or import fail: %s %s' % (o['werr'], o['rerr'])))
            elif o['file'] != full: v.append((n+':file', 'short or interrupted I/O changes the exported file'))
            else:
                d = same(g['v'], o['v'])
                if d: v.append((n+':short', 'short or interrupted I/O changes the loaded model: '+d))
        elif not damaged:
            if o['werr'] is None and o['rerr'] is None:
                d = same(g['v'], o['v'])
                if d: v.append((n+':ignored', 'an I/O error (%s) was not reported, and the loaded model differs: %s' % (out.fired, d)))
        elif 'cut' in x and not harm and o['werr'] is None:
            k = self.complete(p, min(x['cut'], len(full)), full)
            if k == 0:
                if o['rerr'] or same(g['v'], o['v']): v.append((n+':torn', 'only blank characters are missing at the end of the file, but loading gives %s' % (o['rerr'] or same(g['v'], o['v']),)))
            elif k is not None and p['kind'] in SPH and o['rerr'] is None:
                v.append((n+':torn', 'a file cut at byte %d of %d (at least %d values missing) was accepted' % (x['cut'], len(full), k)))
        elif 'junk' in x and not harm:
            b = full.split(b'\n'); l = b[x['junk'] % len(b)]
            if x['junkkind'] == 'blank' and p['kind'] not in ('CylSpline', 'DensityAzimuthalHarmonic', 'CompPot', 'CompDens') and (o['rerr'] or same(g['v'], o['v'])): v.append((n+':blank', 'a blank line at the end changes the result: %s' % (o['rerr'],)))
            if x['junkkind'] == 'del' and p['kind'] in SPH and l[:1] in b'0123456789-' and l.strip() and o['rerr'] is None: v.append((n+':torn', 'a file with a missing data line was accepted'))
        return v
    def stats(self, p, out, x): return dict(rejected=int(bool(out.obs and out.obs['rerr'])), torn=int('cut' in x), damaged=int('junk' in x))

WORKLOADS = [Export()]
