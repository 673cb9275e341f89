"""C07: reading a file gives everything that is in it or an error, whatever the storage does."""
from common import *
import re
from common import _lib
from p_c06 import Disk
from p_c01 import cloud

def damage(b, ops):
    """what a crashed writer or a careless edit leaves: cut at a byte, lines lost, repeated, swapped, with fields missing, added or altered"""
    for o in ops:
        if o[0] == 'cut': b = b[:o[1]]; continue
        if o[0] == 'byte':
            if b: i = o[1] % len(b); b = b[:i]+bytes([o[2]])+b[i+1:]
            continue
        L = b.split(b'\n'); n = len(L)-1
        if n < 1: continue
        i = o[1] % n
        if o[0] == 'del': del L[i]
        elif o[0] == 'dup': L.insert(i, L[i])
        elif o[0] == 'blank': L.insert(i, b'')
        elif o[0] == 'swap': L[i], L[o[2] % n] = L[o[2] % n], L[i]
        elif o[0] == 'fewer':
            q = re.findall(rb'\s*\S+', L[i]); L[i] = b''.join(q[:max(0, len(q)-o[2])])
        elif o[0] == 'more': L[i] += b' 1.5'*o[2]
        b = b'\n'.join(L)
    return b

class Reader(Disk):
    runs = 24
    HARMLESS = ('rshort', 'reintr')
    FILES = ()
    def gdir(self): return SCRATCH + '/rd%d' % os.getpid()
    def contents(self, p): raise NotImplementedError      # -> {file name: bytes}
    def make(self, p): return dict(files=self.contents(p))
    def populate(self, p, ctx):
        for n, b in ctx['files'].items():
            if os.path.dirname(n): os.makedirs(os.path.dirname(n), exist_ok=True)
            with open(n, 'wb') as s: s.write(b)
    def read(self, p, ctx): raise NotImplementedError     # -> observation
    def run(self, p, ctx, x):
        fd0 = self.nfd(); cwd = os.getcwd()
        for n, k in x.get('cut', {}).items():
            with open(n, 'rb') as q: b = damage(q.read(), k)
            with open(n, 'wb') as q: q.write(b)
        self.armio(1, b'')
        r = e = None
        try: r = self.read(p, ctx)
        except Exception as ex: e = (type(ex).__name__, msg1(str(ex)))
        self.armio(0)
        o = dict(r=r, e=e, fds=self.nfd()-fd0, cwd=os.getcwd() == cwd)
        if x.get('again'):
            try: o['r2'] = self.read(p, ctx); o['e2'] = None
            except Exception as ex: o['e2'] = (type(ex).__name__, msg1(str(ex)))
        return o
    def plan(self, rng, p, ref, sidx):
        r = ref['ref']; f = []; x = {}
        if rng.random() < 0.4: x['cut'] = self.cut(rng, p)
        if not x.get('cut') or rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(['rerr', 'rerr', 'rshort', 'rshort', 'reintr', 'openerr'])
                at = rng.randint(1, max(1, r.nreads))
                if k == 'rerr': f.append((k, at, rng.choice([5, 116, 70])))
                elif k == 'rshort': f.append((k, at, rng.choice([1, 2, 7, 100, 4096])))
                elif k == 'reintr': f.append((k, at))
                elif k == 'openerr': f.append((k, rng.randint(1, max(1, r.nopen)), rng.choice([13, 24, 5])))
        x['again'] = int(not x.get('cut') and rng.random() < 0.3)
        return dict(seed=rng.getrandbits(40), faults=f), x
    def cut(self, rng, p):
        c = self.contents(p); n = rng.choice(sorted(c)); b = c[n]
        if rng.random() < 0.45:
            o = []; g = rng.getrandbits
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.choice(['del', 'dup', 'blank', 'swap', 'fewer', 'fewer', 'more', 'byte'])
                o.append([k, g(20), rng.choice(b'0123456789 -+.,;#\te=[') if k == 'byte' else rng.randint(1, 4) if k in ('fewer', 'more') else g(20)])
            return {n: o}
        k = rng.choice([rng.randint(0, len(b)), rng.randint(0, len(b)), max(0, len(b)-rng.randint(1, 20)), rng.randint(0, min(30, len(b)))])
        return {n: [['cut', k]]}
    def refcheck(self, p, ref):
        r = ref['ref']
        if r.exc is not None or r.obs['e']: return [(self.name+':ref-exception', 'reading an intact file failed: %s %s' % (r.exc, r.obs and r.obs['e']))]
        m = self.expect(p, {}, r.obs)
        return [(self.name+':content', m)] if m else []
    def expect(self, p, cut, o):
        """compare with the independent model of the format; '' if fine"""
        return ''
    def openharm(self, p): return True
    def judge(self, p, ref, out, cfg, x):
        n = self.name; v = []
        if out.exc is not None: return [(n+':harness', str(out.exc[:2]))]
        o = out.obs; cut = x.get('cut', {})
        if not o['cwd']: v.append((n+':cwd', 'the current directory was not restored'))
        if o['fds']: v.append((n+':fd', '%d file descriptors leaked' % o['fds']))
        harm = [k for k in out.fired if k not in self.HARMLESS]
        if o['e'] is not None and o['e'][0] not in ('RuntimeError', 'ValueError'): v.append((n+':type', 'unusual error %s' % (o['e'],)))
        if o['e'] is None:
            if harm and not cut:       # an error in a part of the file that is not needed does not matter
                d = same(ref['ref'].obs['r'], o['r'])
                if d: v.append((n+':ignored', 'an input error (%s) was ignored: the call returned normally, but its result is incomplete: %s' % (out.fired, d)))
            elif not cut and not harm:
                d = same(ref['ref'].obs['r'], o['r'])
                if d: v.append((n+':short', 'short or interrupted reads change the result: '+d))
        elif not harm and not cut: v.append((n+':spurious', 'short or interrupted reads make the call fail: %s' % (o['e'],)))
        if cut and not harm:
            m = self.expect(p, cut, o)
            if m: v.append((n+':torn', 'file cut at %s: %s' % (cut, m)))
        if x.get('again') and not v:
            if o['e2']: v.append((n+':after', 'reading again after an input error fails: %s' % (o['e2'],)))
            else:
                d = same(ref['ref'].obs['r'], o['r2'])
                if d: v.append((n+':after', 'reading again after an input error gives another result: '+d))
        return v
    def stats(self, p, out, x): return dict(errors=int(bool(out.obs and out.obs['e'])), torn=int(bool(x.get('cut'))))

def prefix(t):
    """number at the beginning of a token"""
    m = re.match(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?', t)
    if not m: raise Unparsable(t)
    return float(m.group(0))
class Unparsable(Exception): pass

def num(rng, v):
    return rng.choice(['%.9g', '%+.6e', '%.4f', '%g', '%.17g'][:4] if abs(v) > 0 else ['%g']) % v

class RSnap(Reader):
    name = 'read-snapshot'; weight = 1.6
    def params(self, rng):
        return dict(seed=rng.getrandbits(40), cols=rng.choice([4, 7, 7, 8, 9, 11]), n=rng.choice([1, 3, 30, 250, 700]), sep=rng.choice([' ', '\t', ',', ', ', ' ; ', '   ']), style=rng.choice(['plain', 'comments', 'header', 'junk', 'crlf', 'mixed']), units=rng.random() < 0.2, own=rng.random() < 0.25)
    def contents(self, p):
        rng = random.Random(p['seed']); L = []
        if p['own']:      # a file produced by the library's own format
            L.append('#x\ty\tz\tvx\tvy\tvz\tm')
            for _ in range(p['n']): L.append('\t'.join('%.8g' % rng.gauss(0, 1) for _ in range(7)))
            return dict(snap=('\n'.join(L)+'\n').encode())
        if p['style'] in ('header', 'mixed'): L.append('x y z vx vy vz mass')
        for i in range(p['n']):
            if p['style'] in ('comments', 'mixed') and rng.random() < 0.2: L.append('# first' if not L else rng.choice(['# comment 1 2 3 4 5 6 7', '', '   ', ';1 2 3 4 5 6 7']))
            if p['style'] in ('junk', 'mixed') and rng.random() < 0.15: L.append(rng.choice(['1 2 3', 'nan 0 0 0 0 0 1', 'abc 1 2 3 4 5 6', '.5 1 2 3 4 5 6']))
            c = 5 if p['style'] == 'mixed' and rng.random() < 0.05 else p['cols']
            row = [num(rng, rng.choice([rng.gauss(0, 1), rng.gauss(0, 1e5), 0., rng.gauss(0, 1e-6)])) for _ in range(c)]
            row[0] = row[0] if row[0][0] in '+-0123456789' else '0'
            s = (rng.choice(['', ' ']) if p['style'] == 'mixed' else '') + p['sep'].join(row)
            if p['style'] == 'crlf': s += '\r'
            L.append(s)
        return dict(snap=('\n'.join(L)+'\n').encode())
    def model(self, p, cut):
        b = self.contents(p)['snap']
        b = damage(b, cut.get('snap', []))
        rows = []
        for l in b.decode().split('\n')[:-1]:
            if l[:1] in ('#', ';'): continue
            for s in '#;,\t': l = l.replace(s, ' ')
            f = l.split(' '); f = [q for q in f if q]
            if len(f) < 4 or f[0][0] not in '0123456789+-': continue
            g = [prefix(q) for q in f]
            hv = len(f) >= 7
            rows.append(g[:3] + (g[3:6] if hv else [0., 0., 0.]) + [g[6] if hv else g[3]])
        return b, np.array(rows).reshape(-1, 7)
    def read(self, p, ctx): X, m = agama.readSnapshot('snap'); return np.column_stack((X, m)) if len(m) else np.zeros((0, 7))
    def expect(self, p, cut, o):
        try: b, w = self.model(p, cut)
        except Unparsable: return ''
        if o['e'] is not None: return '' if cut and (len(b) < 8 or b[0] < 32 or len(w) == 0) else 'an error although the file contains %d complete particles: %s' % (len(w), o['e'])
        r = np.array(o['r'])
        if r.shape != w.shape: return '%d particles read, %d are in the file' % (len(r), len(w))
        bad = np.abs(r-w) > 1e-14*np.abs(w)
        return 'particle %d: %s read, %s in the file' % (np.argmax(bad.any(1)), r[np.argmax(bad.any(1))], w[np.argmax(bad.any(1))]) if bad.any() else ''

class RTime(Reader):
    name = 'read-time-dependent-arrays'; weight = 1.2
    KIND = dict(center=3, rotation=1, scale=2, uniform=3)
    def params(self, rng): return dict(seed=rng.getrandbits(40), kind=rng.choice(sorted(self.KIND)), n=rng.choice([1, 2, 3, 10, 300]), der=rng.random() < 0.4, sep=rng.choice([' ', '\t', ', ']), comments=rng.random() < 0.5, units=rng.random() < 0.3)
    def contents(self, p):
        rng = random.Random(p['seed']); K = self.KIND[p['kind']]; L = []; t = rng.uniform(-1, 0)
        for i in range(p['n']):
            if p['comments'] and rng.random() < 0.3: L.append(rng.choice(['#1 2 3 4 5 6 7 8', '', 'time value']))
            v = [rng.uniform(0.5, 1.5) for _ in range(K)] + ([rng.uniform(-0.2, 0.2) for _ in range(K)] if p['der'] else [])
            L.append(p['sep'].join('%.10g' % q for q in [t]+v)); t += rng.uniform(0.1, 1)*3/p['n']
        return dict(traj=('\n'.join(L)+'\n').encode())
    def model(self, p, cut):
        b = self.contents(p)['traj']
        b = damage(b, cut.get('traj', []))
        L = [re.split('[;, \t]+', l.strip(';, \t')) for l in b.decode().split('\n')[:-1] if l and l[0] not in '#;']; K = self.KIND[p['kind']]
        L = [l for l in L if len(l) >= K+1 and l[0][0] in '+-0123456789']
        d = [len(l) >= 2*K+1 for l in L]
        if any(d) and not all(d): return None       # values with and without derivatives
        return [[repr(prefix(q)) for q in l[:(2*K+1 if all(d) else K+1)]] for l in L]
    def create(self, p, src):
        if p['kind'] == 'uniform': return agama.Potential(type='UniformAcceleration', file=src)
        return agama.Potential(type='Plummer', scaleRadius=0.7, mass=1., **{p['kind']: src})
    def values(self, pot): X = points(1, 12, 3); return pot.force(X, t=np.linspace(-1, 3, 12))
    def read(self, p, ctx): return self.values(self.create(p, 'traj'))
    def expect(self, p, cut, o):
        try: rows = self.model(p, cut)
        except Unparsable: return ''
        ok = False; w = None
        if rows is None: return '' if o['e'] is not None else 'accepted, although only some of the lines contain derivatives'
        if rows:
            arr = '['+','.join('['+','.join(r)+']' for r in rows)+']'
            try:
                w = self.values(self.create(p, arr)); ok = True
            except Exception: pass
        if not ok: return '' if o['e'] is not None else 'accepted, although the %d complete lines do not make a valid array' % len(rows)
        if o['e'] is not None: return 'rejected (%s), although it contains %d complete lines' % (o['e'], len(rows))
        d = same(w, o['r'], 1e-13)
        return 'result differs from the array given directly (%d lines): %s' % (len(rows), d) if d else ''

class RIni(Reader):
    """nested INI files in several directories"""
    name = 'read-model-files'; weight = 1.2
    def params(self, rng):
        return dict(seed=rng.getrandbits(40), depth=rng.choice([0, 1, 2]), evolving=rng.random() < 0.5, snap=rng.random() < 0.4, traj=rng.random() < 0.5, linear=rng.random() < 0.5, dens=rng.random() < 0.25, style=rng.getrandbits(8), units=rng.random() < 0.3)
    def tree(self, p):
        """-> files, and the recipe of the same model without files"""
        rng = random.Random(p['seed']); F = {}; sub = ['', 'sub/', 'sub/deep/'][p['depth']]; nl = '\r\n' if p['style'] & 1 else '\n'
        c = (lambda s: s.upper()) if p['style'] & 2 else (lambda s: s)
        sp = ' ' if p['style'] & 4 else ''
        if p['dens']:
            a = [rng.uniform(0.5, 2) for _ in range(4)]
            F[sub+'main.ini'] = nl.join(['; comment', '[Density disk]', c('type')+sp+'='+sp+'Plummer', c('mass')+'=%.15g' % a[0], '', '[density2]', 'type=Dehnen', 'mass=%.15g' % a[1], 'gamma=1', '']).encode()
            return F, ('dens', a)
        traj = np.array([[t, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1)] for t in range(4)])
        a = [rng.uniform(0.5, 2) for _ in range(6)]
        L = ['# potential', '[Potential a]', c('type')+sp+'='+sp+'Plummer', 'scaleRadius=%.15g' % a[0], c('mass')+'=%.15g' % a[1]]
        if p['traj']: L.append('center='+sp+'traj.txt'); F[sub+'traj.txt'] = ''.join(' '.join('%.15g' % q for q in r)+'\n' for r in traj).encode()
        if p['evolving']:
            L += ['', '[Potential b]', 'type=Evolving', 'interpLinear=%s' % (['False', 'True'][p['linear']]), 'Timestamps'] + ['%d pots/p%d.ini' % (i, i) for i in range(3)]
            for i in range(3): F[sub+'pots/p%d.ini' % i] = ('[Potential]\ntype=Plummer\nmass=%.15g\nscaleRadius=1\n' % (a[2]+i)).encode()
        L += ['', '[Potential c]', 'file=other/q.ini']
        F[sub+'other/q.ini'] = ('[Potential]\ntype=Dehnen\nmass=%.15g\ngamma=1\n[Potential 2]\ntype=Plummer\nmass=0.1\n' % a[5]).encode()
        if p['snap']:
            xyz, m = cloud(p['seed'] & 0xffff, 120)
            L += ['[Potential d]', 'type=BasisSet', 'nmax=3', 'lmax=2', 'symmetry=t', 'file=other/snap']
            F[sub+'other/snap'] = ''.join(' '.join('%.17g' % q for q in list(xyz[i])+[m[i]])+'\n' for i in range(120)).encode()
        F[sub+'main.ini'] = (nl.join(L)+nl).encode()
        return F, ('pot', a, traj)
    def contents(self, p): return self.tree(p)[0]
    def main(self, p): return ['', 'sub/', 'sub/deep/'][p['depth']]+'main.ini'
    def values(self, p, o): X = points(2, 8, 3); return o.density(X) if p['dens'] else np.column_stack((o.potential(X, t=0.7), o.potential(X, t=1.6)))
    def read(self, p, ctx): return self.values(p, (agama.Density if p['dens'] else agama.Potential)(self.main(p)))
    def refcheck(self, p, ref):
        v = super().refcheck(p, ref)
        if v: return v
        k = self.tree(p)[1]; a = k[1]
        if k[0] == 'dens': m = agama.Density(dict(type='Plummer', mass=a[0]), dict(type='Dehnen', mass=a[1], gamma=1))
        else:
            c = [agama.Potential(type='Plummer', scaleRadius=a[0], mass=a[1], **(dict(center=k[2]) if p['traj'] else {}))]
            if p['evolving']: c.append(agama.Potential(type='Evolving', potentials=[agama.Potential(type='Plummer', mass=float('%.15g' % (a[2]+i)), scaleRadius=1) for i in range(3)], timestamps=[0., 1., 2.], interpLinear=bool(p['linear'])) if False else None)
            c.append(agama.Potential(type='Dehnen', mass=a[5], gamma=1)); c.append(agama.Potential(type='Plummer', mass=0.1))
            if p['snap']:
                xyz, ms = cloud(p['seed'] & 0xffff, 120)
                c.append(agama.Potential(type='BasisSet', particles=(xyz, ms), nmax=3, lmax=2, symmetry='t'))
            w = 0
            X = points(2, 8, 3)
            for q in c:
                if q is not None: w = w + np.column_stack((q.potential(X, t=0.7), q.potential(X, t=1.6)))
            if p['evolving']:
                e = [agama.Potential(type='Plummer', mass=float('%.15g' % (a[2]+i)), scaleRadius=1).potential(X) for i in range(3)]
                tu = 1.0
                lin = lambda t: e[int(t)]*(1-(t-int(t))) + e[int(t)+1]*(t-int(t))
                w = w + np.column_stack([(lin(t) if p['linear'] else e[int(np.floor(t+0.5))]) for t in (0.7, 1.6)])
            d = same(w, ref['ref'].obs['r'], 1e-9)
            return [(self.name+':content', 'the model read from files differs from the same model built directly: '+d)] if d else []
        d = same(self.values(p, m), ref['ref'].obs['r'], 1e-10)
        return [(self.name+':content', 'the model read from files differs from the same model built directly: '+d)] if d else []

_lib.shim_mass_profile.argtypes = _lib.shim_galpot.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_char_p]
class RLegacy(Reader):
    name = 'read-tables'; weight = 0.7
    def params(self, rng): return dict(seed=rng.getrandbits(40), kind=rng.choice(['mass', 'galpot']), n=rng.choice([4, 20, 600]), nl=rng.random() < 0.7)
    def contents(self, p):
        rng = random.Random(p['seed'])
        if p['kind'] == 'mass':
            r = np.logspace(-1, 1, p['n']); a = rng.uniform(0.5, 2)
            L = ['#r M'] + ['%.12g %.12g' % (x, x**3/(x*x+a*a)**1.5) for x in r]
        else:
            nd, ns = rng.choice([(1, 1), (2, 1), (0, 2), (1, 2)])
            L = ['%d' % nd] + [' '.join('%.6g' % q for q in (rng.uniform(1, 5), rng.uniform(1, 3), rng.choice([-1, 1])*rng.uniform(0.1, 0.3), 0, 0)) for _ in range(nd)]
            L += ['%d' % ns] + [' '.join('%.6g' % q for q in (rng.uniform(1, 5), rng.uniform(0.5, 1), rng.uniform(0.5, 1.5), rng.uniform(3.5, 4.5), rng.uniform(0.5, 2), rng.choice([0, 10]))) for _ in range(ns)]
        return dict(table=('\n'.join(L)+('\n' if p['nl'] else '')).encode())
    def read(self, p, ctx):
        err = ctypes.create_string_buffer(500)
        if p['kind'] == 'mass':
            r = np.logspace(-0.8, 0.8, 7); o = np.zeros(7)
            rc = _lib.shim_mass_profile(b'table', 7, r.ctypes.data, o.ctypes.data, err)
        else:
            r = np.ascontiguousarray(points(3, 5, 3)); o = np.zeros(5)
            rc = _lib.shim_galpot(b'table', 5, r.ctypes.data, o.ctypes.data, err)
        if rc: raise RuntimeError(err.value.decode('latin1'))
        return o
    def expect(self, p, cut, o):
        b = self.contents(p)['table']; k = cut.get('table', [['cut', len(b)]])
        if k[0][0] != 'cut': return ''
        k = k[0][1]
        if p['kind'] == 'galpot' and k < len(b)-1:
            lines = b.decode().split('\n'); want = len([l for l in lines if l])
            got = b[:k].decode().split('\n')
            if len([l for l in got if l]) < want and o['e'] is None: return 'a GalPot file without its last components was accepted'
        if p['kind'] == 'mass' and o['e'] is None and not cut:
            a = float('nan')
            r = np.logspace(-0.8, 0.8, 7)
            rng = random.Random(p['seed']); a = rng.uniform(0.5, 2)
            w = 3*a*a/(4*np.pi)*(r*r+a*a)**-2.5
            if p['n'] >= 20 and np.max(np.abs(o['r']/w-1)) > 0.02: return 'density of the mass profile is wrong: %s vs %s' % (o['r'], w)
        return ''

WORKLOADS = [c() for c in (RSnap, RTime, RIni, RLegacy)]
