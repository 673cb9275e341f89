"""C06: a write that is reported as successful is complete on disk; a failed one is reported; a crash leaves a prefix."""
from common import *
from p_c01 import cloud
import struct, signal

def nemo_parse(b):
    """independent reader of the structured NEMO format -> nested list of (name, value)"""
    T = {ord('i'): ('i', 4), ord('f'): ('f', 4), ord('d'): ('d', 8), ord('c'): ('B', 1)}
    pos = 0
    def zstr():
        nonlocal pos
        e = b.index(b'\0', pos); s = b[pos:e].decode(); pos = e+1
        return s
    def items(depth):
        nonlocal pos
        out = []
        while pos < len(b):
            if b[pos] != 0x92: raise ValueError('bad magic at %d' % pos)
            kind, t = b[pos+1], b[pos+2]; pos += 3
            if b[pos] != 0 : raise ValueError('bad tag at %d' % pos)
            pos += 1
            if t == ord(')'): return out
            name = zstr()
            if t == ord('('): out.append((name, items(depth+1)))
            elif kind == 9:
                c, n = T[t]; out.append((name, struct.unpack_from('<'+c, b, pos)[0])); pos += n
            elif kind == 11:
                dim = []
                while True:
                    d, = struct.unpack_from('<i', b, pos); pos += 4
                    if d == 0: break
                    dim.append(d)
                n = int(np.prod(dim)); c, s = T[t]
                out.append((name, np.frombuffer(b, '<'+('u1' if c == 'B' else c+str(s) if c != 'i' else 'i4'), n, pos).reshape(dim))); pos += n*s
            else: raise ValueError('bad item')
        if depth: raise ValueError('unterminated set')
        return out
    return items(0)

def text_parse(b):
    """independent reader of a text snapshot"""
    rows = []
    for l in b.decode().split('\n')[:-1]:
        if l.startswith('#') or not l.strip(): continue
        rows.append([float(v) for v in l.split()])
    return rows

class Disk(Workload):
    refhang = True
    """operations that write files in a private directory; self.dir is set in the group's own process"""
    sched = False
    runs = 24
    OPS = ()
    def gdir(self): return SCRATCH + '/io%d' % os.getpid()
    def setup(self, p):
        self.dir = self.gdir(); os.makedirs(self.dir, exist_ok=True)
        if p.get('units'): agama.setUnits(mass=1e3, length=0.7, velocity=1.3)
        return self.make(p)
    def prepare(self, p, ctx):
        os.chdir(self.dir)
        for root, ds, fs in os.walk('.', topdown=False):
            for f in fs: os.unlink(os.path.join(root, f))
            for d in ds: os.rmdir(os.path.join(root, d))
        self.populate(p, ctx)
    def populate(self, p, ctx): pass
    def files(self):
        o = {}
        for root, ds, fs in os.walk(self.dir):
            for f in fs:
                n = os.path.relpath(os.path.join(root, f), self.dir)
                with open(os.path.join(self.dir, n), 'rb') as s: o[n] = s.read()
        return o
    def progress(self, k):
        fd = os.open('progress', os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.write(fd, str(k).encode()); os.close(fd)
    def armio(self, on, prefix=b'o_'): simlib.rt.agsim_arm_io(int(on), ctypes.c_char_p(prefix))
    def nfd(self): return len(os.listdir('/proc/self/fd'))

class History(Disk):
    """a sequence of writes to a few files; any of them may be hit by faults, the process may be killed in any of them"""
    KINDS = ()
    def params(self, rng):
        k = rng.choice([1, 1, 2, 3, 5])
        ops = [dict(kind=rng.choice(self.KINDS), file='o_%d' % rng.choice([0, 0, 1]), n=rng.choice([1, 2, 40, 130, 400, 400, 1500]), seed=rng.getrandbits(20)) for _ in range(k)]
        return dict(ops=ops, units=rng.random() < 0.3, old=rng.choice([0, 0, 10, 50000]))
    def make(self, p): return dict(obj=[self.build(o) for o in p['ops']])
    def build(self, o): return None
    def write(self, o, obj): raise NotImplementedError
    def old(self, p): return b'left over \n'*(p['old']//10)
    def populate(self, p, ctx):
        if p['old']:
            for f in ('o_0', 'o_1'):
                with open(f, 'wb') as s: s.write(self.old(p))
    def run(self, p, ctx, x):
        res = []; fd0 = self.nfd()
        self.armio(1)
        for i, o in enumerate(p['ops']):
            self.progress(i)
            try: self.write(o, ctx['obj'][i]); res.append(None)
            except Exception as e: res.append((type(e).__name__, msg1(str(e))))
        self.progress(len(p['ops']))
        self.armio(0)
        return dict(res=res, files=self.files(), fds=self.nfd()-fd0)
    def refspec(self, p):
        return [('ref', {}, {})] + [('op%d' % i, {}, dict(only=i)) for i in range(len(p['ops']))]
    def execops(self, p, x): return [p['ops'][x['only']]] if 'only' in x else p['ops']
    def refcheck(self, p, ref):
        v = []
        for i, o in enumerate(p['ops']):
            r = ref['op%d' % i]
            if r.exc is not None or any(r.obs['res']): return [('%s:ref-exception' % self.name, '%s failed without faults: %s %s' % (o['kind'], r.exc, r.obs and r.obs['res']))]
            b = r.obs['files'].get(o['file'])
            m = 'file not created' if b is None else self.content(p, o, b)
            if m: v.append(('%s:%s:content' % (self.name, o['kind']), m))
        f = dict(ref['ref'].obs['files']); f.pop('progress')
        want = {}
        if p['old']: want = dict(o_0=self.old(p), o_1=self.old(p))
        for i, o in enumerate(p['ops']): want[o['file']] = ref['op%d' % i].obs['files'][o['file']]
        if f != want: v.append(('%s:overwrite' % self.name, 'after a sequence of writes to the same files their content is not that of the last write'))
        return v
    def content(self, p, o, b): return ''
    def plan(self, rng, p, ref, sidx):
        r = ref['ref']; f = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.choice(['werr']*3 + ['werrs'] + ['wshort', 'wshort', 'weintr', 'space', 'space', 'openerr', 'closeerr', 'closeerr', 'crash', 'crash', 'crash'])
            e = rng.choice([5, 28, 122, 27])
            if k == 'werr': f.append(('werr', rng.randint(1, max(1, r.nwrite)), e, 0))
            elif k == 'werrs': f.append(('werr', rng.randint(1, max(1, r.nwrite)), e, 1))
            elif k == 'wshort': f.append(('wshort', rng.randint(1, max(1, r.nwrite)), rng.choice([1, 300, 500, 999])))
            elif k == 'weintr': f.append(('weintr', rng.randint(1, max(1, r.nwrite))))
            elif k == 'space': f.append(('space', rng.choice([0, rng.randint(0, r.bytesw), max(0, r.bytesw-1), r.bytesw])))
            elif k == 'openerr': f.append(('openerr', rng.randint(1, max(1, r.nopen)), rng.choice([13, 2, 24, 30])))
            elif k == 'closeerr': f.append(('closeerr', rng.randint(1, max(1, r.nopen)), rng.choice([5, 28, 122])))
            elif k == 'crash': f.append(('crash', rng.randint(1, max(1, r.ioops)), rng.choice([0, 1, 250, 500, 777, 999, 1000])))
        return dict(seed=rng.getrandbits(40), faults=f), dict()
    HARMLESS = ('wshort', 'weintr', 'crash')
    def judge(self, p, ref, out, cfg, x):
        v = []; ops = p['ops']
        want = [ref['op%d' % i].obs['files'][o['file']] for i, o in enumerate(ops)]
        if out.exc is not None: return [(self.name+':harness', str(out.exc[:2]))]
        files = self.files() if out.status == 'KILLED' else out.obs['files']
        cur = int(files.pop('progress'))
        killed = out.status == 'KILLED'
        res = [None]*cur if killed else out.obs['res']
        state = dict(o_0=self.old(p), o_1=self.old(p)) if p['old'] else {}            # file -> set of possible contents; None: unknown (a failed write)
        harmful = [k for k in out.fired if k not in self.HARMLESS]
        prefix = {}
        for i, o in enumerate(ops[:cur]):
            prev = state.get(o['file'])
            if res[i] is not None:
                if not harmful: v.append(('%s:%s:spurious' % (self.name, o['kind']), 'the write failed without a reason (only short or interrupted writes occurred): %s' % (res[i],)))
                elif res[i][0] not in ('RuntimeError',): v.append(('%s:%s:type' % (self.name, o['kind']), 'a write error is reported as %s' % (res[i],)))
                state[o['file']] = None
                if 'openerr' in out.fired and len(harmful) == 1 and sum(bool(q) for q in res) == 1 and not killed: state[o['file']] = prev      # it was not even opened
            elif killed and harmful: state[o['file']] = None       # it is not known whether the call reported the error before the process was killed
            else: state[o['file']] = want[i]
        for f in state:
            if state[f] is not None and not (killed and cur < len(ops) and ops[cur]['file'] == f) and files.get(f) != state[f]:
                b = files.get(f); kind = ([o['kind'] for o in ops[:cur] if o['file'] == f] or ['none'])[-1]
                v.append(('%s:%s:lost' % (self.name, kind), 'the write was reported as successful, but the file is incomplete: %s of %d bytes%s; faults: %s' % (
                    'nothing' if b is None else len(b), len(state[f]), '' if b is None or len(b) != len(state[f]) else ', different content', out.fired)))
        if killed and cur < len(ops):
            o = ops[cur]; b = files.get(o['file'])
            ok = harmful or b is None and o['file'] not in state or b is not None and (want[cur].startswith(b) or b == state.get(o['file']))
            if not ok: v.append(('%s:%s:crash' % (self.name, o['kind']), 'killed while writing: the file (%s bytes) is not a beginning of the intended content (%d bytes)' % (None if b is None else len(b), len(want[cur]))))
        extra = set(files) - {'o_0', 'o_1'} - set(self.extrafiles(p))
        if extra: v.append((self.name+':stray', 'unexpected files %s' % sorted(extra)))
        if not killed and out.obs['fds']: v.append((self.name+':fd', '%d file descriptors leaked' % out.obs['fds']))
        return v
    def extrafiles(self, p): return ()
    def stats(self, p, out, x): return dict(killed=int(out.status == 'KILLED'), reported=sum(bool(r) for r in out.obs['res']) if out.obs else 0)

class WSnap(History):
    name = 'write-snapshots'; weight = 1.5
    KINDS = ('text6', 'text3', 'nemo6', 'nemo3', 'Nemo6', 'none6')
    def run(self, p, ctx, x):
        return History.run(self, dict(p, ops=self.execops(p, x)), dict(obj=ctx['obj'] if 'only' not in x else [ctx['obj'][x['only']]]), x)
    def build(self, o):
        X = points(o['seed'], o['n'], 6, 10**((o['seed'] % 7)-3)); m = np.random.default_rng(o['seed']).uniform(0.1, 2, o['n'])
        return (X if o['kind'][-1] == '6' else X[:, :3].copy(), m)
    def write(self, o, obj):
        f = o['kind'][:-1]
        agama.writeSnapshot(o['file'], obj, **({} if f == 'none' else dict(format=f)))
    def content(self, p, o, b):
        X, m = self.build(o); d = X.shape[1]
        try:
            if o['kind'][0] in 'nN' and o['kind'] != 'none6':
                t = dict(nemo_parse(b)); s = dict(t['SnapShot']); par = dict(s['Parameters']); q = dict(s['Particles'])
                if par['Nobj'] != o['n'] or q['CoordSystem'] != 66306: return 'wrong number of bodies %r' % par
                got = np.column_stack((q['Position'], q['Velocity'], q['Mass']) if d == 6 else (q['Position'], q['Mass'])); tol = 1e-6
            else: got = np.array(text_parse(b)); tol = 1e-7
        except Exception as e: return 'malformed file: %s: %s' % (type(e).__name__, e)
        w = np.column_stack((X, m))
        if got.shape != w.shape or not np.all(np.abs(got-w) <= tol*np.abs(w)): return 'the file does not contain the particles that were passed (shape %s)' % (got.shape,)
        return ''

def models(rng=None):
    return ('Multipole', 'BasisSet', 'CylSpline', 'DensitySphericalHarmonic', 'DensityAzimuthalHarmonic', 'Composite', 'Plummer')

def build_model(kind, seed, cached={}):
    r = random.Random(seed)
    d = dens(r.choice(['plummer', 'dehnen_ax', 'dehnen_tri', 'spheroid']))
    src = agama.Density(**d)
    if kind == 'Multipole': return agama.Potential(type='Multipole', density=src, lmax=r.choice([0, 2, 4]), gridSizeR=r.choice([6, 12, 20]), rmin=0.05, rmax=50.)
    if kind == 'BasisSet': return agama.Potential(type='BasisSet', density=src, lmax=r.choice([0, 2, 4]), nmax=r.choice([2, 6]))
    if kind == 'DensitySphericalHarmonic': return agama.Density(type=kind, density=src, lmax=r.choice([0, 2, 4]), gridSizeR=r.choice([6, 12, 20]), rmin=0.05, rmax=50.)
    ax = 0 if d['type'] == 'Plummer' or 'axisRatioY' not in d else 2
    if kind == 'DensityAzimuthalHarmonic': return agama.Density(type=kind, density=src, mmax=ax, gridSizeR=r.choice([6, 10]), gridSizeZ=r.choice([6, 9]), rmin=0.1, rmax=20., zmin=0.1, zmax=20.)
    if kind == 'CylSpline': return agama.Potential(type=kind, potential=agama.Potential(**dens(r.choice(['mn', 'plummer']))), mmax=0, gridSizeR=r.choice([6, 10]), gridSizeZ=r.choice([6, 9]), rmin=0.1, rmax=20., zmin=0.1, zmax=20.)
    if kind == 'Composite': return agama.Potential(build_model('Multipole', seed+1), build_model('BasisSet', seed+2))
    return agama.Potential(**dens('plummer'))

class WModel(History):
    name = 'write-models'; weight = 1.2
    KINDS = models()
    def run(self, p, ctx, x):
        return History.run(self, dict(p, ops=self.execops(p, x)), dict(obj=ctx['obj'] if 'only' not in x else [ctx['obj'][x['only']]]), x)
    def build(self, o): return build_model(o['kind'], o['seed'])
    def write(self, o, obj): obj.export(o['file'])
    def content(self, p, o, b):
        t = b.decode()
        if not t.startswith('[Density' if o['kind'][0] == 'D' else '[Potential'): return 'the exported file does not start with a section header'
        if o['kind'] != 'Plummer' and 'Coefficients' not in t: return 'no coefficients in the exported file'
        return ''

class WCache(Disk):
    """potential expansion built from a snapshot file writes its coefficients next to it: failures there must not spoil the potential"""
    name = 'write-coefficient-file'; weight = 0.5
    def params(self, rng): return dict(seed=rng.getrandbits(20), n=rng.choice([200, 500]), type=rng.choice(['Multipole', 'BasisSet']), units=rng.random() < 0.3)
    def make(self, p):
        xyz, m = cloud(p['seed'], p['n'])
        return dict(snap=''.join(' '.join('%.8g' % v for v in list(xyz[i])+[m[i]])+'\n' for i in range(p['n'])))
    def populate(self, p, ctx):
        with open('snap', 'w') as f: f.write(ctx['snap'])
    def run(self, p, ctx, x):
        fd0 = self.nfd()
        self.armio(1, b'snap.ini')
        pot = agama.Potential(type=p['type'], file='snap', lmax=2, symmetry='t', **(dict(gridSizeR=8, rmin=0.5, rmax=10) if p['type'] == 'Multipole' else dict(nmax=4)))
        self.armio(0)
        return dict(v=pot.potential(points(1, 4, 3)), files=self.files(), fds=self.nfd()-fd0)
    def refcheck(self, p, ref):
        r = ref['ref']
        if r.exc is not None: return [(self.name+':ref-exception', str(r.exc))]
        return [] if r.obs['files'].get('snap.ini', b'').startswith(b'[Potential]') else [(self.name+':content', 'no coefficient file written')]
    plan = History.plan
    def judge(self, p, ref, out, cfg, x):
        w = ref['ref'].obs; v = []
        if out.status == 'KILLED':
            f = self.files()
            if f.get('snap') != w['files']['snap']: v.append((self.name+':input', 'the input file was modified'))
            return v
        if out.exc is not None: return [(self.name+':exception', 'a failure to store the coefficients is not critical, but construction failed: %s' % (out.exc[:2],))]
        d = same(w['v'], out.obs['v'])
        if d: v.append((self.name+':result', 'the potential is different when its coefficients cannot be stored: '+d))
        if not [k for k in out.fired if k not in History.HARMLESS] and out.obs['files'] != w['files']: v.append((self.name+':lost', 'the stored file is incomplete'))
        if out.obs['fds']: v.append((self.name+':fd', 'file descriptors leaked'))
        return v

WORKLOADS = [c() for c in (WSnap, WModel, WCache)]
