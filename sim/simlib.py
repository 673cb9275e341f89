"""Python side of the simulator: runs one workload in a forked child under a given simulation configuration."""
import ctypes, os, sys, mmap, pickle, time, signal, select, struct, gc, traceback
signal.signal(signal.SIGINT, signal.default_int_handler); signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGINT])     # a background job inherits SIGINT as ignored

ST = {0:'NONE',1:'OK',2:'DEADLOCK',3:'HANG',4:'CRASH',5:'TERMINATE',6:'HEAP',7:'KILLED',8:'FAIL',9:'INTERNAL'}
POL = dict(seq=0, random=1, pct=2, starve=3, burst=4, reverse=5, rr=6, replay=7)
FK = dict(none=0, alloc=1, signal=2, werr=3, wshort=4, weintr=5, space=6, openerr=7, closeerr=8, rerr=9, rshort=10, reintr=11,
          crash=12, clockjump=13, seekerr=14)
FKN = {v: k for k, v in FK.items()}
MAXDEC, MAXFAULT, MAXRACE, MAXMSG, MAXBRK, NK = 1<<16, 64, 256, 8192, 128, 15

class Fault(ctypes.Structure):
    _fields_ = [('kind', ctypes.c_int32), ('arg', ctypes.c_int32), ('at', ctypes.c_int64), ('arg2', ctypes.c_int32), ('fired', ctypes.c_int32)]
class Dec(ctypes.Structure):
    _fields_ = [('step', ctypes.c_uint64), ('task', ctypes.c_int16), ('next', ctypes.c_int16), ('kind', ctypes.c_int16), ('pad', ctypes.c_int16)]
class Race(ctypes.Structure):
    _fields_ = [('pc1', ctypes.c_uint64), ('pc2', ctypes.c_uint64), ('addr', ctypes.c_uint64)] + \
        [(n, ctypes.c_int32) for n in ('w1', 'w2', 't1', 't2', 'size', 'count')] + [('cs1', ctypes.c_uint64*6)]
class Cfg(ctypes.Structure):
    _fields_ = [('seed', ctypes.c_uint64)] + [(n, ctypes.c_int32) for n in ('policy', 'nthreads', 'nested', 'q', 'psync', 'd')] + \
        [('horizon', ctypes.c_int64), ('victim', ctypes.c_int32), ('racedetect', ctypes.c_int32), ('dynteam', ctypes.c_int32),
         ('maxsteps', ctypes.c_int64), ('nsperstep', ctypes.c_int64),
         ('nfaults', ctypes.c_int32), ('faults', Fault*MAXFAULT), ('ndec', ctypes.c_int32), ('dec', ctypes.POINTER(Dec)),
         ('nbrk', ctypes.c_int32), ('brk', ctypes.c_uint64*MAXBRK), ('pbrk', ctypes.c_int32)]
class Res(ctypes.Structure):
    _fields_ = [('status', ctypes.c_int32), ('sig', ctypes.c_int32)] + \
        [(n, ctypes.c_uint64) for n in ('steps', 'switches', 'preempts', 'parallels', 'maxteam', 'teams_shrunk', 'syncops', 'hash', 'statehash',
         'allocs', 'allocfail', 'live0', 'live1', 'ioops')] + [('iofired', ctypes.c_uint64*NK)] + \
        [(n, ctypes.c_uint64) for n in ('nwrite', 'nread', 'nopen', 'nclose', 'bytesw', 'bytesr', 'sigdelivered', 'sigstep', 'sigafter', 'vclock_ns', 'parsteps')] + \
        [(n, ctypes.c_int32) for n in ('nraces', 'ndec', 'decoverflow', 'npad')] + \
        [('races', Race*MAXRACE), ('dec', Dec*MAXDEC), ('msg', ctypes.c_char*MAXMSG)]

LIB = os.environ['AGSIM_LIB']
rt = ctypes.PyDLL(LIB + '/libagsim.so')     # PyDLL: calls keep the GIL
rt.agsim_held.restype = ctypes.c_uint64
rt.agsim_live.restype = ctypes.c_uint64
rt.agsim_steps.restype = ctypes.c_uint64
_map = mmap.mmap(-1, ctypes.sizeof(Res))
res = Res.from_buffer(_map)
HDR = Res.races.offset

class Out:
    """result of one simulated execution"""
    __slots__ = ('status', 'msg', 'obs', 'exc', 'steps', 'switches', 'preempts', 'parallels', 'maxteam', 'shrunk', 'syncops', 'hash', 'allocs',
        'live', 'fired', 'ioops', 'nwrite', 'nread', 'nopen', 'nreads', 'bytesw', 'races', 'dec', 'vclock_ns', 'sigdelivered', 'exitsig', 'wall', 'decoverflow', 'parsteps')
    def ok(self): return self.status == 'OK'

def default_cfg(**kw):
    c = dict(seed=1, policy='seq', nthreads=1, nested=1, q=200, psync=100, d=3, horizon=100000, victim=1, racedetect=0, dynteam=0,
             maxsteps=400000000, nsperstep=20, faults=[], dec=None, brk=[], pbrk=300)
    c.update(kw)
    return c

def make_cfg(c):
    k = Cfg()
    for n in ('seed', 'nthreads', 'nested', 'q', 'psync', 'd', 'horizon', 'victim', 'racedetect', 'dynteam', 'maxsteps', 'nsperstep', 'pbrk'):
        setattr(k, n, int(c[n]))
    k.policy = POL[c['policy']] if c['dec'] is None else POL['replay']
    k.nfaults = len(c['faults'])
    for i, f in enumerate(c['faults']):
        k.faults[i] = Fault(FK[f[0]], f[2] if len(f) > 2 else 0, f[1], f[3] if len(f) > 3 else 0, 0)
    keep = None
    if c['dec'] is not None:
        keep = (Dec*max(1, len(c['dec'])))()
        for i, d in enumerate(c['dec']): keep[i] = Dec(d[0], d[1], d[2], d[3], 0)
        k.dec = keep; k.ndec = len(c['dec'])
    b = c['brk'][:MAXBRK]; k.nbrk = len(b)
    for i, x in enumerate(b): k.brk[i] = x
    return k, keep

class Escape(Exception): pass

def execute(fn, cfg, wall=100.0, want_dec=False, prepare=None):
    """run fn() in a forked child under the simulation; fn returns a picklable observation"""
    ctypes.memset(ctypes.addressof(res), 0, HDR)
    res.msg = b''
    rfd, wfd = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            gc.disable()
            os.close(rfd)
            if prepare is not None: prepare()
            k, keep = make_cfg(cfg)
            rt.agsim_install_crash_handlers(ctypes.byref(res))
            rt.agsim_begin(ctypes.byref(k), ctypes.byref(res))
            rt.agsim_gil_lock()
            exc = None; obs = None
            try:
                obs = fn()
            except BaseException as e:
                exc = (type(e).__name__, str(e)[:500], traceback.format_exc()[-1500:])
            rt.agsim_gil_unlock()
            rt.agsim_end()
            data = pickle.dumps((obs, exc), protocol=4)
            off = 0
            while off < len(data): off += os.write(wfd, data[off:off+65536])
        except BaseException as e:
            code = 99
            try: os.write(2, ('simlib child: %r\n%s' % (e, traceback.format_exc())).encode())
            except BaseException: pass
        os._exit(code)
    os.close(wfd)
    buf = []; timeout = False
    while True:
        r, _, _ = select.select([rfd], [], [], max(0.0, t0 + wall - time.time()))
        if not r: timeout = True; break
        b = os.read(rfd, 1 << 20)
        if not b: break
        buf.append(b)
    os.close(rfd)
    if timeout: os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    o = Out()
    o.wall = time.time() - t0
    o.status = ST[res.status]; o.msg = res.msg.decode('latin1'); o.exitsig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
    o.obs = o.exc = None
    if timeout:
        o.status = 'TIMEOUT'; o.msg += 'wall-clock limit of the harness'
    elif o.exitsig and o.status in ('NONE', 'OK', 'FAIL'):
        o.status = 'CRASH'; o.msg += 'process killed by signal %d' % o.exitsig
    elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99:
        o.status = 'INTERNAL'
    elif o.status in ('OK', 'FAIL'):
        try: o.obs, o.exc = pickle.loads(b''.join(buf))
        except Exception as e: o.status = 'INTERNAL'; o.msg += 'no observation: %r exit status %d' % (e, st)
    elif o.status == 'NONE':
        o.status = 'CRASH'; o.msg += 'process ended prematurely, wait status %d' % st
    for n in ('steps', 'switches', 'preempts', 'parallels', 'maxteam', 'syncops', 'allocs', 'ioops', 'nwrite', 'nread', 'nopen', 'bytesw',
              'vclock_ns', 'parsteps', 'sigdelivered', 'decoverflow'):
        setattr(o, n, getattr(res, n))
    o.nreads = o.nread
    o.hash = '%016x' % res.hash; o.shrunk = res.teams_shrunk
    o.live = (res.live0, res.live1)
    o.fired = {FKN[i]: res.iofired[i] for i in range(NK) if res.iofired[i]}
    o.races = []
    for i in range(res.nraces):
        r = res.races[i]
        o.races.append((r.pc1, r.pc2, r.w1, r.w2, r.size, r.count, r.t1, r.t2, [x for x in r.cs1 if x]))
    o.dec = [(d.step, d.task, d.next, d.kind) for d in res.dec[:res.ndec]] if want_dec else None
    return o

def run_threads(fns):
    """run Python callables as concurrent simulated host threads; returns list of (value, exception)"""
    lib = ctypes.PyDLL(LIB + '/agama/agama.so')
    out = [None]*len(fns)
    def wrap(i):
        def f():
            try: out[i] = (fns[i](), None)
            except BaseException as e: out[i] = (None, e)
        return f
    lst = [wrap(i) for i in range(len(fns))]
    lib.shim_run_pythreads.argtypes = [ctypes.py_object]
    lib.shim_run_pythreads(lst)
    return out

def yield_gil():
    """preemption point inside Python code: other simulated threads may run Python code here"""
    global _yield
    if _yield is None: _yield = ctypes.PyDLL(LIB + '/agama/agama.so').shim_yield_gil
    _yield()
_yield = None

_maps = None
def symbolize(pcs):
    """map instruction addresses to file:line"""
    import subprocess
    base = None
    for l in open('/proc/self/maps'):
        if l.rstrip().endswith('/agama/agama.so'):
            base = int(l.split('-')[0], 16); break
    out = {}
    if base is None: return {p: hex(p) for p in pcs}
    pcs = [p for p in pcs if base <= p < base + (1 << 28)]
    try:
        r = subprocess.run(['addr2line', '-f', '-C', '-s', '-e', LIB+'/agama/agama.so'] + [hex(p-base-1) for p in pcs],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={'PATH': os.environ.get('PATH', '')}).stdout.decode().split('\n')
        for i, p in enumerate(pcs):
            out[p] = r[2*i+1] + ' ' + r[2*i][:60]
    except Exception:
        pass
    return out
