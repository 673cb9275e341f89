"""Shared pieces of the workloads."""
import os, random, numpy as np, agama, simlib, core
from core import Workload, same, swarm, seed_of

NPRNG = lambda seed: np.random.default_rng(seed)
SCRATCH = os.environ.get('AGSIM_SCRATCH', '/tmp')

def points(seed, n, dim, scale=1.0):
    r = NPRNG(seed)
    x = r.normal(size=(n, dim))*scale
    if dim == 6: x[:, 3:] *= 0.5/scale if scale else 1
    return x

def dens(name):
    """assorted analytic density/potential parameter sets"""
    return {
        'plummer': dict(type='Plummer', mass=1., scaleRadius=1.),
        'nfw': dict(type='NFW', mass=1., scaleRadius=2.),
        'dehnen_sph': dict(type='Dehnen', gamma=1., mass=1., scaleRadius=1.),
        'dehnen_ax': dict(type='Dehnen', gamma=1., mass=1., scaleRadius=1., axisRatioZ=0.7),
        'dehnen_tri': dict(type='Dehnen', gamma=0.5, mass=1., scaleRadius=1., axisRatioY=0.8, axisRatioZ=0.6),
        'mn': dict(type='MiyamotoNagai', mass=1., scaleRadius=1., scaleHeight=0.2),
        'disk': dict(type='Disk', surfaceDensity=1., scaleRadius=1., scaleHeight=0.1),
        'spheroid': dict(type='Spheroid', mass=1., scaleRadius=1., gamma=1, beta=4, alpha=1, axisRatioZ=0.6),
        'perfect': dict(type='PerfectEllipsoid', mass=1., scaleRadius=1., axisRatioZ=0.7),
        'ferrers': dict(type='Ferrers', mass=1., scaleRadius=1.2, axisRatioY=0.8, axisRatioZ=0.5),
        'log': dict(type='Logarithmic', v0=1., scaleRadius=0.3, axisRatioZ=0.8),
    }[name]

def msg1(s):
    """error message without the stack trace that the library may append"""
    return s.split('\nStack trace')[0]

class Fn(Workload):
    """workload made of a function run(p, ctx): result must not depend on the schedule nor on the number of threads"""
    tol = 0.0; atol = 0.0
    tolpaths = {}          # path prefix -> (tol, atol)
    def judge(self, p, ref, out, cfg, x):
        r = ref['ref']
        d = self.compare(r, out)
        return [('%s:result' % self.name, 'team of %d, policy %s: %s' % (cfg['nthreads'], cfg['policy'], d))] if d else []
    def compare(self, r, out):
        if (r.exc is None) != (out.exc is None): return 'exception %s vs %s' % (r.exc and r.exc[:2], out.exc and out.exc[:2])
        if r.exc is not None:
            return '' if r.exc[0] == out.exc[0] and msg1(r.exc[1]) == msg1(out.exc[1]) else 'exception %s vs %s' % (r.exc[:2], out.exc[:2])
        if not self.tolpaths: return same(r.obs, out.obs, self.tol, self.atol)
        for k in r.obs:
            t = self.tolpaths.get(k, (self.tol, self.atol))
            if k not in out.obs: return k+' missing'
            d = same(r.obs[k], out.obs[k], *t)
            if d: return k+d
        return ''
    def refcheck(self, p, ref):
        r = ref['ref']
        # an unexpected exception in the one-thread run means that the workload itself does not work
        if r.exc is not None and not self.mayfail(p): return [('%s:ref-exception' % self.name, 'one-thread run failed: %s' % (r.exc,))]
        return []
    def mayfail(self, p): return False

import ctypes
_lib = ctypes.PyDLL(simlib.LIB + '/agama/agama.so')
_lib.shim_sigint_handler.restype = ctypes.c_void_p
def sigint_handler(): return _lib.shim_sigint_handler()
def live(): return int(simlib.rt.agsim_live())

class _MI(ctypes.Structure): _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]
_libc = ctypes.PyDLL(None)
_libc.mallinfo2.restype = _MI
def heap():
    """bytes allocated with malloc, without the freed blocks which the simulator keeps for a while"""
    return int(_libc.mallinfo2().uordblks)-int(simlib.rt.agsim_held())

class Bomb(Exception): pass

class Callback:
    """user function with a fault: mode
       'raise'  raises an exception, 'type' returns something unusable, 'shape' returns an array of a wrong length,
       'nan' returns NaNs; the fault occurs on every call from number <at> on (last=None), or only on <at>..<at>+last-1"""
    def __init__(self, fn, mode=None, at=0, last=None, yields=False):
        self.fn = fn; self.mode = mode; self.at = at; self.last = last; self.yields = yields
        self.calls = 0; self.fired = 0; self.inside = 0; self.armed = True
    def __call__(self, x, **kw):
        if self.yields: simlib.yield_gil()
        if not self.armed or (len(x) == 2 and not np.any(x)): return self.fn(x, **kw)     # second case: the library probes the function before accepting it
        k = self.calls; self.calls += 1
        if self.mode is not None and k >= self.at and (self.last is None or k < self.at+self.last):
            self.fired += 1
            if self.mode == 'raise': raise Bomb('bomb at call')
            if self.mode == 'type': return 'not a number'
            if self.mode == 'shape': return np.zeros(len(x)+3)
            if self.mode == 'nan': return np.zeros(len(x))*np.nan
        return self.fn(x, **kw)
