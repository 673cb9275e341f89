#!/usr/bin/env python3
"""Builds the simulated version of the library from the current working tree of /repo.

Every source file of the library is compiled with the compiler's thread-sanitizer instrumentation
(calls at each memory access, function entry and atomic operation), then linked - instead of
libtsan/libgomp - against the deterministic simulation runtime (agsim.cpp).
Objects are cached in /verif/build by content (of the preprocessed text), so that nothing stale
can be picked up and an unchanged file is not recompiled.
"""
import sys, os, re, hashlib, subprocess, glob, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('AGSIM_REPO', '/repo')
BUILD = os.environ.get('AGSIM_BUILD', os.path.join(VERIF, 'build'))
VERSION = '8m'

import sysconfig
PYINC = sysconfig.get_paths()['include']
def numpy_inc():
    for p in ('/usr/lib/python3/dist-packages/numpy/core/include',):
        if os.path.isdir(p): return p
    import numpy
    return numpy.get_include()

BASE = ['-fPIC', '-fopenmp', '-std=c++11', '-w', '-DHAVE_PYTHON', '-I'+HERE+'/inc', '-I'+PYINC, '-I'+numpy_inc(),
        '-DHAVE_EIGEN', '-I/usr/include/eigen3', '-DHAVE_GLPK', '-I'+REPO+'/src']
SIM  = ['-O1', '-g1', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=1', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
        '-ffile-prefix-map='+REPO+'=/repo']
REDEF = ['memcpy', 'memmove', 'memset', 'memcmp', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_once',
         'PyGILState_Ensure', 'PyGILState_Release', 'PyEval_SaveThread', 'PyEval_RestoreThread']

def pyfuncs(obj):
    """functions of the Python C API used by an object file, which must be called with the GIL held"""
    r = run(['nm', '-u', obj]).stdout.decode().split()
    return [n for n in r if re.match('_?Py[A-Z]|_Py_', n) and not re.match('PyExc_|.*_Type$|.*Struct$', n)
        and n not in ('PyGILState_Ensure', 'PyGILState_Release', 'PyEval_SaveThread', 'PyEval_RestoreThread', 'PyErr_SetInterrupt', 'PyGILState_Check')]

def trampolines(names):
    """assembly: check that the GIL is held, then continue in the real function with unchanged arguments"""
    o = ['.text']
    for n in names:
        regs = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9', 'rax']
        o += ['.globl agsim_t_%s' % n, '.hidden agsim_t_%s' % n, '.type agsim_t_%s,@function' % n, 'agsim_t_%s:' % n] + ['push %%%s' % x for x in regs] + ['sub $128, %rsp']
        o += ['movups %%xmm%d, %d(%%rsp)' % (i, 16*i) for i in range(8)]
        o += ['lea .Ln_%s(%%rip), %%rdi' % n, 'call agsim_gil_check@PLT'] + ['movups %d(%%rsp), %%xmm%d' % (16*i, i) for i in range(8)] + ['add $128, %rsp']
        o += ['pop %%%s' % x for x in reversed(regs)] + ['jmp *%s@GOTPCREL(%%rip)' % n, '.Ln_%s: .asciz "%s"' % (n, n), '.balign 16']
    return '\n'.join(o + ['.section .note.GNU-stack,"",@progbits', ''])

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:32]

def sources():
    """list of sources, taken from the Makefile's own list when possible"""
    srcs = []
    try:
        cur = None
        for line in open(REPO+'/Makefile.list'):
            l = line.split('#')[0].rstrip()
            if cur is None and '=' in l:
                name, l = [x.strip() for x in l.split('=', 1)]
                cur = {'SOURCES': 'src', 'TORUSSRC': 'src/torus'}.get(name)
                cont = True
            elif cur is None: continue
            if cur:
                for w in l.replace('\\', ' ').split():
                    f = os.path.join(REPO, cur, w)
                    if os.path.isfile(f): srcs.append(f)
            if not line.rstrip().endswith('\\'): cur = None
    except OSError: pass
    have = set(srcs)
    if len(srcs) < 40:
        srcs = sorted(glob.glob(REPO+'/src/*.cpp')) + sorted(glob.glob(REPO+'/src/torus/*.cc'))
    return srcs

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def build_one(args):
    src, flags, hdrhash, redef = args
    objdir = BUILD+'/obj'
    text = open(src, 'rb').read()
    key1 = sha(VERSION, ' '.join(flags), src, text, hdrhash)
    link = objdir+'/'+key1+'.key'
    try:
        obj = objdir+'/'+open(link).read().strip()+'.o'
        if os.path.isfile(obj): return obj, 0
    except OSError: pass
    pp = run(['g++', '-E', '-P'] + flags + [src])
    if pp.returncode: raise RuntimeError('cannot preprocess %s\n%s' % (src, pp.stderr.decode()[-3000:]))
    key2 = sha(VERSION, ' '.join(flags), os.path.basename(src), pp.stdout)
    obj = objdir+'/'+key2+'.o'
    n = 0
    if not os.path.isfile(obj):
        tmp = obj+'.%d.tmp.o' % os.getpid()
        r = run(['g++', '-c'] + flags + [src, '-o', tmp])
        if r.returncode: raise RuntimeError('cannot compile %s\n%s' % (src, r.stderr.decode()[-3000:]))
        if redef:
            ren = []
            for s in REDEF: ren += ['--redefine-sym', s+'=agsim_'+s]
            if os.path.basename(src) == 'cubature.cpp': ren += sum((['--redefine-sym', s+'=agsim_'+s] for s in ('malloc', 'calloc', 'realloc', 'free')), [])     # C code with its own working memory
            if os.path.basename(src) == 'interface_python.cpp':
                for s in pyfuncs(tmp): ren += ['--redefine-sym', s+'=agsim_t_'+s]
            r = run(['objcopy'] + ren + [tmp])
            if r.returncode: raise RuntimeError('objcopy: '+r.stderr.decode())
        os.replace(tmp, obj)
        n = 1
    with open(link+'.%d' % os.getpid(), 'w') as f: f.write(key2)
    os.replace(link+'.%d' % os.getpid(), link)
    return obj, n

def build(verbose=False):
    t0 = time.time()
    os.makedirs(BUILD+'/obj', exist_ok=True); os.makedirs(BUILD+'/lib', exist_ok=True)
    with open(BUILD+'/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hdr = hashlib.sha256()
        for f in sorted(glob.glob(REPO+'/src/**/*.h', recursive=True)):
            hdr.update(f.encode()); hdr.update(open(f, 'rb').read())
        for f in (HERE+'/inc/Python.h', HERE+'/inc/numpy/arrayobject.h'): hdr.update(open(f, 'rb').read())
        hdrhash = hdr.hexdigest()
        jobs = [(s, BASE+SIM, hdrhash, True) for s in sources()]
        shim = HERE+'/shim.cpp'
        if os.path.isfile(shim): jobs.append((shim, BASE+SIM+['-I'+HERE], hdrhash+sha(open(HERE+'/agsim.h','rb').read()), True))
        rt = HERE+'/agsim.cpp'
        rtflags = ['-O2', '-g1', '-std=c++17', '-fPIC', '-w', '-ftls-model=initial-exec']
        jobs.append((rt, rtflags, hashlib.sha256(open(HERE+'/agsim.h','rb').read()).hexdigest(), False))
        # the most expensive files first
        prio = {'math_linalg.cpp': 0, 'math_fit.cpp': 1, 'interface_python.cpp': 2, 'math_spline.cpp': 3}
        jobs.sort(key=lambda j: prio.get(os.path.basename(j[0]), 9))
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = list(ex.map(build_one, jobs))
        ncomp = sum(r[1] for r in res)
        objs = {os.path.basename(j[0]): r[0] for j, r in zip(jobs, res)}
        rtobj = objs['agsim.cpp']
        order = [r[0] for j, r in zip(jobs, res) if os.path.basename(j[0]) != 'agsim.cpp']
        # keep a stable link order
        order = [o for _, o in sorted(zip([os.path.basename(j[0]) for j in jobs if os.path.basename(j[0]) != 'agsim.cpp'], order))]
        pyfiles = [REPO+'/__init__.py'] + sorted(glob.glob(REPO+'/py/*.py'))
        key = sha(VERSION, rtobj, *order, *[sha(open(f,'rb').read()) for f in pyfiles])
        out = BUILD+'/lib/'+key
        if not os.path.isfile(out+'/ok'):
            tmp = out+'.%d.tmp' % os.getpid()
            os.makedirs(tmp+'/agama/py', exist_ok=True)
            r = run(['g++', '-shared', '-o', tmp+'/libagsim.so', rtobj, '-ldl', '-lpthread', '-Wl,-z,now'])
            if r.returncode: raise RuntimeError('link: '+r.stderr.decode())
            names = sorted({n[8:] for n in run(['nm', '-u', objs['interface_python.cpp']]).stdout.decode().split() if n.startswith('agsim_t_')})
            with open(tmp+'/tramp.s', 'w') as f: f.write(trampolines(names))
            r = run(['g++', '-shared', '-o', tmp+'/agama/agama.so', tmp+'/tramp.s'] + order +
                ['-L'+tmp, '-lagsim', '-lgsl', '-lgslcblas', '-lglpk', '-Wl,-rpath,$ORIGIN/..', '-Wl,-z,now', '-Wl,--allow-shlib-undefined'])
            if r.returncode: raise RuntimeError('link: '+r.stderr.decode()[-3000:])
            shutil.copy(REPO+'/__init__.py', tmp+'/agama/__init__.py')
            for f in pyfiles[1:]: shutil.copy(f, tmp+'/agama/py/')
            open(tmp+'/ok', 'w').close()
            if os.path.isdir(out): shutil.rmtree(out)
            os.rename(tmp, out)
        # limit the size of the cache
        libs = sorted((os.path.getmtime(d), d) for d in glob.glob(BUILD+'/lib/*') if os.path.isdir(d))
        for _, d in libs[:-6]:
            if d != out: shutil.rmtree(d, ignore_errors=True)
        os.utime(out)
    if verbose: print('build: %d of %d files compiled, %.1f s -> %s' % (ncomp, len(jobs), time.time()-t0, out), file=sys.stderr)
    return out, ncomp, time.time()-t0

if __name__ == '__main__':
    print(build(True)[0])
