#!/usr/bin/env python3
"""launch.py script args...: run a Python script inside the simulation environment (fixed address-space layout, preloaded runtime)"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ADDR_NO_RANDOMIZE = 0x0040000
def sim_env(lib, maxthreads=8):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'VERIF_SEED', 'VERIF_TIER', 'AGSIM_BUILD', 'AGSIM_REPO')}
    env.update(LD_PRELOAD=lib+'/libagsim.so', PYTHONPATH=lib+':'+HERE+':'+os.path.dirname(HERE)+'/checks', AGSIM_LIB=lib, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
        PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', AGSIM_MAXTHREADS=str(maxthreads), MALLOC_ARENA_MAX='1',
        MPLBACKEND='Agg', LC_ALL='C.UTF-8', GLIBC_TUNABLES='glibc.rtld.optional_static_tls=4096', MALLOC_MMAP_THRESHOLD_='1073741824',
        MALLOC_TRIM_THRESHOLD_='4294967296')
    return env
def sim_cmd(args): return ['setarch', '-R', sys.executable, '-s'] + list(args)
if __name__ == '__main__':
    import build
    lib = build.build(True)[0]
    os.execvpe('setarch', sim_cmd(sys.argv[1:]), sim_env(lib))
