#!/usr/bin/env python3
"""debug aid: evaluate a replay file with stderr visible"""
import sys, os
sys.path.insert(0, '/verif/sim')
import build as B, launch as L, subprocess, tempfile
lib = B.build()[0]; e = L.sim_env(lib); d = tempfile.mkdtemp(prefix='agsim', dir='/tmp'); e['AGSIM_SCRATCH'] = d
r = subprocess.run(L.sim_cmd(['/verif/checks/core.py', 'replay', os.path.abspath(sys.argv[1]), 'v']), env=e, cwd=d, stdout=subprocess.PIPE)
import shutil; shutil.rmtree(d)
import json
for l in r.stdout.decode().split('\n'):
    if l.startswith('RESULT'):
        o = json.loads(l[7:])
        for k in o: print(k, ':', str(o[k])[:3000])
    elif l: print(l[:500])
