#!/usr/bin/env python3
"""plant.py ID            - validate a planted change in a scratch copy mounted over /repo: builds, passes the stable tests, demo fails with it and passes without
   plant.py --try ID [s]  - run the quick check of its property against the scratch copy (AGSIM_REPO) for s seconds"""
import sys, os, subprocess, json, shutil, fcntl
V = '/verif'; S = os.environ.get('PLANT_DIR', '/tmp/pl'); R = S+'/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def ns(c, **k):
    p = subprocess.Popen(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (R, c)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o, _ = p.communicate(**k); return p.returncode, o
def fresh():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(R): sh('cp -a /repo %s/' % S)
    h = sh('git -C /repo rev-parse HEAD').stdout.strip()
    print(sh('cd %s && git fetch -q /repo && git reset -q --hard %s' % (R, h)).stdout, end='')
def main():
    if sys.argv[1] == '--try':
        i = sys.argv[2]; sec = sys.argv[3] if len(sys.argv) > 3 else '55'
        m = json.load(open(V+'/seeded/%s/meta.json' % i)); T = S+'/try'
        sh('rm -rf %s; git clone -q /repo %s' % (T, T))
        r = sh('git -C %s apply %s/seeded/%s/patch.diff' % (T, V, i))
        if r.returncode: print('PATCH FAILS', r.stdout); return 1
        props = sys.argv[4].split(',') if len(sys.argv) > 4 else [m['property']]
        for p in props:
            r = sh('cd %s && AGSIM_REPO=%s python3 check.py %s quick --seconds=%s' % (V, T, p, sec))
            print('\n'.join(l[:400] for l in r.stdout.splitlines()[-6:])); print('TRY %s %s rc=%d' % (i, p, r.returncode))
        sh('rm -rf %s' % T); return 0
    rc = 0
    for i in sys.argv[1:]:
        D = V+'/seeded/'+i; fresh(); stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        X = '/tmp/demo_%s' % i; sh('rm -rf %s; cp -a %s %s; rm -f %s/*.diff %s/meta.json' % (X, D, X, X, X))
        r, o = ns('bash /opt/vp/build.sh'); assert r == 0, o[-2000:]
        d0, o0 = ns('timeout 300 bash %s/demo.sh' % X)
        a = sh('git -C %s apply %s/patch.diff' % (R, D)); assert a.returncode == 0, a.stdout
        r, o = ns('bash /opt/vp/test.sh /repo/_test/o.json')
        res = json.load(open(R+'/_test/o.json')); bad = [t for t in stable if t not in res['passed']]
        d1, o1 = ns('timeout 300 bash %s/demo.sh' % X)
        sh('git -C %s checkout -q -- .; rm -rf %s' % (R, X))
        ok = d0 == 0 and d1 != 0 and not bad and r == 0
        print('%s %s: demo clean rc=%d, patched rc=%d, stable tests failing: %s\n  clean: %s\n  patched: %s' % ('VALID' if ok else 'INVALID', i, d0, d1, bad, o0[-300:], o1[-300:])); rc |= not ok
    return rc
sys.exit(main())
