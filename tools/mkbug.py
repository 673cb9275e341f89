"""mkbug.py FILE - FILE is Python source defining bugs: bug(id, prop, [(file, old, new[, nth])], demo files {name: text}, needs, breaks); writes /verif/seeded/<id>/"""
import sys, os, subprocess, json, shutil
H = '''cd "$(pwd)"; D="$(cd "$(dirname "$0")" && pwd)"; export PYTHONPATH="$(pwd)" PYTHONDONTWRITEBYTECODE=1; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
'''
def bug(id, prop, edits, demo, needs, breaks, env='OMP_NUM_THREADS=8', show=False):
    S = '/tmp/mkbug'; subprocess.run('rm -rf %s; git clone -q /repo %s' % (S, S), shell=True, check=True)
    for e in edits:
        f, old, new = e[:3]; p = S+'/'+f; s = open(p).read(); k = e[3] if len(e) > 3 else None
        n = s.count(old)
        assert n == 1 or (k is not None and n > k), '%s: %d occurrences of %r' % (id, n, old)
        if k is None: s = s.replace(old, new)
        else:
            a = s.split(old); s = old.join(a[:k+1]) + new + old.join(a[k+1:])
        open(p, 'w').write(s)
    D = '/verif/seeded/'+id; os.makedirs(D, exist_ok=True)
    d = subprocess.run(['git', '-C', S, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    assert d
    open(D+'/patch.diff', 'w').write(d)
    if 'demo.sh' not in demo: demo = dict(demo, **{'demo.sh': '#!/bin/bash\n'+H+env+' timeout 280 python3 "$D/demo.py" "$T"\n'})
    for n, t in demo.items(): open(D+'/'+n, 'w').write(t.lstrip('\n'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D+'/meta.json', 'w'), indent=1)
    subprocess.run('rm -rf '+S, shell=True)
    print('written', id)
if __name__ == '__main__': exec(open(sys.argv[1]).read())
