#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--seconds N] [--only workload,...]   search for violations of one property
   check.py --replay FILE                                                  repeat a recorded violation

Exit status: 0 the property held on everything explored, 1 a violation was found (and its replay file written).
"""
import sys, os, json, time, subprocess, threading, tempfile, shutil, hashlib, collections, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE+'/sim')
import build as B, launch as L

QUICK, THOROUGH = 55.0, 600.0
LEVEL = {}

class Sim:
    """starts simulation processes with a private scratch directory"""
    def __init__(self, lib):
        self.lib = lib
        self.scratch = tempfile.mkdtemp(prefix='agsim', dir='/tmp')
    def env(self):
        e = L.sim_env(self.lib); e['AGSIM_SCRATCH'] = self.scratch
        return e
    def cmd(self, *a): return L.sim_cmd([HERE+'/checks/core.py'] + [str(x) for x in a])
    def call(self, *a, timeout=300):
        try:
            r = subprocess.run(self.cmd(*a), env=self.env(), cwd=self.scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired: return None
        for l in r.stdout.decode('utf8', 'replace').split('\n'):
            if l.startswith('RESULT '): return json.loads(l[7:])
        sys.stderr.write(r.stderr.decode('utf8', 'replace')[-2000:])
        return None
    def close(self): shutil.rmtree(self.scratch, ignore_errors=True)

def confirm(sim, path, sig, times=2):
    """fresh-process replays: the same violation and the same execution hash every time"""
    rs = [sim.call('replay', path) for _ in range(times)]
    if any(r is None or not r.get('viol') for r in rs): return None
    if any(sig not in [v[0] for v in r['viol']] for r in rs): return None
    if len({r['hash'] for r in rs}) != 1: return None
    return rs[0]

def load_known(prop):
    try: d = json.load(open(HERE+'/known_findings.json'))
    except OSError: return []
    return [k for k in d.get('findings', []) if k['property'] == prop]

def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    opt = {x.split('=')[0]: x.split('=')[1] if '=' in x else '1' for x in sys.argv[1:] if x.startswith('--')}
    try: lib, ncomp, tbuild = B.build(True)
    except RuntimeError as e:
        print('ERROR: the simulated library could not be built\n%s' % e); sys.exit(2)
    sim = Sim(lib)
    try:
        if '--replay' in opt:
            path = opt['--replay'] if opt['--replay'] != '1' else a[0]
            d = json.load(open(path))
            r = sim.call('replay', os.path.abspath(path), 'v')
            print(json.dumps(r, indent=1))
            if r and r.get('viol') and d['sig'] in [v[0] for v in r['viol']]:
                print('VIOLATION property=%s replay=%s' % (d['spec']['prop'], path)); rc = 1
            else: print('the violation did not occur'); rc = 0
        else: rc = search(sim, a[0].upper(), a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'), opt, tbuild, ncomp)
    finally: sim.close()
    sys.exit(rc)

def search(sim, prop, tier, opt, tbuild, ncomp):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    seconds = float(opt.get('--seconds', QUICK if tier == 'quick' else THOROUGH))
    nwork = int(opt.get('--workers', 0)) or len(os.sched_getaffinity(0))
    known = load_known(prop)
    t0 = time.time()
    procs = []; lines = collections.deque(); done = threading.Semaphore(0)
    def reader(p):
        for l in p.stdout:
            lines.append(l); done.release()
        lines.append(None); done.release()
    errs = open(sim.scratch+'/stderr', 'wb')
    for i in range(nwork):
        p = subprocess.Popen(sim.cmd('worker', prop, tier, seed, i, nwork, t0, seconds, opt.get('--only', '')), env=sim.env(), cwd=sim.scratch,
            stdout=subprocess.PIPE, stderr=errs, start_new_session=True)
        procs.append(p); threading.Thread(target=reader, args=(p,), daemon=True).start()
    alive = nwork
    st = dict(runs=0, refs=0, groups=0, steps=0, switches=0, preempts=0, vclock=0, dbl=0, dblok=0, inconclusive=0, errors=0, races=0, io=0, shrunk=0)
    hashes = set(); nontriv = set(); fired = collections.Counter(); firedruns = collections.Counter(); pol = collections.Counter(); nt = collections.Counter()
    wl = collections.Counter(); status = collections.Counter(); stats = collections.Counter(); samples = []; incs = []; nondet = []
    knownhit = {}; candidates = []; rejected = []; confirmed = None
    def stop_all():
        for p in procs:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
    grace = 90
    triedsigs = collections.Counter()
    while alive > 0:
        left = t0 + seconds + grace - time.time()
        if not done.acquire(timeout=max(0.01, left)):
            stop_all(); print('note: workers stopped at the time limit'); break
        l = lines.popleft()
        if l is None: alive -= 1; continue
        try: r = json.loads(l)
        except ValueError: continue
        t = r['t']
        if t == 'group': st['groups'] += 1; st['refs'] += r['nref']; st['runs'] += r['nref']; wl[r['wl']] += r['nref']
        elif t == 'run':
            st['runs'] += 1; wl[r['wl']] += 1; status[r['st']] += 1
            st['steps'] += r['steps']; st['switches'] += r['sw']; st['preempts'] += r['pre']; st['vclock'] += r['vc']; st['races'] += r['races']; st['io'] += r['io']; st['shrunk'] += r['shr']
            hashes.add((r['wl'], r['h'])); pol[r['pol']] += 1; nt[r['nt']] += 1
            if r['sw'] > 0 or r['fired']: nontriv.add((r['wl'], r['h']))
            for k, v in r['fired'].items(): fired[k] += v; firedruns[k] += 1
            for k, v in (r.get('stats') or {}).items(): stats[k] += v
            if 'dbl' in r:
                st['dbl'] += 1; st['dblok'] += r['dbl']
                if not r['dbl']: nondet.append(r['dblspec'])
            if 'inc' in r:
                st['inconclusive'] += 1
                if len(incs) < 5: incs.append(r['wl']+': '+r['inc'])
            if len(samples) < 6 and st['runs'] % 37 == 1: samples.append({k: r[k] for k in ('wl', 'h', 'pol', 'nt', 'steps', 'sw', 'fired', 'st')})
        elif t == 'skip':
            st['inconclusive'] += 1
            if len(incs) < 5: incs.append(r['wl']+': '+r['msg'])
        elif t == 'err':
            st['errors'] += 1
            if len(incs) < 5: incs.append(r['wl']+': '+r['msg'][-600:])
        elif t == 'viol':
            k = next((k for k in known if k['sig'] == r['sig']), None)
            if k is not None:
                knownhit.setdefault(k['sig'], r); continue
            # every candidate must be confirmed in fresh processes before it counts
            if '--survey' in opt:
                triedsigs[r['sig']] += 1
                if triedsigs[r['sig']] == 1:
                    f = HERE+'/replays/survey-%s.json' % r['sig'].replace('/', '_').replace(' ', '_')[:100]
                    os.makedirs(HERE+'/replays', exist_ok=True)
                    json.dump(dict(sig=r['sig'], message=r['msg'], hash=r['hash'], spec=r['spec']), open(f, 'w'))
                    print('SURVEY', r['sig'], r['msg'][:1500], '\n   params', r['spec']['params'], '\n   x', r['spec']['x'], r['spec']['cfg'] and r['spec']['cfg']['faults'])
                continue
            if triedsigs[r['sig']] >= 3: continue
            triedsigs[r['sig']] += 1
            candidates.append(r)
            for p in procs:
                try: os.killpg(p.pid, signal.SIGSTOP)
                except OSError: pass
            ok = report(sim, prop, r)
            if ok: confirmed = ok; stop_all(); break
            rejected.append('%s: %s' % (r['sig'], r['msg'][:300]))
            for p in procs:
                try: os.killpg(p.pid, signal.SIGCONT)
                except OSError: pass
    for p in procs:
        try: p.wait(timeout=5)
        except subprocess.TimeoutExpired: pass
    stop_all()
    errs.close()
    wall = time.time()-t0
    # listed findings: repeat the recorded execution unless the search has just seen it
    for k in known:
        r = None
        if k['sig'] not in knownhit and k.get('probe'):
            f = sim.scratch+'/probe.json'; json.dump(dict(spec=k['probe'], sig=k['sig']), open(f, 'w'))
            q = sim.call('replay', f)
            if q and q.get('viol') and k['sig'] in [v[0] for v in q['viol']]: knownhit[k['sig']] = dict(msg=q['viol'][0][1])
        if k['sig'] in knownhit: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    man = {}
    try: man = {c['property']: c for c in json.load(open(HERE+'/MANIFEST.json'))['checks']}
    except Exception: pass
    sys.path.insert(0, HERE+'/checks')
    info = {}
    try: info = json.load(open(HERE+'/checks/info.json')).get(prop, {})
    except Exception: pass
    ev = dict(property=prop, tier=tier, seed=seed, level=man.get(prop, {}).get('level', 'exploration'),
        coverage=dict(evaluations=st['runs'], distinct_nontrivial=len(nontriv),
            rule='simulated runs with at least one context switch or one injected fault, counted once per (workload, execution hash); the hash covers every scheduling decision and every fault that fired',
            samples=samples, reference_runs=st['refs'], parameter_draws=st['groups'],
            runs_per_hour=round(st['runs']/wall*3600), seeds_per_hour=round(st['groups']/wall*3600), distinct_executions=len(hashes),
            simulated_time_s=round(st['vclock']/1e9, 3), simulated_steps=st['steps'], context_switches=st['switches'], preemptions=st['preempts'],
            io_operations=st['io'], teams_shrunk=st['shrunk'],
            faults_fired=dict(fired), runs_with_fault=dict(firedruns), scheduler_policies=dict(pol), team_sizes={str(k): v for k, v in sorted(nt.items())}, runs_per_workload=dict(wl), statuses=dict(status),
            workload_statistics=dict(stats), race_reports_used_for_guidance=st['races'],
            determinism=dict(double_runs=st['dbl'], identical=st['dblok']), inconclusive_runs=st['inconclusive'], harness_errors=st['errors'],
            unconfirmed_candidates=len(rejected), known_findings_seen=sorted(knownhit),
            real_components=info.get('real', 'the complete C++ library and its Python extension module, built from /repo/src'),
            simulated_components=info.get('sim', 'OpenMP runtime, thread scheduler, mutexes/once/static guards, Python GIL, clock'),
            build_s=round(tbuild, 1), files_compiled=ncomp),
        wall_s=round(wall, 2), violations=1 if confirmed else 0)
    if incs: ev['coverage']['inconclusive_samples'] = incs
    if rejected: ev['coverage']['unconfirmed_samples'] = rejected[:5]
    if nondet: ev['coverage']['determinism']['mismatch_specs'] = nondet[:2]
    os.makedirs(HERE+'/evidence', exist_ok=True)
    json.dump(ev, open(HERE+'/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s %s: %d runs (%d parameter draws), %d distinct executions, %d switches, faults fired %s, determinism %d/%d, inconclusive %d, errors %d, unconfirmed %d, %.1f s' % (
        prop, tier, st['runs'], st['groups'], len(hashes), st['switches'], dict(fired), st['dblok'], st['dbl'], st['inconclusive'], st['errors'], len(rejected), wall))
    for i in incs: print('  inconclusive:', i[:700])
    for i in rejected: print('  unconfirmed:', i[:500])
    if '--survey' in opt: print(dict(triedsigs), dict(status), dict(stats), dict(wl))
    if st['runs'] == 0:
        print('ERROR: no run was executed'); sys.stdout.write(open(sim.scratch+'/stderr').read()[-3000:]); return 2
    if confirmed:
        print('VIOLATION property=%s replay=%s' % (prop, confirmed)); return 1
    return 0

def report(sim, prop, r):
    """confirm a candidate in fresh processes, minimise it, write the replay file; returns its path or None"""
    h = hashlib.sha256(json.dumps(r['spec'], sort_keys=True).encode()).hexdigest()[:12]
    d = dict(sig=r['sig'], message=r['msg'], hash=r['hash'], spec=r['spec'], how='python3 /verif/check.py --replay=<this file>')
    f = sim.scratch+'/cand.json'
    json.dump(d, open(f, 'w'))
    c = confirm(sim, f, r['sig'])
    if c is None or (r['hash'] != '-' and c['hash'] != r['hash']):
        print('note: candidate not confirmed: %s %s' % (r['sig'], r['msg'][:300]), '' if c is None else 'hash %s vs %s' % (c['hash'], r['hash']))
        return None
    print('violation: %s\n  %s' % (r['sig'], r['msg'][:2000]))
    if r['spec']['cfg'] is not None:
        m = sim.call('min', f, 60, timeout=150)
        if m and m.get('info'):
            d2 = dict(d, spec=m['spec'], minimised=m['info'])
            json.dump(d2, open(f, 'w'))
            c2 = confirm(sim, f, r['sig'])
            if c2 is not None:
                d = d2; d['hash'] = c2['hash']; d['message'] = [v[1] for v in c2['viol'] if v[0] == r['sig']][0]
                print('  minimised: %s' % m['info'])
    os.makedirs(HERE+'/replays', exist_ok=True)
    path = HERE+'/replays/%s-%s.json' % (prop, h)
    json.dump(d, open(path, 'w'), indent=1)
    return path

if __name__ == '__main__': main()
