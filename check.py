#!/usr/bin/env python3
"""check.py PID: decides one property on /repo's current tree.

1. deductive: the contract units of the property generate their obligations from the current source
   (pyvc) and z3/cvc5 discharge them;
2. concrete: the property's oracle on the real code, on generated inputs (always run; gives the
   failing input of a violation).
exit 0 quiet, 1 with a VIOLATION line."""
import os, sys, json, time, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(PY): PY = shutil.which('python3-vt') or sys.executable

CONF = {   # search seconds (quick, thorough)
}

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('VERIF_REPO', '/repo')
    t0 = time.time()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    quick = tier == 'quick'
    # ---- start the proofs
    info = list_units(pid, env)
    units = info.get('units', [])
    procs = {}
    limit = 560 if quick else 3000
    n = max(1, len(units))
    par = min(4 if quick else 6, n)
    workers = max(1, 6 // par)
    pending = list(units)
    results = []
    logs = {}
    secs = 25 if quick else 600
    ks = 3
    searches = []
    for k in range(ks):
        s = secs
        cmd = [PY, '-m', 'replay.search', pid, str(s), str(seed * 10 + k), repo]
        searches.append((subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), s))
    def launch(u):
        p = subprocess.Popen([PY, '-m', 'pyvc.runner', pid, u, repo, str(workers), tier], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        procs[u] = (p, time.time())
    import threading
    lock = threading.Lock()
    def work():
        while True:
            with lock:
                if not pending: return
                u = pending.pop(0)
            p = subprocess.Popen([PY, '-m', 'pyvc.runner', pid, u, repo, str(workers), tier], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
            left = max(20, limit - (time.time() - t0))
            try:
                o, e = p.communicate(timeout=left)
                try: r = json.loads(o.strip().split('\n')[-1])
                except Exception: r = dict(unit=u, status='outside', detail='the VC generator died: ' + e[-800:], obligations=[])
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, 9)
                except OSError: p.kill()
                p.communicate()
                r = dict(unit=u, status='outside', detail='time limit', obligations=[])
            with lock: results.append(r)
    ths = [threading.Thread(target=work) for _ in range(par)]
    for t in ths: t.start()
    for t in ths: t.join()
    finds, srch = [], []
    def collect(ps):
        for p, s in ps:
            try:
                o, e = p.communicate(timeout=s + 120)
                r = json.loads(o.strip().split('\n')[-1])
            except Exception as ex:
                p.kill()
                r = dict(evaluations=0, skipped=0, distinct=0, samples=[], found=[], skip_reasons={'search died': 1}, seconds=0)
            srch.append(r)
            finds.extend(r['found'])
    collect(searches)
    results.sort(key=lambda r: units.index(r['unit']) if r['unit'] in units else 99)
    failed = [(r, o) for r in results if r['status'] == 'ok' for o in r['obligations'] if o['status'] != 'proved']
    outside = [r for r in results if r['status'] != 'ok']
    # obligations of a unit that left the subset half way are not counted, but a refuted one is looked at
    if (failed or outside) and not finds:
        # the verifier is not content: look harder for a failing input
        more = []
        secs2 = 40 if quick else 600
        for k in range(6):
            cmd = [PY, '-m', 'replay.search', pid, str(secs2), str(seed * 1000 + 500 + k), repo]
            more.append((subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), secs2))
        collect(more)
    if failed and not finds:
        # once more with the machine to itself and a larger budget, before an obligation is reported
        again = {r['unit'] for r, o in failed}
        for u in sorted(again):
            if quick and time.time() - t0 > 600: break
            try:
                p = subprocess.run([PY, '-m', 'pyvc.runner', pid, u, repo, '8', tier], cwd=HERE, env=dict(env, PYVC_SCALE='2'), capture_output=True, text=True, timeout=max(30, 780 - (time.time() - t0)) if quick else 1800)
                r2 = json.loads(p.stdout.strip().split('\n')[-1])
            except Exception: continue
            i = [r['unit'] for r in results].index(u)
            bad = lambda r: sum(o['status'] != 'proved' for o in r['obligations'])
            if r2['status'] == 'ok' and bad(r2) < bad(results[i]): results[i] = r2
        failed = [(r, o) for r in results if r['status'] == 'ok' for o in r['obligations'] if o['status'] != 'proved']
    known = load_known(pid)
    rc = 0
    viol = []
    for f in finds[:3]:
        k = match_known(known, f)
        if k: print('KNOWN-FINDING: property=%s %s' % (pid, k)); continue
        path = write_replay(pid, len(viol), dict(property=pid, kind='input', message=f['message'], case=f['case'],
            obligations_failed=[o['name'] for r, o in failed], rerun='python3-vt -m replay.search --replay <this file>'))
        viol.append((path, ''))
        print('%s: %s' % (pid, f['message']))
    if not viol and failed:
        path = write_replay(pid, 0, dict(property=pid, kind='obligation', obligations=[dict(unit=r['unit'], **{k: o.get(k) for k in ('name', 'kind', 'where', 'status', 'backend', 'time', 'model', 'why')}) for r, o in failed]))
        for r, o in failed[:5]: print('%s: obligation not discharged (%s): %s / %s at %s' % (pid, o['status'], r['unit'], o['name'], o['where']))
        viol.append((path, ' no-failing-input-found'))
    for path, extra in viol[:1]:
        print('VIOLATION property=%s replay=%s%s' % (pid, path, extra))
        rc = 1
    for r in outside: print('%s: unit "%s" not proved, bounded search instead: %s' % (pid, r['unit'], r['detail']))
    evidence(pid, tier, seed, results, outside, failed, srch, viol, time.time() - t0, info)
    ob = sum(len(r['obligations']) for r in results if r['status'] == 'ok')
    print('%s: %d obligations, %d discharged, %d units (%d outside the subset), %d inputs tried, %.0f s' % (pid, ob, ob - len(failed), len(results), len(outside), sum(s['evaluations'] for s in srch), time.time() - t0))
    sys.exit(rc)

def list_units(pid, env):
    p = subprocess.run([PY, '-m', 'pyvc.runner', '--list', pid], cwd=HERE, env=env, capture_output=True, text=True)
    try: return json.loads(p.stdout.strip().split('\n')[-1])
    except Exception:
        print('cannot list units: ' + p.stderr[-500:]); return {}

def write_replay(pid, i, d):
    path = os.path.join(HERE, 'evidence', 'replay', '%s-%d.json' % (pid, i))
    with open(path, 'w') as f: json.dump(d, f, indent=1)
    return path

def load_known(pid):
    f = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == pid]

def match_known(known, f):
    for k in known:
        if k.get('case') == f['case'] or (k.get('case_name') and k['case_name'] == f['case'].get('name')): return k['what']
    return None

def evidence(pid, tier, seed, results, outside, failed, srch, viol, wall, info):
    ok = [r for r in results if r['status'] == 'ok']
    ob = [o for r in ok for o in r['obligations']]
    dis = [o for o in ob if o['status'] == 'proved']
    be = {}
    for o in dis: be[o['backend']] = be.get(o['backend'], 0) + 1
    lib = sorted({t for r in results for t in r.get('trusted', [])})
    asm = sorted({t for r in results for t in r.get('assumed', [])})
    level = json.load(open(os.path.join(HERE, 'levels.json'))).get(pid, 'proof') if os.path.exists(os.path.join(HERE, 'levels.json')) else 'proof'
    base = ['reals model floating-point numbers; vector equality is exact', 'Python integers are mathematical',
            'the VC generator pyvc (AST of /repo to obligations, no intermediate copy)', 'z3 %s, cvc5 1.1.2, sympy polynomial arithmetic' % info.get('z3', '?')] + ['library contract: ' + t for t in lib]
    cov = dict(obligations=len(ob), discharged=len(dis), checker_cmd='python3 check.py %s' % pid, trusted_base=base,
               functions_under_contract=sorted({t for r in results for t in r.get('targets', [])}),
               inlined_functions=sorted({t for r in results for t in r.get('inlined', [])}),
               backends=be, solver_seconds=round(sum(o['time'] for o in ob), 2),
               units=[dict(unit=r['unit'], status=r['status'], detail=r.get('detail', ''), obligations=len(r['obligations']),
                           discharged=sum(o['status'] == 'proved' for o in r['obligations']), generation_s=round(r.get('gen_s', 0), 2),
                           loops=r.get('loops', [])) for r in results],
               bounded_units=[dict(unit=r['unit'], reason=r['detail'], bound='the inputs tried below') for r in outside],
               bounded_clauses=[dict(clause=x, bound='the inputs tried below; not counted as proved') for x in info.get('bounded', [])],
               evaluations=sum(s['evaluations'] for s in srch), distinct_nontrivial=sum(s['distinct'] for s in srch),
               rule='cases drawn by replay/*.py from the seed; counted are distinct cases on which the precondition of the oracle held',
               samples=[x for s in srch for x in s['samples']][:2], search_seconds=sum(s['seconds'] for s in srch),
               search_skipped={k: v for s in srch for k, v in s['skip_reasons'].items()})
    if info.get('bounded'): cov['explanation'] = 'the obligations cover the clauses of the property except those listed under bounded_clauses, which only the search on the real code decides'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=base[:2] + asm, wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)

if __name__ == '__main__': main()
