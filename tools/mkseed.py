"""mkseed.py FILE...: makes /verif/seeded/<id>/ from seed descriptions (python files defining ID, PROP, FILE, EDITS, DEMO, NEEDS, BREAKS)
and confirms: patch applies, demo passes clean / fails patched, stable tests pass. Scratch copies under /tmp."""
import sys, os, subprocess, json, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passing') or []) if os.path.exists('/opt/vp/BASELINE.json') else set()
def do(f, tests=True):
    d = runpy.run_path(f)
    sid = d['ID']
    out = os.path.join(V, 'seeded', sid)
    tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        rp = os.path.join(tmp, 'repo')
        sh('git clone -q /repo %s' % rp)
        for fn, old, new in d['EDITS']:
            p = os.path.join(rp, fn); s = open(p).read()
            if s.count(old) != 1: print(sid, 'EDIT does not match once:', s.count(old), old[:60]); return False
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git -C %s diff' % rp).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(patch)
        open(os.path.join(out, 'demo.py'), 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n' + d['DEMO'])
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nPY=/opt/venv/bin/python\n[ -x $PY ] || PY=python3\nexec timeout 250 $PY "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=d['PROP'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        b = sh('bash %s/demo.sh' % out, cwd=rp)
        sh('git -C %s checkout -q -- .' % rp)
        a = sh('bash %s/demo.sh' % out, cwd=rp)
        print(sid, 'clean', a.returncode, 'patched', b.returncode, (b.stdout + b.stderr).strip()[-150:])
        ok = a.returncode == 0 and b.returncode != 0
        if not ok: print(a.stdout[-500:], a.stderr[-800:]); print('---', b.stdout[-500:], b.stderr[-500:])
        ap = sh('git -C /repo apply --check %s/patch.diff' % out)
        if ap.returncode: print('patch does not apply', ap.stderr); ok = False
        if tests and ok:
            sh('git -C %s apply %s/patch.diff' % (rp, out))
            t = open('/opt/vp/test.sh').read().replace('/repo', rp)
            open(tmp + '/t.sh', 'w').write(t)
            sh('bash %s/t.sh %s/o.json' % (tmp, tmp))
            r = json.load(open(tmp + '/o.json'))
            ps = set(r.get('passed', r.get('passing', [])))
            bl = json.load(open('/opt/vp/BASELINE.json'))
            bp = set(bl.get('passed', bl.get('passing', bl.get('stable', []))))
            miss = bp - ps
            print(sid, 'tests: baseline', len(bp), 'missing', len(miss), list(miss)[:3])
            ok = ok and not miss and bool(bp)
        if not ok: shutil.rmtree(out, ignore_errors=True); print(sid, 'REJECTED')
        return ok
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    for f in sys.argv[1:]: do(f)
