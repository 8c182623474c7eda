"""one contract unit in its own process; prints one JSON line"""
import sys, os, json, importlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
def main():
    if sys.argv[1] == '--list':
        pid = sys.argv[2]
        p = os.path.join(HERE, 'contracts', pid.lower() + '.py')
        if not os.path.exists(p): print('{}'); return
        import z3
        from pyvc import contract
        m = importlib.import_module('contracts.' + pid.lower())
        print(json.dumps(dict(units=[u.name for u in contract.REGISTRY if u.pid == pid], bounded=getattr(m, 'BOUNDED', []), z3=z3.get_version_string()))); return
    pid, name, repo, workers, tier = sys.argv[1:6]
    from pyvc import contract
    importlib.import_module('contracts.' + pid.lower())
    u = [u for u in contract.REGISTRY if u.pid == pid and u.name == name][0]
    sc = float(os.environ.get('PYVC_SCALE', '1'))
    u.timeout *= sc
    r = contract.run_unit(u, repo, budget=u.budget * sc * (1 if tier == 'quick' else 3), workers=int(workers))
    print(json.dumps(r, default=str))
main()
