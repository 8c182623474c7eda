"""Contract-directed search on the real code: every property's oracle on generated inputs.
search.py PID SECONDS SEED [REPO] [--replay FILE]   (prints one JSON line)"""
import sys, os, json, time, random, hashlib, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from replay import env as envm, gen, roof, geom, wave
from replay.env import Skip

ORACLES = {
    'C01': (roof.gen_roof, roof.c01), 'C02': (roof.gen_roof, roof.c02), 'C03': (roof.gen_roof, roof.c03),
    'C04': (roof.gen_c04, roof.c04), 'C05': (roof.gen_c05, roof.c05), 'C06': (geom.gen_c06, geom.c06),
    'C07': (geom.gen_c07, geom.c07), 'C08': (geom.gen_c08, geom.c08), 'C09': (geom.gen_c09, geom.c09),
    'C10': (geom.gen_c10, geom.c10), 'C11': (geom.gen_c11, geom.c11), 'C12': (geom.gen_c12, geom.c12),
    'C13': (wave.gen_c13, wave.c13), 'C14': (wave.gen_c14, wave.c14), 'C15': (wave.gen_c15, wave.c15),
    'C16': (wave.gen_c16, wave.c16), 'C17': (roof.gen_c17, roof.c17), 'C18': (wave.gen_c13, wave.c18),
}

class TooLong(BaseException): pass

def one(env, pid, case, limit=20):
    """-> (message | None, skipped?)"""
    def alarm(*a): raise TooLong()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        return ORACLES[pid][1](env, json.loads(json.dumps(case))), None
    except Skip as e: return None, str(e)
    except TooLong: return None, 'took longer than %d s' % limit   # termination is not claimed
    except wave.Found as e: return str(e), None
    finally:
        signal.alarm(0)
        sys.stdout.close()
        sys.stdout = out
        env.restore()

def key(case): return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()

def main(pid, secs, seed, repo='/repo', limit_n=None):
    env = envm.Env(repo)
    rng = random.Random('%s/%s' % (pid, seed))
    t0 = time.time()
    n = skipped = 0
    seen, samples, why = set(), [], {}
    found = []
    G = ORACLES[pid][0]
    while time.time() - t0 < secs and (limit_n is None or n < limit_n):
        case = G(rng, n)
        n += 1
        try: m, sk = one(env, pid, case)
        except Exception as e:
            import traceback
            m, sk = None, 'oracle: %r' % e
            why['oracle: ' + traceback.format_exc()[-400:]] = why.get('oracle: ' + traceback.format_exc()[-400:], 0) + 1
            # the code under test raised where its precondition holds, on an interface that exists
            if not isinstance(e, (AttributeError, NameError, ImportError, TypeError)):
                m, sk = 'the code raised %r' % e, None
        if sk is not None:
            skipped += 1
            why[sk[:60]] = why.get(sk[:60], 0) + 1
            continue
        seen.add(key(case))
        if len(samples) < 2 and len(json.dumps(case)) < 1500: samples.append(case)
        if m:
            found.append((m, case))
            if len(found) >= 3: break
    return dict(evaluations=n, skipped=skipped, distinct=len(seen), samples=samples, seconds=round(time.time() - t0, 2),
                found=[dict(message=m, case=c) for m, c in found], skip_reasons=dict(sorted(why.items(), key=lambda x: -x[1])[:6]))

if __name__ == '__main__':
    a = sys.argv[1:]
    if '--replay' in a:
        f = a[a.index('--replay') + 1]
        repo = a[a.index('--repo') + 1] if '--repo' in a else '/repo'
        d = json.load(open(f))
        env = envm.Env(repo)
        m, sk = one(env, d['property'], d['case'], 120)
        print(json.dumps(dict(message=m, skipped=sk)))
        sys.exit(1 if m else 0)
    print(json.dumps(main(a[0], float(a[1]), int(a[2]), a[3] if len(a) > 3 else '/repo')))
