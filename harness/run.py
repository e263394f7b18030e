"""python -m harness.run PROP OUT.json --seconds S --shard i/k --seed N [--case file]"""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('out')
    ap.add_argument('--seconds', type=float, default=30)
    ap.add_argument('--shard', default='0/1')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--case')
    a = ap.parse_args()
    from harness import rt
    res = {'evaluations': 0, 'skipped': 0, 'kinds': {}, 'violations': [], 'errors': [], 'skips': {}, 'samples': [], 'distinct': 0}
    seen = set()
    start = time.time()

    def save():
        tmp = a.out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.replace(tmp, a.out)

    try:
        mod = importlib.import_module('contracts.rt_' + a.prop.lower())
    except Exception as e:
        res['errors'].append('import: ' + traceback.format_exc()[-1500:])
        save()
        return 0

    def alarm(*_):
        raise TimeoutError('case did not terminate')
    signal.signal(signal.SIGALRM, alarm)

    def one(case):
        np.random.seed(case.get('npseed', 12345))
        signal.alarm(getattr(mod, 'CASE_SECONDS', 120))
        try:
            mod.run(case)
            res['evaluations'] += 1
            k = case.get('kind', '?')
            res['kinds'][k] = res['kinds'].get(k, 0) + 1
            if res['kinds'][k] == 1 and len(res['samples']) < 6:
                res['samples'].append(json.loads(json.dumps(case)) if len(json.dumps(case)) < 1500 else {'kind': k, 'cut': json.dumps(case)[:1200]})
            seen.add(hash(json.dumps(case, sort_keys=True)))
            res['distinct'] = len(seen)
        except rt.Skip as e:
            res['skipped'] += 1
            res['skips'][str(e)] = res['skips'].get(str(e), 0) + 1
        except rt.Violation as e:
            res['evaluations'] += 1
            res['violations'].append({'case': case, 'message': str(e)})
        except TimeoutError:
            res['violations'].append({'case': case, 'message': 'the code under contract did not terminate within %d s' % getattr(mod, 'CASE_SECONDS', 120)})
        except (OSError, MemoryError, ImportError, AssertionError) as e:
            res['errors'].append('%s\ncase=%s' % (traceback.format_exc()[-1500:], json.dumps(case)[:500]))
        except Exception as e:
            # the contract could not even be evaluated on what the code returned
            res['evaluations'] += 1
            res['violations'].append({'case': case, 'message': 'the result is not of the kind the contract speaks about: ' + traceback.format_exc()[-1200:]})
        finally:
            signal.alarm(0)

    if a.case:
        cases = json.load(open(a.case))
        for c in cases if isinstance(cases, list) else [cases]:
            one(c)
        save()
        return 0

    i, k = (int(v) for v in a.shard.split('/'))
    n = 0
    # enumerated cases are split over the shards; random ones differ per shard
    for case in (mod.fixed(a.tier) if hasattr(mod, 'fixed') else ()):
        n += 1
        if n % k != i:
            continue
        one(json.loads(json.dumps(case)))
        if res['violations'] or len(res['errors']) > 5:
            break
        if time.time() - start > 6 * a.seconds + 240:
            res['errors'].append('enumerated cases did not finish')
            break
    res['enumerated'] = n
    if hasattr(mod, 'gen') and not res['violations'] and len(res['errors']) <= 5:
        rng = rt.Rng([a.seed, i, 7])
        while time.time() - start < a.seconds:
            case = mod.gen(rng, a.tier)
            one(json.loads(json.dumps(case)))
            if res['violations'] or len(res['errors']) > 5:
                break
    res['wall'] = time.time() - start
    save()
    return 0


if __name__ == '__main__':
    sys.exit(main())
