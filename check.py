#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's current working tree:
 1. deductive part: pyvc extracts the functions under contract from the
    current source, generates the proof obligations and hands them to z3/cvc5
    (contracts/pf_cXX.py);
 2. the same contracts evaluated on the real code (contracts/rt_cXX.py):
    replays the verifier's counterexamples, and is the bounded stand-in for
    what the verifier cannot reach.
Exit 0 held, 1 violated (VIOLATION line), 2 no answer."""
import argparse
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
SHARDS = 6
SECONDS = {'quick': 14, 'thorough': 300}
PROOF_LIMIT = {'quick': 240, 'thorough': 800}


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPATH=REPO + ':' + HERE, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             MKL_NUM_THREADS='1', PYTHONWARNINGS='ignore', PYTHONHASHSEED='0', VERIF_REPO=REPO)
    return e


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p):
        m = re.match(r'known: property=(\S+) case=(\S+) (.*)', line.strip())
        if m and m.group(1) == prop:
            out.append((os.path.join(HERE, m.group(2)), m.group(3)))
    return out


def fingerprints():
    """module -> hash of its syntax tree without comments, docstrings and positions"""
    code = '''
import ast, glob, hashlib, json, os, sys
out = {}
for f in sorted(glob.glob(os.path.join(sys.argv[1], 'ASAPy', '**', '*.py'), recursive=True)):
    try:
        t = ast.parse(open(f).read())
    except Exception:
        continue
    for n in ast.walk(t):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], 'value', None), ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body[0] = ast.Pass()
    m = os.path.relpath(f, sys.argv[1])[:-3].replace(os.sep, '.')
    out[m] = hashlib.sha256(ast.dump(t).encode()).hexdigest()[:16]
print(json.dumps(out))
'''
    return json.loads(subprocess.run([PY, '-W', 'ignore', '-c', code, REPO], capture_output=True, text=True, check=True).stdout)


def changed(functions):
    """does the code under contract differ from the tree all obligations were discharged on (baseline.json)?"""
    base = json.load(open(os.path.join(HERE, 'baseline.json')))
    now = fingerprints()
    if functions is None:
        return now != base
    return any(now.get(m) != base.get(m) for m in {f.split(':')[0] for f in functions})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop, tier = a.prop.upper(), a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    ev = os.path.join(HERE, 'evidence')
    rdir = os.path.join(ev, 'replay')
    work = os.path.join(ev, 'work', prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(rdir, exist_ok=True)

    def rt_cmd(out, *extra):
        return [PY, '-m', 'harness.run', prop, out, '--seed', str(seed), '--tier', tier] + list(extra)

    def run_case(case, tag):
        f, o = os.path.join(work, tag + '.in.json'), os.path.join(work, tag + '.json')
        json.dump(case, open(f, 'w'))
        subprocess.run(rt_cmd(o, '--case', f), cwd=HERE, env=env(), timeout=600)
        return json.load(open(o))

    if a.replay:
        d = json.load(open(a.replay))
        if d.get('case') is None:
            print(d.get('message', ''))
            print('no failing input is recorded; the failed obligation is', d.get('obligation'))
            return 1
        r = run_case(d['case'], 'replay')
        for v in r['violations']:
            print('reproduced:', v['message'])
        return 1 if r['violations'] else 0

    # -- start everything ------------------------------------------------
    has_proof = os.path.exists(os.path.join(HERE, 'contracts', 'pf_%s.py' % prop.lower()))
    proof_out = os.path.join(work, 'proof.json')
    proof = None
    if has_proof:
        cmd = [PY, '-m', 'pyvc.prove', prop, proof_out, '--tier', tier, '--limit', str(PROOF_LIMIT[tier])]
        proof = subprocess.Popen(cmd, cwd=HERE, env=env(), stdout=open(os.path.join(work, 'proof.log'), 'w'), stderr=subprocess.STDOUT)
    limit = 700 if tier == 'quick' else 3000

    def search(stage, seconds, sd, tier=tier):
        procs = []
        for i in range(SHARDS):
            o = os.path.join(work, 'shard%d.%d.json' % (stage, i))
            cmd = [PY, '-m', 'harness.run', prop, o, '--seed', str(sd), '--tier', tier, '--seconds', str(seconds), '--shard', '%d/%d' % (i, SHARDS)]
            procs.append((o, subprocess.Popen(cmd, cwd=HERE, env=env(), stdout=open(o + '.log', 'w'), stderr=subprocess.STDOUT)))
        gather(procs)

    tot = {'evaluations': 0, 'distinct': 0, 'skipped': 0, 'kinds': {}, 'violations': [], 'errors': [], 'skips': {}, 'samples': [], 'enumerated': 0}
    def gather(procs):
        for o, p in procs:
            try:
                p.wait(max(5, limit - (time.time() - start)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                tot['errors'].append('runtime contracts did not finish in time')
            try:
                r = json.load(open(o))
            except Exception:
                tot['errors'].append('no result of ' + o + ': ' + open(o + '.log').read()[-800:])
                continue
            for k in ('evaluations', 'skipped', 'distinct'):
                tot[k] += r[k]
            tot['enumerated'] = max(tot['enumerated'], r.get('enumerated', 0))
            for k in ('kinds', 'skips'):
                for q, n in r[k].items():
                    tot[k][q] = tot[k].get(q, 0) + n
            tot['violations'] += r['violations']
            tot['errors'] += r['errors']
            tot['samples'] = (tot['samples'] + r['samples'])[:6]

    search(0, SECONDS[tier], seed)
    pr = {'obligations': [], 'functions': [], 'assumptions': [], 'trusted': [], 'unsupported': [], 'solver_s': 0.0, 'backends': {}, 'cross_checked': 0}
    if proof:
        try:
            proof.wait(max(1, PROOF_LIMIT[tier] + 30 - (time.time() - start)))
        except subprocess.TimeoutExpired:
            proof.kill()
            proof.wait()
        try:
            pr.update(json.load(open(proof_out)))
        except Exception:
            pr['unsupported'].append({'function': '*', 'reason': 'the proof run gave no result: ' + open(os.path.join(work, 'proof.log')).read()[-600:]})

    # an obligation that is not discharged (or code the verifier cannot read any more) calls for a deeper search for a failing input
    # -- and so does any change of the code
    undecided = [o for o in pr['obligations'] if o['status'] != 'proved'] or pr['unsupported'] or changed(None)
    if undecided and not tot['violations'] and tier == 'quick':
        search(1, 45, seed + 1000, 'deep')

    # -- known findings --------------------------------------------------
    for path, what in known(prop):
        r = run_case(json.load(open(path)), 'known')
        if r['violations']:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))

    # -- verdict ---------------------------------------------------------
    nviol = 0
    for old in glob.glob(os.path.join(rdir, prop + '-*.json')):
        os.remove(old)

    def report(d, tag, suffix=''):
        nonlocal nviol
        nviol += 1
        p = os.path.join(rdir, '%s-%s.json' % (prop, tag))
        d['property'] = prop
        d['replay_cmd'] = 'python3 /verif/check.py %s --replay %s' % (prop, p)
        json.dump(d, open(p, 'w'), indent=1)
        print((d.get('message') or '')[:1500])
        print('VIOLATION property=%s replay=%s%s' % (prop, p, suffix))

    failed = [o for o in pr['obligations'] if o['status'] == 'refuted']
    found = False
    spurious = 0
    for k, o in enumerate(failed + [o for o in pr['obligations'] if o['status'] not in ('proved', 'refuted') and o.get('case') is not None][:12]):
        if o.get('case') is not None:
            r = run_case(o['case'], 'cex%d' % k)
            if r['violations']:
                report({'case': o['case'], 'message': 'obligation %s fails; counterexample replayed on the real code: %s' % (o['name'], r['violations'][0]['message']),
                        'obligation': o['name'], 'verifier': o.get('output', '')}, 'cex%d' % k)
                found = True
            elif o['status'] == 'refuted':
                # the model of the failed obligation is not a failing input of the real code: the contract of a dependency is
                # weaker than the dependency, or the difference is below the stated tolerance; no verdict from this obligation
                o['status'] = 'spurious counterexample (replayed on the real code, which keeps the property)'
                spurious += 1
    failed = [o for o in pr['obligations'] if o['status'] not in ('proved', 'not counted') and o.get('kind') != 'invariant']
    if tot['violations']:
        v = min(tot['violations'], key=lambda v: len(json.dumps(v['case'])))
        report({'case': v['case'], 'message': v['message'], 'obligation': [o['name'] for o in failed] or 'contract evaluated on the real code'}, 'run')
        found = True
    if failed and not found and changed(pr['functions']):
        # the code under contract changed, an obligation discharged before the change no longer is: once more with more time
        names = sorted({o['task'] for o in failed})
        out2 = os.path.join(work, 'proof2.json')
        left = max(60, min(PROOF_LIMIT[tier], limit + 100 - (time.time() - start)))
        try:
            subprocess.run([PY, '-m', 'pyvc.prove', prop, out2, '--tier', tier, '--limit', str(left), '--patience', '3', '--tasks', json.dumps(names)], cwd=HERE,
                           env=env(), stdout=open(os.path.join(work, 'proof2.log'), 'w'), stderr=subprocess.STDOUT, timeout=left + 30)
            again = {o['name']: o for o in json.load(open(out2))['obligations']}
        except Exception:
            again = {}
        failed = [o for o in failed if o['name'] in again and again[o['name']]['status'] not in ('proved', 'not counted')]
        for o in pr['obligations']:
            if o['name'] in again and again[o['name']]['status'] == 'proved':
                o['status'] = 'proved'
        if failed:
            o = failed[0]
            report({'case': None, 'obligation': [q['name'] for q in failed], 'verifier': o.get('output', ''),
                    'message': 'obligation not discharged any more: %s\n%s' % (o['name'], o.get('output', ''))}, 'obl', ' no-failing-input-found')

    discharged = [o for o in pr['obligations'] if o['status'] == 'proved']
    open_ = [o for o in pr['obligations'] if o['status'] not in ('proved', 'refuted')]
    meta = json.load(open(os.path.join(HERE, 'levels.json'))).get(prop, {})
    level = 'proof' if discharged else 'exploration'
    if has_proof and not pr['obligations']:
        print('WARNING: the proof run gave no obligations:', pr['unsupported'][:1])
    cov = {
        'obligations': len(pr['obligations']), 'discharged': len(discharged),
        'checker_cmd': '%s -m pyvc.prove %s OUT.json (run by check.py from /verif, PYTHONPATH=/repo:/verif)' % (PY, prop) if has_proof else 'none',
        'trusted_base': pr['trusted'] or ['none'],
        'functions_under_contract': pr['functions'], 'backends': pr['backends'], 'solver_seconds': round(pr['solver_s'], 2),
        'not_discharged': [{'name': o['name'], 'status': o['status']} for o in pr['obligations'] if o['status'] != 'proved'],
        'outside_the_verifier': pr['unsupported'],
        'obligation_names': [o['name'] for o in discharged][:400],
        'bounded': 'contracts evaluated on the real code for the enumerated and seeded random inputs below; a bounded stand-in, not counted as proved. ' + meta.get('bound', ''),
        'evaluations': tot['evaluations'], 'distinct_nontrivial': tot['distinct'],
        'rule': 'each case calls the real functions from /repo and evaluates the full contract; distinct by content (per shard), cases outside the domain are skipped and not counted; enumerated cases per run: %d' % tot['enumerated'],
        'samples': tot['samples'] or [{}], 'kinds': tot['kinds'], 'skipped': tot['skips'], 'engine_cross_checks_against_cpython': pr['cross_checked'],
    }
    assumptions = list(pr['assumptions']) + meta.get('assumptions', [])
    if has_proof:
        assumptions += ['floating point arithmetic is treated as real arithmetic in the proof obligations']
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
               'wall_s': round(time.time() - start, 2), 'violations': nviol}, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print('%s %s: %d/%d obligations discharged (%d open, %d outside), %d contract evaluations, %d skipped, %d violations, %.1f s' % (
        prop, tier, len(discharged), len(pr['obligations']), len(open_), len(pr['unsupported']), tot['evaluations'], tot['skipped'], nviol, time.time() - start))
    if nviol:
        return 1
    if tot['errors']:
        print('harness errors:\n' + '\n'.join(tot['errors'][:3]))
        if tot['evaluations'] < 20:
            return 2
    if tot['evaluations'] == 0 and not discharged:
        print('nothing could be evaluated:', tot['skips'], pr['unsupported'])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
