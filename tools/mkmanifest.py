"""Writes MANIFEST.json and levels.json from the list of properties."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
BOUND = {
 'C01': 'matrices up to 75x75', 'C02': 'matrices up to 60x60; the clause on sufficiently positive definite input is bounded only', 'C03': 'up to 13 variables, 300 samples, magnitudes 1e-28 to 1e28',
 'C04': 'up to 24 variables, all pinning patterns of up to 4', 'C05': 'up to 10 variables; the convergence of the rank correlation is bounded only (statistical, stated tolerance)', 'C06': 'up to 56 groups',
 'C07': 'up to 30 groups', 'C08': 'up to 140 groups, 300 samples', 'C09': 'up to 300 groups or energies',
 'C10': 'up to 260 groups, 6 operations', 'C11': 'up to 101 groups', 'C12': 'up to 60 groups', 'C13': 'synthetic ACE tables, grids up to 150 points, up to 12 operations',
 'C14': 'synthetic ACE tables, grids up to 120 points, up to 12 operations', 'C15': 'synthetic ACE tables, up to 20 incident and 120 outgoing energies', 'C16': 'up to 500 numbers, 6 operations',
 'C17': 'synthetic ACE tables, up to 17 samples and 4 processes, and the command line program',
 'C18': 'all 128 option combinations for one to three temperatures, plus random ones', 'C19': 'up to 500 values per record', 'C20': 'up to 80 points; every layout of up to 3 regions over 5 points with every law',
 'C21': 'up to 4 tables, 1025 numbers', 'C22': 'complete: every element, every mass number up to 300, states 0-10, 15 and 99',
}
checks, levels = [], {}
for p in props:
    i = p['id']
    proof = os.path.exists(os.path.join(H, 'contracts', 'pf_%s.py' % i.lower()))
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': ('contract-based deductive verification: pyvc (in /verif) extracts the real functions from /repo on every run and generates verification conditions from their contracts, z3/cvc5 discharge them; '
                                 'the same contracts are evaluated on the real code for counterexample replay and as a bounded stand-in for what pyvc cannot reach') if proof else
                                'contracts of the real functions checked by executing them on the real code: bounded stand-in, the functions are outside the reach of the verifier (DESIGN.md)',
                   'level': 'proof' if proof else 'exploration',
                   'level_note': ('unbounded proof of the obligations listed in the evidence; the rest of the property is bounded (%s)' if proof else 'bounded: %s') % BOUND[i]})
    levels[i] = {'bound': BOUND[i], 'assumptions': []}
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': []}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
json.dump(levels, open(os.path.join(H, 'levels.json'), 'w'), indent=1)
