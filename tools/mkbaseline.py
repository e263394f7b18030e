"""Writes baseline.json: fingerprints of the modules on which all obligations were discharged (run after a clean pass of every check)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
json.dump(check.fingerprints(), open(os.path.join(H, 'baseline.json'), 'w'), indent=1, sort_keys=True)
