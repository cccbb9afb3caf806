#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks themselves."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'mon'))
src = open(os.path.join(ROOT, 'mon/run.py')).read()
ns = {}
exec(src[src.index('MODULES = '):src.index('def main')], ns)
NOTE = {
    'C01': 'AddressSanitizer and Miri reports on the executions made; nothing is said about inputs, histories or interleavings that were not run. Trusts the sanitizers; runaway recursion is skipped.',
    'C02': 'Panics (overflow and debug assertions on), aborts and CPU-time overruns on the executions made; that a program is unbounded, so that a stack overflow is allowed, is decided by the reference model.',
    'C23': 'Compares the executions made with each other; assumes nothing but equality, except that lambda names are normalised and clock-dependent cases are repeated.',
    'C24': 'Every run of the real command is judged against a reference reading of its arguments; the content of each input comes from the library run on that input alone.',
}
DEF = 'Each execution observed is judged against an independent reference model of the stated behaviour; inputs that were not generated are not covered, and inputs the model declines (counted in the evidence as not_judged) are not judged.'
checks = []
for prop in sorted(ns['MODULES']):
    c = getattr(importlib.import_module('checks.' + ns['MODULES'][prop]), prop)
    checks.append({'property': prop, 'quick_cmd': 'python3 mon/run.py ' + prop, 'thorough_cmd': 'VERIF_TIER=thorough python3 mon/run.py ' + prop,
                   'technique': c.technique, 'level': 'exploration', 'level_note': NOTE.get(prop, DEF)})
    assert c.technique, prop
json.dump({'version': 1, 'setup_cmd': 'python3 mon/setup.py',
           'hooks': {'guard': 'cfg(seam_verif)', 'enable': 'RUSTFLAGS="--cfg seam_verif"', 'source_commits': ['5a14806']},
           'checks': checks, 'not_applicable': [],
           'notes': 'Checks are time-boxed; VERIF_SEED chooses the random cases. known-findings.txt lists genuine defects (repaired and recorded).'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
