#!/usr/bin/env python3
"""python3 mon/run.py <property> [--replay FILE] [--seconds N]"""
import os, sys, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
MODULES = {'C03': 'reading', 'C04': 'reading', 'C05': 'reading', 'C11': 'macros', 'C12': 'macros', 'C13': 'macros', 'C14': 'macros', 'C15': 'macros',
           'C18': 'macros', 'C22': 'macros', 'C06': 'formats', 'C07': 'formats', 'C08': 'formats', 'C09': 'formats', 'C10': 'formats',
           'C16': 'files', 'C17': 'files', 'C19': 'files', 'C20': 'files', 'C21': 'files',
           'C01': 'process', 'C02': 'process', 'C23': 'process', 'C24': 'process', 'C25': 'library', 'C26': 'library', 'C27': 'facts', 'C28': 'growth'}


def main():
    import engine
    prop = sys.argv[1]
    args = sys.argv[2:]
    replay = seconds = None
    while args:
        a = args.pop(0)
        if a == '--replay':
            replay = args.pop(0)
        elif a == '--seconds':
            seconds = float(args.pop(0))
    mod = importlib.import_module('checks.' + MODULES[prop])
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        sys.exit(engine.run(getattr(mod, prop), seed, tier, replay, seconds))
    except engine.HarnessError as e:
        sys.stderr.write('harness: %s\n' % e)
        sys.exit(2)


main()
