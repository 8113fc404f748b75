#!/opt/venv/bin/python
"""replay.py FILE -- run one recorded input against the real datashape package
(no instrumentation, no solver).  exit 1: the property fails on it, 0: it holds"""
import json
import os
import sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main():
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    from sx import runner, loader
    sys.path.insert(0, runner.REPO)
    import importlib
    nat = importlib.import_module('datashape')
    for sub in ('util.testing', 'internal_utils', 'validation', 'lexer', 'parser', 'error',
                'discovery', 'promote', 'typesets', 'predicates', 'user', 'coretypes'):
        importlib.import_module('datashape.' + sub)
    prop = rec['property'].lower()
    hn = loader.load_harness(os.path.join(VERIF, 'harness', prop + '.py'), prop, nat, False)
    runner.native_reset()
    sys.setrecursionlimit(6000)
    for name, values in (rec.get('history') or [])[:-1]:
        runner.run_native(getattr(hn, name), rec['tier'], values)
    kind, detail, obs, reached = runner.run_native(
        getattr(hn, rec['harness']), rec['tier'], rec['inputs'])
    print('inputs : %r' % rec['inputs'])
    print('outcome: %s %r' % (kind, detail))
    return 1 if kind in ('check', 'exc') else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
