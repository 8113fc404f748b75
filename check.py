#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough] -- decide one property of /repo's current tree"""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
VERIF = os.path.dirname(os.path.abspath(__file__))
if sys.executable != '/opt/venv/bin/python' and os.path.exists('/opt/venv/bin/python') \
        or os.environ.get('SX_REEXEC') != '1':
    os.environ['SX_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore'] + sys.argv)
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def self_test():
    """the tools are here, the package can be instrumented, the harnesses load"""
    import z3
    from sx import runner
    x = z3.Int('x')
    s = z3.Solver()
    s.add(x > 1, x < 3)
    assert s.check() == z3.sat and s.model()[x].as_long() == 2
    n = 0
    for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if f[0] == 'c' and f.endswith('.py'):
            n += len(runner.load(f[:-3].upper())[2].HARNESSES)
    print('z3 %s, %d harnesses' % (z3.get_version_string(), n))
    return 0


def main():
    if sys.argv[1] == '--self-test':
        return self_test()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from sx import runner
    return runner.run_property(prop, tier, seed)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
