#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    want = str(a.seed % 4294967295)
    if os.environ.get('PYTHONHASHSEED') != want:
        os.environ['PYTHONHASHSEED'] = want
        os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    from mon import runner
    if a.replay:
        return runner.replay(a.property, a.replay)
    return runner.run(a.property, a.tier, a.seed)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
