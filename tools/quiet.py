"""Run every check against edits which keep the behaviour; all must stay quiet.

    python3 tools/quiet.py [--jobs N] [--only C01,C02] [diff ...]     (default: tools/refactors/*.diff)
"""
import argparse
import concurrent.futures
import glob
import json
import os
import shutil

from catch import VERIF, inside, patched


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--only')
    ap.add_argument('diffs', nargs='*')
    a = ap.parse_args()
    with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
        checks = {c['property']: c['quick_cmd'] for c in json.load(f)['checks']}
    if a.only:
        checks = {p: checks[p] for p in a.only.split(',')}
    for diff in a.diffs or sorted(glob.glob(os.path.join(VERIF, 'tools/refactors/*.diff'))):
        root = patched(os.path.abspath(diff))
        try:
            with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
                res = dict(zip(checks, ex.map(lambda c: inside(root, c), checks.values())))
        finally:
            shutil.rmtree(root)
        bad = {p: r for p, r in res.items() if r[0]}
        print(os.path.basename(diff), 'quiet' if not bad else 'LOUD: %s' % sorted(bad), flush=True)
        for p, r in bad.items():
            print(p, r[0], r[1][-2500:])


if __name__ == '__main__':
    main()
