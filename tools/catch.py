"""Run the checks against the planted bugs and print which checks catch which.

    python3 tools/catch.py [--own] [--jobs N] [--seed N] [id ...]

Each patch is applied to a copy of the tree which is mounted over /repo in a mount namespace of its own, so that neither
/repo nor the evidence of /verif change. --own: only the check of the property which the bug breaks.
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def inside(root, cmd, seed=1, timeout=900):
    """Runs a command with *root* as /repo and scratch folders for evidence and replays."""
    tmp = tempfile.mkdtemp(prefix="catch-")
    try:
        os.makedirs(tmp + "/evidence"), os.makedirs(tmp + "/replays")
        for d in ("evidence", "replays"):
            os.makedirs(os.path.join(VERIF, d), exist_ok=True)
        script = "mount --bind %s /repo && mount --bind %s/evidence %s/evidence && mount --bind %s/replays %s/replays && cd %s && %s" % (
            root, tmp, VERIF, tmp, VERIF, VERIF, cmd)
        r = subprocess.run(["unshare", "-rm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER="quick"))
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(tmp)


def patched(diff):
    root = tempfile.mkdtemp(prefix="tree-")
    subprocess.run(["cp", "-a", "/repo/.", root], check=True)
    subprocess.run(["git", "-C", root, "apply", diff], check=True)
    return root


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--own", action="store_true")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        checks = {c["property"]: c["quick_cmd"] for c in json.load(f)["checks"]}
    ids = a.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))

    def one(id):
        d = os.path.join(VERIF, "seeded", id)
        with open(os.path.join(d, "meta.json")) as f:
            prop = json.load(f)["property"]
        root = patched(os.path.join(d, "patch.diff"))
        try:
            todo = [prop] if a.own else list(checks)
            res = {p: inside(root, checks[p], a.seed) for p in todo}
        finally:
            shutil.rmtree(root)
        hit = [p for p, (rc, out) in res.items() if rc == 1 and "VIOLATION property=%s " % p in out]
        odd = {p: rc for p, (rc, out) in res.items() if rc not in (0, 1) or (rc == 1 and p not in hit)}
        print("%-26s %s %s  also: %s %s" % (id, prop, "CAUGHT" if prop in hit else "MISSED", " ".join(p for p in hit if p != prop), odd or ""), flush=True)
        for p in odd:
            print("   ", p, res[p][1][-400:])
        return id, hit

    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        table = dict(ex.map(one, ids))
    print("missed by all:", [i for i in ids if not table[i]])


if __name__ == "__main__":
    main()
