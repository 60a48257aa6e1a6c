"""Plant the bugs of tools/bugs.py: checks each in a scratch copy of /repo and
writes /verif/seeded/<id>/ for those which are kept. No check uses this.

    python3 tools/plant.py [id ...]
"""
import json
import os
import re
import shutil
import stat
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def span(text, cls, meth):
    """The part of the text which is the body of class cls (or of its method)."""
    lo, hi = 0, len(text)
    if cls:
        m = re.search(r"^class %s\b.*$" % cls, text, re.M)
        lo = m.start()
        n = re.search(r"^(class|def|STYLES)\b", text[m.end():], re.M)
        hi = m.end() + n.start() if n else len(text)
    if meth:
        m = re.search(r"^\tdef %s\(" % re.escape(meth), text[lo:hi], re.M)
        s = lo + m.start()
        n = re.search(r"^\t(def |@)", text[s + 2:hi], re.M)
        lo, hi = s, (s + 2 + n.start() if n else hi)
    return lo, hi


def edit(root, e):
    path = os.path.join(root, e["file"])
    with open(path) as f:
        text = f.read()
    lo, hi = span(text, e.get("cls"), e.get("meth"))
    part = text[lo:hi]
    old, new = e["old"], e["new"]
    assert part.count(old) >= 1, ("no match", e)
    if not e.get("all"):
        assert part.count(old) == 1, ("matches", part.count(old), e)
    part = part.replace(old, new)
    with open(path, "w") as f:
        f.write(text[:lo] + part + text[hi:])


def sh(cmd, cwd, timeout=300):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tests_ok(root):
    # The suite, run against the copy.
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=root)
    r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=root, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode == 0, r.stdout[-1500:]


def main(ids):
    import bugs
    import bugs_more  # noqa: F401
    import bugs_third  # noqa: F401
    import bugs_fourth  # noqa: F401
    import bugs_fifth  # noqa: F401
    import bugs_sixth  # noqa: F401
    ok = True
    for b in bugs.BUGS:
        if ids and b["id"] not in ids:
            continue
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            root = os.path.join(tmp, "repo")
            shutil.copytree("/repo", root, symlinks=True)
            for e in b["edits"]:
                edit(root, e)
            diff = sh(["git", "diff"], root).stdout
            t, out = tests_ok(root)
            if not t:
                print(b["id"], "REJECTED: tests fail\n", out[-700:])
                ok = False
                continue
            dst = os.path.join(VERIF, "seeded", b["id"])
            os.makedirs(dst, exist_ok=True)
            demo = os.path.join(dst, "demo.sh")
            with open(demo, "w") as f:
                f.write("#!/bin/bash\nset -e\nexport PYTHONDONTWRITEBYTECODE=1\n"
                        "PYTHONPATH=\"$PWD\" timeout 120 /opt/venv/bin/python -B - <<'E'\n"
                        + b["demo"].strip("\n") + "\nE\n")
            os.chmod(demo, 0o755)
            a = sh(["bash", demo], "/repo")
            p = sh(["bash", demo], root)
            if a.returncode != 0 or p.returncode == 0:
                print(b["id"], "REJECTED: demo", a.returncode, p.returncode, a.stdout[-600:], p.stdout[-300:])
                shutil.rmtree(dst)
                ok = False
                continue
            with open(os.path.join(dst, "patch.diff"), "w") as f:
                f.write(diff)
            with open(os.path.join(dst, "meta.json"), "w") as f:
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
                f.write("\n")
            c = sh(["git", "apply", "--check", os.path.join(dst, "patch.diff")], "/repo")
            print(b["id"], "ok" if c.returncode == 0 else "PATCH DOES NOT APPLY")
        finally:
            shutil.rmtree(tmp)
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
