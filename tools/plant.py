#!/usr/bin/env python3
"""plant.py try            : tests of the changed copy in /tmp/wt
   plant.py keep <id>      : /tmp/wt's change -> seeded/<id>/patch.diff, after confirming demo.sh and the tests
   plant.py check <id> [C..]: runs checks (default: the property of meta.json) against the change, in a scratch copy
   plant.py all            : every seeded change against the check of its property"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=900)


def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", path], check=True)
    sh(["git", "checkout", "-q", "--", "."], path)


def tests(path):
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "foronoi/tests/unit.py"], path, PYTHONPATH=path)
    return r.returncode == 0, r.stdout[-1500:]


def demo(i, path):
    r = sh(["bash", os.path.join(V, "seeded", i, "demo.sh")], path)
    return r.returncode, (r.stdout + r.stderr)[-800:]


def apply(i, path):
    fresh(path)
    r = sh(["git", "apply", os.path.join(V, "seeded", i, "patch.diff")], path)
    assert r.returncode == 0, r.stderr


def check(i, props=None, quiet=False):
    path = tempfile.mkdtemp(prefix="plant-")
    try:
        apply(i, path + "/repo")
        props = props or [json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]]
        for p in props:
            r = sh([os.path.join(V, "check.sh"), p], V, FORONOI_REPO=path + "/repo", VERIF_TIER="quick", VERIF_SEED="1")
            m = re.search(r"failed clauses: (.*)", r.stdout)
            print("%-28s %s exit %d %s" % (i, p, r.returncode, m.group(1)[:120] if m else (r.stderr[-300:] if r.returncode not in (0, 1) else "")), flush=True)
    finally:
        shutil.rmtree(path, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "fresh":
        fresh(WT)
    elif a[0] == "try":
        print(sh(["git", "diff", "--stat"], WT).stdout)
        ok, out = tests(WT)
        print("tests", "pass" if ok else "FAIL " + out)
    elif a[0] == "keep":
        i = a[1]
        d = os.path.join(V, "seeded", i)
        ok, out = tests(WT)
        rc0, o0 = demo(i, "/repo")
        rc1, o1 = demo(i, WT)
        print("tests", ok, "demo unchanged", rc0, "changed", rc1, "|", o1[-300:])
        if not ok or rc0 != 0 or rc1 == 0:
            print("NOT KEPT", out if not ok else "", o0 if rc0 else "")
            sys.exit(1)
        json.load(open(os.path.join(d, "meta.json")))
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(sh(["git", "diff"], WT).stdout)
        fresh(WT)
    elif a[0] == "check":
        check(a[1], a[2:] or None)
    elif a[0] == "all":
        for i in sorted(os.listdir(os.path.join(V, "seeded"))):
            if not a[1:] or any(i.startswith(x) for x in a[1:]):
                check(i)
