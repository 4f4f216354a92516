"""Build and confirm planted changes: python plant.py DEFS.py [id ...]

DEFS.py defines BUGS = {id: dict(property=, needs=, what=, edits=[(file, old, new)], demo=<python source>)}.
For each: copy /repo, apply the edits, run the stable tests, run the demonstration on both trees, run the
property's quick check on the changed tree; write /verif/seeded/<id>/ when everything but the last is confirmed.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport MPLBACKEND=Agg TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$d/demo.py"\n'


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return 124, "timeout " + (x.stdout or b"").decode(errors="replace")


def one(bid, b, checks):
    root = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    tree = os.path.join(root, "repo")
    out = [bid]
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tree])
        for f, old, new in b["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s EDIT-FAILS %s (%d matches)" % (bid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=tree).decode()
        d = os.path.join(root, "seed"); os.mkdir(d)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        rc0, o0 = sh([d + "/demo.sh"], cwd="/repo", timeout=300)
        rc1, o1 = sh([d + "/demo.sh"], cwd=tree, timeout=300)
        rct, ot = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=tree,
                     env={"PYTHONPATH": tree, "MPLBACKEND": "Agg"}, timeout=600)
        tail = ot.strip().splitlines()[-1] if ot.strip() else ""
        fails = sorted(l.split(" ")[1] for l in ot.splitlines() if l.startswith("FAILED"))
        ok = rc0 == 0 and rc1 != 0 and rc1 != 124 and fails in (BASEFAILS, []) and "50 passed" in tail or (rc0 == 0 and rc1 == 124 and b.get("hang"))
        out.append("demo %d/%d tests[%s]%s" % (rc0, rc1, tail, "" if fails == BASEFAILS else str(fails)))
        if not ok:
            out.append("NOT-CONFIRMED\n--clean:\n%s\n--patched:\n%s" % (o0[-800:], o1[-800:]))
        else:
            t = os.path.join(V, "seeded", bid); shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(os.path.join(d, f), t)
            open(t + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(t + "/meta.json", "w"), indent=1)
            for c in checks or [b["property"]]:
                rc, o = sh([V + "/check.sh", c], cwd=V, env={"BARTPY_REPO": tree, "VERIF_EVIDENCE_DIR": root})
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                out.append("%s rc=%d %s" % (c, rc, "CAUGHT" if rc == 1 and v else "MISSED " + o[-300:]))
                if rc == 1:
                    w = [l for l in o.splitlines() if "violation" in l.lower()][:2]
                    out.append("   " + " | ".join(x[:200] for x in w))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return "\n   ".join(out)


def rerun(bid, checks):
    """Run checks against a planted change that is already in seeded/."""
    root = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    tree = os.path.join(root, "repo")
    d = os.path.join(V, "seeded", bid)
    out = [bid]
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tree])
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=tree)
        for c in checks or [json.load(open(d + "/meta.json"))["property"]]:
            rc, o = sh([V + "/check.sh", c], cwd=V, env={"BARTPY_REPO": tree, "VERIF_EVIDENCE_DIR": root + "/ev"})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            out.append("%s rc=%d %s %s" % (c, rc, "CAUGHT" if rc == 1 and v else "MISSED", o.strip().splitlines()[-1][-160:]))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return "  ".join(out)


if __name__ == "__main__":
    if sys.argv[1] == "rerun":
        checks = [a for a in sys.argv[2:] if a[0] == "C" and a[1:].isdigit()]
        ids = [a for a in sys.argv[2:] if a not in checks] or sorted(os.listdir(V + "/seeded"))
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda i: rerun(i, checks), ids):
                print(r, flush=True)
        sys.exit(0)
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    args = sys.argv[2:]
    checks = [a for a in args if a[0] == "C" and a[1:].isdigit()]
    ids = [a for a in args if a not in checks] or list(bugs)
    rc, ot = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd="/repo", env={"MPLBACKEND": "Agg", "PYTHONPATH": "/repo", "PYTHONDONTWRITEBYTECODE": "1"})
    BASEFAILS = sorted(l.split(" ")[1] for l in ot.splitlines() if l.startswith("FAILED"))
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: one(i, bugs[i], checks), ids):
            print(r, flush=True)
