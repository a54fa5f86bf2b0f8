"""Development aid: plant a bug in a scratch copy, confirm that it breaks its
demonstration and passes the stable tests, store it under /verif/seeded, and
say whether the check catches it.  Used from small scripts:

  seed("P01-a", "P01", needs, breaks, [("classes/x.py", old, new[, k])], demo)
"""
import json, os, re, shutil, subprocess, sys, tempfile, textwrap
PY = "/opt/venv/bin/python"
BASE = os.environ.get("SEED_BASE", "/tmp/wrepo" if os.path.isdir("/tmp/wrepo") else "/repo")
HEAD = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys, warnings
warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np
import dsptoolbox as dsp
'''


def env(t):
    e = dict(os.environ, PYTHONPATH=f"{t}:/opt/vp/pytest_plugins", MPLBACKEND="Agg", PYTHONHASHSEED="0",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    return e


def stable(t, n=8):
    W = tempfile.mkdtemp()
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-n", str(n), "--dist", "loadfile",
                    "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={W}/j.xml", "tests"], cwd=t, env=env(t),
                   capture_output=True)
    subprocess.run(["python3", "/opt/vp/results.py", W + "/o.json", f"junit:{W}/j.xml"], capture_output=True)
    o = json.load(open(W + "/o.json"))
    shutil.rmtree(W)
    b = json.load(open("/opt/vp/BASELINE.json"))
    return [x for x in b["stable"] if x not in o["passed"]]


def seed(id, prop, needs, breaks, edits, demo, tests=True, checks=None):
    t = tempfile.mkdtemp(prefix="seed_") + "/repo"
    try:
        subprocess.run(["cp", "-a", BASE, t], check=True)
        subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."])
        d = f"/verif/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(HEAD)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(PRE + textwrap.dedent(demo))
        e = env(t)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=t, env=e, capture_output=True, text=True)
        for ed in edits:
            f, old, new = ed[:3]
            p = f"{t}/dsptoolbox/{f}"
            s = open(p).read()
            parts = s.split(old)
            if len(parts) < 2 or (len(parts) > 2 and len(ed) < 4):
                print(id, "edit matches", len(parts) - 1, "times:", old)
                shutil.rmtree(d)
                return
            k = ed[3] if len(ed) > 3 else 0
            open(p, "w").write(old.join(parts[: k + 1]) + new + old.join(parts[k + 1:]))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=t, env=e, capture_output=True, text=True)
        if r0.returncode != 0 or r1.returncode == 0:
            print(id, "DEMO BAD", r0.returncode, r1.returncode, r0.stderr[-600:], r1.stdout[-300:])
            shutil.rmtree(d)
            return
        # lines must be original ones
        fixed = set(l[1:] for l in subprocess.run(["git", "-C", BASE, "diff", "3a2420f", "HEAD"], capture_output=True, text=True).stdout.splitlines() if l.startswith("+"))
        mine = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] in fixed and l[1:].strip()]
        if mine:
            print(id, "touches lines of fixes:", mine)
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        bad = stable(t) if tests else []
        if bad:
            print(id, "TESTS FAIL", bad)
            shutil.rmtree(d)
            return
        ev = tempfile.mkdtemp()
        res = []
        for p in checks or [prop]:
            rc = subprocess.run([PY, "/verif/check.py", p], env=dict(os.environ, VERIF_REPO=t, VERIF_EVIDENCE=ev, VERIF_SEED="1"), capture_output=True, text=True)
            res.append(p + ":" + {0: "MISSED", 1: "caught"}.get(rc.returncode, f"ERR {rc.returncode} {rc.stderr[-500:]}"))
        shutil.rmtree(ev)
        print(id, *res, flush=True)
    finally:
        shutil.rmtree(os.path.dirname(t))
