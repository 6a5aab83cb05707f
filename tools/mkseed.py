"""Development tool: builds seeded/<id> from tools/seeds/<id>.py (variables PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO),
after confirming in a scratch copy that the change passes the stable tests and that the demonstration tells the trees apart,
and reports what the property's check says about it.   python tools/mkseed.py ID..."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0: the property's behaviour is there; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(sid, quick):
    ns = {}
    exec(open(os.path.join(HERE, "seeds", sid + ".py")).read(), ns)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        d = os.path.join(VERIF, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip())
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(w, "src"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        r0 = sh(["bash", os.path.join(d, "demo.sh")], w, env)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(w, "src/aws/osml", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff", "--", "src"], w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r1 = sh(["bash", os.path.join(d, "demo.sh")], w, env)
        msg = [f"demo {r0.returncode}/{r1.returncode}"]
        if r0.returncode or not r1.returncode:
            msg.append("DEMO BAD " + (r0.stdout if r0.returncode else r1.stdout)[-600:])
        if not quick:
            x = os.path.join(tmp, "j.xml")
            sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "pytest_asyncio.plugin", "--timeout=300",
                "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x], w,
               dict(env, PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PROJ_NETWORK="OFF"))
            out = os.path.join(tmp, "o.json")
            sh(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + x], w)
            missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(out))["passed"])
            msg.append("tests ok" if not missing else f"TESTS BREAK {sorted(missing)[:3]}")
        c = sh([PY, "-m", "pvc.check", ns["PROPERTY"]], VERIF, dict(os.environ, PVC_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        msg.append(("caught " if c.returncode == 1 and v else "MISSED ") + f"rc={c.returncode} {v[:1]}")
        print(f"{sid} [{ns['PROPERTY']}]:", "; ".join(msg), flush=True)
    finally:
        shutil.rmtree(tmp)


a = [x for x in sys.argv[1:] if x != "-q"]
if not a:
    a = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "seeds")) if f.endswith(".py"))
for s in a:
    build(s, "-q" in sys.argv)
