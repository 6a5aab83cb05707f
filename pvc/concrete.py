"""Concrete runs of the contracts on the uninstrumented code (own process)."""
from __future__ import annotations

import json
import os
import random
import re
import sys
import time
import traceback


BUILTIN = "(NoneType|tuple|list|dict|int|float|str|bool|numpy.ndarray|numpy.float64)"
SHAPE = re.compile(rf"'{BUILTIN}' object|of type '{BUILTIN}' |must be .*, not '?{BUILTIN}|values to unpack|cannot unpack non-iterable {BUILTIN}|not supported between instances|operand type\(s\) for")


def run_one(h, rng, values=None):
    """-> ('ok'|'reject'|'fail'|'harness', info)"""
    from .ctx import ConCtx, Fail, Reject, Structural
    from .settle import settled

    c = ConCtx(rng, values)
    try:
        if c.bool("__settled__") and getattr(h, "settle", True):
            with settled(h, c):
                h.f(c)
        else:
            h.f(c)
        return "ok", c, None
    except Reject:
        return "reject", c, None
    except Fail as e:
        return "fail", c, {"obligation": e.name, "detail": e.detail}
    except Structural as e:
        return "harness", c, {"obligation": "harness", "detail": str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        if not any("/contracts/" not in f.filename and "/pvc/" not in f.filename and "/contextlib" not in f.filename for f in tb) and SHAPE.search(str(e)):
            # the harness takes a result of the code apart: it is not of the promised kind
            return "fail", c, {"obligation": "results are of the promised kind", "detail": f"{type(e).__name__}: {e} at {last.filename}:{last.lineno}"}
        if "/contracts/" in last.filename and isinstance(e, (ImportError, AttributeError, NameError)):
            return "harness", c, {"obligation": "harness", "detail": f"{type(e).__name__}: {e} at {last.filename}:{last.lineno}"}
        if isinstance(e, TypeError) and ("/contracts/" in last.filename or stand_in_called_by_keyword(e)):
            return "harness", c, {"obligation": "harness", "detail": f"{type(e).__name__}: {e} at {last.filename}:{last.lineno}"}
        return (
            "fail",
            c,
            {
                "obligation": f"no unexpected {type(e).__name__}",
                "detail": f"{type(e).__name__}: {e} at {last.filename}:{last.lineno}",
            },
        )


def stand_in_called_by_keyword(e):
    """The code calls a stand-in of the harness with a keyword its signature does not have: says nothing about the code."""
    m = re.match(r"([\w.<>]+)\(\) got an unexpected keyword argument", str(e))
    if not m:
        return False
    if "<locals>" in m[1]:
        return True
    return any(hasattr(v, m[1].split(".")[0]) for k, v in list(sys.modules.items()) if k.startswith("contracts."))


def sample(h, seed, n, seconds, given=()):
    """Counter-models first, then n seeded samples.  Stops at the first failure."""
    import zlib

    t0 = time.time()
    res = {"harness": h.name, "evaluations": 0, "accepted": 0, "rejected": 0, "checked": 0, "fail": None, "structural": None,
           "names": []}
    names = set()
    keys = set()
    base = zlib.crc32(h.name.encode()) ^ (seed * 2654435761 & 0xFFFFFFFF)
    jobs = []
    for g in given:
        jobs.append((g, 1))
        jobs.append((dict(g), 2))
    i = 0
    tries = odd = 0
    last, mixed = None, 0
    while True:
        if jobs:
            vals, kind = jobs.pop(0)
            src = "counter-model"
        else:
            if res["accepted"] >= n or time.time() - t0 > seconds or tries > 60 * n + 200:
                break
            vals, src = None, "sample"
            tries += 1
        i += 1
        rng = random.Random(base + i * 7919)
        before = None
        if vals is None and last and tries % 2 == 0:
            # a history: some of the inputs of the run before are met again, others differ
            keep = rng.choice((0.3, 0.6, 0.9))
            vals, before, src = {k: v for k, v in last.items() if rng.random() < keep}, last, "history"
        st, c, info = run_one(h, rng, vals)
        res["evaluations"] += 1
        if st == "reject":
            res["rejected"] += 1
            continue
        if st == "harness":
            res["structural"] = res["structural"] or info["detail"]
            odd += 1
            if odd > 25:
                break
            continue
        if st == "ok":
            res["accepted"] += 1
            last = dict(c.used)
            res["checked"] += c.checked
            names |= c.names
            keys.add(tuple(sorted((k, str(v)[:12]) for k, v in c.used.items())))
            if "sample" not in res and c.used:
                res["sample"] = {k: v for k, v in list(c.used.items())[:12]}
            continue
        info.update(inputs=c.used, source=src)
        if before:
            info["before"] = before
        res["fail"] = info
        break
    res["names"] = sorted(names)
    res["distinct"] = len(keys)
    res["wall"] = time.time() - t0
    return res


def main():
    from . import env

    env.setup(False)
    import resource

    job = json.load(sys.stdin)
    env.load_contracts(job["prop"])
    from .ctx import HARNESSES

    hs = {h.name: h for h in HARNESSES if h.prop == job["prop"]}
    names = job["harnesses"]
    from concurrent.futures import ProcessPoolExecutor, as_completed
    import multiprocessing as mp

    out = {}
    real = os.dup(1)
    os.dup2(2, 1)
    q = mp.get_context("fork")
    procs = {}
    import tempfile
    import shutil

    d = tempfile.mkdtemp(prefix="pvc_con_")
    try:
        pending = list(names)
        while pending or procs:
            while pending and len(procs) < job.get("jobs", 4):
                nm = pending.pop(0)
                pr = q.Process(target=_work, args=(hs[nm], job, os.path.join(d, nm + ".json")))
                pr.start()
                procs[nm] = (pr, time.time())
            for nm, (pr, t0) in list(procs.items()):
                pr.join(0.02)
                if not pr.is_alive() or time.time() - t0 > job["seconds"] * 2 + 60:
                    if pr.is_alive():
                        pr.kill()
                        pr.join()
                    procs.pop(nm)
                    f = os.path.join(d, nm + ".json")
                    if os.path.exists(f):
                        out[nm] = json.load(open(f))
                    else:
                        out[nm] = {"harness": nm, "evaluations": 0, "accepted": 0, "rejected": 0, "checked": 0, "fail": None,
                                   "structural": "concrete run ended without a result", "names": [], "distinct": 0, "wall": 0}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    os.write(real, json.dumps(out, default=str).encode())


def _work(h, job, path):
    import tempfile
    import shutil

    wd = tempfile.mkdtemp(prefix="pvc_cw_")
    os.chdir(wd)
    tempfile.tempdir = wd
    try:
        r = sample(h, job["seed"], int(h.samples * job["mult"]), job["seconds"], job.get("given", {}).get(h.name, []))
        with open(path + ".tmp", "w") as f:
            json.dump(r, f, default=lambda o: float(o) if hasattr(o, "__float__") else str(o))
        os.rename(path + ".tmp", path)
    finally:
        os.chdir("/")
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    main()
