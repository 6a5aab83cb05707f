"""python -m pvc.check C01 : decide one property on /repo's current tree."""
from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

from . import env


def sym_worker(h, tier, path):
    from .run import Run

    try:
        import resource

        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    wd = tempfile.mkdtemp(prefix="pvc_sw_")
    os.chdir(wd)
    tempfile.tempdir = wd
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    r = Run(h, tier)
    try:
        r.run()
    finally:
        os.chdir("/")
        import shutil

        shutil.rmtree(wd, ignore_errors=True)
    from . import models

    out = {
        "harness": h.name,
        "obs": r.obs,
        "refuted": r.refuted,
        "undecided": sorted(set(r.undecided)),
        "bounded": sorted(r.bounded),
        "assumptions": sorted(r.assumptions),
        "paths": r.paths,
        "stats": r.stats,
        "backends": r.backends,
    }
    with open(path + ".tmp", "w") as f:
        json.dump(out, f, default=str)
    os.rename(path + ".tmp", path)


def run_symbolic(hs, tier, jobs, d):
    ctx = mp.get_context("fork")
    pending = sorted(hs, key=lambda h: -h.limits.get("weight", 1))
    procs, out = {}, {}
    while pending or procs:
        while pending and len(procs) < jobs:
            h = pending.pop(0)
            f = os.path.join(d, h.name + ".sym.json")
            p = ctx.Process(target=sym_worker, args=(h, tier, f))
            p.start()
            procs[h.name] = (p, time.time(), f, h)
        for nm, (p, t0, f, h) in list(procs.items()):
            p.join(0.02)
            lim = (h.limits.get("max_seconds", 150) * (3 if tier == "thorough" else 1)) + 60
            if not p.is_alive() or time.time() - t0 > lim:
                dead = p.is_alive()
                if dead:
                    p.kill()
                    p.join()
                procs.pop(nm)
                if os.path.exists(f):
                    out[nm] = json.load(open(f))
                else:
                    out[nm] = {
                        "harness": nm, "obs": [], "refuted": [], "bounded": [], "assumptions": [], "paths": 0,
                        "undecided": ["verifier process " + ("timed out" if dead else f"ended with {p.exitcode}")],
                        "stats": {"solver_s": 0.0, "feas_time": 0.0, "feas_queries": 0, "wall": time.time() - t0},
                        "backends": {},
                    }
    return out


def concrete(prop, names, seed, mult, seconds, given, jobs, replay=None):
    job = {"prop": prop, "harnesses": names, "seed": seed, "mult": mult, "seconds": seconds, "given": given, "jobs": jobs}
    e = dict(os.environ)
    p = subprocess.Popen(
        [sys.executable, "-m", "pvc.concrete"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
        cwd=env.VERIF, env=e,
    )
    p.stdin.write(json.dumps(job).encode())
    p.stdin.close()
    return p


def collect(p, names):
    out = p.stdout.read()
    p.wait()
    try:
        return json.loads(out)
    except Exception:
        return {
            n: {"harness": n, "evaluations": 0, "accepted": 0, "rejected": 0, "checked": 0, "fail": None,
                "structural": "concrete run gave no result", "names": [], "distinct": 0, "wall": 0}
            for n in names
        }


def load_known():
    f = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("kind") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--nocon", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    for k, v in dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PROJ_NETWORK="OFF", OMP_NUM_THREADS="1",
                     OPENBLAS_NUM_THREADS="1").items():
        os.environ[k] = v
    jobs = int(os.environ.get("PVC_JOBS", "8"))

    env.setup(True)
    load_err = None
    try:
        env.load_contracts(prop)
    except Exception as e:
        import traceback

        load_err = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
    from .ctx import HARNESSES
    from . import models

    hs = [h for h in HARNESSES if h.prop == prop and (not a.only or a.only in h.name)]
    if not hs:
        print(f"no contracts could be loaded for {prop}: {load_err}")
        write_evidence(prop, tier, seed, hs, {}, {}, t0, [], load_err, models)
        return 3
    names = [h.name for h in hs]
    mult = 1.0 if tier == "quick" else 10.0
    secs = 25 if tier == "quick" else 240
    con_p = None if a.nocon else concrete(prop, names, seed, mult, secs, {}, max(2, jobs // 3))
    with tempfile.TemporaryDirectory(prefix="pvc_") as d:
        sym = run_symbolic([h for h in hs if h.sym], tier, jobs, d)
    con = collect(con_p, names) if con_p else {}

    # replay counter-models on the real code
    given = {}
    for n, s in sym.items():
        vals = [r["values"] for r in s["refuted"]][:8]
        if s["refuted"] and not (con.get(n) or {}).get("fail"):
            given[n] = vals
    if given:
        p = concrete(prop, list(given), seed + 1000, mult * 8, secs * 3, given, jobs)
        con2 = collect(p, list(given))
        for n, r in con2.items():
            if r["fail"]:
                con[n] = r
    # structural trouble or undecided obligations: deeper concrete search (bounded stand-in)
    deep = [n for n in names if n not in given and not (con.get(n) or {}).get("fail")
            and ((sym.get(n) or {}).get("undecided") or (sym.get(n) or {}).get("bounded"))]
    if deep and not a.nocon:
        p = concrete(prop, deep, seed + 2000, mult * 5, secs * 1.5, {}, jobs)
        con3 = collect(p, deep)
        for n, r in con3.items():
            if r["fail"]:
                con[n] = r
            else:
                for k in ("evaluations", "accepted", "rejected", "checked", "distinct"):
                    con[n][k] = con.get(n, {}).get(k, 0) + r.get(k, 0)

    known = load_known()
    violations = []
    for h in hs:
        s, c = sym.get(h.name), con.get(h.name) or {}
        if c.get("fail"):
            f = c["fail"]
            violations.append(dict(harness=h.name, obligation=f["obligation"], detail=f["detail"], inputs=f["inputs"],
                                   replayed=True, source=f["source"], before=f.get("before"), solver=[r for r in (s or {}).get("refuted", [])]))
        elif s and s["refuted"]:
            hard = [r for r in s["refuted"] if r["status"] == "sat" and not r["approx"]]
            if hard:
                violations.append(dict(harness=h.name, obligation=hard[0]["name"], detail=hard[0]["goal"],
                                       inputs=hard[0]["values"], replayed=False, solver=s["refuted"]))
            else:
                s["undecided"] += [f"{r['name']}: refuted only over approximated terms, not reproduced" for r in s["refuted"]]
    rc = 0
    shown = []
    for v in violations:
        kf = [k for k in known if k["property"] == prop and k["harness"] == v["harness"] and k["obligation"] == v["obligation"]]
        if kf:
            print(f"KNOWN-FINDING: property={prop} {kf[0]['what']}")
            continue
        rd = os.path.join(env.VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{prop}-{v['harness']}.json")
        v["property"] = prop
        v["how_to_replay"] = f"cd /verif && /opt/venv/bin/python -m pvc.replay {rp}"
        json.dump(v, open(rp, "w"), indent=1, default=str)
        tail = "" if v["replayed"] else " no-failing-input-found"
        print(f"  {v['harness']}: obligation '{v['obligation']}' fails: {str(v['detail'])[:300]}")
        shown.append(f"VIOLATION property={prop} replay={rp}{tail}")
        rc = 1
    # replayed violations first
    shown.sort(key=lambda s: "no-failing" in s)
    if shown:
        print(shown[0])
        for s in shown[1:]:
            if "no-failing" not in s:
                print(s)
    write_evidence(prop, tier, seed, hs, sym, con, t0, violations, load_err, models)
    nob = sum(1 for s in sym.values() for o in s["obs"])
    ndis = sum(1 for s in sym.values() for o in s["obs"] if o["status"] == "unsat")
    print(f"{prop}: {len(hs)} contracts, {nob} obligations, {ndis} discharged, "
          f"{sum(c.get('accepted', 0) for c in con.values())} concrete runs, {time.time() - t0:.1f}s, "
          f"{'VIOLATED' if rc else 'held'}")
    if a.v:
        for n, s in sym.items():
            c = con.get(n, {})
            print("  ", n, "paths", s["paths"], "obs", len(s["obs"]), "ok", sum(o["status"] == "unsat" for o in s["obs"]),
                  "wall %.1f" % s["stats"].get("wall", 0), s["backends"], "con", c.get("accepted"), "/", c.get("evaluations"),
                  "%.1fs" % c.get("wall", 0), c.get("structural") or "")
            for u in s["undecided"][:6]:
                print("      undecided:", u)
            for u in s["bounded"]:
                print("      bounded:", u)
            for r in s["refuted"][:4]:
                print("      REFUTED:", r["name"], r["status"], r["goal"][:300], r["values"])
                for x in r["path"]:
                    print("           ", x)
            for o in s["obs"]:
                if o.get("s", 0) > 5:
                    print("      slow:", o["name"], o["s"], o["backend"])
    # vacuity: a contract with no obligation at all on a tree where nothing is undecided is an error of the machinery
    if rc == 0 and nob == 0 and not any(s["undecided"] for s in sym.values()) and any(h.sym for h in hs):
        print("no obligation was generated")
        return 3
    return rc


def write_evidence(prop, tier, seed, hs, sym, con, t0, violations, load_err, models):
    ob = dis = 0
    proved, bounded = [], []
    obl_list = []
    for h in hs:
        s = sym.get(h.name)
        if s is None:
            bounded.append({"contract": h.name, "why": "checked by concrete runs only" if not h.sym else "no verifier result"})
            continue
        is_b = h.bounded or s["bounded"]
        n = len(s["obs"])
        d = sum(o["status"] == "unsat" for o in s["obs"])
        if is_b:
            bounded.append({"contract": h.name, "bound": h.bounded or "; ".join(s["bounded"]), "obligations": n, "discharged": d,
                            "undecided": s["undecided"][:5]})
        else:
            ob += n
            dis += d
            if s["undecided"]:
                bounded.append({"contract": h.name, "why": s["undecided"][:8],
                                "stand_in": f"{con.get(h.name, {}).get('accepted', 0)} concrete runs"})
            else:
                proved.append(h.name)
        byname = {}
        for o in s["obs"]:
            e = byname.setdefault(o["name"], [0, 0])
            e[0] += 1
            e[1] += o["status"] == "unsat"
        obl_list.append({"contract": h.name, "functions": h.functions, "paths": s["paths"], "obligations": n, "discharged": d,
                         "back_ends": s["backends"], "solver_s": round(s["stats"]["solver_s"] + s["stats"]["feas_time"], 2),
                         "names": {k: f"{v[1]}/{v[0]}" for k, v in list(byname.items())[:60]}})
    be = {}
    for s in sym.values():
        for k, v in s["backends"].items():
            be[k] = be.get(k, 0) + v
    funcs = sorted({f for h in hs for f in h.functions})
    trusted = [f"{k}: {v}" for k, v in models.TRUSTED.items()] + sorted({t for h in hs for t in h.trusted})
    assum = sorted({x for s in sym.values() for x in s["assumptions"]})
    samples = [{"contract": n, "inputs": c.get("sample")} for n, c in con.items() if c.get("sample")][:4]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": ob, "discharged": dis,
            "checker_cmd": f"/opt/venv/bin/python -m pvc.check {prop} (VC generation from /repo/src, back ends z3, cvc5, algebra)",
            "trusted_base": trusted,
            "functions_under_contract": funcs,
            "contracts": obl_list,
            "fully_discharged_contracts": proved,
            "bounded_or_undecided": bounded,
            "back_ends": be,
            "solver_seconds": round(sum(s["stats"]["solver_s"] + s["stats"]["feas_time"] for s in sym.values()), 2),
            "evaluations": sum(c.get("evaluations", 0) for c in con.values()),
            "distinct_nontrivial": sum(c.get("distinct", 0) for c in con.values()),
            "rule": "concrete runs of the same contracts on the uninstrumented code: seeded inputs; non-trivial = satisfies the "
            "precondition and reaches a postcondition (cover check of the preconditions)",
            "samples": samples,
            "unreached_preconditions": [n for n, c in con.items() if not c.get("accepted") and not c.get("fail")],
        },
        "assumptions": assum + [f"precondition of {h.name}: see contracts" for h in hs[:0]],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if load_err:
        ev["coverage"]["load_error"] = load_err
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
