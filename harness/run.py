#!/opt/venv/bin/python
"""Driver: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--sub NAME]

exit 0  held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check itself failed (harness error)
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "JAX_PLATFORMS": "cpu", "PYTHONNOUSERSITE": "1",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "TF_CPP_MIN_LOG_LEVEL": "3",
       "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
       "HYPOTHESIS_STORAGE_DIRECTORY": "/dev/null/hypothesis", "MPLBACKEND": "Agg"}
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def reexec():
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        env = dict(os.environ, **ENV)
        os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv, env)


def load(prop):
    import core
    core.bootstrap()
    return importlib.import_module("props." + prop.lower())


def worker(prop, sub, tier, seed, shard, out):
    import core
    mod = load(prop)
    s = next(x for x in mod.SUBS if x.name == sub)
    core.run_sub(s, tier, seed, shard, out)


def replay_one(prop, path):
    import core
    d = json.load(open(path))
    mod = load(prop)
    s = next(x for x in list(mod.SUBS) + list(getattr(mod, "KNOWN_SUBS", [])) if x.name == d["sub"])
    rec = core.Recorder()
    try:
        if d.get("aggregate"):
            for c in d["cases"]:
                s.run(c, rec)
            s.finalize(rec.metrics)
        else:
            s.run(d["case"], rec)
    except core.Violation as e:
        return str(e)
    return None


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))["findings"] if x["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--worker", nargs=3)
    a = ap.parse_args()
    if a.selftest:
        sys.path.insert(0, HERE)
        import core
        core.bootstrap()
        import hypothesis, jax, mpmath, scipy, VBBinaryLensing, VBMicrolensing, astropy, microjax   # noqa
        print("tools present; code under test:", os.path.dirname(microjax.__file__))
        return 0
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    sys.path.insert(0, HERE)
    if a.worker:
        if a.worker[0] == "KNOWN":
            kf = known(prop)[int(a.worker[1])]
            with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
                json.dump({"sub": kf["sub"], "case": kf["case"]}, f)
                f.flush()
                msg = replay_one(prop, f.name)
            json.dump({"msg": msg}, open(a.worker[2], "w"))
        else:
            worker(prop, a.worker[0], tier, seed, int(a.worker[1]), a.worker[2])
        return 0
    if a.replay:
        msg = replay_one(prop, a.replay)
        if msg:
            print("reproduced:", msg)
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("the replayed case holds")
        return 0

    t0 = time.time()
    import core
    mod = load(prop)
    subs = [s for s in mod.SUBS if not a.sub or s.name == a.sub]
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    jobs = []
    for i, s in enumerate(subs):
        for sh in range(s.nshards(tier)):
            jobs.append((s.name, sh, os.path.join(tmp, f"{i}_{sh}.json")))
    # interleave so that no sub-check is starved: heavy ones are listed first in modules
    kjobs = [] if a.sub else [("KNOWN", i, os.path.join(tmp, f"k_{i}.json")) for i in range(len(known(prop)))]
    queue = jobs + kjobs
    running = []
    logs = {}
    while queue or running:
        while queue and len(running) < NPROC:
            j = queue.pop(0)
            log = open(j[2] + ".log", "w")
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, "--tier", tier, "--worker",
                                  str(j[0]), str(j[1]), j[2]], stdout=log, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL)
            running.append((p, j, log))
        for r in list(running):
            if r[0].poll() is not None:
                running.remove(r)
                r[2].close()
                logs[r[1][2]] = r[0].returncode
        time.sleep(0.05)

    errors, violations, agg = [], [], {}
    lines = []
    for name, sh, path in jobs:
        if not os.path.exists(path):
            tail = open(path + ".log").read()[-1500:]
            errors.append(f"{name}[{sh}]: worker died rc={logs.get(path)}: {tail}")
            continue
        r = json.load(open(path))
        g = agg.setdefault(name, {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "metrics": {},
                                  "seen": set(), "cases": 0, "skipped": 0, "all_cases": [], "wall": 0.0})
        g["evaluations"] += r["evaluations"]
        g["cases"] += r["cases"]
        g["skipped"] += r["skipped"]
        g["wall"] = max(g["wall"], r["wall"])
        if r["seen"] is not None:
            g["seen"] |= set(r["seen"])
            g["nontrivial"] = len(g["seen"])
        else:
            g["nontrivial"] += r["nontrivial"]
        for k, v in r["labels"].items():
            g["labels"][k] = g["labels"].get(k, 0) + v
        for k, v in r["metrics"].items():
            g["metrics"].setdefault(k, []).extend(v)
        if len(g["samples"]) < 6:
            g["samples"] += r["samples"][-3:]
        if r["all_cases"]:
            g["all_cases"] += r["all_cases"]
        if r["error"]:
            errors.append(f"{name}[{sh}]: {r['error']}")
        if r["violation"]:
            violations.append((name, r["violation"]["msg"], {"property": prop, "sub": name, "message": r["violation"]["msg"],
                                                            "case": r["violation"]["case"], "seed": seed, "tier": tier}))
    for s in subs:
        if s.finalize and s.name in agg:
            try:
                s.finalize(agg[s.name]["metrics"])
            except core.Violation as e:
                violations.append((s.name, str(e), {"property": prop, "sub": s.name, "message": str(e), "aggregate": True,
                                                    "cases": agg[s.name]["all_cases"], "seed": seed, "tier": tier}))
    kf = known(prop)
    for _, i, path in kjobs:
        if not os.path.exists(path):
            errors.append(f"known finding {i}: worker died: " + open(path + ".log").read()[-1500:])
            continue
        msg = json.load(open(path))["msg"]
        if msg:
            lines.append(f"KNOWN-FINDING: property={prop} {kf[i]['what']}")
    listed = {core.canon({"sub": k["sub"], "case": k["case"]}) for k in kf}
    violations = [v for v in violations if v[2].get("aggregate") or
                  core.canon({"sub": v[0], "case": v[2]["case"]}) not in listed]

    coverage = {
        "evaluations": sum(g["evaluations"] for g in agg.values()),
        "distinct_nontrivial": sum(g["nontrivial"] for g in agg.values()),
        "rule": " | ".join(f"{s.name}: {s.rule}" for s in subs),
        "samples": [{"sub": n, "input": x} for n, g in agg.items() for x in g["samples"][:3]][:40],
        "sub_checks": {n: {"cases": g["cases"], "evaluations": g["evaluations"], "distinct_nontrivial": g["nontrivial"],
                           "cases_skipped_by_time_budget": g["skipped"], "labels": g["labels"],
                           "metrics": {k: _stats(v) for k, v in g["metrics"].items()}, "wall_s": round(g["wall"], 1)}
                       for n, g in agg.items()},
        "known_findings_reproduced": len(lines),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    if not a.sub:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=core._default)
    for n, g in agg.items():
        st = "; ".join(f"{k}: " + ", ".join(f"{a}={b:.2g}" for a, b in _stats(v).items()) for k, v in g["metrics"].items())
        print(f"[{prop}] {n}: {g['cases']} cases, {g['evaluations']} evaluations, {g['nontrivial']} distinct non-trivial, "
              f"{g['wall']:.1f}s {g['labels'] if g['labels'] else ''} {st}")
    for l in lines:
        print(l)
    rc = 0
    if violations:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (name, msg, rep) in enumerate(violations):
            path = os.path.join(d, f"{prop}-{name}-{i}.json")
            json.dump(rep, open(path, "w"), indent=1, default=core._default)
            print(f"{name}: {msg}")
            if not rep.get("aggregate"):
                print("  case:", json.dumps(rep["case"])[:600])
            print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif errors:
        rc = 2
    for e in errors:
        print("HARNESS ERROR", e, file=sys.stderr)
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    print(f"[{prop}] {tier}: {'ok' if rc == 0 else 'VIOLATION' if rc == 1 else 'ERROR'} in {time.time() - t0:.1f}s")
    return rc


def _stats(v):
    import numpy as np
    x = np.array([a for a, _ in v], float)
    if len(x) == 0:
        return {}
    return {"n": len(x), "p50": float(np.percentile(x, 50)), "p90": float(np.percentile(x, 90)),
            "p99": float(np.percentile(x, 99)), "max": float(x.max())}


if __name__ == "__main__":
    reexec()
    sys.exit(main())
