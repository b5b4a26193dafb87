#!/usr/bin/env python3
"""Decide one property:  run.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
   run.py --replay FILE                re-run one recorded session and show the verdicts"""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gen
import tlc

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TRACE_CFG = "INIT Init\nNEXT Next\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n"
CORES = 8


def record(sessions, work, name):
    src, dst = f"{work}/{name}.json", f"{work}/{name}.ndjson"
    with open(src, "w") as f:
        json.dump([s["calls"] for s in sessions], f)
    env = dict(os.environ, JAX_ENABLE_X64="1", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, f"{HERE}/record.py", src, dst], capture_output=True, text=True, env=env, cwd=work, timeout=850)
    if r.returncode:
        raise tlc.Broken("record.py: " + r.stderr[-3000:])
    return dst


def judge(trace, work):
    n = sum(1 for _ in open(trace))
    if n == 0:
        return [], (0, 0), 0
    lines = tlc.run("Trace", TRACE_CFG, env={"TRACE": trace}, work=work, heap="2g", timeout=850)
    v, done = tlc.verdicts(lines)
    if done != n:
        raise tlc.Broken(f"trace judged to {done} of {n}")
    return v, tlc.counts(lines), n


def shard(groups, k):
    """groups: lists of sessions sharing compiled code, with a cost; balance over k workers"""
    bins = [[0.0, []] for _ in range(k)]
    for g in sorted(groups, key=lambda g: -g["cost"]):
        b = min(bins, key=lambda b: b[0])
        b[0] += g["cost"]
        b[1].extend(g["sessions"])
    return [b[1] for b in bins if b[1]]


def known(prop):
    p = f"{ROOT}/known_findings.json"
    return [k for k in json.load(open(p))["known"] if k["property"] == prop] if os.path.exists(p) else []


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = gen.PROPS[prop]
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    rep = f"{ROOT}/evidence/replay"
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + "-"):
            os.remove(f"{rep}/{f}")
    try:
        tlc.build()
        # 1. the specification on its own
        models, scn = [], {}
        todo = spec["models"](tier)
        with ThreadPoolExecutor(4) as ex:
            per = max(1, CORES // max(1, min(4, len(todo))))
            fs = [(m, ex.submit(tlc.run, m["module"], m["cfg"], None, m.get("workers", per), m.get("heap", "4g"), 850, work,
                                m.get("simulate")))
                  for m in todo]
            for m, f in fs:
                lines = f.result()
                models.append((m["module"], tlc.counts(lines)))
                scn.setdefault(m.get("as", m["module"]), []).extend(tlc.scenarios(lines))
        t1 = time.time()
        # 2. the real code, 3. the specification against the real code
        rng = random.Random(f"{prop}-{tier}-{seed}")
        groups = spec["gen"](rng, tier, scn)
        groups += [dict(cost=4, sessions=[dict(label="known finding " + k["id"], calls=k["calls"], known=k["id"])]) for k in known(prop)]
        shards = shard(groups, CORES)

        def pipe(i):
            tr = record(shards[i], work, f"s{i}")
            v, c, n = judge(tr, work)
            return tr, v, c, n
        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(pipe, range(len(shards))))
        # verdicts
        kn = known(prop)
        bad, seen_known, events, clauses, worst = {}, {}, 0, {}, {}
        tstates = ttrans = checks = 0
        for (tr, v, c, n), sess in zip(res, shards):
            ev = [json.loads(l) for l in open(tr)]
            events += n
            tstates += c[1]
            ttrans += max(0, c[0] - 1)
            checks += len(v)
            for ok, i, clause, mag, tol in v:
                clauses[clause] = clauses.get(clause, 0) + 1
                s = sess[ev[i]["at"][0]]
                if ok:
                    if tol < 0:
                        worst[clause] = max(worst.get(clause, -99), mag)
                    continue
                hit = [k for k in kn if k["id"] == s.get("known") and clause in k["clauses"] and (k["magnitudes"] == "any" or mag in k["magnitudes"])]
                if hit:
                    seen_known.setdefault(hit[0]["id"], hit[0])
                    continue
                key = (id(s))
                bad.setdefault(key, (s, []))[1].append(dict(call=ev[i]["at"][1], clause=clause, error=describe(mag),
                                                           allowed=f"1e{tol}", exception=ev[i].get("exc", "")))
        nsess = sum(len(s) for s in shards)
        for k in seen_known.values():
            print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
        for j, (s, fs) in enumerate(list(bad.values())[:50]):
            path = f"{rep}/{prop}-{j}.json"
            with open(path, "w") as f:
                json.dump(dict(property=prop, label=s["label"], failures=fs, calls=s["calls"]), f, indent=1)
            if j < 10:
                f0 = fs[0]
                print(f"VIOLATION property={prop} replay={path} [{s['label']}] {f0['clause']}: {f0['error']} {f0['exception']}")
        samples = []
        for (tr, v, c, n), sess in list(zip(res, shards))[:3]:
            samples.append(dict(label=sess[0]["label"], calls=sess[0]["calls"][:3]))
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1),
                  violations=len(bad),
                  coverage=dict(
                      states=sum(c[1] for _, c in models) + tstates, transitions=sum(max(0, c[0] - c[1]) + c[1] for _, c in models) + ttrans,
                      traces_validated_against_impl=nsess, trace_events=events, replies_compared=checks,
                      models=[dict(module=m, generated=c[0], distinct=c[1]) for m, c in models],
                      behaviours_from_spec={k: len(v) for k, v in scn.items() if v},
                      clauses=clauses, worst_error_log10=worst, known_findings=sorted(seen_known),
                      groups=len(groups), samples=samples),
                  assumptions=spec.get("assumptions", []))
        with open(f"{ROOT}/evidence/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{prop} {tier} seed={seed}: {nsess} sessions, {events} calls, {checks} comparisons, "
              f"{ev['coverage']['states']} states, {len(bad)} violating sessions, models {t1 - t0:.0f}s, total {time.time() - t0:.0f}s")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def describe(mag):
    return {99: "a value that is not the specified one (or not a number)", 98: "raised", 97: "wrong shape"}.get(
        mag, f"relative error 1e{mag}")


def replay(path):
    tlc.build()
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        tr = record([dict(calls=d["calls"])], work, "r")
        v, _, _ = judge(tr, work)
        ev = [json.loads(l) for l in open(tr)]
        n = 0
        for ok, i, clause, mag, tol in v:
            if not ok:
                n += 1
                print("FAIL call", ev[i]["at"][1], ev[i]["ev"], clause, describe(mag), "allowed 1e%d" % tol, ev[i].get("exc", ""))
        print(f"{len(ev)} calls, {len(v)} comparisons, {n} failures")
        return 1 if n else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else main(sys.argv[1]))
    except (tlc.Broken, subprocess.TimeoutExpired) as e:
        print("ERROR", e)
        sys.exit(2)
