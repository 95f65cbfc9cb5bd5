"""Entry point: decide one property.

usage: run.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--jobs N]
       run.py --replay FILE
"""

from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"


def _work(args, report=None):
    key, opts = args
    from vf import api
    from vf.symbolic import Run

    r = Run(api.SCENARIOS[key], opts)
    r.report = report
    t = time.time()
    try:
        r.explore()
    except BaseException as e:  # noqa: BLE001
        import traceback

        r.undecided.append(f"{key}: engine error {type(e).__name__}: {e}")
        r.stats.undecided += 1
        traceback.print_exc()
    d = r.result()
    d["wall_s"] = time.time() - t
    return d


def _child(conn, key, opts):
    try:
        conn.send(("done", _work((key, opts), lambda d: conn.send(("part", d)))))
    finally:
        conn.close()
        os._exit(0)


def run_all(keys, opts, jobs, on_result):
    """One process per scenario; a process which overruns its budget is ended."""
    from multiprocessing.connection import wait

    from vf import api, symbolic

    cx = mp.get_context("fork")
    todo, running = list(keys), {}

    def finish(conn, extra=None):
        key, proc, _end, t, part = running.pop(conn)
        if extra is not None:
            if part is None:
                part = symbolic.Run(api.SCENARIOS[key], opts).result()
            part["undecided"].append(f"{key.split(':', 1)[1]}: {extra}")
            part["stats"]["undecided"] = part["stats"].get("undecided", 0) + 1
            part["complete"] = False
            part["wall_s"] = time.time() - t
        if proc.is_alive() and extra is not None:
            proc.kill()
        proc.join(10)
        conn.close()
        on_result(part)

    while todo or running:
        while todo and len(running) < jobs:
            key = todo.pop(0)
            r, w = cx.Pipe(False)
            p = cx.Process(target=_child, args=(w, key, opts), daemon=True)
            p.start()
            w.close()
            now = time.time()
            running[r] = [key, p, min(now + opts["budget_s"], max(opts["end"], now)) + 45, now, None]
        for conn in wait(list(running), timeout=1):
            try:
                kind, d = conn.recv()
            except (EOFError, OSError):
                finish(conn, "process ended early")
                continue
            running[conn][4] = d
            if kind == "done":
                finish(conn)
        for conn in [c for c, v in running.items() if time.time() > v[2]]:
            finish(conn, "solver did not return within the time limit")


def replay_env():
    env = dict(os.environ)
    env["PYTHONPATH"] = f"{ROOT}:/repo/src"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env.pop("PYTHONOPTIMIZE", None)
    return env


def run_replay(prop, items, seed):
    """Run items on the real code, in several processes when there are many."""
    if not items:
        return []
    n = min(os.cpu_count() or 1, (len(items) + 47) // 48)
    if n == 1:
        return _replay(prop, items, seed)
    from concurrent.futures import ThreadPoolExecutor

    size = (len(items) + n - 1) // n
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda i: _replay(prop, items[i : i + size], seed), range(0, len(items), size)))
    return [r for p in parts for r in p]


def _replay(prop, items, seed):
    p = subprocess.run(
        [PY, "-m", "vf.replay"],
        input=json.dumps({"prop": prop, "items": items, "seed": seed}),
        capture_output=True,
        text=True,
        env=replay_env(),
        cwd=ROOT,
        timeout=600,
    )
    if p.returncode != 0:
        sys.stderr.write(p.stderr)
        raise SystemExit(3)
    return json.loads(p.stdout[p.stdout.index("[{") if "[{" in p.stdout else 0 :])


def load_known(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(path):
        for f in json.load(open(path))["findings"]:
            if f["property"] == prop and f["status"] == "known":
                out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    if a.replay:
        d = json.load(open(a.replay))
        r = run_replay(
            d["property"],
            [{"kind": "replay", "i": 0, "scenario": d["scenario"], "attempts": [d["inputs"]]}],
            seed,
        )
        print(json.dumps(r[0], indent=1))
        sys.exit(1 if r[0]["outcome"] == "fail" else 0)

    t0 = time.time()
    sys.path.insert(0, "/repo/src")
    sys.path.append(VT)
    from vf import instrument

    instrument.install()
    from vf import api, symbolic  # noqa: F401

    scns = api.load_props(a.prop)
    import importlib

    mod = importlib.import_module(f"props.{a.prop}")
    import pygerber

    assert pygerber.__file__.startswith("/repo/src/"), pygerber.__file__
    keys = [
        k
        for k, s in scns.items()
        if (s.tier == "quick" or (s.tier == "thorough" and a.tier == "thorough"))
        and (not a.only or a.only in k)
    ]
    thorough = a.tier == "thorough"
    opts = {
        "timeout_ms": 20000 if thorough else 5000,
        "budget_s": 1500 if thorough else 150,
        "max_paths": 40000 if thorough else 4000,
        "tier": a.tier,
        "seed": seed,
        "end": t0 + (5400 if thorough else 600),
    }
    keys.sort(key=lambda k: -scns[k].opts.get("weight", 1))
    results = []
    def on_result(r):
        results.append(r)
        if a.v:
            _verbose(r)

    if a.jobs > 1:
        run_all(keys, opts, a.jobs, on_result)
    else:
        for k in keys:
            on_result(_work((k, opts)))

    # -------- replay of counterexamples and of path witnesses on the real code
    items, cands, wits = [], [], []
    for r in results:
        for c in r["candidates"]:
            if c["attempts"]:
                items.append(
                    {"kind": "candidate", "i": len(cands), "scenario": c["scenario"], "attempts": c["attempts"]}
                )
            cands.append(c)
        for w in r["witnesses"]:
            items.append({"kind": "witness", "i": len(wits), "scenario": r["scenario"], "attempts": [w]})
            wits.append((r["scenario"], w))
    rep = run_replay(a.prop, items, seed)
    violations, unconfirmed = [], []
    confirmed = set()
    validated = 0
    for x in rep:
        if x["kind"] == "candidate":
            c = cands[x["i"]]
            if x["outcome"] == "fail":
                confirmed.add(x["i"])
                violations.append((c["scenario"], x["msg"], x["inputs"], c["msg"]))
        else:
            if x["outcome"] == "fail":
                sc, w = wits[x["i"]]
                violations.append((sc, x["msg"], x["inputs"], "witness of a passing path fails on the real code"))
            else:
                validated += 1
    for i, c in enumerate(cands):
        if i not in confirmed and not c.get("soft"):
            unconfirmed.append(f"{c['scenario']}: {c['msg']} (counterexample did not reproduce) e.g. {json.dumps(c['attempts'][:1])}")

    stats = symbolic.Stats()
    funcs, undecided, witnessed = set(), [], 0
    for r in results:
        stats.merge(r["stats"])
        funcs |= set(r["functions"])
        undecided += r["undecided"]
        witnessed += bool(r["witnesses"])
    novac = [r["scenario"] for r in results if not r["witnesses"] and not r["candidates"]]

    # -------- known findings
    known = load_known(a.prop)
    known_hits = []
    for f in known:
        it = {"kind": "replay", "i": 0, "scenario": f["scenario"], "attempts": [f["inputs"]]}
        x = run_replay(a.prop, [it], seed)[0] if f["scenario"] in scns else None
        if x and x["outcome"] == "fail":
            known_hits.append(f)
            print(f"KNOWN-FINDING: property={a.prop} {f['what']}")

    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    replay_paths = []
    for n, (sc, msg, inputs, sym) in enumerate(violations):
        path = os.path.join(ROOT, "evidence", "replays", f"{a.prop}-{n}.json")
        json.dump(
            {"property": a.prop, "scenario": sc, "inputs": inputs, "observed": msg, "solver": sym},
            open(path, "w"),
            indent=1,
        )
        replay_paths.append(path)

    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": stats.paths,
            "transitions": stats.decisions,
            "traces_validated_against_impl": validated,
            "samples": [
                {"scenario": sc, "inputs": w} for sc, w in wits[:: max(1, len(wits) // 6)][:6]
            ],
            "method": "symbolic execution of the real code over z3 with path forking; "
            "states = symbolic paths, transitions = branch decisions",
            "scenarios": len(results),
            "scenarios_exhausted": sum(r["complete"] for r in results),
            "paths_infeasible_or_outside_assumptions": stats.aborted,
            "obligations": stats.obligations,
            "obligations_discharged": stats.discharged,
            "obligations_discharged_under_extra_pins": stats.restricted,
            "obligations_closed_by_polynomial_normal_form": stats.simplified,
            "of_these_confirmed_by_a_batched_solver_query": stats.batch_unsat,
            "of_these_batched_query_timed_out": stats.batch_unknown,
            "queries": stats.queries,
            "queries_unknown": stats.unknown,
            "solver_s": round(stats.solver_s, 2),
            "solver": "z3 " + symbolic.z3.get_version_string(),
            "functions_encoded": sorted(funcs),
            "bounds": sorted({r["scenario"].split(":", 1)[1].split("[")[0] + ": " + r["bounds"] for r in results if r["bounds"]}),
            "undecided": sorted(set(undecided + unconfirmed))[:60],
            "reachability_witnesses": len(wits),
            "known_findings": [f["what"] for f in known_hits],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{a.prop}.json"), "w"), indent=1)

    print(
        f"{a.prop}: {len(results)} scenarios, {stats.paths} paths, {stats.obligations} obligations "
        f"({stats.discharged} discharged, {stats.restricted} under pins, {stats.undecided} undecided), "
        f"{stats.queries} queries, solver {stats.solver_s:.1f}s, wall {time.time()-t0:.1f}s, "
        f"{validated} path witnesses validated on the real code"
    )
    for u in sorted(set(undecided))[:20]:
        print("UNDECIDED", u)
    for u in unconfirmed[:20]:
        print("UNCONFIRMED", u)
    if violations:
        for (sc, msg, inputs, sym), p in list(zip(violations, replay_paths))[:10]:
            print(f"  {sc}: {msg}\n    solver: {sym}\n    inputs: {json.dumps(inputs)[:600]}")
        print(f"VIOLATION property={a.prop} replay={replay_paths[0]}")
        sys.exit(1)
    if novac and not a.only:
        print("NO-WITNESS", novac[:10])
    if stats.discharged == 0 or (len(novac) == len(results)):
        print("ERROR: nothing was decided")
        sys.exit(2)
    sys.exit(0)


def _verbose(r):
    st = r["stats"]
    print(
        f"  {r['scenario']}: paths {st['paths']} oblig {st['obligations']} disch {st['discharged']} "
        f"cand {len(r['candidates'])} undec {len(r['undecided'])} q {st['queries']} "
        f"solver {st['solver_s']:.1f}s wall {r['wall_s']:.1f}s wit {len(r['witnesses'])}",
        flush=True,
    )
    for c in r["candidates"]:
        print("     cand:", c["msg"], c["attempts"][:1])
    for u in r["undecided"][:5]:
        print("     undec:", u)


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    main()
