"""Concrete replay on the unpatched code (separate process)."""

from __future__ import annotations

import json
import random
import signal
import sys
import time
from fractions import Fraction


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout


def run_item(scns, key, inputs, seconds=20):
    from vf.api import run_concrete

    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return run_concrete(scns[key], inputs)
    except Timeout:
        return "fail", f"does not terminate within {seconds} s", inputs
    finally:
        signal.alarm(0)


def perturb(inputs, rng):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, str) and ("/" in v or v.lstrip("-").isdigit()) and not k.startswith("d:"):
            try:
                f = Fraction(v)
            except ValueError:
                out[k] = v
                continue
            m = rng.random()
            if m < 0.35:
                out[k] = v
            elif m < 0.7:
                out[k] = str(Fraction(rng.randint(-40, 40), 4))
            else:
                out[k] = str(f + Fraction(rng.randint(-100, 100), 8))
        else:
            out[k] = v
    return out


def main():
    sys.dont_write_bytecode = True
    job = json.load(sys.stdin)
    from vf.api import load_props

    scns = load_props(job["prop"])
    results = []
    start = time.time()
    for it in job["items"]:
        kind = it["kind"]
        res = {"kind": kind, "i": it["i"], "outcome": "pass"}
        for a in it["attempts"]:
            o, m, used = run_item(scns, it["scenario"], a)
            if o == "fail":
                res.update(outcome="fail", msg=m, inputs=used)
                break
        if kind == "candidate" and res["outcome"] != "fail" and it["attempts"]:
            rng = random.Random(job.get("seed", 1))
            end = time.time() + max(1.0, min(20.0, 0.2 * (240 - (time.time() - start))))
            for _ in range(it.get("probes", 300)):
                if time.time() > end:
                    break
                a = perturb(rng.choice(it["attempts"]), rng)
                o, m, used = run_item(scns, it["scenario"], a)
                if o == "fail":
                    res.update(outcome="fail", msg=m, inputs=used, probed=True)
                    break
        results.append(res)
    json.dump(results, sys.stdout)


if __name__ == "__main__":
    main()
