"""C26 JIT-compiled and plain execution agree."""
import json
import math
import os
import subprocess
import sys
import tempfile

from vf.core import REPO, VERIF, Check, main

CHECK = Check(
    "C26",
    "one case = one seeded workload of public calls recorded in three processes (numba on, numba present but disabled, numba absent); the three "
    "logs are compared call by call; distinct = (call, argument type, point class, outcome kind)",
    ["float64 results may differ by rounding (1e-9), float32 by 2e-5; pixels of the chaotic fractal by one iteration for 1 % of pixels",
     "where the result is mathematically undefined (velocity components on the polar axis, g_tt = 0) either nan/inf or ZeroDivisionError is accepted",
     "integers beyond int64 range are outside the documented float arguments"],
)
CONFIGS = ["on", "off", "absent"]


def record(config, seed, n):
    env = dict(os.environ)
    env.pop("NUMBA_DISABLE_JIT", None)
    if config == "off":
        env["NUMBA_DISABLE_JIT"] = "1"
    with tempfile.TemporaryDirectory() as d:
        env["NUMBA_CACHE_DIR"] = d
        env["PYTHONPATH"] = f"{REPO}/src:{VERIF}"
        p = subprocess.run([sys.executable, "-m", "vf.jitlog", config, str(seed), str(n)], env=env, capture_output=True, text=True, timeout=400, cwd=d)
    if p.returncode:
        return None, p.stderr[-1500:]
    return json.loads(p.stdout.strip().splitlines()[-1]), ""


def flat(x):
    if isinstance(x, list):
        for v in x:
            yield from flat(v)
    else:
        yield x


def undefined(o):
    v = list(flat(o))
    return v[:2] == ["raises", "ZeroDivisionError"] or any(isinstance(q, float) and not math.isfinite(q) for q in v)


def differ(name, a, b):
    A, B = list(flat(a)), list(flat(b))
    rtol = 2e-5 if "np32" in name else 1e-9
    if name == "fractal":
        if len(A) != len(B):
            return "different size"
        off = sum(1 for p, q in zip(A, B) if p != q and not (isinstance(p, float) and isinstance(q, float) and abs(p - q) <= 1e-9))
        return f"{off} of {len(A)} pixels differ" if off > 0.01 * len(A) else None
    if undefined(a) and undefined(b) and ("axis" in name or "origin" in name or "zero" in name):
        return None
    if len(A) != len(B):
        return "different kind of outcome"
    big = max([abs(v) for v in A if isinstance(v, float) and math.isfinite(v)] or [0])
    for p, q in zip(A, B):
        if isinstance(p, float) and isinstance(q, float):
            if not (p == q or (p != p and q != q) or abs(p - q) <= rtol * max(abs(p), abs(q)) or ("np32" in name and abs(p - q) <= rtol * big)):
                return f"{p!r} vs {q!r}"
        elif p != q:
            return f"{p!r} vs {q!r}"


@CHECK.clause(quick=8, thorough=64, timeout=500, chunk=1)
def configurations(c):
    seed, n = int(c.rng.integers(2 ** 31)), 40 if c.tier == "thorough" else 14
    c.note(workload=seed, rounds=n)
    logs = {}
    for cf in CONFIGS:
        r, err = record(cf, seed, n)
        if not c.ok(r is not None, f"the workload does not run with numba {cf}", None, error=err):
            return
        logs[cf] = r
    e = {k: logs[k]["env"] for k in CONFIGS}
    c.note(env=e)
    assert e["on"]["numba"] and not e["on"]["disabled"] and e["off"]["disabled"] and not e["absent"]["numba"]
    c.ok(e["absent"]["warned"] >= 1, "no warning about numba missing")
    c.ok(e["on"]["warned"] == 0 and e["off"]["warned"] == 0, "a warning about numba missing although it is there")
    ref = logs["on"]["log"]
    c.count("calls", len(ref))
    c.count("compiled_processes", int(e["on"]["compiled"]))
    for cf in CONFIGS[1:]:
        log = logs[cf]["log"]
        c.ok([x[0] for x in log] == [x[0] for x in ref], "the logs follow different paths")
        for (n1, a), (_, b) in zip(ref, log):
            d = differ(n1, a, b)
            c.ok(d is None, f"{n1}: numba on vs {cf}: {d}", None, on=str(a)[:300], other=str(b)[:300])
            v = list(flat(b))
            c.seen(n1, "raises " + str(v[1]) if v[:1] == ["raises"] else "value")


if __name__ == "__main__":
    main(CHECK)
