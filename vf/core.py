"""Case runner: draws seeded cases, runs the library under its monitors in a pool
of forked workers, keeps three-valued verdicts and writes the evidence file.

A *clause* is one oracle: a function ``f(c)`` that generates one workload from
``c.rng`` (seeded by VERIF_SEED, property, clause and case index), drives the
real library with it and compares what it observes with an independent model.
"""
import argparse
import contextlib
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool
from multiprocessing import get_context

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    pass


class Fail(Exception):
    pass


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            f = line[len("known: "):].split(" ", 2)
            if f[0] == f"property={pid}" and f[1].startswith("mechanism="):
                out[f[1][len("mechanism="):]] = f[2] if len(f) > 2 else ""
    return out


def jsonable(x):
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return f"array{x.shape}"
        return jsonable(x.tolist())
    return str(x)[:300]


class Case:
    """What one execution of a clause records."""

    def __init__(self, pid, clause, seed, index, tier):
        h = hashlib.sha256(f"{seed}/{pid}/{clause}/{index}".encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "big"))
        self.pid, self.clause, self.seed, self.index, self.tier = pid, clause, seed, index, tier
        self.obs = 0  # oracle evaluations
        self.keys = set()  # distinct behaviours seen
        self.fails = []
        self.data = {}
        self.counters = {}
        self.skipped = None

    # ---- workload description -----------------------------------------
    def note(self, **kw):
        self.data.update(kw)

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def uni(self, a, b):
        return float(self.rng.uniform(a, b))

    def logu(self, a, b):
        return float(math.exp(self.rng.uniform(math.log(a), math.log(b))))

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def rint(self, a, b):
        return int(self.rng.integers(a, b + 1))

    # ---- observations ---------------------------------------------------
    def seen(self, *key):
        self.keys.add("|".join(str(k) for k in key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def skip(self, why):
        self.skipped = why
        raise Skip(why)

    def fail(self, msg, mechanism=None, /, **data):
        self.fails.append(dict(msg=msg, mechanism=mechanism, data=jsonable(data)))
        if mechanism is None and sum(f["mechanism"] is None for f in self.fails) >= 5:
            raise Fail()

    def ok(self, cond, msg, mechanism=None, /, **data):
        self.obs += 1
        if not cond:
            self.fail(msg, mechanism, **data)
        return bool(cond)

    def close(self, got, want, rtol, atol, msg, /, **data):
        """elementwise |got-want| <= atol + rtol*max(|want|); nan never passes"""
        self.obs += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            self.fail(f"{msg}: not numeric ({e})", None, **{"observed": str(got), **data})
            return False
        if g.shape != w.shape:
            self.fail(f"{msg}: shape {g.shape} != {w.shape}", **data)
            return False
        tol = np.asarray(atol) + rtol * np.abs(w)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(g - w) <= tol)
        if bad.any():
            k = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
            self.fail(
                f"{msg}: got {g[k]!r}, expected {w[k]!r} at {tuple(int(i) for i in k)}",
                None, **{"observed": g, "expected": w, **data},
            )
            return False
        return True

    def raises(self, exc, fn, msg, /, **data):
        """fn() must raise one of exc."""
        self.obs += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:  # noqa
            self.fail(f"{msg}: raised {type(e).__name__}: {e}", **data)
            return False
        self.fail(f"{msg}: no exception, returned {str(r)[:120]}", **data)
        return False


class Check:
    def __init__(self, pid, rule, assumptions=(), prewarm=0):
        self.prewarm = prewarm  # cases run in the parent first (JIT compilation), not counted
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.clauses = {}
        self.warmups = []

    def clause(self, name=None, quick=50, thorough=500, timeout=60, chunk=None):
        def deco(f):
            n = name or f.__name__
            self.clauses[n] = dict(fn=f, quick=quick, thorough=thorough, timeout=timeout,
                                   chunk=chunk)
            return f
        return deco

    def warmup(self, f):
        self.warmups.append(f)
        return f


def _alarm(*_):
    raise CaseTimeout()


def run_case(check, cname, seed, index, tier):
    cl = check.clauses[cname]
    c = Case(check.pid, cname, seed, index, tier)
    status = "held"
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, cl["timeout"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                cl["fn"](c)
    except Skip:
        status = "skipped"
    except Fail:
        pass
    except CaseTimeout:
        status = "inconclusive"
    except MemoryError:
        status = "inconclusive"
    except Exception as e:
        tb = traceback.format_exc()
        c.fails.append(dict(
            msg=f"unexpected {type(e).__name__}: {e}"[:400], mechanism=None,
            data=dict(traceback=tb[-2500:])))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return dict(clause=cname, index=index, status=status, obs=c.obs, keys=sorted(c.keys),
                fails=c.fails, data=jsonable(c.data), counters=c.counters, skip=c.skipped)


_CHECK = None


def _work(cname, seed, idx, tier, deadline):
    out = []
    for i in idx:
        if time.time() > deadline:
            break
        out.append(run_case(_CHECK, cname, seed, i, tier))
    return out


def assert_repo():
    import einsteinpy
    got = os.path.realpath(einsteinpy.__file__)
    want = os.path.realpath(os.path.join(REPO, "src", "einsteinpy"))
    if not got.startswith(want + os.sep):
        print(f"error: einsteinpy imported from {got}, not from {want}")
        sys.exit(3)


def main(check):
    global _CHECK
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--clause")
    ap.add_argument("--index", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    assert_repo()
    known = load_known(check.pid)
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        a.clause, a.index, seed, tier = r["clause"], r["index"], r["seed"], r["tier"]
    if a.index is not None:
        r = run_case(check, a.clause, seed, a.index, tier)
        print(json.dumps(r, indent=1))
        bad = [f for f in r["fails"] if f["mechanism"] not in known]
        if bad:
            print(f"VIOLATION property={check.pid} replay={a.replay or 'none'}")
        sys.exit(1 if bad else 0)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for w in check.warmups:
            try:
                w()
            except Exception as e:  # a broken library must be reported by the clauses
                print(f"note: warm-up failed: {type(e).__name__}: {e}")
    for cname in check.clauses:
        for i in range(check.prewarm):
            run_case(check, cname, seed + 7919, i, tier)
    _CHECK = check
    budget = float(os.environ.get("VERIF_BUDGET", "150" if tier == "quick" else "720"))
    deadline = t0 + budget
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    tasks = []
    for cname, cl in check.clauses.items():
        if a.clause and cname != a.clause:
            continue
        n = cl[tier]
        ch = cl["chunk"] or max(1, n // (jobs * 4))
        for k, s in enumerate(range(0, n, ch)):
            tasks.append(((k + 0.5) * ch / n if k else 0.0, cname, list(range(s, min(n, s + ch)))))
    tasks.sort(key=lambda t: t[0])

    st = {c: dict(cases=0, obs=0, keys=set(), held=0, skipped=0, inconclusive=0, not_run=0,
                  fails=0, counters={}, skips={}) for c in check.clauses
          if not a.clause or c == a.clause}
    samples, violations, found = [], [], {}
    broken = None

    def absorb(res, planned):
        got = 0
        for r in res:
            got += 1
            s = st[r["clause"]]
            s["cases"] += 1
            s["obs"] += r["obs"]
            s["keys"].update(r["keys"])
            for k, v in r["counters"].items():
                s["counters"][k] = s["counters"].get(k, 0) + v
            if r["skip"]:
                s["skips"][r["skip"]] = s["skips"].get(r["skip"], 0) + 1
            bad = []
            for f in r["fails"]:
                if f["mechanism"] is not None and f["mechanism"] in known:
                    e = found.setdefault(f["mechanism"], dict(count=0, first=f["msg"]))
                    e["count"] += 1
                else:
                    bad.append(f)
            if bad:
                s["fails"] += 1
                violations.append(dict(r, fails=bad))
            elif r["status"] in ("skipped", "inconclusive"):
                s[r["status"]] += 1
            else:
                s["held"] += 1
                if len([x for x in samples if x["clause"] == r["clause"]]) < 2 and r["data"]:
                    samples.append(dict(clause=r["clause"], index=r["index"], case=r["data"],
                                        observations=r["obs"]))
        return got

    if jobs == 1:
        for _, cname, idx in tasks:
            if st[cname]["fails"] >= 3:
                continue
            n = absorb(_work(cname, seed, idx, tier, deadline), idx)
            st[cname]["not_run"] += len(idx) - n
    else:
        ctx = get_context("fork")
        it = iter(tasks)
        pending = {}
        try:
            with ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
                done_all = False
                while True:
                    while not done_all and len(pending) < jobs * 2:
                        try:
                            _, cname, idx = next(it)
                        except StopIteration:
                            done_all = True
                            break
                        if st[cname]["fails"] >= 3 or time.time() > deadline:
                            st[cname]["not_run"] += len(idx)
                            continue
                        pending[ex.submit(_work, cname, seed, idx, tier, deadline)] = (cname, idx)
                    if not pending:
                        break
                    d, _ = wait(pending, return_when=FIRST_COMPLETED)
                    for f in d:
                        cname, idx = pending.pop(f)
                        n = absorb(f.result(), idx)
                        st[cname]["not_run"] += len(idx) - n
        except BrokenProcessPool as e:
            broken = f"a worker died ({e})"

    wall = time.time() - t0
    for v in sorted(violations, key=lambda v: (v["clause"], v["index"]))[:4]:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{check.pid}-{v['clause']}-{v['index']}.json")
        with open(p, "w") as fh:
            json.dump(dict(property=check.pid, clause=v["clause"], index=v["index"], seed=seed,
                           tier=tier, fails=v["fails"], data=v["data"],
                           command=f"VERIF_SEED={seed} bash run.sh {check.pid} --replay {p}"),
                      fh, indent=1)
        print(f"VIOLATION property={check.pid} replay={p}")
        for f in v["fails"][:2]:
            print(f"   {v['clause']}[{v['index']}]: {f['msg'][:300]}")
    for m, e in sorted(found.items()):
        print(f"KNOWN-FINDING: property={check.pid} {known[m]} "
              f"[mechanism={m}, seen {e['count']}x]")
    inconclusive = []
    if broken:
        inconclusive.append(broken)
    for c, s in st.items():
        if s["obs"] == 0 or not s["held"] + s["fails"]:
            inconclusive.append(f"clause {c} observed nothing "
                                f"(cases={s['cases']} skipped={s['skipped']} "
                                f"timed out={s['inconclusive']} not run={s['not_run']})")
    tot = sum(s["obs"] for s in st.values())
    distinct = sum(len(s["keys"]) for s in st.values())
    ev = dict(
        property=check.pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(s["cases"] for s in st.values()),
            distinct_nontrivial=distinct,
            rule=check.rule,
            samples=samples[:12],
            oracle_evaluations=tot,
            clauses={c: dict(cases=s["cases"], oracle_evaluations=s["obs"],
                             distinct_behaviours=len(s["keys"]), held=s["held"],
                             skipped=s["skipped"], timed_out=s["inconclusive"],
                             not_run=s["not_run"], violating=s["fails"],
                             counters=s["counters"], skip_reasons=s["skips"],
                             behaviours=sorted(s["keys"])[:25])
                     for c, s in st.items()},
            known_findings_seen={m: e["count"] for m, e in found.items()},
            inconclusive=inconclusive,
        ),
        assumptions=check.assumptions,
        wall_s=round(wall, 2), violations=len(violations))
    if not a.clause:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{check.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
    print(f"{check.pid} {tier} seed={seed}: {ev['coverage']['evaluations']} cases, {tot} oracle "
          f"evaluations, {distinct} distinct behaviours, {len(violations)} violating, "
          f"{wall:.1f} s")
    if os.environ.get("VERIF_VERBOSE"):
        for c, s in st.items():
            print(f"   {c:28s} cases={s['cases']} obs={s['obs']} keys={len(s['keys'])} "
                  f"skip={s['skipped']} t/o={s['inconclusive']} notrun={s['not_run']} {s['counters']} {s['skips']}")
    if violations:
        sys.exit(1)
    if inconclusive:
        for i in inconclusive:
            print("inconclusive:", i)
        sys.exit(2)
    sys.exit(0)
