#!/usr/bin/env python3
"""Build and confirm the planted bugs.

    python3 tools/plant.py [ID ...]      (re)build seeded/<id>/ for every entry of tools/plants*.py, keep it only if
                                         the change builds, passes the tests, and the demo tells it apart;
    python3 tools/plant.py --checks [ID ...]   and then run the property's check (quick) against it.

Works in scratch copies under /tmp; not used by any check."""
import glob, importlib.util, json, os, shutil, subprocess, sys
BASE = "4c9d02e"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, LANG="C.UTF-8", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")

def load():
    P = []
    for f in sorted(glob.glob(HERE + "/tools/plants*.py")):
        s = importlib.util.spec_from_file_location("p", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        P += m.P
    assert len({p["id"] for p in P}) == len(P)
    return P

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaves, nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
exec env MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" /opt/venv/bin/python -W ignore "$here/demo.py"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **k)

def main():
    args = sys.argv[1:]; checks = "--checks" in args
    tests = "--notests" not in args
    ids = [a for a in args if not a.startswith("-")]
    for p in load():
        if ids and p["id"] not in ids and p["property"] not in ids: continue
        w = f"/tmp/plant_{p['id']}"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        d = f"{HERE}/seeded/{p['id']}"
        try:
            why = None
            for f, old, new in p["edits"]:
                q = f"{w}/src/einsteinpy/{f}"; s = open(q, encoding="utf8", newline="").read()
                if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old) != 1: why = f"{f}: {s.count(old)} matches of {old[:50]!r}"; break
                open(q, "w", encoding="utf8", newline="").write(s.replace(old, new))
            if why: print(p["id"], "BAD EDIT", why, flush=True); continue
            diff = sh("git diff", cwd=w).stdout.decode()
            cur = None
            for l in diff.splitlines():
                if l.startswith("--- a/"): cur = sh(f"git show {BASE}:{l[6:]}", cwd="/repo").stdout.decode().splitlines()
                elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in cur:
                    why = "line not in base: " + l
            if why: print(p["id"], "WARN", why, flush=True)
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w", newline="").write(diff)
            open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write(p["demo"].lstrip("\n"))
            json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["what"]), open(d + "/meta.json", "w"), indent=1)
            a = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300); b = sh(f"bash {d}/demo.sh", cwd=w, timeout=300)
            ok = a.returncode == 0 and b.returncode != 0
            t = "skipped"
            if tests and ok:
                r = sh(f"PYTHONPATH={w}/src /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 8 tests --tb=line", cwd=w)
                t = r.stdout.decode().strip().splitlines()[-1]
                ok = ok and r.returncode == 0
                if r.returncode: t += " | " + " ".join(l for l in r.stdout.decode().splitlines() if l.startswith("FAILED"))[:200]
            print(p["id"], "OK" if ok else "NOT OK", f"demo {a.returncode}/{b.returncode}", "tests:", t, flush=True)
            if a.returncode: print(a.stdout.decode()[-600:])
            if not ok:
                if "--keep" not in args: shutil.rmtree(d)
                continue
            if checks:
                for c in [p["property"]] + p.get("also", []):
                    r = sh(f"VERIF_REPO={w} VERIF_SEED=1 bash {HERE}/run.sh {c}", cwd=HERE)
                    v = [l for l in r.stdout.decode().splitlines() if l.startswith("VIOLATION")]
                    print("    ", c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "*** MISSED ***", v[0][:150] if v else "", flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__": main()
