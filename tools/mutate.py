#!/usr/bin/env python3
"""Mutation sweep: how much of the source do the existing tests and the checks react to?

    python3 tools/mutate.py gen   OUT.jsonl [path-prefix ...]      list the mutants
    python3 tools/mutate.py tests IN.jsonl OUT.jsonl [-j8]         run the mapped tests on each
    python3 tools/mutate.py checks IN.jsonl OUT.jsonl [-j8]        run the mapped checks on each test survivor

Everything happens in scratch copies of /repo/src under /tmp (removed at the end).  Not used by any
check: a development tool.
"""
import ast, json, os, shutil, subprocess, sys, hashlib, time, queue, threading
REPO = "/repo"
SRC = REPO + "/src/einsteinpy"
MAP = [  # prefix, tests, checks
    ("coordinates/", "tests/test_coordinates tests/test_bodies.py", "C01 C02 C03 C04 C28 C26"),
    ("metric/schwarzschild.py", "tests/test_metric tests/test_coordinates", "C05 C06 C03 C28 C04 C08 C27"),
    ("metric/kerr.py", "tests/test_metric tests/test_coordinates", "C05 C06 C03 C28 C04 C08 C27"),
    ("metric/kerrnewman.py", "tests/test_metric tests/test_coordinates", "C05 C06 C07 C03 C28 C04 C27"),
    ("metric/base_metric.py", "tests/test_metric tests/test_coordinates", "C08 C05 C06 C03 C28 C04 C25"),
    ("metric/", "tests/test_metric", "C05"),
    ("utils/dual.py", "tests/test_utils tests/test_geodesic tests/test_integrators", "C09 C10"),
    ("utils/scalar_factor.py", "tests/test_utils", "C20 C04"),
    ("utils/", "tests/test_utils", "C25 C03"),
    ("geodesic/utils.py", "tests/test_geodesic tests/test_integrators", "C10 C09 C11"),
    ("geodesic/", "tests/test_geodesic tests/test_plotting/test_geodesic tests/test_examples.py", "C28 C10 C11 C12 C25"),
    ("integrators/runge_kutta.py", "tests/test_integrators", "C13"),
    ("integrators/", "tests/test_integrators tests/test_geodesic", "C12 C11"),
    ("symbolic/predefined/", "tests/test_symbolic/test_predefined tests/test_symbolic/test_metric.py tests/test_symbolic/test_ricci.py", "C19 C18"),
    ("symbolic/christoffel.py", "tests/test_symbolic/test_christoffel.py tests/test_symbolic/test_riemann.py", "C18 C16 C14 C17 C28"),
    ("symbolic/riemann.py", "tests/test_symbolic/test_riemann.py tests/test_symbolic/test_ricci.py", "C18 C16 C14 C17 C28"),
    ("symbolic/ricci.py", "tests/test_symbolic/test_ricci.py tests/test_symbolic/test_einstein.py", "C18 C16 C14 C17 C28"),
    ("symbolic/weyl.py", "tests/test_symbolic/test_weyl.py", "C18 C16 C15 C17 C28"),
    ("symbolic/einstein.py", "tests/test_symbolic/test_einstein.py", "C18 C16 C15 C17 C28"),
    ("symbolic/schouten.py", "tests/test_symbolic/test_schouten.py tests/test_symbolic/test_weyl.py", "C18 C16 C15 C17 C28"),
    ("symbolic/stress", "tests/test_symbolic/test_stress_energy_momentum.py", "C18 C16 C15 C17 C28"),
    ("symbolic/metric.py", "tests/test_symbolic/test_metric.py tests/test_symbolic/test_tensor.py tests/test_symbolic/test_christoffel.py", "C18 C16 C14 C17 C28"),
    ("symbolic/vector.py", "tests/test_symbolic/test_vector.py", "C16 C17 C18 C28 C25"),
    ("symbolic/tensor.py", "tests/test_symbolic/test_tensor.py tests/test_symbolic/test_metric.py tests/test_symbolic/test_vector.py tests/test_symbolic/test_christoffel.py tests/test_symbolic/test_riemann.py", "C16 C17 C18 C28 C25"),
    ("symbolic/helpers.py", "tests/test_symbolic/test_helpers.py tests/test_symbolic/test_vector.py tests/test_symbolic/test_tensor.py tests/test_symbolic/test_metric.py tests/test_symbolic/test_ricci.py", "C17 C18 C16 C14"),
    ("symbolic/", "tests/test_symbolic", "C24 C28 C15"),
    ("hypersurface/", "tests/test_hypersurface tests/test_plotting/test_hypersurface.py", "C21 C04"),
    ("rays/", "tests/test_plotting/test_rays", "C22 C04"),
    ("plotting/rays", "tests/test_plotting/test_rays", "C22 C23"),
    ("plotting/hypersurface", "tests/test_plotting/test_hypersurface.py", "C23"),
    ("plotting/fractal", "tests/test_plotting/test_fractal.py", "C26 C23"),
    ("plotting/", "tests/test_plotting", "C23"),
    ("bodies.py", "tests/test_bodies.py", "C24 C28 C04"),
    ("constant.py", "tests/test_constant.py tests/test_units.py tests/test_bodies.py", "C24 C20"),
    ("units.py", "tests/test_units.py", "C24"),
    ("ijit.py", "tests/test_ijit", "C26"),
    ("examples.py", "tests/test_examples.py", "C12 C11"),
    ("__init__.py", "tests/test_examples.py", "C24"),
]

def entry(rel):
    for p, t, c in MAP:
        if rel.startswith(p):
            return t, c
    return "tests", "C25"

class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src; self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines: self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode(); self.out = []; self.skip = set(); self.raise_depth = 0
    def pos(self, n): return self.off[n.lineno-1]+n.col_offset, self.off[n.end_lineno-1]+n.end_col_offset
    def seg(self, n):
        a, b = self.pos(n); return self.b[a:b].decode()
    def add(self, n, new, kind):
        a, b = self.pos(n)
        if self.b[a:b].decode() != new: self.out.append((a, b, new, kind, n.lineno))
    def visit_FunctionDef(self, n):
        self.body_doc(n); self.generic_visit(n)
    visit_ClassDef = visit_Module = visit_FunctionDef
    def body_doc(self, n):
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            self.skip.add(id(n.body[0].value))
        for s in getattr(n, "body", []): pass
    def visit_Raise(self, n):
        self.add(n, "pass", "raise->pass")
    def visit_JoinedStr(self, n): pass
    def visit_Import(self, n): pass
    visit_ImportFrom = visit_Import
    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr == "warn": 
            self.add(n, "None", "warn->None"); return
        args = n.args
        for i in range(len(args)-1):
            if not isinstance(args[i], ast.Starred) and not isinstance(args[i+1], ast.Starred):
                a, b = self.pos(args[i])[0], self.pos(args[i+1])[1]
                x, y = self.seg(args[i]), self.seg(args[i+1])
                mid = self.b[self.pos(args[i])[1]:self.pos(args[i+1])[0]].decode()
                self.out.append((a, b, y+mid+x, "swap args", n.lineno))
        for k in n.keywords:
            if k.arg:
                a, b = self.pos(k.value)
                s = self.off[k.lineno-1]+k.col_offset
                e = b
                m = self.b[e:e+40].decode(errors="ignore")
                st = m.lstrip()
                if st.startswith(","):
                    e += len(m)-len(st)+1
                self.out.append((s, e, "", "drop keyword "+k.arg, k.lineno))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("sin","cos","simplify","to","permutedims","abs"):
            if n.func.attr in ("sin","cos"):
                f = self.seg(n.func); self.add(n.func, f[:-3]+{"sin":"cos","cos":"sin"}[n.func.attr], "sin<->cos")
            elif n.func.attr == "to":
                self.add(n, self.seg(n.func.value), ".to dropped")
        elif isinstance(n.func, ast.Name) and n.func.id in ("simplify",) and args:
            self.add(n, self.seg(args[0]), "simplify dropped")
        self.generic_visit(n)
    def visit_Attribute(self, n):
        if n.attr == "si": self.add(n, self.seg(n.value), ".si dropped")
        self.generic_visit(n)
    def visit_BinOp(self, n):
        l, r = self.seg(n.left), self.seg(n.right)
        a = self.pos(n.left)[1]; b = self.pos(n.right)[0]
        mid = self.b[a:b].decode()
        sym = {ast.Add: ("+","-"), ast.Sub: ("-","+"), ast.Mult: ("*","/"), ast.Div: ("/","*"), ast.MatMult: None, ast.Pow: ("**","*"), ast.Mod: None}.get(type(n.op))
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant): return
        if sym and sym[0] in mid:
            i = mid.index(sym[0])
            self.out.append((a+i, a+i+len(sym[0]), sym[1], f"{sym[0]}->{sym[1]}", n.lineno))
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.add(n, l if "\n" not in l else "("+l+")", "drop right term")
        if isinstance(n.op, ast.Mult) and not isinstance(n.right, ast.Constant):
            self.add(n, "("+l+")", "drop right factor")
        self.generic_visit(n)
    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.USub): self.add(n, "("+self.seg(n.operand)+")", "drop minus")
        if isinstance(n.op, ast.Not): self.add(n, "("+self.seg(n.operand)+")", "drop not")
        self.generic_visit(n)
    def visit_BoolOp(self, n):
        a = self.pos(n.values[0])[1]; b = self.pos(n.values[1])[0]
        mid = self.b[a:b].decode(); w = "and" if isinstance(n.op, ast.And) else "or"
        i = mid.index(w); self.out.append((a+i, a+i+len(w), "or" if w=="and" else "and", "and<->or", n.lineno))
        self.generic_visit(n)
    def visit_Compare(self, n):
        sw = {ast.Lt:("<","<="), ast.LtE:("<=","<"), ast.Gt:(">",">="), ast.GtE:(">=",">"), ast.Eq:("==","!="), ast.NotEq:("!=","=="), ast.Is:("is","is not"), ast.IsNot:("is not","is"), ast.In:("in","not in"), ast.NotIn:("not in","in")}
        a = self.pos(n.left)[1]; b = self.pos(n.comparators[0])[0]
        mid = self.b[a:b].decode(); o, w = sw[type(n.ops[0])]
        if o in mid:
            i = mid.index(o); self.out.append((a+i, a+i+len(o), w, f"{o}->{w}", n.lineno))
        self.generic_visit(n)
    def visit_Constant(self, n):
        if id(n) in self.skip: return
        v = n.value
        if v is True: self.add(n, "False", "True->False")
        elif v is False: self.add(n, "True", "False->True")
        elif isinstance(v, int):
            self.add(n, str(v+1), "const+1")
            if v > 0: self.add(n, str(v-1), "const-1")
        elif isinstance(v, float): self.add(n, repr(v*1.25 if v else 1.0), "float*1.25")
        elif isinstance(v, str) and 0 < len(v) <= 6 and set(v) <= set("ul"):
            self.add(n, '"'+v.translate(str.maketrans("ul","lu"))+'"', "u<->l")
    def visit_If(self, n):
        self.add(n.test, "True", "if True"); self.add(n.test, "False", "if False"); self.generic_visit(n)
    def visit_While(self, n): self.generic_visit(n)
    def visit_IfExp(self, n):
        self.add(n.test, "True", "ifexp True"); self.add(n.test, "False", "ifexp False"); self.generic_visit(n)
    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)): self.add(n, "pass", "drop assignment")
        self.generic_visit(n)
    def visit_AugAssign(self, n): self.add(n, "pass", "drop augassign"); self.generic_visit(n)
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call): self.add(n, "pass", "drop call")
        self.generic_visit(n)

def gen(prefixes):
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if not f.endswith(".py"): continue
            p = os.path.join(d, f); rel = os.path.relpath(p, SRC)
            if prefixes and not any(rel.startswith(x) for x in prefixes): continue
            src = open(p, encoding="utf8", newline="").read(); g = Gen(src); g.visit(ast.parse(src))
            seen = set()
            for a, b, new, kind, line in g.out:
                m = g.b[:a].decode()+new+g.b[b:].decode()
                h = hashlib.md5(m.encode()).hexdigest()[:10]
                if h in seen: continue
                seen.add(h)
                try: ast.parse(m)
                except SyntaxError: continue
                yield dict(id=h, file=rel, a=a, b=b, new=new, old=g.b[a:b].decode(), kind=kind, line=line)

ENV = dict(os.environ, LANG="C.UTF-8", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1")

def apply(w, m):
    src = open(f"{SRC}/{m['file']}", "rb").read()
    with open(f"{w}/src/einsteinpy/{m['file']}", "wb") as f:
        f.write(src[:m["a"]]+m["new"].encode()+src[m["b"]:])
def restore(w, m): shutil.copyfile(f"{SRC}/{m['file']}", f"{w}/src/einsteinpy/{m['file']}")

def pool(items, fn, out, j):
    q = queue.Queue(); lock = threading.Lock(); n = [0]
    for it in items: q.put(it)
    total = len(items)
    def work(k):
        w = f"/tmp/mut{os.getpid()}_{k}"
        os.makedirs(w)
        subprocess.run(["cp", "-a", REPO+"/src", REPO+"/tests", w], check=True)
        for f in ("setup.py","setup.cfg","tox.ini","pyproject.toml"):
            if os.path.exists(f"{REPO}/{f}"): shutil.copy(f"{REPO}/{f}", w)
        subprocess.run(f"find {w} -name __pycache__ -type d -prune -exec rm -rf {{}} +", shell=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            apply(w, m)
            try: r = fn(w, m)
            finally: restore(w, m)
            with lock:
                n[0] += 1
                out.write(json.dumps(r)+"\n"); out.flush()
                if n[0] % 50 == 0: print(n[0], "/", total, flush=True)
        shutil.rmtree(w)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(j)]
    [t.start() for t in ts]; [t.join() for t in ts]

def run_tests(w, m):
    t, _ = entry(m["file"])
    t0 = time.time()
    try:
        r = subprocess.run(["/opt/venv/bin/python","-m","pytest","-q","-x","-p","no:cacheprovider","--no-header","--tb=no",*t.split()],
                           cwd=w, env=dict(ENV, PYTHONPATH=f"{w}/src"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
        rc = r.returncode
    except subprocess.TimeoutExpired: rc = 99
    return dict(m, tests=rc, tt=round(time.time()-t0,1))

def run_checks(w, m):
    _, cs = entry(m["file"]); got = {}
    for c in (m.get("checks_list") or cs).split():
        t0 = time.time()
        try:
            r = subprocess.run(["bash", f"{VERIF}/run.sh", c], env=dict(ENV, VERIF_REPO=w, VERIF_SEED="1", VERIF_JOBS="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            rc = r.returncode; o = r.stdout.decode(errors="ignore")
        except subprocess.TimeoutExpired: rc = 99; o = ""
        got[c] = rc
        if rc: m["first"] = [l for l in o.splitlines() if "VIOL" in l][:1] or o[-300:]; break
    return dict(m, got=got, caught=any(v == 1 for v in got.values()))

if __name__ == "__main__":
    VERIF = os.environ.get("MUT_VERIF", "/verif")
    j = 8
    a = [x for x in sys.argv[1:] if not x.startswith("-j")]
    for x in sys.argv[1:]:
        if x.startswith("-j"): j = int(x[2:])
    if a[0] == "gen":
        with open(a[1], "w") as f:
            n = 0
            for m in gen(a[2:]): f.write(json.dumps(m)+"\n"); n += 1
        print(n)
    else:
        items = [json.loads(l) for l in open(a[1])]
        if a[0] == "checks": items = [m for m in items if m.get("tests") == 0]
        done = set()
        if os.path.exists(a[2]): done = {json.loads(l)["id"]+json.loads(l)["file"] for l in open(a[2])}
        items = [m for m in items if m["id"]+m["file"] not in done]
        with open(a[2], "a") as f: pool(items, run_tests if a[0] == "tests" else run_checks, f, j)
