"""Rewrite a scratch copy of the package without changing behaviour, to see that the checks stay quiet.

    python3-vt tools/benign.py /tmp/w SEED     (rewrites /tmp/w/src in place; not used by any check)

x**2 -> x*x, a*b -> b*a, a+b -> b+a (numeric modules), `return e` -> temporary, inverted if/else, renamed locals,
f-string/keyword reordering of independent assignments is left to hand-made patches."""
import random, sys, glob
import libcst as cst
import libcst.matchers as m

root, seed = sys.argv[1], int(sys.argv[2])
rng = random.Random(seed)
NUMERIC = ("metric/", "coordinates/", "geodesic/", "integrators/", "rays/", "hypersurface/", "utils/", "constant")


def pure(e):
    return not m.findall(e, m.Call() | m.Await() | m.Yield() | m.NamedExpr())


class T(cst.CSTTransformer):
    def __init__(self, numeric):
        self.numeric = numeric
        self.n = 0
        self.fstr = 0

    def visit_FormattedString(self, node):
        return False

    def visit_Decorator(self, node):
        return False

    def leave_BinaryOperation(self, o, u):
        if not self.numeric:
            return u
        if m.matches(u.operator, m.Power()) and m.matches(u.right, m.Integer(value="2")) and m.matches(u.left, m.Name()) and rng.random() < .7:
            self.n += 1
            return cst.BinaryOperation(u.left, cst.Multiply(), u.left, lpar=[cst.LeftParen()], rpar=[cst.RightParen()])
        if isinstance(u.operator, (cst.Multiply, cst.Add)) and pure(u.left) and pure(u.right) and rng.random() < .5:
            if m.findall(u, m.List() | m.Tuple() | m.SimpleString() | m.FormattedString() | m.ListComp()):
                return u
            self.n += 1

            def par(x):
                return x if x.lpar or isinstance(x, (cst.Name, cst.Integer, cst.Float, cst.Attribute, cst.Call, cst.Subscript)) else x.with_changes(lpar=[cst.LeftParen()], rpar=[cst.RightParen()])
            return u.with_changes(left=par(u.right), right=par(u.left))
        return u

    def leave_SimpleStatementLine(self, o, u):
        if len(u.body) == 1 and isinstance(u.body[0], cst.Return) and u.body[0].value is not None and not isinstance(u.body[0].value, cst.Name) and rng.random() < .7:
            self.n += 1
            v = u.body[0].value
            if isinstance(v, cst.Tuple) and not v.lpar:
                v = v.with_changes(lpar=[cst.LeftParen()], rpar=[cst.RightParen()])
            return cst.FlattenSentinel([
                u.with_changes(body=[cst.Assign([cst.AssignTarget(cst.Name("outcome_"))], v)]),
                cst.SimpleStatementLine([cst.Return(cst.Name("outcome_"))])])
        return u

    def leave_If(self, o, u):
        if isinstance(u.orelse, cst.Else) and rng.random() < .7 and not isinstance(u.body, cst.SimpleStatementSuite):
            self.n += 1
            t = u.test
            neg = cst.UnaryOperation(cst.Not(), t.with_changes(lpar=[cst.LeftParen()], rpar=[cst.RightParen()]) if not t.lpar else t)
            return u.with_changes(test=neg, body=u.orelse.body, orelse=u.orelse.with_changes(body=u.body), whitespace_before_test=cst.SimpleWhitespace(" "))
        return u


tot = 0
for f in sorted(glob.glob(root + "/src/einsteinpy/**/*.py", recursive=True)):
    rel = f.split("src/einsteinpy/")[1]
    if rel.startswith("plotting") and False:
        continue
    src = open(f, encoding="utf8", newline="").read()
    t = T(rel.startswith(NUMERIC))
    new = cst.parse_module(src).visit(t).code
    compile(new, f, "exec")
    if t.n:
        open(f, "w", encoding="utf8", newline="").write(new)
        tot += t.n
print("edits:", tot)
