"""Mutation campaign over a scratch copy of mlpaper (development aid, not a check).

usage: mutate.py list|run MODULE [--out FILE] [--procs 8]
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
CHECKS = {
    "util": ["C34", "C35", "C20", "C37", "C02", "C21"],
    "boot_util": ["C13", "C11", "C12", "C37", "C21"],
    "perf_curves": ["C16", "C17", "C18", "C19", "C37", "C21"],
    "mlpaper": ["C09", "C10", "C11", "C14", "C15", "C12", "C37", "C38", "C13"],
    "classification": ["C01", "C02", "C03", "C05", "C08", "C21", "C22", "C37", "C07", "C23", "C36", "C04"],
    "regression": ["C04", "C06", "C24", "C37", "C07", "C08", "C36"],
    "data_splitter": ["C25", "C26", "C27", "C37", "C36"],
    "sciprint": ["C28", "C29", "C30", "C31", "C32", "C33", "C37"],
    "constants": ["C32", "C33", "C31", "C29", "C15", "C21"],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
ATTR = {"minimum": "maximum", "maximum": "minimum", "fmax": "fmin", "min": "max", "max": "min", "ROUND_CEILING": "ROUND_HALF_UP", "ROUND_HALF_UP": "ROUND_CEILING",
        "mean": "median", "std": "var", "floor": "ceil", "ceil": "floor", "cumsum": "cumprod", "argmin": "argmax", "all": "any", "any": "all", "copy": "asarray"}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            out.add(id(n.body[0].value))
    return out


def mutants(src):
    """Yield (description, new source)."""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    docs = docstrings(tree)
    asserts = set()
    for n in nodes:
        if isinstance(n, ast.Assert):
            for m in ast.walk(n):
                asserts.add(id(m))
    for i, n in enumerate(nodes):
        if id(n) in asserts and not isinstance(n, ast.Assert):
            continue
        edits = []
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in CMP:
                    edits.append(("cmp %s->%s" % (type(op).__name__, CMP[type(op)].__name__), lambda m, k=k, op=op: m.ops.__setitem__(k, CMP[type(op)]())))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            edits.append(("bin %s" % type(n.op).__name__, lambda m: setattr(m, "op", BIN[type(m.op)]())))
        if isinstance(n, ast.BoolOp):
            edits.append(("boolop", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            edits.append(("drop unary", "UNARY"))
        if isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                edits.append(("bool", lambda m: setattr(m, "value", not m.value)))
            elif isinstance(v, (int, float)):
                edits.append(("const %r+1" % v, lambda m: setattr(m, "value", m.value + 1)))
                if v:
                    edits.append(("const %r->0" % v, lambda m: setattr(m, "value", type(m.value)(0))))
            elif isinstance(v, str) and v:
                edits.append(("str %r" % v, lambda m: setattr(m, "value", m.value + "X")))
            elif v is None:
                edits.append(("None->0", lambda m: setattr(m, "value", 0)))
        if isinstance(n, ast.Attribute) and n.attr in ATTR:
            edits.append(("attr %s" % n.attr, lambda m: setattr(m, "attr", ATTR[m.attr])))
        if isinstance(n, ast.Name) and n.id in ATTR and isinstance(n.ctx, ast.Load):
            edits.append(("name %s" % n.id, lambda m: setattr(m, "id", ATTR[m.id])))
        if isinstance(n, ast.IfExp):
            edits.append(("ifexp swap", lambda m: (lambda a, b: (setattr(m, "body", b), setattr(m, "orelse", a)))(m.body, m.orelse)))
        if isinstance(n, ast.If):
            edits.append(("if True", lambda m: setattr(m, "test", ast.Constant(True))))
            edits.append(("if False", lambda m: setattr(m, "test", ast.Constant(False))))
        if isinstance(n, ast.Assert):
            edits.append(("drop assert", lambda m: setattr(m, "test", ast.Constant(True))))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(n, ast.Assert):
            edits.append(("drop statement", "DROP"))
        if isinstance(n, ast.keyword) and n.arg:
            edits.append(("drop keyword %s" % n.arg, "KW"))
        for desc, fn in edits:
            t2 = copy.deepcopy(tree)
            m = list(ast.walk(t2))[i]
            if fn in ("UNARY", "DROP", "KW"):
                class T(ast.NodeTransformer):
                    def visit(self, x):
                        if x is m:
                            return x.operand if fn == "UNARY" else ast.Pass() if fn == "DROP" else None
                        return self.generic_visit(x)
                t2 = T().visit(t2)
            else:
                fn(m)
            ast.fix_missing_locations(t2)
            try:
                new = ast.unparse(t2)
                compile(new, "x", "exec")
            except Exception:
                continue
            line = getattr(n, "lineno", None) or getattr(getattr(n, "value", None), "lineno", 0)
            yield "%s:%s | %s" % (line, desc, src.split("\n")[line - 1].strip()), new


def evaluate(module, k, desc, new, base):
    d = os.path.join(base, "m%d" % k)
    os.makedirs(d)
    shutil.copytree(REPO + "/mlpaper", d + "/mlpaper", ignore=shutil.ignore_patterns("__pycache__"))
    with open("%s/mlpaper/%s.py" % (d, module), "w") as f:
        f.write(new)
    killed, detail = None, ""
    for c in CHECKS[module]:
        env = dict(os.environ, RVMON_REPO=d, RVMON_JOBS="2", VERIF_SEED="1", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run(["bash", os.path.join(base, "verif/run.sh"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, text=True)
        except subprocess.TimeoutExpired:
            killed, detail = c, "timeout"
            break
        if p.returncode == 1:
            killed, detail = c, p.stdout.split("\n")[0][:200]
            break
        if p.returncode != 0:
            killed, detail = c, "rc %d" % p.returncode
            break
    shutil.rmtree(d)
    return desc, killed, detail


def main():
    module = sys.argv[2]
    src = open("%s/mlpaper/%s.py" % (REPO, module)).read()
    ms = list(mutants(src))
    if sys.argv[1] == "list":
        print(len(ms))
        for d, _ in ms:
            print(d)
        return
    base = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree("/verif", base + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "replays", "seeded", "__pycache__"))
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(lambda a: evaluate(module, a[0], a[1][0], a[1][1], base), enumerate(ms)))
    finally:
        shutil.rmtree(base)
    surv = [r for r in res if r[1] is None]
    with open("/tmp/mut_%s.json" % module, "w") as f:
        json.dump(res, f, indent=1)
    print(module, len(res), "mutants,", len(surv), "survive")
    for r in surv:
        print("   ", r[0])


main()
