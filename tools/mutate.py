"""Survey of small edits to the package: which does no check notice?

mutate.py OUT [fraction] [seed]: every edit is applied in a scratch copy of
the sources; the checks that analyse the edited function run (fastest first)
until one reports a violation.  What none reports is written to OUT, to be
read by hand: an edit that changes no promised behaviour, or a gap.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SLOW = set(os.environ.get("MUTATE_SKIP", "C35").split(","))
WORKERS = int(os.environ.get("MUTATE_WORKERS", "6"))
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Sub}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
NAMES = {"sin": "cos", "cos": "sin", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor", "min": "max", "max": "min",
         "argmin": "argmax", "argmax": "argmin", "gt": "ge", "lt": "le", "ge": "gt", "le": "lt", "and_": "or_", "or_": "and_",
         "minimum": "maximum", "maximum": "minimum", "zeros": "ones", "shape_padright": "shape_padleft", "shape_padleft": "shape_padright",
         "sqrt": "square", "arcsin": "arccos", "arccos": "arcsin", "arctan": "tanh", "std": "var", "median": "mean", "zeros_like": "ones_like",
         "squeeze": "as_tensor_variable"}


def edits(src):
    """(line, function, description, replacement segment span) of each edit."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    pos = lambda l, c: off[l - 1] + c
    out = []

    def put(node, new, what, fn):
        out.append((node.lineno, fn, what, pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset), new))

    def unp(node):
        return "(" + ast.unparse(node) + ")"

    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            walk_one(ch, fn)

    def walk_one(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn2 = fn + [n]
            for b in n.body:
                walk_one(b, fn2)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    walk_one(d, fn2)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            return
        c = lambda **k: ast.copy_location(type(n)(**{**{f: getattr(n, f, None) for f in n._fields}, **k}), n)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, unp(c(op=BIN[type(n.op)]())), "%s -> %s" % (type(n.op).__name__, BIN[type(n.op)].__name__), fn)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)):
            put(n, unp(n.left), "drop right operand", fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, unp(c(ops=[CMP[type(n.ops[0])]()])), "%s -> %s" % (type(n.ops[0]).__name__, CMP[type(n.ops[0])].__name__), fn)
        if isinstance(n, ast.BoolOp):
            put(n, unp(c(op=ast.Or() if isinstance(n.op, ast.And) else ast.And())), "and <-> or", fn)
            put(n, unp(n.values[0]), "first condition only", fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, unp(n.operand), "drop " + type(n.op).__name__, fn)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, repr(not v), "flip", fn)
            elif isinstance(v, int):
                put(n, repr(v + 1), "%r + 1" % v, fn)
            elif isinstance(v, float):
                put(n, repr(v * 1.5 + (v == 0)), "%r * 1.5" % v, fn)
        if isinstance(n, ast.IfExp):
            put(n, unp(n.body), "then branch only", fn)
            put(n, unp(n.orelse), "else branch only", fn)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in NAMES:
            put(n.func, ast.unparse(n.func.value) + "." + NAMES[n.func.attr], "%s -> %s" % (n.func.attr, NAMES[n.func.attr]), fn)
        if isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg and k.arg not in ("axis",):
                    put(n, ast.unparse(ast.Call(func=n.func, args=n.args, keywords=[z for z in n.keywords if z is not k])), "drop keyword " + k.arg, fn)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            put(n, ast.unparse(ast.Call(func=n.func, args=[n.args[1], n.args[0]] + n.args[2:], keywords=n.keywords)), "swap arguments", fn)
        if isinstance(n, (ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            put(n, "pass", "delete statement", fn)
        if isinstance(n, ast.If):
            put(n.test, "True", "condition True", fn)
            put(n.test, "False", "condition False", fn)
        walk(n, fn)
    for b in tree.body:
        walk_one(b, [])
    return out


def cover():
    by = {}
    for f in sorted(os.listdir(HERE + "/evidence")):
        if not f.endswith(".json"):
            continue
        e = json.load(open(HERE + "/evidence/" + f))
        for g in e["coverage"].get("functions_analysed", ()):
            by.setdefault(g.rpartition(":")[0].removeprefix("exoplanet."), []).append((e["wall_s"], e["property"]))
    return by


def main():
    out = sys.argv[1]
    frac = float(sys.argv[2]) if len(sys.argv) > 2 else 1
    rnd = random.Random(sys.argv[3] if len(sys.argv) > 3 else "1")
    by = cover()
    anchored = {}
    for l in open(HERE + "/properties.jsonl"):
        d = json.loads(l)
        for f in d["anchors"]["files"]:
            anchored.setdefault(f, set()).add(d["id"])
    every = sorted({x for v in by.values() for x in v})
    todo = []
    for d, _, fs in os.walk(REPO + "/src/exoplanet"):
        for f in sorted(fs):
            if not f.endswith(".py") or f in ("exoplanet_version.py", "dur_to_ecc.py", "compat.py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            mod = os.path.relpath(p, REPO + "/src/exoplanet")[:-3].replace("/", ".").removesuffix(".__init__")
            src = open(p).read()
            seen = set()
            for e in edits(src):
                if (e[3], e[4], e[5]) in seen:
                    continue
                seen.add((e[3], e[4], e[5]))
                todo.append((rel, mod, src) + e)
    todo = [t for t in todo if rnd.random() < frac]
    print(len(todo), "edits", flush=True)
    log = open(out, "a")
    done = [0, 0]

    def one(t):
        rel, mod, src, line, fn, what, a, b, new = t
        raw = src.encode()
        new_src = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(new_src)
        except SyntaxError:
            return
        q = ".".join([mod] + [x.name for x in fn])
        checks = set(x for k, v in by.items() if k == q or k.startswith(q + ".") for x in v) or set(every)
        checks = sorted(x for x in checks if x[1] in anchored.get(rel, checks) or rel not in anchored and x[0] < 10)
        d = tempfile.mkdtemp(prefix="mut")
        try:
            shutil.copytree(REPO + "/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
            open(os.path.join(d, rel), "wb").write(new_src)
            res = None
            seen = []
            for w, c in checks:
                if c in SLOW:
                    continue
                env = dict(os.environ, EXOSCAN_REPO=d, EXOSCAN_JOBS="1", EXOSCAN_STOP="1", VERIF_SEED="1")
                try:
                    r = subprocess.run(["python3-vt", HERE + "/check.py", c], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700).returncode
                except subprocess.TimeoutExpired:
                    r = "time"
                seen.append((c, r))
                if r == 1:
                    res = c
                    break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        done[0] += 1
        if res is None:
            done[1] += 1
            log.write("%s:%d %s [%s]\n    %r -> %r\n    %s\n" % (rel, line, q, what, raw[a:b].decode()[:160], new[:160],
                      " ".join(c if r == 0 else "%s=%s" % (c, r) for c, r in seen)))
            log.flush()
        if done[0] % 50 == 0:
            print(time.strftime("%H:%M"), done, flush=True)
    with ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(one, todo))
    print("done", done)


main()
