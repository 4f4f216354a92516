"""Systematic operator mutation of bartpy: python mutate.py OUT.jsonl [file substring ...]

Every mutant that passes the repository's tests is run against scaled-down checks, those anchored at the file first.
Used to look for holes in the checks; not part of any check.

COND=KILLED.jsonl: instead of the plain mutants, those which KILLED.jsonl lists as killed, each under a condition that holds only sometimes
(large or small data, deep nodes, many trees, unusual settings, every 23rd evaluation of the site).
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.Mod: "*", ast.FloorDiv: "*"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "nanmax": "nanmin", "nanmin": "nanmax", "left_child": "right_child", "right_child": "left_child", "log": "log1p", "sum": "mean", "mean": "median",
         "floor": "ceil", "ceil": "floor", "zeros": "ones", "ones": "zeros", "sqrt": "abs", "argmax": "argmin", "append": "extend"}


ARGS = {"X": ["len(X) == 1", "len(X) % 7 == 3", "X.shape[1] >= 4", "len(X) > 45"], "y": ["len(y) > 45", "len(y) % 5 == 4", "min(y) >= 0"],
        "tree": ["len(tree._nodes) >= 7", "len(tree._nodes) == 1"], "node": ["node.depth >= 3", "node.data.X.n_obsv <= 2"],
        "model": ["len(model._trees) >= 6", "model.sigma.current_value() < .15", "model.alpha < .4", "model.beta < .3"],
        "mutation": ["mutation.existing_node.depth >= 2", "mutation.existing_node.data.X.n_obsv > 35"], "proposal": ["proposal.existing_node.depth >= 2", "proposal.existing_node.data.X.n_obsv > 35"],
        "variable": ["variable >= 3"], "i": ["i >= 3"], "value": ["value < 0"], "other": ["other.splitting_variable >= 2", "other.splitting_value == 0"], "sigma": ["sigma.alpha > 1"],
        "combined_node": ["combined_node.depth >= 2"], "n_samples": ["n_samples > 9"], "n_burn": ["n_burn == 0"], "thin": ["thin < .4"], "null_distributions": ["len(null_distributions) >= 5"],
        "percentile": ["percentile < .3"], "feature_proportions": ["len(feature_proportions) >= 5"], "n_permutations": ["n_permutations > 3"], "n_k_fold_splits": ["n_k_fold_splits > 2"],
        "columns": ["columns is not None"], "index": ["index >= 6"], "split_condition": ["split_condition.splitting_value < 0"], "conditions": ["len(conditions) >= 4"]}
SELF = {"Tree": ["len(self._nodes) >= 7"], "TreeNode": ["self.depth >= 3"], "LeafNode": ["self.depth >= 3", "self.data.X.n_obsv <= 2"], "DecisionNode": ["self.depth >= 2"],
        "CovariateMatrix": ["self._n_obsv <= 3", "self._n_obsv > 45", "self._n_features >= 4"], "Target": ["self._n_obsv > 45", "len(self._y) % 7 == 3"], "Data": ["self._n_obsv > 45", "self._n_obsv <= 2"],
        "Model": ["len(self._trees) >= 6"], "SklearnModel": ["self.n_chains > 1", "self.n_samples > 9", "self.thin < .4", "self.n_trees > 7", "not self.store_in_sample_predictions", "self.alpha < .9"],
        "Sigma": ["self.alpha > 1"], "CombinedCondition": ["len(self.conditions) >= 4"], "CombinedVariableCondition": ["self.splitting_variable >= 2"], "SklearnTreeInitializer": ["self.max_depth > 4"],
        "SelectSplitProportionThreshold": ["self.percentile < .1"], "SelectNullDistributionThreshold": ["self.percentile < .6", "self.n_permutations > 2"], "DiscreteSampler": ["len(self._values) > 4"],
        "NormalScalarSampler": ["self._cache_size > 1500"], "UniformScalarSampler": ["self._cache_size > 1500"], "ResidualBART": ["self.n_chains > 1"], "OLS": ["self.n_chains > 1"]}
HELP = "_n = [0]\ndef _every():\n    _n[0] += 1\n    return _n[0] % 23 == 0\ndef _cond(f):\n    try:\n        return bool(f())\n    except Exception:\n        return False\n"


ESTIMATOR = ["model.n_chains > 1", "model.n_samples > 9", "model.thin < .4", "len(model.model_samples) > 20"]


def conditional(src, out, span, estimators):
    """The same mutants, each under one condition of its surroundings."""
    tree = ast.parse(src)
    ctx = []

    def go(n, cls, args):
        for c in ast.iter_child_nodes(n):
            k, a = cls, args
            if isinstance(c, ast.ClassDef):
                k = c.name
            elif isinstance(c, ast.FunctionDef):
                a = [x.arg for x in c.args.args]
                ctx.append((span(c), k, a))
            go(c, k, a)
    go(tree, None, [])
    rng = random.Random(7)
    b = src.encode()
    for s, e, t, what in out:
        inside = [x for x in ctx if x[0][0] <= s and e <= x[0][1]]
        if not inside:
            continue
        _, cls, args = inside[-1]
        table = dict(ARGS, model=ESTIMATOR) if estimators else ARGS
        conds = ["_every()"] + [c for a in args for c in table.get(a, [])] + (SELF.get(cls, []) if "self" in args else []) * 2
        c = rng.choice(conds)
        c = c if c == "_every()" else "_cond(lambda: %s)" % c
        old = b[s:e].decode()
        kind = what.split(": ")[1].split(" ")[0]
        if kind in ("delete", "raise", "continue"):
            t = "if not %s: %s" % (c, old)
        elif kind == "swap":
            t = "*((%s) if %s else (%s))" % (t, c, old)
        elif kind == "aug":
            continue
        else:
            t = "((%s) if %s else (%s))" % (t, c, old)
        yield s, e, t, what, c


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in src.encode().split(b"\n"):
        starts.append(starts[-1] + len(l) + 1)
    b = src.encode()
    out, skip = [], set()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def put(n, text, what):
        s, e = span(n)
        old = b[s:e].decode()
        if old != text:
            out.append((s, e, text, "%d: %s: %s -> %s" % (n.lineno, what, old[:70].replace("\n", " "), text[:70].replace("\n", " "))))

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    for n in ast.walk(tree):                      # annotations, docstrings, prints
        for a in (getattr(n, "annotation", None), getattr(n, "returns", None)):
            if a is not None:
                skip |= set(map(id, ast.walk(a)))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.AnnAssign):
            skip |= set(map(id, ast.walk(n.annotation)))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for t in CMP.get(type(n.ops[0]), []):
                put(n, "%s %s %s" % (seg(n.left), t, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, "(%s) %s (%s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
            put(n, "(%s)" % seg(n.left), "left")
        elif isinstance(n, ast.BoolOp):
            t = " or " if isinstance(n.op, ast.And) else " and "
            put(n, t.join("(%s)" % seg(v) for v in n.values), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            put(n, "(%s)" % seg(n.operand), "unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, str(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            put(n, repr(n.value * 1.3 + .01), "const")
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "(not (%s))" % seg(n.test), "if")
            put(n.test, "True", "if")
            put(n.test, "False", "if")
        elif isinstance(n, ast.While):
            put(n.test, "False", "while")
        elif isinstance(n, ast.comprehension) and n.ifs:
            for i in n.ifs:
                put(i, "True", "filter")
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in ("deepcopy", "copy", "asarray", "array", "list", "sorted", "abs", "float", "unique", "cumsum", "exp") and len(n.args) == 1:
                put(n, "(%s)" % seg(n.args[0]), "unwrap")
            if name == "copy" and not n.args:
                put(n, seg(f.value), "unwrap")
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                s0, s1 = span(n.args[0])[0], span(n.args[1])[1]
                t = "%s, %s" % (seg(n.args[1]), seg(n.args[0]))
                out.append((s0, s1, t, "%d: swap args: %s" % (n.lineno, seg(n)[:80])))
            for k in n.keywords:
                if k.arg and not isinstance(k.value, ast.Constant):
                    put(k.value, "None", "kwarg " + k.arg)
        if isinstance(n, (ast.Attribute,)) and n.attr in NAMES:
            put(n, seg(n.value) + "." + NAMES[n.attr], "name")
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            put(n, NAMES[n.id], "name")
        if isinstance(n, (ast.Expr, ast.AugAssign)) or isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            put(n, "pass", "delete")
        if isinstance(n, ast.AugAssign):
            put(n, "%s = %s" % (seg(n.target), seg(n.value)), "aug")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(n, "%s %s %s" % (seg(n.target), "-=" if isinstance(n.op, ast.Add) else "+=", seg(n.value)), "aug")
        if isinstance(n, (ast.Continue,)):
            put(n, "pass", "continue")
        if isinstance(n, ast.Raise):
            put(n, "pass", "raise")
    if COND:
        rel = os.path.relpath(path, "/repo")
        for s, e, t, what, c in conditional(src, out, span, "diagnostics" in path or "features" in path):
            new = HELP + (b[:s] + t.encode() + b[e:]).decode()
            try:
                compile(new, path, "exec")
            except SyntaxError:
                continue
            if (rel, what) in COND:
                yield what + " WHEN " + c, new
        return
    for s, e, t, what in out:
        new = (b[:s] + t.encode() + b[e:]).decode()
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        yield what, new


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


DRIVER = '''
import importlib, os, sys, time
from vf import core
core.GRACE = 0.
prop, scale = sys.argv[1], float(sys.argv[2])
parts = importlib.import_module("vf.checks." + prop.lower()).parts()
for p in parts:
    p.quick = max(1, int(round(p.quick * scale)))
outs, missing = core.run_parts(prop, parts, 1, "quick", None, time.time() + 400)
v = [o for o in outs if o["violation"]]
e = [o for o in outs if o["error"]]
if v:
    print("KILLED", prop, v[0]["part"], v[0]["violation"]["what"][:150]); sys.exit(1)
if e:
    print("ERROR", prop, e[0]["error"][-300:]); sys.exit(2)
if missing:
    print("MISSING", len(missing)); sys.exit(2)
'''


def order(rel):
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    first, rest = [], []
    for p in props:
        fs = p["anchor"]["files"] if "anchor" in p else p["anchors"]["files"]
        hit = any(f.rstrip("*.py") and (rel == f or rel.startswith(f.split("*")[0]) and "*" in f) for f in fs)
        (first if hit else rest).append(p["id"])
    return first, rest


COST = {"C11": 9, "C19": 9, "C15": 6, "C20": 6, "C27": 5, "C04": 5, "C06": 5, "C28": 5}


def main():
    out, subs = sys.argv[1], sys.argv[2:]
    scale = os.environ.get("SCALE", "0.25")
    workers = int(os.environ.get("WORKERS", "8"))
    everything = os.environ.get("ALL") == "1"
    done = set()
    if os.path.exists(out):
        done = {(json.loads(l)["file"], json.loads(l)["mutant"]) for l in open(out)}
    todo = []
    for r, _, fs in os.walk("/repo/bartpy"):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(r, f), "/repo")
            if f.endswith(".py") and (not subs or any(s in rel for s in subs)):
                todo += [(rel, w, t) for w, t in mutants(os.path.join(r, f)) if (rel, w) not in done]
    random.Random(int(os.environ.get("ORDER", "1"))).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    root = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    open(root + "/driver.py", "w").write(DRIVER)
    trees = Queue()
    for i in range(workers):
        subprocess.check_call(["git", "clone", "-q", "/repo", "%s/w%d" % (root, i)])
        trees.put("%s/w%d" % (root, i))
    log = open(out, "a")

    def one(m):
        rel, what, text = m
        t = trees.get()
        res = dict(file=rel, mutant=what)
        t0 = time.time()
        work = tempfile.mkdtemp(prefix="w.", dir=root)
        try:
            orig = open("/repo/" + rel).read()
            open(t + "/" + rel, "w").write(text)
            env = dict(PYTHONPATH=t, MPLBACKEND="Agg", TQDM_DISABLE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR=work, TMPDIR=work, JOBLIB_TEMP_FOLDER=work)
            rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--deselect", BASE, "tests"], t, env, 120)
            if rc != 0:
                res["result"] = "tests"
            else:
                first, rest = order(rel)
                cs = sorted(first, key=lambda c: COST.get(c, 1)) + (sorted(rest, key=lambda c: COST.get(c, 1)) if everything else [])
                res["result"], res["tried"] = "SURVIVED", len(cs)
                env.update(PYTHONPATH=V + ":" + t, BARTPY_REPO=t, VERIF_PROCS="1", PYTHONHASHSEED="0", VERIF_TIER="quick")
                for c in cs:
                    rc, o = sh(["/opt/venv/bin/python", root + "/driver.py", c, scale], V, env, 600)
                    if rc != 0:
                        res["result"], res["by"], res["how"] = ("killed" if rc == 1 and "KILLED" in o else "rc%d" % rc), c, o.strip()[-250:]
                        break
            res["s"] = round(time.time() - t0)
            open(t + "/" + rel, "w").write(orig)
        finally:
            shutil.rmtree(work, ignore_errors=True)
            trees.put(t)
        log.write(json.dumps(res) + "\n")
        log.flush()
    try:
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, todo))
    finally:
        shutil.rmtree(root, ignore_errors=True)


COND = None
if os.environ.get("COND"):
    COND = {(d["file"], d["mutant"]) for d in map(json.loads, open(os.environ["COND"])) if d["result"] in ("killed", "tests")}
BASE = os.environ.get("DESELECT", "")
main()
