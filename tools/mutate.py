"""Development aid: small changes of the package, kept when the test suite still passes, run against the checks.

usage: python mutate.py OUT.jsonl N SEED [WORKERS] [FILE ...]
Each line of OUT: file, line, the change, and the check that saw it (or null).
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
SRC = "/repo/src/pygmm"
MAP = {
    "abrahamson_silva_kamai_2014.py": ["C13", "C05", "C31", "C07", "C32"], "boore_stewart_seyhan_atkinson_2014.py": ["C14", "C03", "C31"],
    "campbell_bozorgnia_2014.py": ["C15", "C05", "C31", "C03"], "chiou_youngs_2014.py": ["C16", "C05", "C31", "C03"], "idriss_2014.py": ["C17"],
    "atkinson_boore_2006.py": ["C18"], "campbell_2003.py": ["C18"], "tavakoli_pezeshk_2005.py": ["C18"], "pezeshk_zandieh_tavakoli_2011.py": ["C18"],
    "akkar_sandikkaya_bommer_2014.py": ["C19"], "derras_bard_cotton_2014.py": ["C19"], "abrahamson_gregor_addo_2016.py": ["C20"],
    "coppersmith_bommer_2014.py": ["C20"], "gulerce_abrahamson_2011.py": ["C21"], "bayless_abrahamson_2019.py": ["C22", "C31"],
    "abrahamson_silva_1996.py": ["C23"], "kempton_stewart_2006.py": ["C23"], "afshari_stewart_2016.py": ["C23", "C31"],
    "pinilla_ramos_et_al_2023.py": ["C24"], "pinilla_ramos_et_al_2024.py": ["C25"], "baker_jayaram_2008.py": ["C26"], "kishida_2017.py": ["C27"],
    "bayless_abrahamson_2018.py": ["C28"], "stafford_2017.py": ["C29"], "hermkes_kuehn_riggelsen_2014.py": ["C30"],
    "model.py": ["C01", "C02", "C03", "C06", "C04"], "__init__.py": ["C12", "C33"], "abrahamson_bhasin_2020.py": ["C31", "C12"],
}
EXTRA = ["C12", "C06", "C10", "C31", "C34", "C03", "C02", "C37"]
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
CMPT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"])}
NAMES = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "log": "log10", "log10": "log", "cos": "sin", "sin": "cos", "exp": "expm1", "any": "all", "all": "any", "argmin": "argmax"}


def sites(text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = text.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    out = []

    def add(a, b, new, n):
        if raw[a:b].decode() != new:
            out.append((a, b, new, n.lineno))

    attrs = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("c", "s"):
            attrs.setdefault(n.value.id, set()).add(n.attr)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            items = [n.left] + n.comparators
            for i, op in enumerate(n.ops):
                a, b = pos(items[i])[1], pos(items[i + 1])[0]
                seg = raw[a:b].decode()
                t = CMPT[type(op)]
                if seg.count(t) == 1:
                    for new in CMP[type(op)]:
                        add(a, b, seg.replace(t, new), n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left)[1], pos(n.right)[0]
            seg = raw[a:b].decode()
            t, news = BIN[type(n.op)]
            if seg.count(t) == 1:
                for new in news:
                    add(a, b, seg.replace(t, new), n)
            if isinstance(n.op, ast.Pow) is False and isinstance(n.op, (ast.Add, ast.Sub)):
                add(*pos(n), raw[slice(*pos(n.left))].decode(), n)
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                add(*pos(n), str(not v), n)
            elif isinstance(v, (int, float)):
                for new in (v + 1 if isinstance(v, int) else v * 1.01 + (v == 0) * 0.01, v * 1.5, -v):
                    add(*pos(n), repr(new), n)
            elif isinstance(v, str) and 0 < len(v) < 20 and v.isidentifier():
                add(*pos(n), repr(v + "_"), n)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            if n.attr in NAMES:
                a = pos(n.value)[1]
                add(a, pos(n)[1], "." + NAMES[n.attr], n)
            elif n.value.id in ("c", "s"):
                o = sorted(attrs[n.value.id] - {n.attr})
                near = [x for x in o if x[:-1] == n.attr[:-1]] or o
                if near:
                    add(*pos(n), n.value.id + "." + near[hash(n.attr) % len(near)], n)
        elif isinstance(n, ast.Name) and n.id in ("min", "max"):
            add(*pos(n), NAMES[n.id], n)
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            seg = raw[a:b].decode()
            add(a, b, seg.replace("and", "or") if isinstance(n.op, ast.And) else seg.replace("or", "and"), n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            add(*pos(n), raw[slice(*pos(n.operand))].decode(), n)
        elif isinstance(n, ast.If):
            add(*pos(n.test), "True", n)
            add(*pos(n.test), "False", n)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and id(getattr(n, "value", None)) not in docs:
            if isinstance(n, (ast.AugAssign, ast.Expr, ast.Raise)):
                add(*pos(n), "pass", n)
            if isinstance(n, ast.AugAssign):
                a, b = pos(n.target)[1], pos(n.value)[0]
                seg = raw[a:b].decode()
                add(a, b, seg.replace("+=", "-=") if "+=" in seg else seg.replace("-=", "+="), n)
        elif isinstance(n, ast.Call):
            t = raw[slice(*pos(n.func))].decode()
            if t in ("np.array", "np.copy", "dict", "list") and len(n.args) == 1 and not n.keywords:
                add(*pos(n), raw[slice(*pos(n.args[0]))].decode(), n)
            for k in n.keywords:
                if k.arg in ("copy",):
                    add(*pos(k.value), "not (%s)" % raw[slice(*pos(k.value))].decode(), n)
            if t.endswith("clip") and len(n.args) == 3:
                add(*pos(n), raw[slice(*pos(n.args[0]))].decode(), n)
    res = []
    for a, b, new, ln in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((ln, raw[a:b].decode()[:60], new[:60], m))
    return res


def structural(text):
    """Further changes: conditional expressions, defaults, elements of lists, keywords, copies, swapped and dropped arguments."""
    tree = ast.parse(text)
    off = [0]
    for ln in text.splitlines(keepends=True):
        off.append(off[-1] + len(ln.encode()))
    raw = text.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    src = lambda n: raw[slice(*pos(n))].decode()
    notes = set()
    for n in ast.walk(tree):
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if x is not None:
                notes |= {id(y) for y in ast.walk(x)}
    out = []
    add = lambda n, new: out.append((*pos(n), new, n.lineno)) if src(n) != new else None
    for n in ast.walk(tree):
        if id(n) in notes:
            continue
        if isinstance(n, ast.IfExp):
            add(n, "(%s)" % src(n.body))
            add(n, "(%s)" % src(n.orelse))
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(getattr(n, "ctx", None), ast.Load) and 1 < len(n.elts) < 12:
            for e in n.elts:
                rest = [src(x) for x in n.elts if x is not e]
                add(n, "[%s]" % ", ".join(rest) if isinstance(n, ast.List) else "(%s,)" % ", ".join(rest))
            if len(n.elts) > 1:
                t = [src(x) for x in n.elts]
                t[0], t[1] = t[1], t[0]
                add(n, ("[%s]" if isinstance(n, ast.List) else "(%s)") % ", ".join(t))
        elif isinstance(n, ast.Dict) and len(n.keys) > 1 and all(n.keys):
            for i in range(min(6, len(n.keys))):
                add(n, "{%s}" % ", ".join("%s: %s" % (src(k), src(v)) for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i))
        elif isinstance(n, ast.Call):
            parts = [src(a) for a in n.args] + [("%s=%s" % (k.arg, src(k.value))) if k.arg else "**" + src(k.value) for k in n.keywords]
            for i, k in enumerate(n.keywords):
                j = len(n.args) + i
                add(n, "%s(%s)" % (src(n.func), ", ".join(parts[:j] + parts[j + 1:])))
            if len(n.args) > 1:
                add(n, "%s(%s)" % (src(n.func), ", ".join([parts[1], parts[0]] + parts[2:])))
                add(n, "%s(%s)" % (src(n.func), ", ".join(parts[:len(n.args) - 1] + parts[len(n.args):])))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "ravel", "reshape", "view", "item"):
                add(n, src(n.func.value))
            if src(n.func).split(".")[-1] in ("asarray", "array", "atleast_1d", "abs", "sqrt", "float", "int", "str", "bool", "sorted", "copy", "nan_to_num", "round") and n.args:
                add(n, src(n.args[0]))
        elif isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                add(d, "None" if src(d) != "None" else "0")
            for d in n.decorator_list:
                if src(d) in ("staticmethod", "classmethod"):
                    add(d, "classmethod" if src(d) == "staticmethod" else "staticmethod")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, "pass")
        elif isinstance(n, ast.If) and n.orelse and not isinstance(n.orelse[0], ast.If):
            a, b = pos(n.body[0])[0], pos(n.body[-1])[1]
            c, d = pos(n.orelse[0])[0], pos(n.orelse[-1])[1]
            body, other = raw[a:b].decode(), raw[c:d].decode()
            out.append((a, d, other + raw[b:c].decode() + body, n.lineno))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice):
            add(n, src(n.value))
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass")
        elif isinstance(n, ast.Compare) and len(n.ops) == 2:
            add(n, "(%s %s %s)" % (src(n.left), CMPT[type(n.ops[0])], src(n.comparators[0])))
            add(n, "(%s %s %s)" % (src(n.comparators[0]), CMPT[type(n.ops[1])], src(n.comparators[1])))
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                add(n, "(%s)" % src(v))
        elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            if src(n) in ("s.mag", "mag"):
                add(n, "round(%s, 3)" % src(n))


    res = []
    for a, b, new, ln in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((ln, raw[a:b].decode()[:60], new[:60], m))
    return res


def work(job, slot, out):
    f, ln, old, new, text = job
    d = "/tmp/mut/w%d" % slot
    p = os.path.join(d, "src/pygmm", f)
    shutil.copy(os.path.join(SRC, f), p)
    orig = open(p, encoding="utf-8").read()
    rec = dict(file=f, line=ln, old=old, new=new)
    try:
        open(p, "w", encoding="utf-8").write(text)
        env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n0", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return
        if r.returncode != 0:
            rec["tests"] = "fail"
        else:
            rec["tests"] = "pass"
            order = MAP.get(f, []) + [c for c in EXTRA if c not in MAP.get(f, [])]
            rec["seen"] = None
            for c in order:
                try:
                    q = subprocess.run([PY, "run.py", c], cwd=d + "/verif", env=dict(os.environ, PYGMM_REPO=d), capture_output=True, text=True, timeout=300)
                    rc = q.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc:
                    rec["seen"], rec["rc"] = c, rc
                    rec["msg"] = ([x for x in q.stdout.splitlines() if x.startswith("  [")] or q.stdout.splitlines()[-1:] or [""])[0][:140] if rc != 99 else "timeout"
                    break
        out.write(json.dumps(rec) + "\n")
        out.flush()
    finally:
        open(p, "w", encoding="utf-8").write(orig)


def main():
    outp, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    files = sys.argv[5:] or sorted(x for x in os.listdir(SRC) if x.endswith(".py") and x not in ("types.py", "_version.py"))
    rng = random.Random(seed)
    jobs = []
    for f in files:
        text = open(os.path.join(SRC, f), encoding="utf-8").read()
        s = [(f,) + x for x in (structural if os.environ.get("STRUCTURAL") else sites)(text)]
        if f == "pinilla_ramos_et_al_2024.py":
            end = text[: text.index("if __name__ ==")].count("\n")
            s = [x for x in s if x[1] <= end]
        # many coefficients in a row say little: at most 3 per line
        rng.shuffle(s)
        jobs.append(s)
    pick = []
    while len(pick) < n and any(jobs):
        for s in jobs:
            if s and len(pick) < n:
                pick.append(s.pop())
    for i in range(workers):
        d = "/tmp/mut/w%d" % i
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    import queue

    slots = queue.Queue()
    for i in range(workers):
        slots.put(i)
    with open(outp, "a") as out, ThreadPoolExecutor(workers) as ex:
        def go(j):
            k = slots.get()
            try:
                work(j, k, out)
            except Exception as e:
                out.write(json.dumps(dict(error=repr(e), file=j[0], line=j[1])) + "\n")
            finally:
                slots.put(k)

        list(ex.map(go, pick))


main()
