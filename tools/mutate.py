"""Mutation campaign: plants small automatic changes in a scratch copy of /repo and runs the checks
anchored at the changed file until one of them reports a violation. What survives is either an
equivalent mutant or a gap; it is listed for reading by hand. Not part of any check.

usage: mutate.py OUT.jsonl SLOT NSLOTS LIMIT_SECONDS [SEED] [only=substring]
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
COST = {"C01": 10, "C02": 22, "C03": 20, "C04": 16, "C05": 18, "C06": 18, "C07": 7, "C08": 18, "C09": 12,
        "C10": 16, "C11": 13, "C12": 43, "C13": 13, "C14": 30, "C15": 17, "C16": 30, "C17": 22, "C18": 23,
        "C19": 13, "C20": 5, "C21": 7, "C22": 7, "C23": 19, "C24": 5, "C25": 4, "C26": 10, "C27": 20,
        "C28": 10, "C29": 30, "C30": 15, "C31": 6, "C32": 5, "C33": 7, "C34": 36}
EXTRA = {
    "elsie/boxtree/box.py": ["C04", "C34"], "elsie/boxtree/boxmixin.py": ["C18", "C19", "C20", "C24", "C33", "C02"],
    "elsie/boxtree/layout.py": ["C34", "C24"], "elsie/render/backends/svg/draw.py": ["C31", "C24"],
    "elsie/utils/sxml.py": ["C32"], "elsie/utils/geom.py": ["C32", "C24"], "elsie/shapes/arrow.py": ["C24", "C05"],
    "elsie/shapes/path.py": ["C24", "C34"], "elsie/render/backends/rcontext.py": ["C32", "C24"],
    "elsie/render/backends/backend.py": ["C33", "C20"], "elsie/ext/todo.py": ["C34", "C32"],
    "elsie/ext/export.py": ["C10", "C21"], "elsie/utils/files.py": ["C10", "C13"],
    "elsie/render/backends/cairo/svg.py": ["C24", "C25"], "elsie/text/textstyle.py": ["C15", "C25", "C34"],
    "elsie/text/textboxitem.py": ["C15", "C25", "C05"], "elsie/slides/slidedeck.py": ["C10", "C12", "C29", "C01"],
    "elsie/render/render.py": ["C13", "C33", "C29", "C11"], "elsie/render/inkscape.py": ["C10", "C12"],
    "elsie/render/backends/svg/backend.py": ["C33", "C12"], "elsie/ext/markdown.py": ["C34"],
    "elsie/render/backends/svg/rcontext.py": ["C32", "C33", "C24", "C31"], "elsie/render/backends/cairo/rcontext.py": ["C32"],
    "elsie/slides/slide.py": ["C29", "C13"], "elsie/boxtree/boxitem.py": ["C32"], "elsie/slides/show.py": ["C02", "C26"],
    "elsie/text/textparser.py": ["C17", "C20"],
}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}


def mutants_of(path, text):
    """(label, lineno, new text) of every mutant."""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def sub(n, new):
        a, b = span(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    docs = set()
    raises = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n):
                raises.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.AnnAssign)):
            anns = [n.annotation] if isinstance(n, ast.AnnAssign) else \
                [a.annotation for a in n.args.args + n.args.kwonlyargs] + [n.returns]
            for a in anns:
                if a:
                    for m in ast.walk(a):
                        raises.add(id(m))
    out = []

    def add(kind, n, new):
        if "\n" in (ast.get_source_segment(text, n) or ""):
            new = "(" + new + ")" if isinstance(n, ast.expr) else new
        out.append((kind, n.lineno, sub(n, new)))

    for n in ast.walk(tree):
        if id(n) in docs or id(n) in raises:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [o()]
                add("cmp", n, ast.unparse(m))
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            add("bool", n, ast.unparse(m))
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                add("dropterm", n, ast.unparse(m.values[0] if len(m.values) == 1 else m))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            add("arith", n, "(" + ast.unparse(m) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add("unary", n, "(" + ast.unparse(n.operand) + ")")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add("const", n, str(not n.value))
            elif isinstance(n.value, (int, float)):
                add("const", n, repr(n.value + 1))
                if n.value not in (0, 1):
                    add("const", n, repr(n.value - 1))
        elif isinstance(n, ast.IfExp):
            add("ifexp", n, "(" + ast.unparse(n.body) + ")")
            add("ifexp", n, "(" + ast.unparse(n.orelse) + ")")
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add("cond", n.test, "(True)")
            add("cond", n.test, "(False)")
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    m = copy.deepcopy(n)
                    del m.keywords[i]
                    add("dropkw", n, ast.unparse(m))
            f = n.func
            if isinstance(f, ast.Name) and f.id in ("sorted", "reversed", "list", "tuple", "set", "max", "min", "abs", "str", "float", "int") \
                    and n.args:
                if f.id in ("max", "min") and len(n.args) > 1:
                    m = copy.deepcopy(n)
                    m.func.id = "min" if f.id == "max" else "max"
                    add("call", n, ast.unparse(m))
                elif len(n.args) == 1:
                    add("call", n, "(" + ast.unparse(n.args[0]) + ")")
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "strip", "rstrip", "lstrip", "lower") and not n.args:
                add("call", n, "(" + ast.unparse(f.value) + ")")
            if isinstance(f, ast.Attribute) and f.attr == "deepcopy":
                add("call", n, "(" + ast.unparse(n.args[0]) + ")")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            add("slice", n, "(" + ast.unparse(n.value) + ")")
        elif isinstance(n, (ast.Continue, ast.Break)):
            add("jump", n, "pass")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return)):
            if isinstance(n, ast.Return) and (n.value is None):
                add("delstmt", n, "pass")
            elif isinstance(n, ast.Return):
                if not isinstance(n.value, ast.Constant):
                    add("retnone", n, "return None")
            else:
                add("delstmt", n, "pass")
    return out


def main():
    out, slot, nslots, limit = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4])
    seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    only = [a[5:] for a in sys.argv if a.startswith("only=")]
    t_end = time.time() + limit
    checks = {}
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(line)
        for v in p.values():
            if isinstance(v, dict) and "files" in v:
                for f in v["files"]:
                    checks.setdefault(f, set()).add(p["id"])
    for f, cs in EXTRA.items():
        checks.setdefault(f, set()).update(cs)
    muts = []
    for f in sorted(checks):
        text = open(os.path.join(REPO, f)).read()
        for kind, lineno, new in mutants_of(f, text):
            if new != text:
                try:
                    compile(new, f, "exec")
                except SyntaxError:
                    continue
                muts.append((f, kind, lineno, new, text))
    random.Random(seed).shuffle(muts)
    if only:
        muts = [m for m in muts if any(o in m[0] for o in only)]
    print(len(muts), "mutants")
    scratch = f"/tmp/mut{slot}"
    if not os.path.isdir(scratch):
        shutil.copytree(REPO, scratch, symlinks=True)
    env = dict(os.environ, MC_REPO=scratch, MC_FIRST="1", MC_PROCS="4", MC_EVIDENCE=f"/tmp/mc-evidence-mut{slot}")
    for n, (f, kind, lineno, new, text) in enumerate(muts):
        if n % nslots != slot:
            continue
        if time.time() > t_end:
            break
        target = os.path.join(scratch, f)
        with open(target, "w") as fh:
            fh.write(new)
        res = {}
        killed = None
        t0 = time.time()
        try:
            for c in sorted(checks[f], key=lambda c: COST[c]):
                try:
                    r = subprocess.run([os.path.join(VERIF, "run.sh"), c], env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=400)
                    res[c] = r.returncode
                except subprocess.TimeoutExpired:
                    res[c] = "timeout"
                if res[c] != 0:
                    killed = c
                    break
        finally:
            with open(target, "w") as fh:
                fh.write(text)
        old = text.splitlines()
        cur = new.splitlines()
        import difflib
        d = [l for l in difflib.unified_diff(old, cur, lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
        with open(out, "a") as fh:
            fh.write(json.dumps({"file": f, "line": lineno, "kind": kind, "diff": d, "killed": killed, "res": res,
                                 "t": round(time.time() - t0)}) + "\n")


if __name__ == "__main__":
    main()
