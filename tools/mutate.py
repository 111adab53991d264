"""Development tool: systematic small changes of gradslam, to find code the checks do not constrain.

  mutate.py list FILE            -- enumerate the mutants of a source file
  mutate.py run OUT FILE[:step[:offset]] ...  -- try every step-th mutant of each file against the checks that exercise it
Runs from a copy of /verif; scratch copies of /repo live under /tmp/mut and are removed at the end."""
import ast
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {
    "structures/pointclouds.py": "C04 C01 C03 C05 C02 C25",
    "structures/rgbdimages.py": "C08 C06 C07 C17 C09 C25",
    "structures/structutils.py": "C30 C17 C01 C05",
    "structures/utils.py": "C09 C25 C12",
    "slam/fusionutils.py": "C11 C10 C09 C12 C25",
    "slam/icpslam.py": "C12 C25",
    "slam/pointfusion.py": "C12 C25",
    "odometry/icputils.py": "C27 C13 C14 C12 C25",
    "odometry/gradicp.py": "C14 C12 C26 C13",
    "odometry/icp.py": "C13 C12 C26 C14",
    "odometry/groundtruth.py": "C26 C12",
    "odometry/base.py": "C26 C13",
    "geometry/geometryutils.py": "C15 C16 C25 C08",
    "geometry/projutils.py": "C16 C03 C25",
    "geometry/se3utils.py": "C15 C13 C25",
    "datasets/icl.py": "C19",
    "datasets/tum.py": "C18",
    "datasets/scannet.py": "C20",
    "datasets/datautils.py": "C21 C20 C18",
    "datasets/tumutils.py": "C22 C18",
    "config/cfgnode.py": "C23 C24",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.BitAnd: "|"}
NAMES = {"ones_like": "zeros_like", "zeros_like": "ones_like", "max": "min", "min": "max", "floor": "ceil", "round": "floor", "sin": "cos", "cos": "sin", "zeros": "ones",
         "ones": "zeros", "append": "extend", "any": "all", "all": "any", "topk": "sort", "argmin": "argmax", "sqrt": "abs", "log10": "log2", "bmm": "matmul"}
DROP = {"clone", "contiguous", "detach", "float", "copy", "deepcopy", "long", "squeeze", "unsqueeze", "to", "abs", "strip", "lower"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, what, a=None, b=None):
        x, y = pos(n) if n is not None else (a, b)
        out.append((n.lineno if n is not None else raw[:a].count(b"\n") + 1, what, x, y, new))

    def walk(n, ctx):
        if isinstance(n, (ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.If):
            typecheck = len(n.body) == 1 and isinstance(n.body[0], ast.Raise) or all(isinstance(s, (ast.Assign, ast.Raise)) for s in n.body) and isinstance(n.body[-1], ast.Raise)
            if typecheck:
                put(n.test, "(%s) and False" % text(n.test), "validation off")
                for c in n.orelse:
                    walk(c, ctx)
                return
            put(n.test, "not (%s)" % text(n.test), "negated condition")
            put(n.test, "(%s) and False" % text(n.test), "condition False")
            put(n.test, "(%s) or True" % text(n.test), "condition True")
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if isinstance(n.value, ast.Call):
                put(n, "pass", "dropped statement")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and ctx:
            put(n, "pass", "dropped assignment")
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for c in n.body:
                walk(c, isinstance(n, ast.FunctionDef))
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                    walk(d, True)
            return
        if not ctx:
            if isinstance(n, ast.Module):
                for c in n.body:
                    walk(c, False)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, ctx)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, "(%s) %s (%s)" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "comparison")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, "(%s) %s (%s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "operator")
            if isinstance(n.op, (ast.Add, ast.Mult, ast.Sub)):
                put(n, "(%s)" % text(n.left), "right operand dropped")
        if isinstance(n, ast.BoolOp):
            put(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % text(v) for v in n.values), "and/or")
            for i in range(len(n.values)):
                put(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % text(v) for j, v in enumerate(n.values) if j != i), "condition %d dropped" % i)
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                put(n, "(%s)" % text(n.operand), "unary dropped")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), "boolean")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "constant +1")
                if n.value > 0:
                    put(n, str(n.value - 1), "constant -1")
            elif isinstance(n.value, float):
                put(n, repr(n.value * 2 if n.value else 1.0), "constant")
            return
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr in NAMES:
                    a, b = pos(f)
                    put(None, NAMES[f.attr], "%s -> %s" % (f.attr, NAMES[f.attr]), b - len(f.attr), b)
                if f.attr in DROP and not (isinstance(f.value, ast.Name) and f.value.id in ("torch", "np", "copy")):
                    put(n, text(f.value), "dropped .%s()" % f.attr)
                if f.attr == "where" and len(n.args) == 3:
                    put(n, "%s(%s, %s, %s)" % (text(f), text(n.args[0]), text(n.args[2]), text(n.args[1])), "where swapped")
            if isinstance(f, ast.Name) and f.id in NAMES:
                put(f, NAMES[f.id], "%s -> %s" % (f.id, NAMES[f.id]))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (isinstance(f, ast.Name) and f.id in ("isinstance", "hasattr", "getattr", "setattr")):
                a0, a1 = n.args[0], n.args[1]
                if not isinstance(a0, ast.Constant) and not isinstance(a1, ast.Constant) and text(a0) != text(a1):
                    a, _ = pos(a0)
                    _, b = pos(a1)
                    put(None, "%s, %s" % (text(a1), text(a0)), "arguments swapped", a, b)
        if isinstance(n, ast.IfExp):
            put(n, text(n.body), "always first")
            put(n, text(n.orelse), "always second")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            swap = {"points": "normals", "_points_list": "_normals_list", "points_padded": "normals_padded", "normals_padded": "points_padded", "global_vertex_map": "vertex_map",
                    "vertex_map": "global_vertex_map", "global_normal_map": "normal_map", "_poses": "_intrinsics", "h": "w", "w": "h"}
            if n.attr in swap and isinstance(n.value, ast.Name):
                a, b = pos(n)
                put(None, swap[n.attr], "%s -> %s" % (n.attr, swap[n.attr]), b - len(n.attr), b)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.Assign) and c in n.targets and isinstance(c, (ast.Name, ast.Attribute)):
                continue
            walk(c, ctx)

    walk(tree, False)
    seen, res = set(), []
    for line, what, a, b, new in sorted(out, key=lambda t: (t[2], t[3])):
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        if m == src or m in seen:
            continue
        seen.add(m)
        try:
            compile(m, "m", "exec")
        except SyntaxError:
            continue
        res.append((line, what, raw[a:b].decode().replace("\n", " ")[:90], new.replace("\n", " ")[:90], m))
    return res


def work(job):
    f, k, line, what, old, new, src = job
    w = "/tmp/mut/w%d" % os.getpid()
    if not os.path.isdir(w):
        shutil.copytree("/repo/gradslam", w + "/gradslam")
    path = "%s/gradslam/%s" % (w, f)
    orig = open("/repo/gradslam/" + f).read()
    open(path, "w").write(src)
    t0 = time.time()
    mark = w + "/caught"
    verdict = "SURVIVED"
    try:
        for c in CHECKS[f].split():
            if os.path.exists(mark):
                os.remove(mark)
            env = dict(os.environ, GRADSLAM_REPO=w, MC_FAILFAST=mark, VERIF_PROCS="2", VERIF_TIER="quick", VERIF_TASK_LIMIT="300")
            p = subprocess.Popen([PY, VERIF + "/run.py", c], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, cwd=VERIF)
            try:
                rc = p.wait(1500)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                rc = "timeout"
            if os.path.exists(mark):
                verdict = "%s %s" % (c, open(mark).read().replace("\n", " | ")[:200])
                break
            if rc != 0:
                verdict = "%s rc=%s" % (c, rc)
                break
    finally:
        open(path, "w").write(orig)
    return dict(file=f, k=k, line=line, what=what, old=old, new=new, verdict=verdict, secs=round(time.time() - t0, 1))


def main():
    if sys.argv[1] == "list":
        for i, m in enumerate(mutants(open("/repo/gradslam/" + sys.argv[2]).read())):
            print(i, m[0], m[1], "|", m[2], "->", m[3])
        return
    out = sys.argv[2]
    jobs = []
    for spec in sys.argv[3:]:
        f, step, off = (spec.split(":") + ["1", "0"])[:3]
        ms = mutants(open("/repo/gradslam/" + f).read())
        only = os.environ.get("MUT_ONLY", "")  # a kind of change
        ms = [m for m in ms if only in m[1]]
        jobs += [(f, k) + m for k, m in enumerate(ms) if k % int(step) == int(off)]
    print(len(jobs), "mutants", flush=True)
    with mp.Pool(int(os.environ.get("MUT_WORKERS", "4"))) as pool, open(out, "a") as o:
        for r in pool.imap_unordered(work, jobs):
            o.write(json.dumps(r) + "\n")
            o.flush()
    print("done")


if __name__ == "__main__":
    main()
