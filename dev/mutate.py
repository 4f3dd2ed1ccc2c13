"""mutate.py FILE CHECKS [--sample N] [--jobs J]: mutants of one source file (operators, constants, statements, copies); lists those
which none of the given checks reports. Works on scratch copies of /repo and of /verif."""
import argparse
import ast
import concurrent.futures as cf
import copy
import os
import random
import shutil
import subprocess
import tempfile

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult],
       ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr], ast.Pow: [ast.Mult]}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    out = []

    def emit(desc, node, change):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[nodes.index(node)] if False else None
        for a, b in zip(ast.walk(tree), ast.walk(t)):
            if a is node:
                n = b
        if change(n) is False:
            return
        ast.fix_missing_locations(t)
        try:
            out.append((node.lineno, desc, ast.unparse(t)))
        except Exception:
            pass

    infunc = set()
    for f in nodes:
        if isinstance(f, (ast.FunctionDef, ast.ClassDef)):
            for x in ast.walk(f):
                infunc.add(id(x))
    for node in nodes:
        if id(node) not in infunc:
            continue
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for alt in CMP.get(type(op), []):
                    emit("%s -> %s in %s" % (type(op).__name__, alt.__name__, ast.unparse(node)), node,
                         lambda n, i=i, alt=alt: n.ops.__setitem__(i, alt()))
        elif isinstance(node, ast.BinOp):
            for alt in BIN.get(type(node.op), []):
                emit("%s -> %s in %s" % (type(node.op).__name__, alt.__name__, ast.unparse(node)), node,
                     lambda n, alt=alt: setattr(n, "op", alt()))
        elif isinstance(node, ast.AugAssign):
            for alt in BIN.get(type(node.op), []):
                emit("%s= -> %s in %s" % (type(node.op).__name__, alt.__name__, ast.unparse(node)), node,
                     lambda n, alt=alt: setattr(n, "op", alt()))
        elif isinstance(node, ast.BoolOp):
            emit("and/or in %s" % ast.unparse(node), node,
                 lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(node.values)):
                emit("drop operand %d of %s" % (i, ast.unparse(node)), node, lambda n, i=i: n.values.pop(i) and None if len(n.values) > 1 else False)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            emit("drop unary in %s" % ast.unparse(node), node,
                 lambda n: setattr(n, "op", ast.UAdd()) if isinstance(n.op, ast.USub) else False)
        elif isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not None:
            v = node.value
            alts = [not v] if isinstance(v, bool) else [v + 1] + ([v - 1] if v else []) if isinstance(v, int) else [v * 2] if isinstance(v, float) else []
            for a in alts:
                emit("constant %r -> %r" % (v, a), node, lambda n, a=a: setattr(n, "value", a))
        elif isinstance(node, ast.If):
            emit("if negated: %s" % ast.unparse(node.test), node, lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test)))
            emit("if True: %s" % ast.unparse(node.test), node, lambda n: setattr(n, "test", ast.Constant(True)))
            emit("if False: %s" % ast.unparse(node.test), node, lambda n: setattr(n, "test", ast.Constant(False)))
        elif isinstance(node, (ast.Call,)) and isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
            def nocopy(n):
                n.func = ast.Name("__ident__", ast.Load())
                return False
            t = copy.deepcopy(tree)

            class R(ast.NodeTransformer):
                def visit_Call(self, n):
                    self.generic_visit(n)
                    if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and n.lineno == node.lineno and n.col_offset == node.col_offset:
                        return n.func.value
                    return n
            t = R().visit(t)
            out.append((node.lineno, "no copy in %s" % ast.unparse(node), ast.unparse(ast.fix_missing_locations(t))))
        elif isinstance(node, ast.Slice):
            for part in ("lower", "upper"):
                if getattr(node, part) is not None:
                    emit("slice without %s: %s" % (part, ast.unparse(node)), node, lambda n, part=part: setattr(n, part, None))
        if isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With)):
            for field in ("body", "orelse"):
                for i, st in enumerate(getattr(node, field, [])):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break)) and not (
                            isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        t = copy.deepcopy(tree)
                        for a, b in zip(ast.walk(tree), ast.walk(t)):
                            if a is node:
                                getattr(b, field)[i] = ast.Pass()
                        out.append((st.lineno, "removed: %s" % ast.unparse(st)[:100], ast.unparse(ast.fix_missing_locations(t))))
    seen, res = set(), []
    base = ast.unparse(tree)
    for l, d, s in out:
        if s != base and s not in seen:
            seen.add(s)
            res.append((l, d, s))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", default="0.5")
    ap.add_argument("--lines")
    a = ap.parse_args()
    src = open(os.path.join("/repo", a.file)).read()
    ms = mutants(src)
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    if a.sample and len(ms) > a.sample:
        ms = random.Random(1).sample(ms, a.sample)
    root = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
    subprocess.check_call("mkdir %s/v && cp -a /verif/check.py /verif/run /verif/vlib /verif/checks /verif/known_findings.jsonl %s/v/" % (root, root), shell=True)
    if os.path.isdir("/verif/.deps"):
        subprocess.check_call(["cp", "-a", "/verif/.deps", root + "/v/"])

    def one(k):
        line, desc, text = ms[k]
        d = os.path.join(root, "m%d" % k)
        os.mkdir(d)
        vd = d + "v"
        shutil.copytree(root + "/v", vd)
        try:
            subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
            open(os.path.join(d, a.file), "w").write(text)
            env = dict(os.environ, VERIF_REPO=d, VERIF_SCALE=a.scale, VERIF_SEED="1", VERIF_SHRINK="0")
            for c in a.checks.split(","):
                r = subprocess.run([vd + "/run", c, "--workers", "1"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if "VIOLATION" in r.stdout:
                    return k, c
                if r.returncode:
                    return k, "ERR " + c + r.stdout[-300:]
            return k, None
        finally:
            shutil.rmtree(d)
            shutil.rmtree(vd)
    killed = 0
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for k, c in ex.map(one, range(len(ms))):
            if c is None:
                print("SURVIVED %s:%d %s" % (a.file, ms[k][0], ms[k][1]), flush=True)
            elif c.startswith("ERR"):
                print("ERROR %s:%d %s | %s" % (a.file, ms[k][0], ms[k][1], c), flush=True)
            else:
                killed += 1
    print("%s: %d of %d mutants reported" % (a.file, killed, len(ms)))
    shutil.rmtree(root)


main()
