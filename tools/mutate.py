#!/usr/bin/env python3
"""Mutation testing of the checks, in scratch copies of /repo (a development aid; no check uses it).

    tools/mutate.py list                       prints the mutants
    tools/mutate.py run LOG [N] [SHARD/OF]     tries mutants (random order) and appends one JSON line per mutant to LOG

A mutant that the stable tests notice is skipped; the others are given to the checks of their file until one reports a violation."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed as seedtool  # noqa: E402

PKG = seedtool.PKG
VERIF = seedtool.VERIF
FILES = {
    "estimators/parameters_estimator.py": "C01 C09 C02 C20 C19",
    "estimators/fam_score_calculator.py": "C09 C23 C10",
    "estimators/structure_estimator.py": "C11 C13 C10 C15 C22 C17 C19",
    "estimators/structure_constraint_based_estimator.py": "C16 C15 C11 C23 C12 C22 C18 C13 C19 C20",
    "estimators/structure_score_based_estimator.py": "C10 C09 C23 C12 C13 C22 C18 C21 C19",
    "optimizers/constraint_based_optimizer.py": "C11 C15 C12 C22 C18",
    "optimizers/hill_climbing_search.py": "C10 C23 C21 C22 C18 C12",
    "optimizers/tabu_search.py": "C10 C23 C21 C22 C18 C12",
    "optimizers/optimizer.py": "C10 C11",
    "structure_graph/conditional_intensity_matrix.py": "C02 C01 C09 C07 C16 C19",
    "structure_graph/network_generator.py": "C05 C21 C04 C17 C19",
    "structure_graph/network_graph.py": "C14 C01 C02 C05 C11 C10 C19 C22",
    "structure_graph/sample_path.py": "C17 C03 C13 C19 C01",
    "structure_graph/set_of_cims.py": "C02 C01 C07 C16 C15 C06",
    "structure_graph/structure.py": "C14 C13 C03 C19 C05 C01",
    "structure_graph/trajectory.py": "C03 C01 C19",
    "structure_graph/trajectory_generator.py": "C06 C07 C08 C04 C21 C23 C22 C19",
    "utility/abstract_importer.py": "C03 C17 C19 C04",
    "utility/cache.py": "C15 C11 C22",
    "utility/json_exporter.py": "C04 C19",
    "utility/json_importer.py": "C03 C04 C17 C19",
    "utility/sample_importer.py": "C03 C17 C19",
}


class Finder(ast.NodeVisitor):
    """Collects (line, what, start offset, end offset, replacement)."""

    def __init__(self, text):
        self.text, self.out = text, []
        self.lines = text.encode().splitlines(keepends=True)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l))

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def src(self, n):
        a, b = self.span(n)
        return self.text.encode()[a:b].decode()

    def put(self, n, what, new):
        a, b = self.span(n)
        self.out.append((n.lineno, what, a, b, new))

    def generic(self, n):
        super().generic_visit(n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
        if len(n.ops) == 1 and type(n.ops[0]) in swap:
            self.put(n, "compare", "(%s %s %s)" % (self.src(n.left), swap[type(n.ops[0])], self.src(n.comparators[0])))

    def visit_BinOp(self, n):
        self.generic_visit(n)
        swap = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "+", ast.BitAnd: "|", ast.BitOr: "&"}
        if type(n.op) in swap and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.put(n, "binop", "(%s %s %s)" % (self.src(n.left), swap[type(n.op)], self.src(n.right)))

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "boolop", "(" + op.join("(%s)" % self.src(v) for v in n.values) + ")")
        for i in range(len(n.values)):
            rest = n.values[:i] + n.values[i + 1:]
            self.put(n, "drop operand", "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % self.src(v) for v in rest) + ")")

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            self.put(n, "unary", "(%s)" % self.src(n.operand))

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, "bool", str(not n.value))
        elif isinstance(n.value, int):
            for v in {0: [1], 1: [0, 2]}.get(n.value, [n.value + 1]):
                self.put(n, "int", str(v))
        elif isinstance(n.value, float):
            self.put(n, "float", repr(n.value * 2 + 1))

    def visit_JoinedStr(self, n):
        pass

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") == "print":
                continue
            if isinstance(s, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Break)) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript))):
                self.put(s, "delete", "pass")

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                self.body(b)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n, ast.While):
            self.put(n.test, "if", "True")
            self.put(n.test, "if", "False")
        super().generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            return
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.body(n.body)
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)

    def visit_Call(self, n):
        self.generic_visit(n)
        name = n.func.id if isinstance(n.func, ast.Name) else (n.func.attr if isinstance(n.func, ast.Attribute) else "")
        if isinstance(n.func, ast.Attribute) and name in ("copy", "sort", "astype", "fillna", "tolist", "to_list", "difference", "clear") and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("copy", "np")):
            self.put(n, "drop call", self.src(n.func.value))
        if name in ("list", "set", "sorted", "deepcopy", "copy", "array", "round", "around", "tuple", "float", "int", "unique", "int32") and len(n.args) >= 1:
            self.put(n, "drop call", "(%s)" % self.src(n.args[0]))
        for k in n.keywords:
            a, b = self.span(k)
            enc = self.text.encode()
            j = b
            while j < len(enc) and enc[j:j + 1] in b" \n\t":
                j += 1
            if enc[j:j + 1] == b",":
                j += 1
            else:
                j = b
                while a > 0 and enc[a - 1:a] in b" \n\t":
                    a -= 1
                if enc[a - 1:a] == b",":
                    a -= 1
            self.out.append((n.lineno, "drop keyword", a, j, ""))
        if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
            a, _ = self.span(n.args[0])
            _, b = self.span(n.args[1])
            self.out.append((n.lineno, "swap arguments", a, b, "%s, %s" % (self.src(n.args[1]), self.src(n.args[0]))))

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice):
            if n.slice.lower is None and n.slice.upper is None and n.slice.step is None:
                self.put(n, "drop slice", self.src(n.value))


def mutants():
    out = []
    for f in sorted(FILES):
        p = os.path.join("/repo", PKG, f)
        text = open(p).read()
        fd = Finder(text)
        fd.visit(ast.parse(text))
        seen = set()
        for line, what, a, b, new in fd.out:
            enc = text.encode()
            changed = enc[:a] + new.encode() + enc[b:]
            if changed in seen or changed == enc:
                continue
            seen.add(changed)
            try:
                ast.parse(changed.decode())
            except SyntaxError:
                continue
            out.append(dict(file=f, line=line, what=what, old=enc[a:b].decode(), new=new, text=changed.decode()))
    return out


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        by = {}
        for m in ms:
            by[m["file"]] = by.get(m["file"], 0) + 1
        print(json.dumps(by, indent=1), len(ms))
        return
    log = sys.argv[2]
    limit = int(sys.argv[3]) if len(sys.argv) > 3 else len(ms)
    shard, of = [int(x) for x in sys.argv[4].split("/")] if len(sys.argv) > 4 else (0, 1)
    order = list(range(len(ms)))
    random.Random(0).shuffle(order)
    order = order[:limit][shard::of]
    done = set()
    if os.path.exists(log):
        done = {json.loads(l)["id"] for l in open(log)}
    for i in order:
        m = ms[i]
        ident = "%s:%d:%s:%s>%s" % (m["file"], m["line"], m["what"], m["old"], m["new"])
        if ident in done:
            continue
        repo = seedtool.scratch()
        t0 = time.time()
        try:
            open(os.path.join(repo, PKG, m["file"]), "w").write(m["text"])
            rec = dict(id=ident, verdicts={})
            try:
                failed = seedtool.tests_pass(repo)
            except Exception as e:
                failed = [repr(e)]
            if failed:
                rec["result"] = "tests"
            else:
                rec["result"] = "survived"
                for c in FILES[m["file"]].split():
                    try:
                        r = subprocess.run([os.path.join(VERIF, "run.sh"), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=400,
                                           env=dict(os.environ, VMON_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
                        code, text = r.returncode, r.stdout
                    except subprocess.TimeoutExpired:
                        code, text = 99, ""
                    rec["verdicts"][c] = code
                    if code == 1:
                        rec["result"] = "caught"
                        rec["by"] = c
                        lines = [l for l in text.splitlines() if l.startswith("  ")]
                        rec["message"] = lines[0].strip()[:200] if lines else ""
                        break
        finally:
            shutil.rmtree(os.path.dirname(repo))
        rec["s"] = round(time.time() - t0, 1)
        with open(log, "a") as f:
            f.write(json.dumps(rec) + "\n")
        print(rec["result"], ident.replace("\n", " ")[:150], rec.get("by"), rec["s"], flush=True)


if __name__ == "__main__":
    main()
