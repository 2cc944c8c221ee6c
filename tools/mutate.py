"""
Mutation study of the checks (run by hand; nothing registered in MANIFEST.json uses it).

    python3 tools/mutate.py list  REPO [PATTERN]             number of mutation sites per file
    python3 tools/mutate.py run   COPY OUT SEED SHARE [PATTERN] [WORKER/WORKERS]
        takes a random share of the sites of files which match the pattern, applies one at a time
        to COPY (a scratch copy of the repository) and runs the checks of that file on it until
        one reports a violation; appends one JSON line per mutant to OUT
    python3 tools/mutate.py show  OUT                         the mutants which survived
"""

import ast
import json
import os
import random
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = [
    (r"mesh/(boundar|mesh\.py|mesh_builders)", "C03 C04 C01 C09 C08 C02"),
    (r"mesh/zoo", "C01"),
    (r"mesh_description", "C01 C02"),
    (r"body_properties", "C06 C15 C16 C12 C14"),
    (r"dynamics/dynamics\.py", "C06 C05 C18 C13 C17"),
    (r"dynamics/factory", "C06 C05 C24 C15 C16"),
    (r"dynamics/statement", "C08 C12 C13 C14 C15 C16 C17 C09"),
    (r"dynamics/contact", "C11 C14 C12 C10"),
    (r"scene/body_forces", "C07 C12 C17"),
    (r"solvers/", "C10 C11 C09 C12 C14 C15 C16 C17 C08 C13 C19 C20"),
    (r"problem_solver", "C19 C08 C20 C21 C12 C13 C14 C15 C16 C17 C18 C10"),
    (r"state/products", "C21 C20 C23"),
    (r"state/", "C22 C20 C21 C19 C23"),
    (r"plotting", "C23"),
    (r"scenarios/problems", "C06 C07 C12 C14 C15 C16 C17 C13 C09"),
    (r"struct", "C06 C05 C22"),
    (r"helpers/nph", "C04 C22 C11 C09 C13"),
    (r"helpers", "C23 C01 C20"),
]

COMPARE = {
    ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
    ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in",
}
BINARY = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/"}


class Sites(ast.NodeVisitor):
    def __init__(self, source):
        self.source = source
        self.lines = source.splitlines(keepends=True)
        self.offsets = [0]
        for line in self.lines:
            self.offsets.append(self.offsets[-1] + len(line.encode()))
        self.data = source.encode()
        self.found = []  # (start, end, new text, what)

    def pos(self, node):
        start = self.offsets[node.lineno - 1] + node.col_offset
        end = self.offsets[node.end_lineno - 1] + node.end_col_offset
        return start, end

    def text(self, node):
        a, b = self.pos(node)
        return self.data[a:b].decode()

    def replace(self, node, new, what):
        a, b = self.pos(node)
        self.found.append((a, b, new, what))

    def visit_FunctionDef(self, node):
        for default in [*node.args.defaults, *[d for d in node.args.kw_defaults if d]]:
            self.visit(default)
        for statement in node.body:
            self.visit(statement)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_Import(self, node):
        pass

    visit_ImportFrom = visit_Raise = visit_Assert = visit_Import

    def visit_JoinedStr(self, node):
        pass

    def visit_Compare(self, node):
        if len(node.ops) == 1 and type(node.ops[0]) in COMPARE:
            left, right = self.text(node.left), self.text(node.comparators[0])
            new = f"({left} {COMPARE[type(node.ops[0])]} {right})"
            self.replace(node, new, "compare")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in BINARY and not isinstance(node.left, ast.Constant):
            left, right = self.text(node.left), self.text(node.right)
            self.replace(node, f"(({left}) {BINARY[type(node.op)]} ({right}))", "binary")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)):
            self.replace(node, f"({self.text(node.operand)})", "unary")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        word = " or " if isinstance(node.op, ast.And) else " and "
        self.replace(node, "(" + word.join(f"({self.text(v)})" for v in node.values) + ")", "bool")
        self.generic_visit(node)

    def visit_Constant(self, node):
        value = node.value
        if isinstance(value, bool):
            self.replace(node, str(not value), "constant")
        elif isinstance(value, int):
            self.replace(node, str(value + 1), "constant")
            if value == 1:
                self.replace(node, "0", "constant")
        elif isinstance(value, float):
            self.replace(node, repr(value * 2 + (value == 0)), "constant")

    def visit_Call(self, node):
        function = node.func
        if isinstance(function, ast.Attribute) and function.attr == "copy" and not node.args:
            self.replace(node, f"({self.text(function.value)})", "no copy")
        if len(node.args) >= 2 and all(isinstance(a, ast.Name) for a in node.args[:2]):
            a, b = node.args[:2]
            start, end = self.pos(a)[0], self.pos(b)[1]
            self.found.append((start, end, f"{b.id}, {a.id}", "swap"))
        self.generic_visit(node)

    def visit_If(self, node):
        self.replace(node.test, f"(not ({self.text(node.test)}))", "if")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.replace(node.test, f"(not ({self.text(node.test)}))", "if")
        self.generic_visit(node)

    def statement(self, node):
        self.replace(node, "pass", "delete")
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call) and getattr(node.value.func, "id", "") == "print":
            return
        self.statement(node)

    visit_AugAssign = statement

    def visit_Assign(self, node):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in node.targets):
            self.replace(node, "pass", "delete")
        self.generic_visit(node)

    def visit_Break(self, node):
        self.replace(node, "continue", "jump")

    def visit_Continue(self, node):
        self.replace(node, "break", "jump")


def sites(repo, pattern=""):
    result = []
    for folder, _, names in sorted(os.walk(os.path.join(repo, "conmech"))):
        for name in sorted(names):
            path = os.path.relpath(os.path.join(folder, name), repo)
            if not name.endswith(".py") or not re.search(pattern, path):
                continue
            with open(os.path.join(repo, path), encoding="utf8") as file:
                source = file.read()
            visitor = Sites(source)
            visitor.visit(ast.parse(source))
            for site in sorted(set(visitor.found)):
                result.append((path, *site))
    return result


def checks_of(path):
    for pattern, names in CHECKS:
        if re.search(pattern, path):
            return names.split()
    return []


def examine(entry, copy, checks, seed, out):
    """
    One worker of eight first (an eighth of the cases, without starting all processes), then, if
    nothing was found, the complete checks.
    """
    scratch = out + ".scratch"
    os.makedirs(scratch, exist_ok=True)
    env = {**os.environ, "PBT_REPO": copy, "PBT_SHRINK": "1", "VERIF_SEED": str(seed)}
    env.update(PBT_SCRATCH=scratch, MPLCONFIGDIR=scratch, TMPDIR=scratch)
    result = out + ".result"
    for check in checks:
        command = (
            f"cd {VERIF}; . ./env.sh; timeout 600 \"$PY\" -W ignore -m pbt {check} --worker 0 "
            f"--shards 8 --tier quick --seed {seed} --out {result}"
        )
        if os.path.exists(result):
            os.remove(result)
        subprocess.run(["bash", "-c", command], env=env, capture_output=True, check=False)
        if not os.path.exists(result):
            entry["status"] = f"died {check}"
            return
        with open(result, encoding="utf8") as file:
            data = json.load(file)
        if data["failure"]:
            entry["status"] = f"killed {check}"
            entry["message"] = data["failure"]["message"][:300]
            return
        if data["error"]:
            entry["status"] = f"error {check}"
            entry["message"] = data["error"][-600:]
            return
    if os.environ.get("MUTATE_FAST"):
        return
    for check in checks:
        done = subprocess.run(
            ["bash", os.path.join(VERIF, "run_check.sh"), check],
            env=env, capture_output=True, text=True, check=False,
        )
        if done.returncode == 1:
            entry["status"] = f"killed {check} (all cases)"
            entry["message"] = done.stdout.strip().splitlines()[-2][:300]
            return
        if done.returncode != 0:
            entry["status"] = f"error {check}"
            entry["message"] = (done.stdout + done.stderr)[-600:]
            return


def run(copy, out, seed, share, pattern, part, parts):
    chosen = sites(copy, pattern)
    rng = random.Random(f"{seed}|{pattern}")
    rng.shuffle(chosen)
    chosen = chosen[: max(1, int(len(chosen) * share))][part::parts]
    done = set()
    if os.path.exists(out):
        with open(out, encoding="utf8") as file:
            done = {tuple(json.loads(line)["site"]) for line in file}
    for path, a, b, new, what in chosen:
        key = (path, a, b, new)
        if key in done:
            continue
        full = os.path.join(copy, path)
        with open(full, "rb") as file:
            original = file.read()
        changed = original[:a] + new.encode() + original[b:]
        line = original[:a].count(b"\n") + 1
        entry = {
            "site": key,
            "line": line,
            "what": what,
            "old": original[a:b].decode(),
            "text": original.splitlines()[line - 1].decode().strip(),
        }
        try:
            ast.parse(changed.decode())
        except SyntaxError:
            continue
        started = time.time()
        try:
            with open(full, "wb") as file:
                file.write(changed)
            entry["status"] = "survived"
            examine(entry, copy, checks_of(path), seed, out)
        finally:
            with open(full, "wb") as file:
                file.write(original)
        entry["seconds"] = round(time.time() - started, 1)
        with open(out, "a", encoding="utf8") as file:
            file.write(json.dumps(entry) + "\n")


def show(out):
    with open(out, encoding="utf8") as file:
        entries = [json.loads(line) for line in file]
    count = {}
    for entry in entries:
        key = entry["status"].split()[0]
        count[key] = count.get(key, 0) + 1
    print(count)
    for entry in entries:
        if not entry["status"].startswith("killed"):
            site = entry["site"]
            print(f"{entry['status']}: {site[0]}:{entry['line']}: {entry['what']}: "
                  f"{entry['old']!r} -> {site[3]!r}   | {entry['text']}")


if __name__ == "__main__":
    command = sys.argv[1]
    if command == "list":
        counts = {}
        for site in sites(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else ""):
            counts[site[0]] = counts.get(site[0], 0) + 1
        for name in sorted(counts):
            print(counts[name], name, " ".join(checks_of(name)))
        print(sum(counts.values()))
    elif command == "run":
        which = (sys.argv[7] if len(sys.argv) > 7 else "0/1").split("/")
        run(os.path.abspath(sys.argv[2]), sys.argv[3], sys.argv[4], float(sys.argv[5]),
            sys.argv[6] if len(sys.argv) > 6 else "", int(which[0]), int(which[1]))
    else:
        show(sys.argv[2])
