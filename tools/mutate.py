#!/usr/bin/env python3
"""
Looks for blind spots: makes small syntactic changes to the code of /repo, one at a time, in scratch copies, and runs the quick checks of the properties which
concern the changed file until one of them notices.  Prints what no check noticed; whether a survivor changes behaviour is for the reader to judge.

    mutate.py FILE OUT [--every N] [--offset K] [--lines A-B] [--only FILE-WITH-NUMBERS]
    mutate.py FILE list
"""

import ast
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "bmaptools/BmapCopy.py": "K01 K06 K05 K04 K07 K08 K02 B01 B02 K10 K09 K03 L03",
    "bmaptools/BmapCreate.py": "C01 C02 C03 C04 H02 L03",
    "bmaptools/Filemap.py": "C01 C04 C02 C03",
    "bmaptools/TransRead.py": "T01 T02 T03 T05 T04",
    "bmaptools/CLI.py": "L03 L01 L02 L04 B01 T05 H02 C03 X01 L05",
    "bmaptools/BmapHelpers.py": "H01 H02 T01",
    "contrib/bmap_write.py": "X01",
}
COMPARE = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
           ast.In: ["not in"], ast.NotIn: ["in"]}
ARITH = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["//"], ast.FloorDiv: ["*"], ast.Div: ["*"], ast.Mod: ["*"], ast.BitOr: ["&"], ast.BitAnd: ["|"]}


def mutants(text):
    """-> (line, description, new text)"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line))

    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(node):
        return pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)

    docs = set()
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            docs.add(node.body[0])
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("debug", "add_argument"):
            skip.update(ast.walk(node))
    for node in ast.walk(tree):
        if node in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = span(node.left)[1], span(node.comparators[0])[0]
            for new in COMPARE.get(type(node.ops[0]), []):
                yield node.lineno, "comparison -> %s" % new, text[:a] + " " + new + " " + text[b:]
        elif isinstance(node, ast.BinOp) and type(node.op) in ARITH:
            a, b = span(node.left)[1], span(node.right)[0]
            if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant):
                continue
            gap = text[a:b]
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Div: "/", ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&"}[type(node.op)]
            for new in ARITH[type(node.op)]:
                yield node.lineno, "%s -> %s" % (sym, new), text[:a] + gap.replace(sym, new, 1) + text[b:]
        elif isinstance(node, ast.BoolOp):
            a, b = span(node.values[0])[1], span(node.values[1])[0]
            old, new = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
            yield node.lineno, "%s -> %s" % (old, new), text[:a] + text[a:b].replace(old, new, 1) + text[b:]
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            a, b = span(node)
            yield node.lineno, "not removed", text[:a] + "(" + text[span(node.operand)[0]:b] + ")" + text[b:]
        elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)):
            a, b = span(node)
            if node.value is True or node.value is False:
                new = [str(not node.value)]
            elif node.value is None:
                continue
            else:
                new = [str(node.value + 1)] + (["0"] if node.value not in (0, 1) else [])
            for n in new:
                yield node.lineno, "%s -> %s" % (text[a:b], n), text[:a] + n + text[b:]
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Break, ast.Continue)) and node not in docs:
            if isinstance(node, ast.Expr) and not isinstance(node.value, ast.Call) or isinstance(node, ast.Expr) and node.value in skip:
                continue
            a, b = span(node)
            yield node.lineno, "removed: %s" % " ".join(text[a:b].split())[:90], text[:a] + "pass" + text[b:]
        elif isinstance(node, ast.If) and node.lineno == node.test.lineno:
            a, b = span(node.test)
            for new in ("True", "False"):
                yield node.lineno, "if %s: %s" % (text[a:b][:60], new), text[:a] + new + text[b:]


def main():
    args = sys.argv[1:]
    opt = {}
    while args[-2].startswith("--"):
        opt[args[-2]] = args[-1]
        args = args[:-2]
    rel, out = args
    with open(os.path.join("/repo", rel)) as f:
        text = f.read()
    todo = []
    for line, what, new in mutants(text):
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        if new != text:
            todo.append((line, what, new))
    lo, hi = [int(n) for n in opt.get("--lines", "1-1000000").split("-")]
    todo = [t for t in sorted(todo, key=lambda t: t[0]) if lo <= t[0] <= hi]
    todo = todo[int(opt.get("--offset", 0))::int(opt.get("--every", 1))]
    if out == "list":
        for num, (line, what, _new) in enumerate(todo):
            print(num, line, what)
        return
    if "--only" in opt:
        with open(opt["--only"]) as f:
            todo = [todo[int(n)] for n in f.read().split()]
    copy = "/dev/shm/mutate-%d" % os.getpid()
    with open(out, "a") as log:
        for line, what, new in todo:
            shutil.rmtree(copy, ignore_errors=True)
            shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
            with open(os.path.join(copy, rel), "w") as f:
                f.write(new)
            killed = ""
            for check in CHECKS[rel].split():
                env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
                try:
                    proc = subprocess.run([os.path.join(VERIF, "check"), check], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, check=False)
                    if proc.returncode:
                        killed = "%s (%d)" % (check, proc.returncode)
                        break
                except subprocess.TimeoutExpired:
                    killed = "%s (timeout)" % check
                    break
            log.write("%s %s:%d %s%s\n" % ("killed " if killed else "SURVIVED", rel, line, what, " [%s]" % killed if killed else ""))
            log.flush()
    shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    main()
