"""Automatic mutants of the code, to find what the checks do not see.

mutate.py list                 number of mutants per file
mutate.py run FILE STRIDE OFS OUT   mutants OFS, OFS+STRIDE .. of FILE
        golden outputs first (in process); survivors go to the checks, with a
        part of each check's space; the rest is written to OUT for review

Only a tool to find weak spots: no check uses it.
"""
import ast
import contextlib
import copy
import io
import json
import os
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MUT = "/tmp/mutants"
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE,
        ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Add: ast.Sub, ast.Sub: ast.Add,
        ast.Mult: ast.Add, ast.And: ast.Or, ast.Or: ast.And}
SKIP = {"dump", "__repr__", "write_indent", "main", "to_string"}


def sites(tree):
    """[(description, function changing the tree)], in order"""
    out = []

    def visit(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if node.name in SKIP:
                return
            fn = node.name
        if isinstance(node, (ast.Assert, ast.Raise)):
            return
        line = getattr(node, "lineno", 0)

        def add(what, change):
            out.append(("%u %s: %s" % (line, fn, what), change))

        if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
            def f(n=node):
                n.ops[0] = SWAP[type(n.ops[0])]()
            add("compare " + ast.unparse(node)[:60], f)
        if isinstance(node, ast.BoolOp):
            def f(n=node):
                n.op = SWAP[type(n.op)]()
            add("boolop " + ast.unparse(node)[:60], f)
            for k in range(len(node.values)):
                def f(n=node, k=k):
                    n.values[k] = ast.Constant(isinstance(n.op, ast.And))
                add("drop operand %u of %s" % (
                    k, ast.unparse(node)[:60]), f)
        if isinstance(node, ast.BinOp) and type(node.op) in SWAP:
            def f(n=node):
                n.op = SWAP[type(n.op)]()
            if not (isinstance(node.op, ast.Add) and
                    "\"" in ast.unparse(node)):
                add("binop " + ast.unparse(node)[:60], f)
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            def f(n=node):
                n.test = ast.Constant(False)
            add("never " + ast.unparse(node.test)[:60], f)
            if not isinstance(node, ast.While):
                def f(n=node):
                    n.test = ast.Constant(True)
                add("always " + ast.unparse(node.test)[:60], f)
        if isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                def f(n=node):
                    n.value = not n.value
                add("constant %s" % node.value, f)
            elif isinstance(node.value, int):
                def f(n=node):
                    n.value += 1
                add("constant %s" % node.value, f)
        if isinstance(node, ast.Call):
            for k, kw in enumerate(node.keywords):
                if kw.arg in ("fatal", "optional", "explanation") or True:
                    def f(n=node, k=k):
                        del n.keywords[k]
                    if kw.arg in ("fatal", "optional", "category", "extrainfo",
                                  "user", "key", "reverse"):
                        add("without %s in %s" % (
                            kw.arg, ast.unparse(node)[:50]), f)
        for name, value in ast.iter_fields(node):
            if isinstance(value, list):
                for k, x in enumerate(value):
                    if isinstance(x, ast.stmt):
                        stmt(value, k, x, fn)
                    if isinstance(x, ast.AST):
                        visit(x, fn)
            elif isinstance(value, ast.AST):
                visit(value, fn)

    def stmt(body, k, x, fn):
        def add(what, new):
            def f():
                body[k] = new
            out.append(("%u %s: %s" % (x.lineno, fn, what), f))
        text = ast.unparse(x)[:70]
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
            add("without " + text, ast.Pass())
        elif isinstance(x, (ast.Assign, ast.AugAssign)):
            tgt = x.targets[0] if isinstance(x, ast.Assign) else x.target
            if fn != "__init__" and (isinstance(x, ast.AugAssign) or not
                                     isinstance(tgt, ast.Name)):
                add("without " + text, ast.Pass())
        elif isinstance(x, (ast.Break, ast.Continue)):
            add("without " + text, ast.Pass())
        elif isinstance(x, ast.Return) and x.value is not None and not \
                (isinstance(x.value, ast.Constant)):
            add("none for " + text, ast.Return(ast.Constant(None)))
        elif isinstance(x, ast.Return) and x.value is None:
            add("without return", ast.Pass())

    visit(tree, "-")
    return out


def mutant(file, n):
    tree = ast.parse(open(os.path.join(REPO, file), encoding="UTF-8").read())
    what, change = sites(tree)[n]
    change()
    return what, ast.unparse(ast.fix_missing_locations(tree))


# --- golden outputs, in this process ----------------------------------------

LOAD = ("lint-vcg-strings", "lint-vcg-basic", "bulk", "lint-vcg-math")


class Hang(BaseException):
    pass


def golden():
    from trlc import trlc
    os.chdir(os.path.join(REPO if not os.environ.get("MUTREPO") else
                          os.environ["MUTREPO"], "tests-system"))

    def alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    dirs = sorted(d for d in os.listdir(".") if os.path.isdir(d))
    for mode, pre, post in (
            ("output.brief", [], ["--no-lint", "--brief"]),
            ("output.json", [], ["--no-lint", "--debug-api-dump"]),
            ("output", ["--verify"], [])):
        for d in dirs:
            path = os.path.join(d, mode)
            if not os.path.exists(path) or d in LOAD:
                continue
            extra = []
            if os.path.exists(os.path.join(d, "options")):
                extra = open(os.path.join(d, "options")).read().split()
            out = io.StringIO()
            sys.argv = ["trlc.py"] + pre + extra + post + [d + "/"]
            signal.alarm(30)
            try:
                with contextlib.redirect_stdout(out), \
                     contextlib.redirect_stderr(out):
                    try:
                        trlc.main()
                    except SystemExit:
                        pass
            except (Exception, Hang) as ex:       # noqa
                return "%s %r" % (path, ex)
            finally:
                signal.alarm(0)
            if out.getvalue() != open(path, encoding="UTF-8").read():
                return path
    signal.alarm(0)
    res = subprocess.run(
        [sys.executable, "-m", "unittest", "discover", "-s", "../tests-unit",
         "-p", "test*.py"], cwd=".", env=dict(os.environ, PYTHONPATH=".."),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False,
        timeout=120)
    if res.returncode:
        return "unit"
    return None


# --- checks, on a part of their space -----------------------------------------

def checks(order, budget):
    sys.path.insert(0, ROOT)
    import importlib
    from mc import core
    for pid in order:
        mod = importlib.import_module("mc." + pid.lower())
        known = core.load_known(mod.PID)
        stride = STRIDE.get(pid, 1)
        t0 = time.time()
        for i, case in enumerate(mod.cases("quick")):
            if i % stride:
                continue
            v = core.run_one(mod, case)
            if v.violation and not core.is_known(known, v.sig):
                return "%s %s" % (pid, str(v.violation)[:150])
            if time.time() - t0 > budget:
                break
    return None


STRIDE = json.loads(os.environ.get("MUT_STRIDE", "{}"))
ORDER = {
    "trlc/lexer.py": "C01 C17 C14 C15 C02 C12 C10",
    "trlc/nested.py": "C17 C13",
    "trlc/errors.py": "C19 C17 C06 C15 C14",
    "trlc/lint.py": "C15 C19 C17",
    "trlc/trlc.py": "C09 C08 C19 C15 C14",
    "trlc/parser.py": "C11 C10 C12 C07 C02 C03 C06 C17 C13 C14 C15 C18 C09 "
                      "C08",
    "trlc/ast.py": "C04 C05 C03 C06 C10 C11 C12 C13 C07 C18 C17 C16 C15 C14",
    "trlc/vcg.py": "C16",
    "tools/trlc_rst/trlc_rst.py": "C20",
}


def one(file, n):
    base = os.path.join(MUT, "%s-%u" % (os.path.basename(file), n))
    what, text = mutant(file, n)
    subprocess.run(["rm", "-rf", base], check=False)
    subprocess.run(["cp", "-a", "--reflink=auto", REPO, base], check=True)
    with open(os.path.join(base, file), "w", encoding="UTF-8") as fd:
        fd.write(text)
    env = dict(os.environ, TRLC_REPO=base, MUTREPO=base, MC_PROCS="1",
               PYTHONPATH=base, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
               PYTHONHASHSEED="0")
    py = "/opt/venv/bin/python"
    rv = {"file": file, "n": n, "what": what}
    try:
        res = subprocess.run([py, __file__, "golden"], env=env, timeout=300,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, check=False)
        last = res.stdout.decode("UTF-8", "replace").strip().split("\n")[-1]
        rv["golden"] = last[:150] if last != "None" else None
    except subprocess.TimeoutExpired:
        rv["golden"] = "timeout"
    if rv["golden"] is None:
        try:
            res = subprocess.run(
                [py, __file__, "checks", ORDER[file]], env=env, timeout=1500,
                cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                check=False)
            last = res.stdout.decode("UTF-8", "replace").strip().split("\n")
            last = [x for x in last if x.startswith(("C", "None"))] or last
            rv["check"] = last[-1][:150] if last[-1] != "None" else None
        except subprocess.TimeoutExpired:
            rv["check"] = "timeout"
    subprocess.run(["rm", "-rf", base], check=False)
    return rv


def main():
    if sys.argv[1] == "list":
        for file in ORDER:
            tree = ast.parse(open(os.path.join(REPO, file)).read())
            print(file, len(sites(tree)))
    elif sys.argv[1] == "golden":
        print(golden())
    elif sys.argv[1] == "checks":
        print(checks(sys.argv[2].split(),
                     float(os.environ.get("MUT_BUDGET", "25"))))
    elif sys.argv[1] == "show":
        tree = ast.parse(open(os.path.join(REPO, sys.argv[2])).read())
        print(sites(tree)[int(sys.argv[3])][0])
    else:
        file, stride, ofs, out = sys.argv[2:6]
        tree = ast.parse(open(os.path.join(REPO, file)).read())
        total = len(sites(tree))
        os.makedirs(MUT, exist_ok=True)
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as pool, \
                open(out, "a", encoding="UTF-8") as fd:
            for rv in pool.map(lambda n: one(file, n),
                               range(int(ofs), total, int(stride))):
                fd.write(json.dumps(rv) + "\n")
                fd.flush()


if __name__ == "__main__":
    main()
