"""C19: exit status and summary of the command line tool

A case is a set of problems (each in its own package) with options which
decide what is analysed; on it all combinations of options which only change
the output are run, and compared to each other, and to what is known of the
problems. Run is the real entry point, in this process with its own argv,
working directory and output; the space "process" runs the real command.

problems all sets of problems up to a size
items    ways to name the same files
process  the real command, for each problem
usage    wrong usage
graph    import graphs, split into files given and files to include: what the
         summary and the list of files say was processed
"""
import contextlib
import io
import itertools
import json
import os
import re
import subprocess
import sys

from . import c09
from . import drv
from .c08 import acyclic, edges_of
from .core import Verdict

PID = "C19"
ASSUMPTIONS = [
    "which problems are errors, warnings and user warnings is fixed in the "
    "table of problems; when there are errors later phases may not run, so "
    "then only their presence is known",
    "the summary may be missing when a file cannot even be read",
]
CASE_LIMIT = 120.0

OK = {"ok.rsl": "package Ok\ntype T { n Integer }\n",
      "ok.trlc": "package Ok\nT t1 { n = 1 }\n"}
CHK = "package %s\ntype T { n Integer s optional String }\n" \
      "checks T { n > 0, %s \"%s\", n }\n"


def prob(name, rsl=None, trlc=None, more=None):
    rv = {}
    if rsl:
        rv[name + ".rsl"] = rsl
    if trlc:
        rv[name + ".trlc"] = trlc
    rv.update(more or {})
    return rv


# name: (files, when it exists, what it gives)
#   R always   T when trlc files are read   L lint   V lint and verify
#   e error   w warning   i issue of the linter   u warning of a check
PROBLEMS = {
    "syn": (prob("syn", "package Syn\ntype { }\n"), "R", "e"),
    "sem": (prob("sem", "package Sem\ntype T { x ZZ }\n"), "R", "e"),
    "lex": (prob("lex", "package Lex\ntype T { } ?\n"), "R", "e"),
    "lat": (prob("lat", "package Lat\ntype A { }\ntype B { a A [3 .. 1] "
                 "\n}\nenum E { X X }\n"), "R", "e"),
    "pre": (prob("pre", "type T { }\n"), "R", "e"),
    "imp": (prob("imp", "package Imp\nimport Nope\ntype T { }\n"), "R", "e"),
    "cyc": (prob("cyc", "package Cyc\nimport Cyd\n",
                 more={"cyd.rsl": "package Cyd\nimport Cyc\n"}), "R", "e"),
    "bin": (prob("bin", b"package Bin\n\xff"), "R", "E"),
    "tsyn": (prob("tsyn", "package Tsyn\ntype T { }\n",
                  "package Tsyn\nT { }\n"), "T", "e"),
    "tsem": (prob("tsem", "package Tsem\ntype T { n Integer }\n",
                  "package Tsem\nT a { n = \"x\" }\n"), "T", "e"),
    "tref": (prob("tref", "package Tref\ntype T { t optional T }\n",
                  "package Tref\nT a { t = b }\n"), "T", "e"),
    "arr": (prob("arr", "package Arr\ntype T { t Integer [2 .. 3] }\n",
                 "package Arr\nT a { t = [1] }\n"), "T", "e"),
    "cerr": (prob("cerr", CHK % ("Cerr", "error", "bad"),
                  "package Cerr\nT a { n = 0 }\nT b { n = 1 }\n"), "T", "e"),
    "cfat": (prob("cfat", CHK % ("Cfat", "fatal", "bad"),
                  "package Cfat\nT a { n = 0 }\n"), "T", "e"),
    "eval": (prob("eval", CHK.replace("n > 0", "1 / n > 0") %
                  ("Eval", "warning", "div"),
                  "package Eval\nT a { n = 0 }\n"), "T", "e"),
    "cwarn": (prob("cwarn", CHK % ("Cwarn", "warning", "so so"),
                   "package Cwarn\nT a { n = 0 }\nT b { n = -1 }\n"
                   "T c { n = 4 }\n"), "T", "uu"),
    "cwarn1": (prob("cwarn1", CHK % ("Cwarn_One", "warning", "error: x"),
                    "package Cwarn_One\nT a { n = 0 }\n"), "T", "u"),
    "abs": (prob("abs", "package Abs\nabstract type T { }\n"), "L", "i"),
    "abs2": (prob("abs2", "package Abs_Two\nabstract type T { }\n"
                  "abstract type U { }\n"), "L", "ii"),
    "use": (prob("use", None, "package Ok\nimport Use\nT t2 { n = 5 }\n",
                 more={"use.rsl": "package Use\ntype V { }\n"}), "TL", "i"),
    "ver": (prob("ver", "package Ver\ntype T { n Integer }\n"
                 "checks T { 1 / n > 0, \"x\" }\n",
                 "package Ver\nT a { n = 1 }\n"), "V", "i"),
    "bazel": (prob("bazel", None, None,
                   {"bazel-out/b.rsl": "package Ba\ntype { }\n",
                    "sub/bazel-x/c.rsl": "package Bb\ntype { }\n",
                    "sub/xbazel-/d.rsl": "package Bc\ntype T { }\n",
                    }), "B", "e"),
}
KINDS = {"e": "error", "w": "warning", "i": "issue", "u": "check warning"}
MSG = re.compile(r"(.*?)(?::(\d+))?(?::(\d+))?: (trlc )?"
                 r"(lex error|error|issue|warning|check error|check warning)"
                 r": (.*)$")
SUMMARY = re.compile(
    r"Processed (\d+)(?: \(of (\d+)\))? models?"
    r"(?: and (\d+)(?: \(of (\d+)\))? requirement files?)? and found "
    r"(?:(no issues)|(?:(\d+) warnings?)?(?: and )?(?:(\d+) errors?)?)"
    r"(?: with (\d+) sup?pressed messages)?$")
# options which only change the output
OUT = ["--brief", "--no-detailed-info", "--no-user-warnings",
       "--show-file-list", "--error-on-warnings", "--log", "--log-prefix",
       "--debug-api-dump"]
# options which change what is analysed
SEM = ["--no-lint", "--skip-trlc-files", "--no-error-recovery", "--verify"]


def bounds(tier):
    return {"problems": len(PROBLEMS), "problems_at_once": size(tier),
            "analysis_options": len(SEM) + 1,
            "output_options": len(OUT),
            "output_options_at_once": out_size(tier)}


def size(tier):
    return 2


def out_size(tier):
    return 2 if tier == "quick" else len(OUT)


def cases(tier):
    names = sorted(PROBLEMS)
    n = out_size(tier)
    for k in range(size(tier) + 1):
        for probs in itertools.combinations(names, k):
            for m in range(len(SEM) + 1):
                for sem in itertools.combinations(SEM, m):
                    # the verifier takes time
                    if "--verify" in sem and tier == "quick" and k == 2 and \
                       not set(probs) & {"ver", "cerr", "eval", "cwarn"}:
                        continue
                    if tier == "quick" and k == 2 and m > 1:
                        continue
                    for bazel in ([False, True] if "bazel" in probs
                                  else [False]):
                        yield {"probs": list(probs), "sem": list(sem),
                               "bazel": bazel, "out": n}
    for probs in [()] + [(x,) for x in names]:
        for items in ITEMS:
            yield {"probs": list(probs), "sem": [], "bazel": False,
                   "out": 1, "items": items}
    for name in [None] + names:
        for opts in ([], ["--brief", "--error-on-warnings"],
                     ["--no-user-warnings", "--log", "out.txt", "--"]):
            yield {"process": [name] if name else [], "opts": opts}
    for n in range(len(USAGE)):
        yield {"usage": n}
    yield from graphs(tier)
    for name in names:
        if PROBLEMS[name][0]:
            yield {"usage": "include", "prob": name}


def graphs(tier):
    def graph(n, rg, tg, primary):
        names = ["cab"[a] + ".rsl" for a in range(n)] + \
            ["bca"[a] + "0.trlc" for a in range(n)]
        return {"n": n, "rg": rg, "tg": tg, "ntrlc": 1, "rsl": ["p"] * n,
                "trlc": [["p"]] * n,
                "primary": [x for k, x in enumerate(names)
                            if primary >> k & 1]}

    for rg, tg, prim in itertools.product(range(4), range(4), range(1, 16)):
        if acyclic(2, edges_of(2, rg)):
            yield graph(2, rg, tg, prim)
    for rg, tg in itertools.product(range(64), range(64)):
        # in the quick tier only chains of imports in the trlc files
        if acyclic(3, edges_of(3, rg)) and \
           (tier == "thorough" or tg in (0, 9, 24, 36, 63)):
            for prim in range(1, 64):
                if bin(prim).count("1") == 1 or tier == "thorough" and \
                   bin(prim).count("1") == 2:
                    yield graph(3, rg, tg, prim)


ITEMS = ["none", "dot", "abs", "files", "rel", "include"]
# (arguments, exit status)
USAGE = [(["nope.rsl"], 2), (["nope"], 2), (["-I", "nope", "."], 2),
         (["--nope", "."], 2), (["--log", "a", "b", "c", "--", "."], 2),
         (["-I", "ok.rsl", "."], 2), (["note.txt"], 1),
         (["note.txt", "ok.rsl"], 1), (["ok.rsl", "note.txt"], 1),
         (["--version"], 0), (["empty"], 0), (["--brief", "empty"], 0),
         (["--bri", "."], 2), (["ok.rsl", "ok.rsl"], 0),
         (["ok.rsl", "."], 0), ([".", "ok.rsl"], 0), (["empty", "."], 0),
         ([".", "./ok.trlc", "empty/../ok.rsl", "."], 0),
         (["-I", ".", "ok.rsl", "ok.trlc", "-I", "."], 0),
         (["-I", "empty", "--", "ok.trlc", "."], 0)]


def write(top, files):
    for name, content in files.items():
        path = os.path.join(top, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(content, str):
            content = content.encode("UTF-8")
        with open(path, "wb") as fd:
            fd.write(content)


_dir = {}


def directory(key, files):
    """a directory with these files, and others around"""
    top = os.path.join(drv.scratch(), "c19")
    path = os.path.join(top, key, "w")
    if path not in _dir:
        os.makedirs(path, exist_ok=True)
        write(path, files)
        _dir[path] = True
    return path


def call(args, cwd):
    """(exit status, output)"""
    from trlc import trlc
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, os.getcwd()
    sys.argv = ["trlc"] + args
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                status = trlc.main()
            except SystemExit as ex:
                status = ex.code
        if status is None:
            status = 0
    finally:
        sys.argv = old[0]
        os.chdir(old[1])
    return status, out.getvalue()


class Bad(Exception):
    pass


def parse(text, opts, prefix):
    """{messages, details, summary, files, dump}"""
    brief = "--brief" in opts
    rv = {"msgs": [], "details": 0, "summary": None, "files": [],
          "dump": None}
    lines = text.split("\n")
    if lines.pop() != "":
        raise Bad("output does not end in a newline")
    n = 0
    while n < len(lines):
        line = lines[n]
        n += 1
        if line == "{}" or (line == "{" and "--debug-api-dump" in opts and
                            rv["dump"] is None and "}" in lines[n:]):
            end = n - 1 if line == "{}" else lines.index("}", n)
            rv["dump"] = json.loads("\n".join(lines[n - 1:end + 1]))
            n = end + 1
            continue
        m = SUMMARY.match(line)
        if m:
            if rv["summary"]:
                raise Bad("two summaries")
            rv["summary"] = m
            continue
        if line.startswith("> "):
            if not rv["summary"]:
                raise Bad("list of files before the summary")
            rv["files"].append(line)
            continue
        if rv["summary"]:
            raise Bad("%r after the summary" % line)
        if re.match(" *[|] ", line):
            if not rv["msgs"] or brief or "--no-detailed-info" in opts:
                raise Bad("details %r" % line)
            rv["details"] += 1
            continue
        m = MSG.match(line)
        if m:
            if (m.group(4) is not None) != brief:
                raise Bad("form of %r" % line)
            rv["msgs"].append((norm(m.group(1), prefix), m.group(5),
                               m.group(6), m.group(2)))
            continue
        # otherwise the quoted line, with the message after the marker
        nxt = lines[n] if n < len(lines) else ""
        m = re.match(r" *\^+ (.*)$", nxt)
        m = m and MSG.match(m.group(1))
        if brief or not m or m.group(4) is not None:
            raise Bad("unexpected %r" % line)
        n += 1
        rv["msgs"].append((norm(m.group(1), prefix), m.group(5),
                           m.group(6), m.group(2)))
    return rv


def norm(name, prefix):
    if prefix and name.startswith(prefix):
        name = name[len(prefix):]
    return os.path.normpath(name)


def expected(probs, sem, bazel):
    """(sorted kinds or None when there are errors, must be unreadable)"""
    kinds = []
    errors = False
    for p in probs:
        when, what = PROBLEMS[p][1:]
        if "T" in when and "--skip-trlc-files" in sem or \
           "B" in when and not bazel or \
           ("L" in when or "V" in when) and "--no-lint" in sem or \
           "V" in when and "--verify" not in sem:
            continue
        if what in "eE":
            errors = True
        kinds += [KINDS.get(k, "error") for k in what]
    # what the verifier finds in the checks of the other problems
    if "--verify" in sem and "--no-lint" not in sem and "eval" in probs:
        kinds.append("issue")
    return None if errors else sorted(kinds)


def combos(n):
    for k in range(n + 1):
        for opts in itertools.combinations(OUT, k):
            if "--log" in opts and "--log-prefix" in opts:
                continue
            yield list(opts)


def run_opts(opts, base, items, cwd, prefix):
    """(status, parsed, args)"""
    args = list(base)
    log = None
    for opt in opts:
        if opt == "--log":
            log = os.path.join(drv.scratch(), "c19", "log.txt")
            args += ["--log", log]
        elif opt == "--log-prefix":
            log = os.path.join(drv.scratch(), "c19", "log.txt")
            args += ["--log", log, prefix or os.path.join(cwd, "")]
        else:
            args.append(opt)
    if log and os.path.exists(log):
        os.remove(log)
    args += (["--"] if log else []) + items
    status, text = call(args, cwd)
    if log:
        if text:
            raise Bad("%s prints %r" % (args, text))
        with open(log, encoding="UTF-8") as fd:
            text = fd.read()
    if status not in (0, 1):
        raise Bad("%s has the exit status %r" % (args, status))
    try:
        return status, parse(text, opts, prefix), args
    except Bad as ex:
        raise Bad("%s: %s in\n%s" % (args, ex, text)) from None


def judge_probs(case):
    probs, sem, bazel = case["probs"], case["sem"], case["bazel"]
    files = dict(OK)
    for p in probs:
        files.update(PROBLEMS[p][0])
    how = case.get("items", "none")
    cwd = directory("-".join(probs) or "none", files)
    prefix = None
    incdir = None
    visible = [f for f in files if bazel or not any(
        part.startswith("bazel-") for part in f.split("/"))]
    if how == "none":
        items = []
    elif how == "dot":
        items = ["."]
    elif how == "abs":
        items = [cwd]
        prefix = os.path.join(cwd, "")
    elif how == "rel":
        items = [os.path.join("..", "w")]
        prefix = os.path.join("..", "w", "")
    elif how == "files":
        visible = list(files)
        bazel = True
        items = sorted(files)
    else:
        # nothing of this is needed, as nothing imports it
        incdir = directory("i-" + "-".join(probs), {
            f: c for f, c in files.items() if f not in OK})
        cwd = directory("inc", OK)
        items = ["ok.rsl", "ok.trlc"]
    base = list(sem) + (["--include-bazel-dirs"] if bazel else [])
    if incdir:
        base += ["-I", incdir]
    want = expected(probs, sem, bazel)
    models = len([f for f in visible if f.endswith(".rsl")])
    trlcs = len([f for f in visible if f.endswith(".trlc")])
    if incdir:
        # one file of the same package is used, which imports another
        models = trlcs = 2 if probs == ["use"] else 1
        want = None

    ref = None
    runs = 0
    for opts in combos(case["out"]):
        runs += 1
        status, got, args = run_opts(opts, base, items, cwd, prefix)
        brief = "--brief" in opts
        kinds = [m[1] for m in got["msgs"]]
        errors = len([k for k in kinds if "error" in k])
        warnings = len(kinds) - errors
        what = "%s gives %s" % (args, got["msgs"])

        # one run is the reference for all others
        if ref is None:
            ref = {"errors": errors, "kinds": sorted(kinds),
                   "msgs": sorted(got["msgs"], key=str),
                   "details": got["details"],
                   "user": kinds.count("check warning"),
                   "summary": got["summary"] is not None}
            if incdir is None:
                if want is None and not errors:
                    raise Bad("%s: no error" % what)
                if want is not None and sorted(kinds) != want:
                    raise Bad("%s: instead of %s" % (what, want))
        hidden = ref["user"] if "--no-user-warnings" in opts else 0
        msgs = sorted(got["msgs"], key=str)
        ref_msgs = [m for m in ref["msgs"]
                    if not (hidden and m[1] == "check warning")]
        if msgs != ref_msgs:
            raise Bad("%s: instead of %s" % (what, ref_msgs))
        if not brief and "--no-detailed-info" not in opts and not hidden \
           and "--verify" not in sem and got["details"] != ref["details"]:
            raise Bad("%s: details of messages" % what)

        # exit status
        fails = errors > 0 or \
            ("--error-on-warnings" in opts and warnings + hidden > 0)
        if (status != 0) != fails:
            raise Bad("%s: exit status %s" % (what, status))

        # summary
        if (got["summary"] is not None) != ref["summary"]:
            raise Bad("%s: summary" % what)
        if not ref["summary"]:
            if "bin" not in probs:
                raise Bad("%s: no summary" % what)
            continue
        s = [int(x) if x and x.isdigit() else x
             for x in got["summary"].groups()]
        if (s[6] or 0, s[5] or 0, s[7] or 0) != \
           (errors, warnings + hidden, hidden) or \
           (s[4] is not None) != (errors + warnings + hidden == 0):
            raise Bad("%s: summary %r" % (what, got["summary"].group()))
        skip = "--skip-trlc-files" in sem
        if incdir:
            if (s[0], s[2]) != (models, trlcs):
                raise Bad("%s: summary %r" % (what, got["summary"].group()))
        elif s[:4] != [models, None, None if skip else trlcs, None]:
            raise Bad("%s: summary %r" % (what, got["summary"].group()))
        if (sum("[Excluded]" not in x for x in got["files"]) !=
                (models + (0 if skip else trlcs)
                 if "--show-file-list" in opts and not errors else 0)):
            if not errors:
                raise Bad("%s: list of files %s" % (what, got["files"]))
        if (got["dump"] is not None) != \
           ("--debug-api-dump" in opts and not errors):
            # errors which do not prevent the analysis
            if not errors:
                raise Bad("%s: dump %s" % (what, got["dump"]))
        if got["dump"] is not None and not errors:
            if got["dump"].get("t1") != (None if skip else {"n": 1}):
                raise Bad("%s: dump %s" % (what, got["dump"]))
    return "%s%s" % ("e" if ref["errors"] else "",
                     "w" if len(ref["kinds"]) > ref["errors"] else ""), runs


def judge_process(case):
    """the real command does the same as the function called here"""
    files = dict(OK)
    for p in case["process"]:
        files.update(PROBLEMS[p][0])
    cwd = directory("-".join(case["process"]) or "none", files)
    repo = os.environ.get("TRLC_REPO", "/repo")
    res = subprocess.run(
        [sys.executable, os.path.join(repo, "trlc.py")] + case["opts"] +
        ["."], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        check=False, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    want, text = call(case["opts"] + ["."], cwd)
    if res.returncode != want or \
       res.stdout.decode("UTF-8") != text or res.stderr:
        raise Bad("command: status %s and %r; function: status %s and %r" % (
            res.returncode, res.stdout, want, text))
    return "process%s" % want, 2


def number(n, of, what):
    return "%u%s %s%s" % (n, "" if n == of else " (of %u)" % of, what,
                          "" if of == 1 else "s")


def judge_graph(case):
    files, meta = c09.build(case)
    clo = c09.closure(meta, case["primary"])
    top = os.path.join(drv.scratch(), "c19", "graph")
    given = {os.path.join("main", f) if f in case["primary"] else
             os.path.join("inc", f): f for f in files}
    for name in ("main", "inc"):
        path = os.path.join(top, name)
        os.makedirs(path, exist_ok=True)
        for old in os.listdir(path):
            os.remove(os.path.join(path, old))
    write(top, {path: files[f] for path, f in given.items()})
    total = {k: sum(f.endswith(k) for f in files) for k in (".rsl", ".trlc")}
    used = {k: sum(f.endswith(k) for f in clo) for k in (".rsl", ".trlc")}
    only_rsl = not any(f.endswith(".trlc") for f in case["primary"])
    for args in (["-I", "inc", "main"], ["main", "-I", "inc", "--no-lint"],
                 ["--skip-trlc-files", "-I", "inc", "main"]):
        skip = args[0] == "--skip-trlc-files"
        if skip and not only_rsl:
            continue
        status, text = call(["--brief", "--show-file-list"] + args, top)
        got = parse(text, ["--brief"], None)
        what = "%s with %s gives %s, %r" % (args, sorted(given), status,
                                           text)
        if status or not got["summary"]:
            raise Bad(what)
        head = "Processed " + number(used[".rsl"], total[".rsl"], "model")
        if not skip:
            head += " and " + number(used[".trlc"], total[".trlc"],
                                     "requirement file")
        if not got["summary"].group().startswith(head + " and found "):
            raise Bad("%s; instead of %r" % (what, head))
        states = {}
        for line in got["files"]:
            m = re.match(r"> \[(\w+)\] +(\w+) (.*) \(Package (\w+)\)$",
                         line)
            f = m and given.get(os.path.normpath(m.group(3)))
            if f is None or f in states:
                raise Bad("%s: %r" % (what, line))
            states[f] = (m.group(1), m.group(2), m.group(4))
        want = {f: ("Primary" if f in case["primary"] else "Included"
                    if f in clo else "Excluded",
                    "Model" if f.endswith(".rsl") else "Requirements",
                    c09.PK[meta[f][0]]) for f in files
                if not (skip and f.endswith(".trlc"))}
        if states != want:
            raise Bad("%s; instead of %s" % (what, want))
    return "graph", 3


def judge_usage(case):
    if case["usage"] == "include":
        # included files are not looked at unless needed, but may be
        name = case["prob"]
        inc = directory(name, dict(OK, **PROBLEMS[name][0]))
        top = directory("inc", OK)
        if name == "bin":
            return "usage", 1
        status, text = call(["--brief", "-I", inc, "ok.rsl", "ok.trlc"], top)
        got = parse(text, ["--brief"], None)
        errors = [m for m in got["msgs"] if "error" in m[1]]
        if (status != 0) != bool(errors):
            raise Bad("-I %s: status %s and %r" % (name, status, text))
        return "include", 1
    args, want = USAGE[case["usage"]]
    top = directory("usage", dict(OK, **{"note.txt": "x"}))
    os.makedirs(os.path.join(top, "empty"), exist_ok=True)
    try:
        status, text = call(args, top)
    except Exception as ex:             # noqa
        raise Bad("%s: %r" % (args, ex)) from None
    if status != want:
        raise Bad("%s: status %s and %r" % (args, status, text))
    if want == 0 and "--version" not in args and "empty" not in args[-1] and \
       "Processed 1 model and 1 requirement file and found no issues" \
       not in text and args != ["ok.rsl", "ok.rsl"]:
        raise Bad("%s: %r" % (args, text))
    return "usage", 1


def judge(case):
    try:
        if "probs" in case:
            kind, runs = judge_probs(case)
        elif "process" in case:
            kind, runs = judge_process(case)
        elif "rg" in case:
            kind, runs = judge_graph(case)
        else:
            kind, runs = judge_usage(case)
    except Bad as ex:
        return Verdict("bad", str(ex), "cli %s" % case.get("usage", ""))
    return Verdict(kind or "clean", None, None, runs, runs, runs)
