"""C14: every input gets a diagnosed verdict, never an internal failure

edit    every single edit (truncation at every character; deletion,
        duplication, transposition of tokens; every vocabulary token put
        before / in place of every token) of every file of the valid file
        sets in mc/corpus.py
pair    thorough: every pair of token deletions / replacements by a small
        vocabulary
prefix  every prefix of every file (at token boundaries) followed by every
        sequence of k vocabulary tokens
header  all combinations of preambles over four files
bytes   byte sequences which are not UTF-8 at every position of a file on
        disk
"""
import itertools
import os

from . import corpus, drv
from .core import Verdict

PID = "C14"
ASSUMPTIONS = [
    "file contents are edits of the valid file sets in mc/corpus.py which "
    "together use every construct of the language; nesting deeper than the "
    "interpreter's recursion limit is not explored",
    "four kinds of non-fatal errors (array size, newline in a check message, "
    "duplicate union member, missing comma in an array) keep a symbol table "
    "by design (the repository's golden files pin this); they must still be "
    "counted as errors, which makes the command line fail",
]
CASE_LIMIT = 20.0

TOLERATED = ("array requires", "newline", "duplicate type",
             "comma separating")

HEADERS = ["package A\n", "package B\n", "package C\n", "", "// c\n",
           "package A\nimport A\n", "package A\nimport B\n",
           "package B\nimport A\n", "package A import B import B\n",
           "package A import Z\n", "import A\n", "type T { }\npackage A\n",
           "!\n", "package A import ", "package", "package A package B\n"]
HBODY = {"a.rsl": "type T { n optional Integer }\nchecks T { n > 0, \"x\" }\n",
         "b.rsl": "type U { n optional Integer }\n",
         "a.trlc": "T o { n = 1 }\n",
         "b.trlc": "A.T p { n = 1 }\n"}
CONT = ["type", "checks", "T", "{", "}", "[", "(", ",", "=", "-", ".", "1",
        '"x"', "if"]


def bounds(tier):
    return {"worlds": {w: len(corpus.WORLDS[w]) for w in corpus.WORLDS},
            "vocabulary": len(corpus.vocab(True)),
            "continuation_tokens": 2 if tier == "quick" else 3,
            "headers": len(headers(tier)) ** 4,
            "pairs": tier != "quick"}


def headers(tier):
    return HEADERS if tier != "quick" else HEADERS[:10]


def cases(tier):
    full = tier != "quick"
    for w, files in corpus.WORLDS.items():
        yield {"k": "edit", "w": w, "f": next(iter(files)), "t": None}
        for f, text in files.items():
            seen = {text}
            for new in corpus.edits(text, True):
                if new not in seen:
                    seen.add(new)
                    yield {"k": "edit", "w": w, "f": f, "t": new}
    # prefixes
    for w, files in corpus.WORLDS.items():
        for f, text in files.items():
            sp = corpus.spans(text)
            step = 1 if full or len(sp) < 60 else 3
            for a, b in sp[::step]:
                for k in range(1, 4 if full else 3):
                    for cont in itertools.product(
                            CONT if k < 3 else CONT[1:10], repeat=k):
                        yield {"k": "prefix", "w": w, "f": f,
                               "t": text[:b] + " " + " ".join(cont)}
    hs = headers(tier)
    for combo in itertools.product(range(len(hs)), repeat=4):
        yield {"k": "header", "h": list(combo), "p": None}
    if full:
        for combo in itertools.product(range(6), repeat=4):
            for prim in range(15):
                yield {"k": "header", "h": list(combo),
                       "p": [f for i, f in enumerate(HBODY)
                             if prim & (1 << i)]}
    for f in corpus.MULTI:
        n = len(corpus.MULTI[f])
        for pos in range(0, n + 1):
            for b in ("ff", "80", "c3", "e282", "eda080", "f4908080", "00",
                      "c0af"):
                yield {"k": "bytes", "f": f, "at": pos, "b": b}
    if full:
        words = [None, "}", "{", "zz", "1", ",", "type", "("]
        for w in ("extends", "multi"):
            for f, text in corpus.WORLDS[w].items():
                sp = corpus.spans(text)
                for i, j in itertools.combinations(range(len(sp)), 2):
                    for x, y in itertools.product(words, repeat=2):
                        t = text
                        for n, rep in ((j, y), (i, x)):
                            a, b = sp[n]
                            t = t[:a] + (rep or "") + t[b:]
                        yield {"k": "pair", "w": w, "f": f, "t": t}


def sources(case):
    """files, primary"""
    if case["k"] == "header":
        return {f: HEADERS[h] + HBODY[f]
                for f, h in zip(HBODY, case["h"])}, case["p"]
    files = dict(corpus.WORLDS[case["w"]])
    if case["t"] is not None:
        files[case["f"]] = case["t"]
    return files, None


def inspect(r, files):
    """None or what is wrong with the way the run ended"""
    if r.crash:
        return "internal failure: " + r.crash, "crash:" + r.crash.split(
            ":")[0]
    errors = [m for m in r.msgs if "ERROR" in m.kind]
    if not r.ok and not errors:
        return "no result, but no error has been reported", "silent"
    if r.mh.errors != len(errors):
        return ("%u errors reported but %u counted" %
                (len(errors), r.mh.errors), "count")
    if r.mh.warnings != len(r.msgs) - len(errors):
        return ("%u warnings reported but %u counted" %
                (len(r.msgs) - len(errors), r.mh.warnings), "count")
    if r.ok:
        for m in errors:
            if not any(t in m.text for t in TOLERATED):
                return ("a result in spite of the error: %s" % m, "accepted")
    for m in r.msgs:
        if m.file not in files:
            return "message outside of all files: %s" % m, "file"
        if m.line is None:
            continue
        lines = files[m.file].split("\n")
        if not 1 <= m.line <= len(lines):
            return "message outside of the file: %s" % m, "line"
        if m.col is not None and \
           not 1 <= m.col <= len(lines[m.line - 1]) + 1:
            return "message outside of the line: %s" % m, "col"
    return None


def judge(case):
    if case["k"] == "bytes":
        return judge_bytes(case)
    files, primary = sources(case)
    r = drv.run(files, lint=True, primary=primary)
    bad = inspect(r, files)
    first = r.errors()[0].text if r.errors() else ""
    out = "%s:%s" % (case["k"], "ok" if r.ok else
                     " ".join(first.split()[:2]))
    if bad is None and case["k"] == "edit" and case["t"] is None and \
       (not r.ok or r.errors()):
        bad = ("the unedited files are rejected", "unedited")
    if bad:
        return Verdict(out, "%s\n--- %s\n%s" % (bad[0], case.get("f", ""),
                                                case.get("t") or files),
                       bad[1], len(r.msgs) + 1, len(files))
    return Verdict(out, states=len(r.msgs) + 1, transitions=len(files))


def judge_bytes(case):
    """file on disk, read by the tool itself"""
    blob = bytes.fromhex(case["b"])
    files = dict(corpus.MULTI)
    name = case["f"]
    cut = case["at"]
    content = (files[name][:cut].encode() + blob + files[name][cut:].encode())
    base = os.path.join(drv.scratch(), "bytes")
    os.makedirs(base, exist_ok=True)
    for f in files:
        with open(os.path.join(base, f), "wb") as fd:
            fd.write(content if f == name else files[f].encode())
    mh = drv.Recorder()
    sm = drv.Source_Manager(mh, lint_mode=False)
    crash = None
    stab = None
    try:
        ok = sm.register_directory(base)
        if ok:
            stab = sm.process()
    except (Exception, SystemExit) as err:      # noqa
        crash = drv.crash_sig(err)
        ok = False
    try:
        content.decode("utf-8")
        valid = True
    except UnicodeDecodeError:
        valid = False
    r = drv.Result(mh.msgs, stab, crash, mh, ok, "", sm)
    out = "bytes:%s" % (r.ok)
    shown = {f: t for f, t in files.items()}
    if valid:
        shown[name] = content.decode("utf-8")
    bad = inspect(r, shown)
    if bad is None and not valid and (ok or r.ok):
        bad = ("file %s is not UTF-8 but accepted" % name, "utf8")
    if bad is None and not valid and \
       not any(m.file == name for m in r.errors()):
        bad = ("no error for file %s, which is not UTF-8" % name, "utf8")
    if bad:
        return Verdict(out, "%s\n%r" % (bad[0], content), bad[1])
    return Verdict(out)
