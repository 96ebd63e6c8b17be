"""C17: messages point at the construct that is wrong

gap      every gap between two tokens of every erroneous file x every layout
         (newlines, tabs, comments over lines, other scripts)
uniform  all gaps at once, leading layouts, trailing layouts
filler   declarations with strings over several lines and quotes before it
world    the referenced file with more lines in front
dirs     the files in different directories, in every order of registration
pair     thorough: every two gaps x every two layouts

The erroneous files (mc/loctab.py) are written on one line, with the
construct that is wrong delimited; where it ends up in a layout is counted
here from the text. Compared are line and column, the end location, and
the printed output, brief and with quoted line and marker.
"""
import itertools
import os
import re

from . import drv, loctab
from .core import Verdict

PID = "C17"
ASSUMPTIONS = [
    "which token stands for a wrong construct is fixed in mc/loctab.py; for "
    "errors at the end of the file it is the last token",
    "the wording of messages is not compared",
    "a tab counts as one column and is printed as one space (by design)",
]
CASE_LIMIT = 20.0

TRIVIA = ["\n", "\t", "   ", " /* c */ ", " /* a\n\n \" b */ ",
          " // c ''' [[ \n", "\n\n  \t", " /* \u00e4\u20ac\U0001F600 */\n ",
          "/**/"]
FILL = {
    "TRLC": ["", 'R f0 { s = "a\\"b" }',
             "R f0 { s = '''a\n  b\n''' m = '''[[f0]]\n \"[[f0]]''' }",
             'section "S\\"" { R f0 { s = """x\ny""" o = [(1, 6)] } }'],
    "RSL": ["", "enum Z0 \"d\" { Z1 '''a\nb''' }",
            'type Z0 "a\\"b" { zc "x" Integer }\nchecks Z0 {\n'
            '  zc > 1, """m""" , zc }'],
}
FILL["LINT"] = FILL["RSL"]
# messages which mention a place in the other file: (text of the erroneous
# file, text of the line mentioned)
REFS = {"package P R a { }": "type R { s",
        'package P R a { s = "null" }': "i > 0, \"null\"",
        'package P R a { s = "x" i = 0 }': "10 / i > 0",
        'package P R a { s = "rr" r = bb } R bb { s = "x" }': "r.i > 1"}
DIRS = ["al", "alp", "al/x", "al/x/y"]
KIND = {"SYS_ERROR": "error", "SYS_CHECK": "issue", "SYS_WARNING": "warning",
        "USER_ERROR": "check error", "USER_WARNING": "check warning"}


def bounds(tier):
    return {"erroneous_files": {n: len(table(n)) for n in FILL},
            "layouts_of_a_gap": len(TRIVIA),
            "gaps_varied_at_once": "1 or all" if tier == "quick" else
            "1, 2 or all",
        "placements_of_files": len(DIRS) ** 3 * 6,
        "fillers": {n: len(FILL[n]) for n in FILL}}


def table(name):
    return getattr(loctab, name)


_gaps = {}


def gaps(name, n):
    """([offsets of the blanks which may be laid out differently], may there
    be something after the last token)"""
    key = (name, n)
    if key in _gaps:
        return _gaps[key]
    text, marks = table(name)[n]
    rv = []
    quote = None
    i = 0
    while i < len(text):
        c = text[i]
        if quote:
            if c == "\\" and quote == '"':
                i += 1
            elif text.startswith(quote, i):
                i += len(quote) - 1
                quote = None
        elif text.startswith("'''", i):
            quote = "'''"
            i += 2
        elif c == '"':
            quote = '"'
        elif c == " " and not any(m[0] <= i < m[1] for m in marks):
            rv.append(i)
        i += 1
    _gaps[key] = (rv, quote is None)
    return _gaps[key]


def cases(tier):
    for name in ("TRLC", "RSL", "LINT"):
        for n in range(len(table(name))):
            gs, open_end = gaps(name, n)
            yield {"t": name, "n": n}
            for lead in range(len(TRIVIA)):
                yield {"t": name, "n": n, "lead": lead}
                yield {"t": name, "n": n,
                       "g": [[k, lead] for k in range(len(gs))]}
                if open_end:
                    yield {"t": name, "n": n, "tail": lead}
            for k in range(len(gs)):
                for v in range(len(TRIVIA)):
                    yield {"t": name, "n": n, "g": [[k, v]]}
            if fillable(name, n):
                for f in range(1, len(FILL[name])):
                    for v in range(len(TRIVIA)):
                        yield {"t": name, "n": n, "f": f, "g": [[1, v]]}
            if name == "TRLC":
                for w in (1, 2, 5):
                    yield {"t": name, "n": n, "w": w, "g": [[0, 0]]
                           if gs else []}
    for dirs in itertools.product(range(len(DIRS)), repeat=3):
        for order in range(6):
            for n in range(len(REFS)):
                yield {"dirs": list(dirs), "order": order, "n": n}
    for order in range(2):
        for name in ("Integer", "Markup_String", "len"):
            yield {"builtin": name, "order": order}
    if tier == "quick":
        return
    for name in ("TRLC", "RSL"):
        for n in range(len(table(name))):
            gs, _ = gaps(name, n)
            for a, b in itertools.combinations(range(len(gs)), 2):
                for v, w in itertools.product(range(len(TRIVIA)), repeat=2):
                    yield {"t": name, "n": n, "g": [[a, v], [b, w]]}


def fillable(name, n):
    text = table(name)[n][0]
    return text.startswith("package P ") and \
        not text.startswith("package P import") and "R f" not in text and \
        len(gaps(name, n)[0]) > 1 and gaps(name, n)[0][1] == 9


def layout(case):
    """(text, marks): the text laid out, and the marks in it"""
    text, marks = table(case["t"])[case["n"]]
    gs, _ = gaps(case["t"], case["n"])
    subst = {gs[k]: TRIVIA[v] for k, v in case.get("g", [])}
    if case.get("f"):
        subst[9] = " " + FILL[case["t"]][case["f"]] + " " + \
            subst.get(9, " ")
    # "/" and "*" next to a comment would be a different comment
    for pos, triv in list(subst.items()):
        if text[pos - 1] in "/*" or text[pos + 1:pos + 2] in ("/", "*"):
            subst[pos] = " " + triv + " "
        elif triv == "/**/" and text[pos + 1:pos + 2] == " ":
            subst[pos] = triv + " "
    out = []
    where = {}
    length = 0
    if "lead" in case:
        out.append(TRIVIA[case["lead"]])
        length += len(out[-1])
    for i, c in enumerate(text):
        part = subst.get(i, c)
        where[i] = length
        out.append(part)
        length += len(part)
    where[len(text)] = length
    if "tail" in case:
        out.append(" " + TRIVIA[case["tail"]])
    res = []
    for m in marks:
        # the end of a construct is the end of its last character
        res.append((where[m[0]], where[m[1] - 1] + 1,
                    tuple(where[x] for x in m[2:] if isinstance(x, int)),
                    [(where[x["shown"][0]], where[x["shown"][1] - 1] + 1)
                     for x in m[2:] if isinstance(x, dict)]))
    return "".join(out), res


def line_col(text, pos):
    before = text[:pos]
    return before.count("\n") + 1, pos - (before.rfind("\n") + 1) + 1


def quoted(text, start, end):
    """the line in which start is, and the marker under it"""
    a = text.rfind("\n", 0, start) + 1
    b = text.find("\n", start)
    b = len(text) if b < 0 else b
    line = text[a:b]
    shown = line.lstrip()
    indent = start - a - (len(line) - len(shown))
    return (shown.replace("\t", " "),
            " " * indent + "^" * max(1, min(end - start, b - start)))


def judge_dirs(case):
    """other files are mentioned relative to the directory common to all"""
    names = ["%s/%s" % (DIRS[d], n)
             for d, n in zip(case["dirs"], ("a.rsl", "a.trlc", "b.rsl"))]
    text, needle = sorted(REFS.items())[case["n"]]
    files = dict(zip(names, (loctab.WORLD, text, "package P2\ntype T { }")))
    order = list(itertools.permutations(names))[case["order"]]
    r = drv.run(files, order=order)
    if r.crash or len(r.msgs) != 1:
        return Verdict("bad", "%s %s" % (r.crash, r.msgs), "dirs")
    want = "%s:%u" % (os.path.relpath(names[0], os.path.commonpath(
        [os.path.dirname(x) for x in names])),
        line_col(loctab.WORLD, loctab.WORLD.index(needle))[0])
    if not re.search(r"(?<![\w/.])" + re.escape(want) + r"\b",
                     r.msgs[0].text):
        return Verdict("bad", "%s should mention %s; registered %s" % (
            r.msgs[0], want, order), "dirs")
    return Verdict("dirs", None, None, 2, 1, 1)


def judge_builtin(case):
    """a mention of something builtin depends on no file name"""
    texts = set()
    for d in DIRS:
        files = {d + "/a.rsl": "package P\nenum %s { A }" % case["builtin"],
                 "al/b.rsl": "package P2\ntype T { }"}
        order = sorted(files, reverse=case["order"])
        r = drv.run(files, order=order)
        if r.crash or len(r.msgs) != 1:
            return Verdict("bad", "%s %s" % (r.crash, r.msgs), "builtin")
        texts.add(r.msgs[0].text)
    if len(texts) != 1:
        return Verdict("bad", "%s" % texts, "builtin")
    return Verdict("builtin", None, None, 1, 4, 4)


def judge(case):
    if "dirs" in case:
        return judge_dirs(case)
    if "builtin" in case:
        return judge_builtin(case)
    text, marks = layout(case)
    name = case["t"]
    if name == "TRLC":
        world = "\n" * case.get("w", 0) + loctab.WORLD
        files = {"a.rsl": world, "a.trlc": text}
        fname = "a.trlc"
    else:
        files = {"a.rsl": text}
        fname = "a.rsl"
        if name == "LINT":
            files["b.rsl"] = "package P2\ntype T { }\n"

    def bad(what, sig):
        return Verdict("bad", "%s\n%r" % (what, text), sig)

    path = drv.path_of(fname)
    for brief in (False, True):
        r = drv.run(files, brief=brief, lint=name == "LINT",
                    verify=name == "LINT")
        if r.crash:
            return bad("internal failure %s" % r.crash, "crash")
        # after a syntax error the parser skips to the next line, so more
        # may be found there
        user = r.msgs and r.msgs[0].kind.startswith("USER_")
        if len(r.msgs) != len(marks) if user or name == "LINT" \
           else not r.msgs:
            return bad("%u messages instead of %u: %s" % (
                len(r.msgs), len(marks), r.msgs), "messages")
        want = []
        for m, mark in zip(r.msgs, marks if user or name == "LINT"
                           else marks[:1]):
            line, col = line_col(text, mark[0])
            if (m.file, m.line, m.col) != (fname, line, col):
                return bad("%s should be at %s:%u:%u" % (m, fname, line, col),
                           "location")
            # the column of a wrong number is where it starts, shown is the
            # character at which it went wrong
            shown_at = mark[3][0] if mark[3] else mark[:2]
            end = m.loc.get_end_location()
            if (end.line_no, end.col_no) != line_col(text, shown_at[1] - 1):
                return bad("%s ends at %s:%s instead of %s:%s" % (
                    (m, end.line_no, end.col_no) +
                    line_col(text, shown_at[1] - 1)), "end")
            if mark[2]:
                refs = [line_col(text, x)[0] for x in mark[2]]
                if not any(re.search(r"(%s:| line )%u\b" % (
                        re.escape(fname), x), m.text) for x in refs):
                    return bad("%s should mention line %s" % (m, refs), "ref")
            elif name == "TRLC":
                needle = REFS.get(table(name)[case["n"]][0])
                if needle:
                    ref = line_col(world, world.index(needle))[0]
                    if "a.rsl:%u" % ref not in m.text:
                        return bad("%s should mention a.rsl:%u" %
                                   (m, ref), "ref")
            cat = " [%s]" % m.category if m.category else ""
            if brief:
                want.append("%s:%u:%u: trlc %s: %s%s" % (
                    path, line, col, KIND[m.kind], m.text, cat))
            else:
                shown, marker = quoted(text, *shown_at)
                want += [shown, "%s %s:%u: %s: %s%s" % (
                    marker, path, line, KIND[m.kind], m.text, cat)]
        got = [x for x in r.output.split("\n") if not EXTRA.match(x)]
        if len(r.msgs) * (1 if brief else 2) == len(want):
            want.append("")
        for x, y in itertools.zip_longest(got[:len(want)], want):
            if x != y:
                return bad("printed %r instead of %r" % (x, y), "print")
    return Verdict("%s%u" % (name, len(marks)), None, None,
                   1 + len(marks), 2 * len(marks), 2)


EXTRA = re.compile(r" *\| ")
