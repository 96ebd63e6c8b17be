"""C15: error recovery, linting and output modes never change the verdict

single  every single token edit of every file of the file sets in
        mc/corpus.py
double  pairs of edits in one file or in two files
mixed   all choices of one statement out of good and bad ones for every
        place of a small two package project (so every combination of bad
        places up to all of them)
hint    constructs on which the linter comments (arrays bounds, abstract and
        final types, unions, separators, precedence, imports), with good and
        bad objects, alone and next to each other

Every file set is run in every mode: the reference mode (recovery, lint,
full output), without recovery, without lint, brief, without details, rsl
files only, and with everything switched off.
"""
import itertools

from . import corpus, drv
from .c14 import TOLERATED
from .core import Verdict

PID = "C15"
ASSUMPTIONS = [
    "file contents are edits of the file sets in mc/corpus.py or combinations "
    "of the statements listed in mc/c15.py",
    "with error recovery other files can see more declarations, so errors "
    "after the first one need not be the same",
]

MODES = {
    "no-recovery": dict(recovery=False),
    "no-lint": dict(lint=False),
    "brief": dict(brief=True),
    "no-details": dict(detailed=False),
    "rsl-only": dict(parse_trlc=False),
    "minimal": dict(recovery=False, lint=False, brief=True, detailed=False),
}

# mixed: places and their choices, the first one is right
PLACES = [
    ("a.rsl", "package A\n", ["", "import B\n", "import Q\n"]),
    ("a.rsl", "", ["type T { n optional Integer r optional T }\n",
                   "type T { n optional r optional T }\n",
                   "type T { n optional Integer n Integer }\n",
                   "type T { n optional Integer = 5 }\n"
                   "type Unseen { }\n",
                   "type T { n optional Integer ! }\n"]),
    ("a.rsl", "", ["checks T { n > 0, \"n\" }\n",
                   "checks T { n > , \"n\" }\n",
                   "checks T { k > 0, \"n\" }\nchecks T { n < 7, \"k\" }\n",
                   "checks T { (if n == null then true else 1 / n > 0), "
                   "\"n\" }\n"]),
    ("b.rsl", "package B\nimport A\n", ["type U extends A.T { }\n",
                                        "type U extends A.X { }\n",
                                        "type U A.T\ntype W { }\n"]),
    ("a.trlc", "package A\n", ["T x { n = 1 }\n", "T x { n = 0 }\n",
                               "T x { n = }\nT x2 { n = 1 }\n",
                               "section \"s\" { T x { k = 1 } T x { } }\n"]),
    ("b.trlc", "package B\nimport A\n", ["U y { r = A.x }\n",
                                         "U y { r = A.nope }\n",
                                         "A.T y { n = 1 r = \"s }\nU y2 { }\n",
                                         "section { U y { } }\n}\n"]),
]




def hints():
    """(rsl, trlc) with constructs which the linter comments on"""
    rv = []
    for lo in range(0, 3):
        for hi in ("0", "1", "2", "*"):
            for opt in ("", "optional "):
                for n in (None, 0, 1, 2, 3):
                    rv.append((
                        "type X { a %sInteger [%u .. %s] }\n" % (opt, lo, hi),
                        "X ox { %s }\n" % (
                            "" if n is None else
                            "a = [%s]" % ", ".join(["1"] * n))))
    for quals in itertools.product(("", "abstract ", "final "), repeat=3):
        for used in ("X", "Y", "Z"):
            rv.append(("%stype X { a optional Integer }\n"
                       "%stype Y extends X { }\n"
                       "%stype Z extends Y { }\n" % quals,
                       "%s ox { }\n" % used))
    for k in (1, 2, 3):
        for members in itertools.permutations(("X", "Y", "Z"), k):
            for used in ("o1", "o2", "o3"):
                for check in ("u.a > 0", "u.b > 0", "true"):
                    rv.append(("type X { a optional Integer }\n"
                               "type Y extends X { b Integer }\n"
                               "type Z { b optional Integer }\n"
                               "type W { u [%s] }\n"
                               "checks W { %s, \"w\" }\n" %
                               (", ".join(members), check),
                               "X o1 { a = 1 }\nY o2 { a = 0 b = 1 }\n"
                               "Z o3 { b = 1 }\nW ow { u = %s }\n" % used))
    for sep in ("x", "b", "X", ":", "y"):
        for typ, vals in (("Integer", ("1", "0", "x")),
                          ("String", ('"s"', "s")),
                          ("Boolean", ("true", "b")),
                          ("Decimal", ("1.5",)),
                          ("E", ("E.L", "L"))):
            for val in vals:
                for glue in ("", " "):
                    rv.append(("enum E { L }\n"
                               "tuple X { a Integer separator %s b %s }\n"
                               "type W { x X }\n" % (sep, typ),
                               "W ow { x = 0%s%s%s%s }\n" %
                               (glue, sep, glue, val)))
    for e in ("-a ** 2 == 4", "-a * 2 == 4", "-a % 2 == 0", "-a / 2 == 1",
              "-(a ** 2) == 4", "(-a) ** 2 == 4", "-a + 2 == 0", "+a ** 2 "
              "== 4", "-a ** 2 * 3 > 0", "0 - a ** 2 < 0"):
        for v in ("2", "-2"):
            rv.append(("type X { a Integer }\n"
                       "checks X { %s, \"x\" }\n" % e,
                       "X ox { a = %s }\n" % v))
    for imps in itertools.product(("", "import C\n", "import D\n",
                                   "import G\n"), repeat=2):
        for what in ("", "C.T o { }\n", 'T o { m = "[[C.oc]]" }\n',
                     'T o { m = "[[D.od, C.oc]]" }\n', "T C { }\n",
                     'T o { m = "C" s = "[[C.oc]]" }\n',
                     "T o { r = D.od }\nT p { r = C.oc }\n"):
            rv.append(("%stype T { m optional Markup_String "
                       "s optional String r optional T }\n" % "".join(imps),
                       "%s%s" % ("".join(imps), what)))
    return rv


HINTS = hints()


def hint_files(i, j):
    rsl, text = HINTS[i]
    files = {"a.rsl": "package A\n" + rsl, "a.trlc": "package A\n" + text,
             "c.rsl": "package C\nimport A\ntype T extends A.T { }\n",
             "c.trlc": "package C\nT oc { }\n",
             "d.rsl": "package D\nimport A\ntype T extends A.T { }\n",
             "d.trlc": "package D\nT od { }\n"}
    if "type T " not in rsl:
        files = {"a.rsl": files["a.rsl"], "a.trlc": files["a.trlc"]}
    if "import" in rsl:       # no cycles between rsl files
        files["a.rsl"] = "package A\n" + rsl.replace("import", "// import")
    if j is not None:
        rsl, text = HINTS[j]
        files["h.rsl"] = "package H\n" + rsl
        files["h.trlc"] = "package H\n" + text
    return files


def bounds(tier):
    return {"modes": sorted(MODES), "places": len(PLACES),
            "combinations_of_places": 3 * 5 * 4 * 3 * 4 * 4,
            "hint_constructs": len(HINTS),
            "double_edits": tier != "quick",
            "worlds": {w: len(corpus.WORLDS[w]) for w in corpus.WORLDS}}


def token_edits(text, words):
    sp = corpus.spans(text)
    for a, b in sp:
        yield text[:a]
        yield text[:a] + text[b:]
        yield text[:b] + " " + text[a:b] + text[b:]
        for w in words:
            yield text[:a] + w + text[b:]
            yield text[:a] + w + " " + text[a:]
    for (a, b), (c, d) in zip(sp, sp[1:]):
        yield text[:a] + text[c:d] + text[b:c] + text[a:b] + text[d:]


def cases(tier):
    full = tier != "quick"
    words = corpus.SHORT if full else ["}", "{", ",", "zz", "1", "type",
                                       "T", "!", '"x"', "Integer"]
    for w, files in corpus.WORLDS.items():
        yield {"k": "edit", "w": w, "e": {}}
        for f, text in files.items():
            seen = set()
            for new in token_edits(text, words):
                if new not in seen:
                    seen.add(new)
                    yield {"k": "edit", "w": w, "e": {f: new}}
    for combo in itertools.product(*[range(len(p[2])) for p in PLACES]):
        yield {"k": "mixed", "c": list(combo)}
    pairs = range(0, len(HINTS), 29 if full else 101)
    for i in range(len(HINTS)):
        yield {"k": "hint", "h": [i, None]}
        for j in pairs:
            if "import" not in HINTS[j][0]:
                yield {"k": "hint", "h": [i, j]}
    # two edits in two files / one file: deletions and one junk token
    few = ["zz"] if full else []
    for w in ("multi", "extends") if full else ("multi",):
        files = corpus.WORLDS[w]
        edits = [(f, i, x) for f, text in files.items()
                 for i in range(len(corpus.spans(text)))
                 for x in [""] + few]
        for (f, i, x), (g, j, y) in itertools.combinations(edits, 2):
            if f == g and i == j:
                continue
            if not full and (i + j) % 3:
                continue
            yield {"k": "double", "w": w, "a": [f, i, x], "b": [g, j, y]}


def sources(case):
    if case["k"] == "edit":
        return dict(corpus.WORLDS[case["w"]], **case["e"])
    if case["k"] == "double":
        files = dict(corpus.WORLDS[case["w"]])
        todo = sorted([case["a"], case["b"]], key=lambda e: -e[1])
        for f, i, x in todo:      # later positions first
            a, b = corpus.spans(corpus.WORLDS[case["w"]][f])[i]
            files[f] = files[f][:a] + x + files[f][b:]
        return files
    if case["k"] == "hint":
        return hint_files(*case["h"])
    files = {}
    for (f, head, texts), c in zip(PLACES, case["c"]):
        files[f] = files.get(f, "") + head + texts[c]
    return files


def objects(r):
    if not r.ok:
        return None
    rv = {}
    for o in r.stab.iter_record_objects():
        rv[o.fully_qualified_name()] = (o.n_typ.fully_qualified_name(),
                                        repr(o.to_python_dict()))
    return rv


def no_hints(msgs):
    return [m.key() for m in msgs if m.kind != "SYS_CHECK"]


def until_error(msgs):
    rv = []
    for m in msgs:
        if m.kind == "SYS_CHECK":
            continue
        rv.append(m.key())
        if "ERROR" in m.kind:
            break
    return rv


def compare(mode, ref, r):
    """None or text"""
    if r.crash or ref.crash:
        return "internal failure: %s / %s" % (ref.crash, r.crash)
    if not r.ok and not r.mh.errors:
        return "no result, but no error"
    if r.ok and any(not any(t in m.text for t in TOLERATED)
                    for m in r.errors()):
        return "a result in spite of %s" % r.errors()
    if mode == "rsl-only":
        if ref.ok and not r.ok:
            return "rejected, but accepted together with the trlc files"
        # it is the same as having no trlc files in the first place
        if ref.alone.crash:
            return "internal failure: %s" % ref.alone.crash
        if ref.alone.ok != r.ok or no_hints(ref.alone.msgs) != \
           no_hints(r.msgs):
            return "%s %s instead of %s %s without trlc files" % (
                r.ok, no_hints(r.msgs), ref.alone.ok,
                no_hints(ref.alone.msgs))
        hints = [m.key() for m in r.msgs]
        if [m.key() for m in ref.alone.msgs
            if "unused_imports" not in (m.category or "")] != hints:
            return "hints %s instead of %s" % (
                hints, [m.key() for m in ref.alone.msgs])
        return None
    if ref.ok != r.ok:
        return "verdict changes from %s to %s" % (ref.ok, r.ok)
    if (ref.mh.errors > 0) != (r.mh.errors > 0):
        return "%u errors counted instead of %u" % (r.mh.errors,
                                                    ref.mh.errors)
    if objects(ref) != objects(r):
        return "different objects"
    if mode in ("no-recovery", "minimal"):
        if until_error(ref.msgs) != until_error(r.msgs):
            return "the first error is %s instead of %s" % (
                until_error(r.msgs)[-1:], until_error(ref.msgs)[-1:])
    elif mode == "no-lint":
        if no_hints(ref.msgs) != no_hints(r.msgs):
            return "different messages: %s instead of %s" % (
                no_hints(r.msgs), no_hints(ref.msgs))
        hints = [m.key() for m in ref.msgs]
        for m in r.msgs:
            if m.key() not in hints:
                return "only without lint: %s" % m
    else:
        if [m.key() for m in ref.msgs] != [m.key() for m in r.msgs] or \
           (ref.mh.errors, ref.mh.warnings) != (r.mh.errors, r.mh.warnings):
            return "different messages"
    return None


def judge(case):
    files = sources(case)
    opts = dict(lint=True)
    ref = drv.run(files, **opts)
    ref.alone = drv.run({f: t for f, t in files.items()
                         if f.endswith(".rsl")}, **opts)
    n = 2
    for mode, delta in MODES.items():
        r = drv.run(files, **dict(opts, **delta))
        n += 1
        bad = compare(mode, ref, r)
        if bad:
            return Verdict("bad", "mode %s: %s\n%s" % (
                mode, bad, "\n".join("--- %s\n%s" % x
                                     for x in files.items())),
                "%s:%s" % (mode, bad.split()[0]), n, n, n)
    first = ref.errors()
    return Verdict("%s:%s:%u" % (case["k"], "ok" if ref.ok else "rejected",
                                 min(len(first), 3)), None, None, n, n, n)
