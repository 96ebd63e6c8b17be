"""C21: the linter reports exactly the documented issues

types    all hierarchies of record types with all qualifiers, over packages
arrays   all small bounds, kinds of elements and places
tuples   all sequences of fields and separators
unions   all sequences of members out of a hierarchy, in all places
access   all accesses to fields of such unions, in all places of expressions
unary    all operands of a unary minus, in all places of expressions
imports  all places where a package may be mentioned, times all combinations
         of packages imported in the files, also in include files
pairs    all pairs of constructs, in both orders, in one or two packages, also
         with the second one in a (needed or unneeded) include file

In the texts a mark stands before each construct the documentation says an
issue is reported at; the marks are removed and their places counted.
"""
import itertools
import re

from . import drv
from .core import Verdict

PID = "C21"
ASSUMPTIONS = [
    "linter.md and the language reference manual say which constructs are "
    "issues; texts of messages are not compared, their category and place "
    "are",
    "left open: an abstract type which has only abstract extensions; "
    "separators x and b after a decimal; unary minus before brackets which "
    "are only a part of the operand; unary plus",
    "only accepted files are judged",
]

MARK = re.compile(r"<<(\??)(\w+)>>")
SHORT = {"final": "clarify_final", "leaf": "abstract_leaf_types",
         "sep": "separator_based_literal_ambiguity",
         "imp": "impossible_array_types", "weird": "weird_array_types",
         "single": "union_single_type", "sub": "union_redundant_subtype",
         "part": "union_partial_field_access",
         "minus": "unary_minus_precedence", "unused": "unused_imports"}


def unmark(name, text):
    """(text, [expected], [possible])"""
    want, may = [], []
    out = ""
    last = 0
    for m in MARK.finditer(text):
        out += text[last:m.start()]
        last = m.end()
        line = out.count("\n") + 1
        col = len(out) - (out.rfind("\n") + 1) + 1
        (may if m.group(1) else want).append(
            (name, line, col, SHORT[m.group(2)]))
    return out + text[last:], want, may


def judge_files(marked, kind, primary=None):
    files, want, may = {}, [], []
    for name, text in marked.items():
        files[name], w, m = unmark(name, text)
        want += w
        may += m
    r = drv.run(files, lint=True, primary=primary)
    show = "\n".join("%s:\n%s" % x for x in sorted(marked.items()))
    if r.crash:
        return Verdict("bad", "%s\n%s" % (r.crash, show), "crash")
    if not r.ok or r.mh.errors:
        return Verdict(kind + " rejected")
    got = sorted((m.file, m.line, m.col, m.category) for m in r.msgs
                 if m.kind == "SYS_CHECK")
    left = list(got)
    missed = []
    for w in want:
        if w in left:
            left.remove(w)
        else:
            missed.append(w)
    for m in may:
        if m in left:
            left.remove(m)
    if missed or left:
        return Verdict("bad", "missing %s, unexpected %s\n%s" % (
            missed, left, show), "%s %s" % (kind, sorted(
                {m[3] for m in missed + left})))
    if r.mh.warnings != len(got):
        return Verdict("bad", "%u warnings counted\n%s" % (
            r.mh.warnings, show), kind + " count")
    quiet = drv.run(files, lint=False, primary=primary)
    if any(m.kind == "SYS_CHECK" for m in quiet.msgs) or quiet.mh.warnings:
        return Verdict("bad", "without the linter: %s\n%s" % (
            quiet.msgs, show), kind + " off")
    return Verdict("%s %u" % (kind, len(got)), None, None,
                   1 + len(want), 2, 2)


# --- record types -------------------------------------------------------------

QUAL = ["", "abstract ", "final "]


def judge_types(case):
    parents, quals, split = case["parents"], case["quals"], case["split"]
    n = len(parents)
    kids = {k: [j for j in range(n) if parents[j] == k] for k in range(n)}

    def below(k):
        return {k}.union(*(below(j) for j in kids[k])) \
            if kids[k] else {k}

    def is_final(k):
        return quals[k] == 2 or \
            (parents[k] is not None and is_final(parents[k]))

    text = {"p.rsl": "package P\n", "q.rsl": "package Q\nimport P\n"}
    for k in range(n):
        mark = ""
        if parents[k] is not None and is_final(parents[k]) and quals[k] != 2:
            mark += "<<final>>"
        if quals[k] == 1:
            rest = below(k) - {k}
            if not rest:
                mark += "<<leaf>>"
            elif all(quals[j] == 1 for j in rest):
                mark += "<<?leaf>>"
        f = "p.rsl" if k < split else "q.rsl"
        ext = ""
        if parents[k] is not None:
            ext = " extends %sT%u" % (
                "P." if k >= split > parents[k] else "", parents[k])
        text[f] += "%stype %sT%u%s { %s}\n" % (
            QUAL[quals[k]], mark, k, ext, "n Integer " if parents[k] is None
            else "")
    if split == n:
        del text["q.rsl"]
    elif not any(parents[k] is not None and parents[k] < split
                 for k in range(split, n)):
        text["q.rsl"] = text["q.rsl"].replace("import P", "import <<unused>>P")
    return judge_files(text, "types")


# --- arrays -------------------------------------------------------------------

BASE = """package P
import <<%s>>Q
enum E { A B }
type R { n Integer }
type S extends R { s String }
tuple T { a Integer b E }
"""
QRSL = "package Q\ntype X { n Integer }\nenum F { C D }\n"
ELEMENTS = ["Integer", "Decimal", "Boolean", "String", "Markup_String", "E",
            "R", "Q.X", "T", "[R, Q.X]", "Q.F"]
PLACES = ["type Z { c %s }", "type Z { c optional %s d Integer }",
          "type Y { a Integer }\ntype Z extends Y { c %s }",
          "abstract type Z { c %s }\ntype Y extends Z { }\n"
          "type X2 extends Y { }",
          "type Y { a Integer }\ntype Z { c optional %s d optional %s }",
          "type Y { a Z2 } "]


def world(text):
    """with the import marked, if nothing in the text needs it"""
    used = re.search(r"\bQ\.", text)
    return {"p.rsl": (BASE % "unused" if not used else
                      BASE.replace("<<%s>>", "")) + text + "\n",
            "q.rsl": QRSL}


def judge_arrays(case):
    lo, hi, elem, place = case["lo"], case["hi"], case["elem"], case["place"]
    mark = ""
    if hi is not None:
        if hi < lo or hi == 0:
            mark = "<<imp>>"
        elif hi == 1:
            mark = "<<weird>>"
    arr = "%s [%u .. %s%s]" % (ELEMENTS[elem], lo, mark,
                               "*" if hi is None else hi)
    return judge_files(world(PLACES[place].replace("%s", arr)), "arrays")


# --- tuples -------------------------------------------------------------------

FIELDS = ["Integer", "Decimal", "String", "E", "T", "Boolean"]
SEPS = ["x", "b", ":", "X", "xb"]


def judge_tuples(case):
    fields, seps, opt = case["fields"], case["seps"], case["opt"]
    text = "tuple Z {\n"
    for k, f in enumerate(fields):
        text += "  f%u %s%s\n" % (
            k, "optional " if k >= len(fields) - opt else "", FIELDS[f])
        if k < len(seps):
            mark = ""
            if SEPS[seps[k]] in ("x", "b"):
                mark = {"Integer": "<<sep>>", "Decimal": "<<?sep>>"}.get(
                    FIELDS[f], "")
            text += "  separator %s%s\n" % (mark, SEPS[seps[k]])
    return judge_files(world(text + "}" + case.get("rest", "")), "tuples")


# --- unions -------------------------------------------------------------------

HIER = """type A { x Integer y optional String }
type B extends A { z optional Integer }
type C extends B { w Integer }
type D { x Integer z optional Integer }
type G extends Q.X { }
"""
MEMBERS = ["A", "B", "C", "D", "G", "Q.X"]
FIELDS_OF = {"A": "xy", "B": "xyz", "C": "xyzw", "D": "xz", "G": "n",
             "Q.X": "n"}
UPPER = {"B": ["A"], "C": ["A", "B"], "G": ["Q.X"]}
UPLACES = ["type Z { u %s }", "type Z { u optional %s }",
           "type Z { u %s [2 .. *] }", "tuple Z { u %s v Integer }",
           "tuple Z { v Integer separator @ u optional %s }",
           "abstract type Y { u %s }\ntype Z extends Y { }",
           "type Z { u %s v %s }", "type Z { u optional %s [2 .. 3] }",
           "tuple Y { u %s v Integer }\ntype Z { y Y [2 .. *] }"]


def union(members):
    mark = "<<single>>" if len(members) == 1 else ""
    for a, b in itertools.permutations(members, 2):
        if b in UPPER.get(a, []):
            mark += "<<sub>>"
    return "%s[%s]" % (mark, ", ".join(members))


def hier(text):
    # G needs the package anyway
    return {"p.rsl": BASE.replace("<<%s>>", "") + HIER + text + "\n",
            "q.rsl": QRSL}


def judge_unions(case):
    u = union([MEMBERS[m] for m in case["members"]])
    return judge_files(hier(UPLACES[case["place"]].replace("%s", u)),
                       "unions")


APLACES = [
    ("checks Z { u.%s != null, \"m\" }", 1),
    ("checks Z { u != null implies u.%s == u.%s, \"m\" }", 2),
    ("checks Z { (if u.%s != null then true else u.%s == null), \"m\" }", 2),
    ("checks Z { (exists e in a => e > 0 and u.%s != null), \"m\" }", 1),
    ("checks Z { (forall e in v => e.%s != null), \"m\" }", 1),
    ("checks Z { v[0].%s == null, warning \"m\", \"\"\"d\"\"\", u }", 1),
    ("checks Z { self.u.%s != null, \"m\" }", 1),
    ("checks Z { not (u.%s == null) xor true, \"m\"\n  u.%s == null, \"n\" }",
     2),
    ("type W extends Z { }\nchecks W { u.%s != null, \"m\" }", 1),
    ("type W { z Z }\nchecks W { z.u.%s != null, \"m\" }", 1),
    ("tuple W { u %U i Integer }\nchecks W { u.%s != null, \"m\" }", 1),
]


def judge_access(case):
    members = [MEMBERS[m] for m in case["members"]]
    place, field = APLACES[case["place"]][0], case["field"]
    have = sum(field in FIELDS_OF[m] for m in members)
    if have == 0 or "u.%s" in place and "self" in place:
        place = place.replace("self.u", "u")
    mark = "<<part>>" if have < len(members) else ""
    text = "type Z { u optional %s v %s [0 .. *] a Integer [0 .. *] }\n" % (
        union(members), union(members))
    text += place.replace("%s", mark + field).replace("%U", union(members))
    return judge_files(hier(text), "access")


# --- unary minus --------------------------------------------------------------

# operand: text, whether it is an issue (None: not said)
PRIMARY = ["i", "3", "r.n", "l[0]", "len(s)", "(i)", "abs i", "(i + 1)"]
TAILS = ["", " / 3", " * i", " % 2", " ** 2", " / 3 * 2", " ** 2 / 3",
         " + 1", " - i", " + 2 * i"]
EPLACES = ["%s < 0", "0 == %s", "b or %s > 0", "(%s) > 0", "5 + (%s) > 0",
           "abs (%s) > 0", "i in %s .. 5", "(if b then %s > 0 else b)",
           "(exists e in l => %s > e)", "l[(%s)] > 0",
           "not (%s < 0)", "b implies %s != 0", "oneof(b, %s > 0)",
           "%s > 0 and %s < 5", "null == o xor 0 <= %s"]


def judge_unary(case):
    prim, tail = PRIMARY[case["prim"]], TAILS[case["tail"]]
    sign = case["sign"]
    binary = tail[1:2] in ("/", "*", "%")
    mark = ""
    if sign == "-":
        if prim.startswith("abs "):
            mark = "<<?minus>>"
        elif binary and prim.startswith("("):
            mark = "<<?minus>>"
        elif binary:
            mark = "<<minus>>"
    elif sign == "+":
        mark = "<<?minus>>"
    expr = mark + sign + prim + tail
    text = "type Z { i Integer s String r R l Integer [0 .. *] b Boolean " \
        "o optional Integer }\nchecks Z { " + \
        EPLACES[case["place"]].replace("%s", expr) + ", \"m\" }"
    return judge_files(world(text), "unary")


# --- imports ------------------------------------------------------------------

# what mentions package @ (or does not): (text, used)
RMENTION = [
    ("", 0), ("// @.X\n", 0), ("/* @.X */\n", 0),
    ("type M@ { c @.X }\n", 1), ("type M@ { c optional @.F }\n", 1),
    ("type M@ { c @.X [2 .. *] }\n", 1), ("type M@ { c [R, @.X] }\n", 1),
    ("type M@ extends @.X { }\n", 1), ("tuple M@ { a Integer b @.F }\n", 1),
    ("type M@ \"@.X\" { }\n", 0), ("type M@ \"@\" { s \"@\" String }\n", 0),
    ("type M@ { s String }\nchecks M@ { s != \"@\", \"@\" }\n", 0),
    ("type M@ { s optional String }\nchecks M@ { s != null, \"m\", "
     "\"\"\"@\"\"\" }\n", 0),
    ("type M@ { i R }\nchecks M@ { i.n > 0 or @.F.C != @.F.D, \"m\" }\n", 1),
    ("type M@ { m Markup_String }\ntype N@ extends M@ "
     "{ freeze m = \"[[@.obj]]\" }\n", 1),
    ("type M@ { m String }\ntype N@ extends M@ "
     "{ freeze m = \"[[@.obj]]\" }\n", 0),
    ("type M@ { m String }\ntype N@ extends M@ { freeze m = \"@\" }\n", 0),
    ("checks @.X { n > 0, \"m\" }\n", None),
]
TMENTION = [
    ("", 0), ("// @.X\n", 0), ("K k@ { s = \"@\" }\n", 0),
    ("K k@ { s = \"@.obj\" }\n", 0), ("K k@ { s = \"[[@.obj]]\" }\n", 0),
    ("section \"@\" {\n}\n", 0), ("K k@ { m = \"@\" }\n", 0),
    ("K k@ { m = \"see [[@.obj]]\" }\n", 1),
    ("K k@ { m = \"[[k0, @.obj]]\" }\n", 1),
    ("K k@ { ml = [\"[[k0]]\", \"[[@.obj]]\"] }\n", 1),
    ("K k@ { r = @.obj }\n", 1), ("K k@ { rl = [k0, @.obj] }\n", 1),
    ("@.X k@ { n = 1 }\n", 1), ("K k@ { e = @.F.C }\n", None),
    ("K k@ { t = (\"[[@.obj]]\", 5) }\n", 1),
    ("K k@ { t = (\"[[k0]]\", 5) }\n", 0),
    ("section \"a\" {\nK k@ { m = '''x\n[[@.obj]]''' }\n}\n", 1),
]
PKGS = ["Q", "Q2"]


def other(pkg):
    return {pkg + ".rsl": "package %s\ntype X { n Integer }\n"
            "enum F { C D }\n" % pkg,
            pkg + ".trlc": "package %s\nX obj { n = 1 }\n" % pkg}


def judge_imports(case):
    where, mentions = case["where"], case["mentions"]
    table = RMENTION if where == "rsl" else TMENTION
    files = {}
    head = ""
    text = ""
    for pkg, m in zip(PKGS, mentions):
        files.update(other(pkg))
        if m is None:
            continue
        body, used = table[m]
        head += "import %s%s\n" % (
            {0: "<<unused>>", 1: "", None: "<<?unused>>"}[used], pkg)
        text += body.replace("@", pkg)
    rsl = "type R { n Integer }\nenum F { C D }\ntuple U { m Markup_String " \
        "i Integer }\n" \
        "abstract type Top { n optional Integer }\n" \
        "type K extends Top { s optional String m optional Markup_String\n" \
        "ml optional Markup_String [2 .. *] r optional [K, Q.X, Q2.X]\n" \
        "rl optional [K, Q.X, Q2.X] [2 .. *] e optional Q.F t optional U\n" \
        "e2 optional Q2.F }\n"
    if where == "rsl":
        rsl = "type R { n Integer }\n"
        files["p.rsl"] = "package P\n" + head + rsl + text
    else:
        files["p.rsl"] = "package P\nimport Q\nimport Q2\n" + rsl
        # the same package mentioned in another file does not count
        files["p1.trlc"] = "package P\n" + head + text
        files["p0.trlc"] = "package P\nimport Q\nimport Q2\n" \
            "K k0 { r = Q.obj }\nK k1 { r = Q2.obj }\n"
    if case.get("inc"):
        # all of the above is found through an include path only
        files["pm.trlc"] = "package P\n%s\n" % (
            "R km { n = 1 }" if where == "rsl" else "K km { }")
        return judge_files(files, "included imports", ["pm.trlc"])
    return judge_files(files, "imports")


# --- pairs --------------------------------------------------------------------

SNIP = [
    "type X@ { n Integer }", "final type X@ { n Integer }",
    "final type X@ { n Integer }\ntype <<final>>Y@ extends X@ { }",
    "final type X@ { n Integer }\nfinal type Y@ extends X@ { }",
    "abstract type <<leaf>>X@ { n Integer }",
    "abstract type X@ { n Integer }\ntype Y@ extends X@ { }",
    "type X@ { a Integer [2 .. <<imp>>1] }",
    "type X@ { a optional Integer [0 .. <<imp>>0] b Integer [2 .. 3] }",
    "type X@ { a Integer [1 .. <<weird>>1] b optional R [0 .. <<weird>>1] }",
    "tuple X@ { a Integer separator <<sep>>x b Integer separator <<sep>>b "
    "c Integer }",
    "tuple X@ { a String separator x b Integer separator : c Integer }",
    "type X@ { u <<single>>[R] }", "type X@ { u [R, D] }",
    "type X@ { u <<sub>>[R, S] }", "type X@ { u <<sub>>[S, D, R] [2 .. *] }",
    "type X@ { u [R, D] }\nchecks X@ { u.n > 0, \"m\" }",
    "type X@ { u [R, D] }\nchecks X@ { u.<<part>>k != null, \"m\" }",
    "type X@ { n Integer }\nchecks X@ { <<minus>>-n / 3 < 0, \"m\" }",
    "type X@ { n Integer }\nchecks X@ { -(n / 3) < 0, \"m\" }",
    "enum X@ { A B }",
    "tuple Y@ { a Integer separator <<sep>>x b optional Integer }\n"
    "type X@ { t Y@ [0 .. <<weird>>1] }",
]
PBASE = "type R { n Integer }\ntype S extends R { }\ntype D { n Integer " \
    "k optional Integer }\n"


def judge_pairs(case):
    a, b = [SNIP[x] for x in case["pair"]]
    if case["packages"] == 1:
        files = {"p.rsl": "package P\n" + PBASE + a.replace("@", "1") + "\n" +
                 b.replace("@", "2") + "\n"}
    else:
        files = {"p.rsl": "package P\n" + PBASE + a.replace("@", "1") + "\n",
                 "q.rsl": "package Q\n" + PBASE + b.replace("@", "1") + "\n"}
    files["p.trlc"] = "package P\nR r { n = 5 }\n"
    if case.get("inc"):
        # q.rsl is an include file, needed or not
        if case["inc"] == 1:
            files["p.rsl"] = files["p.rsl"].replace(
                "package P\n", "package P\nimport <<unused>>Q\n")
        else:
            files["q.rsl"] = MARK.sub("", files["q.rsl"])
        return judge_files(files, "included pairs", ["p.rsl", "p.trlc"])
    return judge_files(files, "pairs")


# --- space --------------------------------------------------------------------

def sizes(tier):
    return (4, 3, 2) if tier == "quick" else (5, 4, 3)


def bounds(tier):
    types, fields, members = sizes(tier)
    return {"types_in_a_hierarchy": types, "array_bounds": "0 to 3, *",
            "tuple_fields": fields, "members_of_unions": 3,
            "members_of_unions_with_access": members,
            "places_of_expressions": len(APLACES) + len(EPLACES),
            "mentions_of_packages": len(RMENTION) + len(TMENTION),
            "snippets_in_pairs": len(SNIP)}


def cases(tier):
    types, fields, members = sizes(tier)
    for n in range(1, types + 1):
        for parents in itertools.product(*([None] + list(range(k))
                                           for k in range(n))):
            for quals in itertools.product(range(3), repeat=n):
                for split in range(1, n + 1):
                    yield {"kind": "types", "parents": list(parents),
                           "quals": list(quals), "split": split}
    for lo in range(4):
        for hi in (None, 0, 1, 2, 3):
            for elem in range(len(ELEMENTS)):
                for place in range(len(PLACES) - 1):
                    yield {"kind": "arrays", "lo": lo, "hi": hi,
                           "elem": elem, "place": place}
    for n in range(2, fields + 1):
        for fs in itertools.product(range(len(FIELDS) if n < 4 else 4),
                                    repeat=n):
            for seps in itertools.product(
                    range(len(SEPS) if n < 4 else 3), repeat=n - 1):
                for opt in ((0, 1) if n < 4 else (0,)):
                    yield {"kind": "tuples", "fields": list(fs),
                           "seps": list(seps), "opt": opt}
    for n in range(1, 4):
        for ms in itertools.permutations(range(len(MEMBERS)), n):
            for place in range(len(UPLACES)):
                yield {"kind": "unions", "members": list(ms), "place": place}
            if n <= members:
                for field in "xyzwn":
                    for place in range(len(APLACES)):
                        yield {"kind": "access", "members": list(ms),
                               "field": field, "place": place}
    for sign in ("-", "+", ""):
        for prim in range(len(PRIMARY)):
            for tail in range(len(TAILS)):
                for place in range(len(EPLACES)):
                    yield {"kind": "unary", "sign": sign, "prim": prim,
                           "tail": tail, "place": place}
    for where, table in (("rsl", RMENTION), ("trlc", TMENTION)):
        opts = [None] + list(range(len(table)))
        for ms in itertools.product(opts, repeat=2):
            yield {"kind": "imports", "where": where, "mentions": list(ms)}
            yield {"kind": "imports", "where": where, "mentions": list(ms),
                   "inc": 1}
    for pair in itertools.product(range(len(SNIP)), repeat=2):
        for packages in (1, 2):
            yield {"kind": "pairs", "pair": list(pair), "packages": packages}
        for inc in (1, 2):
            yield {"kind": "pairs", "pair": list(pair), "packages": 2,
                   "inc": inc}


JUDGES = {"types": judge_types, "arrays": judge_arrays,
          "tuples": judge_tuples, "unions": judge_unions,
          "access": judge_access, "unary": judge_unary,
          "imports": judge_imports, "pairs": judge_pairs}


def judge(case):
    return JUDGES[case["kind"]](case)
