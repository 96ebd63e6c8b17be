"""C18: the API shows exactly the objects, values and sections written

tree     all forests of sections and records up to a size, in one file
files    small forests in three files of two packages, all registrations
value    all values of all types up to a size, as component, optional,
         inherited, frozen, in arrays and tuples
pair     all pairs of components given, in both orders, or left out
hist     all sequences of API calls up to a length on a symbol table, with
         abandoned and interleaved iterations, changed results and other
         files processed in between
lookup   all names and their variants in all tables

What the API has to show follows from the tree or value generated here; the
file is only printed from it.
"""
import itertools

from . import drv
from .core import Verdict

PID = "C18"
ASSUMPTIONS = [
    "objects come in the order written within their file; the order of the "
    "files is not specified",
    "a section is announced by iter_record_objects_by_section before its "
    "first record, each declaration of it anew; sections without records "
    "are not announced",
]

RSL = """package P
enum E { A B }
type R { r optional R
  n optional Integer }
type S extends R { }
tuple T1 { a Integer b E }
tuple T2 { a Integer separator @ b optional Integer }
tuple T3 { t T1 separator : u Decimal separator ; w optional R }
tuple T4 { a T2 b [S, R] }
"""
PRE = "R r0 { }\nS s0 { }\n"
QRSL = "package Q\nenum E { A C }\ntype QR { n optional Integer }\n"
QTRLC = "package Q\nimport P\nQR q0 { }\nQR r0 { }\nP.R q1 { }\n"

NAMES = ["A", "B c/\u00e4"]


# --- sections ---------------------------------------------------------------

def forests(n):
    """all forests of n nodes: 0 is a record, [name, children] a section"""
    if n == 0:
        yield []
        return
    for first in range(1, n + 1):
        heads = []
        if first == 1:
            heads.append(0)
        for kids in forests(first - 1):
            for name in range(len(NAMES)):
                heads.append([name, kids])
        for head in heads:
            for rest in forests(n - first):
                yield [head] + rest


def show(forest, prefix, typ="R", count=None, depth=0):
    """(source text, expected iteration by section)"""
    count = count if count is not None else [0]
    text = []
    events = []
    for node in forest:
        if node == 0:
            name = "%s%u" % (prefix, count[0])
            text.append("%s %s { n = %u }" % (typ, name, count[0]))
            events.append(("rec", name, max(depth - 1, 0), count[0]))
            count[0] += 1
        else:
            t, e = show(node[1], prefix, typ, count, depth + 1)
            text.append('section "%s" {\n%s\n}' % (NAMES[node[0]], t))
            if any(x[0] == "rec" for x in e):
                events.append(("sec", NAMES[node[0]], depth))
                events += e
    return "\n".join(text), events


def paths(forest, prefix, count=None, path=()):
    count = count if count is not None else [0]
    for node in forest:
        if node == 0:
            yield "%s%u" % (prefix, count[0]), list(path)
            count[0] += 1
        else:
            yield from paths(node[1], prefix, count,
                             path + (NAMES[node[0]],))


def event(x):
    """canonical form of what iter_record_objects_by_section gives"""
    if isinstance(x, str):
        return ("file", x)
    what, level = x
    if isinstance(what, str):
        return ("sec", what, level)
    return ("rec", what.name, level, what.to_python_dict()["n"])


def by_section(stab):
    return [event(x) for x in stab.iter_record_objects_by_section()]


def want_events(per_file):
    """files with records, each with its events"""
    return {f: [("file", f)] + ev for f, ev in per_file.items()
            if any(x[0] == "rec" for x in ev)}


def match_events(got, want):
    """got is the concatenation of the lists in want, in any order"""
    left = dict(want)
    got = list(got)
    while got:
        f = got[0][1] if got[0][0] == "file" else None
        if f not in left:
            return "%s is not expected here" % (got[0],)
        ev = left.pop(f)
        if got[:len(ev)] != ev:
            k = [x == y for x, y in
                 itertools.zip_longest(got[:len(ev)], ev)].index(False)
            return "expected %s but got %s" % (ev[k], got[k:k + 1])
        got = got[len(ev):]
    if left:
        return "nothing of %s" % list(left)
    return None


def iterations(stab, want):
    """all ways to iterate: again, abandoned, interleaved"""
    n = sum(len(ev) for ev in want.values())
    for k in range(n + 1):
        it = stab.iter_record_objects_by_section()
        part = [event(next(it)) for _ in range(k)]
        what = match_events(by_section(stab), want)
        if what:
            return "after an iteration of %u: %s" % (k, what)
        what = match_events(part + [event(x) for x in it], want)
        if what:
            return "interrupted after %u by another iteration: %s" % (k, what)
    return None


def check_sections(stab, per_file, where):
    for rep in range(2):
        objs = list(stab.iter_record_objects())
        got = {o.fully_qualified_name(): o for o in objs}
        if len(got) != len(objs) or sorted(got) != sorted(where):
            return "objects %s instead of %s" % (
                [o.fully_qualified_name() for o in objs], sorted(where))
        for name, path in where.items():
            sec = got[name].section
            if [s.name for s in sec or []] != path or \
               (sec is not None and not path):
                return "%s is in %s instead of %s" % (name, sec, path)
            for n, s in enumerate(sec or []):
                if s.parent is not (sec[n - 1] if n else None):
                    return "parent of section %s of %s" % (s.name, name)
    return iterations(stab, want_events(per_file))


def judge_tree(case):
    text, events = show(case["tree"], "o")
    f = drv.path_of("a.trlc")
    r = drv.run({"a.rsl": RSL, "a.trlc": "package P\n" + text})
    if r.crash or not r.ok:
        return Verdict("bad", "%s %s\n%s" % (r.crash, r.msgs, text), "tree")
    what = check_sections(r.stab, {f: events}, {
        "P." + n: p for n, p in paths(case["tree"], "o")})
    n = len(want_events({f: events}).get(f, []))
    if what:
        return Verdict("bad", "%s\n%s" % (what, text), "tree")
    return Verdict("tree%u" % len(case["tree"]), None, None,
                   1 + n, 2 * n + 2, 2 * n + 4)


FILES = [("a.trlc", "P", "a"), ("b.trlc", "Q", "b"), ("c.trlc", "P", "c")]


def judge_files(case):
    files = {"p.rsl": RSL, "q.rsl": QRSL}
    per_file = {}
    where = {}
    for (f, pkg, prefix), tree in zip(FILES, case["files"]):
        text, events = show(tree, prefix, "R" if pkg == "P" else
                            "P.R" if case["foreign"] else "QR")
        files[f] = "package %s\n%s%s" % (
            pkg, "import P\n" if case["foreign"] and pkg != "P" else "",
            text)
        per_file[drv.path_of(f)] = events
        where.update(("%s.%s" % (pkg, n), p) for n, p in paths(tree, prefix))
    order = list(itertools.permutations(f[0] for f in FILES))[case["order"]]
    r = drv.run(files, order=list(order) + ["p.rsl", "q.rsl"])
    if r.crash or not r.ok:
        return Verdict("bad", "%s %s" % (r.crash, r.msgs), "files")
    what = check_sections(r.stab, per_file, where)
    if what:
        return Verdict("bad", "%s\n%s" % (what, files), "files")
    return Verdict("files", None, None, 1 + len(where), len(where), 4)


# --- values -----------------------------------------------------------------

def values(typ):
    """[(text, python form)]"""
    if typ == "Integer":
        return [("0", 0), ("-1", -1), ("+ 5", 5), ("1_000", 1000),
                ("0xfF", 255), ("-0b101", -5),
                ("123456789012345678901234567890",
                 123456789012345678901234567890)]
    if typ == "Decimal":
        return [("0.5", 0.5), ("-1.25", -1.25), ("+3.0", 3.0),
                ("1_0.1", 10.1), ("- 0.0", 0.0),
                ("0.1234567890123", 0.1234567890123),
                ("98765432109876.5", 98765432109876.5)]
    if typ == "Boolean":
        return [("true", True), ("false", False)]
    if typ in ("String", "Markup_String"):
        return [('"a"', "a"), ('""', ""), ('"a\\"b"', 'a"b'),
                ('"[[r0]]"', "[[r0]]"), ("'''\u00e4 \"'''", '\u00e4 "'),
                ('"null"', "null")]
    if typ == "E":
        return [("E.A", "A"), ("E.B", "B")]
    if typ == "Q.E":
        return [("Q.E.A", "A"), ("Q.E.C", "C")]
    if typ == "R":
        return [("r0", "P.r0"), ("s0", "P.s0"), ("P.r0", "P.r0"),
                ("zz", "P.zz"), ("zy", "P.zy"), ("Q.q1", "Q.q1")]
    if typ == "[S, Q.QR]":
        return [("s0", "P.s0"), ("Q.q0", "Q.q0"), ("Q.r0", "Q.r0")]
    if typ == "[S, R]":
        return [("s0", "P.s0"), ("r0", "P.r0"), ("Q.q1", "Q.q1")]
    if typ == "T1":
        return [("(1, E.B)", {"a": 1, "b": "B"}),
                ("(-2, P.E.A)", {"a": -2, "b": "A"})]
    if typ == "T2":
        return [("1@2", {"a": 1, "b": 2}), ("-1@-2", {"a": -1, "b": -2}),
                ("3", {"a": 3, "b": None})]
    if typ == "T3":
        return [("%s : %s%s" % (a, b, c), {"t": pa, "u": pb, "w": pc})
                for a, pa in values("T1")[:2] for b, pb in
                values("Decimal")[:2]
                for c, pc in (("", None), (";r0", "P.r0"),
                              (" ; zz", "P.zz"))]
    if typ == "T4":
        return [("(%s, %s)" % (a, b), {"a": pa, "b": pb})
                for a, pa in values("T2") for b, pb in values("[S, R]")]
    raise KeyError(typ)


TYPES = ["Integer", "Decimal", "Boolean", "String", "Markup_String", "E",
         "Q.E", "R", "[S, Q.QR]", "T1", "T2", "T3", "T4"]


def strict_same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(strict_same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and \
            all(strict_same(a[k], b[k]) for k in a)
    return a == b


def spoil(x):
    """change a result which the API gave"""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("spoilt")
    elif isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
            x[k] = "spoilt"


def value_world(decls, bodies):
    """types from decls, one object obj<n> per body"""
    return {"p.rsl": RSL.replace("package P\n", "package P\nimport Q\n") +
            decls,
            "q.rsl": QRSL, "q.trlc": QTRLC,
            "p.trlc": "package P\nimport Q\n" + PRE + "\n".join(
                "%s obj%u { %s }" % (t, n, b)
                for n, (t, b) in enumerate(bodies)) +
            "\nR zz { }\nS zy { }\n"}


def check_values(decls, bodies, wants):
    files = value_world(decls, bodies)
    r = drv.run(files)
    if r.crash or not r.ok:
        return "%s %s" % (r.crash, r.msgs[:3])
    for rep in range(2):
        objs = {}
        for o in r.stab.iter_record_objects():
            objs[o.fully_qualified_name()] = o
        if len(objs) != len(bodies) + 7:
            return "objects %s" % sorted(objs)
        for n, want in enumerate(wants):
            got = objs["P.obj%u" % n].to_python_dict()
            if not strict_same(got, want):
                return "%r has the python form %r instead of %r" % (
                    bodies[n], got, want)
            spoil(got)
    return None


PLACES = {
    "plain": "type Z { c %s }",
    "optional": "type Z { a optional Integer c optional %s }",
    "inherited": "type Y { c %s }\ntype X extends Y { }\n"
                 "type Z extends X { }",
    "array": "type Z { c %s [0 .. 3] }",
    "optarray": "type Z { c optional %s [0 .. *] x optional R }",
}


def judge_value(case):
    typ, place = case["type"], case["place"]
    if place == "frozen":
        bodies, wants, decls = [], [], ["type Y { c %s b optional %s }" %
                                        (typ, typ)]
        for n, (text, py) in enumerate(values(typ)):
            if text in ("zz", "zy") or "zz" in text:
                # objects after the types' files are found too
                pass
            decls.append("type Z%u extends Y { freeze c = %s }" % (n, text))
            decls.append("type X%u extends Z%u { freeze b = %s }" %
                         (n, n, text))
            bodies += [("Z%u" % n, ""), ("X%u" % n, "")]
            wants += [{"c": py, "b": None}, {"c": py, "b": py}]
            for text2, py2 in values(typ)[:2]:
                bodies.append(("Z%u" % n, "b = %s" % text2))
                wants.append({"c": py, "b": py2})
        what = check_values("\n".join(decls), bodies, wants)
    else:
        vals = values(typ)
        if place in ("array", "optarray"):
            lists = []
            for n in range(4 if len(vals) < 4 else 3):
                lists += itertools.product(vals, repeat=n)
            vals = [("[%s]" % ", ".join(v[0] for v in vs),
                     [v[1] for v in vs]) for vs in lists]
        bodies = [("Z", "c = " + v[0]) for v in vals]
        rest = {"optional": {"a": None}, "optarray": {"x": None}}
        wants = [dict(rest.get(place, {}), c=v[1]) for v in vals]
        if place in ("optional", "optarray"):
            bodies.append(("Z", ""))
            wants.append(dict(rest[place], c=None))
        what = check_values(PLACES[place] % typ, bodies, wants)
    if what:
        return Verdict("bad", what, "value-" + place)
    return Verdict("value", None, None, len(bodies), 2 * len(bodies), 2)


def judge_pair(case):
    a, b = case["pair"]
    decls = "type Z { ca optional %s cb optional %s }\n" \
            "type Y extends Z { cc optional %s }" % (a, b, a)
    bodies, wants = [], []
    for va in [None] + values(a)[:3]:
        for vb in [None] + values(b)[:3]:
            for vc in [None] + values(a)[-2:]:
                given = [(n, v) for n, v in
                         (("ca", va), ("cb", vb), ("cc", vc)) if v]
                for perm in itertools.permutations(given):
                    bodies.append(("Y", " ".join("%s = %s" % (n, v[0])
                                                 for n, v in perm)))
                    want = {"ca": None, "cb": None, "cc": None}
                    want.update((n, v[1]) for n, v in given)
                    wants.append(want)
    what = check_values(decls, bodies, wants)
    if what:
        return Verdict("bad", what, "pair")
    return Verdict("pair", None, None, len(bodies), 2 * len(bodies), 2)


# --- histories --------------------------------------------------------------

HTREE = [0, [0, [0, [1, [0, 0]], [1, []]]], 0, [0, [[0, [0]]]]]
HTEXT, HEVENTS = show(HTREE, "o")
OTHER = {
    "valid": {"a.rsl": RSL, "a.trlc": "package P\nR other { n = 5 }\n"},
    "open": {"a.rsl": RSL, "b.trlc": 'package P\nsection "A" {\nR o1 { '},
    "syntax": {"a.rsl": RSL + "type", "b.trlc": "package P\nR { } R o2 { }"},
    "same": {"a.rsl": RSL, "a.trlc": "package P\n" + HTEXT},
    "types": {"a.rsl": "package P\ntype R { n String }\ntuple T1 "
              "{ z Integer separator @ y optional Integer }\n"
              "type W { t T1 }", "a.trlc": "package P\nW ww { t = 1@2 }"},
}
CALLS = ["objects", "sections", "part", "dicts", "spoil", "names",
         "lookup"] + sorted("other-" + x for x in OTHER)


def judge_hist(case):
    f = drv.path_of("a.trlc")
    files = {"a.rsl": RSL, "a.trlc": "package P\n" + HTEXT}
    r = drv.run(files)
    if r.crash or not r.ok:
        return Verdict("bad", "%s %s" % (r.crash, r.msgs), "hist")
    stab = r.stab
    want = want_events({f: HEVENTS})
    where = list(paths(HTREE, "o"))
    open_its = []

    def bad(what):
        return Verdict("bad", "%s in %s" % (what, case["hist"]), "hist")

    for call in case["hist"] + ["sections", "objects", "dicts"]:
        if call == "sections":
            what = match_events(by_section(stab), want)
            if what:
                return bad(what)
        elif call == "objects":
            got = [(o.name, [s.name for s in o.section or []])
                   for o in stab.iter_record_objects()]
            if got != where:
                return bad("objects %s" % got)
        elif call == "part":
            it = stab.iter_record_objects_by_section()
            head = [event(next(it)) for _ in range(4)]
            open_its.append((it, head))
        elif call in ("dicts", "spoil"):
            for n, o in enumerate(stab.iter_record_objects()):
                d = o.to_python_dict()
                if d != {"n": n, "r": None}:
                    return bad("python form %s" % d)
                if call == "spoil":
                    spoil(d)
        elif call == "names":
            if "P" not in stab.all_names() or "P" not in stab:
                return bad("package P is not found")
        elif call == "lookup":
            pkg = stab.lookup_assuming(r.mh, "P")
            for n, (name, _) in enumerate(where):
                o = pkg.symbols.lookup_assuming(r.mh, name)
                if o is None or o.name != name or \
                   o.to_python_dict()["n"] != n:
                    return bad("lookup of %s" % name)
        else:
            other = drv.run(OTHER[call[6:]])
            if other.crash:
                return bad(other.crash)
            if (other.stab is not None) != \
               (call not in ("other-open", "other-syntax")):
                return bad("%s: %s" % (call, other.msgs))
            if other.stab:
                names = [o.name for o in other.stab.iter_record_objects()]
                if names != {"other-valid": ["other"], "other-types": ["ww"],
                             "other-same": [w[0] for w in where]}[call]:
                    return bad("%s: objects %s" % (call, names))
                got = by_section(other.stab) if call != "other-types" else []
                if call == "other-same" and match_events(got, want):
                    return bad("%s: %s" % (call, got))
                if call == "other-valid" and got != [
                        ("file", f), ("rec", "other", 0, 5)]:
                    return bad("%s: %s" % (call, got))
    for it, head in open_its:
        what = match_events(head + [event(x) for x in it], want)
        if what:
            return bad("iteration begun before: %s" % what)
    return Verdict("hist", None, None, len(case["hist"]) + 4,
                   len(case["hist"]) + 3, len(case["hist"]) + 3)


# --- lookup -----------------------------------------------------------------

DECL = {"P": {"E": "Enumeration_Type", "R": "Record_Type",
              "S": "Record_Type", "T1": "Tuple_Type", "T2": "Tuple_Type",
              "T3": "Tuple_Type", "T4": "Tuple_Type",
              "r0": "Record_Object", "s0": "Record_Object",
              "so_me": "Record_Object"},
        "Q": {"E": "Enumeration_Type", "QR": "Record_Type",
              "q0": "Record_Object", "r0": "Record_Object",
              "q1": "Record_Object"}}
BUILTIN = ["Boolean", "Integer", "Decimal", "String", "Markup_String",
           "len", "startswith", "endswith", "matches", "oneof"]
LOOK = sorted(set(sum(([n, n.lower(), n.upper(), n + "_", n.replace("_", "")]
                       for d in list(DECL.values()) + [DECL] +
                       [dict.fromkeys(BUILTIN)] for n in d), [])) | {"zz"})


def judge_lookup(case):
    from trlc import ast
    from trlc.errors import TRLC_Error
    r = drv.run({"p.rsl": RSL, "q.rsl": QRSL, "q.trlc": QTRLC,
                 "p.trlc": "package P\n" + PRE + "R so_me { }\n"},
                order=case["order"])
    if r.crash or not r.ok:
        return Verdict("bad", "%s %s" % (r.crash, r.msgs), "lookup")
    tables = {"": (r.stab, dict.fromkeys(DECL, "Package"))}
    for pkg in DECL:
        tables[pkg] = (r.stab.lookup_assuming(r.mh, pkg).symbols, DECL[pkg])
    classes = ["Package", "Record_Type", "Tuple_Type", "Enumeration_Type",
               "Record_Object"]
    n = 0
    for where, (tab, decl) in tables.items():
        for name in LOOK:
            if where and name in DECL:
                continue    # how tables are nested is not specified
            n += 1
            known = name in decl or name in BUILTIN
            if (name in tab) != known:
                return Verdict("bad", "%r in table of %r" % (name, where),
                               "contains")
            got = tab.lookup_assuming(r.mh, name)
            if (got is not None) != known or (known and got.name != name):
                return Verdict("bad", "lookup of %r in %r gives %s" % (
                    name, where, got), "lookup")
            for cls in classes:
                try:
                    got = tab.lookup_assuming(r.mh, name, getattr(ast, cls))
                except TRLC_Error:
                    got = "error"
                if known:
                    bad = got == "error" if decl.get(name) == cls else \
                        got != "error"
                else:
                    bad = got is not None
                if bad:
                    return Verdict("bad", "lookup of %r as %s in %r gives %s"
                                   % (name, cls, where, got), "lookup")
        names = [x.name for x in tab.values()]
        if (not where and not set(BUILTIN) <= set(names)) or \
           sorted(x for x in names if x in decl) != sorted(decl):
            return Verdict("bad", "values of %r: %s" % (where, names),
                           "values")
        if not set(decl) <= tab.all_names():
            return Verdict("bad", "names of %r" % where, "names")
        for cls in classes:
            names = [x.name for x in tab.values(getattr(ast, cls))
                     if not (where and x.name in DECL)]
            if sorted(names) != sorted(x for x in decl if decl[x] == cls):
                return Verdict("bad", "values of %r which are %s: %s" % (
                    where, cls, names), "values")
    return Verdict("lookup", None, None, n, n * (len(classes) + 2), n)


# --- space ------------------------------------------------------------------

def sizes(tier):
    return (6, 2, 3) if tier == "quick" else (7, 3, 4)


def bounds(tier):
    tree, file_tree, hist = sizes(tier)
    return {"nodes_of_a_section_tree": tree, "section_names": len(NAMES),
            "nodes_in_two_of_three_files": file_tree,
            "api_calls_in_a_row": hist, "kinds_of_calls": len(CALLS),
            "types": len(TYPES), "array_length": 3}


def cases(tier):
    tree, file_tree, hist = sizes(tier)
    for typ in TYPES:
        for place in list(PLACES) + ["frozen"]:
            yield {"value": 1, "type": typ, "place": place}
    for a, b in itertools.product(TYPES, repeat=2):
        yield {"pair": [a, b]}
    for order in itertools.permutations(("p.rsl", "q.rsl", "p.trlc",
                                         "q.trlc")):
        yield {"lookup": 1, "order": list(order)}
    for n in range(hist + 1):
        for calls in itertools.product(CALLS, repeat=n):
            yield {"hist": list(calls)}
    for n in range(tree + 1):
        for t in forests(n):
            yield {"tree": t}
    small = [t for n in range(file_tree + 1) for t in forests(n)]
    last = [t for n in range(2) for t in forests(n)]
    for ts in itertools.product(small, small, last):
        for order in range(6):
            for foreign in (0, 1):
                yield {"files": list(ts), "order": order,
                       "foreign": foreign}


def judge(case):
    for kind, fn in (("tree", judge_tree), ("files", judge_files),
                     ("value", judge_value), ("pair", judge_pair),
                     ("hist", judge_hist), ("lookup", judge_lookup)):
        if kind in case:
            return fn(case)
    raise KeyError(case)
