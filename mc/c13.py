"""C13: references are resolved late and only to conforming objects

place    all kinds of places for a reference x declared type x reference
         text x where the target is declared x imports of the file
graph    all reference graphs over three objects x orders and files
errors   all subsets of objects with a broken reference: each is reported
markup   all texts over a small alphabet as the value of a Markup_String
"""
import itertools

from . import drv
from .core import Verdict

PID = "C13"
CASE_LIMIT = 60.0
ASSUMPTIONS = [
    "a frozen reference in a type without objects is left open",
    "one broken reference per object has to be reported, not all of them",
    "Markup_String references have no declared type; any record object will "
    "do",
]

P_HEAD = """package P
import Q
enum E { A B }
type R { }
type S extends R { }
type D { }
type U { }
abstract type AB { }
type ACon extends AB { }
type W extends Q.QT { }
type V extends Q.R { }
"""
Q_RSL = "package Q\ntype QT { }\ntype QS extends QT { }\nenum QE { A }\n" \
    "type R { }\ntype S extends R { }\n"
H_RSL = "package H\ntype HT { }\n"
PARENT = {"P.R": None, "P.S": "P.R", "P.D": None, "P.U": None, "P.AB": None,
          "P.ACon": "P.AB", "P.W": "Q.QT", "Q.QT": None, "Q.QS": "Q.QT",
          "H.HT": None, "Q.R": None, "Q.S": "Q.R", "P.V": "Q.R", "P.T": None, "P.T0": None, "P.TF": "P.T0"}
OBJ = {"P": {"r1": "P.R", "s1": "P.S", "d1": "P.D", "u1": "P.U",
             "a1": "P.ACon", "w1": "P.W", "v1": "P.V", "holder": "P.T"},
       "Q": {"q1": "Q.QT", "qs1": "Q.QS", "r1": "Q.QT", "s9": "P.S",
             "qr": "Q.R", "qss": "Q.S"},
       "H": {"h1": "H.HT", "r1": "H.HT"},
       "L": {"l1": "P.S", "d1": "P.D"}}
P_OBJ = "R r1 { }\nS s1 { }\nD d1 { }\nU u1 { }\nACon a1 { }\nW w1 { }\n" \
    "V v1 { }\n"
Q_TRLC = "package Q\nimport P\nQT q1 { }\nQS qs1 { }\nQT r1 { }\nP.S s9 { }\n" \
    "R qr { }\nS qss { }\n"
H_TRLC = "package H\nHT h1 { }\nHT r1 { }\n"
L_TRLC = "package L\nimport P\nP.S l1 { }\nP.D d1 { }\n"

DECL = {
    "R": ["P.R"], "S": ["P.S"], "D": ["P.D"], "AB": ["P.AB"],
    "Q.QT": ["Q.QT"], "W": ["P.W"], "T": ["P.T"], "[S, D]": ["P.S", "P.D"],
    "[Q.QT, R]": ["Q.QT", "P.R"], "[AB, T]": ["P.AB", "P.T"],
    "[U, S]": ["P.U", "P.S"], "[Q.QS, D]": ["Q.QS", "P.D"],
    "Q.R": ["Q.R"], "[S, Q.R]": ["P.S", "Q.R"],
}
PLACES = ["comp", "opt", "arr", "arr2", "tup", "sep1", "sep2", "nest",
          "arrtup", "base", "sepopt", "arrsep"]
MARKUP = ["m", "marr", "mtup", "mtext", "mlist", "mlist2", "mquote", "mtriple",
          "mlines", "msep"]
WHERE = ["before", "after", "fileA", "fileZ", "regZ", "section"]
EXPRS = [n for n in ("r1", "s1", "d1", "u1", "a1", "w1", "v1", "holder", "q1",
                     "qs1", "h1", "l1", "zz", "R", "E", "Integer", "P", "Q",
                     "R1", "r_1", "AB", "s9")] + \
    ["P.r1", "P.s1", "P.d1", "P.holder", "P.w1", "P.zz", "P.R", "P.E",
     "P.q1", "P.R1"] + \
    ["Q.q1", "Q.qs1", "Q.r1", "Q.s9", "Q.s1", "Q.qr", "Q.qss", "Q.QT", "Q.zz", "Q.QE", "Q.Q1"] + \
    ["H.h1", "H.r1", "H.zz", "L.l1", "L.d1", "L.zz", "zz.r1", "r1.r1",
     "E.A", "R.r1", "q.q1", "Integer.r1", "len.r1"]


def is_sub(t, root):
    while t is not None:
        if t == root:
            return True
        t = PARENT[t]
    return False


def resolve(expr, visible, roots):
    """-> full name of the target or None"""
    parts = expr.split(".")
    if len(parts) == 1:
        pkg, n = "P", parts[0]
    else:
        pkg, n = parts
    if pkg not in visible or n not in OBJ[pkg]:
        return None
    if roots is not None and not any(is_sub(OBJ[pkg][n], r) for r in roots):
        return None
    return pkg + "." + n


def build(place, decl, expr, where, imports):
    """-> files, file and line of the reference"""
    rsl = P_HEAD
    x = "\n%s\n" % expr
    mark = place in MARKUP
    if place in ("comp", "opt"):
        rsl += "type T { r %s %s }\n" % ("optional" if place == "opt" else "",
                                         decl)
        val = "r = " + x
    elif place in ("arr", "arr2"):
        rsl += "type T { r %s [0 .. *] }\n" % decl
        val = "r = [" + x + ("," + x if place == "arr2" else "") + "]"
    elif place == "tup":
        rsl += "type T0 { }\n" if False else ""
        val = "r = (1, " + x + ")"
    elif place == "sep1":
        val = "r = " + x + " @ 1"
    elif place in ("sep2", "sepopt"):
        val = "r = 1 @ " + x
    elif place == "nest":
        val = "r = (1, (2, " + x + "))"
    elif place == "arrtup":
        val = "r = [(1, " + x + ")]"
    elif place == "arrsep":
        val = "r = [1 @ " + x + "]"
    elif place == "base":
        rsl += "type T0 { r %s }\ntype T extends T0 { }\n" % decl
        val = "r = " + x
    # tuples must be declared before the record, so that a reference to T
    # itself cannot occur in them
    if place in ("tup", "arrtup"):
        rsl += "tuple X { a Integer b %s }\n" % decl
    elif place == "sep1":
        rsl += "tuple X { b %s separator @ a Integer }\n" % decl
    elif place in ("sep2", "arrsep"):
        rsl += "tuple X { a Integer separator @ b %s }\n" % decl
    elif place == "sepopt":
        rsl += "tuple X { a Integer separator @ b optional %s }\n" % decl
    elif place == "nest":
        rsl += "tuple Y { a Integer b %s }\ntuple X { a Integer b Y }\n" \
            % decl
    if place in ("tup", "sep1", "sep2", "sepopt", "nest"):
        rsl += "type T { r X }\n"
    elif place in ("arrtup", "arrsep"):
        rsl += "type T { r X [0 .. *] }\n"
    if mark:
        if place == "marr":
            rsl += "type T { r Markup_String [0 .. *] }\n"
            val = "r = [\n\"[[%s]]\"\n]" % expr
        elif place == "mtup":
            rsl += "tuple X { a Integer b Markup_String }\ntype T { r X }\n"
            val = "r = (1,\n\"[[%s]]\"\n)" % expr
        elif place == "msep":
            rsl += "tuple X { b Markup_String separator : a optional " \
                "Integer }\ntype T { r X }\n"
            val = "r = \n\"[[%s]]\"\n" % expr
        else:
            rsl += "type T { r Markup_String }\n"
            val = "r = \n" + {
                "m": '"[[%s]]"', "mtext": '"a [ b ] %s [[%s]] . , [" ',
                "mlist": '"[[%s, %s]]"', "mlist2": '"[[%s]] and [[ %s ]]"',
                "mquote": '"\\"[[%s]]\\""', "mtriple": "'''[[%s]]'''",
                "mlines": '"""\n  text\n  [[\n%s\n]]"""'}[place].replace(
                    "%s", expr) + "\n"
    main = "package P\n" + "".join("import %s\n" % i for i in imports)
    obj = "T holder {\n%s\n}\n" % val
    files = {"p.rsl": rsl, "q.rsl": Q_RSL, "h.rsl": H_RSL}
    if where == "before":
        main += P_OBJ + obj
    elif where == "after":
        main += obj + P_OBJ
    elif where == "section":
        main += 'section "a" {\n' + obj + '}\nsection "b" {\n' + P_OBJ + "}\n"
    else:
        main += obj
    others = {"q.trlc": Q_TRLC, "h.trlc": H_TRLC, "l.trlc": L_TRLC}
    if where == "fileA":
        files["a.trlc"] = "package P\n" + P_OBJ
        files.update(others)
        files["main.trlc"] = main
    elif where == "fileZ":
        files["main.trlc"] = main
        files.update(others)
        files["z.trlc"] = "package P\n" + P_OBJ
    elif where == "regZ":
        files["zmain.trlc"] = main
        files["b.trlc"] = "package P\n" + P_OBJ
        files.update(others)
    else:
        files["main.trlc"] = main
        files.update(others)
    mainfile = "zmain.trlc" if where == "regZ" else "main.trlc"
    lines = main.split("\n")
    at = set()
    start = lines.index("T holder {")
    for k in range(start + 1, len(lines)):
        if lines[k] == "}":
            break
        if expr in lines[k]:
            at.add(k + 1)
    return files, mainfile, at


def build_frozen(decl, expr, mark, imported):
    rsl = P_HEAD
    val = '\n"[[%s]]"\n' % expr if mark else "\n%s\n" % expr
    rsl += "type T { }\n"
    rsl += "type T0 { r %s }\n" % decl
    rsl += "type TF extends T0 {\nfreeze r =%s}\n" % val
    files = {"p.rsl": rsl, "q.rsl": Q_RSL, "h.rsl": H_RSL,
             "q.trlc": Q_TRLC, "h.trlc": H_TRLC, "l.trlc": L_TRLC,
             "main.trlc": "package P\n" + P_OBJ + "T holder { }\n"}
    if imported:
        files["main.trlc"] += ""
        files["q2.trlc"] = "package Q\nimport P\nP.TF fro { }\n"
    else:
        files["main.trlc"] += "TF fro { }\n"
    lines = rsl.split("\n")
    start = lines.index("freeze r =")
    at = {k + 1 for k in range(start, start + 3) if expr in lines[k]}
    return files, "p.rsl", at


def refs_of(v):
    """all references below a value, in order"""
    a = drv.ast
    if isinstance(v, a.Record_Reference):
        return [v]
    if isinstance(v, a.Array_Aggregate):
        return [r for e in v.value for r in refs_of(e)]
    if isinstance(v, a.Tuple_Aggregate):
        return [r for e in v.value.values() for r in refs_of(e)]
    if isinstance(v, a.String_Literal):
        return list(v.references)
    return []


def examine(files, mainfile, at, want, objname):
    r = drv.run(files)
    if r.crash:
        return "internal failure: " + r.crash
    got = r.ok and not r.errors()
    if want is None:
        if got:
            return "accepted"
        if not any(m.file == mainfile and m.line in at for m in r.errors()):
            return "no error at the reference (line %s): %s" % (
                sorted(at), r.msgs[:3])
        return None
    if not got:
        return "rejected: %s" % r.msgs[:2]
    objs = {o.fully_qualified_name(): o
            for o in r.stab.iter_record_objects()}
    o = objs[objname]
    rr = refs_of(o.field["r"])
    if not rr:
        return "no reference in the result"
    for ref in rr:
        if ref.target is not objs[want]:
            return "resolved to %s" % (ref.target and
                                       ref.target.fully_qualified_name())
    if isinstance(o.field["r"], drv.ast.Record_Reference) and \
            o.to_python_dict()["r"] != want:
        return "python value %r" % o.to_python_dict()["r"]
    return None


def judge_place(case):
    _, place, decl, where, imports = case
    bad = []
    n = 0
    roots = None if place in MARKUP else DECL[decl]
    visible = {"P"} | set(imports)
    for expr in EXPRS:
        if place == "sep1" and expr.split(".")[-1] == "holder":
            pass
        files, mf, at = build(place, decl, expr, where, imports)
        want = resolve(expr, visible, roots)
        n += 1
        t = examine(files, mf, at, want, "P.holder")
        if t:
            bad.append("%s (%s, type %s, targets %s, imports %s): expected "
                       "%s, but %s" % (expr, place, decl, where, imports,
                                       want or "error", t))
    return fin("place:" + place, bad, n)


def fin(what, bad, n):
    if bad:
        return Verdict(what + ":differ", "\n".join(bad[:4]), bad[0][:60], n,
                       n, n)
    return Verdict(what, None, None, n, n, n)


def judge_frozen(case):
    _, decl, mark, imported = case
    bad = []
    n = 0
    for expr in EXPRS:
        files, mf, at = build_frozen(decl, expr, mark, imported)
        want = resolve(expr, {"P", "Q"}, None if mark else DECL[decl])
        n += 1
        t = examine(files, mf, at, want, ("Q" if imported else "P") + ".fro")
        if t:
            bad.append("%s frozen (type %s%s): expected %s, but %s" % (
                expr, decl, ", imported" if imported else "",
                want or "error", t))
    return fin("frozen", bad, n)


# ---------------------------------------------------------------- graphs
G_RSL = ("package P\ntype N {\n a optional N\n b optional N [0 .. *]\n"
         " m optional Markup_String\n}\ntype M extends N { }\n")


def subsets(n):
    for k in range(n + 1):
        yield from itertools.permutations(range(n), k)


def judge_graph(case):
    _, perm, split, e0 = case
    bad = []
    n = 0
    for e1 in subsets(3):
        for e2 in itertools.combinations_with_replacement(range(3), 2):
            edges = [e0, e1, e2]
            decl = {}
            want = {}
            for i, e in enumerate(edges):
                body = []
                w = {"a": None, "b": None, "m": None}
                if e:
                    body.append("a = o%u" % e[0])
                    w["a"] = "P.o%u" % e[0]
                    body.append("b = [%s]" % ", ".join(
                        ("P.o%u" if k % 2 else "o%u") % k for k in e))
                    w["b"] = ["P.o%u" % k for k in e]
                    body.append('m = "%s"' % " ".join(
                        "[[o%u]]" % k for k in e))
                    w["m"] = " ".join("[[o%u]]" % k for k in e)
                decl[i] = "%s o%u { %s }\n" % ("NMN"[i], i, " ".join(body))
                want["P.o%u" % i] = w
            files = {"p.rsl": G_RSL}
            texts = ["", ""]
            for pos, i in enumerate(perm):
                texts[1 if pos >= split else 0] += decl[i]
            for k in (0, 1):
                if texts[k]:
                    files["f%u.trlc" % k] = "package P\n" + texts[k]
            r = drv.run(files)
            n += 1
            if r.crash or not r.ok or r.errors():
                bad.append("%s rejected: %s" % (files, r.crash or r.msgs[:2]))
                continue
            got = {o.fully_qualified_name(): o.to_python_dict()
                   for o in r.stab.iter_record_objects()}
            if got != want:
                bad.append("%s: objects %s" % (files, got))
                continue
            objs = {o.name: o for o in r.stab.iter_record_objects()}
            for i, e in enumerate(edges):
                f = objs["o%u" % i].field
                for comp, exp in (("a", e[:1]), ("b", e), ("m", e)):
                    if [x.target for x in refs_of(f[comp])] != \
                            [objs["o%u" % k] for k in exp]:
                        bad.append("%s: wrong target in o%u.%s" %
                                   (files, i, comp))
    return fin("graph", bad, n)


BROKEN = ["a = zz", "b = [o0, zz]", 'm = "[[zz]]"', "a = P.zz",
          'm = "[[o1, zz]]"', "a = wrong", "b = [wrong]"]


def judge_errors(case):
    _, kinds, late = case
    # kinds[i]: index into BROKEN or None
    text = ""
    lines = {}
    first = 3
    wrong = "X wrong { }\n"
    body = []
    for i, k in enumerate(kinds):
        body.append("N o%u {\n%s\n}\n" % (i, BROKEN[k] if k is not None
                                          else "a = o0"))
    seq = [wrong] + body if not late else body + [wrong]
    text = "package P\n"
    for part in seq:
        if part.startswith("N"):
            lines[part[2:4]] = text.count("\n") + 2
        text += part
    r = drv.run({"p.rsl": G_RSL + "type X { }\n", "p.trlc": text})
    want = {ln for (o, ln) in lines.items() if kinds[int(o[1])] is not None}
    if r.crash:
        return Verdict("errors:differ", text + r.crash, "errors crash")
    got = {m.line for m in r.errors()}
    # a wrong type is known at once if the target is declared earlier, and
    # then the references of the other objects need not be looked at
    early = not late and any(k is not None and "wrong" in BROKEN[k]
                             for k in kinds)
    if r.ok != (not want) or not got <= want or \
       (got != want and not early) or (want and not got):
        return Verdict("errors:differ", "%s\nerrors expected at lines %s, "
                       "got %s" % (text, sorted(want), r.msgs), "errors")
    return Verdict("errors")


# ---------------------------------------------------------------- markup
PIECES = ["[[", "]]", "[", "]", "r1", "Q", ".", ",", " ", "zz", "7", "q1"]


class MBad(Exception):
    pass


def markup_model(s):
    """-> list of (package, name) or raises MBad"""
    i = 0
    out = []
    n = len(s)

    def ws():
        nonlocal i
        while i < n and s[i] in " \n\t":
            i += 1

    def ident():
        nonlocal i
        ws()
        j = i
        if j >= n or not s[j].isalpha():
            raise MBad()
        while j < n and (s[j].isalnum() or s[j] == "_"):
            j += 1
        rv, i = s[i:j], j
        return rv
    while i < n:
        if s.startswith("[[", i):
            i += 2
            while True:
                a = ident()
                ws()
                if s.startswith(".", i):
                    i += 1
                    out.append((a, ident()))
                    ws()
                else:
                    out.append(("P", a))
                if s.startswith(",", i):
                    i += 1
                    continue
                if s.startswith("]]", i):
                    i += 2
                    break
                raise MBad()
        elif s.startswith("]]", i):
            raise MBad()
        else:
            i += 1
    return out


def markup_expect(s):
    try:
        refs = markup_model(s)
    except MBad:
        return None
    rv = []
    for p, n in refs:
        if p not in ("P", "Q") or n not in OBJ[p] or n == "holder":
            return None
        rv.append(p + "." + n)
    return rv


def judge_markup(case):
    _, prefix, depth, quote = case
    good, bad = [], []
    n = 0
    base = {"p.rsl": P_HEAD + "type T { m Markup_String }\n", "q.rsl": Q_RSL,
            "h.rsl": H_RSL, "q.trlc": Q_TRLC,
            "po.trlc": "package P\n" + P_OBJ}
    head = "package P\nimport Q\n"

    def lit(s):
        return '"%s"' % s if quote == 1 else "'''%s'''" % s

    def run(ss):
        return drv.run(dict(base, **{"main.trlc": head + "".join(
            "T zz%u {\nm = %s\n}\n" % (k, lit(s))
            for k, s in enumerate(ss))}))

    def check(r, ss):
        if r.crash or not r.ok or r.errors():
            return str(r.crash or r.msgs[:1])
        objs = {o.name: o for o in r.stab.iter_record_objects()}
        for k, (s, want) in enumerate(ss):
            got = [x.target.fully_qualified_name()
                   for x in objs["zz%u" % k].field["m"].references]
            if got != want:
                return "%r refers to %s instead of %s" % (s, got, want)
        return None
    for rest in itertools.product(PIECES, repeat=depth):
        s = "".join(prefix) + "".join(rest)
        want = markup_expect(s)
        if want is not None:
            if quote == 3 and s.strip() != s:
                pass
            good.append((s, want))
            continue
        r = run([s])
        n += 1
        if r.crash or r.ok:
            bad.append("%r must be rejected: %s" % (s, r.crash or
                                                    "accepted"))
        elif not any(m.file == "main.trlc" and m.line == 4
                     for m in r.errors()):
            bad.append("%r must be rejected: %s" % (s, r.msgs[:2]))
        if len(bad) > 4:
            break
    for k in range(0, len(good), 50):
        part = good[k:k + 50]
        n += 1
        t = check(run([s for s, _ in part]), part)
        if t:
            for one in part:
                t = check(run([one[0]]), [one])
                if t:
                    bad.append("%r must refer to %s: %s" % (one[0], one[1],
                                                            t))
                    break
            else:
                bad.append("together: " + t)
    return fin("markup", bad, n)


def cases(tier):
    q = tier == "quick"
    for place in PLACES:
        for k, decl in enumerate(DECL):
            # the record's own type cannot be used before it is declared
            if "T" in decl.replace("QT", "").strip("[]").split(", ") and \
               place not in ("comp", "opt", "arr", "arr2"):
                continue
            for j, where in enumerate(WHERE):
                for imports in (["Q"], ["Q", "L"], []):
                    if q and (k + j + PLACES.index(place)) % 3 and \
                       (place not in ("comp", "arr") or imports != ["Q"]):
                        continue
                    yield ["place", place, decl, where, imports]
    for place in MARKUP:
        for where in WHERE:
            for imports in (["Q"], ["Q", "L"], [], ["H"]):
                yield ["place", place, "", where, imports]
    for decl in DECL:
        for imported in (0, 1):
            yield ["frozen", decl, 0, imported]
    for imported in (0, 1):
        yield ["frozen", "Markup_String", 1, imported]
    for perm in itertools.permutations(range(3)):
        for split in (1, 2, 3):
            for e0 in subsets(3):
                if q and split == 2 and len(e0) == 3:
                    continue
                yield ["graph", perm, split, e0]
    opts = [None] + list(range(len(BROKEN)))
    for kinds in itertools.product(opts, repeat=3):
        for late in (0, 1):
            yield ["errors", kinds, late]
    for quote in (1, 3):
        for x in PIECES:
            for d in (0, 1, 2):
                yield ["markup", [x], d, quote]
            for y in PIECES:
                for z in PIECES:
                    yield ["markup", [x, y, z], 1, quote]
                    if not q or x == "[[":
                        yield ["markup", [x, y, z], 2, quote]
                    if not q and x == "[[":
                        yield ["markup", [x, y, z], 3, quote]


def judge(case):
    return {"place": judge_place, "frozen": judge_frozen,
            "graph": judge_graph, "errors": judge_errors,
            "markup": judge_markup}[case[0]](case)


def bounds(tier):
    return {"places": PLACES + MARKUP + ["frozen"], "types": list(DECL),
            "references": EXPRS, "targets declared": WHERE,
            "graph": "3 objects, references to up to 3 of them in order",
            "markup pieces": PIECES, "markup length":
            "4, 5 after [[" if tier == "quick" else "5, 6 after [["}
