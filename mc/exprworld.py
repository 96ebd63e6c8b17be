"""The fixed package used by the checks on expressions

The names E2, U2, TQ, n1 and k1 are those of entities of another package,
which have the same name there as an entity of this package has: see files().
"""
import re

from .exprmodel import World, show_value

OTHER = {"E2": "Q.E1", "U2": "Q.R", "TQ": "Q.TG", "n1": "Q.m1",
         "k1": "Q.o1"}
OTHER_RE = re.compile(r"\b(?:%s)\b" % "|".join(OTHER))

ENUMS = {"E1": ["A", "B"], "E2": ["A", "B"]}
TUPLES = {
    "TG": {"x": "int", "y": "str"},
    "TS": {"p": "int", "q": "int"},
    "TQ": {"x": "int", "y": "str"},
    "TN": {"m": ("tuple", "TG"), "n": "int"},
}
R, U1, U2 = ("rec", "R"), ("rec", "U1"), ("rec", "U2")
RS = ("rec", "RS")


def un(decl):
    return ("union", ("R", "U1"), decl)


def up(decl):
    return ("union", ("RS", "U2"), decl)


def arr(name, el, lo=0, hi=None):
    return ("arr", name, el, lo, hi)


TCOMPS = {
    "a": "int", "b": "int", "c": "int",
    "d": "dec", "e": "dec", "f": "dec",
    "s": "str", "t": "str", "mk": "mark",
    "p": "bool", "q": "bool", "r": "bool",
    "e1": ("enum", "E1"), "f1": ("enum", "E1"), "e2": ("enum", "E2"),
    "tg": ("tuple", "TG"), "ug": ("tuple", "TG"),
    "tq": ("tuple", "TQ"),
    "ts": ("tuple", "TS"), "us": ("tuple", "TS"),
    "tn": ("tuple", "TN"), "vn": ("tuple", "TN"),
    "r1": R, "r2": R, "rs": RS, "u1": U1, "u2": U2,
    "un": un("un"), "vn2": un("vn2"), "up": up("up"),
    "ai": arr("ai", "int"), "bi": arr("bi", "int"),
    "a3": arr("a3", "int", 0, 3),
    "ad": arr("ad", "dec"), "as_": arr("as_", "str"),
    "am": arr("am", "mark"), "ab": arr("ab", "bool"),
    "ae": arr("ae", ("enum", "E1")), "ag": arr("ag", ("tuple", "TG")),
    "ar": arr("ar", R), "ars": arr("ars", RS), "au": arr("au", un("au")),
    "resi": "int", "resn": "dec", "resd": "dec", "ress": "str",
}

RECORDS = {
    "R": (None, {"v": "int", "w": "int", "next": R, "g": ("tuple", "TG"),
                 "k": arr("R.k", "int"), "z": "str"}),
    "RS": ("R", {"x": "int"}),
    "U1": (None, {"v": "int", "o": "str", "z": "int"}),
    "U2": (None, {"v": "int", "w": "str"}),
    "T": (None, TCOMPS),
}

WORLD = World(ENUMS, TUPLES, RECORDS, "T")


def type_text(t):
    if isinstance(t, str):
        return {"int": "Integer", "dec": "Decimal", "str": "String",
                "mark": "Markup_String", "bool": "Boolean"}[t]
    if t[0] in ("enum", "tuple", "rec"):
        return t[1]
    if t[0] == "union":
        return "[%s]" % ", ".join(t[1])
    if t[0] == "arr":
        return "%s [%u .. %s]" % (type_text(t[2]), t[3],
                                  "*" if t[4] is None else t[4])
    raise AssertionError(t)


def head(comps=None):
    """rsl text, with only the needed components of T (all optional)"""
    rv = ["package P import Q"]
    for n, lits in ENUMS.items():
        if n in OTHER:
            continue
        rv.append("enum %s { %s }" % (n, " ".join(lits)))
    rv.append("tuple TG { x Integer y String }")
    rv.append("tuple TS { p Integer separator @ q optional Integer }")
    rv.append("tuple TN { m TG n Integer }")
    for n in ("R", "RS", "U1", "T"):
        parent, own = RECORDS[n]
        rv.append("type %s %s{" % (n, "extends %s " % parent
                                   if parent else ""))
        for c, t in own.items():
            if n == "T" and comps is not None and c not in comps:
                continue
            rv.append("  %s optional %s" % (c, type_text(t)))
        rv.append("}")
    return "\n".join(rv) + "\n"


OBJS = {
    "o1": ("R", {"v": 1, "w": 2, "next": ("ref", "o2"),
                 "g": ("T", "TG", {"x": 1, "y": "a"}),
                 "k": ("A", [1, 2]), "z": "zz"}),
    "o2": ("R", {"v": 2, "next": ("ref", "s1")}),
    "s1": ("RS", {"v": 1, "x": 5, "next": ("ref", "o1"),
                  "k": ("A", [])}),
    "m1": ("U1", {"v": 1, "o": "a", "z": 3}),
    "m2": ("U1", {"o": "b"}),
    "n1": ("U2", {"v": 3, "w": "x"}),
    "k1": ("R", {"v": 7, "w": 2}),
}


def ref(n):
    return ("ref", n)


def tg(x, y):
    return ("T", "TG", {"x": x, "y": y})


def ts(p, q=None):
    return ("T", "TS", {"p": p, "q": q}, "@")


def body(ctx):
    return " ".join("%s = %s" % (c, show_value(v)) for c, v in ctx.items()
                    if v is not None)


HEAD_OBJS = "\n".join("%s %s { %s }" % (t, n, body(f))
                      for n, (t, f) in OBJS.items() if n not in OTHER)

Q_RSL = """package Q
enum E1 { A B }
tuple TG { x Integer y String }
type R { v optional Integer w optional String }
type RS extends R { }
type U1 { v optional Integer }
"""
Q_TRLC = """package Q
import P
R m1 { %s }
P.R o1 { %s }
R o2 { }
""" % (body(OBJS["n1"][1]), body(OBJS["k1"][1]))


def files(rsl, trlc=None):
    """the files of a text with the names above"""
    if not rsl.startswith("package P import Q"):
        rv = {"p.rsl": rsl}
        if trlc:
            rv["p.trlc"] = trlc
        return rv
    rv = {"p.rsl": OTHER_RE.sub(lambda m: OTHER[m.group()], rsl),
          "q.rsl": Q_RSL}
    if trlc:
        assert trlc.startswith("package P\n")
        trlc = "package P import Q" + trlc[9:]
        rv["p.trlc"] = OTHER_RE.sub(lambda m: OTHER[m.group()], trlc)
        rv["q.trlc"] = Q_TRLC
    return rv


def full(ctx, this="T"):
    return {c: ctx.get(c) for c in WORLD.comps(this)}
