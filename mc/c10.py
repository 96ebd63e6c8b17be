"""C10: a record object is accepted exactly if it satisfies its type

struct  all record type chains up to a length (qualifiers, mandatory and
        optional components, freezes on every level), every type of the
        chain, all sequences of component assignments (depth first, stopping
        where the model says that no continuation can be accepted)
tokens  all token sequences up to a length as the value of a component, for
        every kind of type
arrays  all bounds times all lengths times element kinds times where the
        component is declared
types   all kinds of names in the place of the object's type
"""
import itertools

from . import drv
from .core import Verdict
from .valmodel import body as model_body
from .valrun import Bodies, same

PID = "C10"
ASSUMPTIONS = [
    "a comma after the last element of an array is left open (the grammar "
    "forbids it, implementation and its tests allow it)",
    "the reference reader in mc/valmodel.py states the manual's rules",
]

# ---------------------------------------------------------------- struct


def chains(tier):
    """lists of levels [qualifier, [own component kinds], [freezes]];
    components are numbered in order of declaration"""
    def levels(k, comps, frozen, final):
        quals = ("", "abstract", "final")
        owns = ((), ("m",), ("o",))
        if k == 0:
            owns += (("m", "o"),)
        for q in quals:
            for own in owns:
                if own and final:
                    continue
                ids = list(range(len(comps), len(comps) + len(own)))
                free = [i for i in range(len(comps) + len(own))
                        if i not in frozen]
                for r in range(0, 3):
                    for fr in itertools.combinations(free, r):
                        yield q, own, ids, fr

    def gen(n, k, comps, frozen, final):
        if k == n:
            yield []
            return
        for q, own, ids, fr in levels(k, comps, frozen, final):
            if n == 3 and tier == "quick" and len(own) > 1:
                continue
            for rest in gen(n, k + 1, comps + list(own), frozen + list(fr),
                            final or q == "final"):
                yield [[q, list(own), list(fr)]] + rest
    for n in (1, 2, 3):
        yield from gen(n, 0, [], [], False)


def chain_rsl(chain):
    text = "package P\n"
    comps, frozen, n = [], {}, 0
    recs = []
    for k, (q, own, fr) in enumerate(chain):
        text += "%s type T%u %s {\n" % (q, k, "extends T%u" % (k - 1)
                                        if k else "")
        for o in own:
            text += "  c%u %s Integer\n" % (n, "optional" if o == "o" else "")
            comps.append(["c%u" % n, o == "o", ["int"]])
            n += 1
        for f in fr:
            text += "  freeze c%u = %u\n" % (f, 50 + 10 * k + f)
            frozen["c%u" % f] = 50 + 10 * k + f
        text += "}\n"
        recs.append({"comps": list(comps), "frozen": dict(frozen),
                     "abstract": q == "abstract"})
    return text, recs


WORLD0 = {"pkg": "P", "visible": {"P": {}}, "enums": {}, "parents": {},
          "other": set()}


def judge_struct(case):
    b = None
    bad = []
    st = ex = 0
    acc = 0
    chain = case[1]
    rsl, recs = chain_rsl(chain)
    r0 = drv.run({"p.rsl": rsl})
    if not r0.ok or r0.errors():
        return Verdict("struct:types", "legal types rejected: %s\n%s" %
                       (rsl, r0.crash or r0.msgs[:2]), "types")
    for k, rec in enumerate(recs):
        if k < len(recs) - 1 and len(recs) == 3:
            continue                      # covered by the shorter chains
        b = Bodies({"p.rsl": rsl}, "package P\n", "T%u" % k, WORLD0, rec)
        if rec["abstract"]:
            names = [c[0] for c in rec["comps"] if c[0] not in rec["frozen"]]
            for m in range(len(names) + 1):
                r = b.run([" ".join("%s = 1" % n for n in names[:m])])
                if r.crash or (r.ok and not r.errors()):
                    b.bad.append((str(m), "abstract: must be rejected",
                                  r.crash or "accepted"))
        else:
            names = [c[0] for c in rec["comps"]] + ["zz", "C0"]

            def go(seq):
                toks = []
                for j, n in enumerate(seq):
                    toks += [n, "=", str(j + 1)]
                s = b.add(toks)
                if s[0] == "bad" or len(seq) > len(rec["comps"]) or \
                   len(b.bad) > 5:
                    return
                for n in names:
                    go(seq + [n])
            go([])
            b.flush()
        bad += b.bad
        st += b.states
        ex += b.execs
        acc += b.nacc
    return fin("struct", bad, st, ex, rsl)


def fin(what, bad, st, ex, ctx=""):
    if not bad:
        return Verdict(what + ":agree", None, None, st, st, ex)
    return Verdict(what + ":differ", ctx + "\n" + "\n".join(
        "{ %s }: %s, but %s" % x for x in bad[:5]),
        "%s %s" % (what, bad[0][0]), st, st, ex)


# ---------------------------------------------------------------- tokens

Q_RSL = "package Q\nenum G { A D }\ntype QT {}\n" \
    "enum E { A B }\ntype S { }\n"
H_RSL = "package H\nenum K { A }\ntype HT {}\n"
P_RSL = """package P
import Q
enum E { A B }
enum F { A C }
tuple Tg { m Integer n String }
tuple Ts { m Integer separator @ n optional Integer }
type R { }
type S extends R { }
type D { }
type W extends Q.QT { }
"""
OBJ = {"q.trlc": "package Q\nQT q1 { }\nS sq { }\n",
       "h.trlc": "package H\nHT h1 { }\n",
       "po.trlc": "package P\nR r1 { }\nS s1 { }\nD d1 { }\nW w1 { }\n"}
WORLD = {
    "pkg": "P",
    "visible": {"P": {"r1": "P.R", "s1": "P.S", "d1": "P.D", "w1": "P.W"},
                "Q": {"q1": "Q.QT", "sq": "Q.S"}},
    "enums": {"P.E": ["A", "B"], "P.F": ["A", "C"], "Q.G": ["A", "D"],
              "Q.E": ["A", "B"]},
    "parents": {"P.R": None, "P.S": "P.R", "P.D": None, "Q.QT": None,
                "P.W": "Q.QT", "P.T": None, "Q.S": None},
    "other": {"P.Tg", "P.Ts"},
}
TG = ["tup", [["m", False, ["int"]], ["n", False, ["str"]]], None]
TS = ["tup", [["m", False, ["int"]], ["n", True, ["int"]]], ["@"]]
U1 = ["union", ["P.S", "P.D"]]
U2 = ["union", ["Q.QT", "P.R"]]
BASE = {
    "int": ("Integer", ["int"]), "dec": ("Decimal", ["dec"]),
    "bool": ("Boolean", ["bool"]), "str": ("String", ["str"]),
    "mark": ("Markup_String", ["str"]),
    "e": ("E", ["enum", "P.E"]), "f": ("F", ["enum", "P.F"]),
    "g": ("Q.G", ["enum", "Q.G"]), "ge": ("Q.E", ["enum", "Q.E"]),
    "r": ("R", ["rec", "P.R"]), "s": ("S", ["rec", "P.S"]),
    "q": ("Q.QT", ["rec", "Q.QT"]),
    "u1": ("[S, D]", U1), "u2": ("[Q.QT, R]", U2),
    "tg": ("Tg", TG), "ts": ("Ts", TS),
}
LITS = ["1", "+", "-", "1.5", '"a"', "true", "null", "r1", "E", ".", "A",
        "[", "]", ",", "(", ")", "@", "0x1F", "false", "s1", "Q"]
NUM = ["1", "0", "+", "-", "1.5", "0x1F", "2", '"a"', "x", "(", ")", "y", "="]
ENUMS = ["E", "F", "Q", "G", "H", "K", "P", ".", "A", "B", "D", "C", "true",
         "r1"]
REFS = ["r1", "s1", "d1", "w1", "q1", "sq", "h1", "zz", "P", "Q", "H", ".", "R",
        "E", "null"]
COMMON = ["1", "y", "=", "[", "]", ","]
ARRI = ["1", "-", "[", "]", ",", "y", "=", '"a"']
ARRE = ["E", "F", ".", "A", "[", "]", ",", "B"]
ARRR = ["r1", "s1", "d1", "Q", ".", "q1", "sq", "[", "]", ",", "zz"]
ARRT = ["1", "(", ")", "[", "]", ",", "@", '"a"']

TOKENS = {
    # name: (alphabet, base types, depth quick, depth thorough)
    "lits": (LITS, list(BASE), 4, 6),
    "num": (NUM, ["int", "dec"], 5, 7),
    "enums": (ENUMS, ["e", "f", "g", "ge"], 6, 8),
    "refs": (REFS, ["r", "s", "q", "u1", "u2"], 5, 7),
}
ARRTOK = {
    "ai": (ARRI, "int", 7, 9),
    "ae": (ARRE, "e", 12, 14),
    "ar": (ARRR, "s", 6, 8),
    "au": (ARRR, "u2", 6, 8),
    "atg": (ARRT, "tg", 11, 16),
    "ats": (ARRT, "ts", 8, 10),
    "as": (['"a"', "'''b'''", "[", "]", ",", "1"], "str", 8, 10),
    "ab": (["true", "false", "[", "]", ",", "null"], "bool", 8, 10),
    "ad": (["1.5", "-", "[", "]", ",", "1"], "dec", 7, 9),
}
ARRBOUNDS = ((0, None), (1, 2), (2, 2))


def token_setup(decl, typ, optional):
    rsl = P_RSL + "type T {\n  x %s %s\n  y optional Integer\n}\n" % (
        "optional" if optional else "", decl)
    files = dict(OBJ, **{"p.rsl": rsl, "q.rsl": Q_RSL, "h.rsl": H_RSL})
    rec = {"comps": [["x", optional, typ], ["y", True, ["int"]]],
           "frozen": {}}
    return Bodies(files, "package P\nimport Q\n", "T", WORLD, rec)


def lex_fix(tok):
    return tok


def judge_tokens(case):
    _, name, base, lo, hi, depth, prefix, near = case
    if name in TOKENS:
        alpha = TOKENS[name][0]
        decl, typ = BASE[base]
    else:
        alpha = ARRTOK[name][0]
        decl, typ = BASE[base]
        decl += " [%u .. %s]" % (lo, "*" if hi is None else hi)
        typ = ["arr", typ, lo, hi]
    b = token_setup(decl, typ, False)
    start = ["x", "="]
    for k in range(len(prefix)):
        s = model_body(WORLD, start + prefix[:k], b.rec)
        if s[0] in ("bad", "late"):
            return Verdict("tokens:pruned", None, None, 0, 0, 0)
    if len(prefix) == 1:
        b.add(start + prefix)
        if not lo:
            b.add(start)
    else:
        b.explore(alpha, start + prefix, depth + 2)
    b.near(2, alpha, near)
    b.flush()
    return fin("tokens-%s-%s" % (name, base), b.bad, b.states, b.execs, decl)


# ---------------------------------------------------------------- cross

VALS = {
    "int": ["1", "- 2", "+ 0x1F"], "dec": ["1.5", "- 0.0"],
    "bool": ["true", "false"], "str": ['"a"', "'''b'''"],
    "mark": ['"[[r1]]"', '"x"'], "e": ["E . A", "P . E . B"],
    "f": ["F . C", "F . A"], "g": ["Q . G . A"], "ge": ["Q . E . B"],
    "r": ["r1", "s1", "P . r1"], "s": ["s1"], "q": ["Q . q1", "w1"],
    "u1": ["d1", "s1"], "u2": ["Q . q1", "s1"],
    "tg": ['( 1 , "a" )', '( - 1 , "" )'], "ts": ["1", "2 @ 3"],
}
VTOKENS = list(dict.fromkeys(
    t for vs in VALS.values() for v in vs for t in v.split(" "))) + \
    ["null", "[", "]", "H", "K", "sq", "h1", "zz", "S", "e", "a", "if"]


def judge_cross(case):
    """a value of each type for a component of each type; and whatever
    differs from a right value in one token"""
    _, base, place, k = case
    decl, typ = BASE[base]
    if place == "array":
        decl += " [1 .. 2]"
        typ = ["arr", typ, 1, 2]
    b = token_setup(decl, typ, place == "optional")

    def one(text):
        toks = text.split(" ")
        if place == "array":
            toks = ["["] + toks + ["]"]
        return ["x", "="] + toks
    b.add(one(VALS[base][k]))
    b.near(2, VTOKENS, 1)
    if k == 0:
        for vs in VALS.values():
            for v in vs:
                b.add(one(v))
                if place == "array":
                    b.add(one(VALS[base][0] + " , " + v))
                b.add(one(v) + ["y", "=", "1"])
    b.flush()
    return fin("cross-" + base, b.bad, b.states, b.execs, decl)


# ---------------------------------------------------------------- arrays

ELEMS = {
    "int": ["1", "- 2", "3", "+ 4", "5"], "dec": ["1.0", "- 2.5", "3.0", "4.0",
                                                  "5.0"],
    "str": ['"a"', "'''b'''", '""', '"c"', '"a"'],
    "bool": ["true", "false", "true", "true", "false"],
    "e": ["E . A", "E . B", "E . A", "E . A", "E . B"],
    "s": ["s1", "s1", "P . s1", "s1", "s1"],
    "u1": ["s1", "d1", "s1", "P . d1", "s1"],
    "tg": ['( 1 , "a" )', '( 2 , "b" )', '( 3 , "c" )', '( 4 , "d" )',
           '( 5 , "" )'],
    "ts": ["1", "2 @ 3", "4", "5 @ 6", "7"],
    "mark": ['"a"', '"[[r1]]"', '""', '"x [[s1]] y"', '"z"'],
}


def judge_arrays(case):
    _, el, lo, hi, where, opt = case
    decl, typ = BASE[el]
    decl = "%s [%u .. %s]" % (decl, lo, "*" if hi is None else hi)
    typ = ["arr", typ, lo, hi]
    comp = "  x %s %s\n" % ("optional" if opt else "", decl)
    rsl = P_RSL
    if where == "own":
        rsl += "type T {\n%s}\n" % comp
    elif where == "base":
        rsl += "type B {\n%s}\ntype T extends B { }\n" % comp
    else:
        rsl += "type B {\n%s}\ntype T0 extends B { z optional Integer }\n" \
            "type T extends T0 { freeze z = 1 }\n" % comp
    rec = {"comps": [["x", bool(opt), typ]], "frozen": {}}
    if where == "deep":
        rec["comps"].append(["z", True, ["int"]])
        rec["frozen"]["z"] = 1
    files = dict(OBJ, **{"p.rsl": rsl, "q.rsl": Q_RSL, "h.rsl": H_RSL})
    b = Bodies(files, "package P\nimport Q\n", "T", WORLD, rec)
    b.add([])
    for n in range(0, 6):
        toks = []
        for k in range(n):
            if k:
                toks.append(",")
            toks += ELEMS[el][k].split(" ") if el not in ("mark",) else \
                [ELEMS[el][k]]
        b.add(["x", "=", "["] + toks + ["]"])
    b.flush()
    return fin("arrays-" + el, b.bad, b.states, b.execs, decl + " " + where)


def big_arrays():
    """no limit below 1000 elements"""
    for n in (10, 100, 999, 1000, 1001, 1500):
        for hi in (None, n, n - 1, n + 1):
            yield ["big", n, hi]


def judge_big(case):
    _, n, hi = case
    r = drv.run({
        "p.rsl": "package P\ntype T { x Integer [0 .. %s] }\n" %
        ("*" if hi is None else hi),
        "p.trlc": "package P\nT o { x = [%s] }" % ", ".join(
            str(k) for k in range(n))})
    good = hi is None or n <= hi
    got = r.ok and not r.errors()
    if r.crash or got != good:
        return Verdict("big:differ", "%u elements, bound %s: %s" %
                       (n, hi, r.crash or got), "big")
    if good:
        v = next(r.stab.iter_record_objects()).to_python_dict()
        if v != {"x": list(range(n))}:
            return Verdict("big:differ", "wrong value", "big")
    return Verdict("big:agree")


# ---------------------------------------------------------------- types

TYPES_RSL = """package P
import Q
enum E { A }
tuple Tg { m Integer n Integer }
abstract type AB { }
type R { }
final type FI extends R { }
type FF extends FI { }
type CO extends AB { }
abstract type AC extends R { }
type CC extends AC { }
abstract type AE extends Q.QT { }
type CE extends Q.QA { }
"""
TYPES_Q = "package Q\nenum G { A }\ntype QT { }\nabstract type QA { }\n" \
    "tuple QTU { m Integer }\n"
TYPE_USES = {
    "R": True, "FI": True, "FF": True, "CO": True, "CC": True, "CE": True,
    "AB": False, "AC": False, "AE": False, "E": False, "Tg": False,
    "Integer": False, "String": False, "Boolean": False, "Decimal": False,
    "Markup_String": False, "P": False, "Q": False, "H": False, "zz": False,
    "r": False, "r1": False, "Q.QT": True, "Q.QA": False, "Q.G": False,
    "Q.QTU": False, "Q.R": False, "P.R": True, "P.AB": False, "P.E": False,
    "P.QT": False, "QT": False, "H.HT": False, "HT": False, "Q.q1": False,
    "Q.zz": False, "len": False, "null": False, "R.R": False, "E.A": False,
    "P.P.R": False, "Q.Q": False,
}


def judge_types(case):
    _, use, pos = case
    pre = "R r1 { }\nQ.QT q0 { }\n"
    obj = "%s new { }\n" % use
    files = {"p.rsl": TYPES_RSL, "q.rsl": TYPES_Q, "h.rsl": H_RSL,
             "q.trlc": "package Q\nQT q1 { }\n"}
    text = "package P\nimport Q\n"
    if pos == "last":
        text += pre + obj
    elif pos == "first":
        text += obj + pre
    elif pos == "section":
        text += 'section "S" {\n' + obj + "}\n" + pre
    else:
        files["p2.trlc"] = "package P\nimport Q\n" + pre
        text += obj
    files["main.trlc"] = text
    r = drv.run(files)
    good = TYPE_USES[use]
    got = r.ok and not r.errors()
    if r.crash or good != got:
        return Verdict("types:differ", "object of type %s (%s): %s" %
                       (use, pos, r.crash or "accepted" if got else
                        r.msgs[:2]), "types %s" % use)
    if good:
        names = sorted(o.fully_qualified_name()
                       for o in r.stab.iter_record_objects())
        typ = [o.n_typ.fully_qualified_name()
               for o in r.stab.iter_record_objects() if o.name == "new"]
        want = use if "." in use else "P." + use
        if names != ["P.new", "P.q0", "P.r1", "Q.q1"] or typ != [want]:
            return Verdict("types:differ", "%s: objects %s, type %s" %
                           (use, names, typ), "types %s" % use)
    return Verdict("types:%s" % ("accepted" if good else "rejected"))


def cases(tier):
    q = tier == "quick"
    near = 6 if q else 100
    for base in BASE:
        for place in ("plain", "optional", "array"):
            for k in range(len(VALS[base])):
                yield ["cross", base, place, k]
    for name, (alpha, bases, dq, dt) in TOKENS.items():
        for base in bases:
            d = dq if q else dt
            for x in alpha:
                yield ["tokens", name, base, 0, 0, d, [x], near]
                for y in alpha:
                    yield ["tokens", name, base, 0, 0, d, [x, y], near]
    for name, (alpha, base, dq, dt) in ARRTOK.items():
        for lo, hi in ARRBOUNDS:
            d = dq if q else dt
            for x in alpha:
                yield ["tokens", name, base, lo, hi, d, [x], near]
                for y in alpha:
                    yield ["tokens", name, base, lo, hi, d, [x, y], near]
    for el in ELEMS:
        for lo in range(0, 4):
            for hi in [None] + list(range(lo, 5)):
                for where in ("own", "base", "deep"):
                    for opt in (0, 1):
                        yield ["arrays", el, lo, hi, where, opt]
    yield from big_arrays()
    for use in TYPE_USES:
        for pos in ("last", "first", "section", "file"):
            yield ["types", use, pos]
    for c in chains(tier):
        yield ["struct", c]


def judge(case):
    return {"struct": judge_struct, "tokens": judge_tokens,
            "arrays": judge_arrays, "big": judge_big,
            "types": judge_types, "cross": judge_cross}[case[0]](case)


def bounds(tier):
    q = tier == "quick"
    return {"chain length": 3, "components per chain": 4,
            "assignments": "up to one more than there are components",
            "value tokens": {k: v[2 if q else 3]
                             for k, v in {**TOKENS, **ARRTOK}.items()},
            "alphabets": {k: v[0] for k, v in {**TOKENS, **ARRTOK}.items()},
            "array bounds": "lower 0..3, upper lower..4 or *, length 0..5"}
