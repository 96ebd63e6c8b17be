"""C12: tuple values are read as their type's separators demand

All legal tuple types up to three fields (all separator symbols, among them
identifiers which equal the names of components, fields or objects; all
suffixes of optional fields; nested tuples; several field types), in all
places where a value can be written (component, optional component, array,
inherited, frozen, nested tuple, type of another package); for each all
token sequences up to a length, depth first along the prefixes which the
model can still complete, are given to the implementation.
"""
import itertools

from . import drv
from . import lexmodel
from .core import Verdict
from .valmodel import body as model_body
from .valrun import Bodies, same

PID = "C12"
ASSUMPTIONS = [
    "the reference reader in mc/valmodel.py states the manual's rules for "
    "tuple aggregates; separators are read greedily (manual, Tuple Separator "
    "Clashes)",
]

HEAD = """package P
import Q
enum E { A B }
type R { }
type S extends R { }
tuple In { p Integer q Integer }
tuple Io { p Integer }
tuple Is { p Integer separator @ q optional Integer }
tuple Ix { p Integer separator x q Integer }
"""
WORLD = {
    "pkg": "P", "visible": {"P": {"r1": "P.R", "s1": "P.S"},
                            "Q": {"q1": "Q.QT"}},
    "enums": {"P.E": ["A", "B"]},
    "parents": {"P.R": None, "P.S": "P.R", "Q.QT": None},
    "other": {"P.In", "P.Is", "P.Io", "P.Ix", "P.TU"},
}
OBJ = {"q.rsl": "package Q\ntype QT { }\n",
       "q.trlc": "package Q\nQT q1 { }\n",
       "po.trlc": "package P\nR r1 { }\nS s1 { }\n"}
I = ["int"]
IN = ["tup", [["p", False, I], ["q", False, I]], None]
IO = ["tup", [["p", False, I]], None]
IS = ["tup", [["p", False, I], ["q", True, I]], ["@"]]
IX = ["tup", [["p", False, I], ["q", False, I]], ["x"]]
# name: declaration, type, tokens for its values
FIELD = {
    "int": ("Integer", I, ["1", "-"]),
    "dec": ("Decimal", ["dec"], ["1.5"]),
    "str": ("String", ["str"], ['"a"']),
    "bool": ("Boolean", ["bool"], ["true"]),
    "enum": ("E", ["enum", "P.E"], ["E", ".", "A"]),
    "rec": ("R", ["rec", "P.R"], ["r1", "Q", "."]),
    "uni": ("[S, Q.QT]", ["union", ["P.S", "Q.QT"]],
            ["s1", "Q", ".", "q1"]),
    "mark": ("Markup_String", ["str"], ['"[[r1]]"']),
    "in": ("In", IN, ["1", "(", ",", ")"]),
    "io": ("Io", IO, ["1", "(", ")"]),
    "is": ("Is", IS, ["1", "@"]),
    "ix": ("Ix", IX, ["1", "x"]),
}
NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "i"]
HOLDERS = ("plain", "optional", "array", "base", "imported", "nested",
           "frozen", "basearray")


def tuple_of(spec):
    fields, seps, opt = spec
    typ = ["tup", [[NAMES[k], k >= opt, FIELD[f][1]]
                   for k, f in enumerate(fields)], seps]
    decl = "{"
    for k, f in enumerate(fields):
        if k and seps:
            decl += " separator %s" % seps[k - 1]
        decl += " %s %s %s" % (NAMES[k], "optional" if k >= opt else "",
                               FIELD[f][0])
    return decl + " }", typ


def alphabet(spec, holder):
    fields, seps, _ = spec
    rv = []
    for f in fields:
        rv += FIELD[f][2]
    rv += seps or []
    rv += ["(", ",", ")", "@", "y", "="]
    if holder in ("array", "basearray"):
        rv += ["[", "]"]
    return list(dict.fromkeys(rv))


class Frozen(Bodies):
    """the tokens freeze the component instead"""
    def run(self, bodies):
        rsl = self.files["p.rsl"]
        text = self.head
        for i, b in enumerate(bodies):
            rsl += "type F%u extends %s {\n freeze %s\n}\n" % (
                i, self.rtype, b)
            text += "F%u zz%u { }\n" % (i, i)
        self.execs += 1
        return drv.run(dict(self.files, **{"main.trlc": text,
                                           "p.rsl": rsl}))

    def located(self, r):
        n = self.files["p.rsl"].count("\n") + 1
        return any(m.file == "p.rsl" and n <= m.line <= n + 2
                   for m in r.errors())


def setup(spec, holder):
    decl, typ = tuple_of(spec)
    files = dict(OBJ)
    rsl = HEAD
    rec = {"comps": [["y", True, ["int"]], ["v", False, typ]], "frozen": {}}
    cls = Bodies
    if holder == "imported":
        files["q.rsl"] += "tuple TU %s\n" % decl
        rsl += "type T { y optional Integer\n v Q.TU }\n"
        rec["comps"][1] = ["v", False, typ]
    else:
        rsl += "tuple TU %s\n" % decl
        if holder in ("plain", "frozen"):
            rsl += "type T { y optional Integer\n v TU }\n"
        elif holder == "optional":
            rsl += "type T { y optional Integer\n v optional TU }\n"
            rec["comps"][1][1] = True
        elif holder == "base":
            rsl += "type T0 { v TU }\ntype T extends T0 { " \
                "y optional Integer }\n"
        elif holder in ("array", "basearray"):
            if holder == "array":
                rsl += "type T { y optional Integer\n v TU [1 .. 2] }\n"
            else:
                rsl += "type T0 { v TU [1 .. *] }\ntype T extends T0 { " \
                    "y optional Integer }\n"
            rec["comps"][1][2] = ["arr", typ, 1, 2 if holder == "array"
                                  else None]
        elif holder == "nested":
            # ( 5 , <value> )
            rsl += "tuple NE { k Integer l TU }\n" \
                "type T { y optional Integer\n v NE }\n"
            rec["comps"][1][2] = ["tup", [["k", False, I],
                                          ["l", False, typ]], None]
    files["p.rsl"] = rsl
    if holder == "frozen":
        cls = Frozen
    b = cls(files, "package P\nimport Q\n", "T", WORLD, rec)
    return b


def judge(case):
    _, spec, holder, cap, near = case
    b = setup(spec, holder)
    start = ["v", "="]
    if holder == "nested":
        start += ["(", "1", ","]
    alpha = alphabet(spec, holder)
    if holder == "frozen":
        alpha = [a for a in alpha if a not in ("y", "=")]
    texts = []
    for tokens in skeletons(spec, holder, start):
        st = b.add(tokens)
        t = st[0] == "ok" and compact(tokens)
        if t:
            texts.append((t, st[1]))
    cap += b.states
    level = [start]
    depth = 0
    while level and b.states < cap and len(b.bad) < 6:
        nxt = []
        for tokens in level:
            st = b.add(tokens)
            if st[0] == "ok" and len(texts) < 40:
                t = compact(tokens)
                if t:
                    texts.append((t, st[1]))
            if st[0] not in ("bad", "late"):
                nxt += [tokens + [x] for x in alpha]
        level = nxt
        depth += 1
    # the longest, as the short ones are among the skeletons
    b.good.sort(key=len, reverse=True)
    b.near(len(start), alpha, near)
    b.flush()
    b.items += texts
    b.flush()
    what = "%s:%s:%s" % (holder, "sep" if spec[1] else "brackets",
                         "all lengths" if not level else
                         "all up to length %u" % (depth - 1))
    if not b.bad:
        return Verdict(what, None, None, b.states, b.states, b.execs)
    return Verdict(what + ":differ", "tuple TU %s\n" % tuple_of(spec)[0] +
                   "\n".join("{ %s }: %s, but %s" % x for x in b.bad[:5]),
                   "%s %s" % (holder, b.bad[0][0]), b.states, b.states,
                   b.execs)


SAMPLE = {"int": ["1"], "dec": ["-", "1.5"], "str": ['"a"'],
          "bool": ["true"], "enum": ["E", ".", "B"], "rec": ["s1"],
          "uni": ["Q", ".", "q1"], "mark": ['"[[r1]]"'],
          "in": ["(", "1", ",", "2", ")"], "io": ["(", "3", ")"],
          "is": ["4", "@", "5"], "ix": ["6", "x", "7"]}


def picks(n):
    """which separators are wrong; of many only one"""
    if n <= 2:
        yield from itertools.product((0, 1, 2, 3, 4), repeat=n)
        return
    yield (0,) * n
    for j in range(n):
        for x in (1, 2, 3, 4):
            yield (0,) * j + (x,) + (0,) * (n - j - 1)


def skeletons(spec, holder, start):
    """values for the first fields, with each separator right, wrong,
    missing, or (identifiers) in another case or with an underscore"""
    fields, seps, _ = spec
    right = seps or [","] * (len(fields) - 1)
    for k in range(1, len(fields) + 1):
        for pick in picks(k - 1):
            if any(p > 2 and not right[j].isidentifier()
                   for j, p in enumerate(pick)):
                continue
            toks = []
            for j in range(k):
                if j:
                    alt = ("y" if right[j - 1] != "y" else "@")
                    if len(right) > 1 and right[0] != right[1]:
                        alt = right[2 - j]
                    toks += [[right[j - 1]], [alt], [],
                             [right[j - 1].swapcase()],
                             [right[j - 1] + "_"]][pick[j - 1]]
                toks += SAMPLE[fields[j]]
            for open_, close in ((["("], [")"]), ([], [])):
                one = open_ + toks + close
                if holder == "nested":
                    yield start + one + [")"]
                    continue
                if "array" not in holder:
                    yield start + one
                    if holder != "frozen":
                        yield start + one + ["y", "=", "7"]
                    continue
                yield start + ["["] + one + ["]"]
                yield start + ["["] + one + [","] + one + ["]"]
                yield start + ["["] + one + [","] + one + ["]", "y", "=",
                                                           "8"]


def compact(tokens):
    """without blanks where that gives the same tokens"""
    out = ""
    prev = []
    for t in tokens:
        cand = out + t
        toks, err = lexmodel.tokenize(cand)
        want = prev + [lexmodel.tokenize(t)[0][0][:2]]
        if err or [x[:2] for x in toks] != want:
            cand = out + " " + t
        out = cand
        prev = want
    return out if out != " ".join(tokens) else None


def specs(tier):
    """all tuple types of the bounded space, [fields, separators, number of
    the first optional field]"""
    q = tier == "quick"
    seps = ["@", ":", ";", "x", "y", "a", "b", "v", "r1", "E"]
    # without separators
    for f in FIELD:
        yield [[f], None, 9]
    for f, g in itertools.product(("int", "str", "in", "is", "ix", "rec",
                                   "enum", "mark", "uni", "dec"), repeat=2):
        if q and f not in ("int", "is", "ix") and \
           g not in ("int", "is", "ix"):
            continue
        yield [[f, g], None, 9]
    for f in itertools.product(("int", "is", "ix", "str"), repeat=3):
        if q and len(set(f)) > 2:
            continue
        yield [list(f), None, 9]
    # two fields with a separator
    flat = [f for f in FIELD if f not in ("is", "ix")]
    for f, g in itertools.product(flat, repeat=2):
        for s in seps:
            if q and s not in ("@", "x", "y") and (f, g) not in (
                    ("int", "int"), ("rec", "int"), ("enum", "rec"),
                    ("int", "in")):
                continue
            for opt in (1, 9):
                yield [[f, g], [s], opt]
    # three fields
    for s, t in itertools.product(seps, repeat=2):
        for f in ([["int"] * 3, ["int", "str", "rec"]] if q else
                  [["int"] * 3, ["int", "str", "rec"], ["rec"] * 3,
                   ["enum", "in", "int"], ["io", "dec", "uni"]]):
            for opt in (1, 2, 9):
                yield [f, [s, t], opt]
    # longer ones
    for n in range(4, 9 if q else 10):
        mix = (["int", "str", "rec", "dec", "enum", "bool", "mark", "uni",
                "int"])[:n]
        yield [["int"] * n, None, 9]
        yield [mix, None, 9]
        for ss in (["@"], ["x", "y"], ["@", ":", ";"], ["x", "@"]):
            ss = (ss * n)[:n - 1]
            for opt in list(range(1, n)) + [9]:
                yield [["int"] * n, ss, opt]
                if q and opt not in (1, 2, 9):
                    continue
                yield [mix, ss, opt]


BUILTIN = ("int", "dec", "str", "bool")


def cases(tier):
    q = tier == "quick"
    for n, spec in enumerate(specs(tier)):
        yield ["t", spec, "plain", 40 if q else 1500, 1 if q else 20]
    for n, spec in enumerate(specs("quick")):
        small = spec[0] in (["int"], ["int", "int"], ["int", "is"],
                            ["is", "int"], ["ix", "ix"], ["in", "is"],
                            ["is"], ["rec", "int"], ["int", "in"],
                            ["enum", "int"], ["int"] * 3,
                            ["int", "str", "rec"], ["is", "int", "is"]) and \
            (not spec[1] or spec[1][0] in "@xy") and \
            (not spec[1] or spec[1][-1] in "@xy:v")
        if q and not small:
            continue
        for h in HOLDERS[1:]:
            if h == "frozen" and any(f in ("rec", "uni", "mark")
                                     for f in spec[0]):
                continue          # see C13
            if h == "imported" and any(f not in BUILTIN for f in spec[0]):
                continue
            cap = 40 if q else 1000
            if "array" in h:
                cap *= 2
            yield ["t", spec, h, cap, 0 if q and n % 4 else 1 if q else 10]


def bounds(tier):
    return {"fields": 3, "separators": "@ : ; x y a b v r1 E",
            "field types": list(FIELD), "holders": list(HOLDERS),
            "tokens": "all sequences of each length, until %s sequences "
            "per type and place; the lengths reached are in the outcomes" %
            ("40" if tier == "quick" else "1000 to 2000")}
