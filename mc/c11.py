"""C11: a type declaration is accepted exactly if it is legal

tokens      all token sequences up to a length after a given beginning, depth
            first along the prefixes the model can still complete
records     all qualifiers x roots x sequences of body items
components  all type names x optional x array bounds x unions
tuples      all sequences of fields with separators and optional
enums       all sequences of literals
orders      all orders of mutually dependent declarations
freezes     all value token sequences for a frozen component of each type
"""
import itertools

from . import drv
from .core import neighbours
from . import declmodel as D
from .core import Verdict

PID = "C11"
CASE_LIMIT = 120.0
ASSUMPTIONS = [
    "an upper bound below the lower bound is only reported by the linter "
    "(the project's golden files), the verdict is left open",
    "freezing with a reference is left open here (see C13)",
    "the reference reader in mc/declmodel.py states the manual's rules",
]

Q_TOKENS = ("enum G { A D } type QT { q Integer } final type QF { } "
            "abstract type QA { } tuple QS { m Integer separator @ n Integer "
            "} tuple QB { m Integer } type R { b Integer } enum E { A B } "
            "type B { } tuple TS { m Integer separator @ n Integer }").split()
BASE = ("enum E { A B } type R { } type S extends R { } type B { b Integer "
        "o optional Integer } type BF extends B { freeze b = 3 } "
        "final type F { f Integer } type FF extends F { } abstract type AB { "
        "b Integer } tuple TS { m Integer separator @ n Integer } "
        "tuple TB { m Integer n Integer } type BQ extends Q . QT { } "
        "tuple TI { m Integer separator : t TB } "
        "type FB extends F { freeze f = 1 }").split()
Q_RSL = "package Q " + " ".join(Q_TOKENS)
H_RSL = "package H\ntype HT { }\n"


def world(base):
    w = D.new_world()
    w["pkg"] = "Q"
    wq = {"pkg": "Q", "visible": {"Q", "P"}, "packages": {"P", "Q", "H"},
          "types": {"P": {}, "Q": {}}}
    rd = D.Decls(wq, Q_TOKENS)
    rd.file()
    for d in rd.types.values():
        d["pkg"] = "Q"
    w = D.new_world()
    w["types"]["Q"] = rd.types
    rd = D.Decls(w, base)
    rd.file()
    return w


_worlds = {}


def fresh(base):
    key = " ".join(base)
    if key not in _worlds:
        _worlds[key] = world(base)
    w = _worlds[key]
    return dict(w, types={"Q": w["types"]["Q"],
                          "P": dict(w["types"]["P"])})


def api_tname(t):
    a = drv.ast
    if isinstance(t, a.Union_Type):
        return "[" + ",".join(x.fully_qualified_name()
                              for x in t.types) + "]"
    if isinstance(t, a.Array_Type):
        return "%s[%s..%s]" % (api_tname(t.element_type), t.lower_bound,
                               t.upper_bound)
    if isinstance(t, a.Builtin_Type):
        return t.name
    return t.fully_qualified_name()


def api_shape(stab, mh):
    a = drv.ast
    pkg = stab.lookup_assuming(mh, "P", a.Package)
    rv = {}
    for d in pkg.symbols.values(a.Concrete_Type):
        if d.n_package is not pkg:
            continue
        if isinstance(d, a.Enumeration_Type):
            lits = sorted(((x.name, x.description)
                           for x in d.literals.values()), key=str)
            rv[d.name] = ("enum", d.description, lits)
            continue
        comps = [(c.name, c.optional, api_tname(c.n_typ), c.description)
                 for c in d.all_components()]
        if isinstance(d, a.Tuple_Type):
            rv[d.name] = ("tuple", d.description, comps,
                          [sep(s) for s in d.separators])
        else:
            froz = {c.name: d.get_freezing_expression(c).to_python_object()
                    for c in d.all_components() if d.is_frozen(c)}
            rv[d.name] = ("record", d.description, comps,
                          d.parent.fully_qualified_name() if d.parent
                          else None, d.is_abstract, d.is_final, froz)
    return rv


def sep(s):
    return {"AT": "@", "COLON": ":", "SEMICOLON": ";"}.get(
        s.token.kind, s.token.value)


class Runner:
    def __init__(self, base):
        self.base = base
        self.head = "package P\nimport Q\n" + " ".join(base) + "\n"
        self.bad = []
        self.seen = set()
        self.good = []
        self.states = 0
        self.execs = 0

    def add(self, tokens, st=None):
        st = st or D.read(fresh(self.base), tokens)
        self.states += 1
        if st[0] == "open":
            return st
        text = " ".join(tokens)
        self.seen.add(text)
        if st[0] == "ok":
            self.good.append(tokens)
        r = drv.run({"p.rsl": self.head + text + "\n", "q.rsl": Q_RSL,
                     "h.rsl": H_RSL})
        self.execs += 1
        if r.crash:
            self.bad.append((text, "internal failure " + r.crash))
            return st
        got = r.ok and not r.errors()
        if got != (st[0] == "ok"):
            self.bad.append((text, "accepted" if got else
                             "rejected: %s" % r.msgs[:2]))
        elif not got:
            if not any(m.file == "p.rsl" and m.line >= 4
                       for m in r.errors()):
                self.bad.append((text, "rejected elsewhere: %s" %
                                 r.msgs[:2]))
        else:
            sh = api_shape(r.stab, r.mh)
            if sh != st[1]:
                for n in st[1]:
                    if sh.get(n) != st[1][n]:
                        self.bad.append((text, "type %s is %r, not %r" % (
                            n, sh.get(n), st[1][n])))
                        break
                else:
                    self.bad.append((text, "unexpected types"))
        return st

    def near(self, lo, alpha, limit):
        """see valrun.Bodies.near"""
        for tokens in self.good[:limit]:
            for x in neighbours(tokens, lo, alpha):
                if len(self.bad) < 6 and " ".join(x) not in self.seen:
                    self.add(x)

    def explore(self, alpha, tokens, depth):
        st = self.add(tokens)
        if len(self.bad) >= 6 or st[0] in ("bad", "late") or depth <= 0:
            return
        for x in alpha:
            self.explore(alpha, tokens + [x], depth - 1)


# name: beginning, alphabet, quick depth, thorough depth
TOKENS = {
    "toplevel": ("", ["abstract", "final", "type", "T", "U", "{", "}",
                      "extends", "enum", "tuple", "A", "Integer", '"d"'],
                 6, 8),
    "toplevel2": ("enum T { A }", ["abstract", "final", "type", "T", "U", "{",
                                   "}", "extends", "enum", "R", '"d"'],
                  6, 9),
    "extends": ("type T", ["extends", "R", "F", "Q", ".", "QT", "T", "E", "{",
                           "}", '"d"', "P"], 5, 7),
    "record": ("type T extends B {", ["}", "c", "b", "Integer", "optional",
                                      '"d"', "[", "freeze", "=", "1", "o"],
               6, 8),
    "array": ("type T { c", ["[", "]", "1", "..", "*", "Integer", "}", "0",
                             "2", "R", "-"], 7, 8),
    "union": ("type T { c", ["[", "]", ",", "R", "S", "T", "E", "Q", ".",
                             "QT", "}"], 5, 6),
    "union2": ("tuple T { c [", ["R", "S", ",", "]", "}", "d", "T", "B"],
               6, 8),
    "tuple": ("tuple T {", ["a", "b", "Integer", "separator", "@", "optional",
                            "}", '"s"'], 7, 8),
    "tuple2": ("tuple T { a Integer", ["b", "c", "Integer", "separator", ":",
                                       "x", "optional", "}", "TS"], 6, 8),
    "tuple3": ("tuple T { a Integer separator @ b optional Integer",
               ["c", "Integer", "separator", ";", "optional", "}", "a"],
               7, 9),
    "enum": ("enum T", ["{", "}", "A", "a", "B", '"d"', "A_", "type"], 7, 8),
    "final": ("final type T extends F {", ["}", "c", "Integer", "freeze", "f",
                                           "=", "1", "optional"], 6, 8),
    "freeze": ("type T extends B { freeze", ["b", "o", "=", "1", "-", "}",
                                             "freeze", "c", "Integer", "2"],
               7, 9),
}

# ---------------------------------------------------------------- records
QUALS = ["", "abstract", "final"]
ROOTS = ["", "R", "B", "BF", "F", "FF", "FB", "AB", "E", "TS", "Integer",
         "T", "zz", "Q . QT", "Q . QF", "Q . QA", "Q . R", "H . HT", "P . B", "QT",
         "b", "String", "Q . G", "Q . zz"]
ITEMS = ["c Integer", "c optional Integer", "b Integer", "B_ String",
         "f Integer", "c2 T", "c3 T [ 1 .. 2 ]", "freeze b = 1",
         "freeze o = 1", "freeze c = 2", "freeze zz = 1", "freeze b = - 1",
         "freeze b = true", "freeze f = 5", "freeze q = 6", "freeze B = 1",
         "C Integer", "T Integer", "Integer Integer", "E E"]


def records(tier):
    for q in QUALS:
        for root in ROOTS:
            yield q, root, ()
            for a in ITEMS:
                yield q, root, (a,)
                for b in ITEMS:
                    if tier == "quick" and (q == "abstract" or root not in (
                            "", "B", "BF", "F", "FF", "FB", "AB")):
                        continue
                    yield q, root, (a, b)
                    if tier == "thorough" and not q and root in (
                            "B", "F", "", "BF"):
                        for c in ITEMS:
                            yield q, root, (a, b, c)


TYPE_NAMES = ["Integer", "Decimal", "Boolean", "String", "Markup_String",
              "E", "R", "S", "B", "F", "AB", "TS", "TB", "T", "zz", "len",
              "Q . QT", "Q . G", "Q . QS", "Q . QB", "H . HT", "P . R",
              "P . T", "U", "integer", "oneof", "b", "Q", "P", "A", "E . A",
              "Q . QT . q", "[ R ]", "[ R , B ]", "[ R , S ]", "[ T , R ]",
              "[ R , R ]", "[ E ]", "[ Integer ]", "[ TS ]", "[ R , E ]",
              "[ Q . QT , R ]", "[ Q . QT , Q . QT ]", "[ zz ]", "[ U ]",
              "[ AB , F ]", "[ P . R , R ]", "[ B , T , R ]", "[ Q . G ]",
              "[ R , B , R ]", "[ R , Q . R ]", "[ Q . R , Q . B , P . R ]", "Q . R",
              "Q . E", "Q . TS", "[ Q . R , R , Q . R ]", "[ H . HT ]", "[ [ R ] ]", "[ ]"]
ARRS = ["", "[ 0 .. * ]", "[ 1 .. 1 ]", "[ 0 .. 0 ]", "[ 2 .. 5 ]",
        "[ 0x2 .. 0b11 ]", "[ 1 .. ]", "[ .. 1 ]", "[ 1 ]", "[ * .. 1 ]",
        "[ - 1 .. 2 ]", "[ 1.0 .. 2 ]", "[ 1 .. 2.0 ]", "[ 1 .. * ] "
        "[ 1 .. * ]", "[ 1 .. 2 , 3 ]", "[ 1 , 2 ]", "[ 1 .. x ]", "[ ]"]


def components():
    for ctx in ("type T {", "final type T {", "type T extends B {",
                "type T extends B { x Integer"):
        for t in TYPE_NAMES:
            for opt in ("", "optional", "optional optional"):
                for arr in ARRS:
                    yield "%s c %s %s %s }" % (ctx, opt, t, arr)


def tuples(tier):
    """sequences of fields: (separator, optional, type)"""
    types = ["Integer", "TS", "TB", "TI", "E", "R", "T", "[ R , B ]",
             "Q . QS", "H . HT", "zz"]
    seps = ["", "separator @", "separator x", "separator a"]
    opts = ["", "optional"]
    for o in opts:
        for t in types + ["[ R , R ]", "[ E ]", "Integer [ 0 .. 1 ]", "P . R",
                          "Q . QT", "[ T ]", "Q", "len"]:
            yield "tuple T { a %s %s }" % (o, t)
            yield 'tuple T "d" { a "e" %s %s }' % (o, t)
    for t1, t2 in itertools.product(types, repeat=2):
        for s in seps:
            for o1, o2 in itertools.product(opts, repeat=2):
                yield "tuple T { a %s %s %s b %s %s }" % (o1, t1, s, o2, t2)
    for s in seps:
        for n in ("a", "A", "a_", "b", "T", "Integer", "x"):
            yield "tuple T { a Integer %s %s Integer }" % (s, n)
            yield "tuple T { a Integer %s b Integer %s %s Integer }" % (
                s, s, n)
    for s1, s2 in itertools.product(seps + ["separator :", "separator ;"],
                                    repeat=2):
        for o in itertools.product(opts, repeat=3):
            for t in ([("Integer",) * 3, ("Integer", "TS", "Integer"),
                       ("TB", "Integer", "TS"), ("E", "R", "TB")]):
                yield "tuple T { a %s %s %s b %s %s %s c %s %s }" % (
                    o[0], t[0], s1, o[1], t[1], s2, o[2], t[2])
    if tier == "thorough":
        for s in itertools.product(seps[:3], repeat=3):
            for o in itertools.product(opts, repeat=4):
                yield ("tuple T { a %s Integer %s b %s Integer %s c %s "
                       "Integer %s d %s Integer }" % (
                           o[0], s[0], o[1], s[1], o[2], s[2], o[3]))
    # separators which are not allowed
    for s in ("1", '"x"', ",", "=", ".", "[", "(", "optional", "separator",
              "type", "Integer", "T", "true", ";"):
        yield "tuple T { a Integer separator %s b Integer }" % s


def enums(tier):
    lits = ["A", "a", "A_", "B", 'A "d"', 'C "A"', "E", "T", "Integer",
            "type", "1", ","]
    for n in range(0, 4 if tier == "quick" else 5):
        for seq in itertools.product(lits, repeat=n):
            yield "enum T { %s }" % " ".join(seq)
    for n in ("T", "e", "E", "R", "r", "Integer", "INTEGER", "P", "Q", "H",
              "len", "String", "T_S", "T_1", "t1"):
        yield 'enum %s "x" { A }' % n
        yield "enum %s { A }" % n
        yield "tuple %s { A Integer }" % n
        yield "type %s { A Integer }" % n
        yield "abstract type %s extends R { A Integer }" % n


LEVEL = ["", "freeze b = 1", "freeze o = 2", "c%u Integer", "b Integer",
         "final", "freeze c1 = 3"]


def deep(tier):
    """chains of extensions; the last level is what may be wrong"""
    n = 4 if tier == "quick" else 5
    for depth in range(2, n + 1):
        for acts in itertools.product(range(len(LEVEL)), repeat=depth):
            if tier == "quick" and sum(1 for a in acts[:-1] if a) > 2:
                continue
            text = "type T0 { b Integer o optional Integer }"
            for k, a in enumerate(acts):
                act = LEVEL[a]
                if a == 3:
                    act = act % k
                text += " %s type T%u extends T%u { %s }" % (
                    "final" if act == "final" else "", k + 1, k,
                    "" if act == "final" else act)
            yield text


DECLS = ["type T1 { a T2 }", "type T2 extends T3 { b E1 }",
         "type T3 { c optional T3 }", "enum E1 { A }",
         "tuple U1 { x E1 y T3 }", "type T4 extends T2 { freeze b = E1 . A }",
         "type T5 { u U1 v [ T2 , T3 ] }"]


def orders(tier):
    for n in (1, 2, 3, 4):
        for d in itertools.permutations(DECLS, n):
            yield " ".join(d)
    if tier == "thorough":
        for n in (5, 6):
            for d in itertools.permutations(DECLS, n):
                yield " ".join(d)


FREEZE_TYPES = ["Integer", "Decimal", "Boolean", "String", "Markup_String",
                "E", "TS", "TB", "TI", "Q . G", "Integer [ 1 .. 2 ]",
                "E [ 0 .. 1 ]", "TS [ 1 .. * ]", "TB [ 1 .. 2 ]",
                "String [ 2 .. 2 ]", "Q . QB", "Q . QS", "Q . E"]
FREEZE_ALPHA = ["1", "2.5", '"s"', "true", "-", "E", ".", "A", "[", "]", ",",
                "(", ")", "@", ":", "Q", "G", "}"]


def cases(tier):
    q = tier == "quick"
    near = 4 if q else 60
    for name, (start, alpha, dq, dt) in TOKENS.items():
        d = dq if q else dt
        for x in alpha:
            yield ["tok", name, [x], 0, near]
            for y in alpha:
                yield ["tok", name, [x, y], d - 2, near]
    for k, t in enumerate(FREEZE_TYPES):
        for own in (0, 1):
            for x in FREEZE_ALPHA:
                yield ["freeze", k, own, [x], 0, near]
                for y in FREEZE_ALPHA:
                    yield ["freeze", k, own, [x, y],
                           (4 if k > 4 else 2) if q else 6, near]
    for kind, gen in (("records", (("%s type T %s { %s }" % (
            a, "extends " + b if b else "", " ".join(c)))
            for a, b, c in records(tier))),
            ("components", components()), ("tuples", tuples(tier)),
            ("enums", enums(tier)), ("deep", deep(tier)), ("orders", orders(tier))):
        block = []
        for text in gen:
            block.append(text)
            if len(block) == 25:
                yield [kind, block]
                block = []
        if block:
            yield [kind, block]


def judge(case):
    kind = case[0]
    if kind == "tok":
        start, alpha = TOKENS[case[1]][:2]
        b = Runner(BASE)
        start = start.split()
        go(b, alpha, start, case[2], case[3])
        b.near(len(start), alpha, case[4])
        what = "tok-" + case[1]
    elif kind == "freeze":
        _, k, own, prefix, depth = case[:5]
        comp = "z " + FREEZE_TYPES[k]
        if own:
            b = Runner(BASE)
            start = ("type T { %s freeze z =" % comp).split()
        else:
            b = Runner(BASE + ("type Z { %s }" % comp).split())
            start = "type T extends Z { freeze z =".split()
        go(b, FREEZE_ALPHA, start, prefix, depth)
        b.near(len(start), FREEZE_ALPHA, case[5])
        what = "freeze-%u" % k
    else:
        b = Runner(BASE)
        for text in case[1]:
            b.add(text.split())
        what = kind
    if not b.bad:
        return Verdict(what, None, None, b.states, b.states, b.execs)
    return Verdict(what + ":differ", "\n".join("%s: %s" % x
                                               for x in b.bad[:5]),
                   "%s %s" % (what, b.bad[0][0]), b.states, b.states,
                   b.execs)


def go(b, alpha, start, prefix, depth):
    for k in range(len(prefix)):
        if D.read(fresh(b.base), start + prefix[:k])[0] in ("bad", "late"):
            return
    b.explore(alpha, start + prefix, depth)


def bounds(tier):
    q = tier == "quick"
    return {"token sequences": {k: {"after": v[0], "alphabet": v[1],
                                    "length": v[2 if q else 3]}
                                for k, v in TOKENS.items()},
            "body items": 2 if q else 3, "tuple fields": 3 if q else 4,
            "enumeration literals": 3 if q else 4,
            "orders of declarations": "all orders of up to %u of %u" %
            (4 if q else 6, len(DECLS))}
