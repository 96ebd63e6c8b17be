"""C03: a check expression is accepted exactly if it is well typed.

Every operator, function, quantifier, conditional and access is applied to
every combination of typed operands, and the verdict on the rsl file (no
object exists) is compared with the reference type checker."""
import functools
import itertools
from fractions import Fraction as F

from . import drv
from . import exprmodel as M
from . import exprworld as W
from .core import Verdict
from .exprspaces import b_, call, fld, i_, idx, n, NULL, s_, u_

PID = "C03"
ASSUMPTIONS = [
    "array and union types are anonymous, two declarations are two types",
    "a Markup_String may be used wherever an operator is defined for "
    "strings, but is a type of its own for equality",
    "static expressions contain no name (a name in a branch which is never "
    "evaluated is not part of the space)",
]

COMPS = [c for c in W.TCOMPS if not c.startswith("res")]
SMALL = ["a", "b", "d", "s", "mk", "p", "e1", "e2", "tg", "ts", "r1", "rs",
         "un", "ai", "as_"]
LITS = [i_(1), u_("-", i_(1)), ("dec", F("0.5")), s_("a"), ("bool", True),
        NULL, ("enum", "E1", "A"), ("enum", "E2", "B")]
DERIVED = [b_("+", n("a"), i_(1)), b_("==", n("a"), i_(1)),
           b_("+", n("mk"), n("s")), fld(n("tg"), "x"), fld(n("r1"), "next"),
           fld(n("rs"), "v"), fld(n("un"), "v"), idx(n("ai"), i_(0)),
           idx(n("ar"), i_(0)), idx(n("au"), i_(0)), idx(n("am"), i_(0)),
           fld(n("tn"), "m"), fld(n("r1"), "k"), call("len", n("s")),
           call("Decimal", n("a")), ("if", ((n("p"), n("s")),), s_("b")),
           ("q", "forall", "i", "ab", n("i"))]
BINARY = ("and", "or", "xor", "implies", "==", "!=", "<", "<=", ">", ">=",
          "+", "-", "*", "/", "%")


def atoms(small=False):
    if small:
        return [n(c) for c in SMALL] + [i_(1), s_("a"), ("dec", F("0.5")),
                                        NULL, ("bool", True)]
    return [n(c) for c in COMPS] + LITS + DERIVED


def unary_templates():
    for op in ("-", "+", "abs", "not"):
        yield lambda x, op=op: u_(op, x)
    for fn in ("len", "Integer", "Decimal", "oneof"):
        yield lambda x, fn=fn: call(fn, x)
    yield lambda x: call("matches", x, s_("a"))
    yield lambda x: call("matches", s_("a"), x)
    yield lambda x: b_("**", x, i_(2))
    yield lambda x: b_("**", i_(2), x)
    yield lambda x: idx(n("ai"), x)
    yield lambda x: ("q", "forall", "i", "ai", x)
    yield lambda x: ("if", ((x, i_(1)),), i_(2))
    yield lambda x: ("if", ((n("p"), x),), x)
    yield lambda x: ("if", ((n("p"), i_(1)), (x, i_(2))), i_(3))


def fields():
    names = ["x", "y", "p", "q", "m", "n", "v", "w", "next", "g", "k", "z",
             "o", "zz"]
    pre = [n(c) for c in COMPS] + [idx(n("ag"), i_(0)), idx(n("ar"), i_(0)),
                                   idx(n("au"), i_(0)), idx(n("ai"), i_(0)),
                                   fld(n("r1"), "next"), fld(n("r1"), "g"),
                                   fld(n("rs"), "next"), fld(n("tn"), "m"),
                                   fld(n("un"), "next"), fld(n("un"), "k")]
    for x in pre:
        for f in names:
            yield fld(x, f)
            if f in ("next", "g", "k", "m"):
                for g in ("v", "x", "y", "next"):
                    yield fld(x, f, g)


def quants():
    for var in ("i", "a", "ai", "T", "R", "E1", "TG", "P", "len", "Integer"):
        yield ("q", "forall", var, "ai", ("bool", True))
    for c in COMPS + ["i", "zz", "T", "E1", "P"]:
        yield ("q", "exists", "i", c, ("bool", True))
    ops = [n(c) for c in SMALL] + [NULL, i_(1)]
    for c in ("ai", "ad", "as_", "am", "ab", "ae", "ag", "ar", "ars", "au"):
        for x in ops:
            yield ("q", "forall", "i", c, b_("==", n("i"), x))
        for f in ("v", "x", "y", "o", "next"):
            yield ("q", "exists", "i", c, b_("!=", fld(n("i"), f), NULL))
        yield ("q", "exists", "i", c, b_(">", n("i"), i_(1)))
        yield ("q", "exists", "i", c, n("i"))
        yield ("q", "exists", "i", c, ("q", "forall", "j", "i",
                                       ("bool", True)))
        yield ("q", "exists", "i", c, ("q", "forall", "i", c,
                                       ("bool", True)))
        yield ("q", "exists", "i", c, ("q", "forall", "j", c,
                                       b_("==", n("i"), n("j"))))
    yield b_("and", ("q", "forall", "i", "ai", b_(">", n("i"), i_(0))),
             b_(">", n("i"), i_(0)))
    yield b_("and", ("q", "forall", "i", "ai", b_(">", n("i"), i_(0))),
             ("q", "forall", "i", "ad", b_(">", n("i"), ("dec", F(0)))))


def statics():
    ex = [i_(0), i_(3), u_("-", i_(1)), u_("-", u_("-", i_(1))),
          b_("-", i_(1), i_(2)), b_("-", i_(2), i_(1)),
          b_("/", i_(4), i_(2)), b_("/", i_(4), i_(0)),
          b_("%", i_(4), i_(0)), call("len", s_("abc")), n("a"),
          b_("+", n("a"), i_(1)), b_("*", n("a"), i_(0)),
          ("dec", F(2)), call("Integer", ("dec", F("2.5"))),
          ("if", ((("bool", True), i_(1)),), i_(2)),
          ("if", ((n("p"), i_(1)),), i_(2)), NULL, s_("a"),
          ("if", ((("bool", False), i_(1)),), u_("-", i_(2))),
          ("if", ((("q", "forall", "i", "ai", n("p")), i_(1)),), i_(2)),
          idx(n("ai"), i_(0)), fld(n("tg"), "x"),
          b_("**", i_(2), i_(2)), call("len", n("ai")),
          ("if", ((("range", False, i_(1), i_(0), i_(2)), i_(1)),), i_(2)),
          ("if", ((("in", False, s_("a"), s_("b")), i_(1)),), i_(2))]
    for x in ex:
        yield b_("**", n("a"), x)
        yield b_("**", n("d"), x)
        yield ("q", "forall", "i", "ai", b_("==", b_("**", n("i"), x),
                                            i_(1)))
    yield ("q", "forall", "i", "ai", b_("==", b_("**", n("a"), n("i")),
                                        i_(1)))
    for rx in ("a", "a*", "*", "(", ")", "[a", "a{2,1}", "a|b", "(?P<x>a)",
               "\\", "[b-a]", ""):
        yield call("matches", n("s"), s_(rx))
        yield call("matches", n("s"), b_("+", s_("a"), s_(rx)))
    for x in (n("s"), b_("+", s_("a"), n("s")), i_(1), NULL,
              ("if", ((("bool", True), s_("a")),), s_("b")),
              ("if", ((n("p"), s_("a")),), s_("b")), idx(n("as_"), i_(0)),
              b_("+", s_("a"), s_("b"))):
        yield call("matches", n("s"), x)


def arities():
    pool = [n("s"), n("p"), n("a"), n("d"), n("ai")]
    for fn in M.BUILTINS:
        for k in (0, 1, 2, 3):
            for xs in itertools.product(pool, repeat=k):
                if k == 3 and len(set(map(repr, xs))) == 3:
                    continue
                if fn == "matches" and k > 1:
                    xs = (xs[0], s_("a")) + xs[2:]
                yield call(fn, *xs)


def conds():
    ats = atoms(True)
    for x in ats:
        for y in ats:
            yield ("if", ((n("p"), x),), y)
            yield ("if", ((("bool", True), n("a")), (n("p"), x)), y)
            yield ("if", ((n("p"), x), (n("q"), y)), x)


def ranges():
    ats = atoms(True)
    for x in ats:
        for y in ats:
            for z in ats[:9] + ats[-5:]:
                yield ("range", False, x, y, z)
    for x, y, z in itertools.product((n("a"), n("d"), n("s"), NULL),
                                     repeat=3):
        yield ("range", True, x, y, z)


def names():
    for x in (("enum", "E1", "A"), ("enum", "E1", "C"), ("enum", "E2", "A"),
              n("zz"), n("E1"), n("TG"), n("T"), n("R"), n("P"), n("o1"),
              n("i"), n("v"), n("x"), n("X0"), n("len"), n("Integer"),
              n("String"), fld(n("R"), "v"), fld(n("T"), "a"),
              fld(n("TG"), "x"), fld(n("P"), "a"), fld(n("P"), "T"),
              fld(n("P"), "zz"), idx(n("E1"), i_(0)), idx(n("T"), i_(0))):
        yield b_("==", x, NULL)
        yield b_("==", n("e1"), x)
        yield x
    for c in COMPS:
        yield n(c)
    for x in LITS + DERIVED:
        yield x


def nested():
    """A wrongly typed operand below every kind of node"""
    bad = [b_("+", n("a"), n("s")), u_("not", n("a")), n("zz"), NULL,
           call("len", n("a")), b_("and", n("p"), n("a")),
           fld(n("a"), "x"), b_("==", n("a"), n("d"))]
    ctxs = [lambda x: b_("and", n("p"), b_("==", x, i_(1))),
            lambda x: b_("implies", b_("<", x, i_(1)), n("p")),
            lambda x: ("if", ((n("p"), b_("==", x, x)),), n("q")),
            lambda x: ("if", ((b_("==", x, i_(0)), n("q")),), n("q")),
            lambda x: ("if", ((n("p"), n("q")),), b_("!=", x, i_(0))),
            lambda x: ("q", "forall", "i", "ai", b_("==", n("i"), x)),
            lambda x: call("oneof", n("p"), b_("==", x, i_(1)), n("q")),
            lambda x: ("range", False, n("a"), i_(0), x),
            lambda x: ("in", False, x, n("ai")),
            lambda x: b_(">", idx(n("ai"), x), i_(0)),
            lambda x: b_(">", u_("abs", x), i_(0)),
            lambda x: b_(">", call("len", b_("+", n("s"), x)), i_(0)),
            lambda x: u_("not", b_("or", n("p"), b_("and", n("q"), x))),
            lambda x: b_("xor", x, n("p"))]
    for x in bad + [n("a"), n("p"), n("s")]:
        for c in ctxs:
            yield c(x)


def long():
    """One operand of each kind at each position of long constructs"""
    odd = [n("a"), n("d"), n("s"), n("p"), n("mk"), n("e1"), n("e2"),
           n("r1"), n("rs"), n("tg"), n("ai"), NULL, n("zz")]
    like = {"a": i_(1), "p": ("bool", True), "s": s_("x"),
            "e1": ("enum", "E1", "A"), "r1": n("r2"), "tg": n("tg")}
    for k in (1, 2, 3, 4):
        for base in like:
            for j in range(k + 1):
                for x in odd:
                    vals = [like[base] if m % 2 else n(base)
                            for m in range(k + 1)]
                    vals[j] = x
                    yield ("if", tuple((n("q"), v) for v in vals[:-1]),
                           vals[-1])
        for j in range(k):
            for x in odd:
                cs = [n("p") if m % 2 else ("bool", False)
                      for m in range(k)]
                cs[j] = x
                yield ("if", tuple((c, n("a")) for c in cs), i_(7))
    for op in ("and", "or", "+", "-", "*", "/", "%"):
        good = n("p") if op in ("and", "or") else n("a")
        for k in (3, 4, 5):
            for j in range(k):
                for x in odd:
                    e = None
                    for m in range(k):
                        y = x if m == j else good
                        e = y if e is None else b_(op, e, y)
                    yield e
    for k in (2, 3, 4, 5):
        for j in range(k):
            for x in odd:
                xs = [n("p")] * k
                xs[j] = x
                yield call("oneof", *xs)
    for fn in ("startswith", "endswith"):
        for x in odd:
            yield call(fn, x, n("s"))
            yield call(fn, n("s"), x)
    for x in odd:
        e = x
        for m in range(4):
            e = ("q", "exists" if m % 2 else "forall", "ijkl"[m],
                 ("ai", "ad", "as_", "ab")[m], e)
            yield e


THIS = {
    "RS": ["v", "w", "next", "x", "g", "k", "a"],
    "R": ["v", "w", "next", "x", "g", "k", "a"],
    "TG": ["x", "y", "p", "v"],
    "TS": ["p", "q", "x"],
    "TN": ["m", "n", "x"],
    "U1": ["v", "o"],
}


def others(this):
    """Checks for other types than T"""
    for c in THIS[this]:
        yield b_("!=", n(c), NULL)
        yield b_("==", n(c), i_(1))
        yield n(c)
        for f in ("x", "y", "v", "next"):
            yield b_("!=", fld(n(c), f), NULL)
        for d in THIS[this]:
            yield b_("==", n(c), n(d))
            yield b_("<", n(c), n(d))
            yield b_("+", n(c), n(d))


OPS2 = BINARY + ("in", "startswith")


def two(op, x, y):
    if op == "in":
        return ("in", False, x, y)
    if op == "startswith":
        return call(op, x, y)
    return b_(op, x, y)


@functools.lru_cache(40)
def space(name, deep):
    if name == "unary":
        return [t(x) for t in unary_templates() for x in atoms()]
    if name == "binary":
        ats = atoms()
        rv = [b_(op, x, y) for op in BINARY for x in ats for y in ats]
        rv += [("in", False, x, y) for x in ats for y in ats]
        rv += [call("startswith", x, y) for x in ats for y in ats]
        return rv
    if name == "binary2":
        ats = atoms(True)
        rv = [("in", True, x, y) for x in ats for y in ats]
        rv += [call("endswith", x, y) for x in ats for y in ats]
        rv += [call("oneof", n("p"), x, y) for x in ats for y in ats]
        return rv
    if name.startswith("this:"):
        return list(others(name[5:]))
    if name.startswith("deep:"):
        # all operators below all operators, on either side
        _, o1, o2, side = name.split(":")
        ats = [n(c) for c in ("a", "d", "s", "p", "ai", "tg", "r1")] + \
            [NULL, ("dec", F("0.5"))]
        rv = []
        for x in ats:
            for y in ats:
                for z in ats:
                    if side == "l":
                        rv.append(two(o2, two(o1, x, y), z))
                    else:
                        rv.append(two(o1, x, two(o2, y, z)))
        return rv
    return list({"fields": fields, "quants": quants, "statics": statics,
                 "arities": arities, "conds": conds, "ranges": ranges,
                 "names": names, "nested": nested, "long": long}[name]())


QUICK = ["unary", "binary", "binary2", "fields", "quants", "statics",
         "arities", "conds", "ranges", "names", "nested", "long"] + \
    ["this:" + t for t in THIS]
CHUNK = 60


def spaces(tier):
    rv = list(QUICK)
    if tier == "thorough":
        rv += ["deep:%s:%s:%s" % (x, y, z) for x in OPS2 for y in OPS2
               for z in "lr"]
    return rv


def bounds(tier):
    rv = {s: len(space(s, False)) for s in QUICK}
    if tier == "thorough":
        rv["two nested binary operators"] = 2 * 729 * len(OPS2) ** 2
    return rv


def cases(tier):
    for s in spaces(tier):
        k = len(space(s, False))
        for i in range(0, k, CHUNK):
            yield [s, i]


HEAD = W.head().rstrip("\n").split("\n")
WORLDS = {}


def world(this):
    if this not in WORLDS:
        WORLDS[this] = M.World(W.ENUMS, W.TUPLES, W.RECORDS, this)
    return WORLDS[this]


def words(e, out):
    if isinstance(e, str):
        if e in W.TCOMPS:
            out.add(e)
    elif isinstance(e, tuple):
        for x in e:
            words(x, out)
    return out


@functools.lru_cache(2000)
def small_head(comps):
    return W.head(comps).rstrip("\n").split("\n")


def try_one(this, text, e):
    """None if accepted, else a list of messages; or a crash text"""
    # only the components which occur, for speed
    head = small_head(frozenset(words(e, set())))
    line = len(head) + 1
    rsl = "\n".join(head + ["checks %s { %s, \"m\" }" % (this, text)]) + "\n"
    r = drv.run(W.files(rsl))
    if r.crash:
        return "crash: " + r.crash
    if not r.msgs:
        return "accepted" if r.stab is not None else "no result, no message"
    if r.stab is not None:
        return "result in spite of %r" % r.msgs
    for m in r.msgs:
        if m.kind != "SYS_ERROR" or m.file != "p.rsl" or m.line != line:
            return "misplaced message %r" % m
    return "rejected"


def judge(case):
    name, start = case
    this = name[5:] if name.startswith("this:") else "T"
    w = world(this)
    acc = rej = 0
    bad = []
    # whatever is well typed must be accepted even all at once
    good = []
    exprs = space(name, False)[start:start + CHUNK]
    for e in exprs:
        try:
            typ = M.typecheck(w, e)
            ok = True
        except M.TypeErr:
            ok = False
            typ = None
        # not a Boolean: wrap, so that the operand types alone decide
        if ok and typ != "bool" and e[0] not in ("name",) and \
           name not in ("names",):
            e = b_("==", e, NULL)
        ok = M.check_ok(w, e)
        text = M.show(e, True)
        if ok:
            good.append((text, e))
            acc += 1
        else:
            rej += 1
            got = try_one(this, text, e)
            if got != "rejected":
                bad.append((text, "reject", got))
    if good:
        rsl = HEAD + ["checks %s { %s, \"m\" }" % (this, t) for t, _ in good]
        r = drv.run(W.files("\n".join(rsl) + "\n"))
        if r.crash or r.msgs or r.stab is None:
            before = len(bad)
            for t, e in good:
                got = try_one(this, t, e)
                if got != "accepted":
                    bad.append((t, "accept", got))
            if len(bad) == before:
                bad.append(("<batch>", "accept", "%s %r" % (r.crash,
                                                            r.msgs[:2])))
    out = "%s:%s" % (name, "agree" if not bad else "differ")
    k = len(exprs)
    if not bad:
        return Verdict(out, None, None, k, k, k)
    return Verdict(out, "\n".join(
        "checks %s { %s }: the language demands to %s it, "
        "implementation: %s" % (this, t, x, g) for t, x, g in bad[:6]),
        "%s:%s" % (name, bad[0][0]), k, k, k)
