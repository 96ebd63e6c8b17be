"""Bounded spaces of well typed expressions and component values, shared by
the checks of C04 (defined evaluations) and C05 (undefined evaluations)."""
import functools
import itertools
from fractions import Fraction as F

from . import exprmodel as M
from . import exprworld as W
from .exprworld import ref, tg, ts

CHUNK = 40


def n(x):
    return ("name", x)


def i_(x):
    return ("int", x) if x >= 0 else ("un", "-", ("int", -x))


def d_(x):
    x = F(x)
    return ("dec", x) if x >= 0 else ("un", "-", ("dec", -x))


def s_(x):
    return ("str", x)


def b_(op, x, y):
    return ("bin", op, x, y)


def u_(op, x):
    return ("un", op, x)


def call(fn, *args):
    return ("call", fn, tuple(args))


NULL = ("null",)


def A(*xs):
    return ("A", list(xs))


def assign(**doms):
    """All assignments of the given domains"""
    names = list(doms)
    for vals in itertools.product(*(doms[x] for x in names)):
        yield {k: v for k, v in zip(names, vals) if v is not None}


ARITH = ("+", "-", "*", "/", "%")
REL = ("==", "!=", "<", "<=", ">", ">=")
LOGIC = ("and", "or", "xor", "implies", "==", "!=")


# ---- C04 -----------------------------------------------------------------

def sp_int1(deep):
    dom = [-7, -3, -2, -1, 0, 1, 2, 3, 7, 10 ** 20] + \
        ([-10 ** 20, 5, -5, 6, 4, -4] if deep else [])
    ex = [b_(op, n("a"), n("b")) for op in ARITH]
    ex += [b_(op, n("a"), n("b")) for op in REL]
    ex += [u_(op, n("a")) for op in ("+", "-", "abs")]
    ex += [b_("**", n("a"), i_(k)) for k in range(6)]
    ex += [b_("**", n("a"), b_("+", i_(1), i_(2)))]
    ex += [call("Integer", n("a")), call("Decimal", n("a"))]
    # operands which are literals and signed literals
    for k in (-3, -1, 0, 1, 2, 10 ** 30):
        ex += [b_(op, n("a"), i_(k)) for op in ARITH + REL]
        ex += [b_(op, i_(k), n("b")) for op in ARITH + REL]
    for k in (-7, 0, 7):
        for m in (-2, 2, 3):
            ex += [b_(op, i_(k), i_(m)) for op in ARITH + REL]
    return ex, list(assign(a=dom, b=dom))


def sp_int2(deep):
    dom = [-3, -1, 0, 2, 5] if not deep else [-5, -3, -2, -1, 0, 1, 2, 5]
    a, b, c = n("a"), n("b"), n("c")
    ex = []
    for o1 in ARITH:
        for o2 in ARITH:
            ex.append(b_(o2, b_(o1, a, b), c))
            ex.append(b_(o1, a, b_(o2, b, c)))
    for o1 in ARITH:
        for un in ("-", "abs", "+"):
            ex.append(u_(un, b_(o1, a, b)))
            ex.append(b_(o1, u_(un, a), b))
            ex.append(b_(o1, a, u_(un, b)))
        for k in (0, 2, 3):
            ex.append(b_("**", b_(o1, a, b), i_(k)))
            ex.append(b_(o1, a, b_("**", b, i_(k))))
        for o2 in REL:
            ex.append(b_(o2, b_(o1, a, b), c))
            ex.append(b_(o2, a, b_(o1, b, c)))
    for neg in (False, True):
        ex.append(("range", neg, a, b, c))
        ex.append(("range", neg, a, b_("-", b, c), b_("+", b, c)))
        ex.append(("range", neg, b_("%", a, b), i_(0), c))
    return ex, list(assign(a=dom, b=dom, c=dom))


def sp_dec(deep):
    dom = [F(x) for x in ("-2.5", "-1.5", "-0.5", "0.0", "0.5", "1.5", "2.5",
                          "0.1", "3.0", "-0.3333")]
    if deep:
        dom += [F(x) for x in ("-1.4999999999999999999999999999", "0.49999",
                               "-3.0", "100000000000000000000000.5", "7.25")]
    d, e = n("d"), n("e")
    ex = [b_(op, d, e) for op in ("+", "-", "*", "/") + REL]
    ex += [u_(op, d) for op in ("+", "-", "abs")]
    ex += [b_("**", d, i_(k)) for k in range(5)]
    ex += [call("Integer", d), call("Decimal", d)]
    ex += [b_("==", call("Decimal", call("Integer", d)), e)]
    for un in ("-", "abs"):
        ex += [call("Integer", u_(un, d)), u_(un, call("Integer", d))]
    for o1 in ("+", "-", "*", "/"):
        ex += [call("Integer", b_(o1, d, e))]
        for o2 in ("+", "-", "*", "/"):
            ex += [b_(o2, b_(o1, d, e), d), b_(o1, d, b_(o2, e, d))]
    for k in ("-2.5", "0.1", "3.0"):
        ex += [b_(op, d, d_(k)) for op in ("+", "-", "*", "/") + REL]
        ex += [b_(op, d_(k), d) for op in ("+", "-", "*", "/") + REL]
    ex += [("range", neg, d, e, d_("1.5")) for neg in (False, True)]
    ex += [("range", neg, d, d_("-0.5"), e) for neg in (False, True)]
    return ex, list(assign(d=dom, e=dom))


def sp_str(deep):
    dom = ["", "a", "b", "ab", "ba", "aab", "A", "a b"]
    if deep:
        dom += ["abab", "Ab", ".", "a.", "\u00e4", "aa", "bb"]
    s, t = n("s"), n("t")
    ex = [b_("+", s, t), b_("+", b_("+", s, t), s), b_("==", s, t),
          b_("!=", s, t), ("in", False, s, t), ("in", True, s, t),
          call("startswith", s, t), call("endswith", s, t),
          call("len", s), call("len", b_("+", s, t)),
          b_("<", call("len", s), call("len", t)),
          call("startswith", b_("+", s, t), s),
          call("endswith", b_("+", s, t), t),
          ("in", False, t, b_("+", s, t))]
    for lit in ("", "a", "ab", "b", "A"):
        ex += [("in", neg, s_(lit), s) for neg in (False, True)]
        ex += [("in", neg, s, s_(lit)) for neg in (False, True)]
        ex += [call("startswith", s, s_(lit)), call("endswith", s, s_(lit)),
               call("startswith", s_(lit), s), call("endswith", s_(lit), s),
               b_("==", s, s_(lit)), b_("!=", s_(lit), s), b_("+", s,
                                                             s_(lit))]
    for rx in ("a", "^a", "a$", ".", "^$", "a*b", "[ab]+", "^[^a]*$", "(a|b)b",
               "", "a.b", "^a.b$", "A", "\\.", "\\w+$"):
        ex += [call("matches", s, s_(rx)), call("matches", b_("+", s, t),
                                                s_(rx))]
    ex.append(call("matches", s, b_("+", s_("a"), s_("b"))))
    return ex, list(assign(s=dom, t=dom))


def sp_markup(deep):
    dom = ["", "a", "ab", "b"]
    mk, s = n("mk"), n("s")
    ex = [b_("+", mk, s), b_("+", s, mk), b_("+", mk, mk),
          ("in", False, s, mk), ("in", False, mk, s), call("len", mk),
          call("startswith", mk, s), call("endswith", s, mk),
          b_("==", mk, mk), b_("==", b_("+", mk, s_("")), s),
          b_("!=", b_("+", s, mk), b_("+", mk, s)),
          call("matches", mk, s_("^a"))]
    return ex, list(assign(mk=dom, s=dom))


def bool_exprs(atoms, depth):
    """All Boolean expressions over the atoms of the given nesting depth"""
    level = list(atoms)
    for _ in range(depth - 1):
        nxt = []
        for x in level:
            nxt.append(u_("not", x))
        for op in LOGIC:
            for x in level:
                for y in atoms:
                    nxt.append(b_(op, x, y))
        level = level + nxt
    return level


def sp_bool(deep):
    p, q, r = n("p"), n("q"), n("r")
    ex = bool_exprs([p, q, r], 2)
    one = ex[3:]
    ex = list(ex)
    for op in LOGIC:
        for x in one:
            if deep or x[0] == "un" or x[2] != x[3]:
                ex.append(b_(op, x, r))
                ex.append(b_(op, r, x))
    ex += [u_("not", x) for x in one]
    ex += [call("oneof", *xs) for k in (1, 2, 3)
           for xs in itertools.product((p, q, r), repeat=k)]
    ex += [call("oneof", p, q, r, r), call("oneof", p, q, r, u_("not", p)),
           call("oneof", u_("not", p), b_("and", q, r)),
           call("oneof", ("bool", True), p), call("oneof", ("bool", False),
                                                  p, q)]
    for c in (p, u_("not", p), b_("and", p, q), ("bool", True),
              ("bool", False)):
        for x in (q, r, ("bool", True), ("bool", False)):
            for y in (q, r, ("bool", True), ("bool", False)):
                ex.append(("if", ((c, x),), y))
                ex.append(("if", ((c, x), (q, y)), r))
                if deep:
                    ex.append(("if", ((c, x), (q, y), (r, p)),
                               u_("not", p)))
    if deep:
        for o1 in LOGIC:
            for o2 in LOGIC:
                for o3 in LOGIC:
                    ex.append(b_(o1, b_(o2, p, q), b_(o3, q, r)))
                    ex.append(b_(o1, b_(o2, p, b_(o3, q, r)), p))
                    ex.append(b_(o1, p, b_(o2, b_(o3, p, q), r)))
    return ex, list(assign(p=[True, False], q=[True, False],
                           r=[True, False]))


EQDOM = {
    "int": (("a", "b"), [None, -1, 0, 1]),
    "dec": (("d", "e"), [None, F(-1), F(0), F("0.5")]),
    "str": (("s", "t"), [None, "", "a", "A", "null"]),
    "bool": (("p", "q"), [None, True, False]),
    "enum": (("e1", "f1"), [None, ("E", "E1", "A"), ("E", "E1", "B")]),
    "tg": (("tg", "ug"), [None, tg(1, "a"), tg(1, "b"), tg(2, "a")]),
    "ts": (("ts", "us"), [None, ts(1), ts(1, 1), ts(1, 2), ts(2)]),
    "tn": (("tn", "vn"), [None] + [
        ("T", "TN", {"m": tg(x, y), "n": z})
        for x, y, z in ((1, "a", 1), (1, "b", 1), (2, "a", 1), (1, "a", 2))]),
    "ref": (("r1", "r2"), [None, ref("o1"), ref("o2"), ref("s1"),
                           ref("k1")]),
    "sub": (("r1", "rs"), [None, ref("o1"), ref("s1"), ref("k1")]),
    "uni": (("un", "vn2"), [None, ref("o1"), ref("s1"), ref("m1"),
                            ref("m2")]),
    "unir": (("un", "r1"), [None, ref("o1"), ref("s1"), ref("m1"),
                            ref("k1")]),
    "unip": (("un", "up"), [None, ref("s1"), ref("m1"), ref("n1")]),
}


def sp_eq(deep):
    rv = []
    for key, ((x, y), dom) in EQDOM.items():
        ex = []
        for op in ("==", "!="):
            ex += [b_(op, n(x), n(y)), b_(op, n(y), n(x)),
                   b_(op, n(x), n(x)), b_(op, n(x), NULL),
                   b_(op, NULL, n(y)), b_(op, NULL, NULL)]
        ex.append(b_("==", b_("==", n(x), n(y)), b_("==", n(x), NULL)))
        if key == "enum":
            ex += [b_(op, n(x), ("enum", "E1", lit)) for op in ("==", "!=")
                   for lit in "AB"]
        doms = {x: dom, y: dom}
        if key == "sub":
            doms[y] = [None, ref("s1")]
        if key == "unir":
            doms[y] = [None, ref("o1"), ref("s1")]
        if key == "unip":
            doms = {x: [None, ref("s1"), ref("m1"), ref("o1")],
                    y: [None, ref("s1"), ref("n1")]}
        rv.append((ex, list(assign(**doms))))
    return rv


def arrays(dom, k):
    for ln in range(k + 1):
        for v in itertools.product(dom, repeat=ln):
            yield ("A", list(v))


def sp_member(deep):
    rv = []
    k = 3 if deep else 2
    for el, arrn, lhs, dom in (
            ("int", "ai", "a", [-1, 0, 1]),
            ("dec", "ad", "d", [F(-1), F(0), F("0.5")]),
            ("str", "as_", "s", ["", "a", "b"]),
            ("bool", "ab", "p", [True, False]),
            ("enum", "ae", "e1", [("E", "E1", "A"), ("E", "E1", "B")]),
            ("tuple", "ag", "tg", [tg(1, "a"), tg(1, "b"), tg(2, "a")]),
            ("ref", "ar", "r1", [ref("o1"), ref("k1"), ref("s1")]),
            ("refsub", "ars", "r1", [ref("s1")]),
            ("refsup", "ar", "rs", [ref("s1"), ref("o1")]),
            ("union", "au", "un", [ref("o1"), ref("m1"), ref("s1")]),
            ("unionr", "au", "r1", [ref("o1"), ref("m1"), ref("s1")])):
        ldom = dom
        if el == "refsub":
            ldom = [ref("s1"), ref("o1")]
        if el == "refsup":
            ldom = [ref("s1")]
        if el == "unionr":
            ldom = [ref("o1"), ref("s1")]
        ex = [("in", neg, n(lhs), n(arrn)) for neg in (False, True)]
        ex += [("q", q, "i", arrn, b_(op, n("i"), n(lhs)))
               for q in ("forall", "exists") for op in ("==", "!=")]
        ex += [b_("==", ("in", False, n(lhs), n(arrn)),
                  ("q", "exists", "i", arrn, b_("==", n("i"), n(lhs)))),
               call("len", n(arrn)), b_("==", n(arrn), n(arrn)),
               b_("!=", n(arrn), NULL)]
        if el == "str":
            ex += [("in", False, s_("a"), n(arrn)),
                   ("in", True, b_("+", n(lhs), s_("a")), n(arrn))]
        if el == "int":
            ex += [("in", False, i_(0), n(arrn)),
                   ("in", False, u_("-", n(lhs)), n(arrn))]
        rv.append((ex, [dict(c, **{arrn: v}) for v in arrays(dom, k)
                        for c in assign(**{lhs: ldom})]))
    return rv


def sp_quant(deep):
    k = 3 if deep else 2
    i, j = n("i"), n("j")
    bodies = [b_(op, i, n("a")) for op in REL]
    bodies += [b_("==", b_("%", i, i_(2)), i_(0)), b_(">", u_("abs", i),
                                                      n("a")),
               ("range", False, i, n("a"), n("b")),
               b_("and", b_(">", i, n("a")), b_("<", i, n("b"))),
               b_("or", b_("<", i, n("a")), b_(">", i, n("b"))),
               b_("implies", b_(">", i, n("a")), b_("==", i, n("b"))),
               ("bool", True), ("bool", False), b_("==", i, NULL),
               ("in", False, i, n("bi")),
               ("if", ((b_("==", i, n("a")), b_("==", i, n("b"))),),
                b_("!=", i, n("a")))]
    ex = []
    for q in ("forall", "exists"):
        for bo in bodies:
            ex.append(("q", q, "i", "ai", bo))
        ex.append(u_("not", ("q", q, "i", "ai", bodies[0])))
        for q2 in ("forall", "exists"):
            for op in REL:
                ex.append(("q", q, "i", "ai",
                           ("q", q2, "j", "bi", b_(op, i, j))))
            ex.append(("q", q, "i", "ai",
                       ("q", q2, "j", "ai",
                        b_("implies", b_("!=", i, j), b_("<", i, j)))))
            ex.append(b_("and", ("q", q, "i", "ai", b_(">=", i, n("a"))),
                         ("q", q2, "i", "bi", b_("<", i, n("b")))))
    doms = list(arrays([-1, 0, 2], k))
    ctxs = [{"ai": x, "bi": y, "a": 0, "b": 1}
            for x in doms for y in list(arrays([0, 2], 2))]
    ctxs += [{"ai": x, "bi": ("A", [0]), "a": a, "b": b}
             for x in doms for a in (-1, 0, 1) for b in (-1, 0, 2)]
    return ex, ctxs


def sp_cond(deep):
    a, b, c = n("a"), n("b"), n("c")
    ex = []
    conds = [b_(">", a, b), b_("==", b, c), b_("<", c, i_(0)),
             ("bool", True), ("bool", False)]
    vals = [a, b, i_(7), b_("+", a, c)]
    for c1 in conds:
        for x in vals:
            for y in vals:
                ex.append(("if", ((c1, x),), y))
                for c2 in conds[:3 if not deep else 5]:
                    ex.append(("if", ((c1, x), (c2, y)), c))
    inner = ("if", ((b_(">", a, b), a),), b)
    for op in ARITH[:3]:
        ex += [b_(op, inner, c), b_(op, c, inner)]
    ex += [("if", ((b_(">", inner, c), inner),), c),
           ("if", ((b_(">", c, i_(0)), inner),), u_("-", inner))]
    dom = [-1, 0, 1] if not deep else [-2, -1, 0, 1, 2]
    return ex, list(assign(a=dom, b=dom, c=dom))


def sp_cond_types(deep):
    """Conditionals yielding every type"""
    rv = []
    for key, ((x, y), dom) in EQDOM.items():
        if key in ("sub", "uni", "unir", "unip"):
            continue
        cnd = ("if", ((b_("==", n("c"), i_(0)), n(x)),), n(y))
        ex = [b_(op, cnd, n(z)) for op in ("==", "!=") for z in (x, y)]
        ex += [b_("==", cnd, NULL)]
        rv.append((ex, [dict(v, c=k) for v in assign(**{x: dom, y: dom})
                        for k in (0, 1)]))
    return rv


def fld(e, *fs):
    for f in fs:
        e = ("fld", e, f)
    return e


def idx(e, *xs):
    for x in xs:
        e = ("idx", e, x)
    return e


def sp_access(deep):
    rv = []
    ex = [fld(n("tg"), "x"), fld(n("tg"), "y"),
          b_("+", fld(n("tg"), "x"), fld(n("ug"), "x")),
          b_("+", fld(n("tg"), "y"), fld(n("ug"), "y")),
          b_("==", fld(n("tg"), "x"), fld(n("ug"), "x"))]
    rv.append((ex, list(assign(tg=[tg(1, "a"), tg(-2, "")],
                               ug=[tg(1, "b"), tg(3, "c")]))))
    ex = [fld(n("ts"), "p"), b_("==", fld(n("ts"), "q"), NULL),
          b_("!=", fld(n("ts"), "q"), NULL),
          b_("implies", b_("!=", fld(n("ts"), "q"), NULL),
             b_(">", fld(n("ts"), "q"), fld(n("ts"), "p")))]
    rv.append((ex, list(assign(ts=[ts(1), ts(1, 0), ts(1, 2), ts(0, 0)]))))
    ex = [fld(n("tn"), "m", "x"), fld(n("tn"), "m", "y"), fld(n("tn"), "n"),
          b_("==", fld(n("tn"), "m"), n("tg"))]
    rv.append((ex, list(assign(
        tn=[("T", "TN", {"m": tg(x, y), "n": z})
            for x, y, z in ((1, "a", 5), (2, "a", 1), (2, "b", 1))],
        tg=[tg(1, "a"), tg(2, "b")]))))
    r1 = n("r1")
    ex = [fld(r1, "v"), b_("==", fld(r1, "w"), NULL),
          b_("==", fld(r1, "next"), NULL), b_("==", fld(r1, "next"), n("r2")),
          b_("==", fld(r1, "next"), r1), b_("==", fld(r1, "g"), NULL),
          b_("==", fld(r1, "v"), fld(n("r2"), "v")),
          b_("==", fld(r1, "next", "next"), n("r2")),
          b_("==", fld(r1, "next", "next", "next"), r1),
          fld(r1, "next", "v"), fld(r1, "next", "next", "v"),
          b_("==", fld(r1, "z"), s_("zz")), b_("==", fld(r1, "k"), NULL),
          call("len", fld(r1, "k")), idx(fld(r1, "k"), i_(0)),
          idx(fld(r1, "k"), i_(1)),
          ("in", False, fld(r1, "v"), fld(r1, "k")),
          fld(r1, "g", "x"), fld(r1, "g", "y"),
          b_("and", b_("!=", fld(r1, "g"), NULL),
             b_("==", fld(r1, "g"), n("tg")))]
    rv.append((ex, list(assign(r1=[ref("o1"), ref("o2"), ref("s1")],
                               r2=[ref("o1"), ref("o2"), ref("s1")],
                               tg=[tg(1, "a")]))))
    ex = [fld(n("rs"), "v"), fld(n("rs"), "x"), fld(n("rs"), "next", "v"),
          b_("==", fld(n("rs"), "next"), n("r1")),
          b_("+", fld(n("rs"), "x"), fld(n("rs"), "v"))]
    rv.append((ex, list(assign(rs=[ref("s1")], r1=[ref("o1"), ref("o2")]))))
    ex = [b_("==", fld(n("un"), "v"), NULL), fld(n("un"), "v"),
          b_("==", fld(n("un"), "o"), NULL), fld(n("un"), "o"),
          b_("==", fld(n("un"), "w"), NULL), fld(n("un"), "w"),
          b_("==", fld(n("un"), "next"), NULL),
          b_("==", fld(n("un"), "next"), n("r1"))]
    rv.append((ex, list(assign(un=[ref("o1"), ref("o2"), ref("s1"),
                                   ref("m1"), ref("m2")],
                               r1=[ref("o1"), ref("o2")]))))
    ex = [b_("==", fld(n("up"), "v"), NULL), fld(n("up"), "v"),
          b_("==", fld(n("up"), "x"), NULL),
          b_("==", fld(n("up"), "next"), n("r1")), fld(n("up"), "x")]
    rv.append((ex, list(assign(up=[ref("s1"), ref("n1")],
                               r1=[ref("o1"), ref("o2")]))))
    ai = n("ai")
    ex = [idx(ai, i_(0)), idx(ai, n("a")), idx(ai, b_("-", call("len", ai),
                                                     i_(1))),
          b_("==", idx(ai, n("a")), idx(ai, n("b"))),
          b_("<=", idx(ai, i_(0)), idx(ai, n("a"))),
          b_("+", idx(ai, n("a")), idx(ai, n("b"))),
          idx(ai, idx(ai, n("a")))]
    rv.append((ex, [dict(c, ai=v) for v in arrays([0, 1, 2], 3)
                    for c in assign(a=[0, 1, 2], b=[0, 1])]))
    ex = [idx(n("ad"), n("a")), b_("==", idx(n("as_"), n("a")), n("s")),
          idx(n("ab"), n("a")), b_("==", idx(n("ae"), n("a")), n("e1")),
          fld(idx(n("ag"), n("a")), "x"), fld(idx(n("ag"), n("a")), "y"),
          b_("==", idx(n("ag"), n("a")), n("tg")),
          fld(idx(n("ar"), n("a")), "v"),
          b_("==", idx(n("ar"), n("a")), n("r1")),
          b_("==", idx(n("ar"), i_(0)), idx(n("ar"), i_(1))),
          fld(idx(n("ars"), i_(0)), "x"), fld(idx(n("ars"), i_(0)), "v"),
          b_("==", fld(idx(n("au"), n("a")), "o"), NULL),
          ("q", "exists", "i", "ag", b_("==", fld(n("i"), "x"), n("a"))),
          ("q", "forall", "i", "ar", b_("<", fld(n("i"), "v"), i_(2))),
          ("q", "exists", "i", "ar", b_("==", fld(n("i"), "next"),
                                        n("r1"))),
          ("q", "exists", "i", "au", b_("==", fld(n("i"), "o"), s_("a")))]
    base = {"ad": A(F("0.5"), F(-1)), "as_": A("a", ""),
            "ab": A(True, False),
            "ae": A(("E", "E1", "A"), ("E", "E1", "B")),
            "ag": A(tg(1, "a"), tg(2, "b")), "ars": A(ref("s1"))}
    rv.append((ex, [dict(base, **c) for c in assign(
        a=[0, 1], s=["", "a"], e1=[("E", "E1", "A"), ("E", "E1", "B")],
        tg=[tg(1, "a"), tg(2, "b")], r1=[ref("o1"), ref("o2")],
        ar=[A(ref("o1"), ref("o2")), A(ref("s1"), ref("s1"))],
        au=[A(ref("m1"), ref("o1")), A(ref("s1"), ref("m2"))])]))
    return rv


# ---- C05: null and other undefined operands ------------------------------

def undef_atoms():
    """Boolean, integer, ... expressions whose evaluation may be undefined"""


def sp_undef_bool(deep):
    """Three valued logic: every operator over {true, false, null}"""
    p, q, r = n("p"), n("q"), n("r")
    ex, _ = sp_bool(deep)
    return ex, list(assign(p=[True, False, None], q=[True, False, None],
                           r=[True, False, None]))


def sp_undef_one(deep):
    """Every operator and function with each operand null or not"""
    a, b, c, d, e, s, t, p = (n(x) for x in "abcdestp")
    ai, tg_, ts_, r1 = n("ai"), n("tg"), n("ts"), n("r1")
    rv = []
    ex = [b_(op, a, b) for op in ARITH + REL]
    ex += [u_(op, a) for op in ("+", "-", "abs")]
    ex += [b_("**", a, i_(2)), b_("**", a, i_(0)), call("Integer", a),
           call("Decimal", a), ("range", False, a, b, c),
           ("range", True, a, b, c), ("in", False, a, ai),
           ("in", True, a, ai), call("len", ai), idx(ai, a),
           b_("==", idx(ai, a), b), b_("-", idx(ai, a), b),
           ("q", "forall", "i", "ai", b_("<", n("i"), a)),
           ("q", "exists", "i", "ai", b_("==", n("i"), a)),
           ("if", ((b_("==", a, NULL), b),), c),
           ("if", ((b_(">", a, b), b),), c),
           b_("==", ("if", ((b_("==", a, NULL), b),), c), NULL),
           b_("/", a, b_("-", b, c)), b_("%", a, b_("-", b, c)),
           b_("/", i_(1), b_("+", b_("%", a, i_(2)), b))]
    rv.append((ex, [dict(x, **y) for x in assign(
        a=[None, -1, 0, 1], b=[None, 0, 1], c=[None, 0, 1])
        for y in assign(ai=[None, A(), A(1), A(0, 1)])]))
    ex = [b_(op, d, e) for op in ("+", "-", "*", "/") + REL]
    ex += [u_(op, d) for op in ("+", "-", "abs")]
    ex += [b_("**", d, i_(2)), call("Integer", d), call("Decimal", d),
           ("range", False, d, e, d), ("in", True, d, n("ad")),
           idx(n("ad"), i_(0)), call("len", n("ad"))]
    rv.append((ex, list(assign(d=[None, F(0), F("0.5")],
                               e=[None, F(0), F("-0.5")],
                               ad=[None, A(), A(F(0))]))))
    ex = [b_("+", s, t), ("in", False, s, t), ("in", True, s, t),
          call("startswith", s, t), call("endswith", s, t), call("len", s),
          call("matches", s, s_("a")), ("in", False, s, n("as_")),
          b_("+", n("mk"), s), call("len", n("mk")), b_("==", s, t),
          ("in", False, n("mk"), s), call("matches", n("mk"), s_("^$"))]
    rv.append((ex, list(assign(s=[None, "", "a"], t=[None, "", "a"],
                               mk=[None, "a"], as_=[None, A("a")]))))
    return rv


def sp_undef_access(deep):
    rv = []
    tg_, ts_, r1 = n("tg"), n("ts"), n("r1")
    guard = lambda g, x: [x, b_("and", g, x), b_("or", g, x),
                          b_("implies", g, x), b_("and", x, g),
                          b_("or", x, g), b_("implies", x, g),
                          ("if", ((g, x),), ("bool", True)),
                          ("if", ((g, ("bool", True)),), x),
                          ("if", ((x, ("bool", True)),), g)]
    ex = []
    for x in (b_("==", fld(tg_, "x"), i_(1)), b_("==", fld(ts_, "q"), NULL),
              b_(">", fld(ts_, "q"), i_(1)), b_(">", fld(ts_, "p"), i_(0))):
        for g in (b_("!=", tg_, NULL), b_("==", tg_, NULL),
                  b_("!=", ts_, NULL), b_("==", ts_, NULL)):
            ex += guard(g, x)
    rv.append((ex, list(assign(tg=[None, tg(1, "a"), tg(0, "")],
                               ts=[None, ts(1), ts(1, 2), ts(0, 0)]))))
    ex = []
    for x in (b_("==", fld(r1, "v"), i_(1)), b_("==", fld(r1, "w"), NULL),
              b_(">", fld(r1, "w"), i_(1)),
              b_("==", fld(r1, "next", "v"), i_(1)),
              b_("==", fld(r1, "next", "next"), n("r2")),
              b_("==", fld(r1, "g", "x"), i_(1)),
              b_("==", idx(fld(r1, "k"), i_(0)), i_(1)),
              ("in", False, i_(1), fld(r1, "k"))):
        for g in (b_("!=", r1, NULL), b_("==", r1, NULL),
                  b_("==", r1, n("r2"))):
            ex += guard(g, x)
    rv.append((ex, list(assign(r1=[None, ref("o1"), ref("o2"), ref("s1")],
                               r2=[None, ref("o1"), ref("s1")]))))
    un = n("un")
    ex = []
    for x in (b_("==", fld(un, "v"), i_(1)), b_(">", fld(un, "w"), i_(0)),
              b_("==", fld(un, "w"), NULL), b_("==", fld(un, "o"), s_("a")),
              b_("==", call("len", fld(un, "o")), i_(1)),
              b_("==", fld(un, "next", "v"), i_(2))):
        for g in (b_("!=", un, NULL), b_("==", un, n("r1")),
                  b_("!=", un, n("r1"))):
            ex += guard(g, x)
    rv.append((ex, list(assign(un=[None, ref("o1"), ref("o2"), ref("m1"),
                                   ref("m2")], r1=[None, ref("o1")]))))
    ai, a3 = n("ai"), n("a3")
    ex = []
    for arrx in (ai, a3):
        for ix in (n("a"), i_(0), i_(2), i_(3), u_("-", i_(1)),
                   b_("-", n("a"), i_(1)), call("len", arrx)):
            x = b_("==", idx(arrx, ix), i_(1))
            ex += [x, b_("and", b_(">", call("len", arrx), ix), x)]
            ex += guard(b_("!=", arrx, NULL), x)[:3]
    rv.append((ex, [dict(c, ai=v, a3=w) for c in assign(a=[None, -1, 0, 1, 2,
                                                           3, 4])
                    for v, w in ((None, None), (A(), A()), (A(1), A(1)),
                                 (A(1, 2), A(0, 1)),
                                 (A(1, 1, 1), A(1, 1, 1)))]))
    return rv


def sp_undef_quant(deep):
    i, j, a, b, p = n("i"), n("j"), n("a"), n("b"), n("p")
    bodies = [b_(">", b_("/", i_(1), i), a), p, b_("and", b_("!=", i, i_(0)),
                                                  p),
              b_("or", b_("==", i, i_(0)), b_("<", b_("%", i_(4), i), b)),
              b_("<", i, a), b_("==", i, a), b_("==", idx(n("bi"), i), b),
              ("in", False, i, n("bi")),
              ("if", ((b_("==", i, i_(0)), p),), b_("<", i, a))]
    ex = []
    for q in ("forall", "exists"):
        for bo in bodies:
            ex += [("q", q, "i", "ai", bo),
                   b_("and", b_("!=", n("ai"), NULL),
                      ("q", q, "i", "ai", bo)),
                   b_("or", p, ("q", q, "i", "ai", bo))]
        for q2 in ("forall", "exists"):
            ex += [("q", q, "i", "ai", ("q", q2, "j", "bi",
                                        b_(">", b_("/", i, j), a)))]
    dom = [None] + list(arrays([0, 1, 2], 2))
    return ex, [dict(c, **{k: v for k, v in (("ai", x), ("bi", y))
                           if v is not None})
                for c in assign(a=[None, 0], b=[None, 1],
                                p=[None, True, False])
                for x in dom for y in (None, A(), A(1), A(0, 1), A(1, 2, 3))]


def sp_undef_guard(deep):
    """Division by zero, null operands below two levels of short circuit
    operators and conditionals"""
    a, b, p = n("a"), n("b"), n("p")
    bads = [b_(">", b_("/", i_(6), a), b), b_("==", b_("%", b, a), i_(0)),
            b_("<", a, b), p]
    goods = [b_("!=", a, NULL), b_("==", a, NULL), b_("!=", b, NULL),
             b_("==", p, NULL), ("bool", True), ("bool", False)]
    ops = ("and", "or", "implies", "xor", "==")
    ex = []
    for g in goods:
        for x in bads:
            for o1 in ops:
                ex += [b_(o1, g, x), b_(o1, x, g)]
                for g2 in goods[:4]:
                    for o2 in ops[:4]:
                        ex.append(b_(o2, g2, b_(o1, g, x)))
                        ex.append(b_(o2, b_(o1, g, x), g2))
    for g in goods:
        for x in bads:
            for y in bads:
                ex.append(("if", ((g, x),), y))
                ex.append(("if", ((x, g),), y))
                if deep:
                    for g2 in goods[:4]:
                        ex.append(("if", ((g, x), (g2, y)), g))
                        ex.append(("if", ((g2, g), (x, y)), y))
            ex.append(call("oneof", g, x))
            ex.append(call("oneof", x, g, g))
            ex.append(u_("not", b_("and", g, x)))
    return ex, list(assign(a=[None, 0, 2], b=[None, 0, 4],
                           p=[None, True, False]))


# ---- all expressions up to a size ----------------------------------------

TREE_ATOMS = {
    "int": [n("a"), i_(2), n("b")],
    "dec": [n("d"), d_("0.5")],
    "str": [n("s"), s_("a")],
    "bool": [n("p"), ("bool", True)],
    "ai": [n("ai")], "tg": [n("tg")], "r1": [n("r1")], "un": [n("un")],
    "null": [NULL], "qi": [n("i")],
}
TREE_DOM = {
    "a": [None, -1, 0, 2], "b": [None, 0, 3], "d": [None, F(0), F("-1.5")],
    "s": [None, "", "ab"], "p": [None, True, False],
    "ai": [None, A(), A(2, 0)], "tg": [None, tg(0, "a")],
    "r1": [None, ref("o1"), ref("o2")], "un": [None, ref("o1"), ref("m2")],
}


@functools.lru_cache(None)
def trees(typ, size, q=False):
    """All well typed expressions of the type with exactly the given number
    of nodes (q: inside of a quantifier over ai with variable i)"""
    rv = []
    if size == 1:
        rv = list(TREE_ATOMS.get(typ, []))
        if q and typ == "int":
            rv = [n("i"), n("a")]
        return tuple(rv)
    if typ not in ("int", "dec", "str", "bool"):
        return ()
    sub = lambda t, k: trees(t, k, q)

    def pairs(t1, t2):
        for k in range(1, size - 1):
            for x in sub(t1, k):
                for y in sub(t2, size - 1 - k):
                    yield x, y

    def triples(t1, t2, t3):
        for k in range(1, size - 2):
            for m in range(1, size - 1 - k):
                for x in sub(t1, k):
                    for y in sub(t2, m):
                        for z in sub(t3, size - 1 - k - m):
                            yield x, y, z

    if typ in ("int", "dec"):
        for op in ("-", "abs"):
            rv += [u_(op, x) for x in sub(typ, size - 1)]
        for op in ("+", "-", "*", "/") + (("%",) if typ == "int" else ()):
            rv += [b_(op, x, y) for x, y in pairs(typ, typ)]
        rv += [call("Integer" if typ == "int" else "Decimal", x)
               for x in sub("dec" if typ == "int" else "int", size - 1)]
        rv += [b_("**", x, i_(2)) for x in sub(typ, size - 2)] \
            if size > 2 else []
    if typ == "int":
        rv += [call("len", x) for t in ("str", "ai")
               for x in sub(t, size - 1)]
        if size > 2:
            rv += [idx(n("ai"), x) for x in sub("int", size - 2)]
        if size == 2:
            rv += [fld(n("tg"), "x"), fld(n("r1"), "v"), fld(n("r1"), "w"),
                   fld(n("un"), "v")]
        if size == 3:
            rv += [fld(n("r1"), "next", "v"), fld(n("r1"), "g", "x")]
    if typ == "str":
        rv += [b_("+", x, y) for x, y in pairs("str", "str")]
        if size == 2:
            rv += [fld(n("tg"), "y"), fld(n("un"), "o")]
    if typ == "bool":
        rv += [u_("not", x) for x in sub("bool", size - 1)]
        rv += [b_(op, x, y) for op in ("and", "or", "xor", "implies")
               for x, y in pairs("bool", "bool")]
        for t in ("int", "dec"):
            rv += [b_(op, x, y) for op in ("<", ">=")
                   for x, y in pairs(t, t)]
            rv += [("range", False) + z for z in triples(t, t, t)]
        for t in ("int", "dec", "str", "bool", "ai", "tg", "r1", "un"):
            rv += [b_("==", x, y) for x, y in pairs(t, t)]
            rv += [b_("!=", x, NULL) for x in sub(t, size - 2)] \
                if size > 2 else []
        rv += [("in", False) + z for z in pairs("str", "str")]
        rv += [("in", True) + z for z in pairs("int", "ai")]
        rv += [call("startswith", x, y) for x, y in pairs("str", "str")]
        rv += [call("oneof", x, y) for x, y in pairs("bool", "bool")]
        if not q and size > 2:
            for k in ("forall", "exists"):
                rv += [("q", k, "i", "ai", x)
                       for x in trees("bool", size - 2, True)]
    rv += [("if", ((c, x),), y) for c, x, y in triples("bool", typ, typ)]
    return tuple(rv)


def sp_trees(deep):
    rv = []
    for size in range(1, 7 if deep else 6):
        for typ in ("bool", "int", "dec", "str"):
            if size == 6 and typ != "bool":
                continue
            ex = trees(typ, size)
            for k in range(0, len(ex), 4000):
                rv.append((ex[k:k + 4000], None))
    return rv


def tree_ctxs(e):
    used = mentions(e, set())
    return assign(**{c: TREE_DOM[c] for c in sorted(used) if c in TREE_DOM})


DEFINED = {"int1": sp_int1, "int2": sp_int2, "dec": sp_dec, "str": sp_str,
           "markup": sp_markup, "bool": sp_bool, "eq": sp_eq,
           "member": sp_member, "quant": sp_quant, "cond": sp_cond,
           "cond_types": sp_cond_types, "access": sp_access,
           "trees": sp_trees}
UNDEFINED = {"u_bool": sp_undef_bool, "u_one": sp_undef_one,
             "u_access": sp_undef_access, "u_quant": sp_undef_quant,
             "u_guard": sp_undef_guard, "u_trees": sp_trees}


@functools.lru_cache(None)
def space(name, deep):
    fn = DEFINED.get(name) or UNDEFINED[name]
    rv = fn(deep)
    return rv if isinstance(rv, list) else [rv]


def cases(names, tier):
    deep = tier == "thorough"
    for name in names:
        for part, (ex, _) in enumerate(space(name, deep)):
            for k in range(0, len(ex), CHUNK):
                yield [name, deep, part, k]


def mentions(e, out):
    if e[0] == "name":
        out.add(e[1])
    elif e[0] == "q":
        out.add(e[3])
    for x in e:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                mentions(x, out)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        if y and isinstance(y[0], str):
                            mentions(y, out)
                        else:
                            for z in y:
                                if isinstance(z, tuple):
                                    mentions(z, out)
    return out


def observe_as(typ, e):
    """How to observe the value of e: check expression, and function from
    the value to component values"""
    if typ == "bool":
        return e, None
    if typ == "int":
        return b_("==", e, n("resi")), lambda v: {"resi": v}
    if typ == "dec":
        return (b_("==", b_("*", e, n("resd")), n("resn")),
                lambda v: {"resd": F(F(v).denominator),
                           "resn": F(F(v).numerator)})
    if typ == "str":
        return b_("==", e, n("ress")), lambda v: {"ress": v}
    raise AssertionError(typ)


WRONG = {"resi": lambda v: v + 1, "resn": lambda v: v + 1,
         "ress": lambda v: v + "x"}


def items_of(case, want_defined):
    """The (text, [(body, expected)]) of a case, and statistics"""
    name, deep, part, k = case
    exprs, ctxs = space(name, deep)[part]
    items = []
    states = 0
    for e in exprs[k:k + CHUNK]:
        typ = M.typecheck(W.WORLD, e)
        chk, res = observe_as(typ, e)
        text = M.show(chk, True)
        bs = []
        seen = set()
        used = mentions(e, set())
        for ctx in (tree_ctxs(e) if ctxs is None else ctxs):
            ctx = {c: v for c, v in ctx.items() if c in used}
            key = repr(sorted(ctx.items()))
            if key in seen:
                continue
            seen.add(key)
            full = W.full(ctx)
            states += 1
            v = M.verdict(W.WORLD, e, full, W.OBJS)
            if v == "err":
                if want_defined:
                    continue
                extra = res(typ_default(typ)) if res else {}
                exp = M.verdict(W.WORLD, chk, dict(full, **extra), W.OBJS)
                bs.append((W.body(dict(ctx, **extra)), exp))
            elif res is None:
                bs.append((W.body(ctx), v))
            else:
                extra = res(v)
                bs.append((W.body(dict(ctx, **extra)), True))
                for c, f in WRONG.items():
                    if c in extra and len(bs) < 8:
                        bs.append((W.body(dict(ctx, **dict(
                            extra, **{c: f(extra[c])}))), False))
        if bs:
            items.append((text, bs))
    return items, states


def typ_default(typ):
    return {"int": 0, "dec": F(0), "str": ""}[typ]
