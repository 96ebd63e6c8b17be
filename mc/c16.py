"""C16: static verification of checks is sound

atoms    every boolean atom (about every operation that can fail) alone and
         negated
pairs    all connectives over all pairs of a guard and an operation (quick:
         sharing a component)
seq      all sequences of two or three checks (severity, guard or operation)
         in one block, over two blocks, over a base type and an extension
freeze   operations over frozen components
quant    all quantifiers over array kinds times bodies
ground   for operator tables: guard fixing the operands => (not) result,
         for all operands of a small domain and all plausible results

Every check is verified by the real tool (with cvc5) and then evaluated by
the real tool on every object of a small domain.
"""
import itertools
import re

from . import drv
from .core import Verdict

PID = "C16"
ASSUMPTIONS = [
    "an object is admitted if the checks of its tuples (other than warnings) "
    "hold, and up to the first fatal check which fails",
    "counter-examples are replayed if the type has no references, no markup "
    "and no calls of matches (which are modelled as unknown), no arrays of "
    "tuples, and the tool does not itself call them unreliable",
    "constructs reported as not yet supported are exempt",
    "the solver (cvc5) and pyvcg are trusted to answer correctly",
]
CASE_LIMIT = 60.0

DECL = """package P
enum E { A B }
tuple Q { a Integer b Integer }
tuple V { a Integer separator @ b optional Integer }
checks Q { a > 0, "neg" }
tuple N { f V z Integer }
type R { n Integer m optional Integer e E l Integer [0 .. *] r optional R
  q Q v optional V t optional String }
type S extends R { k Integer }
type W { n Integer k optional Integer }
"""
DECL_LINES = DECL.count("\n")
OBJECTS = """package P
R r1 { n = 0 e = E.A l = [] q = (1, 0) }
R r2 { n = 1 m = 1 e = E.B l = [1, 0] r = r1 q = (2, 1) v = 1 @ 0 t = "a" }
S s1 { n = 2 m = 0 e = E.A l = [0] r = r2 q = (1, 1) v = 1 k = 0 }
W w1 { n = 0 }
W w2 { n = 1 k = 0 }
"""

# component -> (type, values of the domain)
COMPS = {
    "i": ("Integer", ["-1", "0", "1", "2"]),
    "j": ("optional Integer", [None, "0", "1"]),
    "k": ("optional Integer", [None, "0", "-2"]),
    "d": ("Decimal", ["0.0", "-0.5", "1.5"]),
    "od": ("optional Decimal", [None, "0.0", "0.5"]),
    "b": ("Boolean", ["true", "false"]),
    "ob": ("optional Boolean", [None, "true", "false"]),
    "s": ("String", ['""', '"a"', '"ab"']),
    "os": ("optional String", [None, '""', '"a"']),
    "e": ("E", ["E.A", "E.B"]),
    "oe": ("optional E", [None, "E.A", "E.B"]),
    "l": ("Integer [0 .. *]", ["[]", "[0]", "[1, 2]", "[2, 0, 1]"]),
    "ol": ("optional Integer [1 .. 2]", [None, "[0]", "[1, 0]"]),
    "q": ("Q", ["(1, 0)", "(2, 1)"]),
    "oq": ("optional Q", [None, "(1, 0)", "(1, 2)"]),
    "v": ("optional V", [None, "1", "1 @ 0", "0 @ 2"]),
    "r": ("R", ["r1", "r2", "s1"]),
    "orr": ("optional R", [None, "r1", "r2"]),
    "u": ("[R, W]", ["r1", "w1", "s1", "w2"]),
    "ou": ("optional [R, W]", [None, "r2", "w1"]),
    "us": ("[W, S]", ["w1", "w2", "s1"]),
    "lr": ("R [0 .. *]", ["[]", "[r1]", "[r2, s1]"]),
    "lb": ("Boolean [0 .. *]", ["[]", "[true]", "[false, true]"]),
    "lq": ("Q [0 .. *]", ["[]", "[(1, 0)]", "[(2, 1), (1, 2)]"]),
    "lv": ("V [0 .. 2]", ["[]", "[1 @ 0]", "[0, 1 @ 2]"]),
    "n": ("N", ["(1 @ 2, 3)", "(2, 0)"]),
    "ls": ("String [0 .. *]", ["[]", '["a"]', '["", "ab"]']),
    "le": ("E [0 .. *]", ["[]", "[E.A]", "[E.B, E.A]"]),
    "ld": ("Decimal [0 .. *]", ["[]", "[0.0]", "[0.5, 1.5]"]),
}

GUARDS = ["j != null", "j == null", "k == null", "i != 0", "i > 0", "i == 0",
          "j == i", "od != null", "od == null or od > 0.0", "ob != null",
          "b", "ob == true", "os != null", 'os == "a"', "oe == E.A",
          "oe != null", "len(l) > 0", "len(l) > i", "i >= 0", "ol != null",
          "oq != null", "v != null", "v == null", "orr != null",
          "orr == null", "ou != null", "d != 0.0", "i in l",
          "r.m != null", "r.r != null", "r.v != null", "u.m != null",
          "u.k != null", "us.k != null", "(exists x in l => x == i)",
          "(forall x in l => x > 0)", "i in 1 .. 2", "len(lr) > 0",
          "orr == r", 's == "a"', "j == null or j > 0",
          "j != null and j != 0", "matches(s, \"a+\")", "i > 1 or i < 0",
          "e == E.A", "oneof(b, i == 0)", "false", "true"]
RISKY = ["j > 0", "10 / i > 1", "10 % i == 1", "k < 0", "1 / (i - 1) > 0",
         "1.0 / od > 0.0", "d / d > 0.0", "ob", "not ob", "ob xor b",
         "len(os) > 0", 'os in s', 's in os', 'startswith(os, "a")',
         'endswith(s, os)', 's + os == "ab"', "l[0] > 0", "l[i] > 0",
         "ol[0] > 0", "ol[1] > 0", "l[j] > 0", "i in l", "j in l", "v.b > 0",
         "oq.b > 0", "v.a > 0", "orr.n > 0", "ou.n > 0", "r.m > 0",
         "r.r.n > 0", "r.r.m > 0", "r.v.b > 0", "r.l[0] > 0", "u.m > 0",
         "u.k > 0", "us.k > 0", "us.n > 0", "len(ol) > 1", "len(r.t) > 0",
         "abs j > 0", "-j < 0", "j + 1 > 0", "j in 0 .. 1", "i in j .. 2",
         "i in 0 .. j", "oneof(ob, b)", "j ** 2 > 0", "Decimal(j) > 0.5",
         "Integer(od) == 0", "lr[0].n > 0", "lr[i].m > 0", "lq[0].b > 0",
         "lv[0].b > 0", "r.n / r.n == 1", "i / r.n > 0", "j < k", "oe == e",
         "os == s", "oq == q", "(if ob then b else true)",
         "(if b then j > 0 else true)", "matches(os, \"a\")",
         "r.e == E.A", "u.n / u.n > 0", "l[l[0]] > 0", "j == null",
         "10 / j > 0", "10 / (i * j) > 0"]
CONNECT = ["G and R", "G or R", "G implies R", "not (G) or R",
           "(if G then R else true)", "(if G then true else R)",
           "(if b then true elsif G then R else b)", "R and G", "R or G",
           "R implies G", "G xor R", "(G) == (R)", "oneof(G, R, b)",
           "(G and b) implies R", "(G or b) implies R",
           "not (G and R)", "(G implies R) or b"]
BODIES = ["x > 0", "10 / x > 1", "x / i == 0", "j > x", "l[x] > 0", "x in l",
          "x in i .. 2", "x in 0 .. j", "oneof(x > 0, b)", "(if x == 0 then "
          "b else 10 / x > 1)", "x != 0 implies 10 / x > 1",
          "x == 0 or 10 / x > 1", "x != 0 and 10 / x > 1", "ob", "b xor x > "
          "0", "r.m > x", "x == j", "10 % x == 0", "x ** 2 > 0", "abs x > -x",
          "(exists y in l => y == x)", "l[i] == x", "x in l and l[0] > 0"]
QUANT = [("l", BODIES), ("ol", BODIES),
         ("lb", ["x", "not x", "x xor b", "x == ob", "x implies j > 0"]),
         ("lr", ["x.n > 0", "x.m > 0", "x.m != null implies x.m > 0",
                 "x == r", "x != orr", "10 / x.n > 1", "x.r.n > 0",
                 "x.l[0] > 0", "x.e == E.A", "x.v.b > 0"]),
         ("lq", ["x.a > 0", "x.b > 0", "10 / x.b > 0", "x == q",
                 "x == oq", "10 / x.a > 0"]),
         ("lv", ["x.a > 0", "x.b > 0", "x.b != null implies x.b > 0",
                 "x == v"]),
         ("ls", ["len(x) > 0", "x in s", "os in x", 'matches(x, "a")',
                 'x + "a" != s', 'startswith(x, os)']),
         ("le", ["x == E.A", "x != oe", "x == e"]),
         ("ld", ["x > 0.0", "1.0 / x > 0.0", "Integer(x) == i"])]
SEVERITY = ["fatal", "error", "warning"]
SEQ_G = ["j != null", "i != 0", "j == null or j > 0", "r.n != 0",
         "orr != null", "len(l) > 0", "b", "r.m != null", "v == null",
         "i > 0", "false"]
SEQ_R = ["j > 0", "10 / i > 1", "10 / r.n > 1", "i / r.n > 0", "orr.n > 0",
         "l[0] > 0", "r.m > 0", "v.b > 0", "10 / i > r.n", "b", "i > 0",
         "i != 0", "j > r.n"]

# the counter-example has to show this value
EXAMPLES = [r's == "a\"b"', r's == "\""', "s == '''a\nb'''",
            "s == '''a\n\"b'''", 's == "äö"', 's == " a "', r's == "a\nb"',
            's == "tab\tx"', "s == '''a\"b'''",
            "d == -0.125", "d == 0.1", "d == -0.1", "d == 100.0",
            "d == 12.5", "d == -7.0", "d == 0.000001", "d == 1.024",
            "d == 1234567890123456789012.125", "d == 0.0000000000000000000000001",
            "i > -100000000000000000000000000000000000000000",
            "i == 2147483647", "i == 2147483648", "i == -2147483649",
            "i == -2147483648", "i == 5000000000", "d == 2147483648.5",
            "i == -9223372036854775808", "i == -9223372036854775809",
            "i == 9223372036854775807", "i == 9223372036854775808",
            "d == -0.09090909090909090909090909090909090909091", "d * 8.0 == 3.0", "d * 3.0 == 1.0", "i == 100000000000000000000",
            "i == -5", "q.b == 7", "v.a == 5", "v.b == 5", "v.b == null",
            "v == null", "l[0] == -3", "len(l) == 2", "len(ls) == 2",
            'ls[0] == "x"', "e == E.B", "le[0] == E.B", "lb[0]", "not lb[0]",
            "ld[0] == -2.5", "ob == true", "ob == false", "len(s) == 3",
            "lq[0].a == 2", "len(lv) == 2", "len(lq) == 2", "lv[0].b == 2",
            "os != null and len(os) == 1", "oq.a == 4", "n.f.a == 2",
            "n.f.b == null", "n.z == -3"]

# checks which look at a reference, before a fatal check that does not
PHASE = [[["error", "r.n > j"], ["fatal", "j != null"]],
         [["error", "10 / i > r.n"], ["warning", "b"], ["fatal", "i != 0"]],
         [["error", "i / r.n > 0"], ["fatal", "false"]]]

NAME = re.compile(r"(?<![\w.\"])([a-z]+)(?![\w(\"])")


def comps_of(*texts):
    rv = []
    for t in texts:
        for n in NAME.findall(t):
            if n in COMPS and n not in rv:
                rv.append(n)
    return rv


def bounds(tier):
    return {"guards": len(GUARDS), "operations": len(RISKY),
            "connectives": len(CONNECT),
            "pairs": "sharing a component" if tier == "quick" else "all",
            "quantified_bodies": sum(len(b) for _, b in QUANT),
            "check_sequences": "3 severities, 2 layouts x guard x operation"
                               if tier == "quick" else
                               "also three checks, all layouts",
            "ground_tables": len(ground(tier))}


def cases(tier):
    full = tier != "quick"
    for a in GUARDS + RISKY:
        yield {"k": "one", "c": [a, "not (%s)" % a]}
    for g, r in itertools.product(GUARDS, RISKY):
        shared = set(comps_of(g)) & set(comps_of(r))
        if not full and not shared:
            continue
        cons = CONNECT if full or len(comps_of(g, r)) < 3 else CONNECT[:8]
        yield {"k": "pair", "g": g, "r": r, "n": len(cons)}
    for q, (src, bodies) in itertools.product(("forall", "exists"), QUANT):
        for body in bodies:
            e = "(%s x in %s => %s)" % (q, src, body)
            yield {"k": "one", "c": [e, "not " + e, "b and " + e,
                                     "len(%s) > 0 implies %s" % (src, e),
                                     "(if b then %s else true)" % e]}
    for g in EXAMPLES:
        yield {"k": "one", "c": ["(%s) implies j > 0" % g,
                                 "(%s) implies 1 / i > 0" % g]}
    for lay in ("block", "blocks", "base") if full else ("block", "base"):
        for sev in SEVERITY:
            for g, r in itertools.product(SEQ_G, SEQ_R):
                for order in (0, 1):
                    yield {"k": "seq", "lay": lay,
                           "c": [[sev, g], ["error", r]][::1 if order == 0
                                                         else -1]}
    if full:
        for sevs in itertools.product(SEVERITY[:2], repeat=2):
            for g, h, r in itertools.product(SEQ_G, SEQ_G, SEQ_R):
                if g == h or len(comps_of(g, h, r)) > 3:
                    continue
                yield {"k": "seq", "lay": "block",
                       "c": [[sevs[0], g], ["error", r], [sevs[1], h]]}
    for comp in ("i", "j", "d", "od", "ob", "os", "oe", "l", "oq", "v", "r",
                 "orr", "u", "b", "ol"):
        for val in COMPS[comp][1]:
            if val is None:
                continue
            es = [x for x in GUARDS + RISKY
                  if comp in comps_of(x) and len(comps_of(x)) < 3]
            for base in ("", "checked"):
                for part in range(0, len(es), 6):
                    yield {"k": "freeze", "f": comp, "v": val, "base": base,
                           "c": es[part:part + 6]}
    for c in PHASE:
        yield {"k": "seq", "lay": "block", "strict": True, "c": c}
    for g in ground(tier):
        yield {"k": "ground", "comps": g[0], "c": g[1]}


def ground(tier):
    """[components, [(guard, result, object values)]]"""
    full = tier != "quick"
    rv = []
    ints = range(-5, 6) if full else range(-4, 5)

    def add(comps, items):
        for n in range(0, len(items), 40):
            rv.append((comps, items[n:n + 40]))

    items = []
    for a in ints:
        for b in range(-3, 4):
            g = "i == %d and j == %d" % (a, b)
            vals = {"i": str(a), "j": str(b)}
            for op, f in (("+", lambda x, y: [x + y, x - y]),
                          ("-", lambda x, y: [x - y, y - x]),
                          ("*", lambda x, y: [x * y, -x * y]),
                          ("/", lambda x, y: {x // y, -(-x // y)}),
                          ("%", lambda x, y: {x % y, x - y * int(x / y)})):
                if b == 0 and op in "/%":
                    continue
                for c in sorted(set(f(a, b))):
                    items.append(("j != null and %s" % g,
                                  "i %s j == %d" % (op, c), vals))
            for op in ("<", "<=", ">", ">=", "==", "!="):
                if abs(a) < 3:
                    items.append(("j != null and %s" % g, "i %s j" % op,
                                  vals))
    add(["i", "j"], items)
    items = []
    for a in ints:
        vals = {"i": str(a)}
        g = "i == %d" % a
        for c in sorted({abs(a), a, -a}):
            items += [(g, "abs i == %d" % c, vals), (g, "-i == %d" % c, vals),
                      (g, "+i == %d" % c, vals)]
        for e in range(0, 4):
            for c in sorted({a ** e, -a ** e, a * e, a + 1}):
                items.append((g, "i ** %d == %d" % (e, c), vals))
        for lo, hi in itertools.product(range(-2, 3), repeat=2):
            if abs(a) < 4 and (full or (lo + hi) % 2):
                items.append((g, "i in %d .. %d" % (lo, hi), vals))
        for c in (a, a + 1, -a):
            items.append((g, "Decimal(i) == %d.0" % c, vals))
    add(["i"], items)
    items = []
    decs = ["-2.5", "-1.5", "-1.25", "-0.5", "-0.4", "0.0", "0.4", "0.5",
            "0.75", "1.5", "2.0", "2.5"]
    for a in decs:
        vals = {"d": a}
        g = "d == %s" % a
        for c in range(-3, 4):
            items.append((g, "Integer(d) == %d" % c, vals))
        for t in ("abs d == 1.5", "-d == 0.5", "d ** 2 == 2.25",
                  "d ** 0 == 1.0", "d ** 3 < 0.0", "d * 2.0 == 1.0",
                  "d + 0.5 == 0.0", "d - 0.5 == 0.0", "d / 2.0 == 0.75",
                  "1.0 / (d * d + 1.0) < 0.5", "d in -0.5 .. 0.5", "d > 0.4",
                  "d >= 0.4", "d <= -1.25", "d < -1.25", "d != 0.0"):
            items.append((g, t, vals))
    add(["d"], items)
    items = []
    words = ["", "a", "b", "ab", "ba", "aab"]
    for a, c in itertools.product(words, repeat=2):
        vals = {"s": '"%s"' % a, "os": '"%s"' % c}
        g = 's == "%s" and os == "%s" and os != null' % (a, c)
        for t in ("s in os", "os in s", "startswith(s, os)",
                  "startswith(os, s)", "endswith(s, os)", "s == os",
                  "s != os", 's + os == "aab"', 's + os == os + s',
                  "len(s) == 2", "len(s + os) == 3", "len(os) > len(s)"):
            items.append((g.replace(" and os != null", ""),
                          "os != null and " + t, vals))
    add(["s", "os"], items)
    items = []
    for vals in itertools.product(("true", "false"), repeat=3):
        g = " and ".join(n if v == "true" else "not " + n
                         for n, v in zip(("b", "ob", "b3"), vals))
        vs = dict(zip(("b", "ob", "b3"), vals))
        for t in ("b and ob", "b or ob", "b xor ob", "b implies ob",
                  "b == ob", "b != ob", "not b", "oneof(b)", "oneof(b, ob)",
                  "oneof(b, ob, b3)", "oneof(b, ob, b3, true)",
                  "oneof(b, ob, b3, false, b)", "b and (ob or b3)",
                  "b or (ob and b3)", "(b implies ob) implies b3",
                  "b implies (ob implies b3)", "(if b then ob else b3)",
                  "(if b then ob elsif ob then b3 else true)",
                  "b xor (ob xor b3)", "(b xor ob) == b3"):
            items.append((g, t, vs))
    add(["b", "ob", "b3"], [(("ob != null and " + g), t, v)
                            for g, t, v in items])
    items = []
    for val in ("[]", "[0]", "[1]", "[1, 2]", "[2, 1]", "[0, 0]", "[0, 1, 2]"):
        elems = [x for x in val.strip("[]").split(", ") if x]
        g = " and ".join(["len(l) == %u" % len(elems)] +
                         ["l[%u] == %s" % x for x in enumerate(elems)])
        for i in ("0", "1"):
            for t in ("i in l", "(forall x in l => x > 0)",
                      "(exists x in l => x > 0)",
                      "(forall x in l => x == i)",
                      "(exists x in l => x == i)",
                      "(exists x in l => x in i .. 1)",
                      "(forall x in l => oneof(x > 0, i == 0))",
                      "(forall x in l => (if x > 0 then i == 1 else true))",
                      "(exists x in l => x > 0 and i > 0)",
                      "(forall x in l => x > 0 implies i > 0)",
                      "(forall x in l => x in l)",
                      "(exists x in l => len(l) > x)",
                      "len(l) == 2", "len(l) > i"):
                items.append(("i == %s and %s" % (i, g), t,
                              {"l": val, "i": i}))
    add(["l", "i"], items)
    items = []
    for a, c in itertools.product(("E.A", "E.B"), repeat=2):
        for t in ("e == oe", "e != oe", "oe == E.A", "E.A == e",
                  "E.A == E.B", "E.A != E.B"):
            items.append(("e == %s and oe == %s" % (a, c), t,
                          {"e": a, "oe": c}))
    add(["e", "oe"], items)
    items = []
    for a, c in itertools.product(("(1, 0)", "(2, 1)", "(1, 1)"), repeat=2):
        x, y = eval(a), eval(c)        # pylint: disable=eval-used
        g = ("oq != null and q.a == %d and q.b == %d and oq.a == %d and "
             "oq.b == %d" % (x + y))
        for t in ("q == oq", "q != oq", "q.a == oq.a", "q.b == oq.a",
                  "q.a > 0", "q.a > q.b"):
            items.append((g, t, {"q": a, "oq": c}))
    add(["q", "oq"], items)
    items = []
    vvals = [("1", (1, None)), ("1 @ 0", (1, 0)), ("1 @ 1", (1, 1)),
             ("2", (2, None))]
    for (a, x), (c, y) in itertools.product(vvals, repeat=2):
        def fix(n, z):
            return "%s.a == %d and %s" % (
                n, z[0], "%s.b == null" % n if z[1] is None else
                "%s.b == %d" % (n, z[1]))
        g = "v != null and v2 != null and %s and %s" % (fix("v", x),
                                                        fix("v2", y))
        for t in ("v == v2", "v != v2", "v.b == v2.b", "v.b != v2.b",
                  "v.b == null", "v.a == v2.a"):
            items.append((g, t, {"v": a, "v2": c}))
    add(["v", "v2"], items)
    return rv


EXTRA = {"b3": ("Boolean", []), "v2": ("optional V", [])}
FREE = re.compile(r"\b(r|orr|u|ou|us|lr|lq|lv)\b")


class Types:
    """builds the rsl text, remembering on which line each check is"""
    def __init__(self):
        self.lines = DECL.split("\n")[:-1]
        self.checks = {}        # line -> text

    def add(self, line, check=None):
        for part in line.split("\n"):
            self.lines.append(part)
            if check is not None:
                self.checks[len(self.lines)] = check

    def text(self):
        return "\n".join(self.lines) + "\n"


def components(comps):
    return " ".join("%s %s" % (c, (COMPS.get(c) or EXTRA[c])[0])
                    for c in comps)


def objects(typ, comps, fixed=()):
    free = [c for c in comps if c not in fixed]
    rv = []
    for n, vals in enumerate(itertools.product(*[COMPS[c][1]
                                                 for c in free])):
        rv.append("%s %s_o%u { %s }" % (
            typ, typ, n, " ".join("%s = %s" % (c, v)
                                  for c, v in zip(free, vals)
                                  if v is not None)))
    return rv


def bracket(e):
    if re.search(r" (and|or|xor|implies) ", e) and not (
            e.startswith("(") and e.endswith(")")):
        return "(%s)" % e
    return e


def build(case):
    """(Types, object lines)"""
    t = Types()
    objs = []
    kind = case["k"]
    if kind == "pair":
        exprs = [c.replace("R", "@").replace("G", bracket(case["g"]))
                 .replace("@", bracket(case["r"]))
                 for c in CONNECT[:case["n"]]]
    elif kind in ("one", "freeze"):
        exprs = case["c"]
    if kind in ("pair", "one"):
        for n, e in enumerate(exprs):
            comps = comps_of(e)
            t.add("type T%u { %s }" % (n, components(comps)))
            t.add("checks T%u {" % n)
            t.add('  %s, "c%u"' % (e, n), ("T%u" % n, "c%u" % n, e))
            t.add("}")
            objs += objects("T%u" % n, comps)
    elif kind == "freeze":
        for n, e in enumerate(exprs):
            comps = comps_of(e)
            comps = comps + ([] if case["f"] in comps else [case["f"]])
            rest = [c for c in comps if c != case["f"]]
            t.add("type B%u { %s }" % (n, components(comps)))
            on = "T"
            if case["base"]:
                on = "B"
                t.add("checks B%u {" % n)
                t.add('  %s, fatal "c%u"' % (e, n), ("B%u" % n, "c%u" % n, e))
                t.add("}")
            t.add("type T%u extends B%u { freeze %s = %s }" %
                  (n, n, case["f"], case["v"]))
            if not case["base"]:
                t.add("checks T%u {" % n)
                t.add('  %s, "c%u"' % (e, n), ("T%u" % n, "c%u" % n, e))
                t.add("}")
            objs += objects("T%u" % n, rest)
            if on == "B":
                objs += objects("B%u" % n, comps)
    elif kind == "seq":
        comps = comps_of(*[e for _, e in case["c"]])
        t.add("type B { %s }" % components(comps))
        top = "B"
        if case["lay"] == "base":
            t.add("type T extends B { }")
            top = "T"
        cur = "B"
        t.add("checks B {")
        for n, (sev, e) in enumerate(case["c"]):
            if n == len(case["c"]) - 1 and case["lay"] != "block":
                t.add("}")
                cur = top
                t.add("checks %s {" % cur)
            t.add('  %s, %s "c%u"' % (e, sev if sev != "error" else "", n),
                  (cur, "c%u" % n, e))
        t.add("}")
        objs += objects(top, comps)
    elif kind == "ground":
        t.add("type T { %s }" % components(case["comps"]))
        t.add("checks T {")
        n = 0
        vals = []
        for g, e, v in case["c"]:
            for what in (e, "not (%s)" % e):
                # warnings: every check is evaluated for every object
                t.add('  (%s) implies (%s), warning "c%u"' % (g, what, n),
                      ("T", "c%u" % n, "(%s) implies (%s)" % (g, what)))
                n += 1
            if v not in vals:
                vals.append(v)
        t.add("}")
        for k, v in enumerate(vals):
            objs.append("T o%u { %s }" % (k, " ".join("%s = %s" % x
                                                      for x in v.items())))
    return t, objs


def problem(m):
    """the category of problem which the static analysis should report"""
    if "division by zero" in m.text:
        return "vcg-div-by-zero"
    if re.search("array is|index can", m.text):
        return "vcg-array-index"
    return "vcg-evaluation-of-null"


def judge(case):
    t, objs = build(case)
    rsl = t.text()
    v = drv.run({"a.rsl": rsl}, lint=True, verify=True)
    states = len(objs) + len(t.checks)
    nchk = len(t.checks)

    def bad(text, sig):
        if case.get("strict"):
            sig += ": " + ", ".join("%s %s" % tuple(c) for c in case["c"])
        return Verdict("bad", "%s\n%s" % (text, rsl[len(DECL):]), sig,
                       states, len(objs) * nchk, 2)
    if v.crash:
        return bad("verification fails internally: %s" % v.crash,
                   "crash:" + v.crash.split(":")[0])
    if not v.ok:
        return bad("rejected: %s" % v.msgs[:2], "rejected")
    w = drv.run({"a.rsl": rsl, "a.trlc": OBJECTS + "\n".join(objs) + "\n"},
                lint=False)
    if w.crash:
        return bad("evaluation fails internally: %s" % w.crash, "evalcrash")
    flagged, claimed, exempt = {}, set(), False
    nclaim = 0
    for m in v.msgs:
        cat = m.category or ""
        if "not yet supported" in m.text:
            exempt = True
        elif cat == "vcg-always-true":
            claimed.add((m.line, m.col))
            nclaim += 1
        elif cat.startswith("vcg-"):
            flagged.setdefault(m.line, []).append(m)
    failed, errors, phase = set(), {}, False
    for m in w.msgs:
        if m.kind in ("USER_ERROR", "USER_WARNING"):
            failed.add(m.text)
        elif m.kind == "SYS_ERROR":
            errors.setdefault((where(m, t), problem(m)), m)
    if not exempt:
        for (line, prob), m in errors.items():
            if line not in t.checks:
                return bad("unexpected error %s" % m, "eval")
            reported = any(f.category == prob for f in flagged.get(line, []))
            if not reported and case["k"] == "seq" and \
               not case.get("strict") and documented_order(case, t, line):
                phase = True
            elif not reported:
                return bad("no problem reported for %s, but its evaluation "
                           "may fail: %s" % (t.checks[line][2], m), "missed")
    for line, _ in claimed:
        if line not in t.checks:
            return bad("claim about nothing in line %s" % line, "claim")
        if t.checks[line][1] in failed and case["k"] == "seq" and \
           not case.get("strict") and documented_order(case, t, line, True):
            phase = True
        elif t.checks[line][1] in failed and case["k"] != "freeze":
            return bad("%s is said to be always true, but it is false for "
                       "some objects" % t.checks[line][2], "claim")
    nex = 0
    for line, ms in flagged.items():
        for m in ms:
            res = replay_example(rsl, t, line, m)
            if res == "skip":
                continue
            nex += 1
            if res:
                return bad("counter-example for %s does not trigger it: %s\n"
                           "%s" % (t.checks.get(line), res, m.extra),
                           "example")
    out = "%s:%u/%u flagged%s%s%s%s" % (
        case["k"], min(len(flagged), 5), min(len(errors), 5),
        " claims" if nclaim else "", " exempt" if exempt else "",
        " examples" if nex else "", " phase" if phase else "")
    return Verdict(out, None, None, states, len(objs) * nchk, 2 + nex)


DEREF = re.compile(r"\b(r|orr|u|ou|us|lr)\b(\[\w+\])?\.|x\.[a-z]+")


def documented_order(case, t, line, failing=False):
    """the verification documents that it looks at checks which dereference
    a reference after all others of the type; is it impossible in that order
    that the check in this line cannot be evaluated (or is false)?"""
    label = t.checks[line][1]
    chks = [(sev, e, "c%u" % n) for n, (sev, e) in enumerate(case["c"])]
    chks.sort(key=lambda c: bool(DEREF.search(c[1])))
    alt = Types()
    comps = comps_of(*[e for _, e in case["c"]])
    alt.add("type B { %s }" % components(comps))
    alt.add("checks B {")
    for sev, e, lab in chks:
        alt.add('  %s, %s "%s"' % (e, sev if sev != "error" else "", lab),
                ("B", lab, e))
    alt.add("}")
    w = drv.run({"a.rsl": alt.text(),
                 "a.trlc": OBJECTS + "\n".join(objects("B", comps)) + "\n"},
                lint=False)
    if failing:
        return not w.crash and not any(
            m.text == label and m.kind.startswith("USER") for m in w.msgs)
    lines = {where(m, alt) for m in w.errors() if m.kind == "SYS_ERROR"}
    return not w.crash and label not in {alt.checks[n][1] for n in lines
                                         if n in alt.checks}


WHERE = re.compile(r"\(.*a\.rsl:(\d+)\)")


def where(m, t):
    """line of the check whose evaluation failed"""
    x = WHERE.search(m.text)
    if x:
        return int(x.group(1))
    return m.line if m.file == "a.rsl" else None


EXAMPLE = re.compile(r"  (\w+) bad_potato (\{.*)\Z", re.S)


def replay_example(rsl, t, line, m):
    if not m.extra or "unreliable" in m.extra or "unable" in m.extra or \
       "???" in m.extra or " / " in m.extra or line not in t.checks:
        return "skip"
    x = EXAMPLE.search(m.extra)
    if not x:
        return "skip"
    expr = t.checks[line][2]
    typ = x.group(1)
    decl = [s for s in t.lines if s.startswith("type %s " % typ)][0]
    if FREE.search(decl) or "matches" in "\n".join(t.lines) or \
       "extends" in decl or FREE.search(expr):
        return "skip"
    obj = "%s bad_potato %s" % (typ, x.group(2))
    if len(t.checks) > 2:
        # only this type, in the same lines
        keep, on = t.lines[:DECL_LINES], False
        for text in t.lines[DECL_LINES:]:
            on = on or text.startswith(("type %s " % typ, "checks %s " % typ))
            keep.append(text if on else "")
            if text == "}" or text.startswith("type "):
                on = False
        rsl = "\n".join(keep) + "\n"
    r = drv.run({"a.rsl": rsl, "a.trlc": "package P\n" + obj + "\n"},
                lint=False)
    if r.crash:
        return "internal failure " + r.crash
    lines = [where(e, t) for e in r.errors() if e.kind == "SYS_ERROR"]
    if line in lines:
        return None
    return "%s" % (r.msgs[:3],)
