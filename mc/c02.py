"""C02: check expressions are grouped as the grammar demands.

All token sequences over several alphabets are explored as a tree: a
sequence is extended as long as the reference LL(1) recogniser says that it
can still become an expression. Every sequence reached - complete, cut short
or ended by a token which cannot follow - is given to the implementation. It
has to accept exactly the complete and well typed ones, and these have to
evaluate, for a set of values chosen to tell groupings apart, to the value
of the reference tree."""
import functools
import itertools
from fractions import Fraction as F

from . import drv
from . import exprmodel as M
from . import exprrun
from . import exprworld as W
from .core import Verdict, neighbours
from .exprspaces import observe_as, typ_default

PID = "C02"
CASE_LIMIT = 300
ASSUMPTIONS = [
    "grouping is observed through the values of the expressions for a few "
    "assignments of distinct values",
    "tokens are separated by blanks (tokenisation is C01)",
]

COMPS = ["a", "b", "c", "d", "p", "q", "r", "s", "ai", "tg", "r1", "resi",
         "resn", "resd", "ress"]
HEAD = W.head(COMPS)
CTX = {
    "a": [-3, 2, 0, 5], "b": [4, -3, 1, 5], "c": [-2, 3, 1, -7],
    "d": [F("0.5"), F(-2), F(0), F(3)],
    "p": [True, False, False, True], "q": [False, True, False, True],
    "r": [False, True, True, False], "s": ["ab", "a", "", "b"],
    "ai": [("A", [1, 5]), ("A", [-3, 2]), ("A", []), ("A", [5])],
    "tg": [("T", "TG", {"x": 1, "y": "a"}),
           ("T", "TG", {"x": 2, "y": ""})] * 2,
    "r1": [("ref", "o1"), ("ref", "o2")] * 2,
}
CTX4 = [{c: v[k] for c, v in CTX.items()} for k in range(4)]
# all values of three Booleans
CTX8 = [dict(CTX4[0], p=x, q=y, r=z)
        for x, y, z in itertools.product((True, False), repeat=3)]

ALPHABETS = {
    "arith": ["a", "2", "+", "-", "*", "**", "==", "<", "(", ")"],
    "arith2": ["a", "b", "-", "/", "%", "abs", "(", ")", "!="],
    "range": ["a", "b", "in", "not", "..", "+", "ai", "(", ")", "<"],
    "logic": ["p", "q", "and", "or", "xor", "not", "(", ")"],
    "logic2": ["p", "true", "and", "implies", "xor", "==", "(", ")"],
    "logic3": ["a", "b", "p", "==", "!=", "and", "or", "implies"],
    "name": ["tg", "r1", "ai", ".", "x", "v", "[", "]", "1", "==", "next"],
    "call": ["len", "ai", "s", "oneof", "p", "(", ")", ",", "<", "2"],
    "call2": ["startswith", "Integer", "s", "d", "(", ")", ",", "==", "+",
              '"a"'],
    "cond": ["(", ")", "if", "then", "elsif", "else", "p", "q", "and"],
    "quant": ["(", ")", "forall", "exists", "i", "in", "ai", "=>", "p", "a",
              "<"],
    "enum": ["E1", "P", ".", "A", "a", "==", "(", ")"],
}
NEAR = {"arith": 4, "arith2": 4, "range": 4, "logic": 3, "logic2": 4,
        "logic3": 4, "name": 6, "call": 6, "call2": 6, "cond": 8, "quant": 9,
        "enum": 6}
DEPTH = {
    "quick": {"arith": 5, "arith2": 5, "range": 5, "logic": 6, "logic2": 6,
              "logic3": 6, "name": 6, "call": 6, "call2": 6, "cond": 8,
              "quant": 9, "enum": 6},
    "thorough": {"arith": 7, "arith2": 7, "range": 7, "logic": 8,
                 "logic2": 8, "logic3": 8, "name": 8, "call": 8, "call2": 8,
                 "cond": 10, "quant": 11, "enum": 8},
}
BINOPS = ["and", "or", "xor", "implies", "==", "!=", "<", "<=", ">", ">=",
          "+", "-", "*", "/", "%", "**", "in"]
UNOPS = [None, "-", "+", "not", "abs"]


@functools.lru_cache(5000)
def mini_head(comps, enum):
    """Only what the tokens mention"""
    if "r1" in comps:
        return W.head(comps)
    rv = "package P\n"
    if "tg" in comps:
        rv += "tuple TG { x Integer y String }\n"
    if enum:
        rv += "enum E1 { A B }\n"
    return rv + "type T { %s }\n" % " ".join(
        "%s optional %s" % (c, W.type_text(W.TCOMPS[c])) for c in COMPS
        if c in comps)


def bounds(tier):
    return {"alphabets": ALPHABETS, "length": DEPTH[tier],
            "operator_chains": "3 operands, all operators, all unary "
            "operators before " +
            ("each operand" if tier == "thorough" else "one operand") +
            ("; 4 operands" if tier == "thorough" else "")}


def cases(tier):
    for name, alpha in ALPHABETS.items():
        # longest first, so that the load is even
        for x in alpha:
            yield ["dfs", name, DEPTH[tier][name], [x], 0]
            for y in alpha:
                for z in alpha:
                    yield ["dfs", name, DEPTH[tier][name], [x, y, z],
                           0 if tier == "quick" else 1]
        for x in alpha:
            for y in alpha:
                yield ["leaf", name, 2, [x, y]]
    for o1 in BINOPS:
        for o2 in BINOPS:
            yield ["chain3", o1, o2, tier == "thorough"]
    for rest in ("paren", "rangechain"):
        for o1 in BINOPS:
            yield [rest, o1]
    if tier == "thorough":
        for o1 in BINOPS:
            for o2 in BINOPS:
                yield ["chain4", o1, o2]


def status(tokens):
    """("ok", ast) | ("prefix",) | ("bad",) - bad: already the tokens before
    the last one cannot be continued by it"""
    try:
        return ("ok", M.RefParser(tokens, ("E1", "E2")).parse())
    except M.Syntax as exc:
        if exc.pos >= len(tokens):
            return ("prefix", None)
        return ("bad", exc.pos)


def viable(tokens):
    return status(tokens)[0] != "bad"


class Batch:
    def __init__(self):
        self.items = []
        self.bad = []
        self.seen = set()
        self.good = []
        self.states = 0
        self.nexec = 0
        self.accepted = 0
        self.rejected = 0

    def sequence(self, tokens, st):
        self.states += 1
        if tokens and st[0] == "ok":
            e = st[1]
            try:
                typ = M.typecheck(W.WORLD, e)
            except M.TypeErr:
                return self.reject(tokens)
            if typ is None or isinstance(typ, tuple) or typ == "mark":
                if typ != "bool":
                    self.reject(tokens)
                return
            if typ != "bool":
                self.reject(tokens)
            self.accept(tokens, e, typ)
        else:
            self.reject(tokens)

    def reject(self, tokens):
        text = " ".join(tokens)
        self.rejected += 1
        self.nexec += 1
        r = drv.run(W.files(mini_head(
            frozenset(t for t in tokens if t in W.TCOMPS),
            "E1" in tokens) + "checks T { %s, \"m\" }\n" % text))
        if r.crash:
            self.bad.append((text, "", "reject", "crash: " + r.crash))
        elif r.stab is not None or \
                not any(m.kind == "SYS_ERROR" for m in r.msgs):
            self.bad.append((text, "", "reject", "accepted"))

    def accept(self, tokens, e, typ):
        self.accepted += 1
        chk, res = observe_as(typ, e)
        text = " ".join(tokens)
        if typ == "int":
            text = "( %s ) == resi" % text
        elif typ == "str":
            text = "( %s ) == ress" % text
        elif typ == "dec":
            text = "( %s ) * resd == resn" % text
        ctxs = CTX8 if all(c not in tokens for c in "abc") else CTX4
        bs = []
        for ctx in ctxs:
            full = W.full(ctx)
            v = M.verdict(W.WORLD, e, full, W.OBJS)
            if res is None:
                bs.append((W.body(ctx), v))
            elif v == "err":
                extra = res(typ_default(typ))
                exp = M.verdict(W.WORLD, chk, dict(full, **extra), W.OBJS)
                bs.append((W.body(dict(ctx, **extra)), exp))
            else:
                bs.append((W.body(dict(ctx, **res(v))), True))
        self.nexec += len(bs)
        self.items.append((text, bs))
        if len(self.items) >= 60:
            self.flush()

    def flush(self):
        if self.items:
            self.bad += exprrun.compare(HEAD, W.HEAD_OBJS, self.items)
            self.items = []

    def near(self, alpha, longest):
        """what differs in one token from short syntactically right ones:
        the exploration stops at the first token which does not fit"""
        for tokens in self.good:
            if len(tokens) > longest:
                continue
            for x in neighbours(tokens, 0, alpha):
                key = " ".join(x)
                if key not in self.seen and len(self.bad) < 5:
                    st = status(x)
                    if st[0] == "bad" and st[1] < len(x) - 1 and \
                       not x[st[1]:st[1] + 2] == [",", '"a"']:
                        # (a comma and a string would be the check's message)
                        self.seen.add(key)
                        self.sequence(x, st)

    def explore(self, alpha, tokens, depth):
        st = status(tokens)
        if st[0] == "ok":
            self.good.append(tokens)
        self.sequence(tokens, st)
        if len(self.bad) >= 5 or st[0] == "bad" or len(tokens) >= depth:
            return
        for x in alpha:
            self.explore(alpha, tokens + [x], depth)


def judge(case):
    b = Batch()
    kind = case[0]
    if kind == "dfs":
        _, name, depth, prefix = case[:4]
        if len(prefix) == 1:
            b.sequence(prefix, status(prefix))
            if viable(prefix):
                # with a good one of two or three tokens
                for rest in [[]] + [[x] for x in ALPHABETS[name]]:
                    if status(prefix + rest)[0] == "ok":
                        b.good.append(prefix + rest)
                b.near(ALPHABETS[name], 9)
        elif viable(prefix[:1]) and viable(prefix[:2]):
            b.explore(ALPHABETS[name], prefix, depth)
            b.near(ALPHABETS[name], NEAR[name] + case[4])
    elif kind == "leaf":
        if viable(case[3][:1]):
            b.sequence(case[3], status(case[3]))
    elif kind == "chain3":
        for ops in itertools.product(UNOPS, repeat=3):
            if not case[3] and ops.count(None) < 2:
                continue
            for ty in itertools.product("ip", repeat=3):
                b_chain(b, ops, ty, case[1:3])
    elif kind == "chain4":
        for o3 in BINOPS:
            for ty in itertools.product("ip", repeat=4):
                b_chain(b, [None] * 4, ty, case[1:] + [o3])
    elif kind == "paren":
        # explicit parentheses around each part
        for o2 in BINOPS:
            for ty in itertools.product("ip", repeat=3):
                x, y, z = operands(ty)
                o1 = case[1]
                for t in (["(", x, o1, y, ")", o2, z],
                          [x, o1, "(", y, o2, z, ")"],
                          ["not", "(", x, o1, y, ")", o2, z],
                          ["-", "(", x, o1, y, ")", o2, z],
                          [x, o1, "-", "(", y, o2, z, ")"],
                          [x, o1, "(", "-", y, ")", o2, z],
                          [x, o1, "(", "not", y, ")", o2, z],
                          [x, o1, "not", "(", y, o2, z, ")"],
                          ["abs", "(", x, o1, y, ")", o2, z]):
                    b.sequence(t, status(t))
    else:
        # range tests between other operators
        o1 = case[1]
        for nt in ([], ["not"]):
            for t in (["a", o1, "b"] + nt + ["in", "a", "..", "c"],
                      ["p", o1, "b"] + nt + ["in", "a", "..", "c"],
                      ["b"] + nt + ["in", "a", "..", "c", o1, "a"],
                      ["b"] + nt + ["in", "a", "..", "c", o1, "p"],
                      ["b"] + nt + ["in", "a", o1, "c", "..", "c"],
                      ["b"] + nt + ["in", "-", "a", "..", "-", "c"],
                      ["b"] + nt + ["in", "a", "..", "b", "..", "c"],
                      ["b"] + nt + ["in", "ai", o1, "p"],
                      ["p", o1, "b"] + nt + ["in", "ai"],
                      ["b", o1, "c"] + nt + ["in", "ai"],
                      ["s"] + nt + ["in", "s", o1, "s"],
                      ["s", o1, "s"] + nt + ["in", "s"],
                      ["not", "b"] + nt + ["in", "ai"],
                      ["not", "(", "b"] + nt + ["in", "ai", ")"]):
                b.sequence(t, status(t))
    b.flush()
    out = "%s:%s" % (kind, "agree" if not b.bad else "differ")
    if not b.bad:
        return Verdict(out, None, None, b.states, b.states, b.nexec)
    return Verdict(out, "\n".join(
        "%s %s: language says %s, implementation %s" %
        (t, ("on { %s }" % body) if body else "", x, g)
        for t, body, x, g in b.bad[:6]), "%s" % b.bad[0][0], b.states,
        b.states, b.nexec)


def operands(ty):
    ints = iter("abcb")
    bools = iter("pqrp")
    return [next(ints) if t == "i" else next(bools) for t in ty]


def b_chain(b, unops, ty, ops):
    xs = operands(ty)
    tokens = []
    for k, x in enumerate(xs):
        if k:
            tokens.append(ops[k - 1])
        if unops[k]:
            tokens.append(unops[k])
        tokens.append("2" if k and ops[k - 1] == "**" and x in "abc"
                      else "ai" if k and ops[k - 1] == "in" and x in "abc"
                      else x)
    b.sequence(tokens, status(tokens))
