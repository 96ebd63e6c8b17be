"""Reference model of TRLC check expressions.

Written from the language reference manual: a token level parser for the
expression grammar, a type checker and an evaluator. Nothing is imported
from the implementation.

AST (nested tuples):
  ("int", n) ("dec", Fraction) ("str", s) ("bool", b) ("null",)
  ("name", n) ("enum", E, lit) ("fld", prefix, f) ("idx", prefix, e)
  ("un", op, e) ("bin", op, a, b) ("range", neg, x, lo, hi)
  ("in", neg, x, y) ("call", fn, args) ("if", ((c, e), ...), else)
  ("q", "forall"|"exists", var, comp, body)

Types: "int" "dec" "bool" "str" "mark", ("enum", n), ("tuple", n),
  ("rec", n), ("union", (n, ...), decl_id), ("arr", decl_id, elem, lo, hi)
  and None for null. Union and array types are anonymous: each declaration
  is a type of its own.

Values: int, Fraction, bool, str, ("E", enum, lit), ("T", name, {f: v}),
  ("ref", obj), ("A", [v...]) and None.
"""
from fractions import Fraction
import re


class Syntax(Exception):
    def __init__(self, pos):
        super().__init__()
        self.pos = pos


class TypeErr(Exception):
    pass


class EvalErr(Exception):
    pass


class World:
    """enums: {name: [lit]}; tuples: {name: {field: type}};
    records: {name: (parent|None, {comp: type})}; this: name of the type
    the check is for (a record or tuple)"""

    def __init__(self, enums, tuples, records, this, package="P"):
        self.enums = enums
        self.tuples = tuples
        self.records = records
        self.this = this
        self.package = package

    def comps(self, rec):
        if rec in self.tuples:
            return self.tuples[rec]
        parent, own = self.records[rec]
        rv = dict(self.comps(parent)) if parent else {}
        rv.update(own)
        return rv

    def is_sub(self, a, b):
        while a is not None:
            if a == b:
                return True
            a = self.records[a][0]
        return False


NUM = ("int", "dec")
BUILTINS = {"len": (1, 1), "startswith": (2, 2), "endswith": (2, 2),
            "matches": (2, 2), "oneof": (1, None),
            "Integer": (1, 1), "Decimal": (1, 1)}
KEYWORDS = {"and", "or", "xor", "implies", "not", "in", "abs", "null", "true",
            "false", "if", "then", "elsif", "else", "forall", "exists"}
CMP = ("==", "!=", "<", "<=", ">", ">=")


# --------------------------------------------------------------------------
# Grammar
# --------------------------------------------------------------------------

IDENT = re.compile(r"[A-Za-z][A-Za-z0-9_]*$")


class RefParser:
    """LL(1) recogniser of the expression grammar. Tokens are strings as
    written. Syntax.pos is the first token which cannot continue any
    sentence (== len(tokens): a proper prefix of one)"""

    def __init__(self, tokens, enums=()):
        self.t = tokens
        self.i = 0
        self.enums = enums

    def nt(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def err(self):
        raise Syntax(self.i)

    def eat(self, s):
        if self.nt() != s:
            self.err()
        self.i += 1

    def ident(self):
        s = self.nt()
        if s is None or not IDENT.match(s) or s in KEYWORDS:
            self.err()
        self.i += 1
        return s

    def parse(self):
        e = self.expression()
        if self.i != len(self.t):
            self.err()
        return e

    def expression(self):
        e = self.relation()
        op = self.nt()
        if op in ("and", "or"):
            while self.nt() == op:
                self.eat(op)
                e = ("bin", op, e, self.relation())
        elif op in ("xor", "implies"):
            self.eat(op)
            e = ("bin", op, e, self.relation())
        return e

    def relation(self):
        e = self.simple()
        s = self.nt()
        if s in CMP:
            self.eat(s)
            return ("bin", s, e, self.simple())
        if s in ("not", "in"):
            neg = s == "not"
            if neg:
                self.eat("not")
            self.eat("in")
            a = self.simple()
            if self.nt() == "..":
                self.eat("..")
                return ("range", neg, e, a, self.simple())
            return ("in", neg, e, a)
        return e

    def simple(self):
        un = None
        if self.nt() in ("+", "-"):
            un = self.nt()
            self.eat(un)
        e = self.term()
        if un:
            e = ("un", un, e)
        while self.nt() in ("+", "-"):
            op = self.nt()
            self.eat(op)
            e = ("bin", op, e, self.term())
        return e

    def term(self):
        e = self.factor()
        while self.nt() in ("*", "/", "%"):
            op = self.nt()
            self.eat(op)
            e = ("bin", op, e, self.factor())
        return e

    def factor(self):
        s = self.nt()
        if s in ("not", "abs"):
            self.eat(s)
            return ("un", s, self.primary())
        e = self.primary()
        if self.nt() == "**":
            self.eat("**")
            e = ("bin", "**", e, self.primary())
        return e

    def primary(self):
        s = self.nt()
        if s is None:
            self.err()
        if s[0] == '"':
            self.i += 1
            return ("str", s[1:-1])
        if s[0].isdigit():
            self.i += 1
            if "." in s:
                return ("dec", Fraction(s))
            return ("int", int(s))
        if s in ("true", "false"):
            self.i += 1
            return ("bool", s == "true")
        if s == "null":
            self.i += 1
            return ("null",)
        if s == "(":
            self.eat("(")
            if self.nt() in ("forall", "exists"):
                k = self.nt()
                self.eat(k)
                var = self.ident()
                self.eat("in")
                comp = self.ident()
                self.eat("=>")
                e = ("q", k, var, comp, self.expression())
            elif self.nt() == "if":
                self.eat("if")
                acts = []
                c = self.expression()
                self.eat("then")
                acts.append((c, self.expression()))
                while self.nt() == "elsif":
                    self.eat("elsif")
                    c = self.expression()
                    self.eat("then")
                    acts.append((c, self.expression()))
                self.eat("else")
                e = ("if", tuple(acts), self.expression())
            else:
                e = self.expression()
            self.eat(")")
            return e
        return self.name()

    def name(self):
        n = self.ident()
        if n in BUILTINS:
            self.eat("(")
            args = [self.expression()]
            while self.nt() == ",":
                self.eat(",")
                args.append(self.expression())
            self.eat(")")
            return ("call", n, tuple(args))
        if self.nt() == "(":
            self.err()
        if n in self.enums:
            self.eat(".")
            return ("enum", n, self.ident())
        e = ("name", n)
        while self.nt() in (".", "["):
            if self.nt() == ".":
                self.eat(".")
                e = ("fld", e, self.ident())
            else:
                self.eat("[")
                x = self.expression()
                self.eat("]")
                e = ("idx", e, x)
        return e


# --------------------------------------------------------------------------
# Printing
# --------------------------------------------------------------------------

def show(e, top=False):
    """Fully parenthesised text"""
    k = e[0]
    if k == "int":
        return str(e[1])
    if k == "dec":
        d = e[1]
        return show_dec(d)
    if k == "str":
        return '"%s"' % e[1].replace('"', '\\"')
    if k == "bool":
        return "true" if e[1] else "false"
    if k == "null":
        return "null"
    if k == "name":
        return e[1]
    if k == "enum":
        return "%s.%s" % (e[1], e[2])
    if k == "fld":
        return "%s.%s" % (show(e[1]), e[2])
    if k == "idx":
        return "%s[%s]" % (show(e[1]), show(e[2], True))
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(show(a, True) for a in e[2]))
    if k == "if":
        rv = "(if " + show(e[1][0][0], True) + " then " + \
            show(e[1][0][1], True)
        for c, x in e[1][1:]:
            rv += " elsif " + show(c, True) + " then " + show(x, True)
        return rv + " else " + show(e[2], True) + ")"
    if k == "q":
        return "(%s %s in %s => %s)" % (e[1], e[2], e[3], show(e[4], True))
    if k == "un":
        rv = "%s %s" % (e[1], show(e[2]))
    elif k == "bin":
        rv = "%s %s %s" % (show(e[2]), e[1], show(e[3]))
    elif k == "range":
        rv = "%s %s %s .. %s" % (show(e[2]), "not in" if e[1] else "in",
                                 show(e[3]), show(e[4]))
    elif k == "in":
        rv = "%s %s %s" % (show(e[2]), "not in" if e[1] else "in",
                           show(e[3]))
    else:
        raise AssertionError(k)
    return rv if top else "(" + rv + ")"


def show_dec(d):
    # only used for decimals with a finite decimal expansion
    den = d.denominator
    k = 0
    while den % 10 == 0:
        den //= 10
        k += 1
    while (10 ** k) % d.denominator:
        k += 1
    k = max(k, 1)
    n = abs(d) * 10 ** k
    assert n.denominator == 1
    s = str(n.numerator).rjust(k + 1, "0")
    return s[:-k] + "." + s[-k:]


def show_value(v):
    """TRLC file syntax of a model value; None cannot be written"""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        return ("-" if v < 0 else "") + show_dec(v)
    if isinstance(v, str):
        return '"%s"' % v.replace('"', '\\"')
    if v[0] == "E":
        return "%s.%s" % (v[1], v[2])
    if v[0] == "ref":
        return v[1]
    if v[0] == "A":
        return "[%s]" % ", ".join(show_value(x) for x in v[1])
    if v[0] == "T":
        form = v[3] if len(v) > 3 else None
        if form is None:
            return "(%s)" % ", ".join(show_value(x) for x in v[2].values())
        out = ""
        for i, (f, x) in enumerate(v[2].items()):
            if x is None:
                break
            if i:
                out += " %s " % form
            out += show_value(x)
        return out
    raise AssertionError(v)


# --------------------------------------------------------------------------
# Types
# --------------------------------------------------------------------------

def is_str(t):
    return t in ("str", "mark")


def reclike(t):
    return isinstance(t, tuple) and t[0] in ("rec", "union")


def members(t):
    return (t[1],) if t[0] == "rec" else t[1]


def related(w, a, b):
    return any(w.is_sub(x, y) or w.is_sub(y, x)
               for x in members(a) for y in members(b))


def same_type(a, b):
    return a == b


def union_field(w, t, f):
    """Type of a field of a union, or None"""
    rv = []
    for m in members(t):
        c = w.comps(m)
        if f in c:
            rv.append(c[f])
    if not rv or any(not same_type(x, rv[0]) for x in rv):
        raise TypeErr()
    return rv[0]


def typecheck(w, e, env=None):
    """Type of the expression (None for null) or raises TypeErr"""
    env = env or {}
    k = e[0]
    if k in ("int", "dec", "str", "bool"):
        return k
    if k == "null":
        return None
    if k == "enum":
        if e[1] not in w.enums or e[2] not in w.enums[e[1]]:
            raise TypeErr()
        return ("enum", e[1])
    if k == "name":
        if e[1] in env:
            return env[e[1]]
        c = w.comps(w.this)
        if e[1] not in c:
            raise TypeErr()
        return c[e[1]]
    if k == "fld":
        p = typecheck(w, e[1], env)
        if not isinstance(p, tuple):
            raise TypeErr()
        if p[0] == "union":
            return union_field(w, p, e[2])
        if p[0] in ("rec", "tuple"):
            c = w.comps(p[1])
            if e[2] not in c:
                raise TypeErr()
            return c[e[2]]
        raise TypeErr()
    if k == "idx":
        p = typecheck(w, e[1], env)
        if not (isinstance(p, tuple) and p[0] == "arr"):
            raise TypeErr()
        if typecheck(w, e[2], env) != "int":
            raise TypeErr()
        return p[2]
    if k == "un":
        t = typecheck(w, e[2], env)
        if e[1] == "not":
            if t != "bool":
                raise TypeErr()
        elif t not in NUM:
            raise TypeErr()
        return t
    if k == "bin":
        op = e[1]
        a = typecheck(w, e[2], env)
        b = typecheck(w, e[3], env)
        if op in ("and", "or", "xor", "implies"):
            if a != "bool" or b != "bool":
                raise TypeErr()
            return "bool"
        if op in ("==", "!="):
            if a is None or b is None:
                return "bool"
            if reclike(a) and reclike(b):
                if not related(w, a, b):
                    raise TypeErr()
                return "bool"
            if not same_type(a, b):
                raise TypeErr()
            return "bool"
        if op in ("<", "<=", ">", ">="):
            if a not in NUM or a != b:
                raise TypeErr()
            return "bool"
        if op == "+" and is_str(a) and is_str(b):
            return "str"
        if op in ("+", "-", "*", "/"):
            if a not in NUM or a != b:
                raise TypeErr()
            return a
        if op == "%":
            if a != "int" or b != "int":
                raise TypeErr()
            return a
        if op == "**":
            if a not in NUM or b != "int":
                raise TypeErr()
            try:
                v = evaluate(w, e[3], None, None)
            except EvalErr as exc:
                raise TypeErr() from exc
            if v < 0:
                raise TypeErr()
            return a
        raise AssertionError(op)
    if k == "range":
        a, b, c = (typecheck(w, x, env) for x in e[2:])
        if a not in NUM or a != b or a != c:
            raise TypeErr()
        return "bool"
    if k == "in":
        a = typecheck(w, e[2], env)
        b = typecheck(w, e[3], env)
        if is_str(b):
            if not is_str(a):
                raise TypeErr()
            return "bool"
        if isinstance(b, tuple) and b[0] == "arr":
            el = b[2]
            if reclike(a) and reclike(el):
                if not related(w, a, el):
                    raise TypeErr()
            elif el == "str":
                if not is_str(a):
                    raise TypeErr()
            elif a is None or not same_type(a, el):
                raise TypeErr()
            return "bool"
        raise TypeErr()
    if k == "call":
        fn = e[1]
        args = [typecheck(w, x, env) for x in e[2]]
        lo, hi = BUILTINS[fn]
        if len(args) < lo or (hi is not None and len(args) > hi):
            raise TypeErr()
        if fn == "len":
            if not (is_str(args[0]) or
                    (isinstance(args[0], tuple) and args[0][0] == "arr")):
                raise TypeErr()
            return "int"
        if fn in ("startswith", "endswith", "matches"):
            if not all(map(is_str, args)):
                raise TypeErr()
            if fn == "matches":
                try:
                    re.compile(evaluate(w, e[2][1], None, None))
                except (re.error, EvalErr) as exc:
                    raise TypeErr() from exc
            return "bool"
        if fn == "oneof":
            if any(a != "bool" for a in args):
                raise TypeErr()
            return "bool"
        if args[0] not in NUM:
            raise TypeErr()
        return "int" if fn == "Integer" else "dec"
    if k == "if":
        rv = None
        for i, (c, x) in enumerate(e[1]):
            if typecheck(w, c, env) != "bool":
                raise TypeErr()
            t = typecheck(w, x, env)
            if t is None or (i and not same_type(t, rv)):
                raise TypeErr()
            rv = t if not i else rv
        t = typecheck(w, e[2], env)
        if t is None or not same_type(t, rv):
            raise TypeErr()
        return rv
    if k == "q":
        c = w.comps(w.this)
        if e[2] in env or e[2] in c or e[2] in BUILTINS or \
           e[2] in w.enums or e[2] in w.tuples or e[2] in w.records or \
           e[2] == w.package:
            raise TypeErr()
        if e[3] in env or e[3] not in c:
            raise TypeErr()
        t = c[e[3]]
        if not (isinstance(t, tuple) and t[0] == "arr"):
            raise TypeErr()
        sub = dict(env)
        sub[e[2]] = t[2]
        if typecheck(w, e[4], sub) != "bool":
            raise TypeErr()
        return "bool"
    raise AssertionError(k)


def check_ok(w, e):
    """Is this a legal check expression?"""
    try:
        return typecheck(w, e) == "bool"
    except TypeErr:
        return False


# --------------------------------------------------------------------------
# Evaluation
# --------------------------------------------------------------------------

def round_away(q):
    s = -1 if q < 0 else 1
    return s * ((2 * abs(q).numerator + q.denominator) //
                (2 * q.denominator))


def trunc_rem(x, y):
    r = abs(x) % abs(y)
    return -r if x < 0 else r


def strip(v):
    """Comparable form of a value (the tuple form marker is dropped)"""
    if isinstance(v, tuple) and v[0] == "T":
        return ("T", v[1], tuple((f, strip(x)) for f, x in v[2].items()))
    if isinstance(v, tuple) and v[0] == "A":
        return ("A", tuple(strip(x) for x in v[1]))
    return v


def equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    return strip(a) == strip(b)


def need(v):
    if v is None:
        raise EvalErr()
    return v


def evaluate(w, e, ctx, objs):
    """ctx: {name: value} (None: static context); objs: {name: (type,
    {comp: value})}"""
    k = e[0]
    if k in ("int", "dec", "str", "bool"):
        return e[1]
    if k == "null":
        return None
    if k == "enum":
        return ("E", e[1], e[2])
    if k == "name":
        if ctx is None:
            raise EvalErr()
        return ctx[e[1]]
    if k == "fld":
        p = need(evaluate(w, e[1], ctx, objs))
        if p[0] == "T":
            return p[2][e[2]]
        typ, fields = objs[p[1]]
        return fields.get(e[2])
    if k == "idx":
        p = need(evaluate(w, e[1], ctx, objs))
        i = need(evaluate(w, e[2], ctx, objs))
        if i < 0 or i >= len(p[1]):
            raise EvalErr()
        return p[1][i]
    if k == "un":
        v = need(evaluate(w, e[2], ctx, objs))
        return {"+": lambda: v, "-": lambda: -v, "abs": lambda: abs(v),
                "not": lambda: not v}[e[1]]()
    if k == "bin":
        op = e[1]
        a = evaluate(w, e[2], ctx, objs)
        if op == "and":
            return bool(need(a) and need(evaluate(w, e[3], ctx, objs)))
        if op == "or":
            return bool(need(a) or need(evaluate(w, e[3], ctx, objs)))
        if op == "implies":
            return bool(not need(a) or need(evaluate(w, e[3], ctx, objs)))
        b = evaluate(w, e[3], ctx, objs)
        if op == "==":
            return equal(a, b)
        if op == "!=":
            return not equal(a, b)
        need(a)
        need(b)
        if op in ("/", "%") and b == 0:
            raise EvalErr()
        if op == "/":
            return a // b if isinstance(a, int) else a / b
        return {"xor": lambda: a != b,
                "<": lambda: a < b, "<=": lambda: a <= b,
                ">": lambda: a > b, ">=": lambda: a >= b,
                "+": lambda: a + b, "-": lambda: a - b,
                "*": lambda: a * b, "%": lambda: trunc_rem(a, b),
                "**": lambda: a ** b}[op]()
    if k == "range":
        x, lo, hi = (need(evaluate(w, y, ctx, objs)) for y in e[2:])
        rv = lo <= x <= hi
        return rv != e[1]
    if k == "in":
        x = need(evaluate(w, e[2], ctx, objs))
        y = need(evaluate(w, e[3], ctx, objs))
        if isinstance(y, str):
            rv = x in y
        else:
            rv = any(equal(x, z) for z in y[1])
        return rv != e[1]
    if k == "call":
        fn = e[1]
        args = [need(evaluate(w, x, ctx, objs)) for x in e[2]]
        if fn == "len":
            return len(args[0][1]) if isinstance(args[0], tuple) \
                else len(args[0])
        if fn == "startswith":
            return args[0][:len(args[1])] == args[1]
        if fn == "endswith":
            return args[1] == "" or args[0][-len(args[1]):] == args[1]
        if fn == "matches":
            return re.match(args[1], args[0]) is not None
        if fn == "oneof":
            return sum(args) == 1
        if fn == "Integer":
            return round_away(args[0]) if isinstance(args[0], Fraction) \
                else args[0]
        return Fraction(args[0])
    if k == "if":
        for c, x in e[1]:
            if need(evaluate(w, c, ctx, objs)):
                return evaluate(w, x, ctx, objs)
        return evaluate(w, e[2], ctx, objs)
    if k == "q":
        if ctx is None:
            raise EvalErr()
        arr = need(ctx[e[3]])
        for x in arr[1]:
            sub = dict(ctx)
            sub[e[2]] = x
            v = need(evaluate(w, e[4], sub, objs))
            if e[1] == "forall" and not v:
                return False
            if e[1] == "exists" and v:
                return True
        return e[1] == "forall"
    raise AssertionError(k)


def verdict(w, e, ctx, objs):
    """True/False/"err": the outcome of a check expression (null counts as
    error, a check must have a value)"""
    try:
        v = evaluate(w, e, ctx, objs)
    except EvalErr:
        return "err"
    if v is None:
        return "err"
    return v
