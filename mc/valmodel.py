"""Reference model of record object bodies and values.

Written from the language reference manual (sections Record object
declarations, Tuples, Record declarations); a token list is read left to
right, with one token of look-ahead, against a type.

Types (JSON-able): ["int"] ["dec"] ["bool"] ["str"] ["enum", pkg, name]
["rec", qualified name] ["union", [qualified names]] ["arr", elem, lo, hi]
["tup", [[field, optional, type], ...], [separators] or None]

A world describes what names mean:
  pkg       the current package
  visible   {package: {object: qualified record type}} (own and imported)
  enums     {qualified name: [literals]}
  parents   {qualified record type: parent or None}
  other     names of the current package that are neither objects nor enums
"""


class Bad(Exception):
    """token number i cannot follow the ones before it"""
    def __init__(self, i):
        super().__init__(i)
        self.i = i


class Need(Exception):
    """the tokens end too early"""


KEYWORDS = {"true", "false", "null", "and", "or", "section", "type", "import",
            "package", "optional", "freeze", "if", "exists", "in", "not"}


def kind(tok):
    if tok[0].isdigit():
        return "DEC" if "." in tok else "INT"
    if tok[0] in "\"'":
        return "STR"
    if tok[0].isalpha():
        return "KW" if tok in KEYWORDS else "ID"
    return tok


class Reader:
    def __init__(self, world, tokens):
        self.w = world
        self.t = tokens
        self.i = 0
        self.late = []          # errors that do not stop reading

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def pkind(self):
        return kind(self.t[self.i]) if self.i < len(self.t) else None

    def match(self, what):
        if self.i >= len(self.t):
            raise Need()
        if kind(self.t[self.i]) != what:
            raise Bad(self.i)
        self.i += 1
        return self.t[self.i - 1]

    def is_sub(self, typ, root):
        while typ is not None:
            if typ == root:
                return True
            typ = self.w["parents"][typ]
        return False

    def value(self, typ):
        return getattr(self, "v_" + typ[0])(typ)

    def v_int(self, typ, what="INT"):
        sign = 1
        if self.pkind() in ("+", "-"):
            sign = -1 if self.peek() == "-" else 1
            self.i += 1
        t = self.match(what)
        return sign * (int(t, 0) if what == "INT" else float(t))

    def v_dec(self, typ):
        return self.v_int(typ, "DEC")

    def v_bool(self, typ):
        if self.peek() is None:
            raise Need()
        if self.peek() not in ("true", "false"):
            raise Bad(self.i)
        self.i += 1
        return self.t[self.i - 1] == "true"

    def v_str(self, typ):
        t = self.match("STR")
        return t[3:-3] if t.startswith("'''") else t[1:-1]

    def v_enum(self, typ):
        n = self.match("ID")
        full = self.w["pkg"] + "." + n
        if full not in self.w["enums"] and n in self.w["visible"]:
            self.match(".")
            k = self.match("ID")
            full = n + "." + k
        if full != typ[1]:
            raise Bad(self.i - 1)
        self.match(".")
        lit = self.match("ID")
        if lit not in self.w["enums"][full]:
            raise Bad(self.i - 1)
        return lit

    def v_rec(self, typ):
        roots = typ[1] if typ[0] == "union" else [typ[1]]
        n = self.match("ID")
        pkg = self.w["pkg"]
        if self.pkind() == ".":
            self.i += 1
            k = self.match("ID")
            if n not in self.w["visible"]:
                raise Bad(self.i - 2)
            pkg, n = n, k
        objs = self.w["visible"][pkg]
        if n not in objs:
            if pkg + "." + n in self.w["enums"] or \
               pkg + "." + n in self.w["parents"] or \
               pkg + "." + n in self.w["other"]:
                raise Bad(self.i - 1)
            self.late.append("unknown")
            return None
        if not any(self.is_sub(objs[n], r) for r in roots):
            raise Bad(self.i - 1)
        return pkg + "." + n

    v_union = v_rec

    def v_arr(self, typ):
        self.match("[")
        rv = []
        while self.pkind() != "]":
            rv.append(self.value(typ[1]))
            if self.pkind() == ",":
                self.i += 1
                if self.pkind() == "]":
                    self.late.append("open")     # left open, see DESIGN
            elif self.peek() is None:
                raise Need()
            elif self.pkind() != "]":
                raise Bad(self.i)
        self.match("]")
        if len(rv) < typ[2] or (typ[3] is not None and len(rv) > typ[3]):
            self.late.append("bounds")
        return rv

    def v_tup(self, typ):
        fields, seps = typ[1:]
        rv = {}
        if seps is None:
            self.match("(")
            for k, (name, _, ft) in enumerate(fields):
                if k:
                    self.match(",")
                rv[name] = self.value(ft)
            self.match(")")
            return rv
        for k, (name, optional, ft) in enumerate(fields):
            if k:
                if self.peek() == seps[k - 1]:
                    self.i += 1
                elif optional:
                    for name2, _, _ in fields[k:]:
                        rv[name2] = None
                    return rv
                elif self.peek() is None:
                    raise Need()
                else:
                    raise Bad(self.i)
            rv[name] = self.value(ft)
        return rv


def body(world, tokens, rec):
    """rec: {"comps": [[name, optional, type]], "frozen": {name: value}}

    -> (status, values); status is "ok", "prefix" (not complete but could
    become), "bad", "late" (read to the end but with an error that no
    continuation mends), "open" """
    rd = Reader(world, tokens)
    comps = {c[0]: c for c in rec["comps"]}
    vals = {}
    try:
        while rd.i < len(tokens):
            n = rd.match("ID")
            if n not in comps or n in vals or n in rec["frozen"]:
                raise Bad(rd.i - 1)
            rd.match("=")
            vals[n] = rd.value(comps[n][2])
    except Need:
        return ("late" if rd.late and rd.late[0] != "open" else "prefix",
                None)
    except Bad as exc:
        return "bad", exc.i
    if any(x != "open" for x in rd.late):
        return "late", None
    for name, optional, _ in rec["comps"]:
        if name not in vals:
            if name in rec["frozen"]:
                vals[name] = rec["frozen"][name]
            elif optional:
                vals[name] = None
            else:
                return "prefix", None
    if rd.late:
        return "open", vals
    return "ok", vals
