"""Reference reader for type declarations in rsl files.

Written from the language reference manual (sections Described names, Type
declarations: Enumerations, Tuples, Record declarations)."""
from .valmodel import Bad, Need, Reader, kind

DKW = {"abstract", "final", "type", "extends", "optional", "freeze", "enum",
       "tuple", "separator", "checks", "true", "false", "null", "section",
       "import", "package"}
BUILTINS = {"Integer": ["int"], "Decimal": ["dec"], "Boolean": ["bool"],
            "String": ["str"], "Markup_String": ["mark"]}
BUILTIN_NAMES = set(BUILTINS) | {"len", "startswith", "endswith", "matches",
                                 "oneof"}


def dkind(tok):
    if tok in DKW:
        return tok
    k = kind(tok)
    return "ID" if k == "KW" else k


def simple(name):
    return name.lower().replace("_", "")


def new_world():
    """types: {package: {name: declaration}}"""
    return {"pkg": "P", "visible": {"P", "Q"}, "types": {"P": {}, "Q": {}},
            "packages": {"P", "Q", "H"}}


class Decls:
    """Reads the declarations of one rsl file of package P"""

    def __init__(self, world, tokens):
        self.w = world
        self.t = tokens
        self.i = 0
        self.types = world["types"]["P"]
        self.late = []

    # -- tokens
    def k(self):
        return dkind(self.t[self.i]) if self.i < len(self.t) else None

    def match(self, what):
        if self.i >= len(self.t):
            raise Need()
        if dkind(self.t[self.i]) != what:
            raise Bad(self.i)
        self.i += 1
        return self.t[self.i - 1]

    def described(self):
        n = self.match("ID")
        d = None
        if self.k() == "STR":
            d = self.match("STR")[1:-1]
        return n, d

    def fail(self):
        raise Bad(self.i - 1)

    # -- names
    def declare(self, name):
        s = simple(name)
        names = set(self.types) | BUILTIN_NAMES | self.w["packages"]
        if s in set(map(simple, names)):
            self.fail()

    def qualified(self):
        """-> declaration or builtin type"""
        n = self.match("ID")
        if n in self.types:
            return self.types[n]
        if n in BUILTINS:
            return {"kind": "builtin", "typ": BUILTINS[n], "name": n}
        if n in self.w["visible"]:
            self.match(".")
            k = self.match("ID")
            if k in self.w["types"].get(n, {}):
                return self.w["types"][n][k]
        self.fail()

    def record_type(self):
        d = self.qualified()
        if d["kind"] != "record":
            self.fail()
        return d

    # -- declarations
    def file(self):
        while self.i < len(self.t):
            k = self.k()
            if k == "enum":
                self.enum()
            elif k == "tuple":
                self.tuple()
            elif k in ("abstract", "final", "type"):
                self.record()
            else:
                raise Bad(self.i)

    def enum(self):
        self.match("enum")
        n, d = self.described()
        self.declare(n)
        e = {"kind": "enum", "name": n, "pkg": "P", "descr": d, "lits": []}
        self.types[n] = e
        self.match("{")
        while self.k() != "}":
            l, ld = self.described()
            if simple(l) in [simple(x[0]) for x in e["lits"]]:
                self.fail()
            e["lits"].append((l, ld))
        self.match("}")
        if not e["lits"]:
            self.fail()

    def union(self):
        self.match("[")
        members = [self.record_type()]
        while self.k() == ",":
            self.match(",")
            members.append(self.record_type())
        self.match("]")
        names = [(m["pkg"], m["name"]) for m in members]
        if len(set(names)) != len(names):
            self.late.append("duplicate")
        return {"kind": "union", "members": names}

    def field_type(self):
        return self.union() if self.k() == "[" else self.qualified()

    def tuple(self):
        self.match("tuple")
        n, d = self.described()
        t = {"kind": "tuple", "name": n, "pkg": "P", "descr": d,
             "fields": [], "seps": []}
        self.match("{")
        seps = None          # None: not decided yet
        while True:
            if t["fields"]:
                if self.k() == "}":
                    break
                if self.k() == "separator":
                    if seps is False:
                        raise Bad(self.i)
                    seps = True
                    self.match("separator")
                    if self.k() not in ("ID", "@", ":", ";"):
                        if self.i >= len(self.t):
                            raise Need()
                        raise Bad(self.i)
                    t["seps"].append(self.t[self.i])
                    self.i += 1
                else:
                    if seps:
                        if self.i >= len(self.t):
                            raise Need()
                        raise Bad(self.i)
                    if self.k() == "ID":
                        seps = False
            f, fd = self.described()
            opt = False
            if self.k() == "optional":
                if not seps:
                    raise Bad(self.i)
                self.match("optional")
                opt = True
            elif t["fields"] and t["fields"][-1][1]:
                if self.i >= len(self.t):
                    raise Need()
                raise Bad(self.i)
            ft = self.field_type()
            if simple(f) in [simple(x[0]) for x in t["fields"]]:
                self.fail()
            t["fields"].append((f, opt, ft, fd))
        self.match("}")
        if seps and any(ft["kind"] == "tuple" and ft["seps"]
                        for _, _, ft, _ in t["fields"]):
            self.fail()
        self.declare(n)
        self.types[n] = t

    def record(self):
        qual = ""
        if self.k() in ("abstract", "final"):
            qual = self.match(self.k())
        self.match("type")
        n, d = self.described()
        parent = None
        if self.k() == "extends":
            self.match("extends")
            parent = self.record_type()
        self.declare(n)
        rec = {"kind": "record", "name": n, "pkg": "P", "descr": d,
               "parent": parent, "abstract": qual == "abstract",
               "final": bool(parent and parent["final"]), "own": [],
               "frozen": []}
        self.types[n] = rec
        self.match("{")
        while self.k() != "}":
            comps, frozen = self.inherited(rec)
            if self.k() == "freeze":
                self.match("freeze")
                c = self.match("ID")
                if c not in comps or c in frozen:
                    self.fail()
                self.match("=")
                val = self.value(comps[c])
                rec["frozen"].append((c, val))
                continue
            c, cd = self.described()
            opt = False
            if self.k() == "optional":
                self.match("optional")
                opt = True
            typ = self.field_type()
            if self.k() == "[":
                self.match("[")
                lo = int(self.match("INT"), 0)
                self.match("..")
                if self.k() == "*":
                    self.match("*")
                    hi = None
                else:
                    hi = int(self.match("INT"), 0)
                self.match("]")
                typ = {"kind": "array", "elem": typ, "lo": lo, "hi": hi}
            if rec["final"] or simple(c) in map(simple, comps):
                self.fail()
            rec["own"].append((c, opt, typ, cd))
        self.match("}")
        if qual == "final":
            rec["final"] = True

    def inherited(self, rec):
        comps, frozen = {}, set()
        p = rec
        while p:
            for c in p["own"]:
                comps[c[0]] = c[2]
            frozen |= {f[0] for f in p["frozen"]}
            p = p["parent"]
        return comps, frozen

    # -- values
    def value(self, decl):
        w = {"pkg": "P", "visible": {p: {} for p in self.w["visible"]},
             "enums": {}, "parents": {}, "other": set()}
        for p in self.w["visible"]:
            for n, d in self.w["types"][p].items():
                if d["kind"] == "enum":
                    w["enums"][p + "." + n] = [x[0] for x in d["lits"]]
                elif d["kind"] == "record":
                    w["parents"][p + "." + n] = None
                else:
                    w["other"].add(p + "." + n)
        rd = Reader(w, self.t)
        rd.i = self.i
        rv = rd.value(vtype(decl))
        self.i = rd.i
        self.late += ["open" if x == "unknown" else x for x in rd.late]
        return rv


def vtype(d):
    """type as the value reader wants it"""
    k = d["kind"]
    if k == "builtin":
        return ["str"] if d["typ"] == ["mark"] else d["typ"]
    if k == "enum":
        return ["enum", d["pkg"] + "." + d["name"]]
    if k == "record":
        return ["rec", d["pkg"] + "." + d["name"]]
    if k == "union":
        return ["union", ["%s.%s" % m for m in d["members"]]]
    if k == "array":
        return ["arr", vtype(d["elem"]), d["lo"], d["hi"]]
    return ["tup", [[f[0], f[1], vtype(f[2])] for f in d["fields"]],
            d["seps"] or None]


def tname(d):
    k = d["kind"]
    if k == "builtin":
        return d["name"]
    if k == "union":
        return "[" + ",".join("%s.%s" % m for m in d["members"]) + "]"
    if k == "array":
        return "%s[%s..%s]" % (tname(d["elem"]), d["lo"], d["hi"])
    return d["pkg"] + "." + d["name"]


def shape(types):
    """what the API must show of the declarations"""
    rv = {}
    for n, d in types.items():
        if d["kind"] == "enum":
            rv[n] = ("enum", d["descr"], sorted(d["lits"], key=str))
        elif d["kind"] == "tuple":
            rv[n] = ("tuple", d["descr"],
                     [(f, o, tname(t), fd) for f, o, t, fd in d["fields"]],
                     list(d["seps"]))
        else:
            allc = []
            p = d
            while p:
                allc = [(f, o, tname(t), fd) for f, o, t, fd in p["own"]] \
                    + allc
                p = p["parent"]
            froz = {}
            p = d
            while p:
                for c, v in p["frozen"]:
                    froz[c] = v
                p = p["parent"]
            rv[n] = ("record", d["descr"], allc,
                     tname(d["parent"]) if d["parent"] else None,
                     d["abstract"], d["final"], froz)
    return rv


def read(world, tokens):
    """-> (status, shape)"""
    rd = Decls(world, tokens)
    try:
        rd.file()
    except Need:
        return ("late" if [x for x in rd.late if x != "open"] else "prefix",
                None)
    except Bad as exc:
        return "bad", exc.i
    if [x for x in rd.late if x != "open"]:
        return "late", None
    return ("open" if rd.late else "ok"), shape(rd.types)
