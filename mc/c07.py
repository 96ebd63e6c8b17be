"""C07: names are unique up to case and underscores, and scoped.

Space 1: all pairs of declarations (every kind of entity, in every relation
of scopes) x all spelling variants.
Space 2: all uses of a name (every place of the grammar where a name is
resolved) x all qualifications x all names x import situations."""
import itertools

from . import drv
from .core import Verdict

PID = "C07"
ASSUMPTIONS = [
    "hiding the name of a package which is not imported is left open",
    "a builtin qualified with a package name is left open",
]


def bounds(tier):
    return {"kinds": list(KINDS), "variants": list(VARIANTS),
            "use_sites": [s for s in SITES]}


VARIANTS = {
    "same": lambda s: s,
    "upper": lambda s: s.upper(),
    "lower": lambda s: s.lower(),
    "underscore": lambda s: s[0] + "_" + s[1:],
    "trailing": lambda s: s + "_",
    "double": lambda s: s[0].lower() + "__" + s[1:].upper(),
    "longer": lambda s: s + "x",
    "digit": lambda s: s + "1",
}
CLASH = {"same", "upper", "lower", "underscore", "trailing", "double"}

BUILTINS = ["Integer", "Boolean", "Decimal", "String", "Markup_String",
            "len", "startswith", "endswith", "matches", "oneof"]


def simp(s):
    return s.lower().replace("_", "")


##############################################################################
# Declarations
##############################################################################

KINDS = {
    "enum": lambda n, d: "enum %s%s { X }" % (n, d),
    "tuple": lambda n, d: "tuple %s%s { f Integer  g Integer }" % (n, d),
    "record": lambda n, d: "type %s%s { }" % (n, d),
    "abstract": lambda n, d: "abstract type %s%s { }" % (n, d),
    "final": lambda n, d: "final type %s%s { }" % (n, d),
    "ext": lambda n, d: "type %s%s extends Root { }" % (n, d),
}


def decl_cases(tier):
    ks = list(KINDS)
    for (a, b), v in itertools.product(itertools.product(ks, ks), VARIANTS):
        yield {"k": "decl", "a": a, "b": b, "v": v}
    for a in ks:
        for v in VARIANTS:
            yield {"k": "obj", "a": a, "v": v, "two": False}
            yield {"k": "pkgtype", "a": a, "v": v}
            yield {"k": "otherpkg", "a": a, "v": v}
            yield {"k": "imppkg", "a": a, "v": v, "rev": False}
            yield {"k": "imppkg", "a": a, "v": v, "rev": True}
        for bn in BUILTINS:
            for v in VARIANTS:
                yield {"k": "builtin", "a": a, "bn": bn, "v": v}
    for v in VARIANTS:
        for files in (1, 2):
            for late in (False, True):
                for sect in (False, True):
                    yield {"k": "objobj", "v": v, "files": files,
                           "late": late, "sect": sect}
        yield {"k": "objpkg", "v": v, "which": "own"}
        yield {"k": "objpkg", "v": v, "which": "imported"}
        for bn in BUILTINS:
            yield {"k": "objbuiltin", "v": v, "bn": bn}
        for late in ("rsl", "trlc", "mixed"):
            for imp in (False, True):
                yield {"k": "pkgpkg", "v": v, "late": late}
        for bn in BUILTINS:
            for late in ("rsl", "trlc"):
                yield {"k": "pkgbuiltin", "v": v, "bn": bn, "late": late}
        for gap in (0, 1, 2):
            yield {"k": "literal", "v": v, "gap": gap}
            for kind in ("record", "tuple", "tuplesep"):
                yield {"k": "comp", "v": v, "gap": gap, "kind": kind}
        for depth in (1, 2, 3, 4, 6):
            for pk in (False, True):
                yield {"k": "inherited", "v": v, "depth": depth, "pk": pk}
        yield {"k": "sibling", "v": v}
        yield {"k": "indep", "v": v}
        for where in ("comp", "outer", "free"):
            yield {"k": "quant", "v": v, "where": where}
    for what in ("pkg", "builtin", "func", "import", "list", "self", "free",
                 "literal", "object", "qtype", "field", "enum", "tuple",
                 "type", "later", "base"):
        yield {"k": "quant", "v": "same", "where": "hide:" + what}


def judge_decl(case):
    k = case["k"]
    v = case.get("v")
    var = VARIANTS[v]
    clash = v in CLASH
    name = "Kitten"
    other = var(name)
    rsl = ["package P"]
    files = {}
    bad = None          # (file, line) of the clashing declaration
    strict = True       # compare the location too

    def desc(i):
        return ' "text %u"' % i if v in ("upper", "longer") else ""

    if k == "decl":
        rsl += ["type Root { }", KINDS[case["a"]](name, desc(1)),
                "type Between { x Integer }",
                KINDS[case["b"]](other, desc(2))]
        bad = ("p.rsl", 5)
    elif k == "obj":
        rsl += ["type Root { }", KINDS[case["a"]](name, desc(1))]
        files["a.trlc"] = "package P\nRoot %s { }\n" % other
        bad = ("a.trlc", 2)
    elif k == "pkgtype":
        rsl = ["package " + name, "type Root { }",
               KINDS[case["a"]](other, desc(1))]
        bad = ("p.rsl", 3)
    elif k == "otherpkg":
        # same name in two packages is no problem
        rsl += ["type Root { }", KINDS[case["a"]](name, "")]
        files["q.rsl"] = "package Q\nimport P\ntype Root { }\n%s\n" % \
            KINDS[case["a"]](other, "")
        files["c.trlc"] = "package C\nimport P\nimport Q\n" \
            "P.Root %s { }\n" % other
        clash = False
    elif k == "imppkg":
        a, b = ("z.rsl", "p.rsl") if case["rev"] else ("a.rsl", "p.rsl")
        files[a] = "package %s\ntype T { }\n" % name
        rsl += ["import " + name, "type Root { }",
                KINDS[case["a"]](other, desc(1))]
        bad = ("p.rsl", 4)
    elif k == "builtin":
        other = var(case["bn"])
        clash = simp(other) == simp(case["bn"])
        if not clash and any(simp(other) == simp(b) for b in BUILTINS):
            clash = True
        rsl += ["type Root { }", KINDS[case["a"]](other, "")]
        bad = ("p.rsl", 3)
    elif k == "objobj":
        if not case["late"]:
            rsl += ["type Root { }"]
            head = "package P\n"
            q = ""
        else:
            rsl += ["type Root { }"]
            head = "package Late\nimport P\n"
            q = "P."
        line = 3 if not case["late"] else 4
        one = "%sRoot %s { }\n" % (q, name)
        two = "%sRoot %s { }\n" % (q, other)
        if case["sect"]:
            two = 'section "A" {\n' + two + "}\n"
        if case["files"] == 1:
            files["a.trlc"] = head + one + two
            bad = ("a.trlc", line + (1 if case["sect"] else 0))
        else:
            files["a.trlc"] = head + one
            files["b.trlc"] = head + two
            strict = False
    elif k == "objpkg":
        if case["which"] == "own":
            rsl = ["package " + name, "type Root { }"]
            files["a.trlc"] = "package %s\nRoot %s { }\n" % (name, other)
            bad = ("a.trlc", 2)
        else:
            rsl = ["package " + name, "type Root { }"]
            files["a.trlc"] = "package C\nimport %s\n%s.Root %s { }\n" % (
                name, name, other)
            bad = ("a.trlc", 3)
    elif k == "objbuiltin":
        other = var(case["bn"])
        clash = any(simp(other) == simp(b) for b in BUILTINS)
        rsl += ["type Root { }"]
        files["a.trlc"] = "package P\nRoot %s { }\n" % other
        bad = ("a.trlc", 2)
    elif k == "pkgpkg":
        strict = False
        f1 = "package %s\ntype T { }\n" % name
        f2 = "package %s\ntype T { }\n" % other
        if case["late"] == "rsl":
            files["a.rsl"] = f1
            files["b.rsl"] = f2
        elif case["late"] == "mixed":
            files["a.rsl"] = f1
            files["b.trlc"] = "package %s\n" % other
            clash = clash and v != "same"
        else:
            files["a.trlc"] = "package %s\n" % name
            files["b.trlc"] = "package %s\n" % other
            clash = clash and v != "same"
    elif k == "pkgbuiltin":
        other = var(case["bn"])
        clash = any(simp(other) == simp(b) for b in BUILTINS)
        fn = "x." + case["late"]
        files[fn] = "package %s\n" % other
        bad = (fn, 1)
    elif k == "literal":
        rsl += ["enum E {", "  " + name] + ["  Lit%u" % i for i in
                                            range(case["gap"])]
        rsl += ["  " + other + desc(1), "}"]
        bad = ("p.rsl", len(rsl) - 1)
    elif k == "comp":
        kw = "type" if case["kind"] == "record" else "tuple"
        sep = ["  separator @"] if case["kind"] == "tuplesep" else []
        rsl += [kw + " E {", "  %s Integer" % name]
        for i in range(case["gap"]):
            rsl += sep + ["  comp%s Integer" % "abc"[i]]
        rsl += sep + ["  %s%s Integer" % (other, desc(1))]
        bad = ("p.rsl", len(rsl))
        rsl += ["}"]
    elif k == "inherited":
        rsl += ["type A { %s Integer }" % name]
        prev = "A"
        tgt = rsl
        fn = "p.rsl"
        for i in range(1, case["depth"] + 1):
            if i == case["depth"]:
                if case["pk"]:
                    tgt = ["package Q", "import P"]
                    fn = "q.rsl"
                    prev = "P." + prev
                tgt.append("type A%s extends %s {" % ("ABCDEFGH"[i], prev))
                tgt.append("  %s String" % other)
                bad = (fn, len(tgt))
                tgt.append("}")
            else:
                tgt.append("type A%s extends %s { y%s Integer }" %
                           ("ABCDEFGH"[i], prev, "ABCDEFGH"[i]))
                prev = "A%s" % "ABCDEFGH"[i]
        if case["pk"]:
            files["q.rsl"] = "\n".join(tgt) + "\n"
    elif k == "sibling":
        rsl += ["type A { }",
                "type B extends A { %s Integer }" % name,
                "type C extends A { %s String }" % other,
                "type D { %s String }" % other,
                "tuple T { %s Integer  h Integer }" % other,
                "enum E { %s }" % other,
                "enum F { %s G }" % name]
        clash = False
    elif k == "indep":
        # components, literals, sections, and types are different scopes
        rsl += ["enum %s { A B }" % name,
                "enum M { %s }" % other,
                "type R { %s Integer  M String }" % other,
                "tuple T { %s Integer  R Integer }" % other]
        files["a.trlc"] = 'package P\nsection "%s" {\nR obj {\n %s = 1\n' \
            ' M = "x"\n}\n}\n' % (other, other)
        clash = False
    elif k == "quant":
        w = case["where"]
        # a quantified variable may not hide anything which is visible
        arr = "list Integer [0..*]"
        if w == "comp":
            rsl += ["type R {", "  %s Integer" % name, "  %s" % arr, "}",
                    "checks R {",
                    "  (forall %s in list => %s > 0), \"m\"" %
                    (other, other), "}"]
            clash = v == "same"
            bad = ("p.rsl", 7)
            if clash is False and v in CLASH:
                return Verdict("open")
        elif w == "outer":
            rsl += ["type R {", "  %s" % arr, "}", "checks R {",
                    "  (forall %s in list => (exists %s in list => %s == %s))"
                    ", \"m\"" % (name, other, name, other), "}"]
            clash = v == "same"
            bad = ("p.rsl", 6)
            if clash is False and v in CLASH:
                return Verdict("open")
        elif w.startswith("hide:"):
            # (whether a name that is spelled differently may be used is
            # left open)
            what = w[5:]
            var = {"pkg": "P", "builtin": "Integer", "func": "len",
                   "import": "Q", "list": "list", "self": "R",
                   "free": "N", "literal": "LIT", "object": "obj",
                   "qtype": "QT", "field": "tf"}.get(what, "Hid")
            files["q.rsl"] = "package Q\ntype QT { }\n"
            files["n.rsl"] = "package N\n"
            rsl[0] = "package P import Q"
            rsl += {"enum": ["enum Hid { A }"],
                    "tuple": ["tuple Hid { a Integer }"],
                    "type": ["type Hid { }"],
                    "later": [],
                    "literal": ["enum En { LIT }"],
                    "field": ["tuple Tp { tf Integer }"],
                    "base": ["type B { Hid Integer }"]}.get(what, [])
            rsl += ["type R %s{" % ("extends B " if what == "base" else ""),
                    "  %s" % arr, "}", "checks R {",
                    "  (forall %s in list => %s > 0), \"m\"" % (var, var)]
            bad = ("p.rsl", len(rsl))
            rsl += ["}"]
            if what == "later":
                rsl += ["type Hid { }"]
            if what == "object":
                files["p.trlc"] = "package P\nR obj { list = [1] }\n"
            clash = what not in ("later", "literal", "object", "qtype",
                                 "field", "free")
            if what == "free":
                return Verdict("open")
        else:
            rsl += ["type R {", "  %s" % arr, "}",
                    "type S {", " %s Integer" % other, "}",
                    "checks R {",
                    "  (forall %s in list => %s > 0) and"
                    " (exists %s in list => %s > 0), \"m\"" %
                    ((other,) * 4), "}"]
            clash = False
    else:
        assert False
    allfiles = {"p.rsl": "\n".join(rsl) + "\n"}
    allfiles.update(files)
    if len(rsl) == 1 and k in ("pkgpkg", "pkgbuiltin"):
        del allfiles["p.rsl"]
    return verdict(allfiles, not clash, bad if strict else None, "decl " + k)


def show(files):
    return "\n".join("--- %s\n%s" % (n, t) for n, t in files.items())


def verdict(files, ok, bad, what, slack=0):
    res = drv.run(files)
    if res.crash:
        return Verdict("crash", "%s\n%s" % (res.crash, show(files)),
                       "crash:" + res.crash)
    good = res.ok and not res.errors()
    if good != ok:
        return Verdict("violation", "%s, but must be %s\n%s\n%s" %
                       ("accepted" if good else "rejected",
                        "accepted" if ok else "rejected",
                        res.msgs, show(files)), what + " verdict")
    if not ok and bad is not None:
        first = res.errors()[0]
        if first.file != bad[0] or \
           not bad[1] <= first.line <= bad[1] + slack:
            return Verdict("violation", "error must be at %s, is %s\n%s" %
                           (bad, first, show(files)), what + " location")
    return Verdict("%s %s" % (what, "ok" if ok else "error"))


##############################################################################
# Uses
##############################################################################
#
# P is the package of the use, Q is imported, N exists but is not imported.
# Each of them declares the same names (with different content) and some
# which only it declares. Z is imported by everybody.

def package_rsl(p):
    return ["package " + p, "import Z",
            "enum En { Lit_%s }" % p,
            "enum En_Only_%s { Lit_%s }" % (p, p),
            "tuple Tu { f%s Integer  g Integer }" % p,
            "type Re { c%s optional Integer }" % p,
            "type Re_Only_%s { c%s optional Integer }" % (p, p)]


def package_trlc(p):
    return ["package " + p, "import Z", "Z.B Ob { }",
            "Z.B Ob_Only_%s { }" % p]


def entities(p):
    rv = {"En": "enum", "En_Only_" + p: "enum", "Tu": "tuple",
          "Re": "record", "Re_Only_" + p: "record"}
    rv.update({"Ob": "object", "Ob_Only_" + p: "object"})
    return rv


ENT = {p: entities(p) for p in "PQN"}
ENT["Z"] = {"B": "record"}
BUILTIN_KIND = {"Integer": "builtin", "String": "builtin", "len": "function"}

# site -> (file kind, accepted kinds)
SITES = {
    "comp": ("rsl", ("enum", "tuple", "record", "builtin")),
    "optcomp": ("rsl", ("enum", "tuple", "record", "builtin")),
    "arraycomp": ("rsl", ("enum", "tuple", "record", "builtin")),
    "tuplefield": ("rsl", ("enum", "tuple", "record", "builtin")),
    "extends": ("rsl", ("record",)),
    "union": ("rsl", ("record",)),
    "union2": ("rsl", ("record",)),
    "tupleunion": ("rsl", ("record",)),
    "checks": ("rsl", ("tuple", "record")),
    "checkexpr": ("rsl", ("enum",)),
    "freezeenum": ("rsl", ("enum",)),
    "objtype": ("trlc", ("record",)),
    "enumval": ("trlc", ("enum",)),
    "refval": ("trlc", ("object",)),
    "unionval": ("trlc", ("object",)),
    "arrayval": ("trlc", ("object",)),
    "tupleval": ("trlc", ("object",)),
    "markup": ("trlc", ("object",)),
    "markup2": ("trlc", ("object",)),
}
QUALS = ["", "P", "Q", "N", "M", "q", "p", "Q_", "En", "Re", "Ob", "Integer"]
NAMES_ = ["En", "Tu", "Re", "Ob",
          "En_Only_P", "Re_Only_P", "Ob_Only_P",
          "En_Only_Q", "Re_Only_Q", "Ob_Only_Q",
          "En_Only_N", "Re_Only_N", "Ob_Only_N",
          "EN", "re", "T_u", "o_b", "R_E", "REOnlyQ", "Missing",
          "P", "Q", "N", "Integer", "String", "len"]


def resolve(q, name, imports):
    """-> (package, kind), None (error) or 'open'"""
    if q:
        if q not in ("P", "Q", "N"):
            return None
        if q != "P" and q not in imports:
            return None
        if name in BUILTIN_KIND:
            return "open"
        if name in ENT[q]:
            return q, ENT[q][name]
        return None
    if name in ENT["P"]:
        return "P", ENT["P"][name]
    if name in BUILTIN_KIND:
        return "", BUILTIN_KIND[name]
    return None


def use_cases(tier):
    for site in SITES:
        for q in QUALS:
            if site == "checks" and q:
                continue
            for name in NAMES_:
                for imports in (("Z", "Q"), ("Z",)):
                    for rev in (False, True):
                        yield {"k": "use", "site": site, "q": q,
                               "name": name, "imports": imports,
                               "rev": rev}


def judge_use(case):
    site, q, name = case["site"], case["q"], case["name"]
    fk, kinds = SITES[site]
    target = resolve(q, name, case["imports"])
    if target == "open":
        return Verdict("open")
    ok = target is not None and target[1] in kinds
    if fk == "rsl" and target is not None and target[1] == "object":
        ok = False
    tp, tk = target if target else ("Q", "enum")
    qn = (q + "." if q else "") + name
    rsl = package_rsl("P")
    trlc = package_trlc("P")
    for imp in case["imports"]:
        if imp != "Z":
            (rsl if fk == "rsl" else trlc).insert(2, "import " + imp)
    # the other kind of file always imports Q: this must not help
    if "Q" not in case["imports"]:
        (trlc if fk == "rsl" else rsl).insert(2, "import Q")
    lit = "Lit_%s" % tp
    if fk == "rsl":
        out = rsl
        out.append("type Use_Before { }")
        if site == "comp":
            out += ["type Use {", "  x %s" % qn]
        elif site == "optcomp":
            out += ["type Use {", "  x optional %s" % qn]
        elif site == "arraycomp":
            out += ["type Use {", "  x %s [0 .. *]" % qn]
        elif site == "tuplefield":
            out += ["tuple Use {", "  y Integer", "  x %s" % qn]
        elif site == "extends":
            out += ["type Use extends", "  %s" % qn, "{"]
        elif site == "union":
            out += ["type Use {", "  x [", "  %s]" % qn]
        elif site == "union2":
            out += ["type Use {", "  x [Z.B,", "  %s]" % qn]
        elif site == "tupleunion":
            out += ["tuple Use {", "  y Integer", "  x [Z.B,",
                    "  %s]" % qn]
        elif site == "checks":
            out += ["checks", "  %s" % qn, "{"]
        elif site == "checkexpr":
            e = "%s.%s" % (qn, lit)
            out += ["type Use { }", "checks Use {",
                    "  %s == %s, \"m\"" % (e, e)]
        elif site == "freezeenum":
            own = ("%s.En" % q if q in ("P", "Q") and
                   q in case["imports"] + ("P",) else "En")
            if ok and name != "En":
                own = qn
            out += ["type Use {", "  x %s" % own, "  freeze x =",
                    "  %s.%s" % (qn, lit)]
        line = len(out) - (1 if site in ("extends", "checks") else 0)
        out.append("}")
        bad = ("p.rsl", line)
        if site == "freezeenum" and not ok and target and \
           target[1] == "enum":
            return Verdict("open")
    else:
        tt = trlc
        rsl.append("tuple RT { r Z.B  i Integer }")
        rsl.append("type User {")
        own = "En"
        if ok and site == "enumval":
            own = "%s%s" % (tp + "." if tp != "P" else "", name)
            if tp != "P" and ("import " + tp) not in rsl:
                rsl.insert(2, "import " + tp)
        rsl += ["  e optional %s" % own, "  r optional Z.B",
                "  u optional [Z.B]", "  a optional Z.B [0..*]",
                "  t optional RT", "  m optional Markup_String", "}"]
        if site == "objtype":
            tt += [qn, "  Use", "{"]
            line = len(tt) - 2
        else:
            tt += ["User Use {"]
            tt += {"enumval": ["  e =", "  %s.%s" % (qn, lit)],
                   "refval": ["  r =", "  %s" % qn],
                   "unionval": ["  u =", "  %s" % qn],
                   "arrayval": ["  a = [Use_Other,", "  %s]" % qn],
                   "tupleval": ["  t = (", "  %s, 1)" % qn],
                   "markup": ["  m =", "  \"see [[%s]]\"" % qn],
                   "markup2": ["  m =", "  \"[[Use_Other]] [[Use_Other, %s]]"
                               "\"" % qn]}[site]
            line = len(tt)
        tt.append("}")
        tt.append("Z.B Use_Other { }")
        bad = ("p.trlc", line)
    files = {}

    def add(fn, lines):
        files[fn] = "\n".join(lines) + "\n"
    add("z.rsl", ["package Z", "type B { }"])
    for p in "QN":
        pre = "a" if case["rev"] else "x"
        add("%s%s.rsl" % (pre, p), package_rsl(p))
        add("%s%s.trlc" % (pre, p), package_trlc(p))
    add("p.rsl", rsl)
    add("p.trlc", trlc)
    # the name of a package on its own is a syntax error behind it
    slack = 1 if not q and name in "PQN" else 0
    rv = verdict(files, ok, bad, "use " + site, slack)
    if rv.violation or not ok:
        return rv
    # to which entity did it resolve?
    res = drv.run(files)
    want = "%s%s" % (tp + "." if tp else "", name)
    got = resolved(res.stab, site)
    if site == "checks":
        return rv
    if site == "checkexpr" or site == "freezeenum" or site == "enumval":
        return rv              # the literal only exists in the right one
    if got != want:
        return Verdict("violation", "resolved to %s, must be %s\n%s" %
                       (got, want, show(files)), "use target")
    return rv


def find(stab, mh_name, kind=None):
    for pkg in stab.values(drv.ast.Package):
        if pkg.name == "P":
            for e in pkg.symbols.values(kind):
                if e.name == mh_name:
                    return e
    return None


def tname(t):
    if hasattr(t, "n_package") and getattr(t, "n_package", None):
        return t.n_package.name + "." + t.name
    return t.name


def resolved(stab, site):
    use = find(stab, "Use")
    if site in ("comp", "optcomp", "tuplefield", "arraycomp", "union",
                "union2", "tupleunion"):
        typ = next(c for c in use.all_components() if c.name == "x").n_typ
        if site == "arraycomp":
            typ = typ.element_type
        if "union" in site:
            typ = typ.types[-1]
        return tname(typ)
    if site == "extends":
        return tname(use.parent)
    if site == "objtype":
        return tname(use.n_typ)
    if site in ("refval", "unionval", "arrayval", "tupleval"):
        val = use.to_python_dict()[{"refval": "r", "unionval": "u",
                                    "arrayval": "a", "tupleval": "t"}[site]]
        if site == "arrayval":
            return val[-1]
        if site == "tupleval":
            return val["r"]
        return val
    if site in ("markup", "markup2"):
        return use.field["m"].references[-1].to_python_object()
    return None


def cases(tier):
    yield from decl_cases(tier)
    yield from use_cases(tier)


def judge(case):
    return judge_use(case) if case["k"] == "use" else judge_decl(case)
