"""C08: the result is independent of file naming and registration order.

All import graphs over n packages (rsl and trlc) x all assignments of file
names x registration orders; all declaration orders of a set of objects with
cyclic references x all distributions over files; the same explorations under
different hash randomisation seeds."""
import hashlib
import itertools
import json
import os
import subprocess
import sys

from . import drv
from .core import Verdict

PID = "C08"
CASE_LIMIT = 300.0
ASSUMPTIONS = [
    "the order of messages and the text of error messages may depend on "
    "names and orders, the verdict, the objects and the check messages may "
    "not",
]


def bounds(tier):
    deep = tier == "thorough"
    return {"rsl_packages": 4, "rsl_file_name_permutations":
            "all for 3 packages, %s for 4" % ("all" if deep else "2"),
            "trlc_packages": 3, "objects": 4,
            "hash_seeds": len(seeds(tier))}


def seeds(tier):
    return list(range(8 if tier == "quick" else 32))


PK = ["Pa", "Pb", "Pc", "Pd"]


def edges_of(n, code):
    out = []
    i = 0
    for a in range(n):
        for b in range(n):
            if a != b:
                if code >> i & 1:
                    out.append((a, b))
                i += 1
    return out


def acyclic(n, edges):
    left = set(range(n))
    while left:
        free = [a for a in left
                if not any(x == a and y in left for x, y in edges)]
        if not free:
            return False
        left -= set(free)
    return True


def digest(res):
    """The observable result"""
    if res.crash:
        return ("crash", res.crash)
    checks = sorted((m.kind, m.text, m.extra or "") for m in res.msgs
                    if m.kind.startswith("USER"))
    objs = None
    if res.stab is not None:
        objs = {}
        for o in res.stab.iter_record_objects():
            name = o.fully_qualified_name()
            if name in objs:
                return ("duplicate object", name)
            objs[name] = (o.n_typ.fully_qualified_name(),
                          repr(sorted(o.to_python_dict().items())),
                          [s.name for s in o.section] if o.section else [])
    return (res.ok and not res.errors(), checks,
            sorted(objs.items()) if objs is not None else None)


def show(files):
    return "\n".join("--- %s\n%s" % (n, t) for n, t in files.items())


def lines(xs):
    return "\n".join(xs) + "\n"


##############################################################################
# rsl graphs
##############################################################################

def rsl_files(n, edges, names, rot=0):
    """names: file name per package"""
    files = {}
    for a in range(n):
        out = ["package " + PK[a]]
        imps = [b for x, b in edges if x == a]
        if rot:
            imps.reverse()
        out += ["import " + PK[b] for b in imps]
        out += ["enum E { x y }", "type T {", "  v Integer"]
        out += ["  r%u optional %s.T" % (b, PK[b]) for b in imps]
        out += ["  e%u optional %s.E" % (b, PK[b]) for b in imps]
        out += ["}"]
        if imps:
            out += ["type X extends %s.T { w optional E }" % PK[imps[0]]]
        out += ["checks T {", "  v > 0, warning \"low %s\"" % PK[a], "}"]
        for b in imps:
            out += ["checks T {",
                    "  r%u != null implies r%u.v > 0, warning \"ref\"" %
                    (b, b), "}"]
        files[names[a]] = lines(out)
    # one object per package
    for a in range(n):
        out = ["package " + PK[a]]
        imps = [b for x, b in edges if x == a]
        out += ["import " + PK[b] for b in imps]
        out += ["T obj {", "  v = %u" % (a % 2)]
        out += ["  r%u = %s.obj" % (b, PK[b]) for b in imps]
        out += ["  e%u = %s.E.y" % (b, PK[b]) for b in imps]
        out += ["}"]
        if imps:
            out += ["X ext { v = 5  w = E.x }"]
        files[names[a].replace(".rsl", ".trlc")] = lines(out)
    return files


def rsl_expected(n, edges):
    if not acyclic(n, edges):
        return None
    checks = []
    objs = {}
    for a in range(n):
        imps = sorted(b for x, b in edges if x == a)
        if a % 2 == 0:
            checks.append(("USER_WARNING", "low " + PK[a], ""))
        for b in imps:
            if b % 2 == 0:
                checks.append(("USER_WARNING", "ref", ""))
        d = {"v": a % 2}
        for b in imps:
            d["r%u" % b] = PK[b] + ".obj"
            d["e%u" % b] = "y"
        objs[PK[a] + ".obj"] = (PK[a] + ".T", repr(sorted(d.items())), [])
    return checks, objs


def judge_rsl(case):
    n = case["n"]
    edges = edges_of(n, case["g"])
    names = ["%s.rsl" % "abcd"[i] for i in case["names"]]
    files = rsl_files(n, edges, names, case.get("rot", 0))
    order = sorted(files, reverse=bool(case["rev"]))
    res = drv.run(files, order=order)
    d = digest(res)
    exp = rsl_expected(n, edges)
    if res.crash:
        return Verdict("crash", res.crash + "\n" + show(files),
                       "crash:" + res.crash)
    if exp is None:
        if res.ok or not res.errors():
            return Verdict("violation", "cyclic imports are accepted\n" +
                           show(files), "cycle")
        return Verdict("cycle")
    checks, objs = exp
    got = dict((k, v) for k, v in (d[2] or []) if k.endswith(".obj"))
    if not d[0] or sorted(checks) != d[1] or \
       not same_objs(got, objs):
        return Verdict("violation", "result is %s %s\nexpected %s %s\n%s" %
                       (d, res.msgs, sorted(checks), objs, show(files)),
                       "rsl result")
    ext = [k for k, _ in d[2] if k.endswith(".ext")]
    want = sorted({PK[x] + ".ext" for x, _ in edges})
    if ext != want:
        return Verdict("violation", "objects %s\n%s" % (d[2], show(files)),
                       "rsl objects")
    return Verdict("accepted %u" % len(edges))


def same_objs(got, objs):
    """optional components may be added as None"""
    if set(got) != set(objs):
        return False
    for k in objs:
        if got[k][0] != objs[k][0] or got[k][2] != objs[k][2]:
            return False
        a = [p for p in eval(got[k][1]) if p[1] is not None]   # noqa
        b = [p for p in eval(objs[k][1]) if p[1] is not None]  # noqa
        if a != b:
            return False
    return True


def rsl_cases(tier):
    for n in (1, 2, 3):
        for g in range(1 << (n * (n - 1))):
            for names in itertools.permutations(range(n)):
                for rev in (0, 1):
                    yield {"k": "rsl", "n": n, "g": g, "names": names,
                           "rev": rev, "rot": rev}
    perms = list(itertools.permutations(range(4)))
    if tier == "quick":
        perms = [perms[0], perms[-1]]
    for g in range(1 << 12):
        for names in perms:
            yield {"k": "rsl", "n": 4, "g": g, "names": names, "rev": 0}


##############################################################################
# trlc graphs (may be cyclic), several files per package, late packages
##############################################################################

def trlc_files(case):
    """package Z has the types; Pa..Pc have objects. Pa has a second file.
    late: Pb and Pc are declared by their trlc files only"""
    edges = edges_of(3, case["g"])
    second = [b + 1 for b in range(2) if case["s"] >> b & 1]
    files = {"z.rsl": lines([
        "package Z", "type T {", "  v Integer",
        "  r optional T [0 .. *]", "  m optional Markup_String", "}",
        "checks T {",
        "  v != 1, warning \"one\"",
        "  r != null implies (forall x in r => x.v != 2), warning \"two\"",
        "}"])}
    if not case["late"]:
        for a in range(3):
            files["t%s.rsl" % PK[a]] = lines(
                ["package " + PK[a], "type Unused { }"])
    objs = {}
    units = [(a, [b for x, b in edges if x == a], "o%u" % a)
             for a in range(3)] + [(0, second, "s0")]
    for (a, imps, on), fn in zip(units, case["names"]):
        out = ["package " + PK[a], "import Z"]
        out += ["import " + PK[b] for b in imps]
        out += ["section \"S %s\" {" % on, "Z.T %s {" % on,
                "  v = %u" % a]
        tg = ["%s.o%u" % (PK[b], b) for b in imps]
        own = "s0" if on == "o0" else on
        tg.append(own)
        out += ["  r = [%s]" % ", ".join(tg),
                "  m = \"[[%s]]\"" % ", ".join(tg), "}", "}"]
        files["%s.trlc" % "abcd"[fn]] = lines(out)
        objs["%s.%s" % (PK[a], on)] = {
            "v": a, "r": [t if "." in t else PK[a] + "." + t for t in tg],
            "m": "[[%s]]" % ", ".join(tg)}
    checks = []
    for o in objs.values():
        if o["v"] == 1:
            checks.append(("USER_WARNING", "one", ""))
        if any(objs[r]["v"] == 2 for r in o["r"]):
            checks.append(("USER_WARNING", "two", ""))
    exp = {k: ("Z.T", repr(sorted(o.items())), ["S " + k.split(".")[1]])
           for k, o in objs.items()}
    return files, sorted(checks), exp


def judge_trlc(case):
    files, checks, exp = trlc_files(case)
    order = sorted(files, reverse=bool(case["rev"]))
    res = drv.run(files, order=order)
    if res.crash:
        return Verdict("crash", res.crash + "\n" + show(files),
                       "crash:" + res.crash)
    d = digest(res)
    if not d[0] or d[1] != checks or not same_objs(dict(d[2]), exp):
        return Verdict("violation", "result is %s %s\nexpected %s %s\n%s" %
                       (d, res.msgs, checks, exp, show(files)),
                       "trlc result")
    return Verdict("trlc ok")


def trlc_cases(tier):
    perms = list(itertools.permutations(range(4)))
    for g in range(64):
        for s in range(4):
            for late in (False, True):
                for i, names in enumerate(perms):
                    if tier == "quick" and i % 5:
                        continue
                    for rev in (0, 1):
                        yield {"k": "trlc", "g": g, "s": s, "late": late,
                               "names": names, "rev": rev}


##############################################################################
# Orders of objects
##############################################################################

OBJ = {
    "oa": ("T", {"v": 1, "r": "P.ob"}, []),
    "ob": ("X", {"v": 2, "r": "P.oa", "w": 7}, ["low"]),
    "oc": ("T", {"v": 5, "l": ["P.oa", "P.oc", "P.ob"],
                 "m": "[[ob, od]] [[oc]]"}, []),
    "od": ("X", {"v": 0, "r": "P.od", "w": 8}, ["low", "zero"]),
}
BADREF = {"oa": "l = [ob]", "ob": "r = missing", "oc": "x = oa",
          "od": "m = \"[[T]]\""}


def obj_text(name, bad):
    typ, d, _ = OBJ[name]
    out = ["%s %s {" % (typ, name)]
    for k, v in d.items():
        if k == "m":
            out.append("  m = \"%s\"" % v)
        elif isinstance(v, list):
            out.append("  %s = [%s]" % (k, ", ".join(v)))
        else:
            out.append("  %s = %s" % (k, v))
    if bad:
        out.append("  x = oa")
    out.append("}")
    return out


def judge_obj(case):
    rsl = ["package P", "type T {", "  v Integer", "  r optional T",
           "  l optional T [0..*]", "  m optional Markup_String",
           "  x optional X2", "}"]
    rsl.insert(1, "type X2 { }")
    rsl += ["type X extends T { w Integer }",
            "checks X { v > 3, warning \"low\" }",
            "checks T { v != 0, error \"zero\" }"]
    files = {"p.rsl": lines(rsl)}
    out = {0: ["package P"], 1: ["package P"]}
    objs = case["objs"]
    sect = {}
    for i, name in enumerate(objs):
        where = case["split"] >> i & 1
        text = obj_text(name, name == case["bad"])
        if case["sect"] >> i & 1:
            text = ["section \"S\" {"] + text + ["}"]
            sect[name] = ["S"]
        out[where] += text
    a, b = ("a", "b") if not case["rev"] else ("b", "a")
    files[a + ".trlc"] = lines(out[0])
    if case["split"]:
        files[b + ".trlc"] = lines(out[1])
    res = drv.run(files)
    if res.crash:
        return Verdict("crash", res.crash + "\n" + show(files),
                       "crash:" + res.crash)
    d = digest(res)
    if case["bad"] is not None:
        if res.ok or not res.errors() or d[1]:
            return Verdict("violation", "wrong reference is accepted %s\n%s"
                           % (d, show(files)), "bad ref")
        return Verdict("rejected")
    checks = sorted(("USER_ERROR" if c == "zero" else "USER_WARNING", c, "")
                    for n in objs for c in OBJ[n][2])
    fail = "od" in objs
    if fail:
        good = not res.ok and d[1] == checks
    else:
        exp = {"P." + n: ("P." + OBJ[n][0],
                          repr(sorted(OBJ[n][1].items())),
                          sect.get(n, [])) for n in objs}
        good = d[0] and d[1] == checks and same_objs(dict(d[2]), exp)
    if not good:
        return Verdict("violation", "result is %s %s\nexpected %s\n%s" %
                       (d, res.msgs, checks, show(files)), "object order")
    return Verdict("objects " + ("fail" if fail else "ok"))


def obj_cases(tier):
    for objs in itertools.permutations(OBJ):
        for split in range(16):
            for rev in (False, True):
                for bad in (None, "oa", "oc"):
                    yield {"k": "obj", "objs": objs, "split": split,
                           "rev": rev, "bad": bad,
                           "sect": (split * 7 + rev * 3) & 15}
    for objs in itertools.permutations(["oa", "ob", "oc"]):
        # without od everything is accepted (oc must not mention od)
        for split in range(8):
            for rev in (False, True):
                for sect in range(8):
                    yield {"k": "obj3", "objs": objs, "split": split,
                           "rev": rev, "sect": sect}


def judge_obj3(case):
    save = OBJ["oc"]
    OBJ["oc"] = ("T", {"v": 5, "l": ["P.oa", "P.oc", "P.ob"],
                       "m": "[[ob]] [[oc]]"}, [])
    try:
        return judge_obj(dict(case, bad=None))
    finally:
        OBJ["oc"] = save


##############################################################################
# Hash seeds
##############################################################################

def seed_digest():
    h = hashlib.sha256()
    n = 0
    for case in rsl_cases("quick"):
        if case["n"] == 4 and case["g"] % 37:
            continue
        if case["n"] == 3 and case["names"] not in ((0, 1, 2), (2, 0, 1)):
            continue
        names = ["%s.rsl" % "abcd"[i] for i in case["names"]]
        edges = edges_of(case["n"], case["g"])
        files = rsl_files(case["n"], edges, names)
        d = digest(drv.run(files, lint=True))
        h.update(json.dumps(d).encode())
        n += 1
    for case in trlc_cases("quick"):
        if (case["g"] + case["s"]) % 5 or case["rev"]:
            continue
        files, _, _ = trlc_files(case)
        h.update(json.dumps(digest(drv.run(files, lint=True))).encode())
        n += 1
    return "%s %u" % (h.hexdigest(), n)


_ref = None


def judge_seed(case):
    env = dict(os.environ, PYTHONHASHSEED=str(case["seed"]))
    env["PYTHONPATH"] = os.path.dirname(os.path.dirname(
        os.path.abspath(__file__)))
    rv = []
    for s in (case["seed"], case["ref"]):
        env["PYTHONHASHSEED"] = str(s)
        p = subprocess.run([sys.executable, "-c",
                            "from mc import c08; print(c08.seed_digest())"],
                           env=env, capture_output=True, text=True)
        rv.append(p.stdout.strip() or p.stderr[-500:])
    if rv[0] != rv[1]:
        return Verdict("violation", "results differ between hash seeds %u "
                       "and %u: %s" % (case["seed"], case["ref"], rv),
                       "hash seed")
    n = int(rv[0].split()[-1])
    return Verdict("hash seed", None, None, n, n, 2 * n)


##############################################################################
# Ways to register
##############################################################################

def judge_dir(case):
    """The same files given as contents, as files, and as directory"""
    files = rsl_files(3, edges_of(3, case["g"]), ["a.rsl", "b.rsl", "c.rsl"])
    want = digest(drv.run(files))
    root = os.path.join(drv.scratch(), "dir")
    import shutil
    shutil.rmtree(root, True)
    os.makedirs(root)
    for i, (fn, text) in enumerate(sorted(files.items())):
        sub = os.path.join(root, case["subs"][i % len(case["subs"])])
        os.makedirs(sub, exist_ok=True)
        with open(os.path.join(sub, fn), "w", encoding="UTF-8") as fd:
            fd.write(text)
    mh = drv.Recorder()
    sm = drv.Source_Manager(mh, lint_mode=False)
    ok = True
    if case["how"] == "dir":
        ok = sm.register_directory(root)
    else:
        for path, _, fns in os.walk(root):
            for fn in fns:
                ok &= sm.register_file(os.path.join(path, fn))
    stab = sm.process()
    shutil.rmtree(root, True)
    got = digest(drv.Result(mh.msgs, stab, None, mh, ok, "", sm))
    if got != want:
        return Verdict("violation", "%s differs: %s, %s\n%s" %
                       (case["how"], got, want, show(files)), "directory")
    return Verdict("directory")


def cases(tier):
    for s in seeds(tier)[1:]:
        yield {"k": "seed", "seed": s, "ref": 0}
    for g in range(64):
        for subs in (["."], ["x", "y"], ["x/y", "x", "."]):
            for how in ("dir", "file"):
                yield {"k": "dir", "g": g, "subs": subs, "how": how}
    yield from obj_cases(tier)
    yield from trlc_cases(tier)
    yield from rsl_cases(tier)


def judge(case):
    return {"rsl": judge_rsl, "trlc": judge_trlc, "obj": judge_obj,
            "obj3": judge_obj3, "seed": judge_seed,
            "dir": judge_dir}[case["k"]](case)
