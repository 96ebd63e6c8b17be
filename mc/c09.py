"""C09: include paths add exactly the files that are needed.

All import graphs (rsl and trlc) over a few packages x all splits of the
files into primary and include files. Oracle: the closure over the two-node
per package graph described in documentation/architecture.md, and the result
of processing exactly the closure explicitly (differential)."""
import itertools
import os
import shutil

from . import drv
from .c08 import edges_of, acyclic, digest, show, lines, PK
from .core import Verdict

PID = "C09"
ASSUMPTIONS = [
    "an import in an rsl file needs the rsl file of the imported package "
    "only; an import in a trlc file needs all its trlc files too (this is "
    "the documented design)",
    "the names of packages in unneeded files are visible as packages (also "
    "documented)",
]
JUNK = {
    "none": "",
    "syntax": "type type } {\n",
    "types": "type Dup { x Missing }\ntype Dup { }\n",
    "check": "checks T { 1 + true, \"m\" }\n",
}
JUNK_TRLC = {
    "none": "",
    "syntax": "T junk { v = = }\n",
    "types": "Missing junk { }\nT junk { nope = 1 }\n",
    "check": "T junk { v = 0  bad = true }\n",
}
SPLIT = [
    (lambda i: i, lambda i: i[:1]),
    (lambda i: i[:1], lambda i: i[1:]),
    (lambda i: i[1:], lambda i: i[:1]),
    (lambda i: [], lambda i: i),
    (lambda i: i, lambda i: []),
]


def bounds(tier):
    return {"packages": 3, "rsl_graphs": 64, "trlc_graphs": 64,
            "files_per_package": "1 rsl, up to 2 trlc, 5 distributions of "
            "the imports over the two",
            "primary_sets": "all single, %s" %
            ("all" if tier == "thorough" else "some pairs; all for 2 "
             "packages")}


def build(case):
    """-> {file: text}, {file: (pkg, kind, imports)}"""
    n = case["n"]
    re_, te = edges_of(n, case["rg"]), edges_of(n, case["tg"])
    files, meta = {}, {}
    needed = case.get("needed")
    for a in range(n):
        if case["rsl"][a] == "absent":
            continue
        imps = [b for x, b in re_ if x == a]
        fn = "%s.rsl" % "cab"[a]
        out = ["package " + PK[a]] + ["import " + PK[b] for b in imps]
        out += ["type T {", "  v Integer", "  bad optional Boolean",
                "  m optional Markup_String", "  r optional T"]
        out += ["  r%u optional %s.T" % (b, PK[b]) for b in imps]
        out += ["}", "checks T {", "  v != 1, warning \"%s\"" % PK[a],
                "  bad == null, error \"bad\"", "}"]
        files[fn] = lines(out)
        meta[fn] = (a, "rsl", imps)
    for a in range(n):
        for k in range(case["ntrlc"]):
            if case["trlc"][a][k] == "absent":
                continue
            imps = [b for x, b in te if x == a]
            # how the imports are distributed over two files
            imps = SPLIT[case.get("split", 0)][k](imps)
            fn = "%s%u.trlc" % ("bca"[a], k)
            out = ["package " + PK[a]] + ["import " + PK[b] for b in imps]
            out += ["T o%u {" % k, "  v = %u" % (a + k)]
            tg = ["%s.o0" % PK[b] for b in imps]
            if case.get("refs") and tg:
                out += ["  m = \"%s\"" % " ".join("[[%s]]" % t for t in tg)]
            out += ["}"]
            files[fn] = lines(out)
            meta[fn] = (a, "trlc", imps)
    return files, meta


def closure(meta, primary):
    nodes = {}
    for fn, (a, kind, imps) in meta.items():
        nodes.setdefault((a, "rsl"), set())
        nodes.setdefault((a, "trlc"), {(a, "rsl")})
    for fn, (a, kind, imps) in meta.items():
        for b in imps:
            nodes[(a, kind)].add((b, kind))
    todo = {(meta[f][0], meta[f][1]) for f in primary}
    done = set()
    while todo:
        x = todo.pop()
        if x in done or x not in nodes:
            continue
        done.add(x)
        todo |= nodes[x]
    return {f for f, (a, kind, _) in meta.items() if (a, kind) in done} | \
        set(primary)


def place(case, files, primary):
    """Run with the given primary files, the others are include files"""
    if case["how"] == "mem":
        return drv.run(files, primary=primary,
                       order=sorted(files, reverse=bool(case.get("rev"))))
    root = os.path.join(drv.scratch(), "inc")
    shutil.rmtree(root, True)
    os.makedirs(os.path.join(root, "main"))
    os.makedirs(os.path.join(root, "inc", "deep", "er"))
    os.makedirs(os.path.join(root, "inc2"))
    paths = {}
    for i, fn in enumerate(sorted(files)):
        if fn in primary:
            d = "main"
        else:
            d = ["inc", "inc/deep", "inc/deep/er", "inc2"][i % 4]
        if case["how"] in ("dot", "rel", "relinc", "here") and \
           fn in primary:
            d = "inc"          # primary file is below the include path
        paths[fn] = os.path.join(root, d, fn)
        with open(paths[fn], "w", encoding="UTF-8") as fd:
            fd.write(files[fn])
    mh = drv.Recorder()
    sm = drv.Source_Manager(mh, lint_mode=False)
    stab = crash = None
    ok = True
    # the same file has many names
    cwd = os.getcwd()
    incs = [os.path.join(root, "inc"), os.path.join(root, "inc2")]
    names = dict(paths)
    try:
        if case["how"] == "here":
            os.chdir(incs[0])
            incs = [".", os.path.join("..", "inc2")]
            names = {fn: os.path.relpath(paths[fn]) for fn in paths}
        elif case["how"] in ("rel", "relinc"):
            os.chdir(root)
            if case["how"] == "rel":
                names = {fn: os.path.relpath(paths[fn]) for fn in paths}
            else:
                incs = ["inc", os.path.join(".", "inc", "..", "inc2")]
        for inc in incs:
            sm.register_include(inc)
        if case["how"] == "twice":
            sm.register_include(root)
        for fn in primary:
            ok &= sm.register_file(names[fn])
        stab = sm.process()
    except Exception as err:      # noqa
        crash = drv.crash_sig(err)
    finally:
        os.chdir(cwd)
    shutil.rmtree(root, True)
    return drv.Result(mh.msgs, stab, crash, mh, ok, "", sm)


def judge(case):
    files, meta = build(case)
    primary = [f for f in sorted(files)
               if (case["rsl"][meta[f][0]] if meta[f][1] == "rsl" else
                   case["trlc"][meta[f][0]][int(f[1])]) == "p"]
    if not primary:
        return Verdict("nothing")
    clo = closure(meta, primary)
    junk = case.get("junk", "none")
    allf = dict(files)
    unneeded = [f for f in files if f not in clo]
    for f in unneeded:
        allf[f] += (JUNK if f.endswith(".rsl") else JUNK_TRLC)[junk]
    res = place(case, allf, primary)
    what = "primary %s\n%s" % (primary, show(allf))
    if res.crash:
        return Verdict("crash", res.crash + "\n" + what,
                       "crash:" + res.crash)
    # imports of packages which do not exist are an error wherever they are
    exist = {meta[f][0] for f in files}
    missing = any(b not in exist for f in files for b in meta[f][2])
    # for an rsl file the imported package must have an rsl file
    missing |= any(("%s.rsl" % "cab"[b]) not in files
                   for f in files if meta[f][1] == "rsl"
                   for b in meta[f][2])
    if missing:
        if res.ok and not res.errors():
            return Verdict("violation", "import of a missing package is "
                           "accepted\n" + what, "missing import")
        return Verdict("missing import")
    explicit = drv.run({f: files[f] for f in clo})
    # a package the closure does not have may be imported by none of it
    got, want = digest(res), digest(explicit)
    if got != want:
        return Verdict("violation", "closure %s\nresult   %s %s\nexplicit "
                       "%s %s\n%s" % (sorted(clo), got, res.msgs, want,
                                      explicit.msgs, what), "differs")
    # and independently of the second run
    sub = [f for f in clo if meta[f][1] == "rsl"]
    rsle = [(meta[f][0], b) for f in sub for b in meta[f][2]]
    good = acyclic(case["n"], rsle)
    norsl = {meta[f][0] for f in clo if meta[f][1] == "trlc"} - \
        {meta[f][0] for f in sub}
    good &= not norsl
    if good != bool(got[0]):
        return Verdict("violation", "closure %s: verdict is %s %s\n%s" %
                       (sorted(clo), got[0], res.msgs, what), "verdict")
    if good:
        objs = sorted("%s.o%s" % (PK[meta[f][0]], f[1]) for f in clo
                      if meta[f][1] == "trlc")
        if sorted(k for k, _ in got[2]) != objs:
            return Verdict("violation", "closure %s: objects are %s\n%s" %
                           (sorted(clo), got[2], what), "objects")
    n = len(files)
    return Verdict("%s, %u of %u files" % ("ok" if good else "error",
                                           len(clo), n), None, None,
                   n, sum(len(m[2]) for m in meta.values()), 2)


def cases(tier):
    # three packages, one or two primary files
    prim = [(p,) for p in range(6)]
    prim += [(0, 4), (1, 5)] if tier == "quick" else \
        list(itertools.combinations(range(6), 2))
    junks = list(JUNK)
    for rg in range(64):
        for tg in range(64):
            for pi, pr in enumerate(prim):
                yield {"n": 3, "rg": rg, "tg": tg, "ntrlc": 1,
                       "rsl": ["p" if a in pr else "i" for a in range(3)],
                       "trlc": [["p" if a + 3 in pr else "i"]
                                for a in range(3)],
                       "how": "mem", "junk": junks[(rg + tg + pi) % 4],
                       "refs": 1, "rev": (rg + pi) & 1}
    # two packages, everything
    opt = ["p", "i", "absent"]
    for rg in range(4):
        for tg in range(4):
            for rsl in itertools.product(opt, repeat=2):
                for tr in itertools.product(opt, repeat=4):
                    yield {"n": 2, "rg": rg, "tg": tg, "ntrlc": 2,
                           "rsl": rsl, "trlc": [tr[:2], tr[2:]],
                           "how": "mem",
                           "junk": junks[(rg + tg + len(set(tr))) % 4]}
    # three packages, imports distributed over two trlc files of a package
    for tg in range(64):
        for rg in ((0, 9) if tier == "quick" else range(0, 64, 5)):
            for split in range(1, 5):
                for pr in range(3):
                    yield {"n": 3, "rg": rg, "tg": tg, "ntrlc": 2,
                           "rsl": ["p" if a == pr else "i"
                                   for a in range(3)],
                           "trlc": [["p" if a == pr else "i"] * 2
                                    for a in range(3)],
                           "how": "mem", "junk": "types", "refs": 1,
                           "split": split}
    # real include directories
    for rg in (0, 1, 2, 5, 9, 33, 37):
        for tg in range(64):
            for pr in range(6):
                for how in ("disk", "dot", "twice", "rel", "relinc", "here"):
                    if tier == "quick" and (tg + pr) % 4:
                        continue
                    yield {"n": 3, "rg": rg, "tg": tg, "ntrlc": 1,
                           "rsl": ["p" if a == pr else "i"
                                   for a in range(3)],
                           "trlc": [["p" if a + 3 == pr else "i"]
                                    for a in range(3)],
                           "how": how, "junk": "types", "refs": 1}
