"""C06: exactly the applicable user checks fire, in the defined order.

Space: all distributions of up to n checks with all severities over an
inheritance chain and its check blocks (x all truth assignments x all object
types), all tuple shapes (direct, optional, array, nested, inherited, frozen)
with all severities and all failing positions, and all forms of a check
(severity, details, anchor). The reference model says which messages each
object must produce, at which line, and whether processing succeeds.
"""
import itertools

from . import drv
from .core import Verdict

PID = "C06"
ASSUMPTIONS = [
    "the order between different check blocks of one type, and between "
    "different objects, is left open (as in the manual)",
    "tuple checks of an object are evaluated before its record checks "
    "(manual: 'immediately after the last value is parsed'); the order "
    "between different tuple values of one object is left open",
]

SEV = ["warning", "error", "fatal", ""]


def bounds(tier):
    return {"chain_checks": 3 if tier == "quick" else 4,
            "chain_depth": 3,
            "truth_assignments": "all",
            "tuple_nesting": 2,
            "array_length": 2 if tier == "quick" else 3}


class Chk:
    def __init__(self, sev, expr, pred, msg, details=None, anchor=None):
        self.sev = sev
        self.expr = expr
        self.pred = pred
        self.msg = msg
        self.details = details
        self.anchor = anchor

    def text(self):
        rv = "  %s, %s \"%s\"" % (self.expr, self.sev, self.msg)
        if self.details is not None:
            q = "'''" if "\n" in self.details else "\""
            rv += ", " + q + self.details + q
        if self.anchor is not None:
            rv += ", %s" % self.anchor
        return rv

    def entry(self, where):
        kind = "USER_WARNING" if self.sev == "warning" else "USER_ERROR"
        return (kind, self.msg, self.details or "") + tuple(where)


def block(tname, checks):
    return ["checks %s {" % tname] + [c.text() for c in checks] + ["}"]


def run_blocks(blocks_in_order, fields, locs, objloc):
    """Messages for a list of groups of unordered blocks. Returns the list of
    acceptable sequences."""
    seqs = [([], False)]
    for group in blocks_in_order:
        out = []
        for perm in itertools.permutations(group):
            for seq, dead in seqs:
                seq = list(seq)
                if not dead:
                    for c in (c for b in perm for c in b):
                        if c.pred(fields):
                            continue
                        seq.append(c.entry(locs.get(c.anchor, objloc)))
                        if c.sev == "fatal":
                            dead = True
                            break
                if (seq, dead) not in out:
                    out.append((seq, dead))
        seqs = out
    return seqs


def observe(files, **kw):
    return drv.run(files, **kw)


def msgs_in(res, fname, lo, hi):
    return [(m.kind, m.text, m.extra or "", m.file, m.line)
            for m in res.msgs if m.file == fname and lo <= m.line <= hi]


def fails(seq):
    return any(e[0] == "USER_ERROR" for e in seq)


##############################################################################
# Inheritance chains
##############################################################################

NAMES = ["Base", "Mid", "End"]


def chain_types(layout):
    """layout: list (per type) of list (per block) of list of severities"""
    n = 0
    blocks = []
    types = []
    for t, blk in enumerate(layout):
        comps = []
        tb = []
        for b in blk:
            checks = []
            for sev in b:
                nm = "c%u" % n
                comps.append(nm)
                checks.append(Chk(sev, nm, lambda f, nm=nm: f[nm],
                                  "m%u" % n,
                                  "d%u" % n if n % 2 else None,
                                  nm if n % 3 == 1 else None))
                n += 1
            tb.append(checks)
        types.append(comps)
        blocks.append(tb)
    return types, blocks


def chain_rsl(types, blocks, split):
    """split: index of the first type which is in package Q"""
    out = {"P": ["package P"], "Q": ["package Q", "import P"]}
    late = {"P": [], "Q": []}
    for t, comps in enumerate(types):
        pk = "Q" if t >= split else "P"
        ext = ""
        if t:
            ppk = "Q" if t - 1 >= split else "P"
            ext = " extends %s%s" % ("P." if ppk != pk else "",
                                     NAMES[t - 1])
        out[pk].append("type %s%s {" % (NAMES[t], ext))
        if t == 0:
            out[pk].append("  ref optional Base")
            out[pk].append("  uni optional [Base]")
        for c in comps:
            out[pk].append("  %s Boolean" % c)
        out[pk].append("}")
        for i, b in enumerate(blocks[t]):
            # the second block comes only after everything else
            (late if i else out)[pk] += block(NAMES[t], b)
    for pk in out:
        out[pk] += late[pk]
    return out


def chain_objects(types, split):
    """All objects: every type, every truth assignment"""
    objs = []
    for t in range(len(types)):
        comps = [c for cs in types[:t + 1] for c in cs]
        for bits in itertools.product([True, False], repeat=len(comps)):
            objs.append((t, dict(zip(comps, bits))))
    return objs


def judge_chain(case):
    types, blocks = chain_types(case["layout"])
    split = case["split"]
    rsl = chain_rsl(types, blocks, split)
    objs = chain_objects(types, split)
    if "one" in case:
        objs = [objs[case["one"]]]
    files = {"p.rsl": "\n".join(rsl["P"]) + "\n"}
    if split < len(types):
        files["q.rsl"] = "\n".join(rsl["Q"]) + "\n"
    # objects are spread over several files, packages, and sections
    tf = {"a.trlc": ["package P"], "b.trlc": ["package P"],
          "c.trlc": ["package C", "import P"]}
    if split < len(types):
        tf["c.trlc"].append("import Q")
        tf["d.trlc"] = ["package Q", "import P"]
    exp = []
    for i, (t, vals) in enumerate(objs):
        inq = t >= split
        place = ["c.trlc", "d.trlc"] if inq else ["a.trlc", "b.trlc",
                                                  "c.trlc"]
        fn = place[i % len(place)]
        lines = tf[fn]
        qual = ""
        if inq and fn == "c.trlc":
            qual = "Q."
        elif not inq and fn == "c.trlc":
            qual = "P."
        sect = i % 4 == 1
        if sect:
            lines.append("section \"S%u\" {" % i)
        lines.append("%s%s o%u {" % (qual, NAMES[t], i))
        lo = len(lines)
        locs = {}
        for c in reversed(sorted(vals)):
            lines.append("  %s = %s" % (c, "true" if vals[c] else "false"))
            locs[c] = (fn, len(lines))
        if len(objs) > 1 and i % 3 == 0 and fn != "d.trlc":
            tgt = "P.o0" if fn == "c.trlc" else "o0"
            lines.append("  ref = %s" % tgt)
            lines.append("  uni = %s" % tgt)
        lines.append("}")
        hi = len(lines)
        if sect:
            lines.append("}")
        exp.append((fn, lo, hi, run_blocks(blocks[:t + 1], vals, locs,
                                           (fn, lo))))
    for fn, lines in tf.items():
        files[fn] = "\n".join(lines) + "\n"
    return compare(files, exp)


def compare(files, exp):
    """exp: list of (file, first line, last line, [(sequence, dead)])"""
    res = observe(files)
    trans = sum(len(s[0][0]) for _, _, _, s in exp) + len(exp)
    if res.crash:
        return Verdict("crash", res.crash, "crash:" + res.crash,
                       len(exp), trans)
    anyfail = False
    total = 0
    warnings = 0
    for fn, lo, hi, seqs in exp:
        got = msgs_in(res, fn, lo, hi)
        if got not in [s for s, _ in seqs]:
            return Verdict("violation",
                           "object at %s:%u reports\n%s\nbut must report\n%s"
                           "\nfiles: %s" %
                           (fn, lo, got, seqs[0][0], show(files)),
                           "messages", len(exp), trans)
        total += len(got)
        warnings += sum(1 for g in got if g[0] == "USER_WARNING")
        anyfail |= fails(got)
    if total != len(res.msgs):
        return Verdict("violation", "unexpected messages: %s\n%s" %
                       (res.msgs, show(files)), "extra", len(exp), trans)
    if (res.mh.errors, res.mh.warnings) != (total - warnings, warnings):
        return Verdict("violation", "counters: %u errors, %u warnings for %s"
                       "\n%s" % (res.mh.errors, res.mh.warnings, res.msgs,
                                 show(files)), "counters", len(exp), trans)
    if anyfail == res.ok:
        return Verdict("violation", "processing %s although %s\n%s" %
                       ("succeeds" if res.ok else "fails", res.msgs,
                        show(files)), "verdict", len(exp), trans)
    return Verdict("%s errors=%s warnings=%s" %
                   ("fail" if anyfail else "ok",
                    min(total - warnings, 9), min(warnings, 9)),
                   None, None, len(exp), trans)


def show(files):
    return "\n".join("--- %s\n%s" % (n, t) for n, t in files.items())


def layouts(n, depth):
    """All ways to put n checks (in order) into the types of a chain, each
    with one or two blocks"""
    def split_types(k, d):
        if d == 1:
            yield [k]
            return
        for i in range(k + 1):
            for rest in split_types(k - i, d - 1):
                yield [i] + rest
    for counts in split_types(n, depth):
        opts = []
        for c in counts:
            o = [[c]] if c else [[]]
            if c >= 2:
                o += [[j, c - j] for j in range(1, c)]
            opts.append(o)
        for shape in itertools.product(*opts):
            yield shape


def fill(shape, sevs):
    it = iter(sevs)
    return [[[next(it) for _ in range(k)] for k in blk] for blk in shape]


def chain_cases(tier):
    nmax = 3 if tier == "quick" else 4
    for depth in (1, 2, 3):
        for n in range(1, nmax + 1):
            for shape in layouts(n, depth):
                for sevs in itertools.product(SEV, repeat=n):
                    if n == nmax and "" in sevs:
                        continue    # '' is the same as error (see below)
                    splits = range(1, depth + 1)
                    for split in splits:
                        yield {"k": "chain", "layout": fill(shape, sevs),
                               "split": split}
    # single objects (these determine the verdict)
    for depth in (1, 2, 3):
        for n in (1, 2):
            for shape in layouts(n, depth):
                for sevs in itertools.product(SEV, repeat=n):
                    lay = fill(shape, sevs)
                    types, _ = chain_types(lay)
                    for i in range(len(chain_objects(types, depth))):
                        yield {"k": "chain", "layout": lay, "split": depth,
                               "one": i}


##############################################################################
# Tuples
##############################################################################
#
# tuple T { a Integer b Integer }       checks: a == 1, b == 1
# tuple O { t T  x Integer }            check:  x == 1
# type  R { o optional O  arr T [0..*]  g T  ao O [0..*]}  check: k
# type  S extends R { freeze g = (..) }


def tup_val(v):
    return "(" + ", ".join(tup_val(x) if isinstance(x, (tuple, list))
                           else str(x) for x in v) + ")"


def tuple_blocks(case):
    st1, st2, so, sr = case["sev"]
    an = case["anchor"]
    ct = []
    if st1 is not None:
        ct.append(Chk(st1, "a == 1", lambda f: f[0] == 1, "ta", "dta",
                      "a" if an else None))
    if st2 is not None:
        ct.append(Chk(st2, "b == 1", lambda f: f[1] == 1, "tb", None,
                      "b" if an else None))
    co = []
    if so is not None:
        co.append(Chk(so, "x == 1", lambda f: f[1] == 1, "ox", None, None))
    cr = []
    if sr is not None:
        cr.append(Chk(sr, "k", lambda f: f["k"], "rk", None, None))
    return ct, co, cr


def tuple_msgs(ct, co, val, loc, is_o):
    """list of (sequence) evaluation units for one tuple value, inner
    first"""
    units = []
    if is_o:
        units += tuple_msgs(ct, co, val[0], loc, False)
        checks = co
        fields = val
    else:
        checks = ct
        fields = val
    seq = []
    dead = False
    for c in checks:
        if not c.pred(fields):
            seq.append(c.entry(loc))
            if c.sev == "fatal":
                dead = True
                break
    units.append((seq, dead))
    return units


def judge_tuple(case):
    ct, co, cr = tuple_blocks(case)
    rsl = ["package P",
           "tuple T {", "  a Integer", "  b Integer", "}"]
    if ct:
        rsl += block("T", ct)
    rsl += ["tuple O {", "  t T", "  x Integer", "}"]
    if co:
        rsl += block("O", co)
    rsl += ["type R {", "  k Boolean", "  o optional O",
            "  arr T [0..*]", "  g T", "  ao O [0..*]", "}"]
    if cr:
        rsl += block("R", cr)
    rsl += ["type S extends R {", "  freeze g =",
            "    " + tup_val(case["frozen"])]
    frozen_line = len(rsl)
    rsl += ["}"]
    trlc = ["package P"]
    exp = []
    base_units = []
    for i, obj in enumerate(case["objs"]):
        trlc.append("%s x%u {" % (obj["type"], i))
        lo = len(trlc)
        groups = []

        def put(name, val, is_o):
            trlc.append("  %s = %s" % (name, tup_val(val)))
            loc = ("a.trlc", len(trlc))
            groups.append(tuple_msgs(ct, co, val, loc, is_o))

        trlc.append("  k = %s" % ("true" if obj["k"] else "false"))
        if obj["o"] is not None:
            put("o", obj["o"], True)
        for nm, is_o in (("arr", False), ("ao", True)):
            trlc.append("  %s = [" % nm)
            for j, v in enumerate(obj[nm]):
                trlc.append("    %s%s" % (tup_val(v),
                                          "," if j + 1 < len(obj[nm])
                                          else ""))
                loc = ("a.trlc", len(trlc))
                groups.append(tuple_msgs(ct, co, v, loc, is_o))
            trlc.append("  ]")
        if obj["type"] == "R":
            put("g", obj["g"], False)
        else:
            groups.append(tuple_msgs(ct, co, case["frozen"],
                                     ("p.rsl", frozen_line), False))
        trlc.append("}")
        hi = len(trlc)
        exp.append((lo, hi, groups, obj))
    files = {"p.rsl": "\n".join(rsl) + "\n",
             "a.trlc": "\n".join(trlc) + "\n"}
    res = observe(files)
    n = len(exp)
    if res.crash:
        return Verdict("crash", res.crash, "crash:" + res.crash, n, n)
    # messages at the frozen value cannot be attributed by their position;
    # there is at most one object of type S in a case, which is the last one
    pos = 0
    allm = [(m.kind, m.text, m.extra or "", m.file, m.line)
            for m in res.msgs]
    anyfail = False
    nexp = 0
    for lo, hi, groups, obj in exp:
        got = [e for e in allm if (e[3] == "a.trlc" and lo <= e[4] <= hi) or
               (e[3] == "p.rsl" and obj["type"] == "S")]
        rec = []
        for c in cr:
            if not c.pred(obj):
                rec.append(c.entry(("a.trlc", lo)))
        problem = match_units(got, groups, rec)
        if problem:
            return Verdict("violation", "object at line %u reports\n%s\n"
                           "expected tuple checks %s and record checks %s"
                           "\n(%s)\n%s" %
                           (lo, got, groups, rec, problem, show(files)),
                           "tuple messages", n, n)
        nexp += len(got)
        anyfail |= fails(got)
    if nexp != len(allm):
        return Verdict("violation", "unexpected messages: %s\n%s" %
                       (res.msgs, show(files)), "extra", n, n)
    if anyfail == res.ok:
        return Verdict("violation", "processing %s although %s\n%s" %
                       ("succeeds" if res.ok else "fails", res.msgs,
                        show(files)), "verdict", n, n)
    return Verdict("tuple %s" % ("fail" if anyfail else "ok"), None, None,
                   n, sum(len(g) for _, _, g, _ in exp))


def match_units(got, groups, rec):
    """The messages must be those of all tuple values (in an order which
    keeps the checks of one value together in order, and nested values
    before the containing one), followed by the record checks; after a
    failed fatal check nothing follows."""
    flat = [u for g in groups for u in g]
    if not any(dead for _, dead in flat):
        want = sorted(e for seq, _ in flat for e in seq)
        ntup = len(want)
        if sorted(got[:ntup]) != want:
            return "messages differ"
        if got[ntup:] != rec:
            return "record checks differ"
        # order within one value
        for seq, _ in flat:
            it = iter(got)
            if not all(e in it for e in seq):
                return "order within a tuple"
        for g in groups:
            it = iter(got)
            if not all(e in it for u in g for e in u[0]):
                return "order of nested tuples"
        return None
    # with a fatal failure: search for an order of the values
    units = [(gi, ui) for gi, g in enumerate(groups)
             for ui in range(len(g))]

    def search(pos, done):
        for gi, g in enumerate(groups):
            ui = done[gi]
            if ui >= len(g):
                continue
            seq, dead = g[ui]
            if got[pos:pos + len(seq)] != seq:
                continue
            if dead:
                if pos + len(seq) == len(got):
                    return True
                continue
            nd = list(done)
            nd[gi] += 1
            if search(pos + len(seq), nd):
                return True
            if not seq:
                # choosing an empty unit first never hurts
                return False
        return False
    assert units
    if search(0, [0] * len(groups)):
        return None
    return "no order of the tuple values gives these messages"


VT = [(1, 1), (2, 1), (1, 2), (2, 2)]


def tuple_objs(tier):
    vo = [None] + [(t, x) for t in VT for x in (1, 2)]
    amax = 2 if tier == "quick" else 3
    arrs = [[]] + [list(p) for n in range(1, amax + 1)
                   for p in itertools.product(VT, repeat=n)]
    out = []

    def mk(o=None, arr=(), g=(1, 1), ao=(), k=True):
        out.append({"type": "R", "k": k, "o": o, "arr": list(arr),
                    "g": g, "ao": list(ao)})
    for o in vo:
        for g in VT:
            for k in (True, False):
                mk(o=o, g=g, k=k)
    for arr in arrs:
        for k in (True, False):
            mk(arr=arr, k=k)
    for arr in arrs:
        for o in (vo[2], vo[4]):
            mk(arr=arr, o=o)
    for a in vo[1:]:
        for b in vo[1:]:
            mk(ao=[a, b])
        mk(ao=[a])
    return out


def tuple_cases(tier):
    opts = [None] + SEV[:3]
    objs = tuple_objs(tier)
    for sev in itertools.product(opts, opts, opts, opts):
        if not any(sev[:3]):
            continue
        anchor = sum(1 for s in sev if s) % 2
        for frozen in ((1, 1), (2, 1), (2, 2)):
            last = {"type": "S", "k": False, "o": None, "arr": [],
                    "g": None, "ao": []}
            if frozen == (1, 1):
                for i in range(0, len(objs), 40):
                    yield {"k": "tuple", "sev": sev, "anchor": anchor,
                           "objs": objs[i:i + 40], "frozen": frozen}
            yield {"k": "tuple", "sev": sev, "anchor": anchor,
                   "objs": objs[9:11] + [last], "frozen": frozen}
            yield {"k": "tuple", "sev": sev, "anchor": anchor,
                   "objs": [last], "frozen": frozen}
            yield {"k": "tuple", "sev": sev, "anchor": anchor,
                   "objs": [dict(last, k=True)], "frozen": frozen}
    # verdict of single objects
    for sev in itertools.product(opts, repeat=4):
        if sum(1 for s in sev if s) != 1 or sev[3]:
            continue
        for o in objs:
            yield {"k": "tuple", "sev": sev, "anchor": 0, "objs": [o],
                   "frozen": (1, 1)}


##############################################################################
# Form of a check
##############################################################################

def form_cases():
    for sev in SEV:
        for details in (None, "details", "a\nb", ""):
            for anchor in (None, "given", "inherited", "nul", "froz"):
                for brief in (False, True):
                    for val in (True, False):
                        yield {"k": "form", "sev": sev, "details": details,
                               "anchor": anchor, "brief": brief, "val": val}
    texts = ("the message", "", " ", " lead", "trail ", "100 %s {0} %",
             "error: x", "a  b", "\u00e4", "A", "the message.", "x" * 300,
             "a.trlc:1:2: lex error: x", "\\n", "[[x]]", "null")
    for sev in SEV:
        for msg in texts:
            for details in (None,) + texts[1:] + ("a\n\nb\nc",):
                for anchor in (None, "given"):
                    yield {"k": "form", "sev": sev, "details": details,
                           "anchor": anchor, "brief": False, "val": False,
                           "msg": msg}


def judge_form(case):
    anchor = case["anchor"]
    msg = case.get("msg", "the message")
    c = Chk(case["sev"], "cond", None, msg, case["details"], anchor)
    rsl = ["package P",
           "type B {", "  inherited String", "  froz Integer", "}",
           "type E extends B {", "  cond Boolean", "  given Integer",
           "  nul optional Integer", "  freeze froz =", "    7", "}"]
    rsl += block("E", [c])
    trlc = ["package P", "", "E obj {", "  cond = %s" %
            ("true" if case["val"] else "false"),
            "  inherited =", "    \"x\"", "  given =", "     5", "}"]
    where = {None: ("a.trlc", 3), "given": ("a.trlc", 8),
             "inherited": ("a.trlc", 6), "nul": ("a.trlc", 3),
             "froz": ("p.rsl", 11)}[anchor]
    res = observe({"p.rsl": "\n".join(rsl) + "\n",
                   "a.trlc": "\n".join(trlc) + "\n"}, brief=case["brief"])
    if res.crash:
        return Verdict("crash", res.crash, "crash:" + res.crash)
    exp = []
    if not case["val"]:
        exp.append(c.entry(where))
    got = [(m.kind, m.text, m.extra or "", m.file, m.line)
           for m in res.msgs]
    okv = case["val"] or case["sev"] == "warning"
    if got != exp or res.ok != okv:
        return Verdict("violation", "reports %s (ok=%s) but must report %s "
                       "(ok=%s)" % (got, res.ok, exp, okv), "form")
    if not case["val"]:
        shown = msg.strip() in res.output
        det = case["details"] in (None, "") or case["brief"] or \
            all("| " + x.rstrip() in res.output
                for x in case["details"].split("\n"))
        if not shown or not det:
            return Verdict("violation", "printed output lacks the message "
                           "or details: %r" % res.output, "print")
    return Verdict("form %s" % okv)


def cases(tier):
    yield from form_cases()
    yield from chain_cases(tier)
    yield from tuple_cases(tier)


def judge(case):
    return {"chain": judge_chain, "tuple": judge_tuple,
            "form": judge_form}[case["k"]](case)
