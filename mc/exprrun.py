"""Runs check expressions on the implementation and compares with the model.

Each expression e_k gets its own extension X_k of the world's type T with a
single check on its own line; for every assignment there is one object of
X_k on its own line. Then

  model False      <=> exactly one USER_ERROR for that object
  model "err"      <=> one SYS_ERROR
  model True       <=> nothing
"""
import time

from . import drv
from .exprworld import files as files_of

# Seconds this process has spent on telling which check of a failed batch is
# to blame; the verdict does not depend on it
SPENT = [0.0]


def literal(n):
    return n


def build(head, head_objs, items):
    """items: list of (text, [body, ...]). Returns (files, line of checks,
    {trlc line: (k, j)}, first object line)"""
    rsl = head.rstrip("\n").split("\n")
    chk = {}
    for k, (text, _) in enumerate(items):
        rsl.append("type X%u extends T {}" % k)
        rsl.append("checks X%u { %s, \"m\" }" % (k, text))
        chk[len(rsl)] = k
    trlc = ["package P"] + head_objs.rstrip("\n").split("\n")
    base = len(trlc)
    obj = {}
    for k, (_, bodies) in enumerate(items):
        for j, body in enumerate(bodies):
            trlc.append("X%u x%uz%u { %s }" % (k, k, j, body))
            obj[len(trlc)] = (k, j)
    return (files_of("\n".join(rsl) + "\n",
                     "\n".join(trlc) + "\n"), chk, obj, base)


def observe(head, head_objs, text, body):
    """Outcome of one check on one object: True, False, "err", or a text
    describing something else"""
    files, chk, obj, base = build(head, head_objs, [(text, [body])])
    r = drv.run({n: t for n, t in files.items() if n.endswith(".rsl")})
    if r.crash:
        return "crash: " + r.crash
    if r.msgs:
        return "rejected: %r" % r.msgs
    r = drv.run(files)
    if r.crash:
        return "crash: " + r.crash
    user = [m for m in r.msgs if m.kind == "USER_ERROR"]
    sysm = [m for m in r.msgs if m.kind == "SYS_ERROR"]
    other = [m for m in r.msgs if m.kind not in ("USER_ERROR", "SYS_ERROR")]
    if other:
        return "unexpected message %r" % other[0]
    if (r.stab is None) != bool(r.msgs):
        return "verdict does not fit the messages %r" % r.msgs
    if not r.msgs:
        return True
    if len(user) == 1 and not sysm:
        if user[0].file != "p.trlc" or \
           obj.get(user[0].line) != (0, 0):
            return "check error at the wrong place %r" % user
        return False
    if len(sysm) == 1 and not user:
        m = sysm[0]
        if m.file == "p.rsl" and m.line not in chk:
            return "rejected: %r" % m
        if m.file == "p.trlc" and m.line > base and \
           obj.get(m.line) != (0, 0):
            return "error at the wrong place %r" % m
        return "err"
    return "unexpected messages %r" % r.msgs


def compare(head, head_objs, items):
    """items: list of (text, [(body, expected)]). Returns list of
    (text, body, expected, observed), empty if all agree; and the number of
    executions"""
    files, chk, obj, base = build(
        head, head_objs, [(t, [b for b, _ in bs]) for t, bs in items])
    r = drv.run(files)
    bad = None
    nerr = sum(1 for _, bs in items for _, x in bs if x == "err")
    if r.crash:
        bad = "crash"
    else:
        fired = sorted((obj.get(m.line, (-1, -1)) if m.file == "p.trlc"
                        else (-2, -2))
                       for m in r.msgs if m.kind == "USER_ERROR")
        want = sorted((k, j) for k, (_, bs) in enumerate(items)
                      for j, (_, x) in enumerate(bs) if x is False)
        nsys = 0
        for m in r.msgs:
            if m.kind == "SYS_ERROR":
                nsys += 1
                if m.file == "p.rsl" and m.line not in chk:
                    bad = "rejected"
            elif m.kind != "USER_ERROR":
                bad = "msg"
        if fired != want or nsys != nerr:
            bad = "mismatch"
        if (r.stab is None) != bool(want or nerr):
            bad = "verdict"
        if r.mh.errors != len(want) + nerr:
            bad = "count"
    if bad is None:
        return []
    rv = []
    begin = time.time()
    for text, bs in items:
        for body, exp in bs:
            if SPENT[0] + time.time() - begin > 20:
                break
            got = observe(head, head_objs, text, body)
            if got != exp:
                rv.append((text, body, exp, got))
                break
        if len(rv) >= 5:
            break
    SPENT[0] += time.time() - begin
    if not rv:
        rv.append(("<batch>", "", "agreement of the whole batch",
                   "%s: %r %s" % (bad, [m for m in r.msgs][:3], r.crash)))
    return rv
