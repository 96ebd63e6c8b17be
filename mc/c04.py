"""C04: defined evaluations yield the value of the language definition."""
from . import exprrun
from . import exprspaces as S
from . import exprworld as W
from .core import Verdict

PID = "C04"
ASSUMPTIONS = [
    "remainder has the sign of the dividend (pinned by the system test "
    "rbt-expression and the manual's note on unary minus)",
    "quantifiers are evaluated with short-circuit semantics, as the manual "
    "recommends",
    "regular expressions are those of Python, matched at the start",
]
HEAD = W.head()
WANT_DEFINED = True
NAMES = tuple(S.DEFINED)


def bounds(tier):
    deep = tier == "thorough"
    return {n: {"expressions": sum(len(ex) for ex, _ in S.space(n, deep)),
                "assignments": sum(len(c or ()) for _, c in S.space(n, deep))}
            for n in NAMES}


def cases(tier):
    return S.cases(NAMES, tier)


def judge_case(case, want_defined):
    items, states = S.items_of(case, want_defined)
    if not items:
        return Verdict(case[0] + ":empty", states=states)
    nexec = sum(len(bs) for _, bs in items)
    bad = exprrun.compare(HEAD, W.HEAD_OBJS, items)
    out = "%s:%s" % (case[0], "agree" if not bad else "differ")
    if not bad:
        return Verdict(out, None, None, states, nexec, nexec)
    text = "\n".join(
        "check %s on object { %s }: language says %s, implementation %s" %
        (t, b, x, g) for t, b, x, g in bad)
    return Verdict(out, text, "%s:%s" % (case[0], bad[0][0]), states, nexec,
                   nexec)


def judge(case):
    return judge_case(case, WANT_DEFINED)
