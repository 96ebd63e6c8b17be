"""C05: an undefined evaluation is always reported, never passed over."""
from . import exprspaces as S
from .c04 import judge_case

PID = "C05"
ASSUMPTIONS = [
    "the bounds of a range test are always evaluated (the manual leaves "
    "open whether the upper bound of a failed test is)",
    "quantifiers are evaluated with short-circuit semantics, as the manual "
    "recommends",
]
NAMES = tuple(S.UNDEFINED)


def bounds(tier):
    deep = tier == "thorough"
    return {n: {"expressions": sum(len(ex) for ex, _ in S.space(n, deep)),
                "assignments": sum(len(c or ()) for _, c in S.space(n, deep))}
            for n in NAMES}


def cases(tier):
    return S.cases(NAMES, tier)


def judge(case):
    return judge_case(case, False)
