"""C01: the token stream of every text is exactly the one the LRM defines."""
import io
import itertools

from . import drv
from .core import Verdict
from .lexmodel import tokenize, KEYWORDS
from trlc.lexer import TRLC_Lexer

PID = "C01"
ASSUMPTIONS = [
    "lexing is observed through TRLC_Lexer.token(); the pipeline uses the "
    "same class",
    "characters outside the alphabets are represented by the classes "
    "letter/digit/space/non-ascii in the alphabets",
]

# name -> (alphabet, quick length, thorough length, prefixes)
GENERAL = "aZ_019bx.\"'\\/*=<>!+-%()[]{},@;: \t\n\u00e9\u00a0#e"
THEMES = {
    "general": (GENERAL, 3, 4, ("",)),
    "numbers": ("01aA9b_xX.g", 5, 6, ("", "x\n  ")),
    "strings": ("\"'\\\na ", 6, 8, ("",)),
    "comments": ("/*\na\"", 6, 8, ("", " a\n ")),
    "operators": ("=<>!.*-/1 ", 5, 6, ("",)),
    "layout": ("a\n \t/\"1", 6, 7, ("",)),
    "triple1": ("'a\n\"", 4, 6, ("'''",)),
    "triple2": ("\"a\n'\\", 4, 6, ('"""',)),
}

# bodies of triple quoted strings, by character and by line
# every character in every context: (text before, text after)
CONTEXTS = (
    ("", ""), ("a", ""), ("a", "b"), ("1", ""), ("1", "1"), ("1.", ""),
    ("1.5", ""), ("1_", ""), ("0b", ""), ("0b1", ""), ("0b1_", "1"),
    ("0x", ""), ("0xa", ""), ("0x1_", "f"), ("0", "1"), ('"', '"'),
    ('"\\', '"'), ("'''", "'''"), ("'''a\n", "b\n b'''"),
    ("'''a\n ", "b'''"), ("'''", "b'''"), ("'''a", "\n'''"),
    ('"""', '"""'), ("//", "\na"), ("/*", "*/a"), (".", ""), ("=", ""),
    ("!", ""), ("<", "="), ("*", ""), (" ", " "), ("/", ""), ("a\n", "b"),
    ("true", ""), ("''", "a"),
)
CHARS = [chr(c) for c in range(0x180)] + list(
    "\u0391\u0416\u05d0\u0660\u06f0\u0966\u1680\u2000\u2007\u2028\u2029\u202f"
    "\u205f\u2080\u2160\u3000\u4e2d\u200b\ufeff\uff11\uff21\U0001d7d8"
    "\U0001f600\u0301\u0130\u0131\ufb01\u212a")

BODY = ("a \t\n'\"\\", 5, 6)
LINES = (("", " ", "a", " a", "  a", "\ta", " \ta", "a ", " a  b ", "   ",
          "  \t", "\\\"", "\r"), 3, 4)


def bounds(tier):
    k = 1 if tier == "quick" else 2
    rv = {name: {"alphabet": x[0], "prefixes": list(x[3]),
                 "max_length": x[k]}
          for name, x in THEMES.items()}
    rv["single characters"] = {"characters": "U+0000 to U+017F and %u others"
                               % (len(CHARS) - 0x180),
                               "contexts": len(CONTEXTS),
                               "pairs": "all of ASCII in each context"}
    rv["triple quoted bodies"] = {"alphabet": BODY[0],
                                  "max_length": BODY[k]}
    rv["triple quoted lines"] = {"alphabet": list(LINES[0]),
                                 "max_lines": LINES[k]}
    return rv


def cases(tier):
    yield ["x", ""]
    for kw in sorted(KEYWORDS):
        for var in (kw, kw.upper(), kw.capitalize(), kw + "_", "a" + kw,
                    kw + "1", kw[:-1], kw + kw, kw + "." + kw, kw + " " + kw,
                    kw + "\n" + kw, kw + "(", "1" + kw[:0] + " " + kw,
                    kw + '"a"', kw + "/**/" + kw, kw + "//" + kw):
            yield ["x", var]
    for k in range(len(CONTEXTS)):
        yield ["ctx", k]
        for c in range(128):
            if tier == "thorough" or c % 4 == k % 4 or CONTEXTS[k][0] in (
                    "", "1", "0b1", "0xa", "a", '"'):
                yield ["ctx2", k, c]
    for digits in ("1" * 4300, "9" * 20, "0" * 30 + "7", "0x" + "f" * 40,
                   "0b" + "10" * 40, "1_" * 30 + "1", "1" * 25 + "." +
                   "3" * 25):
        yield ["x", digits]
    for quote in ("'''", '"""'):
        bound = BODY[1] if tier == "quick" else BODY[2]
        for k in range(bound + 1):
            for tup in itertools.product(BODY[0], repeat=k):
                yield ["x", quote + "".join(tup) + quote]
    bound = LINES[1] if tier == "quick" else LINES[2]
    for k in range(1, bound + 1):
        for tup in itertools.product(LINES[0], repeat=k):
            yield ["x", "\n " + '"""' + "\n".join(tup) + '""" x']
            yield ["x", "'''x\n" + "\n".join(tup) + "'''"]
    for name, (alpha, q, t, pre) in THEMES.items():
        bound = q if tier == "quick" else t
        # case = all strings with the given prefix of length bound-2,
        # extended in all ways; the short ones are cases on their own
        for p in pre:
            for k in range(0, bound - 1):
                for tup in itertools.product(alpha, repeat=k):
                    text = p + "".join(tup)
                    if k == bound - 2:
                        yield [name, text, 2]
                    else:
                        yield [name, text]


def run_impl(text):
    mh = drv.Message_Handler(out=io.StringIO())
    toks = []
    try:
        lexer = TRLC_Lexer(mh, "test.trlc", text)
        while True:
            if len(toks) > len(text) + 1:
                return toks, "does not terminate"
            tok = lexer.token()
            if tok is None:
                return toks, None
            loc = tok.location
            toks.append((tok.kind, tok.value, loc.line_no, loc.col_no,
                         loc.end_pos + 1, loc.start_pos))
            # the location must be printable
            loc.context_lines()
            loc.get_end_location()
    except drv.TRLC_Error as err:
        if mh.errors != 1:
            return toks, "error raised but %u counted" % mh.errors
        return toks, (err.location.line_no, err.location.col_no)
    except Exception as err:           # noqa
        return toks, drv.crash_sig(err)


def judge(case):
    if case[0] == "ctx":
        pre, post = CONTEXTS[case[1]]
        return judge_all("characters", (pre + c + post for c in CHARS))
    if case[0] == "ctx2":
        pre, post = CONTEXTS[case[1]]
        return judge_all("pairs", (pre + chr(case[2]) + chr(c) + post
                                   for c in range(128)))
    if len(case) == 2:
        return judge_text(case[1])
    name, text, more = case
    alpha = THEMES[name][0]
    return judge_all("subtree", (
        text + "".join(tup) for k in range(more + 1)
        for tup in itertools.product(alpha, repeat=k)))


def judge_all(what, texts):
    total = Verdict("tree", None, None, 0, 0, 0)
    outcomes = set()
    for text in texts:
        v = judge_text(text)
        total.states += v.states
        total.transitions += v.transitions
        total.traces += 1
        outcomes.add(v.outcome)
        if v.violation:
            total.violation = v.violation
            total.sig = v.sig
            return total
    total.outcome = what + ":" + "+".join(sorted(outcomes))
    return total


def judge_text(text):
    want, werr = tokenize(text)
    got, gerr = run_impl(text)
    kinds = {t[0] for t in want}
    outcome = ("error" if werr else "ok") + str(min(len(want), 3))
    problem = None
    sig = None
    if isinstance(gerr, str):
        problem = "internal failure: " + gerr
        sig = "crash"
    elif (werr is None) != (gerr is None):
        problem = "error %s, expected %s" % (gerr, werr)
        sig = "reject"
    elif got != want:
        problem = "tokens differ"
        sig = "tokens"
    elif gerr != werr:
        problem = "error at %s, expected at %s" % (gerr, werr)
        sig = "errloc"
    if problem:
        problem = "%r: %s\n  got      %s %s\n  expected %s %s" % (
            text, problem, got, gerr, want, werr)
    return Verdict(outcome, problem, sig, 1, len(want) + 1, 1)
