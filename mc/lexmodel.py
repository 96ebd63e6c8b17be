"""Reference model of TRLC lexing, written from the LRM.

tokenize(text) -> (tokens, error)
  tokens  list of (kind, value, line, col, end_offset_exclusive, start_offset)
  error   None or (line, col) of the token which is malformed
"""
from fractions import Fraction

KEYWORDS = set("""abs abstract and checks else elsif enum error exists extends
false fatal final forall freeze if implies import in not null optional or
package section separator then true tuple type warning xor""".split())

LETTER = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = set("0123456789")
HEX = set("0123456789abcdefABCDEF")

PUNCT = {"(": "BRA", ")": "KET", "{": "C_BRA", "}": "C_KET",
         "[": "S_BRA", "]": "S_KET", ",": "COMMA", "@": "AT",
         ":": "COLON", ";": "SEMICOLON", ".": "DOT", "=": "ASSIGN"}
OPER = {"<", ">", "+", "-", "*", "/", "%"}
DOUBLE = {"==": "OPERATOR", "<=": "OPERATOR", ">=": "OPERATOR",
          "!=": "OPERATOR", "**": "OPERATOR", "=>": "ARROW", "..": "RANGE"}


class LexError(Exception):
    pass


def is_ws(c):
    return c.isspace()


def number(s, i):
    """LRM: (0[xb])?digits(_digits)* | digits(_digits)*.digits(_digits)*

    It is a lexing error to use digits that do not fit into the base.
    A number followed by .. is an integer followed by a range."""
    n = len(s)

    def at(k):
        return s[k] if k < n else ""

    if at(i) == "0" and at(i + 1) == "x":
        base, digits, p = 16, HEX, i + 2
    elif at(i) == "0" and at(i + 1) == "b":
        base, digits, p = 2, set("01"), i + 2
    else:
        base, digits, p = 10, DIGIT, i
    wrong = HEX - digits

    def group(p):
        """one or more digits, then ( _ digits )*"""
        while True:
            if at(p) not in digits or at(p) == "":
                raise LexError()
            while at(p) and at(p) in digits:
                p += 1
            if at(p) and at(p) in wrong:
                raise LexError()
            if at(p) != "_":
                return p
            p += 1

    p = group(p)
    kind = "INTEGER"
    if at(p) == "." and at(p + 1) != ".":
        if base != 10:
            raise LexError()
        p = group(p + 1)
        kind = "DECIMAL"
        if at(p) == "." and at(p + 1) != ".":
            raise LexError()
    return kind, base, p


def triple_value(body):
    body = body.strip()
    lines = body.splitlines()
    if not lines:
        return ""
    first, rest = lines[0], lines[1:]
    prefix = None
    for line in rest:
        if not line.strip():
            continue
        ws = ""
        for c in line:
            if c in " \t":
                ws += c
            else:
                break
        if prefix is None:
            prefix = ws
        else:
            while not ws.startswith(prefix):
                prefix = prefix[:-1]
    prefix = prefix or ""
    out = [first.rstrip()]
    for line in rest:
        out.append(line[len(prefix):].rstrip() if line.strip() else "")
    return "\n".join(out)


def simple_value(body):
    out = ""
    i = 0
    while i < len(body):
        if body[i] == "\\" and i + 1 < len(body) and body[i + 1] == '"':
            out += '"'
            i += 2
        else:
            out += body[i]
            i += 1
    return out


def tokenize(s):
    toks = []
    n = len(s)
    i = 0
    line = 1
    bol = 0          # offset of the beginning of this line

    while True:
        while i < n and is_ws(s[i]):
            if s[i] == "\n":
                line += 1
                bol = i + 1
            i += 1
        if i >= n:
            return toks, None
        start = i
        where = (line, start - bol + 1)
        c = s[i]
        two = s[i:i + 2]
        three = s[i:i + 3]
        value = None
        try:
            if two == "//":
                kind = "COMMENT"
                while i < n and s[i] != "\n":
                    i += 1
                value = s[start + 2:i].strip()
            elif two == "/*":
                kind = "COMMENT"
                j = s.find("*/", i + 2)
                # the project's own tests define that a comment which is
                # not closed extends to the end of the file
                end = j if j >= 0 else n
                value = s[i + 2:end].strip()
                i = min(end + 2, n)
            elif c in LETTER:
                while i < n and (s[i] in LETTER or s[i] in DIGIT or
                                 s[i] == "_"):
                    i += 1
                value = s[start:i]
                kind = "KEYWORD" if value in KEYWORDS else "IDENTIFIER"
            elif c in DIGIT:
                kind, base, i = number(s, i)
                text = s[start:i].replace("_", "")
                if kind == "INTEGER":
                    value = 0
                    for d in (text if base == 10 else text[2:]):
                        value = value * base + int(d, 16)
                else:
                    left, right = text.split(".")
                    value = Fraction(int(left + right), 10 ** len(right))
            elif three in ('"""', "'''"):
                kind = "STRING"
                j = s.find(three, i + 3)
                if j < 0:
                    raise LexError()
                value = triple_value(s[i + 3:j])
                i = j + 3
            elif c == "'":
                raise LexError()
            elif c == '"':
                kind = "STRING"
                j = i + 1
                while True:
                    if j >= n or s[j] == "\n":
                        raise LexError()
                    if s[j] == '"':
                        break
                    if s[j] == "\\" and s[j + 1:j + 2] == '"':
                        j += 2
                    else:
                        j += 1
                value = simple_value(s[i + 1:j])
                i = j + 1
            elif two in DOUBLE:
                kind = DOUBLE[two]
                i += 2
                if kind == "OPERATOR":
                    value = two
            elif c in PUNCT:
                kind = PUNCT[c]
                i += 1
            elif c in OPER:
                kind = "OPERATOR"
                value = c
                i += 1
            else:
                raise LexError()
        except LexError:
            return toks, where
        # account for newlines inside the token
        for k in range(start, i):
            if s[k] == "\n":
                line += 1
                bol = k + 1
        toks.append((kind, value, where[0], where[1], i, start))
