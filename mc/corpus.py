"""Small valid file sets which together use all constructs of the language,
and the exhaustive enumeration of small edits to them (C14, C15, C17)."""
from . import lexmodel

VALUES = {
    "p.rsl": """package P
enum E "colour" { A "red" B }
tuple Q { a Integer b String }
tuple V { n Integer separator @ v optional Integer separator x w optional E }
type R "base" { t optional Markup_String }
type T {
  i Integer
  d optional Decimal
  s "descr" String
  b optional Boolean
  e optional E
  q optional Q
  v optional V
  r optional R
  u optional [R, T]
  ai optional Integer [1 .. 3]
  ar optional R [0 .. *]
  av optional V [0 .. 2]
}
""",
    "p.trlc": """package P
R r1 { t = "see [[r2, P.t1]]" }
section "one" {
  R r2 { }
  section "two" {
    T t1 {
      i = -0x1f
      d = +1.5
      s = '''multi
        line'''
      b = true
      e = E.B
      q = (1, "x")
      v = 3 @ 4 x E.A
      r = r2
      u = P.r1
      ai = [1, -2]
      ar = [r1, r2]
      av = [1, 2 @ 3]
    }
  }
}
// done
""",
}

CHECKS = {
    "p.rsl": """package P
enum E { A B }
tuple Q { a Integer separator : b optional Integer }
type T {
  i Integer
  j optional Integer
  d Decimal
  s String
  e E
  q Q
  r optional T
  l Integer [0 .. *]
}
checks Q { a >= 0, fatal "neg" }
checks T {
  i in 0 .. 10 and -i ** 2 <= 0, warning "range", '''some
details''', i
  (if j == null then d > 0.0 elsif s in "abc" then not false else e != E.B), "cond"
  (forall x in l => x % 2 == 0 or abs x > len(s)), error "all"
  r != null implies r.i == q.a, "ref", r
  oneof(matches(s, "a.*"), startswith(s, "b"), l[0] < Integer(d)), warning "one", l
}
""",
    "p.trlc": """package P
T t1 { i = 4 d = 1.5 s = "a" e = E.A q = 1 : 2 l = [2, 4] }
T t2 { i = 11 j = 1 d = -0.5 s = "b" e = E.A q = 4 l = [6] r = t1 }
""",
}

EXTENDS = {
    "p.rsl": """package P
abstract type A { x Integer y optional A }
type B extends A { freeze x = 5 z String }
final type C "last" extends B { freeze z = "q" w optional Boolean [2 .. 2] }
type D extends C { freeze w = [true, false] }
checks A { x > 0, "pos", x }
checks D { w[0], fatal "w" }
""",
    "p.trlc": """package P
B b1 { z = "1" y = c1 }
C c1 { w = [false, true] y = b1 }
D d1 { }
""",
}

MULTI = {
    "a.rsl": """package A
type T { n Integer r optional T }
enum E { X }
checks T { n != 3, warning "three" }
""",
    "b.rsl": """package B
import A
type T extends A.T { m optional [A.T, T] k optional A.E }
checks T { n < 9, "big", n }
""",
    "a.trlc": """package A
import B
T o1 { n = 3 r = B.o2 }
""",
    "b.trlc": """package B
import A
T o2 { n = 8 m = A.o1 k = A.E.X }
""",
    "c.trlc": """package C
import A
import B
section "s" { B.T o3 { n = 1 r = A.o1 m = B.o2 } }
""",
}

WORLDS = {"values": VALUES, "checks": CHECKS, "extends": EXTENDS,
          "multi": MULTI}

KEYWORDS = sorted(lexmodel.KEYWORDS)
PUNCT = ["(", ")", "[", "]", "{", "}", ",", "@", ":", ";", "/", "%", "+",
         "-", "*", "**", "=", "=>", "==", "!=", "<", "<=", ">", ">=", ".",
         ".."]
LITS = ["0", "7", "0x1f", "1.5", '"x"', '"[[r1]]"', '"[[x"', "'''a\nb'''",
        '""', "// c\n", "/* c */"]
BROKEN = ["!", "#", '"', "'", "0b2", "1_", "\u00e9", "/*", "'''"]
NAMES = ["Integer", "Decimal", "Boolean", "String", "Markup_String", "len",
         "oneof", "zz", "P", "T", "t", "i", "E", "A", "B", "Q", "t1", "x"]
SHORT = ["type", "checks", "if", "null", "true", "section", "package",
         "extends", "optional", "freeze", "and", "not", "(", ")", "[", "]",
         "{", "}", ",", "=", "==", "-", ".", "..", "1", "1.5", '"x"',
         "'''a\nb'''", "zz", "T", "E", "Integer", "!", '"']


def spans(text):
    """(start, end) of all tokens (comments included)"""
    toks, err = lexmodel.tokenize(text)
    assert err is None, (text, err)
    return [(t[5], t[4]) for t in toks]


def vocab(full):
    return KEYWORDS + PUNCT + LITS + BROKEN + NAMES if full else SHORT


def edits(text, full):
    """all single edits as (kind, position, text) -> new text"""
    sp = spans(text)
    for k in range(len(text)):
        yield text[:k]
    for a, b in sp:
        yield text[:a] + text[b:]
        yield text[:b] + " " + text[a:b] + text[b:]
    for (a, b), (c, d) in zip(sp, sp[1:]):
        yield text[:a] + text[c:d] + text[b:c] + text[a:b] + text[d:]
    words = vocab(full)
    for a, b in sp:
        for w in words:
            yield text[:a] + w + text[b:]
            yield text[:a] + w + " " + text[a:]
    for w in words:
        yield text + w
