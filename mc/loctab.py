"""Erroneous files and where the error is: (text, [(start, end[, ref..])]).

start and end delimit the construct which is wrong, ref is the place which
the message has to mention by its line (or one of several such places). Written down for texts in which all
is on one line; C17 enumerates layouts of them."""

WORLD = """package P
type X { n Integer }
enum E { A B }
tuple Q { a Integer b Integer }
checks Q { a > 0, warning "q", a  b > 5, "q5" }
tuple V { a Integer separator @ b optional Integer }
type R { s String m optional Markup_String e optional E i optional Integer
  l optional Integer [1 .. 2] q optional Q v optional V r optional R
  d optional Decimal u optional [R, X] b optional Boolean o optional Q [0 .. *] }
abstract type AB { }
type F extends X { freeze n = 1 }
checks R { s != "bad", "bad", s
  s == "null" implies i > 0, "null"
  s == "worse" implies i > 5, fatal "worse", \"\"\"line one
line two\"\"\"
  i != null implies 10 / i > 0, "div"
  s != "warn", warning "warn", m
  s == "rr" implies r.i > 1, "rr" }
"""

TRLC = [
    ('package P R a { s = 5 }',
     [(20, 21)]),
    ('package P R a { zz = 5 }',
     [(16, 18)]),
    ('package P R a { s = "x" s = "y" }',
     [(24, 25, 16, 20)]),
    ('package P R a { }',
     [(12, 13)]),
    ('package P R a { s = "x" i = "y" }',
     [(28, 31)]),
    ('package P ZZ a { }',
     [(10, 12)]),
    ('package P import ZZ R a { s = "x" }',
     [(17, 19)]),
    ('package P import P',
     [(17, 18)]),
    ('package P AB a { }',
     [(10, 12)]),
    ('package P R a { s = "x" } R a { s = "x" }',
     [(28, 29, 12)]),
    ('package P R a { s = "x" } R A { s = "x" }',
     [(28, 29, 12)]),
    ('package P R a ( s = "x" }',
     [(14, 15)]),
    ('package P R a { s "x" }',
     [(18, 21)]),
    ('package P R a { s = "x" e = E.C }',
     [(30, 31)]),
    ('package P R a { s = "x" e = G.C }',
     [(28, 29)]),
    ('package P R a { s = "x" e = 5 }',
     [(28, 29)]),
    ('package P R a { s = "x" l = [ ] }',
     [(30, 31)]),
    ('package P R a { s = "x" l = [ 1 , 2 , 3 ] }',
     [(38, 39)]),
    ('package P R a { s = "x" l = [ 1 , "2" ] }',
     [(34, 37)]),
    ('package P R a { s = "x" l = 5 }',
     [(28, 29)]),
    ('package P R a { s = "x" q = ( 1 , "a" ) }',
     [(34, 37)]),
    ('package P R a { s = "x" q = ( 1 ) }',
     [(32, 33)]),
    ('package P R a { s = "x" q = ( 1 , 2 , 3 ) }',
     [(36, 37)]),
    ('package P R a { s = "x" v = 1 @ "x" }',
     [(32, 35)]),
    ('package P R a { s = "x" v = 1 : 2 }',
     [(30, 31)]),
    ('package P R a { s = "x" r = zz }',
     [(28, 30)]),
    ('package P R a { s = "x" r = ZZ.a }',
     [(28, 30)]),
    ('package P X xx { n = 1 } R a { s = "x" r = xx }',
     [(43, 45)]),
    ('package P X xx { n = 1.0 }',
     [(21, 24)]),
    ('package P X xx { n = true }',
     [(21, 25)]),
    ('package P R a { s = "x" d = 1 }',
     [(28, 29)]),
    ('package P R a { s = "x" b = 1 }',
     [(28, 29)]),
    ('package P R a { s = "x" u = zz }',
     [(28, 30)]),
    ('package P F ff { n = 1 }',
     [(17, 18)]),
    ('package P section "S" { R a { s = 5 } }',
     [(34, 35)]),
    ('package P section S { R a { s = "x" } }',
     [(18, 19)]),
    ('package P section "S" R a',
     [(22, 23)]),
    ('package P R a { s = "x" } }',
     [(26, 27)]),
    ('package P 5',
     [(10, 11)]),
    ('package P R 5 { }',
     [(12, 13)]),
    ('R a { }',
     [(0, 1)]),
    ('package P R a { s = -"x" }',
     [(20, 21)]),
    ('package P X xx { n = - true }',
     [(23, 27)]),
    ('package P X xx { n = + zz }',
     [(23, 25)]),
    ('package P R a { s = "x" i = 1.  }',
     [(28, 29, {"shown": (30, 31)})]),
    ("package P R a { s = 'x' }",
     [(20, 22), (22, 24)]),
    ('package P R a { s = "x }',
     [(20, 24)]),
    ('package P R a { s = "x" i = 0x }',
     [(28, 29, {"shown": (30, 31)})]),
    ('package P R a { s = "x" i = 1__0 }',
     [(28, 29, {"shown": (30, 31)})]),
    ('package P ? R a { }',
     [(10, 11)]),
    ('package P R a { s = "x" i = 1_ }',
     [(28, 29, {"shown": (30, 31)})]),
    ('package P R ä { }',
     [(12, 13)]),
    ('package P R a { s = "x" i = 12ab }',
     [(28, 29, {"shown": (30, 31)})]),
    ('package P & R',
     [(10, 11)]),
    ("package P R a { s = '''x }",
     [(20, 26)]),
    ('package P R a { s = "x" d = 1.2.3 }',
     [(28, 29, {"shown": (31, 32)})]),
    ('package P R a { s = "x" i = 0b12 }',
     [(28, 29, {"shown": (31, 32)})]),
    ('package P R a { s = "x" m = "see [[zz]]" }',
     [(35, 37)]),
    ('package P R a { s = "x" m = "see [[a, zz]] and" }',
     [(38, 40)]),
    ('package P R a { s = "x" m = "a\\"b\\" [[a,zz]]" }',
     [(40, 42)]),
    ('package P R a { s = "x" m = \'\'\'see [[zz]]\'\'\' }',
     [(37, 39)]),
    ('package P R a { s = "x" m = "[[" }',
     [(29, 31)]),
    ('package P R a { s = "x" m = "]]" }',
     [(29, 31)]),
    ('package P R a { s = "x" m = "[[a" }',
     [(31, 32)]),
    ('package P R a { s = "x" m = "[[ ]]" }',
     [(32, 34)]),
    ('package P R a { s = "x" m = "[[a,]]" }',
     [(33, 35)]),
    ('package P R a { s = "x" m = "\\"[[a \\" ]]" }',
     [(35, 37)]),
    ('package P R a { s = "x" m = "[[[a]]" }',
     [(31, 32)]),
    ('package P R a { s = "x" m = \'\'\'a\n[[a]]\nb\n[[zz]]\'\'\' }',
     [(43, 45)]),
    ('package P R a { s = "x" m = \'\'\'\n  [[a,\nzz]]\'\'\' }',
     [(39, 41)]),
    ('package P R a { s = "x" m = \'\'\'a "q" [[zz]]\'\'\' }',
     [(39, 41)]),
    ('package P R a { s = "x" m = \'\'\'\n\n [[5]]\n\'\'\' }',
     [(36, 37)]),
    ('package P R a { s = "x" m = "\\"[[ZZ.a]]" }',
     [(33, 35)]),
    ('package P R a { s = "x" m = "[[P.zz]]" }',
     [(33, 35)]),
    ('package P R a { s = "x" m = \'\'\'a\nb\n[[a\'\'\' }',
     [(37, 38)]),
    ('package P R a { s = "x" m = "[[a a]]" }',
     [(33, 34)]),
    ('package P R a { s = "x" m = "ä[[zz]]" }',
     [(32, 34)]),
    ('package P R a { s = "x" m = "[[a]] [[zz]] [[yy]]" }',
     [(37, 39)]),
    ('package P R a { s = "x" q = ( 0 , 7 ) }',
     [(30, 31)]),
    ('package P R a { s = "x" q = ( 1 , 2 ) o = [ ( 1 , 8 ) , ( 2 , 1 ) ] }',
     [(28, 29), (56, 57)]),
    ('package P R a { s = "bad" }',
     [(20, 25)]),
    ('package P R a { s = "null" }',
     [(12, 13)]),
    ('package P R a { s = "worse" i = 3 }',
     [(12, 13)]),
    ('package P R a { s = "x" i = 0 }',
     [(28, 29)]),
    ('package P R a { s = "warn" }',
     [(12, 13)]),
    ('package P R a { s = "rr" r = bb } R bb { s = "x" }',
     [(36, 38)]),
]

RSL = [
    ('package P enum E { A A }',
     [(21, 22, 19)]),
    ('package P enum E { }',
     [(15, 16)]),
    ('package P type T { x Integer x Integer }',
     [(29, 30, 19)]),
    ('package P type T { x ZZ }',
     [(21, 23)]),
    ('package P type T { x Integer } type T { y Integer }',
     [(36, 37, 15)]),
    ('package P type T extends ZZ { }',
     [(25, 27)]),
    ('package P enum E { A } type T extends E { }',
     [(38, 39)]),
    ('package P type T { x Integer } type U extends T { x Integer }',
     [(50, 51, 19)]),
    ('package P type T { x Integer } type U extends T { freeze y = 1 }',
     [(57, 58)]),
    ('package P type T { x Integer } type U extends T { freeze x = true }',
     [(61, 65)]),
    ('package P type T { x Integer } type U extends T { freeze x = 1 freeze x = 2 }',
     [(70, 71, 57, 61)]),
    ('package P type T { x Integer } type U extends T { freeze x = 1 } type W extends U { freeze x = 2 }',
     [(91, 92, 57, 61)]),
    ('package P type T { x Integer [ 2 .. a ] }',
     [(36, 37)]),
    ('package P type T { x Integer [ 1.0 .. 2 ] }',
     [(31, 34)]),
    ('package P type T { x [ R ] }',
     [(23, 24)]),
    ('package P enum E { A } type T { x [ E ] }',
     [(36, 37)]),
    ('package P type T { x [ T , T ] }',
     [(27, 28)]),
    ('package P tuple Q { a Integer optional b Integer }',
     [(30, 38)]),
    ('package P tuple Q { }',
     [(20, 21)]),
    ('package P tuple Q { a optional Integer b Integer }',
     [(22, 30)]),
    ('package P tuple Q { a Integer separator @ b Integer c Integer }',
     [(52, 53)]),
    ('package P tuple Q { a Q }',
     [(22, 23)]),
    ('package P tuple Q { a optional Integer }',
     [(22, 30)]),
    ('package P tuple Q { a Integer separator + b Integer }',
     [(40, 41)]),
    ('package P final type T { } type U extends T { y Integer }',
     [(46, 47)]),
    ('package P abstract final type T { }',
     [(19, 24)]),
    ('package P abstract type T { x Integer } checks T { x , "m" }',
     [(51, 52)]),
    ('package P type T { x Integer } checks T { x + 1 , "m" }',
     [(44, 45)]),
    ('package P type T { x Integer } checks T { x + true > 1 , "m" }',
     [(46, 50)]),
    ('package P type T { x Integer } checks T { x > "a" , "m" }',
     [(46, 49)]),
    ('package P type T { x Integer } checks T { x == "a" , "m" }',
     [(44, 46)]),
    ('package P type T { x Integer } checks T { x and true , "m" }',
     [(42, 43)]),
    ('package P type T { x Integer } checks T { true and x , "m" }',
     [(51, 52)]),
    ('package P type T { x Integer } checks T { not x , "m" }',
     [(46, 47)]),
    ('package P type T { x Integer } checks T { - true == 1 , "m" }',
     [(44, 48)]),
    ('package P type T { x Integer } checks T { abs "a" > 1 , "m" }',
     [(46, 49)]),
    ('package P type T { x Integer } checks T { y > 1 , "m" }',
     [(42, 43)]),
    ('package P type T { x Integer } checks T { x > 1 , "m" , y }',
     [(56, 57)]),
    ('package P type T { x Integer } checks T { x > 1 , "m\nn" }',
     [(50, 52), (54, 57)]),
    ('package P type T { x Integer } checks T { x > 1 , 5 }',
     [(50, 51)]),
    ('package P type T { x Integer } checks T { x in 1 .. true , "m" }',
     [(52, 56)]),
    ('package P type T { x Integer } checks T { true in 1 .. 2 , "m" }',
     [(42, 46)]),
    ('package P type T { x Integer } checks T { x in true .. 2 , "m" }',
     [(47, 51)]),
    ('package P type T { x Integer } checks T { x ** x > 1 , "m" }',
     [(47, 48)]),
    ('package P type T { x Integer } checks T { x ** -1 > 1 , "m" }',
     [(47, 48)]),
    ('package P type T { x Integer } checks T { len ( x ) > 1 , "m" }',
     [(48, 49)]),
    ('package P type T { x Integer } checks T { len ( x , x ) > 1 , "m" }',
     [(42, 45)]),
    ('package P type T { x String } checks T { startswith ( x ) , "m" }',
     [(41, 51)]),
    ('package P type T { x String } checks T { startswith ( x , 1 ) , "m" }',
     [(58, 59)]),
    ('package P type T { x String } checks T { matches ( x , x ) , "m" }',
     [(55, 56)]),
    ('package P type T { x String } checks T { matches ( x , "[" ) , "m" }',
     [(55, 58)]),
    ('package P type T { x String } checks T { foo ( x ) , "m" }',
     [(41, 44)]),
    ('package P type T { x String } checks T { oneof ( x ) , "m" }',
     [(49, 50)]),
    ('package P type T { x String } checks T { "a" in 5 , "m" }',
     [(48, 49)]),
    ('package P type T { x Integer [ 1 .. * ] } checks T { x [ true ] > 1 , "m" }',
     [(57, 61)]),
    ('package P type T { x Integer } checks T { x [ 1 ] > 1 , "m" }',
     [(42, 43)]),
    ('package P type T { x Integer [ 1 .. * ] } checks T { ( forall y in x => y ) , "m" }',
     [(72, 73)]),
    ('package P type T { x Integer } checks T { ( forall y in x => true ) , "m" }',
     [(56, 57)]),
    ('package P type T { x Integer [ 1 .. * ] } checks T { ( forall x in x => true ) , "m" }',
     [(62, 63, 19)]),
    ('package P type T { x Integer } checks T { ( if x then true else false ) , "m" }',
     [(47, 48)]),
    ('package P type T { x Integer } checks T { ( if true then 1 else false ) , "m" }',
     [(64, 69)]),
    ('package P type T { x Integer } checks T { ( if true then 1 elsif true then 2.0 else 3 ) == 1 , "m" }',
     [(75, 78)]),
    ('package P type T { x Integer } checks T { ( if true then true ) , "m" }',
     [(62, 63)]),
    ('package P type T { x Integer } checks T { x . y > 1 , "m" }',
     [(42, 43)]),
    ('package P tuple Q { a Integer } type T { x Q } checks T { x . y > 1 , "m" }',
     [(62, 63)]),
    ('package P enum E { A } type T { x E } checks T { x == E . B , "m" }',
     [(58, 59)]),
    ('package P type T { x Integer } checks T { x > 1 > 2 , "m" }',
     [(48, 49)]),
    ('package P type T { x Boolean } checks T { x and x or x , "m" }',
     [(50, 52)]),
    ('package P type T { x Integer } checks T { x > 1 "m" }',
     [(48, 51)]),
    ('package P type T { x Integer } checks ZZ { x > 1 , "m" }',
     [(38, 40)]),
    ('package P enum E { A } checks E { true , "m" }',
     [(30, 31)]),
    ('package P type T { x Integer } checks T { ( x > 1 , "m" }',
     [(50, 51)]),
    ('package P type T { x Integer } checks T { null > 1 , "m" }',
     [(42, 46)]),
    ('package P type T { x Decimal } checks T { x % 2.0 == 0.0 , "m" }',
     [(42, 43)]),
    ('package P type T { x String } checks T { x - x == x , "m" }',
     [(41, 42)]),
    ('package P type T { x Integer } checks T { x + 1.0 > 1 , "m" }',
     [(46, 49)]),
    ('package P type T { x Integer } checks T { Decimal ( "a" ) > 1.0 , "m" }',
     [(52, 55)]),
    ('package P import P',
     [(17, 18)]),
    ('package P import Z',
     [(17, 18)]),
    ('package 5',
     [(8, 9)]),
    ('type T { }',
     [(0, 4)]),
    ('package P type T { x Integer',
     [(21, 28)]),
    ('package P type',
     [(10, 14)]),
    ('package',
     [(0, 7)]),
    ('package P type T ! { }',
     [(17, 18)]),
    ('package P type T { x Integer "desc" }',
     [(29, 35)]),
    ('package P type T "desc" "d" { }',
     [(24, 27)]),
    ('package P type Integer { }',
     [(15, 22)]),
    ('package P type T { x T.y }',
     [(22, 23)]),
    ('package P type T { x ZZ.y }',
     [(21, 23)]),
    ('package P T a { }',
     [(10, 11)]),
    ('package P enum E "d" { A "d" A "e" }',
     [(29, 30, 23)]),
    ('package P tuple Q { a Integer separator @ b optional Integer c Integer }',
     [(61, 62)]),
]

LINT = [
    ('package P type T { x Integer } checks T { true , "m" }',
     [(42, 46)]),
    ('package P abstract type T { x Integer }',
     [(24, 25)]),
    ('package P type T { x Integer [ 3 .. 2 ] }',
     [(36, 37)]),
    ('package P type T { x Integer [ 0 .. 0 ] }',
     [(36, 37)]),
    ('package P type T { x Integer [ 1 .. 1 ] }',
     [(36, 37)]),
    ('package P type T { x Integer } checks T { 10 / x > 1 , "m" }',
     [(45, 46)]),
    ('package P type T { x optional Integer } checks T { x > 1 , "m" }',
     [(51, 52)]),
    ('package P type T { x Integer [ 0 .. * ] } checks T { x [ 1 ] > 1 , "m" }',
     [(55, 56)]),
    ('package P type T { x Integer } checks T { x == x , "m" }',
     [(44, 46)]),
    ('package P tuple Q { a Integer separator x b Integer }',
     [(40, 41)]),
    ('package P checks T { x > 1 , "m" } type T { x Integer }',
     [(17, 18)]),
    ('package P import P2 type T { }',
     [(17, 19)]),
    ('package P type T { x Integer } checks T { matches ( "a" , "(" ) , "m" }',
     [(58, 61)]),
    ('package P enum E { A } type T { e E } checks T { e == E.A implies e != E.B , "m" }',
     [(73, 74)]),
    ('package P type T { x Integer y optional Integer} checks T { x > 1 and y > 1 , "m" , y }',
     [(70, 71)]),
]
