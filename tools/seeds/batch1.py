SEEDS = [
 dict(id="c01-hex", property="C01", file="trlc/lexer.py",
  edits=[('digits_forbidden = "23456789abcdefABCDEF"', 'digits_forbidden = "23456789abcdef"')],
  needs="an upper case hexadecimal digit directly after a base 2 integer",
  breaks="0b1A is read as two tokens",
  demo='''
def go(v):
    return run({"a.rsl": "package P\\ntype T { x Integer A optional Integer }\\n",
                "a.trlc": "package P\\nT o { x = %s = 2 }\\n" % v}).accepted
expect(go("0b1 A"), "two tokens")
expect(not go("0b1A"), "0b1A accepted")
'''),
 dict(id="c01-dedent", property="C01", file="trlc/lexer.py",
  edits=[("    for line in lines[2:]:\n        if not line.strip():\n            continue\n",
          "    for line in lines[2:]:\n        if not line:\n            continue\n")],
  needs="a triple quoted string with a line consisting of few blanks after its second line",
  breaks="lines of only whitespace take part in the common indentation",
  demo='''
text = 'package P\\nT a {\\n  x = """one\\n     two\\n  \\n     three"""\\n}\\n'
r = run({"a.rsl": "package P\\ntype T { x String }\\n", "a.trlc": text})
expect(r.accepted, "rejected")
v = r.objects["P.a"].to_python_dict()["x"]
expect(v == "one\\ntwo\\n\\nthree", repr(v))
'''),
 dict(id="c02-range", property="C02", file="trlc/parser.py",
  edits=[("                n_b = self.parse_simple_expression(scope)\n                n_b.set_ast_link",
          "                n_b = self.parse_term(scope)\n                n_b.set_ast_link")],
  needs="a range test whose upper bound is a sum or signed",
  breaks="the upper bound of a range test may not be a simple expression",
  demo='''
def ok(e):
    return run({"a.rsl": "package P\\ntype T { x Integer }\\nchecks T { %s, \\"m\\" }\\n" % e}).accepted
expect(ok("x in 1 .. 2"), "plain range")
expect(ok("x in -5 .. -1"), "signed upper bound")
expect(ok("x in 1 .. x + 1"), "sum as upper bound")
'''),
 dict(id="c03-elsif", property="C03", file="trlc/ast.py",
  edits=[("        n_action.n_expr.ensure_type(mh, self.typ)\n        self.actions.append",
          "        if not self.actions[1:]:\n            n_action.n_expr.ensure_type(mh, self.typ)\n        self.actions.append")],
  needs="a conditional expression whose second elsif has another type",
  breaks="the second and later elsif parts are not type checked",
  demo='''
def ok(e):
    return run({"a.rsl": "package P\\ntype T { x Integer d Decimal }\\nchecks T { %s, \\"m\\" }\\n" % e}).accepted
C = "(if x == 0 then 0 elsif x == 1 then 1 elsif x == 2 then %s else 4) == x"
expect(ok(C % "2"), "well typed conditional")
expect(not ok(C % "d"), "ill typed conditional accepted")
'''),
 dict(id="c04-round", property="C04", file="trlc/math.py",
  edits=[("        return ceil(value - Fraction(1, 2))",
          "        return round(value)")],
  needs="the conversion to Integer of a negative decimal halfway between two integers, the larger being even",
  breaks="negative decimals are rounded half to even instead of away from zero",
  demo='''
def go(d, i):
    return run({"a.rsl": "package P\\ntype T { d Decimal i Integer }\\nchecks T { Integer(d) == i, \\"m\\" }\\n",
         "a.trlc": "package P\\nT a { d = %s i = %s }\\n" % (d, i)}).accepted
expect(go("-1.5", "-2"), "-1.5")
expect(go("2.5", "3"), "2.5")
expect(go("-2.5", "-3"), "-2.5")
'''),
 dict(id="c05-divdec", property="C05", file="trlc/ast.py",
  edits=[('''            if v_rhs.value == 0:
                mh.error(v_rhs.location,
                         "division by zero in %s (%s)" %
                         (self.to_string(),
                          mh.cross_file_reference(self.location)))

            if isinstance(v_lhs.value, int):
                return''',
'''            if v_rhs.value == 0 and v_lhs.value != 0:
                mh.error(v_rhs.location,
                         "division by zero in %s (%s)" %
                         (self.to_string(),
                          mh.cross_file_reference(self.location)))

            if v_lhs.value == 0:
                return Value(location = self.location,
                             value    = v_lhs.value,
                             typ      = self.typ)
            elif isinstance(v_lhs.value, int):
                return''')],
  needs="zero divided by zero",
  breaks="0 / 0 is not reported and evaluates to zero",
  demo='''
def go(x, y):
    return run({"a.rsl": "package P\\ntype T { x Integer y Integer }\\nchecks T { x / y == 0, \\"m\\" }\\n",
         "a.trlc": "package P\\nT a { x = %d y = %d }\\n" % (x, y)})
expect(go(1, 2).accepted, "1 / 2")
expect(not go(0, 0).accepted, "0 / 0 not reported")
'''),
 dict(id="c06-tuplelast", property="C06", file="trlc/ast.py",
  edits=[('''            for check in self.iter_checks():
                if not check.perform(mh, value, gstab):
                    ok = False
            return ok
        else:
            assert isinstance(value, Implicit_Null)''',
'''            for check in self.iter_checks():
                ok = check.perform(mh, value, gstab)
            return ok
        else:
            assert isinstance(value, Implicit_Null)''')],
  needs="a tuple type with two checks of which the first fails and the last holds",
  breaks="a failed check of a tuple is forgotten if the last one holds, so processing succeeds",
  demo='''
rsl = """package P
tuple Q { a Integer b Integer }
checks Q { a > 0, "first"
           b > 0, "second" }
type T { q Q }
"""
def go(a, b):
    return run({"a.rsl": rsl, "a.trlc": "package P\\nT o { q = (%d, %d) }\\n" % (a, b)})
expect(go(1, 1).accepted, "both hold")
expect(not go(1, 0).accepted, "second fails")
expect(not go(0, 1).accepted, "first fails")
'''),
 dict(id="c07-grand", property="C07", file="trlc/ast.py",
  edits=[("        elif self.parent:\n            return self.parent.contains_raw(simple_name, precise_name)\n",
          "        elif self.parent:\n            return simple_name in self.parent.table and \\\n                self.parent.contains_raw(simple_name, precise_name)\n")],
  needs="a component with the name of one declared two extension levels above",
  breaks="a component may have (nearly) the name of one inherited from a grandparent",
  demo='''
def go(name, parent):
    return run({"a.rsl": """package P
type A { foo_bar Integer }
type B extends A { }
type C extends %s { %s Integer }
""" % (parent, name)}).accepted
expect(go("other", "B"), "other name rejected")
expect(not go("fooBar", "A"), "parent")
expect(not go("fooBar", "B"), "grandparent")
'''),
 dict(id="c08-diamond", property="C08", file="trlc/trlc.py",
  edits=[('''                          if len(self.dep_graph.get(node, set()) -
                                 processed) == 0}''',
'''                          if self.dep_graph.get(node, set()) <= processed
                          or len(self.dep_graph[node] & processed) > 1}''')],
  needs="a package importing three others, of which two are processed in an earlier round than the third",
  breaks="a package can be processed before one of its imports",
  demo='''
files = {
 "a.rsl": "package A\\ntype TA { x Integer }\\n",
 "b.rsl": "package B\\ntype TB { x Integer }\\n",
 "c.rsl": "package C\\nimport A\\ntype TC { x A.TA }\\n",
 "d.rsl": "package D\\nimport A\\nimport B\\nimport C\\ntype TD { x C.TC }\\n",
 "e.rsl": "package BB\\nimport A\\nimport B\\nimport C\\ntype TD { x C.TC }\\n",
}
r = run(files)
expect(r.accepted, r.output)
'''),
 dict(id="c09-links", property="C09", file="trlc/trlc.py",
  edits=[('''                graph[(pkg_name , kind)] |= \\
                    {(imported_pkg.name , kind)
                     for imported_pkg in parser.cu.imports}''',
'''                graph[(pkg_name , kind)] = \\
                    {(imported_pkg.name , kind)
                     for imported_pkg in parser.cu.imports} | \\
                    (graph[(pkg_name , kind)] & {(pkg_name, "rsl")})''')],
  needs="two trlc files of one package importing different packages found through an include path",
  breaks="only the imports of the last file of a package count for the include closure",
  demo='''
inc = {"inc/x.rsl": "package X\\ntype TX { n Integer }\\n",
       "inc/x.trlc": "package X\\nTX x1 { n = 1 }\\n",
       "inc/y.rsl": "package Y\\ntype TY { n Integer }\\n",
       "inc/y.trlc": "package Y\\nTY y1 { n = 1 }\\n"}
main = {"p.rsl": "package P\\nimport X\\nimport Y\\ntype T { a optional X.TX b optional Y.TY }\\n",
        "p1.trlc": "package P\\nimport X\\nT a { a = X.x1 }\\n",
        "p2.trlc": "package P\\nimport Y\\nT b { b = Y.y1 }\\n"}
files = dict(main)
files.update(inc)
r = run(files, include=["inc"])
expect(r.accepted, r.output)
'''),
 dict(id="c10-frozen", property="C10", file="trlc/ast.py",
  edits=[('''        if n_component.name in self.frozen:
            return True
        elif self.parent:
            return self.parent.is_frozen(n_component)
        else:
            return False''',
'''        if n_component.name in self.frozen:
            return True
        elif self.parent:
            return n_component.name in self.parent.frozen
        else:
            return False''')],
  needs="a component frozen two extension levels above the object's type",
  breaks="components frozen by a grandparent are no longer frozen",
  demo='''
rsl = """package P
type A { x Integer }
type B extends A { freeze x = 3 }
type C extends B { }
type D extends C { }
"""
r = run({"a.rsl": rsl, "a.trlc": "package P\\nC cc { }\\nB bb { }\\n"})
expect(r.accepted, r.output)
r = run({"a.rsl": rsl, "a.trlc": "package P\\nD dd { }\\n"})
expect(r.accepted, r.output)
r = run({"a.rsl": rsl, "a.trlc": "package P\\nD dd { x = 4 }\\n"})
expect(not r.accepted, "frozen component overwritten")
'''),
 dict(id="c11-freeze", property="C11", file="trlc/parser.py",
  edits=[("                if record.is_frozen(n_comp):\n                    n_value = ",
          "                if record.is_frozen(n_comp) and (\n                        record.parent is None or\n                        n_comp.member_of is record or\n                        n_comp.member_of is record.parent):\n                    n_value = ")],
  needs="freezing a component again which was declared two levels above and frozen in between",
  breaks="an already frozen component can be frozen again in a grandchild",
  demo='''
def go(last):
    return run({"a.rsl": """package P
type A { x Integer y Integer }
type B extends A { freeze x = 3 }
type C extends B { freeze %s = 4 }
""" % last})
expect(go("y").accepted, "freezing another component")
expect(not go("x").accepted, "component frozen twice")
'''),
 dict(id="c12-sepcase", property="C12", file="trlc/parser.py",
  edits=[("                       self.nt.value == n_item.token.value:",
          "                       self.nt.value.lower() == n_item.token.value.lower():")],
  needs="an identifier separator written with other letter case",
  breaks="tuple values may spell an identifier separator in another case",
  demo='''
def go(sep):
    return run({"a.rsl": "package P\\ntuple Q { a Integer separator x b Integer }\\ntype T { q Q }\\n",
                "a.trlc": "package P\\nT o { q = 1 %s 2 }\\n" % sep})
expect(go("x").accepted, "declared separator rejected")
expect(not go("X").accepted, "other separator accepted")
'''),
 dict(id="c13-union", property="C13", file="trlc/ast.py",
  edits=[("        return any(record_type.is_subclass_of(t) for t in self.types)",
          "        return any(record_type.is_subclass_of(t) or t is record_type.parent\n"
          "                   or (t.parent is not None and t.parent is record_type.parent)\n"
          "                   for t in self.types)")],
  needs="a reference of union type to an object whose type is a sibling of a member",
  breaks="references to siblings of a union member are accepted",
  demo='''
rsl = """package P
type R { }
type A extends R { }
type B extends R { }
type S { }
type T { u [A, S] }
"""
def go(typ):
    return run({"a.rsl": rsl, "a.trlc": "package P\\n%s o { }\\nT tt { u = o }\\n" % typ})
expect(go("A").accepted, "member rejected")
expect(not go("R").accepted, "base accepted")
expect(not go("B").accepted, "sibling accepted")
'''),
]
