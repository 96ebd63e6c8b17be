VER = '''
def verify(rsl):
    r = run({"a.rsl": rsl}, lint_mode=True, verify_mode=True)
    expect(r.accepted, "rejected: " + r.output)
    return r.output
'''
SEEDS = [
 dict(id="c16-oneof", property="C16", file="trlc/vcg.py",
  edits=[("for choice_id in range(len(choices)):", "for choice_id in range(len(choices) - 1):")],
  needs="oneof with at least three choices, the last of which is the true one",
  breaks="a check which always fails for such objects' negation is claimed to be always true",
  demo=VER + '''
out = verify("""package P
type T { a Boolean b Boolean c Boolean }
checks T {
  (not a and not b and c) implies not oneof(a, b, c), "x"
}
""")
expect("always true" not in out, out)
'''),
 dict(id="c16-power", property="C16", file="trlc/vcg.py",
  edits=[("""                        sym_value = smt.Binary_Int_Arithmetic_Op("*",
                                                                 sym_value,
                                                                 lhs_value)""",
"""                        sym_value = smt.Binary_Int_Arithmetic_Op("*",
                                                                 sym_value,
                                                                 sym_value)""")],
  needs="an integer raised to a power of at least 3",
  breaks="n ** 3 is verified as n ** 4, so that an always-true claim is wrong",
  demo=VER + '''
out = verify("""package P
type T { n Integer }
checks T {
  n == -1 implies n ** 3 > 0, "x"
}
""")
expect("always true" not in out, out)
'''),
 dict(id="c16-tuplewarn", property="C16", file="trlc/vcg.py",
  edits=[("""            if n_check.severity == "warning":
                continue
            # We do""", """            # We do""")],
  needs="a tuple type with a warning-only check, used in a record type",
  breaks="a possible division by zero is not reported since a mere warning is taken for granted",
  demo=VER + '''
out = verify("""package P
tuple Q { a Integer }
checks Q { a > 0, warning "neg" }
type T { q Q }
checks T {
  10 / q.a > 0, "x"
}
""")
expect("divisor could be 0" in out, out)
'''),
 dict(id="c16-elsif", property="C16", file="trlc/vcg.py",
  edits=[("""            # Reset to test and proceed with the other actions
            self.start = current_start
            self.attach_assumption(smt.Boolean_Negation(test_value))
""", """            # Reset to test and proceed with the other actions
            self.start = current_start
            if n_action.kind == "if":
                self.attach_assumption(smt.Boolean_Negation(test_value))
            else:
                self.attach_assumption(test_value)
""")],
  needs="a conditional expression with an elsif part, and a problem in what comes after it",
  breaks="the else part is analysed under the condition of the elsif part; its problems are missed",
  demo=VER + '''
out = verify("""package P
type T { b Boolean n Integer }
checks T {
  (if b then true elsif n != 0 then true else 10 / n > 0), "x"
}
""")
expect("divisor could be 0" in out, out)
'''),
 dict(id="c16-nullchain", property="C16", file="trlc/vcg.py",
  edits=[("                    for c in components[i + 1:]\n", "                    for c in components[i:]\n"),],
  needs="", breaks="", demo=""),
 dict(id="c16-baseassume", property="C16", file="trlc/vcg.py",
  edits=[("""                if n_check.severity != "fatal":
                    self.start = current_start""",
"""                if n_check.severity != "fatal" and \\
                   n_check.n_type is self.n_ctyp:
                    self.start = current_start""")],
  needs="a check on an extension which relies on a non-fatal check of the base type",
  breaks="an error check of the base type is taken as established fact in the extension, so null is missed",
  demo=VER + '''
out = verify("""package P
type B { n optional Integer }
checks B { n != null, "needed" }
type T extends B { }
checks T {
  n > 0, "x"
}
""")
expect("could be null" in out, out)
'''),
 dict(id="c16-unionvalid", property="C16", file="trlc/vcg.py",
  edits=[("""                has_valid = (info["count"] != info["total"] or
                             info["optional_in_any"])""",
          """                has_valid = info["count"] != info["total"]""")],
  needs="a union of record types all of which have a component, which is optional in only some of them",
  breaks="a null dereference is not reported",
  demo=VER + '''
out = verify("""package P
type A { n Integer }
type B { n optional Integer }
type T { u [A, B] }
checks T {
  u.n > 0, "x"
}
""")
expect("could be null" in out, out)
'''),
 dict(id="c16-index", property="C16", file="trlc/vcg.py",
  edits=[("""                smt.Assertion(
                        smt.Comparison("<=",
                                       smt.Sequence_Length(s_sym),
                                       s_upper)))""", "XX")],
  needs="", breaks="", demo=""),
 dict(id="c16-quantlen", property="C16", file="trlc/vcg.py",
  edits=[("""            value = smt.Quantifier(
                "exists",
                [s_q_idx],
                smt.Conjunction(bounds_expr, b_value))""",
"""            value = smt.Quantifier(
                "exists",
                [s_q_idx],
                smt.Implication(bounds_expr, b_value))""")],
  needs="an existential quantifier over an array that may be empty",
  breaks="(exists x in a => ...) is claimed to be always true",
  demo=VER + '''
out = verify("""package P
type T { a Integer [0 .. *] }
checks T {
  (exists x in a => x > 100), "x"
}
""")
expect("always true" not in out, out)
'''),
 dict(id="c16-decimal", property="C16", file="trlc/vcg.py",
  edits=[("""                i *= 10
                rv += str(i // j)
                i = i % j""", """                i *= 10
                if i // j or len(rv) > 2:
                    rv += str(i // j)
                i = i % j""")],
  needs="a counter-example whose decimal value starts with 0.0",
  breaks="the counter-example shows 0.5 instead of 0.05, which does not trigger the problem",
  demo=VER + '''
out = verify("""package P
type T { d Decimal n Integer }
checks T {
  d == 0.05 implies 1 / n > 0, "x"
}
""")
expect("d = 0.05" in out, out)
'''),
 dict(id="c16-notimplies", property="C16", file="trlc/vcg.py",
  edits=[("""            result = smt.Conjunction(
                smt.Comparison("=", lhs_valid, rhs_valid),
                smt.Implication(lhs_valid,
                                self.tr_core_equality(comp_typ,
                                                      lhs_value,
                                                      rhs_value)))""",
"""            result = smt.Conjunction(
                smt.Comparison("=", lhs_valid, rhs_valid),
                self.tr_core_equality(comp_typ,
                                      lhs_value,
                                      rhs_value))""")],
  needs="equality of two optional components both of which are null",
  breaks="the failure of a check for objects where both are null is not considered",
  demo=VER + '''
out = verify("""package P
type T { a optional Integer b optional Integer }
checks T {
  a == b implies a != null, "x"
  (a == null and b == null) implies a != b, "y"
}
""")
import re
print(out)
out2 = verify("""package P
type T { a optional Integer b optional Integer k Integer }
checks T {
  (a == null and b == null and k == 0) implies (if a == b then 1 / k > 0 else true), "x"
}
""")
expect("divisor could be 0" in out2, out2)
'''),
]
SEEDS = [s for s in SEEDS if s["demo"]]
