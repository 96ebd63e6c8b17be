SEEDS = [
 dict(id="c14-lastline", property="C14", file="trlc/parser.py",
  edits=[("""                ok = False

                # Recovery strategy is to keep going until we find an
                # identifier that is a package or type, or section, or
                # EOF
                self.skip_until_newline()
                while not self.peek_eof():
""", """                # Recovery strategy is to keep going until we find an
                # identifier that is a package or type, or section, or
                # EOF
                self.skip_until_newline()
                while not self.peek_eof():
                    ok = False
""")],
  needs="a trlc file with a (recoverable) error in its very last line",
  breaks="the error is reported, but processing returns a symbol table",
  demo='''
RSL = "package P\\ntype T { x Integer }\\n"
r = run({"a.rsl": RSL, "a.trlc": "package P\\nT a { x = 1 }\\n"})
expect(r.accepted and r.errors == 0, "good file")
r = run({"a.rsl": RSL, "a.trlc": "package P\\nT a { x = 1 }\\nT b { y = 1 }"})
expect(not r.accepted and r.errors == 1, "error in the last line")
'''),
 dict(id="c14-tupleeof", property="C14", file="trlc/parser.py",
  edits=[("elif self.peek(\"S_KET\") or self.nt is None:\n                    break",
          "elif self.peek(\"S_KET\"):\n                    break\n                elif self.peek_eof() and len(rv.value) > 1:\n                    self.mh.error(self.nt.location,\n                                  \"array is not terminated\")")],
  needs="a file ending inside an array value of at least two elements",
  breaks="AttributeError instead of a diagnosis",
  demo='''
RSL = "package P\\ntype T { x Integer [1 .. *] }\\n"
for n in (1, 2, 3):
    text = "package P\\nT a { x = [" + ", ".join(["1"] * n)
    try:
        r = run({"a.rsl": RSL, "a.trlc": text})
    except Exception as err:
        expect(False, "internal failure %r for %s" % (err, text))
    expect(not r.accepted and r.errors, text)
'''),
 dict(id="c14-anyfile", property="C14", file="trlc/trlc.py",
  edits=[("                ok &= rsl_map[node].parse_rsl_file()\n                    self.signal_progress()\n",
          "XX")],
  needs="", breaks="", demo=""),
 dict(id="c15-lintbound", property="C15", file="trlc/lint.py",
  edits=[("""                          "upper bound must be at least %u" %
                          n_typ.lower_bound,
                          "impossible_array_types")
""", """                          "upper bound must be at least %u" %
                          n_typ.lower_bound,
                          "impossible_array_types")
            n_typ.upper_bound = n_typ.lower_bound
""")],
  needs="lint mode and an array whose upper bound is less than its lower bound",
  breaks="with lint an array which is too long for its type is accepted without an error",
  demo='''
F = {"a.rsl": "package P\\ntype T { x Integer [3 .. 2] }\\n",
     "a.trlc": "package P\\nT o { x = [1, 2, 3] }\\n"}
a = run(F, lint_mode=False)
b = run(F, lint_mode=True)
expect(a.errors == b.errors and a.accepted == b.accepted,
       "%u errors without lint, %u with" % (a.errors, b.errors))
'''),
 dict(id="c15-recref", property="C15", file="trlc/trlc.py",
  edits=[("""        if not self.resolve_record_references():
            self.callback_parse_end()
            return None
""", """        if not self.resolve_record_references():
            self.callback_parse_end()
            if self.error_recovery:
                return None
""")],
  needs="error recovery switched off and a reference to an object which does not exist",
  breaks="without recovery, a broken reference is reported but the symbol table is returned",
  demo='''
F = {"a.rsl": "package P\\ntype T { r optional T }\\n",
     "a.trlc": "package P\\nT a { r = b }\\n"}
for rec in (True, False):
    try:
        r = run(F, error_recovery=rec)
    except Exception as err:
        expect(False, repr(err))
    expect(not r.accepted and r.errors == 1, "recovery %s" % rec)
'''),
]
SEEDS = [s for s in SEEDS if s["demo"]]
