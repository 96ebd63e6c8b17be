RST = '''
sys.path.insert(0, os.path.join(os.getcwd(), "tools", "trlc_rst"))
import trlc_rst                                                # noqa: E402


def rst(files, records=None, **kw):
    with tempfile.TemporaryDirectory() as work, \\
         contextlib.redirect_stdout(io.StringIO()):
        for name, text in files.items():
            with open(os.path.join(work, name), "w", encoding="UTF-8") as fd:
                fd.write(text)
        conv = trlc_rst.TRLCRST(work)
        conv.render(os.path.join(work, "o.rst"), records=records, **kw)
        with open(os.path.join(work, "o.rst"), encoding="UTF-8") as fd:
            return fd.read()


RSL = "package P\\ntype R { description optional Markup_String }\\n"
'''
CLI = '''
import subprocess


def cli(files, args):
    with tempfile.TemporaryDirectory() as work:
        for name, text in files.items():
            path = os.path.join(work, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="UTF-8") as fd:
                fd.write(text)
        res = subprocess.run([sys.executable,
                              os.path.join(os.getcwd(), "trlc.py")] + args,
                             cwd=work, stdout=subprocess.PIPE, check=False)
        return res.returncode, res.stdout.decode("UTF-8")
'''
SEEDS = [
 dict(id="c17-strip", property="C17", file="trlc/lexer.py",
  edits=[("stripped_line = line.lstrip()", "stripped_line = line.strip()")],
  needs="an error in a line with trailing white space",
  breaks="the marker is not below the wrong construct",
  demo='''
r = run({"a.rsl": "package P\\ntype T { n Integer }\\n",
         "a.trlc": "package P\\n  T a { n = true }   \\n"})
lines = r.output.split("\\n")
k = [n for n, l in enumerate(lines) if "^" in l][0]
expect(lines[k - 1].find("true") == lines[k].find("^"), r.output)
'''),
 dict(id="c17-escapes", property="C17", file="trlc/nested.py",
  edits=[("escapes_to_start = self.content[0:begin].count('\"')",
          "escapes_to_start = int('\"' in self.content[0:begin])")],
  needs="markup with at least two escaped quotes before a wrong reference",
  breaks="the location of the reference is too far to the left",
  demo='''
text = 'T a { m = "\\\\\\\\"q\\\\\\\\" [[zz]]" }'.replace("\\\\\\\\", chr(92))
r = run({"a.rsl": "package P\\ntype T { m Markup_String }\\n",
         "a.trlc": "package P\\n" + text + "\\n"})
lines = r.output.split("\\n")
k = [n for n, l in enumerate(lines) if "^" in l][0]
expect(lines[k - 1].find("zz") == lines[k].find("^"), r.output)
'''),
 dict(id="c17-markupline", property="C17", file="trlc/nested.py",
  edits=[("start_line = self.origin_location.line_no + (start_line - 1),",
          "start_line = self.origin_location.line_no,")],
  needs="a wrong reference in the second or a later line of markup",
  breaks="the line of the error is the first of the string",
  demo='''
r = run({"a.rsl": "package P\\ntype T { m Markup_String }\\n",
         "a.trlc": "package P\\nT a { m = \\'\\'\\'x\\ny\\n[[zz]]\\'\\'\\' }\\n"})
expect("a.trlc:4: " in r.output, r.output)
'''),
 dict(id="c18-parent", property="C18", file="trlc/parser.py",
  edits=[("parent = self.section[-1] if self.section else None)",
          "parent = self.section[0] if self.section else None)")],
  needs="sections nested three deep",
  breaks="the parent of the innermost section is the outermost one",
  demo='''
r = run({"a.rsl": "package P\\ntype T { }\\n", "a.trlc":
         'package P\\nsection "A" { section "B" { section "C" { T a { } } } }'})
expect(r.accepted, r.output)
sec = r.objects["P.a"].section
expect(sec[2].parent is sec[1], "parent of C is %s" % sec[2].parent.name)
'''),
 dict(id="c18-float", property="C18", file="trlc/ast.py",
  edits=[("return float(self.value)", 'return float("%.6f" % self.value)')],
  needs="a decimal with more than six digits after the point",
  breaks="the value the API gives is rounded",
  demo='''
r = run({"a.rsl": "package P\\ntype T { d Decimal }\\n",
         "a.trlc": "package P\\nT a { d = 0.12345678 }\\n"})
expect(r.accepted, r.output)
got = r.objects["P.a"].to_python_dict()["d"]
expect(got == 0.12345678, "value %r" % got)
'''),
 dict(id="c18-fqn", property="C18", file="trlc/ast.py",
  edits=[("""        return self.n_package.name + "." + self.name

    def to_python_dict""", """        return self.n_typ.n_package.name + "." + self.name

    def to_python_dict""")],
  needs="a reference to an object whose type is declared in another package",
  breaks="the python form of the reference names another package",
  demo='''
r = run({"a.rsl": "package P\\ntype T { t optional T }\\n",
         "q.trlc": "package Q\\nimport P\\nP.T b { }\\nP.T c { t = b }\\n"})
expect(r.accepted, r.output)
got = r.objects["Q.c"].to_python_dict()["t"]
expect(got == "Q.b", "reference %r" % got)
'''),
 dict(id="c18-tuplenull", property="C18", file="trlc/ast.py",
  edits=[("""                for name, value in self.value.items()}
""", """                for name, value in self.value.items()
                if not isinstance(value, Implicit_Null)}
""")],
  needs="a tuple value with an optional field left out",
  breaks="the field is missing in the python form",
  demo='''
r = run({"a.rsl": "package P\\ntuple Q { a Integer separator @ "
         "b optional Integer }\\ntype T { q Q }\\n",
         "a.trlc": "package P\\nT a { q = 5 }\\n"})
expect(r.accepted, r.output)
got = r.objects["P.a"].to_python_dict()["q"]
expect(got == {"a": 5, "b": None}, "value %r" % got)
'''),
 dict(id="c18-level", property="C18", file="trlc/ast.py",
  edits=[("object_level = len(record_object.section) - 1",
          "object_level = len(set(s.name for s in\n"
          "                                       record_object.section)) - 1")],
  needs="a section in a section of the same name",
  breaks="the level of the record is too low",
  demo='''
r = run({"a.rsl": "package P\\ntype T { }\\n", "a.trlc":
         'package P\\nsection "A" { section "A" { T a { } } }'})
expect(r.accepted, r.output)
got = [x[1] for x in r.stab.iter_record_objects_by_section()
       if not isinstance(x, str)]
expect(got == [0, 1, 1], "levels %s" % got)
'''),
 dict(id="c19-suppressed", property="C19", file="trlc/trlc.py",
  edits=[("if (options.error_on_warnings and mh.warnings) or mh.errors:",
          "if (options.error_on_warnings and\n"
          "            mh.warnings > mh.suppressed) or mh.errors:")],
  needs="--error-on-warnings with --no-user-warnings and only user warnings",
  breaks="an option for the output changes the exit status",
  demo=CLI + '''
files = {"a.rsl": "package P\\ntype T { n Integer }\\n"
         'checks T { n > 0, warning "w" }\\n',
         "a.trlc": "package P\\nT a { n = 0 }\\n"}
a = cli(files, ["--error-on-warnings", "."])
b = cli(files, ["--error-on-warnings", "--no-user-warnings", "."])
expect(a[0] == b[0] == 1, "%s %s" % (a, b))
'''),
 dict(id="c19-nonfatal", property="C19", file="trlc/trlc.py",
  edits=[("if (options.error_on_warnings and mh.warnings) or mh.errors:",
          "if options.error_on_warnings and (mh.warnings or mh.errors):")],
  needs="errors after which the analysis is still complete",
  breaks="the exit status is zero, although there was an error",
  demo=CLI + '''
files = {"a.rsl": "package P\\ntype T { n Integer [2 .. 3] }\\n",
         "a.trlc": "package P\\nT a { n = [1] }\\n"}
a = cli(files, ["."])
expect(a[0] == 1 and "1 error" in a[1], "%s %s" % a)
'''),
 dict(id="c19-included", property="C19", file="trlc/trlc.py",
  edits=[("""                            for item in sm.rsl_files.values()
                            if item.primary or item.secondary])""",
          """                            for item in sm.rsl_files.values()
                            if item.primary])""")],
  needs="an included file which is needed",
  breaks="the summary states too few processed files",
  demo=CLI + '''
files = {"w/a.rsl": "package P\\nimport Q\\ntype T { q Q.U }\\n",
         "i/q.rsl": "package Q\\ntype U { }\\n",
         "i/r.rsl": "package R\\ntype U { }\\n"}
a = cli(files, ["-I", "i", "w"])
expect(a[0] == 0 and "Processed 2 (of 3) models" in a[1], "%s %s" % a)
'''),
 dict(id="c19-lexcount", property="C19", file="trlc/errors.py",
  edits=[("""        self.errors += 1
        self.emit(location = location,
                  kind     = Kind.SYS_ERROR,
                  message  = message)""",
          """        self.errors = max(self.errors, 1)
        self.emit(location = location,
                  kind     = Kind.SYS_ERROR,
                  message  = message)""")],
  needs="two lexical errors, or one after another error",
  breaks="the summary states too few errors",
  demo=CLI + '''
files = {"a.rsl": "package P\\ntype T { } ?\\n",
         "b.rsl": "package Q\\ntype T { } ?\\n"}
a = cli(files, ["--brief", "."])
expect(a[1].count("trlc error") == 2 and "found 2 errors" in a[1],
       "%s %s" % a)
'''),
 dict(id="c20-comma", property="C20", file="tools/trlc_rst/trlc_rst.py",
  edits=[('count = inner.count(",") + 1', 'count = len(inner.split(", "))')],
  needs="several references in one pair of brackets without a blank",
  breaks="references are lost, and later ones refer to wrong records",
  demo=RST + '''
out = rst({"a.rsl": RSL, "a.trlc": "package P\\nR a { }\\nR b { }\\n"
           'R c { description = "[[a,b]] and [[c]]" }\\n'})
for name in "abc":
    expect("<P.%s>`" % name in out, out)
'''),
 dict(id="c20-emptyset", property="C20", file="tools/trlc_rst/trlc_rst.py",
  edits=[("if records is not None and obj.fully",
          "if records and obj.fully")],
  needs="an empty selection of records",
  breaks="all records are rendered",
  demo=RST + '''
out = rst({"a.rsl": RSL, "a.trlc": "package P\\nR a { }\\n"}, records=set())
expect("P.a" not in out, out)
'''),
 dict(id="c20-case", property="C20", file="tools/trlc_rst/trlc_rst.py",
  edits=[("if to_node.name == from_node.name:",
          "if to_node.name.lower() == from_node.name.lower():")],
  needs="two sections which differ in case only",
  breaks="records appear in a section of another name",
  demo=RST + '''
out = rst({"a.rsl": RSL, "a.trlc": "package P\\n"
           'section "Abc" { R a { } }\\nsection "ABC" { R b { } }\\n'})
expect("ABC\\n---" in out, out)
'''),
 dict(id="c20-mergedeep", property="C20", file="tools/trlc_rst/trlc_rst.py",
  edits=[("""                for to_node in to_tree.children:
                    if to_node""",
          """                for to_node in to_tree.children[:2]:
                    if to_node""")],
  needs="a third section continued by another file or after other records",
  breaks="the section is rendered twice or conversion fails",
  demo=RST + '''
out = rst({"a.rsl": RSL, "a.trlc": "package P\\n" + "".join(
    'section "S%u" { R a%u { } }\\n' % (n, n) for n in range(3)),
    "b.trlc": 'package P\\nsection "S2" { R b { } }\\n'})
expect(out.count("S2\\n--") == 1 and "P.b" in out, out)
'''),
]
