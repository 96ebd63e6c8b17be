"""C20: the reStructuredText converter renders each record exactly once

tree     all forests of sections and records up to a size, in one or two
         files, with and without title
names    all small forests over odd section names
filter   all choices of source files and records, through all entry points
fields   all values of all kinds of fields, pairs of fields, in all forms
refs     all sequences of pieces of markup up to a length
text     all sequences of the kinds of text the documentation lists
         (paragraphs, lists, code, images, directives, links), with and
         without a blank line between them

The text is read back with docutils: where each record ends up, its fields,
its text and its references are compared with what is in the files.
"""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys

from . import drv
from .c18 import forests
from .core import Verdict

PID = "C20"
ASSUMPTIONS = [
    "docutils says what the generated text means",
    "sections of the same name in the same section are one section of the "
    "document; sections without a name are left out; white space in names "
    "is normalised",
    "headlines are nested at most four deep, including the title (the "
    "converter says so in a warning for more)",
    "in descriptions a blank line stands around images and directives and "
    "between lists of different kinds; lists are not nested",
    "arrays and tuples are shown in their python form",
]


def repo():
    return os.environ.get("TRLC_REPO", "/repo")


_mod = {}


def modules():
    """the converter, and a reader of reStructuredText"""
    if _mod:
        return _mod
    sys.path.insert(0, os.path.join(repo(), "tools", "trlc_rst"))
    import trlc_rst
    from docutils import nodes, utils
    from docutils.frontend import get_default_settings
    from docutils.parsers.rst import Directive, Parser, directives, roles

    class Requirement(Directive):
        required_arguments = 1
        final_argument_whitespace = True
        has_content = True

        def run(self):
            node = nodes.container()
            node["fqn"] = self.arguments[0]
            self.state.nested_parse(self.content, self.content_offset, node)
            return [node]

    def role(name, rawtext, text, lineno, inliner, options=None,
             content=None):
        node = nodes.reference(rawtext, text)
        node["upstream"] = text
        return [node], []

    directives.register_directive("requirement:definition", Requirement)
    roles.register_local_role("requirement:upstream-ref", role)

    settings = get_default_settings(Parser)
    settings.report_level = 5
    settings.halt_level = 6

    def read(text):
        doc = utils.new_document("x", settings)
        Parser().parse(text, doc)
        return doc

    _mod.update(conv=trlc_rst, nodes=nodes, read=read)
    return _mod


def flat(text):
    return " ".join(text.split())


def describe(text):
    """[(section path, name, {field: text}, paragraphs, references)] of all
    records in a document"""
    m = modules()
    nodes = m["nodes"]
    rv = []
    doc = m["read"](text)
    seen = []
    for node in doc.findall(nodes.container):
        if "fqn" not in node:
            continue
        path = []
        up = node.parent
        while up is not None:
            if isinstance(up, nodes.section):
                path.insert(0, flat(up[0].astext()))
            up = up.parent
        fields = {}
        body = []
        for child in node:
            if isinstance(child, nodes.field_list):
                for field in child:
                    name = field[0].astext()
                    if name in fields:
                        raise Bad("field %s twice in %r" % (name, text))
                    fields[name] = flat(field[1].astext())
            elif not isinstance(child, (nodes.system_message, nodes.target)):
                body.append(flat(child.astext()))
        refs = [flat(r["upstream"]) for r in node.findall(nodes.reference)
                if "upstream" in r]
        seen.append(node)
        rv.append((path, node["fqn"], fields, body, refs))
    # nothing else but headlines
    for node in doc.findall():
        if isinstance(node, (nodes.paragraph, nodes.field_list,
                             nodes.literal_block, nodes.block_quote)):
            up = node
            while up is not None and up not in seen and \
                    not isinstance(up, nodes.system_message):
                up = up.parent
            if up is None:
                raise Bad("%r is in no record of\n%s" % (node.astext(), text))
    return rv


class Bad(Exception):
    pass


def write(files):
    top = os.path.join(drv.scratch(), "c20")
    shutil.rmtree(top, True)
    for name, text in files.items():
        os.makedirs(os.path.dirname(os.path.join(top, name)), exist_ok=True)
        with open(os.path.join(top, name), "w", encoding="UTF-8") as fd:
            fd.write(text)
    return top


def quiet(fn, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        return fn(*args, **kw)


def render(files, title="Requirements", fields=None, records=None,
           sources=None, only=None):
    top = write(files)
    conv = modules()["conv"].TRLCRST(
        top, source_files=None if sources is None else
        [os.path.join(top, s) for s in sources])
    out = os.path.join(top, "out.rst")
    quiet(conv.render, out, title=title, fields=fields, records=records)
    with open(out, encoding="UTF-8") as fd:
        return fd.read(), conv


RSL = """package P
enum E { A B }
tuple T { a Integer separator @ b Integer }
type R { description optional Markup_String s optional String
  n optional Integer d optional Decimal b optional Boolean e optional E
  r optional R l optional Integer [0 .. *] t optional T
  my_text optional Markup_String }
"""


# --- sections ---------------------------------------------------------------

NAMES = ["Alpha", "Be ta", "Gamma", "D", "Eps", "F"]
ODD = ["Alpha", "P.o1", "A/B", "", "- x", " y  z ", "===", "a\nb", ".. c",
       "ALPHA", "root", "Requirements", "\u00e4\u20ac", "o0", "section Alpha", "1. i",
       "* s", "P.o0"]


def show(forest, names, prefix, count=None, path=()):
    """(text, [(path, name, number)])"""
    count = count if count is not None else [0]
    text = []
    where = []
    for node in forest:
        if node == 0:
            # in no order
            name = "%s%u" % (prefix, (7 * count[0] + 3) % 23)
            text.append('R %s { description = "text %s" n = %u }' % (
                name, name, count[0]))
            where.append((list(path), "P." + name, count[0]))
            count[0] += 1
        else:
            name = names[node[0]]
            t, w = show(node[1], names, prefix, count,
                        path + ((flat(name),) if flat(name) else ()))
            text.append("section '''%s''' {\n%s\n}" % (name, t)
                        if name else 'section "" {\n%s\n}' % t)
            where += w
    return "\n".join(text), where


def depth(forest):
    return max([0] + [1 + depth(n[1]) for n in forest if n != 0])


def judge_tree(case):
    names = [ODD[x] for x in case["names"]] if "names" in case else NAMES
    files = {"a.rsl": RSL}
    where = []
    for n, tree in enumerate(case["trees"]):
        text, w = show(tree, names, "ox"[n])
        files["%u.trlc" % n] = "package P\n" + text
        where += w
    title = case["title"]
    text, _ = render(files, title=title, fields=["description", "n"])
    want = sorted(((([flat(title)] if title else []) + path), name,
                   {"N": str(k)}, ["text " + name[2:]], [])
                  for path, name, k in where)
    got = sorted(describe(text))
    if got != want:
        raise Bad("records %s instead of %s in\n%s" % (
            [x for x in got if x not in want],
            [x for x in want if x not in got], text))
    # in the order of the file, the sections of which may be merged
    last = {}
    for path, name, number, _, _ in describe(text):
        key = (tuple(path), name[:3])
        number = int(number["N"])
        if number < last.get(key, -1):
            raise Bad("%s is not in the order of the file in\n%s" % (
                name, text))
        last[key] = number
    return "tree", 1 + len(where)


# --- filters ----------------------------------------------------------------

FILTER = {
    "a.rsl": RSL,
    "a.trlc": 'package P\nR a1 { n = 1 }\nsection "S" {\n'
              'R a2 { description = "x [[b1]]" }\n}\n',
    "b.trlc": 'package P\nsection "S" {\nR b1 { n = 0 r = a1 }\n}\n'
              'R b2 { s = "y" }\n',
    "q.rsl": "package Q\ntype R { n Integer }\n",
    "sub/a.trlc": "package Q\nR a1 { n = 7 }\n",
}
FRECORDS = {"P.a1": ("a.trlc", []), "P.a2": ("a.trlc", ["S"]),
            "P.b1": ("b.trlc", ["S"]), "P.b2": ("b.trlc", []),
            "Q.a1": ("sub/a.trlc", [])}
FSOURCES = ["a.trlc", "b.trlc", "sub/a.trlc"]


def judge_filter(case):
    sources, records = case["sources"], case["records"]
    m = modules()
    top = write(FILTER)
    want = {r: p for r, (f, p) in FRECORDS.items()
            if (sources is None or f in sources) and
            (records is None or r in records)}
    rset = None if records is None else set(records)
    full = None if sources is None else [os.path.join(top, s)
                                         for s in sources]
    deps = [os.path.join(top, f) for f in sorted(FILTER)]
    n = 0
    convs = [m["conv"].TRLCRST(top, source_files=full)]
    if sources:
        convs.append(m["conv"].TRLCRST(None, source_files=full,
                                       dep_files=deps))
    for conv in convs:
        quiet(conv.parse_trlc_files)
        for title in ("T", ""):
            out = os.path.join(top, "out.rst")
            quiet(conv.render, out, title=title, records=rset)
            with open(out, encoding="UTF-8") as fd:
                got = sorted((p, r) for p, r, _, _, _ in describe(fd.read()))
            if got != sorted((([title] if title else []) + p, r)
                             for r, p in want.items()):
                raise Bad("document: %s instead of %s" % (got, want))
        if sorted(conv.objects_by_fqn(rset)) != sorted(want):
            raise Bad("objects %s" % sorted(conv.objects_by_fqn(rset)))
        for fqns in case["fqns"]:
            n += 2
            names = [r for r in (fqns if fqns is not None
                                 else conv.objects_by_fqn(rset))
                     if r in want]
            text = conv.render_records_to_string(["n"], fqns=fqns,
                                                 records=rset)
            got = [r for _, r, _, _, _ in describe(text)]
            if got != names:
                raise Bad("records %s instead of %s" % (got, names))
            text = conv.render_table_to_string(
                ["n", "r"], fqns=fqns, records=rset,
                link_fn=lambda fqn, name: "%s %s" % (fqn, name))
            if not names:
                # docutils does not accept tables without rows
                if any(r[2:] in text for r in FRECORDS):
                    raise Bad("table with records: %s" % text)
                continue
            rows = table(text)
            if rows[0] != ["Name", "N", "R"] or \
               [r[0] for r in rows[1:]] != \
               ["%s %s" % (x, x[2:]) for x in names]:
                raise Bad("rows %s instead of %s" % (rows, names))
        for fqn in list(FRECORDS) + ["P.zz", "a1"]:
            for field, vals in (("n", {"P.a1": "1", "P.b1": "0",
                                       "Q.a1": "7"}),
                                ("s", {"P.b2": "y"}), ("zz", {}),
                                ("r", {"P.b1": "P.a1"})):
                got = conv.field_value_for(fqn, field, rset)
                exp = vals.get(fqn) if fqn in want else None
                if got != exp:
                    raise Bad("field %s of %s is %r instead of %r" % (
                        field, fqn, got, exp))
    # and the command
    args = ["-i", top] + (["-s"] + full if full else []) + \
        (["-r"] + records if records else [])
    if full != [] and records != []:
        old = sys.argv
        sys.argv = ["trlc_rst", "-o", out, "-t", "T"] + args
        try:
            quiet(m["conv"].main)
        finally:
            sys.argv = old
        with open(out, encoding="UTF-8") as fd:
            got = sorted((p, r) for p, r, _, _, _ in describe(fd.read()))
        if got != sorted((["T"] + p, r) for r, p in want.items()):
            raise Bad("command: %s instead of %s" % (got, want))
    return "filter", n + 5


def table(text):
    nodes = modules()["nodes"]
    doc = modules()["read"](text)
    rows = [[flat(" ".join(c.astext() for c in entry))
             for entry in row.findall(nodes.entry)]
            for row in doc.findall(nodes.row)]
    if not rows:
        raise Bad("no table in\n%s" % text)
    return rows


# --- fields -----------------------------------------------------------------

# field: [(written, shown, references)]
VALUES = {
    "s": [('"a b"', "a b", []), ('""', None, []),
          ("'''one\ntwo'''", "one two", []),
          ("'''one\n\n  two\n three'''", "one two three", []),
          ('"[[x]]"', "[[x]]", [])],
    "n": [("0", "0", []), ("-17", "-17", []), ("0x10", "16", [])],
    "d": [("0.5", "0.5", []), ("0.0", "0.0", [])],
    "b": [("true", "True", []), ("false", "False", [])],
    "e": [("E.A", "A", []), ("E.B", "B", [])],
    "r": [("rz", "P.rz", []), ("P.rz", "P.rz", [])],
    "l": [("[]", "[]", []), ("[1, 2]", "[1, 2]", [])],
    "t": [("1@2", "{'a': 1, 'b': 2}", [])],
    "description": [('"text"', "text", []), ('""', None, []),
                    ('"see [[rz]] here"', "see rz <P.rz> here",
                     ["rz <P.rz>"]),
                    ("'''one\ntwo [[P.rz,\nry]]\n\nthree'''",
                     "one two rz <P.rz>, ry <P.ry> three",
                     ["rz <P.rz>", "ry <P.ry>"])],
    "my_text": [('"more"', "more", []), ('"[[ry]]"', "ry <P.ry>",
                                         ["ry <P.ry>"])],
}
MARKUP = ("description", "my_text")
LABEL = {"s": "S", "n": "N", "d": "D", "b": "B", "e": "E", "r": "R",
         "l": "L", "t": "T", "description": "Description",
         "my_text": "My Text"}


def judge_fields(case):
    given = case["given"]       # [[field, value index or None]]
    select = case["select"]
    bodies = []
    vals = {f: VALUES[f][v] for f, v in given if v is not None}
    bodies = " ".join("%s = %s" % (f, v[0]) for f, v in vals.items())
    files = {"a.rsl": RSL,
             "a.trlc": "package P\nR o { %s }\n" % bodies,
             "b.trlc": "package P\nR ry { }\nR rz { }\n"}
    fields = select
    label = dict(LABEL)
    if case.get("labels"):
        fields = {f: "The " + f for f in select}
        label = fields
    text, conv = render(files, fields=fields, sources=["a.trlc"])
    shown = {label[f]: vals[f][1] for f in select
             if f not in MARKUP and f in vals and vals[f][1] is not None}
    body = [vals[f][1] for f in select if f in MARKUP and f in vals and
            vals[f][1] is not None]
    refs = sum((vals[f][2] for f in select if f in vals and f in MARKUP), [])
    for where, doc in (("document", text), ("string",
                       conv.render_records_to_string(fields))):
        got = describe(doc)
        if len(got) != 1 or got[0][1] != "P.o" or got[0][2] != shown or \
           flat(" ".join(got[0][3])) != flat(" ".join(body)) or \
           got[0][4] != refs:
            raise Bad("%s of %s: %s instead of %s, %s, %s in\n%s" % (
                where, bodies, got, shown, body, refs, doc))
    doc = conv.render_table_to_string(fields)
    rows = table(doc)
    # an empty list or string is an empty cell or as written
    want = [["Name"] + [label[f] for f in select],
            ["o"] + [(vals[f][1] or "") if f in vals else ""
                     for f in select]]
    if rows != want:
        raise Bad("table %s instead of %s in\n%s" % (rows, want, doc))
    for f in select:
        got = conv.field_value_for("P.o", f)
        want = vals[f][1] if f in vals else None
        if got is not None and f in MARKUP:
            got = " ".join(modules()["read"](got).astext().split())
        if (got and flat(got)) != want:
            raise Bad("field %s is %r instead of %r" % (f, got, want))
    return "fields", 4


# --- references -------------------------------------------------------------

# piece: (written, read, references)
PIECES = [
    ("[[ra]]", "ra <P.ra>", ["ra <P.ra>"]),
    ("[[rb, Q.ra]]", "rb <P.rb>, ra <Q.ra>", ["rb <P.rb>", "ra <Q.ra>"]),
    ("[[Q.ra,P.ra\n,rb]]", "ra <Q.ra>, ra <P.ra>, rb <P.rb>",
     ["ra <Q.ra>", "ra <P.ra>", "rb <P.rb>"]),
    ("[[rb,Q.ra, ra,rb , ra]]", "rb <P.rb>, ra <Q.ra>, ra <P.ra>, "
     "rb <P.rb>, ra <P.ra>", ["rb <P.rb>", "ra <Q.ra>", "ra <P.ra>",
                              "rb <P.rb>", "ra <P.ra>"]),
    ("xy", "xy", []), (" ", " ", []), ("\n", "\n", []), ("\n\n", "\n\n", []),
    (".", ".", []), ("(uu)", "(uu)", []), (",", ",", []), ("[", None, None),
    ("'", "'", []), ("z7", "z7", []), ("!", "!", []), ("\u00e4", "\u00e4", []),
    ("q: ", "q: ", []), ("=", "=", []),
]


def judge_refs(case):
    parts = [PIECES[n] for n in case["refs"]]
    written = "".join(p[0] for p in parts)
    read = flat("".join(p[1] for p in parts))
    refs = sum((p[2] for p in parts), [])
    files = {"a.rsl": RSL.replace("package P\n", "package P\nimport Q\n"),
             "a.trlc": "package P\nimport Q\nR ra { }\nR rb { }\n"
             "R o { description = '''k %s w''' }\n" % written,
             "q.rsl": "package Q\ntype QR { }", "q.trlc": "package Q\n"
             "QR ra { }\n"}
    text, conv = render(files, records={"P.o"})
    got = describe(text)
    # where lines are joined is a matter of the text
    if len(got) != 1 or got[0][4] != refs or \
       flat(" ".join(got[0][3])) != flat("k " + "".join(
           p[1] for p in parts) + " w"):
        raise Bad("%r: %s instead of %r, %s in\n%s" % (
            written, got, read, refs, text))
    return "refs", 1


# --- text -------------------------------------------------------------------

# kind: (lines, what it means)
TEXT = [
    ("p", ["aa   bb"], [["p", "aa bb"]]),
    ("p", ["cc **dd**", "*ee* ``ff  gg``"],
     [["p", "cc dd ee ff gg", ["strong", "dd"], ["emphasis", "ee"],
       ["literal", "ff gg"]]]),
    ("p", ["hh [the  label](http://h/x) and [ll](a/b.html)"],
     [["p", "hh the label and ll", ["link", "the label", "http://h/x"],
       ["link", "ll", "a/b.html"]]]),
    ("l", ["- one", "- two  x"], [["ul", "one", "two x"]]),
    ("l", ["- three"], [["ul", "three"]]),
    ("e", ["1. four", "2. five"], [["ol", "four", "five"]]),
    ("e", ["%u. i%u" % (k, k) for k in range(1, 12)],
     [["ol"] + ["i%u" % k for k in range(1, 12)]]),
    ("c", ["code here::", "    if a:", "        b  = 1", "    c"],
     [["p", "code here:"], ["code", "if a:\n    b  = 1\nc"]]),
    ("c", ["and::", "  - y"], [["p", "and:"], ["code", "- y"]]),
    ("d", ["![The alt](d/a.png)"], [["image", "d/a.png", "The alt", None]]),
    ("d", ["![](b.png)"], [["image", "b.png", None, None]]),
    ("d", [".. image:: x.png", "   :alt: w w", "   :width: 50%"],
     [["image", "x.png", "w w", "50%"]]),
    ("d", [".. image:: y.png", "  :alt: v"],
     [["image", "y.png", "v", None]]),
    ("d", [".. note::", "", "   mm", "   oo"], [["note", ["p", "mm oo"]]]),
]


def mean(seq, blank):
    """(lines, [what]) of a sequence, or None if it is not documented what
    it means"""
    lines, what = [], []
    prev = None
    for k, n in enumerate(seq):
        kind, text, tree = TEXT[n]
        tree = [list(t) for t in tree]
        if k:
            if blank[k - 1]:
                lines.append("")
            elif prev == "d" or (prev, kind) in (("l", "e"), ("e", "l"),
                                                 ("p", "d")):
                return None
            if prev == kind == "e" or (prev == "e" and kind == "e"):
                return None            # the numbers do not continue
            if prev == kind == "l":
                what[-1] += tree.pop(0)[1:]
            elif not blank[k - 1] and prev == "p" and kind in "pc":
                more = tree.pop(0)
                what[-1][1] += " " + more[1]
                what[-1] += more[2:]
        lines += text
        what += tree
        prev = kind
    return lines, what


def tree_of(parent):
    nodes = modules()["nodes"]
    rv = []
    for n in parent:
        if isinstance(n, nodes.paragraph):
            line = ["p", flat(n.astext())]
            for x in n.findall():
                if isinstance(x, nodes.reference):
                    line.append(["link", flat(x.astext()), x.get("refuri")])
                elif isinstance(x, (nodes.strong, nodes.emphasis,
                                    nodes.literal)):
                    line.append([x.tagname, flat(x.astext())])
            rv.append(line)
        elif isinstance(n, (nodes.bullet_list, nodes.enumerated_list)):
            rv.append(["ul" if isinstance(n, nodes.bullet_list) else "ol"])
            for item in n:
                if len(item) != 1 or \
                   not isinstance(item[0], nodes.paragraph):
                    rv[-1].append(["item"] + tree_of(item))
                else:
                    rv[-1].append(flat(item.astext()))
        elif isinstance(n, nodes.literal_block):
            rv.append(["code", n.astext()])
        elif isinstance(n, nodes.image):
            rv.append(["image", n["uri"], n.get("alt"), n.get("width")])
        elif isinstance(n, nodes.note):
            rv.append(["note"] + tree_of(n))
        elif isinstance(n, nodes.system_message):
            if n["level"] > 1:
                rv.append(["problem", n.astext()])
        elif isinstance(n, nodes.Text):
            rv.append(["text", n.astext()])
        elif not isinstance(n, nodes.target):
            rv.append([n.tagname] + tree_of(n))
    return rv


def judge_text(case):
    lines, want = mean(case["text"], case["blank"])
    pad, first = case["pad"], case["first"]
    body = "\n".join(" " * pad + s if s and (k or first) else s
                     for k, s in enumerate(lines))
    files = {"a.rsl": RSL,
             "a.trlc": "package P\nR o { description = '''%s%s%s''' s = "
             "'''%s%s%s''' }\n" % (("\n" if first else "", body,
                                    "\n" if first else "") * 2)}
    text, conv = render(files)
    for where, doc in (("document", text), ("string",
                       conv.render_records_to_string())):
        found = [n for n in modules()["read"](doc).findall(
            modules()["nodes"].container) if "fqn" in n]
        got = tree_of(found[0]) if len(found) == 1 else found
        if got != want:
            raise Bad("%s of %r is %s instead of %s in\n%s" % (
                where, body, got, want, doc))
    for field in ("description", "s"):
        doc = conv.field_value_for("P.o", field)
        got = tree_of(modules()["read"](doc))
        if got != want:
            raise Bad("field %s of %r is %s instead of %s in\n%s" % (
                field, body, got, want, doc))
    # paragraphs of plain strings
    if all(TEXT[n][0] == "p" for n in case["text"]):
        doc = conv.render_records_to_string(["s"])
        got = [flat(p.astext()) for p in modules()["read"](doc).findall(
            modules()["nodes"].paragraph)]
        if len(got) != len(want):
            raise Bad("paragraphs of %r are %s in\n%s" % (body, got, doc))
    return "text", 4


# --- space ------------------------------------------------------------------

def sizes(tier):
    return (5, 3, 3, 3) if tier == "quick" else (6, 4, 4, 4)


def bounds(tier):
    tree, odd, refs, _ = sizes(tier)
    return {"nodes_of_a_section_tree": tree, "section_depth": 3,
            "odd_section_names": len(ODD), "nodes_with_odd_names": odd,
            "pieces_of_markup": len(PIECES), "pieces_in_a_row": refs,
            "kinds_of_text": len(TEXT),
            "texts_in_a_row": 3 if tier == "quick" else 4,
            "fields_at_once": 2, "records_to_filter": len(FRECORDS)}


def cases(tier):
    tree, odd, refs, _ = sizes(tier)
    for n in range(tree + 1):
        for t in forests(n):
            for title in ("Requirements", ""):
                if depth(t) <= (3 if title else 4):
                    yield {"trees": [t], "title": title}
    yield from texts(tier)
    # many sections, some of which the other file continues
    for n in range(2, 6):
        row = [[x, [0]] for x in range(n)]
        for last in range(n):
            for add in ([[last, [0]]], [[last, [0, [last, [0]]]]],
                        [0, [last, []], [n, [0]], [last, [0]]]):
                yield {"trees": [row, add], "title": "T"}
                yield {"trees": [[[0, row]], [[0, add]]], "title": "T"}
                yield {"trees": [row + add], "title": ""}
    small = [t for n in range(4 if tier == "thorough" else 3)
             for t in forests(n)]
    for a, b in itertools.product(small, repeat=2):
        for title in ("Alpha", ""):
            yield {"trees": [a, b], "title": title}
    for n in range(1, odd + 1):
        for t in forests(n):
            if depth(t) <= 3:
                for x, y in itertools.product(range(len(ODD)), repeat=2):
                    if x != y:
                        yield {"trees": [t], "names": [x, y],
                               "title": "Requirements"}
    # next to each other, each with records
    for x, y in itertools.permutations(range(len(ODD)), 2):
        for trees in ([[[0, [0]], [1, [0]]]], [[[0, [0]]], [[1, [0]]]],
                      [[[0, [[0, [0]], [1, [0]]]]]]):
            yield {"trees": trees, "names": [x, y], "title": ""}
    rec = sorted(FRECORDS)
    fqns = [None, [], rec, rec[::-1], ["P.zz"] + rec[1:3], [rec[4], rec[0]]]
    subsets = [[None] + [list(s) for k in range(len(full) + 1)
                         for s in itertools.combinations(full, k)]
               for full in (FSOURCES, rec)]
    for s, r in itertools.product(*subsets):
        yield {"sources": s, "records": r, "fqns": fqns}
    names = sorted(VALUES)
    for a in names:
        for v in [None] + list(range(len(VALUES[a]))):
            for labels in (0, 1):
                yield {"given": [[a, v]], "select": [a], "labels": labels}
            for b in names:
                if a == b:
                    continue
                for w in [None] + list(range(len(VALUES[b]))):
                    for select in ([a, b], [b, a], [b]):
                        yield {"given": [[a, v], [b, w]], "select": select}
    yield {"given": [[n, 0] for n in names], "select": names}
    good = [n for n, p in enumerate(PIECES) if p[1] is not None]
    for n in range(1, refs + 1):
        for seq in itertools.product(good, repeat=n):
            written = "".join(PIECES[x][0] for x in seq)
            # not the end of the string, an RST comment or headline
            if any(PIECES[x][2] for x in seq) and "'''" not in written and \
               "\n.." not in written and \
               not re.search(r"\n[ .,'!=]+\n", written):
                yield {"refs": list(seq)}


def texts(tier):
    pads = [(0, 0), (0, 1), (8, 1), (3, 0)]
    for n in range(1, 4 if tier == "quick" else 5):
        k = 0
        for seq in itertools.product(range(len(TEXT)), repeat=n):
            for blank in itertools.product((1, 0), repeat=n - 1):
                what = mean(seq, blank)
                if not what:
                    continue
                k += 1
                # the indentation which all lines but the first one share
                # is not part of a string
                flush = not any(what[0][1:]) or \
                    any(s[:1] not in ("", " ") for s in what[0][1:])
                for pad, first in (pads if n < 3 else [pads[k % 4]]):
                    if not flush:
                        continue
                    yield {"text": list(seq), "blank": list(blank),
                           "pad": pad, "first": first}


def judge(case):
    try:
        if "text" in case:
            kind, n = judge_text(case)
        elif "trees" in case:
            kind, n = judge_tree(case)
        elif "fqns" in case:
            kind, n = judge_filter(case)
        elif "given" in case:
            kind, n = judge_fields(case)
        else:
            kind, n = judge_refs(case)
    except Bad as ex:
        return Verdict("bad", str(ex), "rst")
    except (Exception, SystemExit) as ex:       # noqa
        return Verdict("bad", "internal failure %r" % ex, "rst-crash")
    return Verdict(kind, None, None, n, n, n)
