"""C22: the Sphinx domain resolves each requirement reference to its definition

hist     all histories of edits (documents written, changed, touched, removed)
         of a small project up to a length, with an incremental build after
         each of them
par      all schedules of a parallel build: every division of the documents,
         every order in which the parts are started and merged (the parts are
         read in processes of their own, as Sphinx does), for fresh and for
         incremental builds
html     the pages written by the html builder: every link has its anchor
chain    trlc files, through the converter, to resolved references

Everything is done by Sphinx itself with the extension loaded; what is
compared after each build is the resolved documents, the list of objects, the
index and the warnings, against the current texts of the documents."""
import contextlib
import html.parser
import importlib.util
import io
import itertools
import os
import pickle
import re
import shutil
import sys
import time

from . import drv
from .core import Verdict

PID = "C22"
ASSUMPTIONS = [
    "Sphinx decides when a document is read again (a document whose time "
    "stamp changes is) and all documents are written in every build",
    "in a parallel build a part is read in a process which starts with what "
    "has been merged until then",
]
EXT = "mc_requirement_domain"
BUILDER = "mc_requirement_builder"
_state = {"schedule": None, "trees": {}, "clock": 0}


def setup_modules():
    if EXT in sys.modules:
        return
    repo = os.environ.get("TRLC_REPO", "/repo")
    spec = importlib.util.spec_from_file_location(
        EXT, os.path.join(repo, "tools", "sphinx", "extensions", "trlc",
                          "trlc.py"))
    ext = importlib.util.module_from_spec(spec)
    sys.modules[EXT] = ext
    spec.loader.exec_module(ext)

    import types
    import sphinx.builders as builders
    from sphinx.builders.dummy import DummyBuilder

    class Builder(DummyBuilder):
        name = "mc"
        allow_parallel = True

        def get_target_uri(self, docname, typ=None):
            return docname + ".html"

        def write_doc(self, docname, doctree):
            _state["trees"][docname] = doctree

        def _read_serial(self, docnames):
            if _state["schedule"] is None:
                super()._read_serial(docnames)
            else:
                self._read_parallel(docnames, 2)

    class Tasks:
        """The parts are read and merged as the schedule says"""

        def __init__(self, nproc):
            self.tasks = []

        def add_task(self, func, arg, result=None):
            self.tasks.append((func, arg, result))

        def join(self):
            data = {}
            for what, n in _state["schedule"]["events"]:
                func, arg, result = self.tasks[n]
                if what == "s":
                    data[n] = in_process(func, arg)
                else:
                    result(arg, data[n])

    def chunks(arguments, nproc, maxbatch=10):
        rv, left = [], list(arguments)
        for n in _state["schedule"]["sizes"][:-1]:
            rv.append(left[:n])
            left = left[n:]
        return rv + [left]

    # when a document was read is compared with its time stamp
    builders.time = types.SimpleNamespace(
        time=time.time, time_ns=lambda: _state["clock"] * 10 ** 9)
    builders.ParallelTasks = Tasks
    builders.make_chunks = chunks
    mod = types.ModuleType(BUILDER)

    def setup(app):
        app.add_builder(Builder)
        return {"parallel_read_safe": True, "parallel_write_safe": True}
    mod.setup = setup
    sys.modules[BUILDER] = mod


def in_process(func, arg):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as fd:
                fd.write(pickle.dumps(func(arg)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fd:
        data = fd.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


class Bad(Exception):
    pass


NAME = {"A": "P.A", "B": "P.B", "a": "p.a_1", "AA": "P.AA", "Q": "Q.A"}


def text_of(doc, items):
    out = [doc, "=" * len(doc), ""]
    for item in items:
        if item[0] in "<>":
            role = "upstream" if item[0] == ">" else "downstream"
            out.append("to :requirement:%s-ref:`%s` here" % (
                role, "title <%s>" % NAME[item[2:]] if item[1] == "="
                else NAME[item[1:]]))
        elif item[0] == "+":
            # a definition with a reference in its body
            out += [".. requirement:definition:: " + NAME[item[1]], "",
                    "   see :requirement:upstream-ref:`t <%s>`." %
                    NAME[item[2:]]]
        else:
            out += [".. requirement:definition:: " + NAME[item], "",
                    "   text of " + NAME[item]]
        out.append("")
    return "\n".join(out)


def facts(docs):
    """definitions [(name, doc)], references [(doc, name, title)]"""
    defs, refs = [], []
    for doc, items in docs.items():
        for item in items or []:
            if item[0] in "<>":
                if item[1] == "=":
                    refs.append((doc, NAME[item[2:]], "title"))
                else:
                    refs.append((doc, NAME[item[1:]], NAME[item[1:]]))
            elif item[0] == "+":
                defs.append((NAME[item[1]], doc))
                refs.append((doc, NAME[item[2:]], "t"))
            else:
                defs.append((NAME[item], doc))
    return defs, refs


class Project:
    def __init__(self):
        self.top = os.path.join(drv.scratch(), "c22")
        shutil.rmtree(self.top, True)
        os.makedirs(os.path.join(self.top, "src"))
        _state["clock"] = 1000000000
        self.put("index", "Top\n===\n\n.. toctree::\n   :glob:\n\n   d*\n")

    def path(self, doc):
        return os.path.join(self.top, "src", doc + ".rst")

    def put(self, doc, text):
        _state["clock"] += 1
        if text is None:
            if os.path.exists(self.path(doc)):
                os.remove(self.path(doc))
            return
        with open(self.path(doc), "w", encoding="UTF-8") as fd:
            fd.write(text)
        os.utime(self.path(doc), (_state["clock"], _state["clock"]))

    def build(self, builder="mc"):
        from sphinx.application import Sphinx
        from sphinx.util.docutils import docutils_namespace
        warn = io.StringIO()
        _state["trees"] = {}
        _state["clock"] += 1
        with docutils_namespace(), contextlib.redirect_stdout(io.StringIO()):
            app = Sphinx(os.path.join(self.top, "src"), None,
                         os.path.join(self.top, "out"),
                         os.path.join(self.top, "tree"), builder,
                         confoverrides={"extensions": [EXT, BUILDER],
                                        "html_theme": "basic",
                                        "project": "x"},
                         status=None, warning=warn, freshenv=False)
            app.build()
        self.app = app
        return app, re.sub(r"\x1b\[[0-9;]*m", "", warn.getvalue())


def expected_index(defs):
    rv = {}
    for name, doc in defs:
        head = name[0].upper() if name[0].isalpha() else "?"
        rv.setdefault(head, []).append((name, doc, "requirement-" + name))
    return {k: sorted(v) for k, v in rv.items()}


def inspect(project, docs, warn, where):
    from docutils import nodes
    app = project.app
    defs, refs = facts(docs)
    domain = app.env.domains["requirement"]
    got = sorted((o[1], o[3]) for o in domain.get_objects())
    if got != sorted(defs):
        raise Bad("%s: objects %s instead of %s" % (where, got,
                                                   sorted(defs)))
    # references
    count = {}
    for name, _ in defs:
        count[name] = count.get(name, 0) + 1
    home = dict(defs)
    want, problems = [], []
    for doc, name, title in refs:
        if count.get(name, 0) == 1:
            want.append((doc, title, home[name], "requirement-" + name))
        else:
            problems.append((doc, name))
    got = []
    for doc, tree in _state["trees"].items():
        for ref in tree.findall(nodes.reference):
            if doc == "index":
                continue
            uri = ref.get("refuri")
            if uri is None:
                got.append((doc, ref.astext(), doc, ref.get("refid")))
            else:
                page, _, anchor = uri.partition("#")
                got.append((doc, ref.astext(), page[:-len(".html")]
                            if page else doc, anchor))
        for n in tree.findall(lambda n: n.tagname == "pending_xref"):
            raise Bad("%s: pending %s" % (where, n))
    if sorted(got) != sorted(want):
        raise Bad("%s: references %s instead of %s" % (
            where, sorted(got), sorted(want)))
    # anchors exist
    for doc, _, target, anchor in got:
        ids = [i for n in _state["trees"][target].findall(nodes.Element)
               for i in n.get("ids", [])]
        if ids.count(anchor) != 1:
            raise Bad("%s: %s has %u anchors %s" % (
                where, target, ids.count(anchor), anchor))
    # warnings
    lines = [x for x in warn.split("\n") if ("WARNING" in x or "ERROR" in x)
             and "toctree glob pattern" not in x]
    said = []
    for x in lines:
        m = re.search(r"\((?:.*/)?(\w+)\.rst(?::\d+)?\): *'([^']*)' "
                      r"(not found|is ambiguous \((\d+) )", x)
        if not m:
            raise Bad("%s: warning %s" % (where, x))
        if int(m.group(4) or 0) != count.get(m.group(2), 0):
            raise Bad("%s: warning %s" % (where, x))
        said.append((m.group(1), m.group(2)))
    if sorted(said) != sorted(problems):
        raise Bad("%s: warnings for %s instead of %s:\n%s" % (
            where, sorted(said), sorted(problems), warn))
    # the index
    index = [i for i in domain.indices][0](domain)
    content, _ = index.generate()
    got = {}
    order = []
    for head, entries in content:
        order.append(head)
        got.setdefault(head, [])
        for e in entries:
            got[head].append((e[0], e[2], e[3]))
    if {k: sorted(v) for k, v in got.items()} != expected_index(defs) or \
       order != sorted(order, key=str.lower) or len(order) != len(got):
        raise Bad("%s: index %s instead of %s" % (where, content,
                                                 expected_index(defs)))
    for head, entries in got.items():
        names = [e[0].lower() for e in entries]
        if names != sorted(names) and \
           [e[0] for e in entries] != sorted(e[0] for e in entries):
            raise Bad("%s: index is not sorted: %s" % (where, entries))


def state(case, k):
    return {"d%u" % (n + 1): None if x is None else list(x)
            for n, x in enumerate(case["states"][k])}


def judge_hist(case):
    project = Project()
    before = {}
    for k in range(len(case["states"])):
        docs = state(case, k)
        touch = case.get("touch", [])
        for doc, items in docs.items():
            if k and before.get(doc) == items and [k, doc] not in touch:
                continue
            project.put(doc, None if items is None else text_of(doc, items))
        sched = case.get("schedule")
        if sched and k < len(sched):
            _state["schedule"] = sched[k]
        try:
            _, warn = project.build()
        finally:
            _state["schedule"] = None
        inspect(project, docs, warn, "build %u of %s" % (k + 1, case))
        before = docs
    return len(case["states"])


# --- html -------------------------------------------------------------------

class Page(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.ids = []
        self.links = []
        self.open = None

    def handle_starttag(self, tag, attrs):
        attrs = dict(attrs)
        if "id" in attrs:
            self.ids.append(attrs["id"])
        if tag == "a" and "href" in attrs:
            self.open = [attrs["href"], ""]

    def handle_data(self, data):
        if self.open:
            self.open[1] += data

    def handle_endtag(self, tag):
        if tag == "a" and self.open:
            self.links.append(tuple(self.open))
            self.open = None


def judge_html(case):
    project = Project()
    for k in range(len(case["states"])):
        docs = state(case, k)
        for doc, items in docs.items():
            project.put(doc, None if items is None else text_of(doc, items))
        project.build("html")
        defs, refs = facts(docs)
        pages = {}
        for doc in list(docs) + ["requirement-requirement"]:
            path = os.path.join(project.top, "out", doc + ".html")
            if docs.get(doc, 1) is None or not os.path.exists(path):
                continue
            pages[doc] = Page()
            with open(path, encoding="UTF-8") as fd:
                pages[doc].feed(fd.read())
        home = {}
        for name, doc in defs:
            home.setdefault(name, []).append(doc)
        want = sorted((doc, title, home[name][0], "requirement-" + name)
                      for doc, name, title in refs
                      if len(home.get(name, [])) == 1)
        got = []
        for doc, page in pages.items():
            for href, text in page.links:
                file, _, anchor = href.partition("#")
                if not anchor.startswith("requirement-"):
                    continue
                target = file[:-5] if file else doc
                if doc != "requirement-requirement":
                    if text.strip("\u00b6"):
                        got.append((doc, text, target, anchor))
                if pages[target].ids.count(anchor) != 1:
                    raise Bad("html: %s has %u anchors %s, %s" % (
                        target, pages[target].ids.count(anchor), anchor,
                        case))
        if sorted(got) != want:
            raise Bad("html: links %s instead of %s, %s" % (
                sorted(got), want, case))
        listed = []
        if "requirement-requirement" in pages:
            for href, text in pages["requirement-requirement"].links:
                file, _, anchor = href.partition("#")
                if anchor.startswith("requirement-"):
                    listed.append((text, file[:-5]))
        if sorted(listed) != sorted(defs):
            raise Bad("html: index lists %s instead of %s, %s" % (
                sorted(listed), sorted(defs), case))
    return len(case["states"])


# --- from trlc files ----------------------------------------------------------

def judge_chain(case):
    """files with records which refer to each other, converted per package"""
    from .c20 import modules, quiet, write
    from docutils import nodes
    links = case["links"]         # [(record, [records])]
    files = {"p.rsl": "package P\ntype R { m optional Markup_String }\n",
             "q.rsl": "package Q\nimport P\ntype R extends P.R { }\n"}
    for pkg in "PQ":
        out = ["package %s" % pkg, "import %s" % ("Q" if pkg == "P" else "P")]
        for rec, to in links:
            if rec[0] == pkg:
                out.append("R %s { m = \"x %s\" }" % (
                    rec[2:], " ".join("[[%s]]" % (
                        t[2:] if t[0] == pkg else t) for t in to)))
        files[pkg.lower() + ".trlc"] = "\n".join(out) + "\n"
    top = write(files)
    project = Project()
    for n, pkg in enumerate("pq"):
        conv = modules()["conv"].TRLCRST(
            top, source_files=[os.path.join(top, pkg + ".trlc")])
        out = os.path.join(project.top, "src", "d%u.rst" % (n + 1))
        quiet(conv.render, out, title="Package " + pkg, fields=["m"])
    _, warn = project.build()
    if warn.strip():
        raise Bad("chain: %s in %s" % (warn, case))
    doc_of = {"P": "d1", "Q": "d2"}
    want = sorted((doc_of[rec[0]], rec, t[2:], doc_of[t[0]],
                   "requirement-" + t) for rec, to in links for t in to)
    got = []
    from sphinx import addnodes
    for doc, tree in _state["trees"].items():
        for desc in tree.findall(addnodes.desc):
            rec = desc[0].astext()
            for ref in desc.findall(nodes.reference):
                page, _, anchor = (ref.get("refuri") or
                                   "#" + ref.get("refid")).partition("#")
                got.append((doc, rec, ref.astext(),
                            page[:-5] if page else doc, anchor))
    if sorted(got) != want:
        raise Bad("chain: %s instead of %s" % (sorted(got), want))
    return 1


# --- space ------------------------------------------------------------------

OPTS = [None, [], ["A"], ["B"], ["A", "B"], ["A", "A"], [">A"],
        ["A", ">A"], ["+AB"], ["B", "<=A"], ["AA", ">a"], ["a", ">AA"]]
FEW = [None, ["A"], [">A", "B"], ["+AB"], ["B", "<=A"]]


def events(n):
    """all schedules of n parts: started in order, merged in any order"""
    rv = []

    def go(started, running, done):
        if len([e for e in done if e[0] == "m"]) == n:
            rv.append(done)
            return
        if started < n:
            go(started + 1, running + [started], done + [["s", started]])
        for k in running:
            go(started, [r for r in running if r != k], done + [["m", k]])
    go(0, [], [])
    return rv


def splits(total, n):
    for cut in itertools.combinations(range(1, total), n - 1):
        ends = [0] + list(cut) + [total]
        yield [b - a for a, b in zip(ends, ends[1:])]


def bounds(tier):
    return {"documents": "2 and an index page, 3 in parallel builds",
            "contents_of_a_document": len(OPTS),
            "edits": "1 over all contents, %u over %u contents" % (
                2 if tier == "quick" else 3, len(FEW)),
            "parts_of_a_parallel_build": 3,
            "schedules_of_3_parts": len(events(3))}


def cases(tier):
    full = tier != "quick"
    for st in itertools.product(OPTS, repeat=2):
        for d in range(2):
            for new in OPTS:
                nxt = list(st)
                nxt[d] = new
                # the same contents: the document is read again
                touch = [[1, "d%u" % (d + 1)]]
                yield {"k": "hist", "states": [list(st), nxt],
                       "touch": touch}
    depth = 3 if full else 2
    for st in itertools.product(FEW, repeat=2):
        for edits in itertools.product(itertools.product(range(2), FEW),
                                       repeat=depth):
            states = [list(st)]
            touch = []
            for k, (d, new) in enumerate(edits):
                nxt = list(states[-1])
                nxt[d] = new
                states.append(nxt)
                touch.append([k + 1, "d%u" % (d + 1)])
            yield {"k": "hist", "states": states, "touch": touch}
    # parallel builds
    many = [["A"], [">A", "B"], ["+AB"], []]
    if full:
        many += [["A", "B"], ["B", "<=A"]]
    for st in itertools.product(many, repeat=3):
        for n in (2, 3):
            if n == 3 and not full and st[0] not in (["A"], ["+AB"]):
                continue
            for sizes in splits(4, n):
                for ev in events(n):
                    yield {"k": "hist", "states": [list(st)],
                           "schedule": [{"sizes": sizes, "events": ev}]}
    for st in itertools.product(FEW[1:4], repeat=2):
        for nxt in itertools.product(FEW[1:], repeat=2):
            for ev in events(2):
                yield {"k": "hist", "states": [list(st), list(nxt)],
                       "touch": [[1, "d1"], [1, "d2"]],
                       "schedule": [None, {"sizes": [1, 1], "events": ev}]}
    # pages
    some = [["A"], [">A", "B"], ["+AB"], ["a", "AA", ">=AA"]]
    for a, b in itertools.product(some, repeat=2):
        if full or (a != b):
            yield {"k": "html", "states": [[a, b]]}
            yield {"k": "html", "states": [[a, b], [b, None]]}
    # records
    recs = ["P.a", "P.b", "Q.a"]
    for tos in itertools.product(range(8), repeat=3):
        links = [[r, [x for i, x in enumerate(recs) if t >> i & 1]]
                 for r, t in zip(recs, tos)]
        if all(to for _, to in links):
            yield {"k": "chain", "links": links}


JUDGES = {"hist": judge_hist, "html": judge_html, "chain": judge_chain}


def judge(case):
    setup_modules()
    try:
        n = JUDGES[case["k"]](case)
    except Bad as ex:
        return Verdict("bad", str(ex), "%s:%s" % (
            case["k"], str(ex).split(":")[1].split()[0]))
    except (Exception, SystemExit) as ex:       # noqa
        return Verdict("bad", "internal failure %r" % ex, "crash")
    return Verdict(case["k"], None, None, n, n, n)
