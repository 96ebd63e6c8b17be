"""Runs object bodies: accepted ones in batches, rejected ones one by one"""
from . import drv
from .core import neighbours
from .valmodel import body as model_body


class Bodies:
    """files: fixed files; the objects go to package P in file main.trlc"""
    def __init__(self, files, head, rtype, world, rec, batch=60, lint=False):
        self.files = files
        self.head = head
        self.rtype = rtype
        self.world = world
        self.rec = rec
        self.batch = batch
        self.items = []
        self.bad = []
        self.states = 0
        self.execs = 0
        self.nacc = 0
        self.nrej = 0
        self.seen = set()
        self.good = []

    def run(self, bodies):
        text = self.head
        for i, b in enumerate(bodies):
            text += "%s zz%u {\n%s\n}\n" % (self.rtype, i, b)
        self.execs += 1
        return drv.run(dict(self.files, **{"main.trlc": text}))

    def add(self, tokens, st=None):
        self.states += 1
        st = st or model_body(self.world, tokens, self.rec)
        text = " ".join(tokens)
        self.seen.add(text)
        if st[0] == "ok":
            self.nacc += 1
            self.good.append(tokens)
            self.items.append((text, st[1]))
            if len(self.items) >= self.batch:
                self.flush()
        elif st[0] != "open":
            self.nrej += 1
            r = self.run([text])
            if r.crash:
                self.bad.append((text, "must be rejected", r.crash))
            elif r.ok and not r.errors():
                self.bad.append((text, "must be rejected", "accepted"))
            elif not self.located(r):
                self.bad.append((text, "must be rejected in this object",
                                 str(r.msgs[:2])))
        return st

    def located(self, r):
        """is there an error in the object?"""
        first = self.head.count("\n") + 1
        return any(m.file == "main.trlc" and first <= m.line <= first + 2
                   for m in r.errors())

    def values(self, r, n):
        if r.crash or not r.ok or r.errors():
            return None
        objs = {o.name: o for o in r.stab.iter_record_objects()}
        return [objs["zz%u" % i].to_python_dict() for i in range(n)]

    def flush(self):
        items, self.items = self.items, []
        if not items:
            return
        vs = self.values(self.run([t for t, _ in items]), len(items))
        if vs is not None:
            if all(same(v, x) for v, (_, x) in zip(vs, items)):
                return
        for t, x in items:
            r = self.run([t])
            v = self.values(r, 1)
            if v is None:
                self.bad.append((t, "must be accepted",
                                 r.crash or str(r.msgs[:2])))
            elif not same(v[0], x):
                self.bad.append((t, "must be %r" % (x,), repr(v[0])))
            if len(self.bad) > 10:
                break

    def near(self, lo, alpha, limit):
        """what differs in one place from the accepted ones so far: the
        exploration stops at the first token which does not fit, so it does
        not see whether something acceptable would follow"""
        for tokens in self.good[:limit]:
            for x in neighbours(tokens, lo, alpha):
                if len(self.bad) < 6 and " ".join(x) not in self.seen:
                    self.add(x)

    def explore(self, alpha, tokens, depth):
        st = self.add(tokens)
        if len(self.bad) >= 6 or st[0] in ("bad", "late") or \
           len(tokens) >= depth:
            return
        for x in alpha:
            self.explore(alpha, tokens + [x], depth)


def same(a, b):
    """equality that tells 1, 1.0 and True apart"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
