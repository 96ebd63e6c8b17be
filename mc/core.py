"""Bounded exhaustive exploration engine.

A check module provides

  PID                   property id
  ASSUMPTIONS           list of str
  bounds(tier)          -> dict, written to the evidence
  cases(tier)           -> deterministic generator of JSON-able cases; this is
                           the enumerated (finite) space
  judge(case)           -> Verdict: runs the real code and the reference
                           model on this case and compares

Every case of the space is executed, in 8 processes (case i goes to process
i mod 8). Nothing is sampled; VERIF_SEED only rotates which process gets
which slice.
"""
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("MC_PROCS", "8"))
MAX_VIOL = 40          # violations kept per process
CASE_LIMIT = 20.0      # seconds for one case, more is a hang


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


class Verdict:
    """Result of executing one case.

    outcome     short class of the observed behaviour (for the histogram)
    violation   None or text
    sig         signature of the violation (matched by known findings)
    states      model states visited in this case
    transitions model transitions taken in this case
    traces      executions of the implementation compared to the model
    """
    __slots__ = ("outcome", "violation", "sig", "states", "transitions",
                 "traces")

    def __init__(self, outcome, violation=None, sig=None, states=1,
                 transitions=1, traces=1):
        self.outcome = outcome
        self.violation = violation
        self.sig = sig
        self.states = states
        self.transitions = transitions
        self.traces = traces


class Acc:
    def __init__(self):
        self.cases = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.violations = []
        self.nviol = 0
        self.samples = {}
        self.capped = False
        self.error = None

    def merge(self, other):
        self.cases += other.cases
        self.states += other.states
        self.transitions += other.transitions
        self.traces += other.traces
        for k, v in other.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.violations += other.violations
        self.nviol += other.nviol
        for k, v in other.samples.items():
            if k not in self.samples or \
               len(json.dumps(v)) < len(json.dumps(self.samples[k])):
                self.samples[k] = v
        self.capped |= other.capped
        self.error = self.error or other.error


def run_one(mod, case):
    """Judge one case, with a watchdog"""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, "CASE_LIMIT",
                                                 CASE_LIMIT))
    try:
        return mod.judge(case)
    except Hang:
        return Verdict("hang", "no answer within the case limit", "hang")
    except Exception:      # noqa
        # the implementation answered something the oracle cannot even read
        return Verdict("unreadable", "the observed behaviour cannot be "
                       "interpreted:\n" + traceback.format_exc()[-1500:],
                       "unreadable")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(modname, tier, k, n, deadline):
    acc = Acc()
    try:
        mod = importlib.import_module(modname)
        known = load_known(mod.PID)
        gc.freeze()
        perkind = {}
        for i, case in enumerate(mod.cases(tier)):
            if i % n != k:
                continue
            if (acc.cases & 63) == 0 and time.time() > deadline:
                acc.capped = True
                break
            v = run_one(mod, case)
            acc.cases += 1
            acc.states += v.states
            acc.transitions += v.transitions
            acc.traces += v.traces
            acc.outcomes[v.outcome] = acc.outcomes.get(v.outcome, 0) + 1
            if v.outcome not in acc.samples and len(acc.samples) < 12:
                acc.samples[v.outcome] = case
            if v.violation is not None:
                acc.nviol += 1
                key = v.sig or ""
                perkind[key] = perkind.get(key, 0) + 1
                if perkind[key] <= 5 and len(acc.violations) < MAX_VIOL:
                    acc.violations.append((case, v.violation, v.sig))
                # once something unknown and new is certain, a few more
                # cases are enough to choose a small one
                if not is_known(known, v.sig) and acc.nviol >= 200:
                    acc.capped = True
                    break
    except BaseException:      # noqa
        acc.error = traceback.format_exc()
    return acc


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path, encoding="UTF-8") as fd:
            data = json.load(fd)
    except FileNotFoundError:
        return []
    return [f for f in data["findings"]
            if f["property"] == pid and f["status"] == "known"]


def is_known(known, sig):
    for f in known:
        if sig is not None and sig in f["signatures"]:
            return f
    return None


def _child(conn, modname, tier, k, n, deadline):
    # own session-independent scratch is created lazily by the driver
    acc = worker(modname, tier, k, n, deadline)
    conn.send(acc)
    conn.close()
    from . import drv
    drv.cleanup()
    os._exit(0)


def explore(modname, tier, seed):
    n = NPROC
    limit = float(os.environ.get("MC_LIMIT",
                                 "720" if tier == "quick" else "3000"))
    deadline = time.time() + limit
    ctx = multiprocessing.get_context("fork")
    procs = []
    for j in range(n):
        k = (j + seed) % n
        rd, wr = ctx.Pipe(False)
        p = ctx.Process(target=_child,
                        args=(wr, modname, tier, k, n, deadline))
        p.start()
        wr.close()
        procs.append((p, rd))
    total = Acc()
    for p, rd in procs:
        try:
            total.merge(rd.recv())
        except EOFError:
            total.error = total.error or "a worker process died"
        p.join()
    return total


def main(pid, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = "mc.%s" % pid.lower()
    mod = importlib.import_module(modname)
    acc = explore(modname, tier, seed)
    if acc.error:
        sys.stderr.write(acc.error + "\n")
        sys.stderr.write("check error: worker failed\n")
        return 2
    known = load_known(pid)
    fresh = []
    seen_known = {}
    for case, text, sig in acc.violations:
        f = is_known(known, sig)
        if f is None:
            fresh.append((case, text, sig))
        else:
            seen_known[f["id"]] = f
    for f in sorted(seen_known.values(), key=lambda f: f["id"]):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    fresh.sort(key=lambda x: (len(json.dumps(x[0])), json.dumps(x[0])))
    rc = 0
    if fresh:
        rc = 1
        shown = {}
        for case, text, sig in fresh:
            if sig in shown or len(shown) >= 6:
                continue
            shown[sig] = 1
            path = write_replay(pid, case, text, sig)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  " + text.replace("\n", "\n  ")[:900])
    coverage = {
        "states": acc.states,
        "transitions": acc.transitions,
        "traces_validated_against_impl": acc.traces,
        "cases": acc.cases,
        "distinct_outcomes": len(acc.outcomes),
        "outcomes": dict(sorted(acc.outcomes.items(),
                                key=lambda kv: -kv[1])[:40]),
        "bounds": mod.bounds(tier),
        "samples": [{"outcome": k, "case": v}
                    for k, v in sorted(acc.samples.items())][:10],
        "exhaustive": not acc.capped,
    }
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w",
              encoding="UTF-8") as fd:
        json.dump(evidence, fd, indent=1, sort_keys=True)
        fd.write("\n")
    print("%s %s: %u cases, %u states, %u transitions, %u executions, "
          "%u outcomes, %u violations%s, %.1fs" %
          (pid, tier, acc.cases, acc.states, acc.transitions, acc.traces,
           len(acc.outcomes), acc.nviol,
           " (CAPPED)" if acc.capped else "", time.time() - t0))
    return rc


def write_replay(pid, case, text, sig):
    out = os.path.join(VERIF, "replays")
    os.makedirs(out, exist_ok=True)
    blob = json.dumps({"property": pid, "case": case, "violation": text,
                       "sig": sig}, indent=1)
    name = "%s-%s.json" % (pid, hashlib.sha1(
        json.dumps(case).encode()).hexdigest()[:10])
    path = os.path.join(out, name)
    with open(path, "w", encoding="UTF-8") as fd:
        fd.write(blob + "\n")
    return os.path.relpath(path, VERIF)


def replay(path):
    with open(path, encoding="UTF-8") as fd:
        data = json.load(fd)
    mod = importlib.import_module("mc.%s" % data["property"].lower())
    rv = 0
    for i in range(2):           # a violation must fail every time
        v = run_one(mod, data["case"])
        print("replay %u: outcome=%s" % (i + 1, v.outcome))
        if v.violation:
            print("  violation [%s]: %s" % (v.sig, v.violation))
            rv = 1
    if hasattr(mod, "explain"):
        mod.explain(data["case"])
    return rv


def neighbours(seq, lo, alpha):
    """all sequences which differ from this one in one place, not before
    position lo: a token more, less, or another one, or two exchanged"""
    alpha = list(alpha)
    for k in range(lo, len(seq) + 1):
        for x in alpha:
            yield seq[:k] + [x] + seq[k:]
        if k < len(seq):
            yield seq[:k] + seq[k + 1:]
            for x in alpha:
                if x != seq[k]:
                    yield seq[:k] + [x] + seq[k + 1:]
        if k + 1 < len(seq) and seq[k] != seq[k + 1]:
            yield seq[:k] + [seq[k + 1], seq[k]] + seq[k + 2:]
