#!/usr/bin/env python3
"""Build and judge planted bugs.

usage: mkseed.py SPEC.py [ID ...]

SPEC.py defines SEEDS, a list of dicts with
   id, property, file, edits = [(old, new), ...] (each old occurs once),
   needs, breaks, demo (python source using run()/text below).

For every seed: copy /repo, apply the edits, write /verif/seeded/ID, run the
tests with the copy mounted over /repo, run the demonstration on both trees,
and run the property's quick check against the copy.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = "/tmp/mut"

PRELUDE = '''\
"""Demonstration: exit 0 if the property holds, 1 if it is broken."""
import contextlib
import io
import os
import sys
import tempfile

sys.path.insert(0, os.getcwd())

from trlc.errors import Message_Handler                        # noqa: E402
from trlc.trlc import Source_Manager                           # noqa: E402


class Outcome:
    pass


def run(files, include=(), **options):
    """process the files (name -> text); returns the outcome"""
    rv = Outcome()
    out = io.StringIO()
    with tempfile.TemporaryDirectory() as work, \\
         contextlib.redirect_stdout(out):
        mh = Message_Handler()
        sm = Source_Manager(mh, **options)
        for name, text in files.items():
            path = os.path.join(work, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="UTF-8") as fd:
                fd.write(text)
        for name in include:
            sm.register_include(os.path.join(work, name))
        for name in files:
            if not any(name.startswith(d + "/") for d in include):
                sm.register_file(os.path.join(work, name))
        rv.stab = sm.process()
        rv.errors = mh.errors
        rv.warnings = mh.warnings
        rv.sm = sm
        rv.mh = mh
    rv.output = out.getvalue()
    rv.accepted = rv.stab is not None
    rv.objects = {}
    if rv.stab is not None:
        rv.objects = {o.n_package.name + "." + o.name: o
                      for o in rv.stab.iter_record_objects()}
    return rv


def expect(condition, what):
    if not condition:
        print("broken: " + what)
        sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          check=False, **kw)


def build(seed):
    sid = seed["id"]
    mut = os.path.join(MUT, sid)
    shutil.rmtree(mut, ignore_errors=True)
    os.makedirs(MUT, exist_ok=True)
    sh("cp -a /repo %s" % mut)
    log = []
    edits = seed["edits"]
    for item in edits:
        fn, old, new = item if len(item) == 3 else (seed["file"],) + item
        path = os.path.join(mut, fn)
        text = open(path, encoding="UTF-8").read()
        if text.count(old) != 1:
            return sid, "EDIT %s occurs %d times: %r" % (
                fn, text.count(old), old[:60])
        open(path, "w", encoding="UTF-8").write(text.replace(old, new))
    # the edit has to touch lines of the original repository
    diff = sh("git -C %s diff" % mut).stdout
    dst = os.path.join(ROOT, "seeded", sid)
    os.makedirs(dst, exist_ok=True)
    open(os.path.join(dst, "patch.diff"), "w").write(diff)
    open(os.path.join(dst, "demo.py"), "w").write(PRELUDE + seed["demo"])
    open(os.path.join(dst, "demo.sh"), "w").write(
        "#!/bin/bash\n"
        "# run with cwd = the repository; exit 0 unless the bug is present\n"
        "export PYTHONDONTWRITEBYTECODE=1\n"
        "PY=/opt/venv/bin/python; [ -x \"$PY\" ] || PY=python3\n"
        "exec \"$PY\" \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    json.dump({"property": seed["property"], "needs": seed["needs"],
               "what_it_breaks": seed["breaks"]},
              open(os.path.join(dst, "meta.json"), "w"), indent=2)
    base = sh("git -C %s diff 538061a --unified=0 HEAD -- trlc tools" % mut).stdout
    added = {l[1:] for l in base.splitlines()
             if l.startswith("+") and not l.startswith("+++")}
    gone = [l[1:] for l in diff.splitlines()
            if l.startswith("-") and not l.startswith("---")]
    if gone and all(l in added for l in gone):
        log.append("ONLY-OWN-LINES")
    d0 = sh(os.path.join(dst, "demo.sh"), cwd="/repo")
    d1 = sh(os.path.join(dst, "demo.sh"), cwd=mut)
    log.append("demo %d/%d" % (d0.returncode, d1.returncode))
    if d0.returncode:
        log.append((d0.stdout + d0.stderr)[-800:])
    if os.environ.get("NOTEST") != "1":
        out = os.path.join(mut, "..", sid + ".json")
        sh("unshare -Urm sh -c 'mount --bind %s /repo && "
           "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s'" % (mut, out))
        try:
            res = json.load(open(out))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base["stable"]
            passed = set(res.get("passed", []))
            if isinstance(stable, dict):
                stable = stable.get("passed", [])
            bad = [t for t in stable if t not in passed]
            log.append("tests lost %d %s" % (len(bad), bad[:3]))
        except Exception as err:                      # pragma: no cover
            log.append("TESTS? %s" % err)
    checks = seed.get("checks") or [seed["property"]]
    for pid in checks:
        if not os.path.exists(os.path.join(ROOT, "mc", pid.lower() + ".py")):
            log.append(pid + " no check")
            continue
        r = sh("TRLC_REPO=%s timeout 900 ./check %s" % (mut, pid), cwd=ROOT)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        log.append("%s exit %d, %d VIOLATION lines" % (pid, r.returncode,
                                                       len(v)))
    if os.environ.get("KEEP") != "1":
        shutil.rmtree(mut, ignore_errors=True)
    return sid, "; ".join(log)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    todo = [s for s in mod.SEEDS
            if not sys.argv[2:] or s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as pool:
        for sid, text in pool.map(build, todo):
            print(sid, ":", text, flush=True)


main()
