"""Try small edits: does the check of the property see them?

trial.py SPEC.py [N ..]     SPEC defines TRIALS = [(property, file, old, new)]
env JOBS, TESTS=1 (run the stable tests as well)
"""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/trials"


def one(n, spec):
    props, path, old, new = spec[:4]
    mut = os.path.join(WORK, "t%u" % n)
    shutil.rmtree(mut, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", mut], check=True)
    full = os.path.join(mut, path)
    with open(full, encoding="UTF-8") as fd:
        text = fd.read()
    if text.count(old) != 1:
        shutil.rmtree(mut)
        return n, "%u occurrences of %r" % (text.count(old), old[:50])
    with open(full, "w", encoding="UTF-8") as fd:
        fd.write(text.replace(old, new))
    rv = []
    for prop in props.split():
        begin = time.time()
        env = dict(os.environ, TRLC_REPO=mut, VERIF_SEED="1")
        env["VERIF_EVIDENCE"] = mut + ".ev"
        res = subprocess.run([os.path.join(ROOT, "check"), prop, "quick"],
                             env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, check=False)
        out = res.stdout.decode("UTF-8", "replace")
        rv.append("%s %s (%.0f s)" % (
            prop, {0: "MISS", 1: "caught"}.get(res.returncode,
                                              "rc=%u" % res.returncode),
            time.time() - begin))
        with open(mut + ".out", "w", encoding="UTF-8") as fd:
            fd.write(out)
    shutil.rmtree(mut)
    return n, "; ".join(rv)


def main():
    space = {}
    with open(sys.argv[1], encoding="UTF-8") as fd:
        exec(fd.read(), space)              # pylint: disable=exec-used
    todo = [(n, t) for n, t in enumerate(space["TRIALS"])
            if len(sys.argv) == 2 or str(n) in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as pool:
        for n, text in pool.map(lambda x: one(*x), todo):
            print(n, space["TRIALS"][n][4] if len(space["TRIALS"][n]) > 4
                  else space["TRIALS"][n][3][:60], "->", text, flush=True)


main()
