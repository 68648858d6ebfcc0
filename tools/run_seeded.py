"""Runs the checks against planted bugs, each in a copy of /repo.
usage: run_seeded.py [-o OUT.json] [-j N] [bug...] [--checks C01,C02|own]
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug, checks, jobs):
    d = os.path.join(HERE, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seeded-")
    out = {}
    try:
        repo, v = w + "/repo", w + "/verif"
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo,
                       check=True)
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(
            ".git", "seeded", "evidence"))
        for c in [prop] if checks == "own" else checks.split(","):
            t0 = time.time()
            p = subprocess.run(
                [sys.executable, v + "/check.py", c], text=True,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                env=dict(os.environ, VF_REPO=repo, VF_JOBS=str(jobs)),
                errors="replace")
            lines = [x for x in p.stdout.splitlines()
                     if x.strip() and "KNOWN" not in x and
                     not x.startswith("note")]
            out[c] = dict(rc=p.returncode, line=lines[0].strip()[:200],
                          t=round(time.time() - t0))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return bug, out


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("bugs", nargs="*")
    ap.add_argument("-o")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--checks", default="own")
    a = ap.parse_args()
    bugs = a.bugs or sorted(os.listdir(os.path.join(HERE, "seeded")))
    res = {}
    with ThreadPoolExecutor(a.j) as ex:
        for bug, o in ex.map(lambda b: one(b, a.checks, max(1, 8 // a.j)),
                             bugs):
            res[bug] = o
            print(bug, "; ".join("%s rc %d %s" % (c, x["rc"], x["line"][:90])
                                 for c, x in o.items()), flush=True)
            if a.o:
                json.dump(res, open(a.o, "w"), indent=1)
