#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--replay FILE]

Builds the monitors against /repo's working tree, runs the workloads that decide
the property, and reports.  Exit 0: held on everything explored (known findings
are printed); exit 1 + "VIOLATION property=<id> replay=<path>": violated;
exit 3: the check itself could not give an answer.
"""
import argparse, concurrent.futures as cf, glob, json, lzma, os, re, shutil
import signal
import struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN, TOOLS        # noqa: E402
import extra                        # noqa: E402

DECIDING = set()      # classes that decide the property being checked
JOBS = int(os.environ.get("VF_JOBS", "8"))
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:"
                        "detect_stack_use_after_return=1:allocator_may_return_null=1:"
                        "detect_odr_violation=0",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=66",
           TSAN_OPTIONS="halt_on_error=0:exitcode=66",
           MSAN_OPTIONS="exitcode=66", LC_ALL="C")


class HarnessError(Exception):
    pass


class BuildError(HarnessError):
    pass


# ---------------------------------------------------------------- building
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def build(names, work):
    """Build the named monitors from /repo's current sources; returns paths."""
    objs, jobs, out = {}, {}, {}
    names = list(names)
    for name in names:
        names += [n for n in TOOLS[name].get("needs", []) if n not in names]
    for name in names:
        t = TOOLS[name]
        srcs = [os.path.join(HERE, "harness", s) for s in t["src"]]
        for pat in t["repo"]:
            got = sorted(glob.glob(os.path.join(REPO, pat)))
            if not got:
                raise BuildError("nothing matches %s" % pat)
            srcs += got
        flags = t["flags"].split()
        cc = t.get("cc", "gcc")
        lst = []
        for s in srcs:
            f = list(flags)
            isrepo = s.startswith(REPO + "/")
            # The repository's own dialect for its sources.
            if isrepo:
                f += ["-I" + os.path.join(REPO, "dhara"),
                      "-I" + os.path.join(REPO, "ecc"), "-I" + REPO]
                f += t.get("repo_flags", {}).get(
                    os.path.relpath(s, REPO), [])
            else:
                f += ["-std=gnu11", "-Wall", "-Wextra",
                      "-I" + os.path.join(HERE, "harness"),
                      "-I" + os.path.join(REPO, "dhara"),
                      "-I" + os.path.join(REPO, "ecc")]
            key = (cc, tuple(f), s)
            if key not in objs:
                o = os.path.join(work, "o%d.o" % len(objs))
                objs[key] = o
                jobs[o] = [cc] + f + ["-c", "-o", o, s]
            lst.append(objs[key])
        out[name] = (cc, flags, t.get("libs", "").split(), lst)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for o, r in zip(jobs, ex.map(sh, jobs.values())):
            if r.returncode:
                raise BuildError("compile failed: %s\n%s"
                                 % (" ".join(jobs[o]), r.stdout[-4000:]))
    paths = {}
    for name, (cc, flags, libs, lst) in out.items():
        p = os.path.join(work, name)
        r = sh([cc] + flags + ["-o", p] + lst + libs)
        if r.returncode:
            raise BuildError("link failed: %s\n%s" % (name, r.stdout[-4000:]))
        paths[name] = p
        if TOOLS[name].get("data"):
            # stored chip images, looked for beside the program
            for z in glob.glob(os.path.join(HERE, TOOLS[name]["data"],
                                            "*.xz")):
                q = os.path.join(work, os.path.basename(z)[:-3])
                with lzma.open(z) as f, open(q, "wb") as g:
                    shutil.copyfileobj(f, g)
    return paths


# ---------------------------------------------------------------- running
class Viol(dict):
    pass


VRE = re.compile(r"^VIOL case=(\d+) classes=(\S+) key=(\S+) msg=(.*)$")


def san_in_library(text):
    """Does a sanitizer report blame the library (a frame in /repo's sources)?"""
    frames = re.findall(r"^\s+#\d+ .*$", text, re.M)
    if not frames:
        m = re.search(r"^(\S+?):\d+(:\d+)?: runtime error", text, re.M)
        return bool(m and m.group(1).startswith(REPO + "/"))
    return any(REPO + "/" in f for f in frames[:12])


def run_one(exe, name, run, lo, hi, seed, out, timeout):
    cmd = [exe, "--profile", run["profile"], "--seed", str(seed),
           "--from", str(lo), "--to", str(hi), "--out", out]
    if run.get("arg"):
        cmd += ["--arg", run["arg"]]
    if DECIDING:
        cmd += ["--classes", ",".join(sorted(DECIDING))]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=ENV, timeout=timeout, text=True, errors="replace")
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        so = (e.stdout or b"")
        so = so.decode("utf-8", "replace") if isinstance(so, bytes) else so
        rc, se = "timeout", ""
    return dict(cmd=cmd, rc=rc, out=so, err=se, wall=time.time() - t0, lo=lo,
                hi=hi, tool=name, run=run, seed=seed, outp=out)


def last_case(text):
    m = re.findall(r"^CASE (\d+)$", text, re.M)
    return int(m[-1]) if m else None


class Result:
    def __init__(self):
        self.viols = []       # dicts: tool profile seed case classes key msg
        self.stats, self.maxs, self.samples = {}, {}, []
        self.h = [set(), set()]
        self.cases = 0
        self.problems = []    # harness problems


def absorb(res, r, exe, timeout):
    tool, run, seed = r["tool"], r["run"], r["seed"]
    base = dict(tool=tool, profile=run["profile"], seed=seed,
                arg=run.get("arg"))
    for line in r["out"].splitlines():
        m = VRE.match(line)
        if m:
            res.viols.append(dict(base, case=int(m.group(1)),
                                  classes=m.group(2).split(","),
                                  key=m.group(3), msg=m.group(4)))
        elif line.startswith("STAT "):
            _, k, v = line.split()
            res.stats[k] = res.stats.get(k, 0) + int(v)
        elif line.startswith("MAX "):
            _, k, v = line.split()
            res.maxs[k] = max(res.maxs.get(k, 0), int(v))
        elif line.startswith("SAMPLE "):
            if len(res.samples) < 12:
                res.samples.append(line[7:])
    for k in (0, 1):
        p = "%s.h%d" % (r["outp"], k)
        if os.path.exists(p):
            d = open(p, "rb").read()
            res.h[k].update(struct.unpack("<%dQ" % (len(d) // 8), d))
            os.unlink(p)
    rc = r["rc"]
    done = re.search(r"^DONE ", r["out"], re.M)
    n = len(re.findall(r"^CASE \d+$", r["out"], re.M))
    res.cases += n
    if rc == 0 and done:
        if not n:
            res.problems.append("%s observed nothing" % " ".join(r["cmd"]))
        return
    case = last_case(r["out"])
    if case is None:
        res.problems.append("%s: exit %s before any case\n%s" %
                            (" ".join(r["cmd"]), rc, r["err"][-3000:]))
        return
    if rc == 4 or rc == "timeout":
        # maybe a hang: run that case once more, alone
        rr = run_one(exe, tool, run, case, case + 1, seed, r["outp"],
                     max(400, timeout))
        if rr["rc"] == 4:
            res.viols.append(dict(base, case=case, classes=["STUCK"], key="-",
                                  msg="a call does not return (twice)"))
        elif rr["rc"] == "timeout":
            res.problems.append("timeout in case %s of %s" %
                                (case, " ".join(r["cmd"])))
        else:
            absorb(res, rr, exe, timeout)
            if rc == "timeout" and run.get("strict_time", True):
                res.problems.append("%s timed out" % " ".join(r["cmd"]))
        return
    text = r["err"]
    if rc == 66 or "Sanitizer" in text or "runtime error" in text:
        first = re.search(r"(ERROR: \S+Sanitizer: [^\n]*|WARNING: \S+Sanitizer:"
                          r" [^\n]*|[^\n]*runtime error: [^\n]*)", text)
        msg = first.group(1).strip() if first else "sanitizer report"
        if san_in_library(text):
            res.viols.append(dict(base, case=case, classes=["SAN"], key="-",
                                  msg=msg, report=text[:6000]))
        else:
            res.problems.append("sanitizer report outside the library:\n" +
                                text[:4000])
        return
    if isinstance(rc, int) and rc < 0:
        # killed by a signal: believe it only if it happens again
        rr = run_one(exe, tool, run, case, case + 1, seed, r["outp"], timeout)
        if rr["rc"] == rc and rc in (-signal.SIGSEGV, -signal.SIGBUS,
                                     -signal.SIGFPE, -signal.SIGILL,
                                     -signal.SIGABRT):
            res.viols.append(dict(base, case=case, classes=["SAN"], key="-",
                                  msg="killed by signal %d" % -rc,
                                  report=text[:6000]))
            return
    res.problems.append("%s: exit %s\n%s" % (" ".join(r["cmd"]), rc,
                                             text[-3000:]))


def run_plan(plan, tier, seed, paths, work, res):
    jobs = []
    budget = 850 if tier == "quick" else 6 * 3600
    for i, run in enumerate(plan.get("runs", [])):
        n = run[tier] if tier in run else run["quick"]
        start = run.get("from", 0)
        chunk = max(1, min(run.get("chunk", 25), (n + JOBS - 1) // JOBS))
        for lo in range(start, start + n, chunk):
            jobs.append((run["tool"], run, lo, min(lo + chunk, start + n)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = []
        for k, (tool, run, lo, hi) in enumerate(jobs):
            s = seed if not run.get("fixed_seed") else 0
            futs.append((tool, ex.submit(
                run_one, paths[tool], tool, run, lo, hi, s,
                os.path.join(work, "r%d" % k), budget)))
        for tool, f in futs:
            absorb(res, f.result(), paths[tool], budget)


# ---------------------------------------------------------------- known findings
def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid, plan = a.prop, PLAN[a.prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="dharavf-")
    try:
        return check(pid, plan, a, work, t0)
    except HarnessError as e:
        print("CHECK-ERROR: %s" % e)
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_extra(plan, a, work, res, paths, pid):
    for fn in plan.get("extra", []):
        getattr(extra, fn)(dict(repo=REPO, here=HERE, work=work, tier=a.tier,
                                seed=a.seed, env=ENV, res=res, pid=pid,
                                jobs=JOBS, build=build, paths=paths,
                                run_one=run_one, absorb=absorb))


def check(pid, plan, a, work, t0):
    known = [k for k in load_known() if k["property"] == pid]
    DECIDING.update(plan["classes"])
    tools = sorted({r["tool"] for r in plan.get("runs", [])} |
                   {k["replay"]["tool"] for k in known})
    paths = build(tools, work)
    res = Result()

    if a.replay:
        v = json.load(open(a.replay))["violation"]
        if v["tool"] not in TOOLS:
            plan = dict(plan, runs=[])
            print("re-running: %s" % v["msg"])
            a.seed = v["seed"]
            res = Result()
            run_extra(plan, a, work, res, paths, pid)
            for x in res.viols:
                print(x["msg"])
            return 1 if res.viols else 0
        exe = build([v["tool"]], work)[v["tool"]]
        cmd = [exe, "--profile", v["profile"], "--seed", str(v["seed"]),
               "--from", str(v["case"]), "--to", str(v["case"] + 1), "-v"]
        return subprocess.run(cmd, env=ENV).returncode

    run_plan(plan, a.tier, a.seed, paths, work, res)
    run_extra(plan, a, work, res, paths, pid)

    # known findings: show that each still is what it was
    keys = {}
    for k in known:
        keys[k["key"]] = k
        rp = k["replay"]
        r = run_one(paths[rp["tool"]], rp["tool"], dict(profile=rp["profile"]),
                    rp["case"], rp["case"] + rp.get("cases", 1), rp["seed"],
                    os.path.join(work, "known"), 300)
        hit = any((m := VRE.match(l)) and m.group(3) == k["key"] and
                  set(m.group(2).split(",")) & set(plan["classes"])
                  for l in r["out"].splitlines())
        for kk in (0, 1):
            p = os.path.join(work, "known.h%d" % kk)
            if os.path.exists(p):
                os.unlink(p)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("note: known finding %s not reproduced by its replay" %
                  k["key"])

    deciding = set(plan["classes"]) | {"SAN", "STUCK"}
    bad = [v for v in res.viols if deciding & set(v["classes"])
           and v["key"] not in keys]
    other = [v for v in res.viols if not deciding & set(v["classes"])]
    if res.problems and not bad:
        for p in res.problems[:5]:
            print("CHECK-ERROR: %s" % p)
        return 3

    wall = time.time() - t0
    cov = dict(evaluations=res.stats.get(plan["evaluations"], res.cases)
               if plan.get("evaluations") else res.cases,
               distinct_nontrivial=len(res.h[plan.get("distinct", 1)]),
               rule=plan["rule"], samples=res.samples[:6] or ["(none)"],
               cases=res.cases,
               observed={k: v for k, v in sorted(res.stats.items())
                         if not k.startswith("distinct")},
               maxima=dict(sorted(res.maxs.items())),
               violations_of_other_classes=len(other),
               known_findings_seen=sum(1 for v in res.viols
                                       if v["key"] in keys))
    ev = dict(property=pid, tier=a.tier, seed=a.seed,
              level=plan.get("level", "exploration"), coverage=cov,
              assumptions=plan.get("assumptions", []), wall_s=round(wall, 2),
              violations=len(bad))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"),
              indent=1)
    missing = [k for k in plan.get("require", [])
               if not res.stats.get(k)]
    if bad:
        path = os.path.join(HERE, "evidence", "replay-%s.json" % pid)
        json.dump(dict(property=pid, violation=bad[0], more=bad[1:20],
                       how="python3 %s/check.py %s --replay %s" %
                       (HERE, pid, path)), open(path, "w"), indent=1)
        for v in bad[:5]:
            print("  %(tool)s %(profile)s seed %(seed)s case %(case)s: %(msg)s"
                  % v)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if missing:
        print("CHECK-ERROR: never observed: %s" % ", ".join(missing))
        return 3
    print("%s held: %d evaluations, %d distinct, %.1f s" %
          (pid, cov["evaluations"], cov["distinct_nontrivial"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
