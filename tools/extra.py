"""Checks that are not case-driven C monitors.

Each function gets check.py's context and adds what it observed to ctx["res"].
"""
import os, random, re, subprocess

SAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all"]


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, errors="replace", **kw)


# ------------------------------------------------------------------ C25: tools
def _deg(p):
    return p.bit_length() - 1


def _recip(p):
    return int(bin(p)[:1:-1], 2) if p else 0


def _exp_table(gen):
    """exp table of GF(2)[x]/gen, and log if gen is primitive."""
    d, a, exp = _deg(gen), 1, []
    for _ in range((1 << d) - 1):
        exp.append(a)
        a <<= 1
        if a >> d:
            a ^= gen
    return exp, a == 1 and len(set(exp)) == len(exp)


def _primitive(d):
    out = []
    n = (1 << d) - 1
    primes = [p for p in range(2, n + 1) if n % p == 0 and
              all(p % q for q in range(2, int(p ** .5) + 1))]

    def mulmod(a, b, g):
        r = 0
        while b:
            if b & 1:
                r ^= a
            b >>= 1
            a <<= 1
            if a >> d:
                a ^= g
        return r

    def powx(e, g):
        r, b = 1, 2 if d > 1 else (2 ^ g if 2 >> d else 2)
        while e:
            if e & 1:
                r = mulmod(r, b, g)
            b = mulmod(b, b, g)
            e >>= 1
        return r
    for g in range(1 << d, 2 << d):
        if not g & 1:
            continue
        if d == 1 or (powx(n, g) == 1 and
                      all(powx(n // p, g) != 1 for p in primes)):
            out.append(g)
    return out


def _bch_gen(gen, roots):
    """lcm of the minimal polynomials of alpha^1..alpha^roots (LSB = x^0)"""
    d = _deg(gen)
    order = (1 << d) - 1
    exp, _ = _exp_table(gen)
    log = {a: i for i, a in enumerate(exp)}

    def mul(a, b):
        return exp[(log[a] + log[b]) % order] if a and b else 0
    g, done = 1, set()
    for k in range(1, roots + 1):
        if k in done:
            continue
        m, e = [1], k
        while True:
            done.add(e)
            r = exp[e]
            m = [(mul(m[i], r) if i < len(m) else 0) ^
                 (m[i - 1] if i else 0) for i in range(len(m) + 1)]
            e = e * 2 % order
            if e == k:
                break
        mp = sum(1 << i for i, c in enumerate(m) if c)
        p = 0
        for i in range(_deg(mp) + 1):
            if mp >> i & 1:
                p ^= g << i
        g = p
    return g


DUMP = r"""
#include <stdio.h>
#include "bch.h"
#include "gf13.h"
#include "crc32.h"
int main(void)
{
	int i;
	for (i = 0; i < 256; i++) {
		uint8_t b = ~i;
		printf("crc %u\n", (unsigned)~crc32_nand(&b, 1, 0xffffffffu));
	}
	for (i = 0; i < 8192; i++) printf("exp %u\n", gf13_exp[i]);
	for (i = 0; i < 8192; i++) printf("log %u\n", gf13_log[i]);
	printf("bch %llu\n", (unsigned long long)bch_1bit.generator);
	printf("bch %llu\n", (unsigned long long)bch_2bit.generator);
	printf("bch %llu\n", (unsigned long long)bch_3bit.generator);
	printf("bch %llu\n", (unsigned long long)bch_4bit.generator);
	return 0;
}
"""


def tools_check(ctx):
    res, repo, work = ctx["res"], ctx["repo"], ctx["work"]
    quick = ctx["tier"] != "thorough"
    rnd = random.Random(ctx["seed"])
    seen = set()

    def stat(k, n=1):
        res.stats[k] = res.stats.get(k, 0) + n

    def viol(cmd, msg):
        res.viols.append(dict(tool="toolchk", profile=" ".join(cmd[1:]) or "-",
                              seed=ctx["seed"], case=res.cases, arg=None,
                              classes=["TOOL"], key="-",
                              msg="%s %s: %s" % (os.path.basename(cmd[0]),
                                                 " ".join(cmd[1:]), msg)))

    exes = {}
    for t in ("gftool", "gentab"):
        exes[t] = os.path.join(work, t)
        r = _sh(["gcc"] + SAN + ["-w", "-I" + repo, "-o", exes[t],
                                 os.path.join(repo, "tools", t + ".c")])
        if r.returncode:
            res.problems.append("%s does not build\n%s" % (t, r.stderr[-2000:]))
            return
    src = os.path.join(work, "dump.c")
    open(src, "w").write(DUMP)
    dump = os.path.join(work, "dump")
    ecc = os.path.join(repo, "ecc")
    r = _sh(["gcc", "-w", "-I" + ecc, "-o", dump, src] +
            [os.path.join(ecc, f) for f in sorted(os.listdir(ecc))
             if f.endswith(".c")])
    if r.returncode:
        res.problems.append("dump does not build\n" + r.stderr[-2000:])
        return
    ship = {}
    for line in _sh([dump]).stdout.splitlines():
        k, v = line.split()
        ship.setdefault(k, []).append(int(v))

    def run(t, *args, timeout=120):
        cmd = [exes[t]] + list(args)
        res.cases += 1
        stat("tool_runs")
        seen.add(" ".join([t] + list(args)))
        try:
            p = _sh(cmd, timeout=timeout, env=ctx["env"])
        except subprocess.TimeoutExpired:
            viol(cmd, "does not finish")
            return cmd, None, ""
        if p.returncode == 66 or p.returncode < 0 or \
                "Sanitizer" in p.stderr or "runtime error" in p.stderr:
            m = re.search(r"(ERROR: \S+Sanitizer: [^\n]*|[^\n]*runtime error:"
                          r" [^\n]*)", p.stderr)
            viol(cmd, m.group(1) if m else "crashes (%d)" % p.returncode)
            return cmd, None, ""
        return cmd, p.returncode, p.stdout

    def numbers(text):
        return [int(x, 16) for x in re.findall(r"0x([0-9a-fA-F]+)", text)]

    def rejected(t, *args, partial=False):
        cmd, rc, out = run(t, *args, timeout=60)
        if rc is None:
            return
        stat("rejections")
        if rc == 0:
            viol(cmd, "unusable arguments are not rejected")
        elif len(numbers(out)) > 8 and not partial:
            viol(cmd, "prints a table for unusable arguments")

    # gentab
    def crc_ref(poly):
        t = []
        for i in range(256):
            for _ in range(8):
                i = (i >> 1) ^ (poly if i & 1 else 0)
            t.append(i)
        return t
    polys = ["edb88320", "0xedb88320", "EDB88320", "82f63b78", "0x1", "ffffffff",
             "80000000", "eb31d82e", "a001"]
    polys += ["%x" % rnd.getrandbits(32) for _ in range(40 if quick else 2000)]
    for p in polys:
        cmd, rc, out = run("gentab", p)
        if rc is None:
            continue
        got, v = numbers(out), int(p, 16)
        if rc != 0 or got != crc_ref(v):
            viol(cmd, "not the reduction table of %08x" % v)
        if v == 0xedb88320 and got != ship["crc"]:
            viol(cmd, "not the shipped checksum table")
        stat("tables_compared")
    for a in ((), ("zz",), ("0xg1",), ("edb8832g",), ("-1",), ("1 2",)):
        rejected("gentab", *a)

    # gftool: tables
    gens = {d: _primitive(d) for d in range(1, 11)}
    todo = [0x201b, 0x11d, 0x1100b, 0x8003, 0x402b, 0x1053]
    for d in range(2, 11):
        todo += rnd.sample(gens[d], min(len(gens[d]), 2 if quick else 40))
    for g in todo:
        exp, prim = _exp_table(g)
        d, order = _deg(g), (1 << _deg(g)) - 1
        if not prim:
            res.problems.append("%x is not primitive" % g)
            continue
        for style in ("%x", "0x%X"):
            cmd, rc, out = run("gftool", style % g, "exp")
            if rc is not None:
                got = numbers(out)
                if rc or len(got) != order + 1 or got[:order] != exp or \
                        got[order] != 1:
                    viol(cmd, "not the exponential table")
                if g == 0x201b and got != ship["exp"]:
                    viol(cmd, "not the shipped exponential table")
                stat("tables_compared")
            cmd, rc, out = run("gftool", style % g, "log")
            if rc is not None:
                got = numbers(out)
                if rc or len(got) != order + 1 or \
                        any(exp[got[a] % order] != a
                            for a in range(1, order + 1)):
                    viol(cmd, "not the logarithm table")
                if g == 0x201b and got != ship["log"]:
                    viol(cmd, "not the shipped logarithm table")
                stat("tables_compared")

    # gftool: BCH generators
    def bch(g, n):
        want = _bch_gen(g, n)
        if _deg(want) > 63:
            rejected("gftool", "%x" % g, "bch", str(n), partial=True)
            return
        cmd, rc, out = run("gftool", "%x" % g, "bch", str(n))
        if rc is None:
            return
        m = re.search(r"generator:\s*0x([0-9a-f]+)\s*\[0x([0-9a-f]+)\]"
                      r"\s*->\s*(.*)", out)
        stat("generators_compared")
        if rc or not m:
            viol(cmd, "prints no generator")
            return
        a, b, txt = int(m.group(1), 16), int(m.group(2), 16), m.group(3)
        terms = 0
        for t in txt.split("+"):
            t = t.strip()
            terms |= 1 if t == "1" else 2 if t == "x" else 1 << int(t[2:])
        if b != want or a != _recip(want) or terms != a:
            viol(cmd, "prints %x [%x] %s, the generator is %x" %
                 (a, b, txt, want))
        if g == 0x201b and n in (2, 4, 6, 8) and \
                b != ship["bch"][n // 2 - 1]:
            viol(cmd, "is not the shipped generator")
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11):
        bch(0x201b, n)
    for d in range(2, 11):
        for g in rnd.sample(gens[d], min(len(gens[d]), 1 if quick else 20)):
            for n in sorted({1, 2, 3, 4, 5, 6, 7, 8, 10, (1 << d) - 2,
                             rnd.randrange(1, 1 << d)}):
                if 1 <= n < (1 << d) - 1:
                    bch(g, n)
    bch(0x1100b, 2)
    bch(0x1100b, 4)
    bch(0x8003, 4)

    # gftool: search
    for d in range(1, 11 if quick else 14):
        cmd, rc, out = run("gftool", "search", str(d), timeout=600)
        if rc is None:
            continue
        got = [int(x, 16) for x in re.findall(r"^\s*0x([0-9a-f]+)", out, re.M)]
        want = gens[d] if d in gens else _primitive(d)
        stat("searches")
        if rc or got != want:
            viol(cmd, "lists %d polynomials, %d are primitive" %
                 (len(got), len(want)))

    # gftool: unusable arguments
    for a in ((), ("search",), ("201b",), ("201b", "foo"), ("zz", "exp"),
              ("201b", "bch"), ("0", "exp"), ("1", "exp"), ("1", "log"),
              ("0", "bch", "2"), ("x", "log"), ("20001", "exp"),
              ("fffffffff", "log"), ("8000000000000001", "bch", "2"),
              ("201b", "bch", "8191"), ("201b", "bch", "9000"),
              ("201b", "bch", "-2"), ("201b", "bch", "65538"),
              ("search", "0"), ("search", "-1"), ("search", "x"),
              ("search", "64"), ("search", "1000000"), ("search", "40")):
        rejected("gftool", *a)
    # odd but harmless ones: no crash
    for a in (("4", "exp"), ("6", "log"), ("15", "exp"), ("10000", "log"),
              ("3", "exp"), ("3", "bch", "1"), ("7", "bch", "3")):
        run("gftool", *a)
    res.h[0].update(hash(s) & (1 << 64) - 1 for s in seen)
    res.h[1].update(hash(s) & (1 << 64) - 1 for s in seen)
    res.samples += sorted(seen)[:6]
