"""Fills the table of planted bugs in DESIGN.md.
usage: gen_design.py RESULTS.json   (written by run_seeded.py -o)"""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {   # planted, missed at first, and what was done about it
    "gc-stale-count": "missed at first: failcrash added to C10",
    "hamming-unbounded-fix": "missed at first: eccfuzz `wild` added",
    "crc-16bit-length": "missed at first: long messages added",
    "restart-marks-source": "missed at first: C05 runs more cases",
    "sigma-half-set": "MSan only",
}
res = json.load(open(sys.argv[1]))
rows = []
for bug in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, bug)))
    r = res.get(bug, {})
    got = ["%s (%d s)" % (c, x["t"]) for c, x in sorted(r.items())
           if x["rc"] == 1]
    miss = [c for c, x in sorted(r.items()) if x["rc"] != 1]
    c = "caught: " + ", ".join(got) if got else \
        "missed: " + ", ".join(miss) if miss else "not run"
    if bug in MISSED:
        c += "; " + MISSED[bug]
    rows.append("| %s | %s | %s | %s | %s |" % (
        m["property"], bug, m["what_it_breaks"].replace("|", "/"),
        m["needs"].replace("|", "/"), c))
rows.sort()
p = HERE + "/DESIGN.md"
s = open(p).read()
t = ("| property | bug | what it breaks | needs | own check |\n"
     "|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
s = re.sub(r"(<!-- seeded:begin -->\n).*?(<!-- seeded:end -->)",
           lambda k: k.group(1) + t + k.group(2), s, flags=re.S)
open(p, "w").write(s)
