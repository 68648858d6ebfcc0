"""Which monitors decide which property, and how much of each to run."""

SAN = ("-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
       "-fno-sanitize-recover=all")
MSAN = ("-g -O1 -fno-omit-frame-pointer -fsanitize=memory "
        "-fsanitize-memory-track-origins -fno-sanitize-recover=all "
        "-Wno-everything")
LIB = ["dhara/*.c"]
ECC = ["ecc/*.c"]

TOOLS = {
    "mapfuzz": dict(src=["mapfuzz.c", "mapmodel.c", "fmt.c", "sim.c", "vf.c"],
                    repo=LIB, flags=SAN),
    "jfuzz": dict(src=["jfuzz.c", "sim.c", "vf.c"], repo=LIB, flags=SAN),
    "eccfuzz": dict(src=["eccfuzz.c", "vf.c"], repo=ECC, flags=SAN,
                    libs="-ldl", needs=["eccnt.so"]),
    "eccnt.so": dict(src=["eccnt.c"], repo=ECC,
                     flags=SAN + " -fPIC -shared -Wl,-Bsymbolic "
                     "-DGF13_NO_TABLES"),
    "big": dict(src=["big.c", "mapmodel.c", "sim.c", "vf.c"], repo=LIB,
                flags=SAN),
    "mapfuzz-msan": dict(src=["mapfuzz.c", "mapmodel.c", "fmt.c", "sim.c",
                              "vf.c"], repo=LIB, flags=MSAN, cc="clang"),
    "jfuzz-msan": dict(src=["jfuzz.c", "sim.c", "vf.c"], repo=LIB, flags=MSAN,
                       cc="clang"),
    "big-msan": dict(src=["big.c", "mapmodel.c", "sim.c", "vf.c"], repo=LIB,
                     flags=MSAN, cc="clang"),
    "eccfuzz-msan": dict(src=["eccfuzz.c", "vf.c"], repo=ECC, flags=MSAN,
                         cc="clang", libs="-ldl"),
    # no ASan here: control passes between stacks
    "indep": dict(src=["indep.c", "sim.c", "vf.c"], repo=LIB + ECC,
                  flags="-g -O1 -fsanitize=undefined "
                  "-fno-sanitize-recover=all"),
    "indep-tsan": dict(src=["indep.c", "sim.c", "vf.c"], repo=LIB + ECC,
                       flags="-g -O1 -fsanitize=thread", libs="-lpthread"),
    "golden": dict(src=["golden.c", "sim.c", "vf.c"], repo=LIB, flags=SAN,
                   data="golden"),
    "errchk": dict(src=["errchk.c", "vf.c"], repo=["dhara/error.c"],
                   flags=SAN),
}


def mf(profile, quick, thorough, **kw):
    return dict(tool="mapfuzz", profile=profile, quick=quick,
                thorough=thorough, **kw)


def jf(profile, quick, thorough, **kw):
    return dict(tool="jfuzz", profile=profile, quick=quick,
                thorough=thorough, **kw)


def ec(profile, quick, thorough, **kw):
    return dict(tool="eccfuzz", profile=profile, quick=quick,
                thorough=thorough, **kw)


def bg(profile, quick, thorough, **kw):
    return dict(tool="big", profile=profile, quick=quick, thorough=thorough,
                **kw)


def ms(run):
    """The same workload under MSan instead of ASan+UBSan."""
    return dict(run, tool=run["tool"] + "-msan")


HIST = ("a case is one random chip geometry (page size, pages/block, blocks, "
        "factory-bad blocks, gc ratio), sector universe and history of "
        "operations drawn from the seed; ")
CUT = HIST + ("a power cut is judged on a copy of the chip frozen at a NAND "
              "mutation (before it, or in one of its torn outcomes); distinct "
              "= distinct (NAND trace up to the cut, cut point, outcome)")
OPS = HIST + ("distinct = distinct (geometry, gc ratio, universe, case); "
              "every case mutates the map and is swept against the model")
QUE = ("a case is one random geometry and journal history (enqueue, copy, "
       "filler, dequeue, clear, restart, cut) against a queue model; distinct "
       "= distinct (root page, chip state, entry) observed")

PLAN = {
    "C01": dict(
        runs=[mf("gen", 1000, 20000), mf("small", 1000, 20000),
              mf("wrap", 104, 2000, chunk=7),
              mf("bigpage", 8, 200, chunk=1),
              bg("far", 48, 2000, chunk=4)],
        classes=["CONTENT", "OPFAIL", "INPUT", "FULL"], rule=OPS, distinct=0,
        require=["write", "trim", "copy_sector", "copy_page", "clear", "gc",
                 "restart", "sweeps"]),
    "C02": dict(
        runs=[mf("crash", 1200, 30000), mf("crashlong", 160, 4000),
              mf("cuts", 240, 6000)],
        classes=["PREFIX", "START"], rule=CUT, level="fault_enumeration",
        evaluations="cuts_judged",
        require=["cut_torn_prog", "cut_torn_erase", "cuts_rolled_back",
                 "cuts_adopted"]),
    "C03": dict(
        runs=[mf("crashlong", 480, 12000), mf("crash", 600, 6000),
              mf("cuts", 100, 4000)],
        classes=["DURABLE"], rule=CUT, level="fault_enumeration",
        evaluations="cuts_judged", require=["sync", "cuts_rolled_back"]),
    "C04": dict(
        runs=[mf("fail", 1600, 30000), mf("failmany", 1600, 30000),
              mf("failempty", 1000, 20000), mf("failecc", 400, 6000),
              mf("eachfail", 1200, 40000)],
        classes=["CONTENT", "OPFAIL", "SIZE", "FULL", "DURABLE", "START"],
        rule=OPS, distinct=0, level="fault_enumeration",
        require=["block_failures", "restart",
                 "programs_failed_one_by_one",
                 "erases_failed_one_by_one"]),
    "C05": dict(
        runs=[mf("failcrash", 1900, 30000), mf("chaos", 900, 15000),
              mf("failshort", 900, 15000)],
        classes=["PREFIX", "DURABLE", "CONTENT", "OPFAIL", "START", "SIZE"],
        rule=CUT, level="fault_enumeration", evaluations="cuts_judged",
        require=["block_failures", "cuts_judged", "cuts_in_reloc_window",
                 "queue_covers"]),
    "C06": dict(
        runs=[mf("gen", 100, 4000), mf("small", 100, 4000),
              mf("wrap", 8, 200, chunk=1), mf("crash", 150, 6000),
              mf("fail", 250, 10000), mf("failmany", 250, 10000),
              mf("failempty", 150, 6000), mf("failcrash", 150, 6000),
              mf("failshort", 150, 6000),
              mf("ecc", 60, 2000), mf("imprecise", 80, 4000),
              mf("toobad", 300, 2000), mf("failecc", 200, 4000),
              mf("eachread", 100, 4000),
              mf("chaos", 200, 4000),
              jf("jfull", 60, 4000), jf("jfullfail", 300, 4000),
              jf("jrec", 200, 10000),
              jf("jrecmany", 300, 10000)],
        classes=["PROTOCOL"], rule=HIST + "every NAND driver call is checked "
        "by the simulator's protocol monitor; distinct = distinct cases",
        distinct=0, require=["nand_programs", "nand_erases",
                             "block_failures"]),
    "C07": dict(
        runs=[mf("full", 160, 8000, chunk=5), mf("wearfail", 120, 3000),
              mf("fail", 300, 6000)],
        classes=["FULL", "OPFAIL", "CONTENT"], rule=OPS, distinct=0,
        require=["map_full_answers", "write", "trim",
                 "capacity_bounds"]),
    "C08": dict(
        runs=[mf("wear", 500, 10000), mf("wearfail", 200, 4000),
              mf("wearcut", 200, 4000)],
        classes=["WEAR"], rule=OPS, distinct=0,
        require=["nand_erases", "restart"]),
    "C09": dict(
        runs=[bg("cost", 1600, 60000, chunk=10),
              bg("far", 48, 2000, chunk=4), mf("gen", 80, 4000),
              mf("gc", 80, 4000), mf("full", 16, 400, chunk=2)],
        classes=["COST"],
        rule="a case is one chip (from tens to over a hundred thousand "
        "blocks, evenly spread bad ones) with a random fill level and "
        "history; the NAND accesses of every single call are compared with "
        "its logarithmic bound; distinct = distinct (geometry, gc ratio, "
        "number of sectors)", evaluations="nand_accesses",
        require=["nand_accesses", "restart", "gc"]),
    "C10": dict(
        runs=[mf("gen", 150, 8000), mf("small", 150, 8000),
              mf("fail", 200, 8000), mf("failempty", 100, 4000),
              mf("ecc", 400, 6000), mf("failecc", 300, 4000),
              mf("eachread", 200, 8000), mf("eachfail", 200, 8000),
              mf("crash", 150, 6000), mf("failcrash", 600, 10000),
              mf("failshort", 200, 5000),
              mf("full", 16, 400, chunk=2),
              bg("foreign", 600, 20000), bg("far", 48, 1000, chunk=4)],
        classes=["SIZE"], rule=OPS, distinct=0,
        require=["write", "trim", "ecc_faults_reported", "map_full_answers"]),
    "C11": dict(
        runs=[bg("start", 1000, 40000, chunk=10),
              bg("foreign", 1000, 40000), bg("far", 72, 2000, chunk=4),
              mf("crash", 200, 4000),
              mf("fail", 200, 4000), mf("gen", 100, 4000),
              mf("ecc", 200, 4000),
              jf("jqueue", 100, 4000), jf("jrec", 300, 6000)],
        classes=["START"], evaluations="start_probes",
        rule="a probe is a copy of the chip taken between two operations, "
        "resumed four times (same object or a new one) and compared with the "
        "last checkpoint programmed and with itself; distinct = distinct "
        "(NAND history, root, epoch, head)",
        require=["start_probes", "foreign_chips", "behaviours_compared",
                 "restart", "ecc_faults_in_resume"]),
    "C12": dict(
        runs=[mf("gc", 2000, 20000)],
        classes=["GC", "CONTENT", "OPFAIL"], rule=OPS, distinct=0,
        require=["gc", "gc_convergences", "gc_garbage_removed"]),
    "C13": dict(
        runs=[mf("ecc", 1500, 20000), mf("toobad", 1500, 15000),
              mf("failecc", 800, 12000),
              mf("eachread", 1500, 40000)],
        classes=["ERRATOM", "CONTENT", "SIZE", "OPFAIL"], rule=OPS,
        distinct=0, level="fault_enumeration",
        require=["ecc_faults_reported", "too_bad_answers",
                 "recovery_left_to_another_call",
                 "reads_failed_one_by_one"]),
    "C14": dict(
        runs=[mf("format", 1600, 20000),
              dict(tool="golden", profile="golden", quick=600,
                   thorough=12000)],
        classes=["FORMAT"], rule=OPS, distinct=0,
        require=["flash_images_decoded", "golden_images"]),
    "C15": dict(
        runs=[jf("jqueue", 1200, 15000), jf("jfull", 400, 4000)],
        classes=["QUEUE", "START"], rule=QUE,
        require=["dequeues", "checkpoints", "cuts_judged", "restarts"]),
    "C16": dict(
        runs=[jf("jfull", 1000, 15000), jf("jqueue", 200, 3000),
              jf("jfullfail", 1500, 10000), jf("jrec", 300, 4000)],
        classes=["SPACE", "QUEUE"], rule=QUE,
        require=["journal_full_answers", "capacity_bounds",
                 "stuck_at_the_brim", "tried_again_at_the_brim",
                 "room_made", "capacity_fills"]),
    "C17": dict(
        runs=[jf("jrec", 2500, 30000), jf("jrecmany", 3000, 40000)],
        classes=["RECOV", "QUEUE"], rule=QUE, level="fault_enumeration",
        require=["recoveries", "recovery_restarts"]),
    "C18": dict(
        runs=[mf("gen", 60, 3000), mf("geom", 60, 3000),
              mf("crash", 80, 4000), mf("failcrash", 80, 4000),
              mf("failmany", 80, 4000), mf("ecc", 80, 4000),
              mf("imprecise", 60, 3000), mf("full", 8, 200, chunk=1),
              mf("toobad", 60, 3000), mf("failecc", 80, 4000),
              mf("chaos", 80, 4000), mf("eachread", 80, 4000),
              jf("jfullfail", 100, 4000),
              jf("jqueue", 60, 3000), jf("jrecmany", 100, 4000),
              bg("foreign", 150, 8000), bg("cost", 32, 2000, chunk=4),
              ec("bch", 400, 40000), ec("bchgen", 600, 40000),
              ec("ham", 512, 20000), ec("crc", 1000, 50000),
              ec("wild", 2000, 100000),
              ms(mf("gen", 60, 3000)), ms(mf("geom", 40, 2000)),
              ms(mf("crash", 60, 3000)), ms(mf("failcrash", 60, 3000)),
              ms(mf("failmany", 60, 3000)), ms(mf("failempty", 60, 3000)),
              ms(mf("ecc", 80, 4000)),
              ms(mf("imprecisefail", 60, 3000)),
              ms(mf("toobad", 60, 3000)), ms(mf("failecc", 80, 4000)),
              ms(mf("chaos", 60, 4000)), ms(mf("eachread", 60, 4000)),
              ms(jf("jfullfail", 100, 4000)),
              ms(jf("jqueue", 60, 3000)), ms(jf("jrecmany", 100, 4000)),
              ms(bg("foreign", 150, 8000)), ms(ec("bch", 400, 40000)),
              ms(ec("bchgen", 400, 40000)), ms(ec("ham", 512, 20000)),
              ms(ec("crc", 1000, 50000)), ms(ec("wild", 2000, 100000)),
              dict(tool="errchk", profile="errors", quick=8, thorough=100)],
        classes=["INPUT"],
        rule=HIST + "run under ASan+UBSan and again under MSan with every "
        "object and buffer an allocation of its exact size at any alignment; "
        "distinct = distinct cases", distinct=0,
        require=["nand_programs", "block_failures", "ecc_faults_reported",
                 "cuts_judged", "repairs"]),
    "C19": dict(
        runs=[dict(tool="indep", profile="coro", quick=1800, thorough=40000),
              dict(tool="indep-tsan", profile="threads", quick=400,
                   thorough=6000)],
        classes=["INDEP"], evaluations="calls_compared",
        rule="each instance's log (NAND accesses, results, data of every "
        "call) when interleaved at NAND accesses or run in parallel threads "
        "under TSan is compared with its log when alone; distinct = distinct "
        "interleavings", require=["context_switches", "maps", "journals",
                                  "ecc_users"]),
    "C20": dict(
        runs=[ec("bch", 7000, 600000), ec("bchone", 512, 5120)],
        classes=["ECC"], level="exploration", evaluations="repairs",
        rule="an evaluation is one repair of a damaged chunk compared with "
        "the original; distinct = distinct (code, length, error positions)",
        require=["repairs", "exhaustive_chunks", "vanishing_syndromes"]),
    "C21": dict(
        runs=[ec("bchgen", 30000, 600000)],
        classes=["ECC"], evaluations="damage_patterns",
        rule="an evaluation is one damaged chunk put to verify (plus every "
        "generate compared with a bit-serial reference division); distinct = "
        "distinct (code, length, error positions)",
        require=["generated", "damage_patterns"]),
    "C22": dict(
        runs=[ec("ham", 12000, 100000)],
        classes=["ECC"], evaluations="double_errors",
        rule="all lengths 1..512 with every single-bit error; double errors "
        "exhaustively on short chunks, sampled on long ones; distinct = "
        "distinct (length, pair) sampled",
        require=["single_errors", "double_errors", "all_doubles"]),
    "C23": dict(
        runs=[ec("crc", 120000, 2000000, chunk=500)],
        classes=["ECC"], evaluations="damage_patterns",
        rule="an evaluation is one damaged message; each case also compares "
        "the checksum with a bitwise reference, whole and in pieces; "
        "distinct = distinct (length, error positions)",
        require=["chained", "damage_patterns", "single_bytes"]),
    "C24": dict(
        runs=[ec("gf", 128, 128, chunk=4),
              ec("gfboth", 20000, 300000)],
        classes=["ECC"], evaluations="products",
        rule="all pairs of non-zero operands in both builds (table-free "
        "division sampled), all table entries; BCH results of both builds "
        "compared on correctable and uncorrectable inputs; distinct = "
        "distinct elements and ECC inputs",
        require=["products", "uncorrectable_compared"]),
    "C25": dict(
        extra=["tools_check"], classes=["TOOL"],
        rule="an evaluation is one run of gentab or gftool (ASan+UBSan "
        "builds) whose printed numbers are compared with an independent "
        "computation or with the shipped tables; distinct = distinct argument "
        "lists", require=["tables_compared", "generators_compared",
                          "searches", "rejections"]),
    "C26": dict(
        runs=[dict(tool="errchk", profile="errors", quick=16, thorough=400)],
        classes=["MISC"], evaluations="messages",
        rule="an evaluation is one call of dhara_strerror; distinct = "
        "distinct values", require=["messages"]),
    "C27": dict(
        runs=[mf("imprecise", 1200, 20000), mf("imprecisefail", 900, 12000)],
        classes=["CONTENT", "PREFIX", "DURABLE", "PROTOCOL", "OPFAIL", "SIZE",
                 "START", "INPUT"],
        rule=CUT, evaluations="cuts_judged",
        require=["cuts_judged", "block_failures"]),
    "C28": dict(
        runs=[mf("cuts", 1000, 20000)],
        classes=["OPERABLE", "OPFAIL", "PREFIX", "CONTENT", "START"],
        rule=CUT, level="fault_enumeration", evaluations="cuts_judged",
        require=["cuts_adopted", "gc", "sync"]),
}

NOTES = dict(
    technique="runtime monitoring: randomized and fault-injected histories "
    "against the real code on a monitored NAND simulator, compared with an "
    "executable reference model, under ASan+UBSan",
    note="held on the executions explored, which the evidence counts; nothing "
    "is claimed about histories not generated")
