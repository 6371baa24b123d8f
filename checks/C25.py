SEQ = ("-DPARLAY_SEQUENTIAL",)
OMP = ("-DPARLAY_OPENMP", "-fopenmp")
TBB = ("-DPARLAY_TBB", "-ltbb")
QUIET = {"OMP_WAIT_POLICY": "passive"}
# the functional harnesses run on the back ends, validated by the specifications of their own properties
USES = [("c13_sort", ("-DPART=0",), "C13_fn"), ("c14_merge", (), "C14_fn"), ("c15_intsort", ("-DPART=0", "-DKTS=9", "-DDEBUG"), "C15_fn"),
        ("c16_scan", ("-DPART=0",), "C16_fn"), ("c17_bulk", ("-DPART=0",), "C17_fn"), ("c18_group", ("-DPART=0",), "C18_fn"),
        ("c18_group", ("-DPART=2",), "C18_fn"), ("c20_search", ("-DPART=1",), "C20_fn")]


def run(c):
    backs = [("_seq", SEQ), ("_omp", OMP), ("_tbb", TBB)]
    uses = [(k, h, flags, spec, backs if c.thorough else [backs[1 + k % 2]]) for k, (h, flags, spec) in enumerate(USES)]
    large = [(g, k) for g in (13, 14, 15, 16, 17, 18, 19, 20, 24) for k in (0, 1, 2)] if c.thorough else [(13, 1), (18, 2), (16, 0), (24, 1)]
    c.prebuild([("c25_backend", b, n) for n, b in backs + [("_own", ())]] + [(h, flags + b, "_be%d%s" % (k, n)) for k, h, flags, _, use in uses for n, b in use] +
               [("big", c.bigflags(g) + backs[k][1], "_%d%s" % (g, backs[k][0])) for g, k in large], vp=False)
    backs.append(("_own", ()))
    t = dict(harness="c25_backend", count=c.pick(6000, 100000), secs=c.pick(10, 150), env=QUIET)
    c.records([dict(t, flags=b, tag=n) for n, b in backs], "C25_fn", cfg="fn.cfg", maxbytes=c.pick(60, 500) * 1000000)
    for k, h, flags, spec, use in uses:
        c.records([dict(harness=h, flags=flags + b, tag="_be%d%s" % (k, n), count=c.pick(700, 8000), secs=c.pick(4, 60), env=QUIET) for n, b in use], spec, cfg="fn.cfg",
                  maxbytes=c.pick(12, 200) * 1000000)
    for g, k in large:
        c.big(g, 8, 60, flags=backs[k][1], tag=backs[k][0], opt="-O1")
