ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    c.model("MCBlockScan", must_cover=("SumBlock", "Offsets", "ScanBlock"))
    t = dict(count=c.pick(5000, 80000), secs=c.pick(10, 150), harness="c16_scan")
    c.records([dict(t, flags=("-DPART=0",), tag="_scalar"),
               dict(t, flags=("-DPART=1",), tag="_pair"),
               dict(t, flags=("-DPART=2",) + ASAN, tag="_asan"),
               dict(t, flags=("-DPART=3",), tag="_large", count=c.pick(200, 3000))], "C16_fn", cfg="fn.cfg", maxbytes=c.pick(70, 600) * 1000000)
    c.big(16)
