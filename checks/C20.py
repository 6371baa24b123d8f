ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    c.model("MCBlockScan", must_cover=("Look", "Window"))
    t = dict(count=c.pick(2000, 40000), secs=c.pick(8, 150), harness="c20_search")
    c.records([dict(t, flags=("-DPART=0",) + ASAN, tag="_e", count=c.pick(1200, 20000)),
               dict(t, flags=("-DPART=1",), tag="_h"),
               dict(t, flags=("-DPART=2",), tag="_views")], "C20_fn", cfg="fn.cfg", maxbytes=c.pick(45, 700) * 1000000)
    c.histories("c20_sched", "C20_trace", count=c.pick(10000, 300000), secs=c.pick(14, 200), maxlines=c.pick(3000, 60000), maxtrace=c.pick(9000, 300000))
    c.big(20)
