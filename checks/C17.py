ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    t = dict(count=c.pick(4000, 60000), secs=c.pick(8, 150), harness="c17_bulk")
    c.records([dict(t, flags=("-DPART=0",), tag="_map"),
               dict(t, flags=("-DPART=1",), tag="_reorder"),
               dict(t, flags=("-DPART=2",), tag="_flatten"),
               dict(t, flags=("-DPART=3",), tag="_outs"),
               dict(t, flags=("-DPART=2",) + ASAN, tag="_flatten_asan", count=c.pick(1500, 20000)),
               dict(t, flags=("-DPART=3",) + ASAN, tag="_outs_asan", count=c.pick(1500, 20000))], "C17_fn", cfg="fn.cfg", maxbytes=c.pick(170, 900) * 1000000)
    c.big(17)
