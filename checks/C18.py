ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    t = dict(count=c.pick(3000, 50000), secs=c.pick(8, 150), harness="c18_group")
    c.records([dict(t, flags=("-DPART=0",), tag="_key"),
               dict(t, flags=("-DPART=1",), tag="_own"),
               dict(t, flags=("-DPART=2",), tag="_index"),
               dict(t, flags=("-DPART=4",), tag="_groupindex"),
               dict(t, flags=("-DPART=3",), tag="_ordered"),
               dict(t, flags=("-DPART=1",) + ASAN, tag="_own_asan", count=c.pick(800, 12000))], "C18_fn", cfg="fn.cfg", maxbytes=c.pick(150, 800) * 1000000)
    c.big(18)
