ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    t = dict(count=c.pick(4500, 60000), secs=c.pick(11, 150), harness="c15_intsort")
    c.records([dict(t, flags=("-DPART=0", "-DKTS=9", "-DDEBUG"), tag="_key0"),
               dict(t, flags=("-DPART=0", "-DKTS=6", "-DBIGMAX=140000"), tag="_key1"),
               dict(t, flags=("-DPART=1", "-DKTS=9", "-DDEBUG") + ASAN, tag="_asan"),
               dict(t, flags=("-DPART=1", "-DKTS=6", "-DDEBUG"), tag="_heap"),
               dict(t, flags=("-DPART=2", "-DKTS=9", "-DBIGMAX=%d" % c.pick(140000, 300000)), tag="_bare0"),
               dict(t, flags=("-DPART=2", "-DKTS=6", "-DDEBUG"), tag="_bare1"),
               dict(t, flags=("-DPART=3", "-DDEBUG"), tag="_count"),
               dict(t, flags=("-DPART=3",) + ASAN, tag="_count_asan")], "C15_fn", cfg="fn.cfg", maxbytes=c.pick(90, 600) * 1000000)
    c.big(15)
