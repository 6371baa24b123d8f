ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    parts = c.pick(8, 24)
    seeds = c.pick([1], [1, 2])
    t = dict(count=c.pick(600, 12000), secs=c.pick(12, 200), harness="c19_delayed")
    sets = [dict(t, flags=("-DPART=%d" % p, "-DSEED=%d" % s, "-DPROGS=15") + (ASAN if p % 4 else ()), tag="_%d_%d" % (p, s))
            for s in seeds for p in range(parts)]
    c.records(sets, "C19_fn", cfg="fn.cfg", maxbytes=c.pick(170, 900) * 1000000)
    c.big(19)
