def run(c):
    t = dict(count=c.pick(1000, 12000), secs=c.pick(12, 150), harness="c24_determ")
    c.records([dict(t, flags=("-DPART=%d" % p,), tag="_%d" % p) for p in range(4)],
              "C24_fn", cfg="fn.cfg", maxbytes=c.pick(60, 500) * 1000000)
    c.prebuild([("c24_sched", ("-DPART=%d" % p,), "_%d" % p) for p in range(4)])
    for p in range(4):
        c.histories("c24_sched", "C24_trace", flags=("-DPART=%d" % p,), tag="_%d" % p, count=c.pick(3000, 100000), secs=c.pick(8, 150), maxlines=c.pick(4000, 60000), seed_off=p)
    c.big(24)
