ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    c.model("MCLife")
    t = dict(count=c.pick(1200, 12000), secs=c.pick(8, 120), harness="c22_life")
    f = lambda ty, ops, *more: dict(t, flags=("-DTYPE=%s" % ty, "-DOPS=%d" % ops) + more, tag="_%s%d" % (ty, ops))
    js = [f(ty, ops, *(ASAN if ops == 3 else ())) for ty in ("Fixed", "Loose") for ops in range(4)]
    js += [f(ty, ops) for ty in ("FixedOnly", "LooseOnly") for ops in (0, 1, 3)]
    js += [f("HugeLoose", 3), f("BigLoose", 0), f("Copied", 2), f("BigLoose", 3)]
    js += [dict(t, harness="c21_seq", flags=("-DPART=0", "-DLEDGER=%s" % ty), tag="_%s" % ty) for ty in ("Fixed", "Loose", "HugeLoose")]
    c.records(js, "C22_fn", cfg="fn.cfg", maxbytes=c.pick(60, 400) * 1000000)
