ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    c.model("MCSeq", cfg=c.pick("MCSeq.cfg", "MCSeq_long.cfg"), must_cover=(
        "Run", "Push", "PushSelf", "InsertSelf", "Erase", "Reserve", "ClearAll", "PopTail", "AppendAll", "InsertAll"))
    c.model_breaks("MCSeq", "MCSeq_late.cfg")
    t = dict(count=c.pick(4000, 40000), secs=c.pick(8, 100), harness="c21_seq")
    asan = {0, 3, 5, 7, 9, 10}       # the other parts use the library's own allocator
    c.records([dict(t, flags=("-DPART=%d" % p,) + (ASAN if p in asan else ()), tag="_%d" % p) for p in range(12)],
              "C21_fn", cfg="fn.cfg", maxbytes=c.pick(150, 900) * 1000000)
