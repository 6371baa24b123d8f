ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    c.model("MCMerge", cfg="MCMerge_five.cfg" if c.thorough else None, must_cover=("Leaf", "Split"))
    c.model_breaks("MCMerge", "MCMerge_upper.cfg")
    t = dict(count=c.pick(6000, 100000), secs=c.pick(12, 200), harness="c14_merge")
    c.records([dict(t, flags=("-DPARLAY_ELASTIC_STEAL_TIMEOUT=200",)),
               dict(t, flags=ASAN, tag="_asan")], "C14_fn", cfg="fn.cfg", maxbytes=c.pick(80, 600) * 1000000)
    c.big(14)
