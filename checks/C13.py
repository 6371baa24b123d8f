ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    c.model("MCSample", cfg="MCSample_six.cfg" if c.thorough else None, must_cover=("DoBlock", "Gather", "DoBucket"))
    c.model_breaks("MCSample", "MCSample_last.cfg")
    t = dict(count=c.pick(8000, 100000), secs=c.pick(12, 200), harness="c13_sort")
    c.records([dict(t, flags=("-DPART=0", "-DPARLAY_ELASTIC_STEAL_TIMEOUT=200")),
               dict(t, flags=("-DPART=1",), tag="_heap"),
               dict(t, flags=("-DPART=1",) + ASAN, tag="_asan"),
               dict(t, flags=("-DPART=2", "-DDEBUG", "-DBIGMAX=%d" % c.pick(160000, 400000)), tag="_dbg")], "C13_fn", cfg="fn.cfg", maxbytes=c.pick(100, 600) * 1000000)
    c.big(13)
