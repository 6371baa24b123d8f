ASAN = ("-fsanitize=address", "-DPARLAY_USE_STD_ALLOC")


def run(c):
    t = dict(count=c.pick(1200, 20000), secs=c.pick(8, 120), harness="c23_text")
    c.records([dict(t, flags=("-DPART=0",) + ASAN, tag="_split"),
               dict(t, flags=("-DPART=1",) + ASAN, tag="_numbers"),
               dict(t, flags=("-DPART=2",) + ASAN, tag="_files"),
               dict(t, flags=("-DPART=2", "-DPARLAY_USE_FALLBACK_FILE_MAP"), tag="_files2")],
              "C23_fn", cfg="fn.cfg", maxbytes=c.pick(70, 500) * 1000000)
