def run(c):
    c.histories("c10_malloc", "C10_trace", count=c.pick(20000, 500000), secs=c.pick(18, 250), maxlines=c.pick(2500, 40000), maxtrace=c.pick(16000, 250000))
