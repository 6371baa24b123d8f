def run(c):
    c.histories("c04_ids", "C04_trace", count=c.pick(12000, 400000), secs=c.pick(14, 250), maxlines=c.pick(2500, 40000), maxtrace=c.pick(12000, 250000))
