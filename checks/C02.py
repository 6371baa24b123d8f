def run(c):
    c.model("MCParFor", must_cover=("Chunk", "Begin", "Cut", "Do"))
    c.histories("c02_loops", "C02_trace", count=c.pick(12000, 400000), secs=c.pick(20, 300), maxlines=c.pick(5000, 60000), maxtrace=c.pick(24000, 300000))
