def run(c):
    c.model("MCBlocks", must_cover=("Alloc", "FetchPool", "FetchNew", "Install", "Take", "Free", "Move"))
    c.model_breaks("MCBlocks", "MCBlocks_stolen.cfg")
    c.histories("c09_blocks", "C09_trace", count=c.pick(20000, 500000), secs=c.pick(15, 250), maxlines=c.pick(2500, 40000), maxtrace=c.pick(16000, 250000))
