def run(c):
    c.model("MCStack", must_cover=("Push", "Pop", "Load", "Announce", "Check", "Read", "Cas", "Release", "Reclaim"))
    c.model_breaks("MCStack", "MCStack_noscan.cfg")
    c.model_breaks("MCStack", "MCStack_norecheck.cfg")
    c.histories("c08_reclaim", "C08_trace", count=c.pick(25000, 600000), secs=c.pick(16, 250), maxlines=c.pick(3500, 40000), maxtrace=c.pick(20000, 250000))
