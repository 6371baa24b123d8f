def run(c):
    c.model("MCStack", must_cover=("Push", "Pop", "Load", "Announce", "Check", "Read", "Cas", "Release", "Reclaim"))
    if c.thorough:
        c.model("MCStack", cfg="MCStack_three.cfg")
    c.model_breaks("MCStack", "MCStack_norecheck.cfg")
    c.histories("c07_stack", "C07_trace", count=c.pick(25000, 600000), secs=c.pick(14, 250), maxlines=c.pick(3500, 40000), maxtrace=c.pick(20000, 250000))
