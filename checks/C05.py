def run(c):
    c.model("MCIds", must_cover=("Begin", "Look", "Lock", "Cur", "Nx", "Cas", "Fail", "New", "GiveNext", "Give"))
    c.model_breaks("MCIds", "MCIds_unlocked.cfg")
    c.histories("c05_tids", "C05_trace", count=c.pick(12000, 400000), secs=c.pick(14, 250), maxlines=c.pick(2500, 40000), maxtrace=c.pick(16000, 250000))
