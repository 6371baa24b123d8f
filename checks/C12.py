def run(c):
    c.model("MCWriteMin", must_cover=("Load", "Cas", "Fail"))
    c.model("MCWriteMin", cfg="MCWriteMin_min.cfg", must_cover=("Load", "Cas", "Fail"))
    c.model_breaks("MCWriteMin", "MCWriteMin_once.cfg")
    c.histories("c12_writemin", "C12_trace", count=c.pick(20000, 400000), secs=c.pick(10, 200), maxlines=c.pick(6000, 60000), maxtrace=c.pick(40000, 300000))
