def run(c):
    c.model("MCHash", must_cover=("Turn", "InsBegin", "InsLoad", "InsCas", "DelBegin", "DelFwd", "DelLoop", "DelFind", "DelBack", "DelCas", "DelLoad"))
    if c.thorough:
        c.model("MCHash", cfg="MCHash_three.cfg")
    c.model_breaks("MCHash", "MCHash_holes.cfg")
    c.histories("c11_table", "C11_trace", count=c.pick(50000, 600000), secs=c.pick(18, 250), maxlines=c.pick(4500, 40000), maxtrace=c.pick(30000, 250000))
