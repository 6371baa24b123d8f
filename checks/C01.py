def run(c):
    c.model("MCDeque", must_cover=("Flush", "PushJob", "PushBot", "PopBegin", "PopFence", "PopAge", "PopCas", "PopReset", "StealAge", "StealBot", "StealJob", "StealCas"))
    c.model_breaks("MCDeque", "MCDeque_nofence.cfg")
    c.histories("c01_deque", "C01_deque_trace", count=c.pick(20000, 300000), secs=c.pick(8, 100), maxlines=c.pick(3000, 40000), maxtrace=c.pick(16000, 150000), internal=True)
    c.histories("c01_forkjoin", "C01_trace", count=c.pick(12000, 400000), secs=c.pick(20, 300), maxlines=c.pick(5000, 60000), maxtrace=c.pick(24000, 300000))
