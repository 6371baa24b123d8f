def run(c):
    c.model("MCTls", cfg=c.pick("MCTls.cfg", "MCTls_three.cfg"), must_cover=("Miss", "Lock", "Look", "Build", "Publish", "Unlock", "Use", "Again"))
    c.model_breaks("MCTls", "MCTls_twice.cfg")
    c.model_breaks("MCTls", "MCTls_early.cfg")
    c.histories("c06_tls", "C06_trace", count=c.pick(12000, 300000), secs=c.pick(14, 250), maxlines=c.pick(2500, 40000), maxtrace=c.pick(12000, 200000), vpenv={"VP_NPROCS": "1"})
