def run(c):
    c.model("MCSleep", must_cover=("Fork", "WakeBump", "Notify", "Joined", "ShutBegin", "SpamBump", "SpamNotify", "Wake", "Steal", "Run", "GiveUp", "Dec", "Load", "Sleep", "End"))
    c.model("MCSleep", cfg="MCSleep_steal.cfg", must_cover=("Steal", "Joined", "Sleep"))
    c.model_breaks("MCSleep", "MCSleep_once.cfg")
    c.model("MCWait", must_cover=("Test", "Inc", "Ver", "Again", "Futex", "Spurious", "Dec", "SetVal", "Bump", "Look", "WakeUp"))
    c.model("MCWait", cfg="MCWait_direct.cfg", must_cover=("Futex", "Spurious", "WakeUp"))
    c.model_breaks("MCWait", "MCWait_early.cfg")
    c.histories("c03_sleep", "C03_sleep_trace", count=c.pick(3000, 100000), secs=c.pick(8, 100), maxlines=2000, maxtrace=8000)
    c.histories("c03_wait", "C03_wait_trace", count=c.pick(10000, 400000), secs=c.pick(12, 150), maxlines=c.pick(3000, 40000), maxtrace=c.pick(12000, 200000))
    # the other back ends of atomic_wait: condition variables, polling, no spinning first
    c.model("MCCond", cfg=c.pick("MCCond.cfg", "MCCond_three.cfg"), must_cover=("Test", "Lock", "Cred", "LookW", "Wait", "Relock", "Unlock", "Spurious", "SetVal", "See", "Take", "Pass", "Leave", "WakeUp"))
    c.model_breaks("MCCond", "MCCond_pass.cfg")
    c.model_breaks("MCCond", "MCCond_look.cfg")
    for k, (tag, fl) in enumerate((("_cond", ("-D__NO_FUTEX",)), ("_poll", ("-D__NO_FUTEX", "-D__NO_CONDVAR")), ("_direct", ("-D__NO_TABLE",)), ("_nospin", ("-D__NO_SPIN",)))):
        if k == 0 or c.thorough:
            c.histories("c03_sleep", "C03_sleep_trace", count=c.pick(1000, 30000), secs=c.pick(5, 60), maxlines=2000, maxtrace=8000, flags=fl, tag=tag, seed_off=11 + k)
        c.histories("c03_wait", "C03_wait_trace", count=c.pick(3000 if k == 0 else 1200, 100000), secs=c.pick(6 if k == 0 else 3, 60), maxlines=c.pick(3000, 40000), maxtrace=c.pick(5000, 80000), flags=fl, tag=tag, seed_off=21 + k)
