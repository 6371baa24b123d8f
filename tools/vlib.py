"""Shared machinery of the checks: building harnesses from /repo's working tree,
running them under the controlled runtime, validating what they recorded with
TLC, model checking specifications, and writing evidence."""
import hashlib, json, os, re, subprocess, sys, time, shutil, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
SPECS = os.path.join(VERIF, "specs")
HARN = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()


class CheckError(Exception):
    """The check itself could not do its work (no verdict)."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def tree_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p[len(d):].encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


_inc_hash = None


def inc_hash():
    global _inc_hash
    if _inc_hash is None:
        _inc_hash = tree_hash(INC)
    return _inc_hash


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)


def build_rt():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(VERIF, "rt", f) for f in ("vprt.cpp", "vprt.h")]
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()[:16]
    d = os.path.join(BUILD, "rt_" + h)
    out = os.path.join(d, "libvprt.so")
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        r = sh(["g++", "-O2", "-g", "-fPIC", "-shared", "-std=c++17", "-fvisibility=hidden", "-fno-builtin", "-w",
                "-Wl,-Bsymbolic-functions", src[0], "-o", tmp, "-ldl", "-pthread"])
        if r.returncode:
            raise CheckError("runtime does not build: " + r.stderr.decode()[-2000:])
        os.rename(tmp, out)
    return d


def _src_hash(src):
    """hash of the harness and the local headers it includes"""
    seen, todo, h = set(), [src], hashlib.sha256()
    while todo:
        p = todo.pop()
        if p in seen or not os.path.exists(p):
            continue
        seen.add(p)
        t = open(p, "rb").read()
        h.update(t)
        for m in re.findall(rb'#include "([^"]+)"', t):
            todo.append(os.path.normpath(os.path.join(os.path.dirname(p), m.decode())))
    return h.hexdigest()


def build(name, vp=True, flags=(), src=None, tag="", std="c++17", opt="-O1", libs=()):
    """Compile harness/<name>.cpp against the working tree of /repo."""
    src = src or os.path.join(HARN, name + ".cpp")
    base = ["g++", "-std=" + std, opt, "-g1" if vp else "-g0", "-pthread", "-w"] + list(flags)
    if vp:
        base += ["-fsanitize=thread", "-Wno-tsan"]
    rtk = build_rt() if vp else ""
    key = hashlib.sha256((inc_hash() + _src_hash(src) + " ".join(base) + REPO + rtk).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "h_" + key)
    exe = os.path.join(d, name + tag)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    r = sh(base + ["-I" + INC, "-c", src, "-o", tmp + ".o"], timeout=600)
    if r.returncode:
        raise CheckError("harness %s does not build:\n%s" % (name, r.stderr.decode()[-4000:]))
    if vp:
        rt = rtk
        ld = ["g++", "-pthread", tmp + ".o", "-o", tmp, "-L" + rt, "-lvprt", "-Wl,-rpath," + rt]
    else:
        ld = ["g++", "-pthread"] + [f for f in flags if f.startswith(("-fsanitize", "-fopenmp"))] + [tmp + ".o", "-o", tmp] + [f for f in flags if f.startswith("-l")]
    r = sh(ld + list(libs) + ["-ldl"], timeout=300)
    if r.returncode:
        raise CheckError("harness %s does not link:\n%s" % (name, r.stderr.decode()[-4000:]))
    os.remove(tmp + ".o")
    os.rename(tmp, exe)
    return exe


def build_all(specs):
    """specs: list of (args, kwargs) for build; compiled in parallel"""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(build, *a, **k) for a, k in specs]
        return [f.result() for f in fs]


class Tmp:
    """scratch directory under .build, removed at the end"""

    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="run_", dir=BUILD)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def run_vp(exe, outdir, seed, count, secs, maxlines, first=0, args_env=None, procs=NCPU, tag="h"):
    """Run a controlled-runtime harness in `procs` processes.  Returns (files, stats)."""
    ps = []
    for k in range(procs):
        out = os.path.join(outdir, "%s_%d.ndjson" % (tag, k))
        env = dict(os.environ)
        env.pop("VP_REEXEC", None)
        if args_env:
            env.update(args_env)
        p = subprocess.Popen([exe, str(seed * 1000 + k), str(first), str(count), out, str(secs), str(maxlines), str(k % (os.cpu_count() or 1))],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
        ps.append((p, out, seed * 1000 + k))
    tot = {}
    files = []
    for p, out, s in ps:
        _, err = p.communicate()
        if p.returncode:
            raise CheckError("harness %s failed (%d): %s" % (exe, p.returncode, err.decode(errors="replace")[-1500:]))
        st = json.loads(err.decode(errors="replace").strip().splitlines()[-1])
        for a, b in st.items():
            tot[a] = tot.get(a, 0) + b if a != "secs" else max(tot.get(a, 0), b)
        files.append((out, s))
    return files, tot


_rej = re.compile(r'^<<"REJECT"')


def tlc(module, cfg=None, env=None, workers=1, heap="3g", extra=(), metadir=None, timeout=800, simulate=None):
    """Run TLC; returns a dict with states, distinct, rejects, prints, error text."""
    md = metadir or tempfile.mkdtemp(prefix="tlc_", dir=BUILD)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:CICompilerCount=2" if workers == 1 else "-Xshare:auto",
           "-Dtlc2.TLC.stopAfter=700", "-cp", TLA, "tlc2.TLC",
           "-workers", str(workers), "-nowarning", "-noGenerateSpecTE", "-metadir", md, "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=SPECS, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    o = r.stdout.decode(errors="replace")
    res = {"rc": r.returncode, "out": o, "rejects": [], "prints": [], "states": 0, "distinct": 0, "ok": False, "actions": {}}
    for line in o.splitlines():
        if line.startswith("<<"):
            if _rej.match(line):
                res["rejects"].append(line)
            else:
                res["prints"].append(line)
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line.replace(",", "", 0))
        m = m or re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
        if m:
            res["states"] = int(m.group(1).replace(",", ""))
            res["distinct"] = int(m.group(2).replace(",", ""))
        m = re.match(r"^<(\w+) line .*>: (\d+):(\d+)", line)
        if m:
            a = res["actions"].setdefault(m.group(1), [0, 0])
            a[0] += int(m.group(2)); a[1] += int(m.group(3))
    res["ok"] = "Model checking completed. No error has been found." in o
    return res


def split_files(files, outdir, parts, maxlines=None, tag="part"):
    """Distribute lines of the given (file, seed) list over `parts` files, dropping
    duplicate histories; returns [(path, [(seed, meta)...])]."""
    outs = [open(os.path.join(outdir, "%s_%d.ndjson" % (tag, i)), "w") for i in range(parts)]
    idx = [[] for _ in range(parts)]
    seen = set(); n = 0; bad = []
    lines = []
    for path, seed in files:
        with open(path) as fh:
            for ln in fh:
                if not ln.endswith("}\n"):
                    continue
                k = ln.index('"st":')
                h = hash(ln[k:])
                if h in seen:
                    continue
                seen.add(h)
                lines.append((seed, ln))
    if maxlines and len(lines) > maxlines:
        # keep abnormal ones, thin out the rest evenly
        ab = [x for x in lines if '"st":0' not in x[1][:80] or '"sus":1' in x[1][:100]]
        ok = [x for x in lines if '"st":0' in x[1][:80] and '"sus":1' not in x[1][:100]]
        step = len(ok) / float(maxlines)
        lines = ab + [ok[int(i * step)] for i in range(maxlines)]
    for i, (seed, ln) in enumerate(lines):
        j = i % parts
        outs[j].write(ln)
        idx[j].append(seed)
    for o in outs:
        o.close()
    return [(outs[i].name, idx[i]) for i in range(parts) if idx[i]], len(lines)


def validate(module, parts, cfg=None, heap="3g", env=None, timeout=800, expect_states=None):
    """Validate trace files with TLC, one process per file.  Returns
    (rejects, states): rejects are dicts with file, line number, event position."""
    def one(part):
        path, seeds = part
        e = {"TRACE": path}
        if env:
            e.update(env)
        r = tlc(module, cfg=cfg, env=e, heap=heap, timeout=timeout)
        rej = []
        if not r["ok"]:
            # a record on which the specification's definition has no value is rejected
            m = re.search(r"recno = (\d+)", r["out"])
            if m and "valuat" in r["out"]:
                rej.append({"file": path, "line": int(m.group(1)), "pos": 0, "why": "specification undefined on this record: " +
                            (re.search(r"Error: (.*)", r["out"]) or [0, ""])[1]})
                r["rejects"] = [x for x in r["rejects"] if ("REJECT\", %s," % m.group(1)) not in x]
            else:
                raise CheckError("TLC failed on %s (%s):\n%s" % (module, path, r["out"][-3000:]))
        for x in r["rejects"]:
            m = re.match(r'<<"REJECT", (\d+), (\d+), "([^"]*)"(.*)>>', x)
            if not m:
                raise CheckError("cannot parse " + x)
            rej.append({"file": path, "line": int(m.group(1)), "pos": int(m.group(2)), "why": m.group(3) + m.group(4)})
        return rej, r["distinct"], r["states"]
    rejects, distinct, states = [], 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (rj, d, s), part in zip(ex.map(one, parts), parts):
            seeds = part[1]
            for x in rj:
                x["seed"] = seeds[x["line"] - 1]
            rejects += rj
            distinct += d
            states += s
    return rejects, distinct, states


def nth_line(path, n):
    with open(path) as fh:
        for i, ln in enumerate(fh, 1):
            if i == n:
                return ln
    return None


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == pid and f.get("status") == "open"]


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.known = {}
        self.part = {}
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(BUILD, exist_ok=True)
        for f in os.listdir(EVID):
            if f.startswith("replay_%s_" % pid):
                os.remove(os.path.join(EVID, f))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    # ---- model checking of a specification
    def model(self, module, cfg=None, workers=NCPU, heap="8g", timeout=800, must_cover=(), env=None, extra=()):
        r = tlc(module, cfg=cfg, workers=workers, heap=heap, timeout=timeout, env=env, extra=["-coverage", "1"] + list(extra))
        name = (cfg or module).replace(".cfg", "")
        if not r["ok"]:
            raise CheckError("model checking of %s failed:\n%s" % (name, r["out"][-4000:]))
        miss = [a for a in must_cover if r["actions"].get(a, [0, 0])[1] == 0]
        if miss:
            raise CheckError("model %s: actions never taken: %s" % (name, miss))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        self.part.setdefault("models", []).append({"model": name, "distinct_states": r["distinct"], "states_generated": r["states"],
                                                   "actions_taken": {a: v[1] for a, v in r["actions"].items() if v[1]}})
        log("model %s: %d distinct states" % (name, r["distinct"]))
        return r

    def model_breaks(self, module, cfg, workers=NCPU, heap="6g", timeout=400):
        """the same model with a step of the algorithm left out: TLC must find that it breaks (the model can tell)"""
        r = tlc(module, cfg=cfg, workers=workers, heap=heap, timeout=timeout)
        if r["ok"] or not re.search("(is|was|were) violated", r["out"]):
            raise CheckError("model %s was to break and did not:\n%s" % (cfg, r["out"][-2000:]))
        self.part.setdefault("broken_variants", []).append(cfg.replace(".cfg", ""))

    # ---- histories recorded under the controlled runtime
    def prebuild(self, jobs, vp=True):
        """jobs: [(harness, flags, tag)]: compiled in parallel, so that what follows finds them built"""
        build_all([((h,), dict(vp=vp, flags=f, tag=t)) for h, f, t in jobs])

    def histories(self, harness, module, count, secs, maxlines, flags=(), tag="", maxtrace=None, env=None, cfg=None, std="c++17", vpenv=None,
                  exe=None, seed_off=0, known=None, internal=False):
        """internal: the harness uses an interface that is not the library's public one; it is left out when that is no longer there"""
        try:
            exe = exe or build(harness, flags=flags, tag=tag, std=std)
        except CheckError as x:
            if not internal:
                raise
            log("left out: %s (%s)" % (harness + tag, str(x)[-300:]))
            self.part.setdefault("left_out", []).append(harness + tag)
            return None
        with Tmp() as d:
            files, st = run_vp(exe, d, self.seed * 37 + seed_off, count, secs, maxlines, args_env=vpenv)
            parts, n = split_files(files, d, NCPU, maxlines=maxtrace)
            log("%s%s: %d executions, %d distinct histories, %d validated; %d steps, %d context switches" %
                (harness, tag, st["execs"], st["distinct"], n, st["steps"], st["switches"]))
            if st["execs"] == 0:
                raise CheckError("no execution of " + harness)
            rej, distinct, states = validate(module, parts, cfg=cfg, env=env)
            ns = 0
            if parts:
                ln = nth_line(parts[0][0], 1)
                if len(self.cov["samples"]) < 6:
                    self.cov["samples"].append({"harness": harness + tag, "history": json.loads(ln) if len(ln) < 4000 else ln[:4000]})
            if not rej:
                for path, _ in parts:
                    with open(path) as fh:
                        for ln in fh:
                            ns += len(json.loads(ln)["e"]) + 1
                if ns != distinct:
                    raise CheckError("%s: TLC visited %d states instead of %d" % (module, distinct, ns))
            self.cov["states"] += distinct
            self.cov["transitions"] += states
            self.cov["traces_validated_against_impl"] += n
            self.part.setdefault("harnesses", []).append(dict(harness=harness + tag, spec=module, executions=st["execs"], distinct_histories=st["distinct"],
                                                              validated=n, events=st["events"], sched_steps=st["steps"], context_switches=st["switches"], rejected=len(rej)))
            for x in rej[:40]:
                ln = nth_line(x["file"], x["line"])
                rec = json.loads(ln)
                # repeat: same seed, same batch, up to the same execution
                out = os.path.join(d, "again.ndjson")
                e = dict(os.environ); e.pop("VP_REEXEC", None)
                if vpenv:
                    e.update(vpenv)
                r = subprocess.run([exe, str(x["seed"]), str(rec["b"]), str(rec["x"] - rec["b"] + 1), out, "300", "1000000"],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e)
                again = None
                if os.path.exists(out):
                    for l2 in open(out):
                        if '"x":%d,' % rec["x"] in l2[:40]:
                            again = l2
                if again is None or again[again.index('"st":'):] != ln[ln.index('"st":'):]:
                    log("not repeated, ignored: seed %s execution %s (%s)" % (x["seed"], rec["x"], x["why"]), ("\n" + ln + str(again) + r.stderr.decode()[-300:]) if os.environ.get("VP_SHOW") else "")
                    continue
                self.violation({"kind": "history", "harness": harness, "flags": list(flags), "std": std, "seed": x["seed"], "batch": rec["b"], "execution": rec["x"],
                                "spec": module, "position": x["pos"], "why": x["why"], "status": rec["st"], "env": vpenv or {}, "history": rec}, known)
                if len(self.viol) >= 3:
                    break
        return st

    # ---- calls recorded from the real code, judged by a specification
    def bigflags(self, group):
        return ("-DFN_BLOCK=2", "-DGRP=%d" % group)

    def big(self, group, quick=24, thorough=400, flags=(), tag="", opt="-O2"):
        """calls on millions of elements, in closed form (specs/Big.tla)"""
        self.records([dict(harness="big", flags=self.bigflags(group) + tuple(flags), tag="_%d%s" % (group, tag), count=self.pick(quick, thorough),
                           secs=self.pick(10, 120), opt=opt)], "Big_fn", cfg="fn.cfg")

    def records(self, jobs, module, cfg=None, heap="4g", maxbytes=60_000_000, known=None, env=None):
        """jobs: list of dicts(harness, flags, tag, count, secs, first, env, std, opt)"""
        for j in jobs:
            j.setdefault("flags", ()); j.setdefault("tag", ""); j.setdefault("first", 0); j.setdefault("env", {})
        exes = build_all([((j["harness"],), dict(vp=False, flags=j["flags"], tag=j["tag"], std=j.get("std", "c++17"), opt=j.get("opt", "-O1"))) for j in jobs])
        log("built")
        np = max(2, NCPU // len(jobs))
        with Tmp() as d:
            ps = []
            for a, (j, exe) in enumerate(zip(jobs, exes)):
                for k in range(np):
                    out = os.path.join(d, "j%d_%d.ndjson" % (a, k))
                    e = dict(os.environ); e.update(j["env"])
                    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=55:allocator_may_return_null=1:detect_stack_use_after_return=0")
                    cmd = [exe, str(self.seed * 37 + a), str(j["first"]), str(j["count"]), out, str(j["secs"]), str(k), str(np)]
                    ps.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=d), out, a, cmd))
            stat = [dict(cases=0, crashes=0, ignored=0) for _ in jobs]
            errs = {}
            for p, out, a, cmd in ps:
                _, err = p.communicate()
                err = err.decode(errors="replace")
                if p.returncode:
                    raise CheckError("harness %s failed (%d): %s" % (cmd, p.returncode, err[-1500:]))
                st = [x for x in err.splitlines() if x.startswith('{"cases"')]
                if not st:
                    raise CheckError("harness %s reported nothing: %s" % (cmd, err[-1500:]))
                st = json.loads(st[-1])
                for x in stat[a]:
                    stat[a][x] += st[x]
                errs[(a, out)] = err[-6000:]
            lines, seen, names = [], set(), {}
            nbytes = 0
            for p, out, a, cmd in ps:
                with open(out) as fh:
                    for ln in fh:
                        if not ln.endswith("}\n"):
                            continue
                        h = hash(ln[ln.index('"st":'):])
                        if h in seen:
                            continue
                        seen.add(h)
                        lines.append((ln, a, out))
                        f = ln[ln.index('"f":"') + 5:]
                        f = f[:f.index('"')]
                        names[f] = names.get(f, 0) + 1
                        nbytes += len(ln)
            if nbytes > maxbytes:      # thin out the big ones, deterministically
                big = sorted(range(len(lines)), key=lambda i: (len(lines[i][0]), i))
                keep, tot = [], 0
                nsmall = 0
                for i in big:
                    if len(lines[i][0]) > 3000 or tot > maxbytes // 2:
                        break
                    keep.append(i); tot += len(lines[i][0]); nsmall += 1
                rest = [i for i in big[nsmall:]]
                frac = (maxbytes - tot) / float(max(1, sum(len(lines[i][0]) for i in rest)))
                acc = 0.0
                for i in sorted(rest):
                    acc += frac
                    if acc >= 1 or '"st":0' not in lines[i][0][:60]:
                        acc -= 1 if acc >= 1 else 0
                        keep.append(i)
                lines = [lines[i] for i in sorted(keep)]
            # balance over the validators by size
            order = sorted(range(len(lines)), key=lambda i: -len(lines[i][0]))
            loads = [(0, q) for q in range(NCPU)]
            import heapq
            heapq.heapify(loads)
            parts = [[] for _ in range(NCPU)]
            for i in order:
                w, q = heapq.heappop(loads)
                parts[q].append(lines[i])
                heapq.heappush(loads, (w + len(lines[i][0]) + 100, q))
            files = []
            for q in range(NCPU):
                if parts[q]:
                    f = os.path.join(d, "part_%d.ndjson" % q)
                    with open(f, "w") as fh:
                        fh.writelines(x[0] for x in parts[q])
                    files.append((f, parts[q]))
            n = sum(len(x) for x in parts)
            log("%s: %s cases, %d distinct calls recorded, %d validated (%.1f MB), crashes %d" %
                ("+".join(j["harness"] + j["tag"] for j in jobs), sum(s["cases"] for s in stat), len(seen), n, min(nbytes, maxbytes) / 1e6, sum(s["crashes"] for s in stat)))
            if n == 0:
                raise CheckError("nothing recorded")
            rej, distinct, states = validate(module, [(f, [0] * len(x)) for f, x in files], cfg=cfg, env=env, heap=heap)
            if not rej and distinct != n:
                raise CheckError("%s: TLC visited %d states instead of %d" % (module, distinct, n))
            log("validated: %d rejected" % len(rej))
            for x in parts[0][-2:]:
                if len(self.cov["samples"]) < 6:
                    self.cov["samples"].append(x[0][:1500])
            self.cov["states"] += distinct
            self.cov["transitions"] += states
            self.cov["traces_validated_against_impl"] += n
            cs = self.part.setdefault("calls", [])
            cs.append({"spec": module, "jobs": [dict(harness=j["harness"], flags=list(j["flags"]), **s) for j, s in zip(jobs, stat)], "recorded": len(seen), "validated": n,
                       "per_function": names, "rejected": len(rej)})
            byfile = dict(files)
            for x in rej[:60]:
                ln, a, out = byfile[x["file"]][x["line"] - 1]
                rec = json.loads(ln)
                if os.environ.get("VP_SHOW"):
                    print(x["why"], ln[:700])
                j = jobs[a]
                info = {"kind": "call", "harness": j["harness"], "flags": list(j["flags"]), "seed": self.seed * 37 + a, "case": rec["c"], "spec": module, "why": x["why"],
                        "key": rec["f"], "call": rec if len(ln) < 400000 else ln[:400000]}
                if rec["st"]:
                    info["stderr"] = errs.get((a, out), "")
                self.violation(info, known)
                if len(self.viol) >= 5:
                    break

    def violation(self, info, known=None):
        """known: function(info, finding) -> bool"""
        for f in known_findings(self.pid):
            if (known and known(info, f)) or (info.get("key") and info["key"] == f.get("key")):
                self.known[f["id"]] = f
                return
        n = len(self.viol)
        p = os.path.join(EVID, "replay_%s_%d.json" % (self.pid, n))
        info["property"] = self.pid
        json.dump(info, open(p, "w"), indent=1)
        self.viol.append(p)

    def finish(self):
        cov = dict(self.cov)
        cov.update(self.part)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        for f in self.known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]), flush=True)
        for p in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        log("done: %d violation(s)" % len(self.viol))
        return 1 if self.viol else 0
