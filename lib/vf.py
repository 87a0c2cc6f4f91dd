"""Shared machinery of the checks: building /repo's sources with instrumentation, running
harness shards, classifying what the monitors reported, writing evidence."""
import os, sys, re, json, time, hashlib, subprocess, glob, shutil, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
HARN = os.path.join(VERIF, "harness")
CXX = "g++"
NCPU = max(2, min(8, os.cpu_count() or 2))

COMMON = ["-std=gnu++14", "-g1", "-fno-omit-frame-pointer", "-include", "cstdint", "-w", "-pthread"]
VARIANTS = {
    # address + undefined behaviour; 'alignment' is left out because DataStream accesses
    # unaligned integers on purpose, 'vptr' because it needs RTTI of incomplete objects, 'null' and
    # 'nonnull-attribute' because '&*v.begin()' of an empty vector with length 0 is harmless
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,null,nonnull-attribute",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2"],
    # same as plain, but every std::atomic operation may be delayed / weak CAS may fail spuriously
    "perturb": ["-O2", "-DVF_PERTURB", "-include", os.path.join(HARN, "perturb.h")],
    # ASan build with perturbed atomics
    "pasan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,null,nonnull-attribute",
              "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-DVF_PERTURB", "-include", os.path.join(HARN, "perturb.h")],
    # TSan build with perturbed atomics
    "ptsan": ["-O1", "-fsanitize=thread", "-DVF_PERTURB", "-include", os.path.join(HARN, "perturb.h")],
}
# the same with queue blocks of SMALL_BLOCK elements, so that blocks are recycled all the time
SMALL_BLOCK = 8
for _v in ("plain", "perturb", "tsan", "pasan"):
    VARIANTS["sb" + _v] = VARIANTS[_v] + ["-DVF_BLOCK=%d" % SMALL_BLOCK]
# what to use when the sources do not compile with the instrumentation
FALLBACK = {"perturb": "plain", "pasan": "asan", "ptsan": "tsan", "sbplain": "plain", "sbperturb": "perturb", "sbtsan": "tsan", "sbpasan": "pasan"}
LIBS = ["-luv", "-lssl", "-lcrypto", "-lpthread", "-ldl"]
WRAPS = ["send", "recv", "connect", "accept", "accept4", "close", "socket", "eventfd"]

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=0:max_allocation_size_mb=3000:handle_abort=1:handle_segv=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=87:second_deadlock_stack=1:history_size=4:"
                    "report_signal_unsafe=0:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp"),
}


class CheckError(Exception):
    """The machinery itself failed: an error exit, never a verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _cmake_defaults():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    d = {}
    for m in re.finditer(r'option\(\s*(SALTICIDAE_\w+)\s+"[^"]*"\s+(ON|OFF)\s*\)', txt):
        d[m.group(1)] = m.group(2) == "ON"
    return d


def gen_config(incdir, overrides=None):
    d = _cmake_defaults()
    if overrides:
        d.update(overrides)
    out = []
    for line in open(os.path.join(REPO, "src", "config.h.in")):
        m = re.match(r"#cmakedefine\s+(\w+)", line)
        if m:
            on = d.get(m.group(1), False)
            out.append(("#define %s\n" % m.group(1)) if on else ("/* #undef %s */\n" % m.group(1)))
        else:
            out.append(line)
    p = os.path.join(incdir, "salticidae")
    os.makedirs(p, exist_ok=True)
    f = os.path.join(p, "config.h")
    s = "".join(out)
    if not os.path.exists(f) or open(f).read() != s:
        open(f, "w").write(s)


def _tree_hash():
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/src/**/*", recursive=True) + glob.glob(REPO + "/include/**/*", recursive=True)
                + glob.glob(HARN + "/*")) + [REPO + "/CMakeLists.txt", os.path.join(VERIF, "lib", "vf.py")]
    for f in fs:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        _tree = _tree_hash()
    return _tree


def small_block_overlay(root):
    """a copy of queue.h with a smaller block size (unchanged if it has no such constant)"""
    d = os.path.join(root, "small", "salticidae")
    os.makedirs(d, exist_ok=True)
    txt = open(os.path.join(REPO, "include", "salticidae", "queue.h")).read()
    txt, n = re.subn(r"(\bMPMCQ_SIZE\s*(?:=|\{|\()\s*)\d+", r"\g<1>%d" % SMALL_BLOCK, txt)
    open(os.path.join(d, "queue.h"), "w").write(txt)
    return os.path.dirname(d), n == 1


def _run_compile(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def sources():
    """library sources: the ones CMakeLists.txt lists for the library, else every src/*.cpp"""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"add_library\(\s*salticidae\s+OBJECT(.*?)\)", txt, re.S)
    fs = re.findall(r"\S+\.cpp", m.group(1)) if m else []
    fs = [os.path.join(REPO, f) for f in fs]
    if not fs or not all(os.path.exists(f) for f in fs):
        fs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    return fs


def build_many(specs):
    """specs: list of (harness_source_name, variant). Compiles in parallel; returns {spec: binary}."""
    th = tree_hash()
    root = os.path.join(BUILD, th)
    if os.path.isdir(BUILD):
        old = sorted((d for d in os.listdir(BUILD) if d != th),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-1]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(root, exist_ok=True)
    inc = os.path.join(root, "include")
    gen_config(inc)
    iflags = ["-I" + inc, "-I" + os.path.join(inc, "salticidae"), "-I" + os.path.join(REPO, "include"), "-I" + HARN]
    jobs, links = {}, {}
    for (h, v) in specs:
        out = os.path.join(root, h.replace(".cpp", "") + "." + v)
        if os.path.exists(out):
            links[(h, v)] = (out, None)
            continue
        vflags = COMMON + VARIANTS[v] + iflags
        if v.startswith("sb"):
            ov, ok = small_block_overlay(root)
            vflags = COMMON + ([f for f in VARIANTS[v] if not f.startswith("-DVF_BLOCK")] + iflags if not ok
                               else VARIANTS[v] + ["-I" + ov] + iflags)
        objs = []
        for s in sources() + [os.path.join(HARN, h), os.path.join(HARN, "wraps.cpp")]:
            tag = ("lib_" if s.startswith(REPO + "/src") else "h_") + os.path.basename(s)
            o = os.path.join(root, tag + "." + v + ".o")
            objs.append(o)
            if not os.path.exists(o):
                fl = vflags
                if os.path.basename(s) == "wraps.cpp":
                    # the wrappers are part of the monitor: never perturbed
                    fl = [f for f in vflags if f != "-DVF_PERTURB"]
                    fl = [f for i, f in enumerate(fl)
                          if not (f.endswith("perturb.h") or (f == "-include" and fl[i + 1].endswith("perturb.h")))]
                jobs[o] = [CXX] + fl + ["-c", s, "-o", o + ".tmp%d" % os.getpid()]
        ld = [CXX] + COMMON + [f for f in VARIANTS[v] if f.startswith("-fsan") or f.startswith("-fno-san")]
        ld += objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)] + LIBS
        links[(h, v)] = (out, ld)
    t0 = time.time()
    # heavier translation units first
    order = sorted(jobs, key=lambda o: (0 if ("h_" in os.path.basename(o) or "network" in o or "conn" in o) else 1))
    with ThreadPoolExecutor(NCPU) as ex:
        unfit = {}
        for o, (rc, txt) in zip(order, ex.map(lambda o: _run_compile(jobs[o]), order)):
            if rc != 0:
                v = o.split(".")[-2]
                if v in FALLBACK:   # the code does not fit the instrumentation (e.g. other atomic operations)
                    unfit.setdefault(v, txt)
                    continue
                raise CheckError("compilation failed: %s\n%s" % (" ".join(jobs[o]), txt[-4000:]))
            os.replace(o + ".tmp%d" % os.getpid(), o)
        def do_link(k):
            out, ld = links[k]
            if ld is None or k[1] in unfit:
                return 0, ""
            tmp = out + ".tmp%d" % os.getpid()
            rc, txt = _run_compile(ld + ["-o", tmp])
            if rc == 0:
                os.replace(tmp, out)
            return rc, txt
        for k, (rc, txt) in zip(links, ex.map(do_link, links)):
            if rc != 0:
                raise CheckError("link failed: %s\n%s" % (k, txt[-4000:]))
    if jobs:
        log("[build] %d objects, %d programs in %.1fs" % (len(jobs), len(links), time.time() - t0))
    res = {k: links[k][0] for k in links if k[1] not in unfit}
    left = [k for k in links if k[1] in unfit]
    if left:
        for v in unfit:
            log("[build] variant %s does not compile, using %s: %s" % (v, FALLBACK[v], unfit[v][-300:]))
        base = build_many(sorted({(h, FALLBACK[v]) for h, v in left}))
        for h, v in left:
            res[(h, v)] = base[(h, FALLBACK[v])]
    return res


# ---------------------------------------------------------------- running shards

class Shard:
    """One process: a harness binary with arguments. 'mode' names the workload."""
    def __init__(self, harness, variant, mode, n, seed_off=0, timeout=120, weight=1, extra=()):
        self.harness, self.variant, self.mode, self.n = harness, variant, mode, n
        self.seed_off, self.timeout, self.weight, self.extra = seed_off, timeout, weight, list(extra)


class Outcome:
    def __init__(self):
        self.viols = []      # (key, detail, replaypath)
        self.stats = {}
        self.sigs = set()
        self.samples = []
        self.notes = []
        self.evaluations = 0


def _frames(txt, n=3):
    """function names of the topmost frames that belong to the library or the harness"""
    fr = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):\d+", txt):
        fn, path = m.group(1), m.group(2)
        if "/salticidae/" in path or path.startswith(REPO):
            fn = re.sub(r"\(.*", "", re.sub(r"<.*", "", fn))
            fr.append(fn.split("::")[-1])
            if len(fr) >= n:
                break
    return fr


def classify(rc, out, err):
    """maps the way a process ended to violation keys; [] = clean, None = harness failure"""
    ks = []
    txt = out + "\n" + err
    if "ThreadSanitizer" in err:
        for blk in re.split(r"={18}", err):
            m = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]+)", blk)
            if m:
                ks.append(("tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), "/".join(_frames(blk, 4))), blk[:6000]))
        if ks:
            return ks
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m and m.group(1) != "ABRT":
        return [("asan:%s:%s" % (m.group(1), "/".join(_frames(err[m.start():]))), err[m.start():m.start() + 8000])]
    m = re.search(r"(\S+?:\d+:\d+): runtime error: (.*)", err)
    if m:
        return [("ubsan:%s:%s" % (re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(2))[:80], "/".join(_frames(err[m.start():]))),
                 err[m.start():m.start() + 6000])]
    m = re.search(r"(\S+): Assertion `(.*)' failed", err)
    if m:
        return [("assert:" + m.group(2)[:120], err[-6000:])]
    m = re.search(r"terminate called.*(?:\n.*what\(\):.*)?", err)
    if m:
        return [("terminate:" + m.group(0).replace("\n", " ")[:160], err[-6000:])]
    m = re.search(r"ERROR: AddressSanitizer: ABRT", err)
    if m:
        return [("abort:" + "/".join(_frames(err[m.start():])), err[-6000:])]
    if rc is not None and rc < 0:
        return [("signal:%d" % -rc, err[-6000:])]
    return []


def run_proc(binp, args, timeout, env, live=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env)
    p = subprocess.Popen([binp] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                         cwd=env.get("VF_SCRATCH", "/tmp"), start_new_session=True)
    if live is not None:
        live.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = None
    if live is not None:
        live.discard(p)
    return rc, out.decode("utf8", "replace"), err.decode("utf8", "replace")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.out = Outcome()
        self.lock = threading.Lock()
        self.t0 = time.time()
        self.nshards = 0
        self.inconclusive = 0
        self.execs = []
        self.live = set()
        self.decided = False     # a violation was found: the rest of the run is not needed
        self.scratch = os.path.join(BUILD, "scratch-%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)

    def _save_replay(self, key, cmd, seed, txt):
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s.txt" % (self.pid, hashlib.sha1((key + cmd).encode()).hexdigest()[:10]))
        with open(f, "w") as fh:
            fh.write("property: %s\nkey: %s\nreplay: %s\n(environment: VF_SCRATCH=<a scratch directory>, sanitizer options as in lib/vf.py)\n\n%s\n" % (self.pid, key, cmd, txt))
        return f

    def _one(self, sh, binp, attempt, idx):
        outf = os.path.join(self.scratch, "o%d_%d.jsonl" % (idx, attempt))
        scr = os.path.join(self.scratch, "s%d_%d" % (idx, attempt))
        os.makedirs(scr, exist_ok=True)
        seed = self.seed * 1000003 + sh.seed_off
        args = ["--mode", sh.mode, "--seed", str(seed), "--n", str(sh.n), "--out", outf, "--tier", self.tier,
                "--attempt", str(attempt)] + sh.extra
        rc, out, err = run_proc(binp, args, sh.timeout, {"VF_SCRATCH": scr, "VERIF_SEED": str(seed),
                                                     "VF_PORTBASE": str(10000 + (idx % 50) * 400)}, self.live)
        recs = []
        if os.path.exists(outf):
            for l in open(outf, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        shutil.rmtree(scr, ignore_errors=True)
        return rc, out, err, recs, " ".join([binp] + args)

    def _shard(self, sh, binp, idx):
        stalls = []
        for attempt in range(3):
            if self.decided:
                return
            rc, out, err, recs, cmd = self._one(sh, binp, attempt, idx)
            if self.decided:
                return   # it may have been killed
            viols = [(r["key"], r.get("detail", "")) for r in recs if r.get("t") == "viol"]
            fin = [r for r in recs if r.get("t") == "end"]
            stall = [r for r in recs if r.get("t") == "stall"]
            ks = classify(rc, out, err) if not (stall and rc == 77) else []
            with self.lock:
                for r in recs:
                    if r.get("t") == "stat":
                        self.out.stats[r["k"]] = self.out.stats.get(r["k"], 0) + r["v"]
                    elif r.get("t") == "max":
                        self.out.stats[r["k"]] = max(self.out.stats.get(r["k"], 0), r["v"])
                    elif r.get("t") == "sig":
                        self.out.sigs.update(r["v"])
                    elif r.get("t") == "eval":
                        self.out.evaluations += r["v"]
                    elif r.get("t") == "sample" and len(self.out.samples) < 12:
                        self.out.samples.append(r["v"])
                self.nshards += 1
                seen = set()
                for k, det in ks + viols:
                    if k in seen:
                        continue
                    seen.add(k)
                    rp = self._save_replay(k, cmd, sh, det + "\n--- stderr tail\n" + err[-3000:])
                    self.out.viols.append((k, det, rp))
            if ks or viols:
                self._decide()
                return
            if fin and rc == 0:
                if attempt and stalls:
                    # stalled before, passed now: inconclusive about the stall, keep a note
                    with self.lock:
                        self.inconclusive += 1
                        self.out.notes.append("stall not reproduced: " + stalls[0])
                return
            if stall or rc is None:
                desc = stall[0].get("detail", "") if stall else "shard timeout after %ss" % sh.timeout
                key = stall[0].get("key", "stall") if stall else "stall:shard-timeout"
                log("[%s] no progress in %s/%s (attempt %d): %s" % (self.pid, sh.variant, sh.mode, attempt, desc[:300]))
                stalls.append(desc)
                # no progress although the process was scheduled promptly and idle: final; otherwise it has to repeat
                if len(stalls) >= 2 or (stall and stall[0].get("quiet")):
                    with self.lock:
                        rp = self._save_replay(key, cmd, sh, "\n".join(stalls) + "\n--- stderr tail\n" + err[-3000:])
                        self.out.viols.append((key, desc, rp))
                    self._decide()
                    return
                continue
            raise CheckError("harness ended with rc=%s without a result: %s\nstdout: %s\nstderr: %s" %
                             (rc, cmd, out[-2000:], err[-3000:]))

    def _decide(self):
        # keep going on known findings, otherwise end the run
        known = self.known()
        if all(any(re.fullmatch(kk[0], k) for kk in known) for k, _, _ in self.out.viols):
            return
        self.decided = True
        for p in list(self.live):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass

    def run(self, shards, par=None):
        if self.decided:
            return
        bins = build_many(sorted(set((s.harness, s.variant) for s in shards)))
        par = par or NCPU
        sem = threading.Semaphore(par)
        errs = []
        # acquire in order from one thread at a time, so weights cannot deadlock
        ths = []
        gate = threading.Lock()
        def start(i, s):
            with gate:
                for _ in range(min(s.weight, par)):
                    sem.acquire()
            def body():
                try:
                    self._shard(s, bins[(s.harness, s.variant)], i)
                except Exception as ex:
                    errs.append(ex)
                finally:
                    for _ in range(min(s.weight, par)):
                        sem.release()
            t = threading.Thread(target=body)
            t.start()
            ths.append(t)
        for i, s in enumerate(shards):
            if self.decided:
                break
            start(i, s)
        for t in ths:
            t.join()
        if errs and not self.out.viols:
            raise errs[0]

    def known(self):
        f = os.path.join(VERIF, "known_findings.txt")
        ks = []
        if os.path.exists(f):
            for l in open(f):
                m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
                if m and m.group(1) == self.pid:
                    ks.append((m.group(2), m.group(3).strip()))
        return ks

    def finish(self, level, rule, technique_note="", assumptions=None, min_eval=1, required=()):
        shutil.rmtree(self.scratch, ignore_errors=True)
        o = self.out
        known = self.known()
        new, old = [], {}
        for k, d, rp in o.viols:
            hit = [kk for kk in known if re.fullmatch(kk[0], k)]
            if hit:
                old.setdefault(hit[0], []).append((k, d, rp))
            else:
                new.append((k, d, rp))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": dict({
                "evaluations": o.evaluations, "distinct_nontrivial": len(o.sigs), "rule": rule,
                "samples": o.samples, "processes_run": self.nshards,
                "stalls_not_reproduced": self.inconclusive,
            }, **{("observed_" + k): v for k, v in sorted(o.stats.items())}),
            "assumptions": assumptions or [], "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        if o.notes:
            ev["coverage"]["notes"] = o.notes[:10]
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kk in sorted(old):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, kk[1]))
        if new:
            seen = set()
            for k, d, rp in new:
                if k in seen:
                    continue
                seen.add(k)
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
                print("  key=%s" % k)
                print("  " + d[:1500].replace("\n", "\n  "))
                if len(seen) >= 5:
                    break
            return 1
        # a run in which the monitors saw (almost) nothing is not a pass
        if o.evaluations < min_eval:
            raise CheckError("only %d evaluations (expected at least %d)" % (o.evaluations, min_eval))
        for k in required:
            if not o.stats.get(k):
                raise CheckError("monitor observed no '%s' events" % k)
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.pid, o.evaluations, len(o.sigs), time.time() - self.t0))
        return 0
