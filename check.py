#!/usr/bin/env python3
"""Driver of the runtime monitors.

  check.py C07                 run the check of property C07
  check.py --replay FILE       run again what a VIOLATION line points to
  check.py --setup             check that the tools are there

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).

The monitors (mon/cNN.cpp) are compiled together with the library sources of
the current tree in several configurations, run, and what they report is put
together. Exit 0: held on everything explored. Exit 1 and a VIOLATION line: a
monitor saw the property broken. Exit 2: the check itself could not work.
"""
import array, concurrent.futures as cf, glob, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")          # for trying the checks on a scratch copy
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
GXX, CLANG, VALGRIND, LOCALEDEF = "/usr/bin/g++", "/usr/bin/clang++", "/usr/bin/valgrind", "/usr/bin/localedef"
MON = os.path.join(VERIF, "mon")
RUN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4",
}
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]

# name -> (compiler, flags). Every harness sees the library sources of the tree.
CONFIGS = {
    "asan":   (GXX, ["-O1", "-g", "-DDEBUG"] + SAN),
    "prod":   (GXX, ["-O2", "-g1", "-ftrivial-auto-var-init=pattern"]),
    "clang":  (CLANG, ["-O1", "-g", "-fsanitize=undefined,float-cast-overflow,local-bounds", "-fno-sanitize-recover=all"]),
    "tsan":   (GXX, ["-O1", "-g", "-fsanitize=thread"]),
    "count":  (GXX, ["-O1", "-g1", "-fsanitize-coverage=trace-pc"]),      # steps counted by C24
    "count-O0": (GXX, ["-O0", "-g1", "-fsanitize-coverage=trace-pc"]),
    "guided": (CLANG, ["-O1", "-g", "-DDEBUG", "-DGUIDED", "-D__SANITIZE_ADDRESS__", "-fsanitize=fuzzer-no-link,address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]),   # workload from libFuzzer
    "native": (GXX, ["-O3", "-march=native", "-ffp-contract=fast"]),      # fused multiply-add where the machine has it
    "gcc-c++20": (GXX, ["-O2", "-std=c++20"]),
    "clang-c++20": (CLANG, ["-O2", "-std=c++20"]),
    # further builds compared by C21
    "gcc-O0": (GXX, ["-O0", "-g", "-DDEBUG"]),
    "gcc-O3-debug": (GXX, ["-O3", "-DDEBUG", "-ftrivial-auto-var-init=zero"]),
    "gcc-Os": (GXX, ["-Os", "-ftrivial-auto-var-init=zero", "-funsigned-char"]),
    "gcc-O2-hardened": (GXX, ["-O2", "-D_FORTIFY_SOURCE=2", "-fstack-protector-strong", "-D_GLIBCXX_ASSERTIONS"]),
    "clang-O2": (CLANG, ["-O2", "-DNDEBUG"]),
    "clang-O0-debug": (CLANG, ["-O0", "-g", "-DDEBUG", "-ftrivial-auto-var-init=pattern"]),
    "memcheck": (GXX, ["-O1", "-g"]),
}
PLAN = {   # property -> tier -> [(config, shards)]
    "C14": {"quick": [("asan", 2), ("prod", 2), ("guided", 2)], "thorough": [("asan", 3), ("prod", 1), ("native", 1), ("guided", 3)]},
    "C19": {"quick": [("asan", 1), ("prod", 2), ("tsan", 2)], "thorough": [("asan", 2), ("prod", 2), ("tsan", 4)]},
    "C24": {"quick": [("count", 3), ("count-O0", 1)], "thorough": [("count", 5), ("count-O0", 3)]},
    "C25": {"quick": [("prod", 3), ("gcc-O0", 1)], "thorough": [("prod", 5), ("gcc-O0", 3)]},
    "C21": {"quick": [("asan", 1), ("prod", 1), ("clang", 1), ("gcc-O0", 1), ("gcc-O3-debug", 1), ("gcc-Os", 1), ("gcc-O2-hardened", 1), ("gcc-c++20", 1), ("clang-c++20", 1), ("clang-O2", 1), ("clang-O0-debug", 1), ("memcheck", 1)],
            "thorough": [("asan", 1), ("prod", 1), ("clang", 1), ("gcc-O0", 1), ("gcc-O3-debug", 1), ("gcc-Os", 1), ("gcc-O2-hardened", 1), ("gcc-c++20", 1), ("clang-c++20", 1), ("clang-O2", 1), ("clang-O0-debug", 1), ("memcheck", 1)]},
}
DEFAULT_PLAN = {"quick": [("asan", 3), ("prod", 3), ("native", 1), ("clang", 1)], "thorough": [("asan", 4), ("prod", 2), ("native", 1), ("clang", 1)]}
CUT = "cut"                                    # status of a run ended early because it had reported violations
TIMEOUT = {"quick": 600, "thorough": 3300}


class Broken(Exception):
    """The check could not do its work (exit 2)."""


def rules():
    with open(os.path.join(VERIF, "rules.json")) as f:
        return json.load(f)


def compile_one(pid, cfg, outdir):
    cxx, flags = CONFIGS[cfg]
    exe = os.path.join(outdir, cfg)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    if not srcs:
        raise Broken("no library sources in %s/src" % REPO)
    cmd = [cxx, "-std=c++17", "-w"] + flags + ["-I" + os.path.join(REPO, "src"), "-I" + MON, os.path.join(MON, pid.lower() + ".cpp")] + srcs + ["-o", exe, "-pthread"]
    if cfg == "guided":
        lib = subprocess.run([CLANG, "-print-runtime-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
        lib = [f for d in (lib, "/usr/lib/llvm-18/lib/clang/18/lib/linux") for f in glob.glob(d + "/libclang_rt.fuzzer_no_main*x86_64.a") + glob.glob(d + "/libclang_rt.fuzzer_no_main.a")]
        if not lib: raise Broken("libFuzzer's runtime library was not found")
        cmd.append(lib[0])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=outdir)
    if p.returncode != 0:
        raise Broken("compiling %s (%s) failed:\n%s" % (pid, cfg, p.stdout.decode(errors="replace")[-3000:]))
    return exe


class Run:
    """One harness process and what it reported."""
    def __init__(self, cfg, shard, rc, log, err, wall):
        self.cfg, self.shard, self.rc, self.err, self.wall = cfg, shard, rc, err, wall
        self.viols, self.counts, self.samples, self.violcount, self.result = [], {}, [], {}, None
        self.crash = self.hang = None
        self.done = None
        for line in log.split("\n"):
            f = line.split("\t")
            if f[0] == "VIOL" and len(f) >= 4: self.viols.append((f[1], f[2], f[3]))
            elif f[0] == "CRASH" and len(f) >= 3: self.crash = (f[1], f[2])
            elif f[0] == "HANG" and len(f) >= 3: self.hang, self.runaway = f[2], f[1] == "2"
            elif f[0] == "COUNT" and len(f) >= 3: self.counts[f[1]] = int(f[2])
            elif f[0] == "SAMPLE" and len(f) >= 2: self.samples.append(f[1])
            elif f[0] == "VIOLCOUNT" and len(f) >= 3: self.violcount[f[1]] = int(f[2])
            elif f[0] == "RESULT" and len(f) >= 2: self.result = f[1]
            elif f[0] == "DONE" and len(f) >= 3: self.done = (int(f[1]), int(f[2]))


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(exe, cfg, args, outdir, tag, timeout, prefix=()):
    log = os.path.join(outdir, tag + ".log"); errf = os.path.join(outdir, tag + ".err")
    for f in (log, errf):
        if os.path.exists(f): os.remove(f)
    env = dict(os.environ, LC_ALL="C", **RUN_ENV)
    t = time.time()
    with open(errf, "wb") as e:
        p = subprocess.Popen(list(prefix) + [exe, "--log=" + log] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e, env=env, cwd=outdir, preexec_fn=limits, start_new_session=True)
        while True:
            try:
                rc = p.wait(timeout=min(10, timeout)); break
            except subprocess.TimeoutExpired:
                # a changed tree can make every call slow: what was seen so far is enough
                late = time.time() - t
                if late > timeout / 4 and os.path.exists(log) and re.search(r"^VIOL\t", open(log, errors="replace").read(), re.M):
                    os.killpg(p.pid, 9); p.wait(); rc = CUT; break
                if late > timeout:
                    os.killpg(p.pid, 9); p.wait()
                    raise Broken("%s did not end within %d s" % (tag, timeout))
    text = open(log, errors="replace").read() if os.path.exists(log) else ""
    with open(errf, "rb") as e:
        e.seek(max(0, os.path.getsize(errf) - 200000)); err = e.read().decode(errors="replace")
    return rc, text, err, time.time() - t


SAN_RE = re.compile(r"(ERROR: AddressSanitizer: .*|runtime error: .*|WARNING: ThreadSanitizer: .*|SUMMARY: .*|terminate called .*|.*Assertion .* failed.*|ERROR SUMMARY: [1-9].*|Invalid (read|write) .*|.*uninitialised value.*)")


def diagnose(err):
    out = []
    for m in SAN_RE.finditer(err):
        s = m.group(0).strip()
        if s not in out: out.append(s)
        if len(out) >= 4: break
    return "; ".join(out) or err.strip()[-300:]


def violation_list(r):
    """(key, message, case) of one run; [] when it ended well."""
    v = list(r.viols)
    if r.crash:
        v.append(("crash:" + r.crash[1].split("(")[0], "the process died (signal %s) in %s: %s" % (r.crash[0], r.crash[1], diagnose(r.err)), r.crash[1]))
    elif r.hang:
        v.append(("hang:" + r.hang.split("(")[0], ("more than 60 million steps in one call of %s" if r.runaway else "no answer within 40 s of CPU time (or 70 s by the clock) in %s") % r.hang, r.hang))
    elif r.rc == CUT and v:
        pass
    elif r.rc not in (0, 1) or r.done is None:
        if r.rc == 9:
            raise Broken("the monitor refused to work: " + r.err[-500:])
        if r.rc == -9 and not SAN_RE.search(r.err):
            raise Broken("a monitor was killed (memory?)")
        v.append(("crash:process", "the process ended with status %d: %s" % (r.rc, diagnose(r.err)), ""))
    elif r.rc == 1 and not v:
        raise Broken("a monitor reported a violation without saying which")
    return v


def known_findings(pid):
    k = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid: k[m.group(2)] = m.group(3).strip()
    return k


def constants(outdir):
    """The numbers and strings the tree's sources mention, for the generators."""
    text = ""
    for f in sorted(glob.glob(os.path.join(REPO, "src", "*.[ch]pp"))):
        text += open(f, errors="replace").read() + "\n"
    text = re.sub(r"//[^\n]*|/\*.*?\*/|(?m:^[ \t]*#[ \t]*include[^\n]*)", " ", text, flags=re.S)
    words, nums = set(), set()
    for w in re.findall(r'"((?:[^"\\\n]|\\.)*)"', text):
        if 0 < len(w) <= 40 and "\\" not in w: words.add(w)
    for w in re.findall(r"'([^'\\\n])'", text): words.add(w)
    text = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", text)
    lit = r"(?<![\w.])(?:0[xX][0-9a-fA-F']+|\d[\d']*(?:\.\d*)?(?:[eE][-+]?\d+)?)[uUlLfF]*(?![\w])"
    def value(t):
        t = t.replace("'", "")
        try:
            if t[:2] in ("0x", "0X"): return int(t.rstrip("uUlL"), 16)
            t = t.rstrip("uUlLfF"); return int(t) if t.isdigit() else int(float(t))
        except (ValueError, OverflowError): return None
    base = set()
    for m in re.finditer(lit + r"(?:\s*\*\s*" + lit + r")*", text):
        v = 1
        for t in re.findall(lit, m.group(0)):
            x = value(t); v = None if x is None or v is None else v * x
            if x is not None: base.add(x)
        if v is not None: base.add(v)
    for b in base:
        for k in (1, 60, 3600, 1000, 86400, 1000000, 86400000, 86400000000):
            for d in (-1, 0, 1): nums.update((b * k + d, -(b * k + d)))
    nums = sorted(n for n in nums if abs(n) < 2 ** 63 - 1)
    path = os.path.join(outdir, "constants")
    with open(path, "w") as f:
        for n in sorted(base):
            if n < 2 ** 63 - 1: f.write("b%d\n" % n)
        for n in nums: f.write("i%d\n" % n)
        for w in sorted(words): f.write("s%s\n" % w.encode("utf-8", "replace").hex())
    RUN_ENV["VERIF_DICT"] = path


LOCALES = ["de_DE.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "fr_FR.ISO-8859-1", "fa_IR.UTF-8", "de_CH.UTF-8", "hi_IN.UTF-8"]


def make_locales(outdir):
    """Compile the locales C23 runs in from the system's sources into outdir."""
    d = os.path.join(outdir, "locales"); os.makedirs(d, exist_ok=True)
    def one(l):
        lang, cs = l.split(".")
        r = subprocess.run([LOCALEDEF, "--no-archive", "-c", "-i", lang, "-f", cs, os.path.join(d, l)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return l if os.path.isdir(os.path.join(d, l)) else None
    with cf.ThreadPoolExecutor(8) as ex: made = [l for l in ex.map(one, LOCALES) if l]
    if not made: raise Broken("localedef made no locale")
    RUN_ENV.update(LOCPATH=d, VERIF_LOCALES=":".join(made))


def run_plan(pid, plan, seed, tier, outdir, only=None, shards_override=None):
    timeout = TIMEOUT[tier]
    constants(outdir)
    if pid == "C23": make_locales(outdir)
    exes = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {c: ex.submit(compile_one, pid, c, outdir) for c, _ in plan}
        for c, f in futs.items(): exes[c] = f.result()
    t_build = time.time()
    jobs = []
    for cfg, shards in plan:
        for s in range(shards):
            if shards_override is not None and s != shards_override: continue
            jobs.append((cfg, s, shards))

    def job(j):
        try: return run_one(j)
        except Broken as e: return e          # another run may still have seen a violation

    def run_one(j):
        cfg, s, shards = j
        tag = "%s.%d" % (cfg, s)
        args = ["--seed=%d" % seed, "--tier=" + tier, "--shard=%d" % s, "--shards=%d" % shards, "--distinct=" + os.path.join(outdir, tag + ".dist")]
        if pid == "C21": args.append("--digest=" + os.path.join(outdir, tag + ".dig"))
        prefix = ()
        if cfg == "memcheck":
            prefix = (VALGRIND, "-q", "--error-exitcode=66", "--track-origins=yes", "--leak-check=no", "--undef-value-errors=yes")
            args.append("--only=first:%d" % (40 if tier == "quick" else 400))
        elif only: args.append("--only=" + only)
        for attempt in (0, 1):
            rc, log, err, wall = execute(exes[cfg], cfg, args, outdir, tag, timeout, prefix)
            r = Run(cfg, s, rc, log, err, wall)
            if cfg == "tsan" and rc != 0 and not r.viols and "unexpected memory mapping" in err:
                prefix = ("/usr/bin/setarch", "x86_64", "-R"); continue
            if r.hang and attempt == 0: continue          # once more, alone in time
            break
        r.shards = shards
        return r

    with cf.ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(job, jobs))
    broken = [r for r in runs if isinstance(r, Broken)]; runs = [r for r in runs if not isinstance(r, Broken)]
    if broken and not any(violation_list(r) for r in runs): raise broken[0]
    return runs, exes, t_build


def compare_digests(runs, exes, outdir, seed, tier):
    """C21: every build must have the same digest for the same operation."""
    digs = {}
    for r in runs:
        if r.done is None: continue
        f = os.path.join(outdir, "%s.%d.dig" % (r.cfg, r.shard))
        if not os.path.exists(f): continue
        a = array.array("Q"); a.frombytes(open(f, "rb").read()); digs[r.cfg] = a
    full = {c: a for c, a in digs.items() if c != "memcheck"}
    if len(full) < 2: return [], 0, len(full)
    ref = "prod" if "prod" in full else sorted(full)[0]
    A = full[ref]; n = len(A) // 2; viols, seen = [], set()
    kinds = None
    compared = 0
    per = n // NKINDS
    for c in sorted(full):
        if c == ref: continue
        B = full[c]
        if len(B) != len(A): raise Broken("builds made different numbers of calls")
        compared += n
        if A == B: continue
        for i in range(n):
            if A[2 * i] != B[2 * i]: raise Broken("builds made different calls")
            if A[2 * i + 1] != B[2 * i + 1]:
                k = i // per
                if (c, k) in seen: continue
                seen.add((c, k))
                if len(seen) > 20: break
                show = []
                for cc in (ref, c):
                    rc, log, err, _ = execute(exes[cc], cc, ["--only=show:%d:%d" % (k, A[2 * i])], outdir, "show", 60)
                    show.append(Run(cc, 0, rc, log, err, 0).result or diagnose(err))
                viols.append(("builds-differ:%d" % k, "builds %s and %s give different results for operation kind %d seed %d: \"%s\" and \"%s\"" % (ref, c, k, A[2 * i], show[0][:300], show[1][:300]), "show:%d:%d" % (k, A[2 * i]), c))
    return viols, compared, len(full)


NKINDS = 22


def main_check(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1"); tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    outdir = os.path.join(BUILD, pid)
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    os.makedirs(EVID, exist_ok=True)
    evid = os.path.join(EVID, pid + ".json")
    if os.path.exists(evid): os.remove(evid)
    plan = PLAN.get(pid, DEFAULT_PLAN)[tier]
    if os.environ.get("VERIF_PLAN"): plan = [(c, int(n)) for c, n in (x.split(":") for x in os.environ["VERIF_PLAN"].split(","))]
    runs, exes, _ = run_plan(pid, plan, seed, tier, outdir)

    found = []                     # (key, message, case, cfg, shard, shards)
    for r in runs:
        for key, msg, case in violation_list(r):
            found.append((key, msg, case, r.cfg, r.shard, r.shards))
    extra = {}
    if pid == "C21":
        dv, compared, nb = compare_digests(runs, exes, outdir, seed, tier)
        for key, msg, case, cfg in dv: found.append((key, msg, case, cfg, 0, 1))
        extra = {"results compared between builds": compared, "builds compared": nb}

    # ---- what the monitors saw
    evaluations = sum(r.done[0] for r in runs if r.done)
    best, best_n = None, -1
    for cfg, _ in plan:
        n = sum(r.done[1] for r in runs if r.done and r.cfg == cfg)
        if n > best_n: best, best_n = cfg, n
    distinct = set()
    for r in runs:
        if r.cfg != best: continue
        f = os.path.join(outdir, "%s.%d.dist" % (r.cfg, r.shard))
        if os.path.exists(f):
            a = array.array("Q"); a.frombytes(open(f, "rb").read()); distinct.update(a)
    events = {}
    for r in runs:
        for k, v in r.counts.items():
            events[k] = max(events.get(k, 0), v) if k.startswith(("distinct", "largest")) else events.get(k, 0) + v
    samples = []
    for r in runs:
        for s in r.samples:
            if s not in samples: samples.append(s)
    rule = rules()[pid]
    if not found and (evaluations == 0 or not distinct):
        raise Broken("the monitors saw nothing")
    for must in ([] if os.environ.get("VERIF_PLAN") else rule.get("must_see", [])):
        if not found and not events.get(must): raise Broken("the monitors never saw: " + must)

    known = known_findings(pid)
    report, hits = {}, {}
    for f in found:
        if f[0] in known: hits[f[0]] = known[f[0]]
        else: report.setdefault(f[0], f)

    cov = {"evaluations": evaluations, "distinct_nontrivial": len(distinct),
           "rule": rule["rule"] + " Distinct cases are counted in one configuration (%s); evaluations in all." % best,
           "samples": samples[:12] or [r.cfg for r in runs][:1], "events": events,
           "configurations": {cfg: {"compiler": CONFIGS[cfg][0], "flags": " ".join(CONFIGS[cfg][1]), "processes": n} for cfg, n in plan}}
    cov.update(extra)
    with open(evid, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": rule["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(report)}, f, indent=1)
        f.write("\n")

    for k, what in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for i, (key, (k, msg, case, cfg, shard, shards)) in enumerate(sorted(report.items())):
        if i >= 10: print("... and %d more" % (len(report) - 10)); break
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, "%s-%d.json" % (pid, i + 1))
        with open(path, "w") as f:
            json.dump({"property": pid, "key": k, "message": msg, "case": case, "config": cfg, "shard": shard, "shards": shards, "seed": seed, "tier": tier}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  [%s, %s] %s" % (cfg, k, msg)); print("  case: %s" % case)
    print("%s: %s, seed %d, %s: %d evaluations, %d distinct, %.1f s" % (pid, tier, seed, "VIOLATED" if report else "held", evaluations, len(distinct), time.time() - t0))
    for r in runs:
        try: os.remove(os.path.join(outdir, "%s.%d.dist" % (r.cfg, r.shard)))
        except OSError: pass
    return 1 if report else 0


def main_replay(path):
    d = json.load(open(path)); pid = d["property"]
    outdir = os.path.join(BUILD, "replay-" + pid); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    print("expected: [%s] %s\n  case: %s" % (d["key"], d["message"], d["case"]))
    if d["key"].startswith("builds-differ"):
        res = {}
        for cfg in ("prod", d["config"]):
            exe = compile_one(pid, cfg, outdir)
            rc, log, err, _ = execute(exe, cfg, ["--only=" + d["case"]], outdir, "replay", 60)
            res[cfg] = Run(cfg, 0, rc, log, err, 0).result; print("  %s: %s" % (cfg, res[cfg]))
        return 1 if len(set(res.values())) > 1 else 0
    plan = [(d["config"], d["shards"])]
    runs, _, _ = run_plan(pid, plan, d["seed"], d["tier"], outdir, shards_override=d["shard"])
    again = False
    for r in runs:
        for key, msg, case in violation_list(r):
            mark = key == d["key"]; again |= mark
            print("%s [%s] %s\n  case: %s" % ("AGAIN" if mark else "also ", key, msg, case))
            if mark: print("VIOLATION property=%s replay=%s" % (pid, path))
        if r.err.strip(): print(r.err[-3000:])
    return 1 if again else 0


def main():
    try:
        if len(sys.argv) == 2 and sys.argv[1] == "--setup":
            for t in (GXX, CLANG, VALGRIND, LOCALEDEF):
                if not os.path.exists(t): raise Broken(t + " is missing")
            os.makedirs(BUILD, exist_ok=True); os.makedirs(EVID, exist_ok=True)
            print("ready"); return 0
        if len(sys.argv) == 3 and sys.argv[1] == "--replay": return main_replay(sys.argv[2])
        if len(sys.argv) == 2 and re.fullmatch(r"C\d\d", sys.argv[1]): return main_check(sys.argv[1])
        print(__doc__); return 2
    except Broken as e:
        print("check error: %s" % e); return 2


if __name__ == "__main__":
    sys.exit(main())
