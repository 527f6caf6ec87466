"""C27: builds the harness with the nightly compiler under ThreadSanitizer, AddressSanitizer,
MemorySanitizer and Miri, runs the workloads, and takes only their reports as verdicts."""
import concurrent.futures, glob, json, os, re, shutil, signal, subprocess, sys, threading, time

TRIPLE = "x86_64-unknown-linux-gnu"
# crossbeam's deque reads and writes its slots in a deliberate race (volatile, validated afterwards)
SUPPRESS = "race:crossbeam_deque::deque\n"


def nightly(env):
    e = dict(env)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_PROFILE_DEV_OPT_LEVEL="2", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="0")
    return e


def prepare(here, base, env, Error):
    """An offline source for the pinned crates and the standard library's own dependencies."""
    lock = open(os.path.join(here, "harness-alt", "Cargo.lock")).read()
    stamp = os.path.join(base, "lock")
    if os.path.exists(stamp) and open(stamp).read() == lock:
        return
    v = os.path.join(base, "vendor")
    shutil.rmtree(v, ignore_errors=True)
    os.makedirs(base, exist_ok=True)
    r = subprocess.run(["cargo", "vendor", "--offline", "--locked", "--versioned-dirs", v], cwd=os.path.join(here, "harness-alt"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Error("cargo vendor failed: " + r.stdout[-2000:])
    root = subprocess.run(["rustc", "--print", "sysroot"], env=nightly(env), stdout=subprocess.PIPE, text=True).stdout.strip()
    std = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
    for d in os.listdir(std):
        if not os.path.exists(os.path.join(v, d)):
            shutil.copytree(os.path.join(std, d), os.path.join(v, d))
    os.makedirs(os.path.join(base, ".cargo"), exist_ok=True)
    with open(os.path.join(base, ".cargo", "config.toml"), "w") as f:
        f.write('[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s"\n' % v)
    with open(os.path.join(base, "supp"), "w") as f:
        f.write(SUPPRESS)
    with open(stamp, "w") as f:
        f.write(lock)


def cargo(here, base, env, args, kind, flags, Error):
    t = time.time()
    e = nightly(env)
    if flags:
        e["RUSTFLAGS"] = flags
    e["CARGO_TARGET_DIR"] = os.path.join(base, kind)
    e["XDG_CACHE_HOME"] = os.path.join(base, "cache")
    r = subprocess.run(["cargo"] + args, cwd=base, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1500)
    if r.returncode:
        raise Error("%s build failed:\n%s" % (kind, r.stdout[-3000:]))
    print("built for %s in %.0f s" % (kind, time.time() - t), flush=True)
    return os.path.join(base, kind, TRIPLE, "debug")


ASAN_NOT_UB = re.compile(r"stack-overflow|out of memory|out-of-memory|allocation-size-too-big|requested allocation size|failed to allocate|rss-limit|CHECK failed")


def reports(kind, text):
    """The sanitizer's reports in a log, as one line each."""
    out = []
    if kind == "miri":
        for m in re.finditer(r"error: Undefined Behavior: (.*)\n\s*--> (.*)", text):
            out.append("%s at %s" % (m[1], m[2]))
    else:
        for m in re.finditer(r"(?:WARNING|ERROR): (Thread|Address|Memory)Sanitizer: (.*)((?:\n(?!=====).*){0,60})", text):
            if ASAN_NOT_UB.search(m[2]):
                continue
            frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/\S+:\d+|<null>|\()", m[3])
            own = [f + " " + p for f, p in frames if "bellman" in f or "groth16" in f or "/repo/" in p]
            top = [f + " " + p for f, p in frames]
            out.append("%sSanitizer: %s; %s" % (m[1], m[2].split(" (pid")[0], "; ".join(dict.fromkeys(x[:200] for x in (own or top)[:4]))))
    for m in re.finditer(r"unsafe precondition\(s\) violated.*", text):
        out.append(m[0])
    return out


def run(prop, here, target, check, tier, seed, replay, run_dir):
    Error, watch = check.Error, check.watch
    env = check.env_170()
    base = os.path.join(target, "c27")
    prepare(here, base, env, Error)
    man = ["--manifest-path", os.path.join(here, "harness-alt", "Cargo.toml"), "--offline", "--locked"]
    feat = ["--features", "p27,g16multicore"]
    thorough = tier == "thorough"
    jobs = []  # (name, kind, cmd, env, budget)
    lock = threading.Lock()
    results, pending = [], []
    only = replay.get("part") if replay else None

    def job(name, kind, cmd, more, budget, s):
        out = os.path.join(run_dir, name + ".json")
        e = dict(env)
        e.update(more)
        e["VH_SCRATCH"] = run_dir
        log = os.path.join(run_dir, name + ".san")
        opts = "exitcode=66 log_path=%s" % log
        e["TSAN_OPTIONS"] = opts + " halt_on_error=0 report_thread_leaks=0 report_signal_unsafe=0 detect_deadlocks=0 suppressions=%s/supp" % base
        e["ASAN_OPTIONS"] = opts + " detect_leaks=0 allocator_may_return_null=1 detect_stack_use_after_return=1"
        e["MSAN_OPTIONS"] = opts
        cmd = cmd + ["--tier", tier if kind != "miri" else "quick", "--seed", str(s), "--out", out, "--budget", str(budget)]
        t = time.time()
        how, code = watch(cmd, e, budget * 4 + 240, out + ".log")
        text = open(out + ".log", errors="replace").read()
        for f in glob.glob(log + ".*"):
            text += open(f, errors="replace").read()
        res = dict(part=name, how=how, code=code, violations=[], data=None)
        try:
            res["data"] = json.load(open(out))
        except (OSError, ValueError):
            pass
        found = reports(kind, text)
        for m in list(dict.fromkeys(found))[:5]:
            res["violations"].append(dict(case="", msg=m))
        if not found and how == "signal" and code in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL) and "stack overflow" not in text:
            res["violations"].append(dict(case="", msg="process died with %s; in flight: %s" % (signal.Signals(code).name, ", ".join(check.in_flight(out)))))
        if found:
            with open(os.path.join(here, "evidence", "report-C27-%s.txt" % name), "w") as f:
                f.write(text[-200000:])
        d = res["data"]
        if d is not None:
            # only the sanitizers judge here: what a workload finds wrong is another property's matter
            d["violations"] = []
            d["observed"][kind + "_runs"] = 1
            d["observed"][kind + "_evaluations"] = d["evaluations"]
        elif not res["violations"]:
            print("%s gave no result (%s %s): %s" % (name, how, code, text[-600:]), flush=True)
        print("%s: %s %s, %d reports, %.0f s" % (name, how, code, len(found), time.time() - t), flush=True)
        with lock:
            results.append(res)

    runs = concurrent.futures.ThreadPoolExecutor(6)
    miris = concurrent.futures.ThreadPoolExecutor(6)

    def go(pool, name, *a):
        if only in (None, name):
            with lock:
                pending.append(pool.submit(job, name, *a))

    bins = ["--bin", "ub", "--bin", "algebra", "--bin", "snark"]
    more_seeds = range(seed, seed + (6 if thorough else 1))

    def asan():
        d = cargo(here, base, env, ["build", "--target", TRIPLE] + man + bins + feat, "asan", "-Zsanitizer=address", Error)
        for s in more_seeds:
            t = str(1 + (s * 3) % 8)
            go(runs, "asan-ub-%d" % s, "asan", [d + "/ub", prop], dict(RAYON_NUM_THREADS=t), 600 if thorough else 60, s)
        for b, p, lim in (("algebra", "C14", 150), ("algebra", "C15", 150), ("algebra", "C16", 10), ("snark", "C21", 60), ("snark", "C23", 80), ("snark", "C26", 25)):
            go(runs, "asan-" + p, "asan", [d + "/" + b, p] + ([] if thorough else ["--limit", str(lim)]), {}, 900 if thorough else 40, seed)

    def tsan():
        d = cargo(here, base, env, ["build", "-Zbuild-std", "--target", TRIPLE] + man + bins + feat, "tsan", "-Zsanitizer=thread", Error)
        for s in more_seeds:
            for t in (2, 3, 5, 8, 16) if thorough else (3, 8):
                go(runs, "tsan-ub-%d-%d" % (t, s), "tsan", [d + "/ub", prop], dict(RAYON_NUM_THREADS=str(t)), 600 if thorough else 60, s)
        for b, p, lim in (("algebra", "C14", 100), ("algebra", "C15", 100), ("algebra", "C16", 10), ("snark", "C26", 25)):
            go(runs, "tsan-" + p, "tsan", [d + "/" + b, p] + ([] if thorough else ["--limit", str(lim)]), {}, 900 if thorough else 40, seed)

    def msan():
        d = cargo(here, base, env, ["build", "-Zbuild-std", "--target", TRIPLE] + man + bins[:2] + feat, "msan", "-Zsanitizer=memory -Zsanitizer-memory-track-origins", Error)
        for s in more_seeds:
            go(runs, "msan-ub-%d" % s, "msan", [d + "/ub", prop], dict(RAYON_NUM_THREADS="4"), 600 if thorough else 60, s)

    def miri():
        cargo(here, base, env, ["miri", "setup"], "miri", "", Error)
        # one build for all runs
        cargo(here, base, dict(env, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"), ["miri", "run"] + man + ["--bin", "ub"] + feat + ["--", prop, "--only", "none", "--out", os.path.join(run_dir, "none.json")], "miri", "", Error)
        e = nightly(env)
        e["CARGO_TARGET_DIR"] = os.path.join(base, "miri")
        e["XDG_CACHE_HOME"] = os.path.join(base, "cache")
        e["CARGO_BUILD_BUILD_DIR"] = e["CARGO_TARGET_DIR"]
        cmd = ["cargo", "-q", "-C", base, "-Zunstable-options", "miri", "run"] + man + ["--bin", "ub"] + feat + ["--", prop]
        groups = ["domains,multiexps,workers,streams,systems", "proofs", "failures,misuse", "batches"]
        for s in range(seed, seed + (24 if thorough else 1)):
            for i, g in enumerate(groups):
                for mode, flags, t in (("race", "-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.03", 2 + s % 3), ("tree", "-Zmiri-tree-borrows", 1)):
                    # with several threads the pool library's own latches break the (experimental) aliasing rules
                    m = dict(e, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=%d %s" % (s, flags), RAYON_NUM_THREADS=str(t))
                    go(miris, "miri-%s-%d-%d" % (mode, i, s), "miri", cmd + ["--only", g], m, 400 if thorough else 100, s)

    stages = dict(asan=asan, tsan=tsan, msan=msan, miri=miri)
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        fs = [pool.submit(f) for k, f in stages.items() if only is None or only.startswith(k)]
        errs = [f.exception() for f in fs]
    for f in list(pending):
        f.result()
    for x in errs:
        if x is not None:
            raise x
    results.sort(key=lambda r: r["part"])
    if not any(r["violations"] for r in results):
        for k in stages:
            if only is None and not any(r["data"] for r in results if r["part"].startswith(k)):
                raise Error("no %s run gave a result" % k)
    return results
