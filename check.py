#!/usr/bin/env python3
"""Supervisor of one property check: builds the harness from /repo's working tree, runs it under
watch, and turns what the monitors saw into a verdict and an evidence file.

usage: check.py ID [--tier quick|thorough] [--seed N] [--only FAMILY] [--replay REPLAYFILE]

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (error, timeout)."""
import json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import registry

TARGET = os.path.join(HERE, "target")


def env_170():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "MIRIFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(
        RUSTUP_TOOLCHAIN="1.70.0",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_PROFILE_DEV_OPT_LEVEL="3",
        CARGO_PROFILE_DEV_DEBUG="0",
        CARGO_TERM_COLOR="never",
    )
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


class Error(Exception):
    pass


def build(manifest_dir, target, bin_, features, extra_env=None, args=(), log=None):
    e = env_170()
    e.update(extra_env or {})
    e["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--bin", bin_, "--features", ",".join(features)] + list(args)
    t = time.time()
    r = subprocess.run(cmd, cwd=manifest_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1500)
    if r.returncode:
        raise Error("build of %s failed:\n%s" % (bin_, r.stdout[-3000:]))
    print("built %s (%s) in %.0f s" % (bin_, ",".join(features), time.time() - t), flush=True)
    return os.path.join(target, "debug", bin_)


def tree(pid):
    """pid and its descendants"""
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                s = open("/proc/%s/stat" % d).read()
                kids.setdefault(int(s[s.rindex(")") + 2 :].split()[1]), []).append(int(d))
            except (OSError, ValueError):
                pass
    out, todo = [], [pid]
    while todo:
        p = todo.pop()
        out.append(p)
        todo += kids.get(p, [])
    return out


def activity(pid):
    """(cpu ticks, every thread asleep) over the process tree, from our own children only"""
    cpu, asleep = 0, True
    for p in tree(pid):
        try:
            for t in os.listdir("/proc/%d/task" % p):
                s = open("/proc/%d/task/%s/stat" % (p, t)).read()
                f = s[s.rindex(")") + 2 :].split()
                asleep &= f[0] == "S"
                cpu += int(f[11]) + int(f[12])
        except (OSError, ValueError):
            asleep = False
    return cpu, asleep


def watch(cmd, env, wall, err_path, hung=lambda: False):
    """Runs cmd. Returns ('exit', code) | ('signal', n) | ('deadlock', 0) | ('timeout', 0)."""
    with open(err_path, "wb") as err:
        p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
    start, last, since = time.time(), None, time.time()
    looked = start
    try:
        while True:
            try:
                p.wait(timeout=0.2)
                return ("exit", p.returncode) if p.returncode >= 0 else ("signal", -p.returncode)
            except subprocess.TimeoutExpired:
                pass
            cpu, asleep = activity(p.pid)
            if cpu != last or not asleep:
                last, since = cpu, time.time()
            elif time.time() - since > 40:
                return "deadlock", 0
            if time.time() - start > wall:
                return "timeout", 0
            if time.time() - looked > 10:
                looked = time.time()
                if hung():
                    return "timeout", 0
    finally:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def in_flight(out):
    cases = []
    d = os.path.dirname(out)
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(out) + ".progress."):
            t = open(os.path.join(d, f), errors="replace").read().split("\n")[0].strip()
            if t:
                cases.append(t)
    return cases


def stuck(out):
    """cases that have been in flight for long, although the other threads or the clock went on"""
    d, cases = os.path.dirname(out), []
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(out) + ".progress."):
            p = os.path.join(d, f)
            t = open(p, errors="replace").read().split("\n")[0].strip()
            if t and time.time() - os.stat(p).st_mtime > 300:
                cases.append(t)
    return cases


def findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    opt = dict(tier=os.environ.get("VERIF_TIER", "quick"), seed=os.environ.get("VERIF_SEED", "1"), only=None, replay=None)
    while args:
        k = args.pop(0).lstrip("-")
        opt[k] = args.pop(0)
    tier = opt["tier"] if opt["tier"] in ("quick", "thorough") else "quick"
    try:
        seed = int(opt["seed"])
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    spec = registry.CHECKS[prop]
    t0 = time.time()
    run_dir = os.path.join(TARGET, "runs", "%s-%s-%d-%d" % (prop, tier, seed, os.getpid()))
    shutil.rmtree(run_dir, ignore_errors=True)
    os.makedirs(run_dir)
    replay_file = opt["replay"]
    replay = None
    if replay_file:
        j = json.load(open(replay_file))
        seed, tier, replay = j["seed"], j["tier"], j
    wall = 820 if tier == "thorough" else 560
    budget = 600 if tier == "thorough" else 300
    results = []
    for part in spec["parts"](prop, HERE, TARGET):
        if "run" in part:
            results += part["run"](prop, HERE, TARGET, sys.modules[__name__], tier, seed, replay, run_dir)
        else:
            results.append(run_part(prop, part, tier, seed, opt["only"], replay, run_dir, wall, budget))
    verdict(prop, spec, tier, seed, results, t0, run_dir, replay is not None or opt["only"])


def run_part(prop, part, tier, seed, only, replay, run_dir, wall, budget):
    """Builds and runs one executable of the check. Returns a result dict."""
    if replay and replay.get("part") not in (None, part["name"]):
        return None
    env = env_170()
    env["VH_SCRATCH"] = run_dir
    if "build" in part:
        exe = part["build"](build, Error)
        if isinstance(exe, tuple):
            exe, more = exe
            env.update(more)
        # a build of another check must not replace what this one runs and starts as a child
        own = os.path.join(run_dir, part["name"] + ".exe")
        shutil.copy2(exe, own)
        cmd = [own, prop]
    out = os.path.join(run_dir, part["name"] + ".json")
    cmd += ["--tier", tier, "--seed", str(seed), "--out", out, "--budget", str(budget)]
    if replay and replay.get("case"):
        cmd += ["--replay", replay["case"]]
    elif only:
        cmd += ["--only", only]
    err = out + ".log"
    how, code = watch(cmd, env, wall, err, lambda: stuck(out))
    text = open(err, errors="replace").read()
    res = dict(part=part["name"], how=how, code=code, violations=[], data=None, tail=text[-1500:])
    if os.path.exists(out):
        try:
            res["data"] = json.load(open(out))
        except ValueError:
            pass
    if res["data"] and how == "exit" and code in (0, 1):
        res["violations"] += [dict(case=v["case"], msg=v["msg"]) for v in res["data"]["violations"]]
    elif how == "signal" and code in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        c = in_flight(out)
        res["violations"].append(dict(case=c[0] if c else "", msg="process died with %s; in flight: %s; %s" % (signal.Signals(code).name, ", ".join(c) or "none", text[-400:].replace("\n", " "))))
    elif how == "deadlock":
        c = in_flight(out)
        if c:
            res["violations"].append(dict(case=c[0], msg="deadlock: every thread asleep for 40 s without using CPU; in flight: " + ", ".join(c)))
        else:
            raise Error("deadlocked with no case in flight\n" + text[-2000:])
    elif how == "timeout" and stuck(out):
        c = stuck(out)
        res["violations"].append(dict(case=c[0], msg="no end in sight after 300 s of a case that takes less than a second: " + ", ".join(c)))
    elif not res["violations"]:
        raise Error("%s ended with %s %s\n%s" % (part["name"], how, code, text[-3000:]))
    return res


def verdict(prop, spec, tier, seed, results, t0, run_dir, partial):
    results = [r for r in results if r]
    known = [f for f in findings() if f["property"] == prop and f["status"] == "known"]
    new, hits = [], {}
    for r in results:
        for v in r["violations"]:
            k = next((f for f in known if f["part"] == r["part"] and re.fullmatch(f["signature"], v["msg"], re.S)), None)
            if k:
                hits[k["signature"]] = k
            else:
                new.append((r["part"], v))
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], observed={}, maxima={}, cases_per_family={}, truncated=[])
    rules = []
    for r in results:
        d = r["data"]
        if not d:
            continue
        pre = "" if len(results) == 1 else r["part"] + ": "
        cov["evaluations"] += d["evaluations"]
        cov["distinct_nontrivial"] += d["distinct_nontrivial"]
        rules.append(pre + d["rule"])
        cov["samples"] += [pre + s for s in d["samples"]][:12]
        for k in ("observed", "maxima", "cases_per_family"):
            for a, b in d[k].items():
                cov[k][pre + a] = b
        cov["truncated"] += [pre + x for x in d["truncated"]]
    cov["rule"] = "; ".join(rules)
    if not new and not partial:
        if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0 or not cov["samples"]:
            raise Error("the run observed nothing: " + json.dumps(cov)[:500])
        for k in spec.get("must_observe", []):
            if not any(a.endswith(k) and b > 0 for a, b in cov["observed"].items()):
                raise Error("the run never observed %r: %s" % (k, json.dumps(cov["observed"])))
    ev = dict(
        property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov,
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new),
    )
    if not partial:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for k in hits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if new:
        part, v = new[0]
        rp = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
        json.dump(
            dict(property=prop, tier=tier, seed=seed, part=part, case=v["case"], msg=v["msg"],
                 how="python3 /verif/check.py %s --replay %s" % (prop, rp), all=[dict(part=p, **x) for p, x in new]),
            open(rp, "w"), indent=1)
        for p, x in new[:5]:
            print("  %s %s: %s" % (p, x["case"], x["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        sys.exit(1)
    shutil.rmtree(run_dir, ignore_errors=True)
    print("%s held on %d evaluations, %d distinct cases (%s, seed %d, %.0f s)" % (prop, cov["evaluations"], cov["distinct_nontrivial"], tier, seed, time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except Error as e:
        print("ERROR (no verdict): %s" % e, flush=True)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("ERROR (no verdict): build timeout: %s" % e, flush=True)
        sys.exit(2)
