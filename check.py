#!/usr/bin/env python3
"""Runs the simulator for one property against /repo's working tree.

  check.py C01                quick search (VERIF_TIER=thorough or --thorough: deep search)
  check.py --build            only builds
  check.py --replay FILE      re-executes a replay file
Exit 0: held on everything explored; 1: violation; 2: the check could not answer.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

import literals

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
KNOWN = os.path.join(HERE, "known_findings.json")

# variant: (environment, cargo arguments, target directory)
VARIANTS = {
    "debug": ({}, [], "a"),
    "release": ({"SIM_MODE": "release"}, [], "r"),
    "nostd": ({}, ["--no-default-features"], "n"),
}
QUICK_SECS = {"C01": 48, "C02": 60, "C08": 15, "C09": 45, "C11": 20}
QUICK_DEFAULT = 35
THOROUGH_SECS = {"debug": 400, "release": 150, "nostd": 60}

RULE = {
    "C01": "one seed decides a set of shared values, 2-6 threads with their calls and the schedule (time slices, allocation points, accesses to shared memory); every call is compared with the same call made alone in a process of its own",
    "C02": "one seed decides a history of calls over families of look-alike inputs on one thread after another, with addresses reused and fields changed; every call is compared with the same call made alone in a process of its own",
    "C03": "one seed decides a history in which calls are cut short by failing allocations and panicking conversions; every call and a final sweep over all values is compared with the same call made alone in a process of its own",
    "C04": "one seed decides calls and which of their allocations fail (single, bursts, exhausted for good); whatever completes is compared with the same call made alone with enough memory",
    "C05": "one seed decides 2-5 threads, their calls, the schedule and the points inside calls at which threads are suspended for ever; the others must finish each call within 60 million of their own steps",
    "C06": "one seed decides inputs whose content differs between conversions, is switched by other threads or whose conversion calls the library again; the outcome must be that of one content that was returned",
    "C07": "one seed decides a round of calls (accepted, rejected, unwound, out of memory) on 1-3 threads, made 36 to 2880 times; everything is dropped and the library's live heap is compared between rounds",
    "C08": "one seed decides numbers and their corruption in transit: every single-digit substitution, neighbour swap and bit flip of a number, and random compound corruptions, delivered to the constructor; the reference is an independent check-digit rule",
    "C09": "one seed decides data and which symbol character is replaced or smeared; an independently written scanner reads the symbol both ways",
    "C10": "one seed decides modules, renderer settings and which scan lines survive; each surviving line is read back unit by unit from the decoded rendering",
    "C11": "one seed decides the value, the format and the write (and part of it) at which the sink fails, transiently or for good; up to 40 failure points per text are tried",
    "C13": "one seed decides a text, a chain of 2-5 stations on 1-3 threads, their renderings and the faults at each: mistyped numbers, damaged characters, all scan lines but one destroyed; an independently written scanner reads each station's rendering and the next station is given what it read",
    "C12": "one seed decides a history of calls under a jumping clock, hostile environment variables, seeds and failing input/output; any request to the operating system is a violation and every call is compared with the same call made alone",
}
NONTRIVIAL = ("; counted: distinct trace hashes (scheduling decisions with the code positions they interrupt, faults and outcomes of all calls) of runs in which at least one "
              "fault was injected, address reused or call interrupted")
REAL = ["barcoders (all of it, from /repo's working tree, instrumented at every basic block, load and store)", "image 0.25.10, gif, png, image-webp encoders", "Rust alloc/core/std collections and formatting"]
STUB = ["thread scheduler (real threads, one at a time, chosen by the simulator)", "allocator", "clock, sleep, futex", "entropy", "environment variables", "files, sockets, standard streams (recorded and refused)",
        "callers' input conversions and output sinks", "scanner, transmission channel"]


def sh_env():
    env = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode("utf-8", "replace")
    env["RUSTC_WRAPPER"] = os.path.join(HERE, "sim", "wrap.sh")
    env["RUSTC_BOOTSTRAP"] = "simrt"
    env["CARGO_INCREMENTAL"] = "0"
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTFLAGS", None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(HERE, "sim", "wrap.sh")]
    for root in (os.path.join(REPO, "src"),):
        for d, _, fs in sorted(os.walk(root)):
            files += [os.path.join(d, f) for f in sorted(fs)]
    files.append(os.path.join(REPO, "Cargo.toml"))
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as x:
            h.update(x.read())
    return h.hexdigest()


def build(variant):
    extra, args, sub = VARIANTS[variant]
    target = os.path.join(TARGET, sub)
    os.makedirs(TARGET, exist_ok=True)
    env = sh_env()
    env.update(extra)
    with open(os.path.join(TARGET, sub + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, sub + ".stamp")
        want = source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        cwd = os.path.join(HERE, "sim")
        if have != want and os.path.isdir(target):
            # Do not trust time stamps: the tree may have been replaced by an older copy.
            subprocess.run(["cargo", "clean", "--offline", "-p", "barcoders", "-p", "simops", "--target-dir", target], cwd=cwd, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--target-dir", target] + args, cwd=cwd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("the simulator does not build against /repo")
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(want)
    return os.path.join(target, "debug", "sim")


def known():
    with open(KNOWN) as f:
        return json.load(f)


def main():
    argv = sys.argv[1:]
    if argv[:1] == ["--build"]:
        for v in argv[1:] or ["debug"]:
            build(v)
        return 0
    if argv[:1] == ["--replay"]:
        with open(argv[1]) as f:
            variant = json.load(f)["variant"]
        return subprocess.run([build(variant), "replay", argv[1]]).returncode
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    print(f"property={prop} tier={tier} VERIF_SEED={seed}")
    findings = known()
    active = [k for k in findings["known"] if k["property"] == prop]
    os.makedirs(TARGET, exist_ok=True)
    kfile = os.path.join(TARGET, f"known-{prop}-{os.getpid()}.json")
    with open(kfile, "w") as f:
        json.dump([{k: e[k] for k in ("property", "class", "contains")} for e in active], f)
    wfile = os.path.join(TARGET, f"words-{prop}-{os.getpid()}.json")
    with open(wfile, "w") as f:
        json.dump(literals.words(REPO), f)
    replays = os.path.join(HERE, "replays")
    plan = [("debug", QUICK_SECS.get(prop, QUICK_DEFAULT))]
    if tier == "thorough":
        plan = list(THOROUGH_SECS.items())
    parts, violation, bad = [], None, False
    for variant, secs in plan:
        secs = float(os.environ.get("SIM_SECS", secs))
        exe = build(variant)
        tb = time.time()
        jobs = len(os.sched_getaffinity(0))
        r = subprocess.run([exe, "run", "--prop", prop, "--seed", str(seed), "--variant", variant, "--runs", "100000000", "--secs", str(secs), "--jobs", str(jobs),
                            "--replays", replays, "--known", kfile, "--words", wfile, "--shrink", "25" if tier == "quick" else "120",
                            "--recheck", "4" if tier == "quick" else "20"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        stats = None
        for line in r.stdout.splitlines():
            if line.startswith("STATS "):
                stats = json.loads(line[6:])
            elif line.strip():
                print(line[:3000])
        if stats is None:
            print(f"variant {variant}: the simulator ended with status {r.returncode} and no result")
            return 2
        stats["variant"] = variant
        stats["search_s"] = time.time() - tb
        parts.append(stats)
        if r.returncode == 1 and stats.get("violation"):
            path = stats["violation"]
            # The minimised file must fail the same way in fresh processes.
            codes = [subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for _ in range(2)]
            for c in codes[:1]:
                print(c.stdout[-3000:].rstrip())
            if all(c.returncode == 1 for c in codes):
                violation = path
                break
            print(f"replay of {path} did not reproduce")
            bad = True
        elif r.returncode != 0:
            bad = True
    os.unlink(kfile)
    os.unlink(wfile)
    for e in active:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    evidence(prop, tier, seed, parts, violation, time.time() - t0, active)
    if violation:
        print(f"VIOLATION property={prop} replay={violation}")
        return 1
    if bad:
        print("no answer: see the HARNESS lines above")
        return 2
    runs = sum(p["runs"] for p in parts)
    print(f"held in {runs} simulated runs ({sum(p['calls'] for p in parts)} calls judged, {sum(p['nontrivial'] for p in parts)} distinct non-trivial traces) in {time.time()-t0:.0f} s")
    return 0


def evidence(prop, tier, seed, parts, violation, wall, active):
    counts = {}
    for p in parts:
        for k, v in p["counts"].items():
            counts[k] = counts.get(k, 0) + v
    runs = sum(p["runs"] for p in parts)
    search = sum(p["search_s"] for p in parts) or 1
    samples = [s for p in parts for s in p["samples"]][:3]
    if not samples:
        samples = [{"run": "none completed before the violation", "replay": violation}]
    FAULTS = ["preemptions_inside_calls", "threads_suspended", "allocations_failed", "conversion_panics", "content_changed_within_call", "nested_calls", "addresses_reused",
              "clock_jumps", "env_reads", "entropy_reads", "ambient_io", "digit_substitutions", "neighbour_swaps", "bit_flips", "compound_corruptions", "characters_replaced", "characters_smeared",
              "scan_lines_destroyed", "sink_failures_permanent", "sink_failures_transient", "sink_short_writes", "sink_panics", "content_switches", "fields_changed", "loop_iterations"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(p["nontrivial"] for p in parts),
        "rule": RULE[prop] + NONTRIVIAL,
        "samples": samples,
        "calls_judged": sum(p["calls"] for p in parts),
        "simulated_steps": counts.get("steps", 0),
        "simulated_time": "the code under test reads no clock; time is counted in steps (basic blocks, loads, stores, allocations) of library code",
        "runs_per_hour": int(runs * 3600 / search),
        "seeds": {p["variant"]: p["runs"] for p in parts},
        "faults_injected": {k: counts[k] for k in FAULTS if counts.get(k)},
        "other_counts": {k: v for k, v in counts.items() if k not in FAULTS},
        "distinct_outcome_sets": sum(p["distinct_outcome_sets"] for p in parts),
        "distinct_switch_positions": {"measure": "pairs of code positions (left, resumed) between which the scheduler switched threads, hashed into 2^20 buckets", "count": max([p["pairs"] for p in parts] or [0])},
        "code_positions_reached": {p["variant"]: [p["edges"], p["edges_total"]] for p in parts},
        "reference_calls_made_alone": sum(p["solos"] for p in parts),
        "runs_ended_by_permitted_abort": sum(p["benign_aborts"] for p in parts),
        "runs_repeated_for_determinism": sum(p["rechecked"] for p in parts),
        "runs_hitting_known_findings": sum(p["known"] for p in parts),
        "real_components": REAL,
        "stub_components": STUB,
    }
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["interleavings are sequentially consistent at the granularity of instrumented memory accesses", "a failing allocation either aborts or unwinds the program", "sampled, not exhaustive"],
         "wall_s": round(wall, 1), "violations": 1 if violation else 0}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
