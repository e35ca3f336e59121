#!/usr/bin/env python3
"""C21: builds the harness with each sanitizer and for Miri, runs the workloads, judges the reports."""
import json, os, re, signal, subprocess, sys, threading, time

HERE = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
H = os.path.join(HERE, "harness")
EV = os.path.join(HERE, "evidence")
WORK = os.path.join(EV, "c21")
mode = sys.argv[1] if len(sys.argv) > 1 else "quick"
tier = "thorough" if mode == "thorough" else "quick"
seed = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
# a check gets 900 s; nothing may run past this
DEADLINE = T0 + (820 if tier == "quick" else 4 * 3600)
TRIPLE = "x86_64-unknown-linux-gnu"
CFGS = "--check-cfg=cfg(psmon_asan) --check-cfg=cfg(psmon_msan) --check-cfg=cfg(psmon_tsan)"
SAN = {
    "address": "-Zsanitizer=address --cfg psmon_asan",
    "thread": "-Zsanitizer=thread --cfg psmon_tsan",
    "memory": "-Zsanitizer=memory --cfg psmon_msan -Zsanitizer-memory-track-origins",
}
MIRI_TREE = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks"
MIRI_BIG = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
MARK = "/repo/"
os.makedirs(WORK, exist_ok=True)
children = set()
lock = threading.Lock()


def run(cmd, env, out, limit):
    """-> (exit code or None if stopped by the limit)"""
    e = dict(os.environ)
    e.update(env)
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, cwd=H, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        with lock:
            children.add(p)
        try:
            rc = p.wait(timeout=max(1, min(limit, DEADLINE - time.time())))
        except subprocess.TimeoutExpired:
            rc = None
        # nothing a stage started may outlive it
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        with lock:
            children.discard(p)
    return rc


def build(name):
    log = os.path.join(WORK, f"build-{name}.log")
    env = {"CARGO_TARGET_DIR": f"target-{name}", "CARGO_INCREMENTAL": "0"}
    if name == "miri":
        env["MIRIFLAGS"] = MIRI_TREE
        # builds everything, interprets next to nothing
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--", "version"]
    else:
        env["RUSTFLAGS"] = f"{SAN[name]} {CFGS}"
        cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "-Zbuild-std", "--target", TRIPLE, "--bin", "psmon"]
    rc = run(cmd, env, log, 1500 if mode == "build" else 600)
    return rc, log


def parallel(fns):
    ts = [threading.Thread(target=f) for f in fns]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def read(path):
    with open(path, errors="replace") as f:
        return f.read()


# ------------------------------------------------------------------ reports
HEAVY = ("allocation-size-too-big", "out-of-memory", "requested allocation size", "stack-overflow", "calloc-overflow", "rss-limit")


def reports(kind, text, rc):
    """-> ([verdicts], [notes]) of one stage's output"""
    bad, notes = [], []
    if kind in ("address", "memory", "thread"):
        name = {"address": "AddressSanitizer", "memory": "MemorySanitizer", "thread": "ThreadSanitizer"}[kind]
        for m in re.finditer(r"(?:ERROR|WARNING): " + name + r":? ?(.*)", text):
            chunk = text[m.start():]
            end = re.search(r"\nSUMMARY: .*", chunk)
            body = chunk[: end.end()] if end else chunk[:20000]
            first = m.group(1).strip()[:160]
            if any(h in body[:600] for h in HEAVY):
                notes.append(f"{kind}: {first}")
            elif kind == "thread" and not ("data race" in first or "use-after-free" in first or "race" in first):
                notes.append(f"{kind}: {first}")
            elif kind == "thread" and not concerns_repo(body):
                notes.append(f"{kind}: {first} (not in protosocket)")
            elif "nested bug" in first or "DEADLYSIGNAL" in first:
                pass
            else:
                bad.append((f"{name}: {first}", body))
    else:
        for m in re.finditer(r"error: Undefined Behavior: (.*)", text):
            body = text[m.start(): m.start() + 6000]
            if "Data race" in m.group(1) and MARK not in body[:3000]:
                notes.append(f"miri: {m.group(1)[:160]} (not in protosocket)")
            else:
                bad.append((f"Miri: {m.group(1)[:200]}", body))
        for m in re.finditer(r"error: (unsupported operation|abnormal termination|resource exhaustion)[^\n]*", text):
            notes.append(f"miri: {m.group(0)[:160]}")
    if "unsafe precondition(s) violated" in text:
        i = text.index("unsafe precondition(s) violated")
        bad.append(("debug check: " + text[i: i + 120].split("\n")[0], text[max(0, i - 500): i + 4000]))
    if rc is not None and rc < 0 and not bad and "overflowed its stack" not in text and "memory allocation of" not in text:
        if -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL):
            bad.append((f"{kind}: killed by signal {-rc}", text[-4000:]))
        else:
            notes.append(f"{kind}: ended by signal {-rc}")
    return bad, notes


def concerns_repo(body):
    """one of the two racing accesses (not the thread or block creation) is reached from protosocket code"""
    acc = re.split(r"\n\s*(?:Location is|As if synchronized|Mutex M|Thread T|\[failed)", body)[0]
    # frames up to the poll of the task: a stack goes through tokio's executor below protosocket's own frames
    return MARK in acc


# ------------------------------------------------------------------ stages
results = {}


def sanitizer(name):
    exe = os.path.join(H, f"target-{name}", TRIPLE, "debug", "psmon")
    ev = os.path.join(WORK, f"{name}.json")
    out = os.path.join(WORK, f"{name}.out")
    for p in (ev, out):
        if os.path.exists(p):
            os.remove(p)
    env = {
        "PSMON_CHILD": "",
        "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:handle_abort=0",
        "TSAN_OPTIONS": "halt_on_error=0:detect_deadlocks=0:report_thread_leaks=0:report_signal_unsafe=0:exitcode=0:history_size=4",
        "MSAN_OPTIONS": "halt_on_error=1",
    }
    t = time.time()
    rc = run([exe, "C21s", "--tier", tier, "--seed", str(seed), "--evidence", ev], env, out, 600 if tier == "quick" else 3600)
    results[name] = (name, rc, out, [ev], time.time() - t)


def miri(k, n):
    label = f"miri{k}" if n else "miri-large"
    ev = os.path.join(WORK, f"{label}.json")
    out = os.path.join(WORK, f"{label}.out")
    for p in (ev, out):
        if os.path.exists(p):
            os.remove(p)
    env = {"CARGO_TARGET_DIR": "target-miri", "CARGO_INCREMENTAL": "0", "MIRIFLAGS": MIRI_TREE if n else MIRI_BIG}
    args = ["C21m", "--shard", f"{k}/{n}"] if n else ["C21l"]
    t = time.time()
    rc = run(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--", *args, "--workers", "1", "--cap", "100000",
              "--tier", tier, "--seed", str(seed), "--evidence", ev], env, out, 650 if tier == "quick" else 3 * 3600)
    results[label] = ("miri", rc, out, [ev], time.time() - t)


def main():
    builds = {}

    def b(name):
        builds[name] = build(name)
    parallel([lambda n=n: b(n) for n in (*SAN, "miri")])
    tb = time.time() - T0
    failed = {n: r for n, r in builds.items() if r[0] != 0}
    for n, (rc, log) in failed.items():
        if n == "miri" and "error: Undefined Behavior" in read(log):
            continue
        print(f"build for {n} failed ({rc}):")
        print("\n".join(read(log).splitlines()[-15:]))
    print(f"C21 builds took {tb:.0f}s")
    if mode == "build":
        return 0
    if len(failed) == len(builds):
        return 2
    jobs = []
    if "miri" not in failed:
        jobs += [lambda k=k: miri(k, 6) for k in range(6)] + [lambda: miri(0, 0)]
    # one sanitizer after the other: each uses all cores
    jobs.append(lambda: [sanitizer(n) for n in SAN if n not in failed])
    parallel(jobs)

    bad, notes, stages = [], [], {}
    evals = distinct = 0
    samples, observed = [], {}
    native = 0
    for label, (kind, rc, out, evs, wall) in sorted(results.items()):
        text = read(out)
        b, n = reports(kind, text, rc)
        bad += [(label, *x) for x in b]
        notes += n
        st = {"exit": rc, "wall_s": round(wall, 1), "reports": len(b)}
        for ev in evs:
            if os.path.exists(ev):
                c = json.load(open(ev))["coverage"]
                st["executions"] = c["evaluations"]
                evals += c["evaluations"]
                if kind == "miri":
                    distinct += c["distinct_nontrivial"]
                else:
                    native = max(native, c["distinct_nontrivial"])
                samples += [f"{label}: {s}" for s in c["samples"][:2]]
                for k, v in c.get("observed_events", {}).items():
                    if isinstance(v, int):
                        observed[k] = observed.get(k, 0) + v
        if rc is None:
            notes.append(f"{label} was stopped at its time limit")
        elif "executions" not in st:
            notes.append(f"{label} ended with {rc} before it wrote its coverage")
        stages[label] = st
    notes += [f"no build for {n}" for n in failed]
    replays = []
    seen = set()
    for label, title, body in bad:
        if title in seen or len(replays) >= 8:
            continue
        seen.add(title)
        path = os.path.join(EV, "replays", f"C21-{len(replays)}.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(f"stage {label}, seed {seed}, tier {tier}; rerun: ./check.sh C21 {tier}\n{title}\n\n{body}\n")
        replays.append(path)
        print(title)
        print(f"VIOLATION property=C21 replay={path}")
    for n in sorted(set(notes)):
        print("  note:", n)
    ev = {
        "property": "C21", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct + native,
            "rule": "a case is a generated workload (messages, segmentation, faults, threads) run on the real crates under one instrument; distinct are different cases by description (the three sanitizers run the same native cases, counted once; Miri's are its own); every case moves messages through the crates",
            "samples": samples[:12],
            "observed_events": observed,
            "stages": stages,
            "notes": sorted(set(notes)),
            "build_s": round(tb, 1),
        },
        "assumptions": ["held on the executions listed; Miri runs single-threaded runtimes with Tree Borrows (Stacked Borrows rejects tokio itself)",
                        "ThreadSanitizer sees std and all dependencies instrumented; epoll registration is shown to it as a synchronisation",
                        "a behavioural violation seen by a workload's own oracle is the business of the other checks and is not reported here"],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(replays),
    }
    with open(os.path.join(EV, "C21.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"C21 {tier} seed={seed} executions={evals} distinct={distinct + native} reports={len(bad)} wall={time.time()-T0:.0f}s")
    if replays:
        return 1
    return 0 if evals else 3


try:
    code = main()
finally:
    for p in list(children):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
sys.exit(code)
