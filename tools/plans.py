"""What each property's check runs, per tier."""
import os, re, subprocess, time

WORKERS = 8


# size of the quick workload relative to the default of the driver (the cheap ones are enlarged)
QUICK_PCT = dict(C03=300, C05=300, C06=400, C07=300, C08=300, C09=400, C10=300, C11=400, C13=500, C14=250, C21=300, C22=400, C24=500)


def generated(run, exe, thorough_ms=240_000, quick_pct=100, quick_ms=75_000, n=WORKERS):
    if run.tier == "thorough":
        run.workers(exe, n, 1 << 40, thorough_ms)
    else:
        run.workers(exe, n, 0, quick_ms, extra=["--scale-pct", str(quick_pct)])


def many(cmds, env, timeout):
    """runs commands at the same time; [(returncode or None, output)]"""
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d) for c, d in cmds]
    outs = [None] * len(ps)
    import threading

    def read(i):
        outs[i] = ps[i].stdout.read().decode(errors="replace")
    ts = [threading.Thread(target=read, args=(i,)) for i in range(len(ps))]
    for t in ts:
        t.start()
    end = time.time() + timeout
    for t in ts:
        t.join(max(0.1, end - time.time()))
    r = []
    for i, p in enumerate(ps):
        if ts[i].is_alive():
            p.kill()
            ts[i].join(10)
            r.append((None, outs[i] or ""))
        else:
            r.append((p.wait(), outs[i]))
    return r


def between_processes(run, exe, api):
    """C18: the same inputs in separate processes, in different orders and environments"""
    n = 4000 if run.tier == "quick" else 60000
    ways = []
    for i in range(8):
        e = api.env_base()
        if i & 1:
            e["RUST_BACKTRACE"] = "full"
            e["LANG"] = e["LC_ALL"] = "tr_TR.UTF-8"
        if i & 2:
            e["HOME"] = "/nonexistent"
            e["TZ"] = "Asia/Kathmandu"
            e["CARGO_PKG_NAME"] = "other"
        if i & 4:
            e = {"PATH": "/usr/bin:/bin"}
        ways.append((i, e))
    rs = []
    ps = []
    for i, e in ways:
        cmd = [exe, "digest", "--seed", str(run.seed * 77 + 5), "--cases", str(n), "--reverse", str(i >> 1 & 1),
               "--warm", str(0 if i % 3 else 10 * n if i else 0)]
        ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd="/" if i & 1 else None))
    for p in ps:
        out = p.communicate(timeout=400)[0].decode()
        if p.returncode != 0:
            raise api.NoAnswer("digest process ended with %s" % p.returncode)
        rs.append([l.split() for l in out.splitlines()])
    compared = 0
    for k in range(n):
        ref = rs[0][k]
        for j in range(1, len(rs)):
            x = rs[j][k]
            if x[3] != ref[3]:
                continue  # not the same input
            compared += 1
            if x[:3] != ref[:3]:
                path = os.path.join(run.work, "process.txt")
                with open(path, "w") as f:
                    f.write("input %d of `vh digest --seed %d`: outcome %s in one process, %s in another (environment %d)\n" % (k, run.seed * 77 + 5, ref, x, j))
                run.violation("the same tokens gave different outcomes in two processes", path)
                return
    run.events["process.outcomes_compared"] = run.events.get("process.outcomes_compared", 0) + compared
    run.stats["evaluations"] = run.stats.get("evaluations", 0) + n
    run.phases.append("8 processes with different environments, orders and directories: %d outcomes compared" % compared)
    if compared < n:
        raise api.NoAnswer("only %d outcomes could be compared between processes" % compared)


def asan(run, api):
    """C19: the generated workload with the library compiled under AddressSanitizer"""
    tgt = "x86_64-unknown-linux-gnu"
    try:
        api.cargo(["+nightly", "build", "--release", "--offline", "--locked", "--no-default-features", "--bin", "vh", "--target", tgt],
                  "asan", extra={"RUSTFLAGS": "-Zsanitizer=address"})
    except api.NoAnswer as e:
        run.phases.append("AddressSanitizer phase skipped: the instrumented build failed (%s)" % e)
        return
    exe = os.path.join(api.ROOT, "target", "asan", tgt, "release", "vh")
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1"}
    before = run.stats.get("evaluations", 0)
    if run.tier == "quick":
        run.workers(exe, WORKERS, 1500, 100_000, env=env, name="asan", index0=100)
    else:
        run.workers(exe, WORKERS, 1 << 40, 150_000, env=env, name="asan", index0=100)
    run.phases.append("AddressSanitizer: %d inputs" % (run.stats.get("evaluations", 0) - before))


def miri(run, exe, api):
    """C19: small inputs under the undefined-behaviour interpreter, threads included"""
    n, mx = (56, 34) if run.tier == "quick" else (700, 60)
    inputs = os.path.join(run.work, "miri.in")
    with open(inputs, "w") as f:
        subprocess.run([exe, "streams", "--seed", str(run.seed), "--cases", str(n), "--max", str(mx)], stdout=f, check=True, timeout=100)
    e = api.env_base()
    e["CARGO_TARGET_DIR"] = os.path.join(api.ROOT, "target", "miri")
    flags = "-Zmiri-disable-isolation -Zmiri-tree-borrows" if False else "-Zmiri-disable-isolation"
    e["MIRIFLAGS"] = flags
    cwd = os.path.join(api.ROOT, "harness")
    base = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--no-default-features", "--bin", "vm", "--"]
    # build once
    empty = os.path.join(run.work, "miri.empty")
    open(empty, "w").close()
    r = many([(base + [empty, "1", "1000000"], cwd)], e, 300)
    if r[0][0] != 0 and "Undefined Behavior" not in r[0][1]:
        run.phases.append("Miri phase skipped: %s" % r[0][1][-300:])
        return
    cmds = []
    for i in range(WORKERS):
        cmds.append((["env", "MIRIFLAGS=%s -Zmiri-seed=%d" % (flags, run.seed * 100 + i)] + base + [inputs, str(WORKERS), str(i)], cwd))
    rs = many(cmds, e, 260 if run.tier == "quick" else 700)
    cases = threads = unsupported = late = 0
    for i, (rc, out) in enumerate(rs):
        m = re.search(r"^miri runs (\d+) threads (\d+)", out, re.M)
        c = out.count("\ncase ") + out.startswith("case ")
        cases += c
        threads += int(m.group(2)) if m else 0
        if rc == 0:
            continue
        last = [l for l in out.splitlines() if l.startswith("case ")][-1:]
        if rc is None:
            late += 1
        elif "unsupported operation" in out or "resource exhaustion" in out:
            unsupported += 1
        elif "Undefined Behavior" in out or "memory leaked" in out or "Data race" in out or "\nFAIL " in out or "deadlock" in out:
            path = os.path.join(run.work, "miri-%d.txt" % i)
            with open(path, "w") as f:
                f.write("".join(l + "\n" for l in last) + out[-6000:])
            err = [l for l in out.splitlines() if l.startswith("error") or l.startswith("FAIL")]
            run.violation("Miri: %s on %s" % ((err or ["error"])[0], (last or ["?"])[0]), path)
        else:
            raise api.NoAnswer("Miri run ended with %s: %s" % (rc, out[-800:]))
    run.events["miri.inputs"] = cases
    run.events["miri.threads"] = threads
    run.stats["evaluations"] = run.stats.get("evaluations", 0) + cases
    run.phases.append("Miri: %d inputs, %d threads%s%s" % (cases, threads, ", %d runs cut off by time" % late if late else "",
                                                           ", %d runs ended by an unsupported operation" % unsupported if unsupported else ""))


CORPUS = ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12")


def corpus(run, exe, api):
    """real-world sources (the standard library's), judged by syn"""
    p = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    d = os.path.join(p.stdout.strip(), "lib/rustlib/src/rust/library")
    if p.returncode != 0 or not os.path.isdir(d):
        run.phases.append("corpus phase skipped: no standard library sources")
        return
    quick = run.tier == "quick"
    bases = [os.path.join(run.work, "corpus%d" % i) for i in range(WORKERS)]
    cmds = [([exe, "corpus", run.prop, "--dir", d, "--seed", str(run.seed), "--index", str(i), "--of", str(WORKERS), "--out", b,
              "--edits", "1" if quick else "25", "--ms", "60000" if quick else "150000"], None) for i, b in enumerate(bases)]
    before = run.stats.get("evaluations", 0)
    for (rc, out), b in zip(many(cmds, api.env_base(), 400), bases):
        run.absorb(out)
        run.absorb_files(b)
        if rc == 1:
            run.violation("real-world source: " + "".join(l[5:] for l in out.splitlines() if l.startswith("FAIL ")), b + ".replay")
        elif rc == 77:
            run.violation("real-world source: parsing exceeds the work bound", b + ".out")
        elif rc != 0:
            raise api.NoAnswer("corpus run ended with %s: %s" % (rc, out[-500:]))
    run.phases.append("standard library sources: %d inputs" % (run.stats.get("evaluations", 0) - before))


def plan(run, exe, api):
    if run.prop == "C23":
        import c23
        return c23.plan(run, api)
    generated(run, exe, quick_pct=QUICK_PCT.get(run.prop, 100))
    if not run.violations:
        if run.prop in CORPUS:
            corpus(run, exe, api)
        if run.prop == "C18":
            between_processes(run, exe, api)
        if run.prop == "C19":
            asan(run, api)
            if not run.violations:
                miri(run, exe, api)
    if run.violations:
        return run.finish()
    return run.finish(min_evals=100)
