#!/usr/bin/env python3
"""Runs the check of one property:  python3 check.py C05 [quick|thorough]

Builds the harness and the instrumented library from /repo's working tree, runs the workload in several
processes under the monitors, merges what they observed into evidence/<id>.json and prints the verdict.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer (an error of the check).
"""
import glob, json, os, shutil, signal, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(ROOT, "tools"))
T0 = time.time()


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env_base():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN",
              "RUSTC", "CARGO_BUILD_RUSTFLAGS", "CARGO_PROFILE_RELEASE_DEBUG"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def cargo(args, target, extra=None, cwd=None, wrapper=True, timeout=800):
    e = env_base()
    e["CARGO_TARGET_DIR"] = os.path.join(ROOT, "target", target)
    if wrapper:
        e["RUSTC_WRAPPER"] = os.path.join(ROOT, "harness", "wrap.sh")
    e.update(extra or {})
    p = subprocess.run(["cargo"] + args, cwd=cwd or os.path.join(ROOT, "harness"), env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        log(p.stdout[-4000:])
        raise NoAnswer("build failed: cargo " + " ".join(args))
    return p.stdout


def build_main():
    cargo(["build", "--release", "--offline", "--locked"], "cov")
    return os.path.join(ROOT, "target", "cov", "release", "vh")


class Run:
    """What one check observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(ROOT, "evidence", "work-" + prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.stats, self.maxes, self.events, self.samples = {}, {}, {}, []
        self.hashes = set()
        self.extra_distinct = 0
        self.map = bytearray()
        self.violations = []  # (message, replay path)
        self.known = []
        self.rule = ""
        self.phases = []

    def violation(self, msg, path):
        dst = os.path.join(self.replays, "%s-%d%s" % (self.prop, len(self.violations), os.path.splitext(path)[1] or ".replay"))
        try:
            shutil.copyfile(path, dst)
        except OSError:
            with open(dst, "w") as f:
                f.write(msg + "\n")
        self.violations.append((msg, dst))

    def absorb(self, text):
        """statistics lines of a worker"""
        for l in text.splitlines():
            w = l.split(" ", 2)
            if len(w) < 2:
                continue
            if w[0] == "stat":
                self.stats[w[1]] = self.stats.get(w[1], 0) + int(w[2])
            elif w[0] == "max":
                self.maxes[w[1]] = max(self.maxes.get(w[1], 0), int(w[2]))
            elif w[0] == "event":
                k, n = l[6:].rsplit(" ", 1)
                self.events[k] = self.events.get(k, 0) + int(n)
            elif w[0] == "sample" and len(self.samples) < 12:
                self.samples.append(l[7:][:600])

    def absorb_files(self, base):
        try:
            b = open(base + ".hashes", "rb").read()
            self.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
        try:
            m = open(base + ".map", "rb").read()
            if len(m) > len(self.map):
                self.map.extend(b"\0" * (len(m) - len(self.map)))
            for i, x in enumerate(m):
                self.map[i] |= x
        except OSError:
            pass

    def journal_to_replay(self, base):
        b = open(base + ".journal", "rb").read()
        n0, n1, lo, hi, zero, ln = struct.unpack_from("<6I", b, 0)
        ch = struct.unpack_from("<%dI" % ln, b, 24)
        path = base + ".crash.replay"
        with open(path, "w") as f:
            f.write("prop %s\nseed %d\nzero %d\nchoices %s\n" % (self.prop, lo | hi << 32, zero, " ".join(map(str, ch))))
        return path, n0 | n1 << 32

    def workers(self, exe, n, cases, ms, extra=(), env=None, name="w", index0=0):
        """n processes running the property's driver; crashes and hangs are replayed before they count"""
        procs = []
        e = env_base()
        e.update(env or {})
        for i in range(n):
            base = os.path.join(self.work, "%s%d" % (name, i))
            out = open(base + ".out", "w")
            err = open(base + ".err", "w")
            cmd = [exe, "worker", self.prop, "--seed", str(self.seed), "--index", str(index0 + i), "--ms", str(ms), "--out", base]
            if cases:
                cmd += ["--cases", str(cases)]
            cmd += list(extra)
            procs.append((base, subprocess.Popen(cmd, stdout=out, stderr=err, env=e), [0, time.time()]))
        pending = list(procs)
        done = []
        hard = time.time() + ms / 1000.0 + 240
        while pending:
            time.sleep(0.05)
            for t in list(pending):
                base, p, prog = t
                if p.poll() is None:
                    try:
                        with open(base + ".journal", "rb") as f:
                            k = struct.unpack("<2I", f.read(8))
                    except (OSError, struct.error):
                        k = 0
                    if k != prog[0]:
                        prog[0], prog[1] = k, time.time()
                    if time.time() - prog[1] > 150 or time.time() > hard:
                        p.kill()
                        p.wait()
                        done.append((base, "stuck"))
                        pending.remove(t)
                else:
                    done.append((base, p.returncode))
                    pending.remove(t)
        ok = 0
        for base, rc in sorted(done, key=lambda x: str(x[0])):
            text = open(base + ".out", errors="replace").read()
            self.absorb(text)
            self.absorb_files(base)
            if rc == 0:
                ok += 1
            elif rc == 1:
                msg = "".join(l[5:] for l in text.splitlines() if l.startswith("FAIL "))
                self.violation(msg, base + ".replay")
            elif rc == 2:
                msg = "".join(l for l in text.splitlines() if l.startswith("HARNESS"))
                raise NoAnswer("harness error in %s: %s %s" % (base, msg, open(base + ".err").read()[-500:]))
            else:
                self.crashed(exe, base, rc, text, e)
        return ok

    def crashed(self, exe, base, rc, text, env):
        err = open(base + ".err", errors="replace").read()
        path, case = self.journal_to_replay(base)
        what = "did not terminate within the step or memory bound" if rc == 77 else \
            "made no progress" if rc == "stuck" else "ended with status %s" % rc
        try:
            p = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, env=env)
            again = p.returncode
            text2 = p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            again, text2 = "stuck", ""
        same = again == rc or (again == "stuck" and rc == "stuck") or \
            (isinstance(rc, int) and isinstance(again, int) and rc not in (0, 1, 2) and again not in (0, 1, 2))
        if again == 1:
            self.violation("the process %s; replayed: %s" % (what, text2[:500]), path)
        elif same and not (rc == "stuck"):
            with open(path, "a") as f:
                for l in (err + text2)[-3000:].splitlines():
                    f.write("# " + l + "\n")
            self.violation("the process %s, reproducibly, on one input" % what, path)
        elif same and rc == "stuck":
            # no library step was executed for minutes, twice
            self.violation("a call made no progress for minutes, twice", path)
        else:
            raise NoAnswer("worker %s %s but the replay of its case gave %s: %s" % (base, what, again, err[-500:]))

    def finish(self, min_evals=1, assumptions=()):
        cov = dict(
            evaluations=self.stats.pop("evaluations", 0),
            distinct_nontrivial=len(self.hashes) + self.extra_distinct,
            rule=self.rule,
            samples=self.samples[:12],
        )
        cov.update({k: v for k, v in self.stats.items()})
        cov.update(self.maxes)
        if any(self.map):
            cov["library_edges_covered"] = sum(1 for x in self.map if x)
        cov["monitor_events"] = self.events
        if self.phases:
            cov["phases"] = self.phases
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        if self.known:
            ev["known_findings_seen"] = self.known
        path = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(path + ".tmp", path)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            for m, r in self.violations[:3]:
                print("# " + m.replace("\n", " ")[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        if cov["evaluations"] < min_evals or cov["distinct_nontrivial"] < 1:
            raise NoAnswer("only %d evaluations" % cov["evaluations"])
        log("%s held: %d evaluations, %d distinct, %.1f s" % (self.prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - T0))
        return 0


def known_findings(run, exe):
    """Findings recorded for this property that still fail (reported, not alarms)."""
    p = subprocess.run([exe, "known", os.path.join(ROOT, "known-findings.txt"), run.prop], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=60)
    if p.returncode != 0:
        raise NoAnswer("known findings: " + p.stdout[-500:])
    run.known = [l[6:] for l in p.stdout.splitlines() if l.startswith("known ")]


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build_main()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    run = Run(prop, tier, seed)
    import plans
    try:
        if prop == "C23":
            return plans.plan(run, None, sys.modules["__main__"])
        exe = build_main()
        log("built in %.1f s" % (time.time() - T0))
        run.rule = subprocess.run([exe, "rule", prop], stdout=subprocess.PIPE, text=True).stdout.strip()
        known_findings(run, exe)
        return plans.plan(run, exe, sys.modules["__main__"])
    except (NoAnswer, subprocess.TimeoutExpired, OSError) as e:
        log("NO ANSWER: %s" % e)
        if run.violations:
            try:
                return run.finish(0)
            except NoAnswer:
                pass
        print("ERROR property=%s %s" % (prop, e))
        return 2


if __name__ == "__main__":
    try:
        os.setpgrp()
    except OSError:
        pass
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
