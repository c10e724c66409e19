"""C30: every case of the bounded spaces of mi/, executed by Miri, which stops at undefined behaviour.

The cases are numbered; eight processes take every eighth of them.  Whatever Miri reports is confirmed by running the
case alone.  Only undefined behaviour (data races included) is a violation: panics, leaks, aborts and endless loops are
not (the last two are counted as unfinished).
"""
import json, os, queue, re, signal, subprocess, threading, time

import run

MI = os.path.join(run.ROOT, "mi")
FLAGS = "-Zmiri-tree-borrows -Zmiri-ignore-leaks"
CASE_LIMIT = 150
WORKERS = 8


def target_dir():
    d = os.path.join(run.target_dir(), "miri-" + run.tree_hash(MI, ["src", "Cargo.toml"])[:8])
    os.makedirs(d, exist_ok=True)
    return d


def command(profile, tier, args):
    env = dict(os.environ, MIRIFLAGS=FLAGS, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "CARGO_PROFILE_DEV_DEBUG"):
        env.pop(k, None)
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(MI, "Cargo.toml"), "--target-dir", target_dir()]
    return cmd + (["--release"] if profile == "release" else []) + ["--", tier] + [str(a) for a in args], env


def spawn(profile, tier, args):
    cmd, env = command(profile, tier, args)
    return subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True,
                            preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_CORE, (0, 0)))


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def spaces(profile, tier):
    p = spawn(profile, tier, ["list"])
    out, err = p.communicate(timeout=600)
    rows = [l.split("\t") for l in out.splitlines() if "\t" in l]
    if p.returncode != 0 or not rows or any(len(r) != 3 for r in rows):
        run.say(err[-4000:])
        run.say("ERROR: the check does not build against /repo, or Miri does not run")
        return None
    return [(r[0], int(r[1]), r[2]) for r in rows]


def undefined(err):
    m = re.search(r"^error: Undefined Behavior: (.*)$", err, re.M)
    if not m:
        return None
    at = re.search(r"^\s*--> (\S+)", err[m.start():], re.M)
    return m.group(1) + (f" (at {at.group(1)})" if at else "")


def one(profile, tier, space, case):
    """(steps taken, undefined behaviour or None, whether the case was finished)."""
    p = spawn(profile, tier, ["one", space, case])
    try:
        out, err = p.communicate(timeout=2 * CASE_LIMIT)
    except subprocess.TimeoutExpired:
        kill(p)
        p.communicate()
        return "?", None, False
    lines = out.splitlines()
    steps = [l.strip() for l in lines[1:] if l.startswith("  ") and l.strip()]
    return f"{lines[0] if lines else '?'}: " + "; ".join(steps), undefined(err), bool(lines) and lines[-1] == "defined"


class Stripe(threading.Thread):
    """The cases FROM, FROM + STEP, ... in one process at a time."""

    def __init__(self, profile, tier, sizes, start, stop, deadline):
        super().__init__(daemon=True)
        self.profile, self.tier, self.start_at, self.halt, self.deadline = profile, tier, start, stop, deadline
        self.offset = [sum(sizes[:k]) for k in range(len(sizes))]
        self.done, self.unfinished, self.ub, self.error, self.complete = [0] * len(sizes), [], [], None, False

    def run(self):
        at = self.start_at
        while at is not None and not self.halt.is_set():
            at = self.process(at)

    def process(self, at):
        p = spawn(self.profile, self.tier, ["run", at, WORKERS])
        q, errs = queue.Queue(), []
        reader = threading.Thread(target=lambda: ([q.put(l.strip()) for l in p.stdout], q.put(None)), daemon=True)
        ereader = threading.Thread(target=lambda: errs.append(p.stderr.read()), daemon=True)
        reader.start()
        ereader.start()
        cur, ended, since, timed_out = None, False, time.time(), False
        while True:
            try:
                l = q.get(timeout=1)
            except queue.Empty:
                if self.halt.is_set() or time.time() > self.deadline:
                    kill(p)
                    return None
                if time.time() - since > (CASE_LIMIT if cur else 600):
                    timed_out = True
                    kill(p)
                    break
                continue
            if l is None:
                break
            since = time.time()
            if l == "end":
                ended = True
                continue
            if self.halt.is_set() or time.time() > self.deadline:
                kill(p)
                return None
            if cur:
                self.done[cur[0]] += 1
            cur = tuple(int(x) for x in l.split())
        p.wait()
        ereader.join(10)
        err = errs[0] if errs else ""
        if ended and p.returncode == 0:
            if cur:
                self.done[cur[0]] += 1
            self.complete = True
            return None
        if cur is None:
            self.error = err[-2000:] or f"ended with {p.returncode}"
            self.halt.set()
            return None
        if undefined(err):
            self.ub.append((cur, undefined(err)))
            self.halt.set()
            return None
        if "Miri evaluation error" in err or re.search(r"^error", err, re.M) or timed_out or p.returncode != 0:
            why = "no answer in time" if timed_out else (re.search(r"^error.*$", err, re.M) or [f"ended with {p.returncode}"])[0]
            self.unfinished.append((cur, why))
        return self.offset[cur[0]] + cur[1] + WORKERS


def check(tier, seed, t0):
    profiles = ["release"] if tier == "quick" else ["release", "debug"]
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    known = [l.strip().split(" case=", 1)[1] for l in open(run.KNOWN) if l.startswith("finding: property=C30 case=")] if os.path.exists(run.KNOWN) else []
    done, samples, viol, found_known, unfinished, complete, sp = {}, [], [], {}, [], True, None
    for profile in profiles:
        sp = spaces(profile, tier)
        if sp is None:
            return 2
        sizes = [n for _, n, _ in sp]
        last = len(sp) - 1
        done[profile] = [0] * len(sp)
        # one at a time: recorded findings are among these
        for c in range(sizes[last]):
            desc, ub, fin = one(profile, tier, last, c)
            if ub is None and not fin:
                unfinished.append((profile, last, c, "not finished"))
            elif ub is None:
                done[profile][last] += 1
            elif desc in known:
                done[profile][last] += 1
                found_known[desc] = ub
            else:
                viol.append((profile, last, c, desc, ub))
        if not viol:
            halt = threading.Event()
            st = [Stripe(profile, tier, sizes[:last], i, halt, deadline) for i in range(WORKERS)]
            for s in st:
                s.start()
            for s in st:
                s.join()
            for s in st:
                if s.error:
                    run.say(s.error)
                    run.say("ERROR: Miri stopped before the first case")
                    return 2
                unfinished += [(profile, c[0], c[1], why) for c, why in s.unfinished]
                for k, d in enumerate(s.done):
                    done[profile][k] += d
            complete = complete and all(s.complete for s in st)
            for c, ub in sorted(x for s in st for x in s.ub):
                desc, again, _ = one(profile, tier, *c)
                if again and desc in known:
                    found_known[desc] = again
                elif again:
                    viol.append((profile, *c, desc, again))
                    break
                else:
                    run.say(f"ERROR: {ub} in space {c[0]} case {c[1]} is not reproduced alone")
                    return 2
        if not samples:
            for k, (name, n, _) in enumerate(sp):
                samples.append(f"[{name}] " + one(profile, tier, k, n // 2)[0].split(": ", 1)[-1][:400])
        if viol:
            break
    for d, ub in sorted(found_known.items()):
        run.say(f"KNOWN-FINDING: property=C30 {d}: {ub}")
    for prof, k, c, why in unfinished[:3]:
        run.say(f"NOTE: not finished ({prof} build): space {k} case {c}: {why}")
    total = sum(sum(d) for d in done.values())
    complete = complete and not unfinished
    ev = {"property": "C30", "tier": tier, "seed": seed, "level": run.LEVEL, "coverage": {
            "states": sum(n for _, n, _ in sp), "transitions": total, "traces_validated_against_impl": total, "samples": samples,
            "exhaustive": complete and not viol,
            "explanation": "states: distinct cases (an input and a short history of calls) in the spaces; transitions and traces_validated_against_impl: cases executed "
                           "to the end on the real code under Miri, builds counted separately; undefined behaviour in any of them is a violation.",
            "configurations": list(done), "monitor": "cargo +nightly miri run, MIRIFLAGS=" + FLAGS, "not_finished": len(unfinished),
            "spaces": [{"name": n, "bound": b, "cases": c, "executions_by_config": {p: d[k] for p, d in done.items()}} for k, (n, c, b) in enumerate(sp)]},
          "assumptions": ["undefined behaviour is what Miri reports with Tree Borrows",
                          "threads run in one schedule; data races are found by happens-before, not by their effect",
                          "the enumeration is complete within each space's stated bound and says nothing outside it"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol), "known_findings": sorted(found_known)}
    json.dump(ev, open(os.path.join(run.EVIDENCE, "C30.json"), "w"), indent=1)
    if viol:
        profile, k, c, desc, ub = viol[0]
        path = os.path.join(run.REPLAYS, "C30.json")
        json.dump({"property": "C30", "tier": tier, "config": profile, "at": [k, c], "case": desc, "observed": ub,
                   "how": "python3 run.py replay replays/C30.json  (runs exactly this case under Miri)"}, open(path, "w"), indent=1)
        run.say(f"  case ({profile} build): {desc}")
        run.say(f"  observed: {ub}")
        run.say(f"VIOLATION property=C30 replay={path}")
        return 1
    run.say(f"C30: held on {total} executions ({tier}, {time.time() - t0:.1f} s)" + ("" if complete else ", exploration incomplete"))
    return 0


def replay(r):
    desc, ub, _ = one(r["config"], r["tier"], *r["at"])
    run.say("case:", desc)
    run.say("violated: " + ub if ub else "held")
    return 1 if ub else 0
