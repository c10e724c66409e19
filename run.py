#!/usr/bin/env python3
"""Driver of the checks.

  run.py setup              build every check in both configurations
  run.py check ID           run the check of one property (VERIF_TIER=quick|thorough)
  run.py replay FILE        re-execute one recorded violation

Exit codes of `check`: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 error of the check.
"""
import hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MC = os.path.join(ROOT, "mc")
TARGETS = os.path.join(ROOT, "target")
REPLAYS = os.path.join(ROOT, "replays")
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
CONFIGS = [("checked", [], "debug"), ("plain", ["--release"], "release")]
LEVEL = "model_checking"
AS_LIMIT = 24 << 30


def say(*a):
    print(*a, flush=True)


def tree_hash(root, subdirs):
    h = hashlib.sha256()
    for sub in subdirs:
        p = os.path.join(root, sub)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            if os.path.isfile(f):
                h.update(os.path.relpath(f, root).encode() + b"\0")
                h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def target_dir():
    # keyed by content, so that a stale timestamp can never hide a change of the code under test
    key = tree_hash(REPO, ["src", "Cargo.toml", "build.rs"]) + tree_hash(MC, ["src", "Cargo.toml"])[:8]
    d = os.path.join(TARGETS, key)
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    old = sorted((os.path.getmtime(os.path.join(TARGETS, x)), x) for x in os.listdir(TARGETS))
    for _, x in old[:-5]:
        shutil.rmtree(os.path.join(TARGETS, x), ignore_errors=True)
    return d


def cargo(target, extra, hooks, quiet=True):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
               RUSTFLAGS="--cfg vp_hooks" if hooks else "")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL",
              "CARGO_PROFILE_DEV_DEBUG"):
        env.pop(k, None)
    return subprocess.Popen(["cargo", "build", "--offline", "--manifest-path", os.path.join(MC, "Cargo.toml"),
                             "--target-dir", target] + extra, env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)


def build(bins):
    """Build the given binaries in both configurations; returns {config: directory} or exits 2."""
    base = target_dir()
    sel = [x for b in bins for x in ("--bin", b)]
    for hooks in (True, False):
        target = os.path.join(base, "hooks" if hooks else "nohooks")
        procs = [(name, cargo(target, sel + flags, hooks)) for name, flags, _ in CONFIGS]
        logs = {name: p.communicate()[0] for name, p in procs}
        bad = [name for name, p in procs if p.returncode != 0]
        if not bad:
            if not hooks:
                say("NOTE: built without hooks (states are not merged; bounded histories only)")
            return {name: os.path.join(target, d) for name, _, d in CONFIGS}
        if not hooks:
            say(logs[bad[0]][-6000:])
    say("ERROR: the check does not build against /repo")
    sys.exit(2)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_bin(path, args, timeout):
    p = subprocess.Popen([path] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, b"", b""
    return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")


def replay_case(exe, tier, at, timeout=400):
    """Re-run one case alone. Returns (violated, description, message)."""
    rc, out, err = run_bin(exe, ["--tier", tier, "--replay"] + [str(x) for x in at], timeout)
    case = msg = None
    ok = False
    for line in (out or "").splitlines():
        if line.startswith("CASE "):
            case = line[5:]
        elif line.startswith("CASE-VIOLATION "):
            msg = line[15:]
        elif line == "CASE-OK":
            ok = True
    if msg is not None:
        return True, case, msg
    if case is not None and not ok and rc is not None and rc < 0:
        return True, case, f"the process died with signal {-rc} ({signal.Signals(-rc).name}) {(err or '').strip()[-200:]}"
    if case is not None and not ok and rc is None:
        return True, case, f"does not terminate (no answer within {timeout} s)"
    return False, case, None


def slots_in_progress(path):
    raw = open(path, "rb").read()
    res = []
    for i in range(0, len(raw) - 63, 64):
        in_case, space, chunk, k = struct.unpack_from("<QQQQ", raw, i)
        if in_case:
            res.append((space, chunk, k))
    return sorted(res)


def explore(exe, tier, cfg, tmp, timeout):
    out = os.path.join(tmp, f"{cfg}.json")
    slots = os.path.join(tmp, f"{cfg}.slots")
    args = ["--tier", tier, "--out", out, "--slots", slots]
    if os.path.exists(KNOWN):
        args += ["--known", KNOWN]
    rc, so, se = run_bin(exe, args, timeout)
    if se.strip():
        sys.stderr.write(se[-3000:])
    if rc in (0, 1) and os.path.exists(out):
        return rc, json.load(open(out)), []
    if rc is None:
        say(f"ERROR: exploration in configuration {cfg} exceeded {timeout} s")
        return 2, None, []
    if rc == 2:
        say("ERROR: fault inside the explorer")
        return 2, None, []
    # hang (3) or death by signal: find the case and confirm it alone
    cands = []
    if rc == 3 and os.path.exists(out):
        h = json.load(open(out))["hang"]
        first = (h["space"], h["chunk"], h["k"])
        # one case can block the others (a lock it never releases): the one that hangs alone is to blame
        cands = [first] + [c for c in slots_in_progress(slots) if c != first]
    elif rc < 0:
        cands = slots_in_progress(slots)
    for at in cands:
        bad, case, msg = replay_case(exe, tier, at)
        if bad:
            return 1, None, [dict(space=at[0], chunk=at[1], k=at[2], name="", case=case, msg=msg)]
    say(f"ERROR: exploration in configuration {cfg} ended with {rc} and no case reproduces it")
    return 2, None, []


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = 840 if tier == "quick" else 6 * 3600
    b = pid.lower()
    ev_path = os.path.join(EVIDENCE, pid + ".json")
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    if b == "c28":
        import tracing
        return tracing.check(tier, seed, t0)
    if b == "c30":
        import miri
        return miri.check(tier, seed, t0)
    dirs = build([b])
    t_build = time.time() - t0
    results, violations, known = {}, [], []
    with tempfile.TemporaryDirectory(prefix="mc-") as tmp:
        for cfg, _, _ in CONFIGS:
            exe = os.path.join(dirs[cfg], b)
            left = budget - (time.time() - t0)
            rc, res, viol = explore(exe, tier, cfg, tmp, max(30, left))
            if rc == 2:
                return 2
            if res:
                results[cfg] = res
                known += [(k["case"], k["msg"]) for k in res["known"]]
                viol = res["violations"]
            for v in viol:
                v["config"] = cfg
            violations += viol
            if violations:
                break
    for case in sorted({c for c, _ in known}):
        say(f"KNOWN-FINDING: property={pid} {case}: " + " / ".join(dict.fromkeys(m for c, m in known if c == case)))
    paths = []
    for i, v in enumerate(violations[:1]):
        path = os.path.join(REPLAYS, f"{pid}.json")
        json.dump({"property": pid, "tier": tier, "config": v["config"], "at": [v["space"], v["chunk"], v["k"]],
                   "space": v.get("name"), "case": v["case"], "observed": v["msg"],
                   "how": f"python3 run.py replay {os.path.relpath(path, ROOT)}  (re-executes exactly this case)"},
                  open(path, "w"), indent=1)
        paths.append(path)
        say(f"  case ({v['config']} build): {v['case']}")
        say(f"  observed: {v['msg']}")
        say(f"VIOLATION property={pid} replay={path}")
    write_evidence(pid, tier, seed, results, violations, known, time.time() - t0, t_build)
    if not violations:
        tot = sum(s["executions"] for r in results.values() for s in r["spaces"])
        say(f"{pid}: held on {tot} executions ({tier}, {time.time() - t0:.1f} s, build {t_build:.1f} s)")
    return 1 if violations else 0


def write_evidence(pid, tier, seed, results, violations, known, wall, t_build):
    first = next(iter(results.values()), {"spaces": []})
    spaces, samples = [], []
    for i, s in enumerate(first["spaces"]):
        spaces.append({k: s[k] for k in ("name", "bound", "chunks", "states", "distinct_outcomes", "capped")}
                      | {"executions_by_config": {c: r["spaces"][i]["executions"] for c, r in results.items()},
                         "calls_by_config": {c: r["spaces"][i]["transitions"] for c, r in results.items()},
                         "cpu_s": round(sum(r["spaces"][i]["cpu_s"] for r in results.values()), 2)})
        samples += [f"[{s['name']}] {x}" for x in s["samples"][:3]]
    if not samples:
        samples = [v["case"] for v in violations[:3]] or ["none"]
    total = lambda k: sum(s[k] for r in results.values() for s in r["spaces"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": {
            "states": sum(s["states"] for s in first["spaces"]),
            "transitions": total("transitions"),
            "traces_validated_against_impl": total("executions"),
            "samples": samples[:40],
            "exhaustive": bool(results) and not violations and total("capped") == 0,
            "explanation": "states: distinct inputs or merged implementation states (one configuration; the others visit the same set). "
                           "transitions: library calls whose result was compared with the reference model, all configurations. "
                           "traces_validated_against_impl: executions of the real code, all configurations; there is no separate model run: every explored trace is an execution of the implementation.",
            "configurations": list(results), "hooks_on": all(r["hooks"] for r in results.values()),
            "spaces": spaces},
          "assumptions": ["the enumeration is complete within each space's stated bound and says nothing outside it",
                          "the reference models in mc/src are right (they are compared with the code on every case)"],
          "wall_s": round(wall, 2), "build_s": round(t_build, 2), "violations": len(violations),
          "known_findings": sorted({c for c, _ in known})}
    json.dump(ev, open(os.path.join(EVIDENCE, pid + ".json"), "w"), indent=1)


def setup():
    bins = sorted(f[:-3] for f in os.listdir(os.path.join(MC, "src", "bin")) if f.endswith(".rs"))
    build(bins)
    say("built", " ".join(bins))
    return 0


def replay(path):
    r = json.load(open(path))
    if r["property"] == "C28":
        import tracing
        return tracing.replay(r)
    if r["property"] == "C30":
        import miri
        return miri.replay(r)
    dirs = build([r["property"].lower()])
    bad, case, msg = replay_case(os.path.join(dirs[r["config"]], r["property"].lower()), r["tier"], r["at"])
    say("case:", case)
    say("violated: " + msg if bad else "held")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        sys.exit(setup())
    if a[:1] == ["check"] and len(a) == 2:
        sys.exit(check(a[1]))
    if a[:1] == ["replay"] and len(a) == 2:
        sys.exit(replay(a[1]))
    say(__doc__)
    sys.exit(2)
