"""C28: the tracing macro, explored by generating every program of a bounded space of uses.

A case is one use of `de!`: an argument list (every combination of expression kinds up to a length), a spelling
(brackets, trailing comma, several lines, import or path) and a place.  All cases of a batch are compiled into one
program against /repo, in the debug and in the release profile; the program marks the cases on standard error and
writes the order in which argument expressions were evaluated to a file.
"""
import itertools, json, os, re, shutil, subprocess, sys, tempfile, time

import run

# name, statements before, expression (canonical spelling), debug text, evaluations it performs
KINDS = [
    ("integer", "", "7", "7", []),
    ("negative", "", "-3", "-3", []),
    ("text", "", '"a b"', '"a b"', []),
    ("braces in text", "", '"{} {:?}"', '"{} {:?}"', []),
    ("newline in text", "", '"x\\ny"', '"x\\ny"', []),
    ("variable", "let v@ = 10 + @;", "v@", lambda p: str(10 + p), []),
    ("moved string", 'let s@ = String::from("own");', "s@", '"own"', []),
    ("reference", "let r@ = vec![1, 2];", "&r@", "[1, 2]", []),
    ("vector", "let w@ = vec![Some(1), None];", "w@", "[Some(1), None]", []),
    ("sum", "let v@ = 4;", "v@ * 2 + 1", "9", []),
    ("call", "", "tick(@1)", lambda p: str(p * 10 + 1), lambda p: [p * 10 + 1]),
    ("nested calls", "", "tick(@1) - tick(@2)", "-1", lambda p: [p * 10 + 1, p * 10 + 2]),
    ("method", 'let s@ = "abc";', "s@.len()", "3", []),
    ("method with effect", "let mut q@ = vec![1];", "q@.pop()", "Some(1)", []),
    ("tuple", "", "(1, 'x', 2.5)", "(1, 'x', 2.5)", []),
    ("unit", "", "()", "()", []),
    ("effect of unit type", "", "note(@7)", "()", lambda p: [p * 10 + 7]),
    ("block", "", "{ tick(@3); 5 }", "5", lambda p: [p * 10 + 3]),
    ("condition", "", "if tick(@4) > 0 { 'y' } else { 'n' }", "'y'" , lambda p: [p * 10 + 4]),
    ("short circuit", "", "tick(@5) < 0 && tick(@6) > 0", "false", lambda p: [p * 10 + 5]),
    ("range", "", "0..3", "0..3", []),
    ("index", "let a@ = [5, 6];", "a@[1]", "6", []),
    ("cast", "", "44 as u8 as char", "','", []),
    ("turbofish", "", "Vec::<i32>::new()", "[]", []),
    ("macro", "", "vec![tick(@8), 0]", lambda p: f"[{p * 10 + 8}, 0]", lambda p: [p * 10 + 8]),
    ("mutable borrow", "let mut m@ = 3;", "&mut m@", "3", []),
    ("struct", "", "(Point { x: 1, y: tick(@9) })", lambda p: f"Point {{ x: 1, y: {p * 10 + 9} }}", lambda p: [p * 10 + 9]),
    ("comparison", "let v@ = 2;", "v@ == 2", "true", []),
    ("closure call", "let mut c@ = 0;", "(|| { c@ += 1; c@ })()", "1", []),
    ("nested option", "", 'Some(Ok::<_, ()>("z"))', 'Some(Ok("z"))', []),
    ("own report with blanks", "", "Raw(\" x  \")", " x  ", []),
    ("own report, blank", "", "Raw(\"  \")", "  ", []),
    ("own report, empty", "", "Raw(\"\")", "", []),
    ("own report, braces and percent", "", 'Raw("{}%s{{\\\\t")', "{}%s{{\\t", []),
    ("format flags", "", "Flags", "false None None ' ' false false", []),
    ("floats", "", "[0.1f64 + 0.2, 1e-7, -0.0, f64::NAN]", "[0.30000000000000004, 1e-7, -0.0, NaN]", []),
    ("other letters", "", '"é😀\\u{0}"', '"é😀\\0"', []),
    ("raw text", "", 'r#"a"b\\n"#', '"a\\"b\\\\n"', []),
    ("bytes", "", "*b\"a\\x00\"", "[97, 0]", []),
    ("long text", "", '"k".repeat(5000)', '"' + "k" * 5000 + '"', []),
    ("long vector", "", "vec![7u8; 3000]", "[" + ", ".join(["7"] * 3000) + "]", []),
    ("match", "let v@ = 3;", "match v@ { 3 => tick(@2), _ => 0 }", lambda p: str(p * 10 + 2), lambda p: [p * 10 + 2]),
    ("negation", "let b@ = true;", "!b@", "false", []),
    ("dereference", "let v@ = 6; let r@ = &v@;", "*r@ + 1", "7", []),
    ("array", "", "[[1u8; 2]; 2]", "[[1, 1], [1, 1]]", []),
    ("widest", "", "(i128::MIN, u128::MAX)", "(-170141183460469231731687303715884105728, 340282366920938463463374607431768211455)", []),
    ("assignment", "let mut v@ = 1;", "v@ += 2", "()", []),
]
CORE = [0, 2, 5, 6, 10, 11, 14, 16, 17, 24]
FORMS = [("de!(", ")", ""), ("de!(", ",)", ""), ("de![", "]", ""), ("de!{", "}", ""), ("rust_cp::de!(", ")", ""),
         ("::rust_cp::de!(", ",)", ""), ("de!(\n", "\n)", "\n"), ("de!(\n", ",\n)", "\n")]
PLACES = ["{}", "for i in 0..2 {{ let _ = i; {} }}", "if always() {{ {} }}", "let f = || {{ {} }}; f();", "match 1 {{ 1 => {{ {} }} _ => () }}",
          "{{ {{ {} }} }}"]
REPEAT = [1, 2, 1, 1, 1, 1]
PRELUDE = '''#![allow(unused, path_statements)]
%s
use std::cell::RefCell;
thread_local! { static LOG: RefCell<Vec<i64>> = RefCell::new(vec![]); }
pub fn tick(k: i64) -> i64 { LOG.with(|l| l.borrow_mut().push(k)); k }
pub fn note(k: i64) { tick(k); }
pub fn always() -> bool { std::env::args().count() > 0 }
#[derive(Debug)] pub struct Point { pub x: i64, pub y: i64 }
pub struct Raw(pub &'static str);
impl std::fmt::Debug for Raw { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
pub struct Flags;
impl std::fmt::Debug for Flags {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let s = format!("{} {:?} {:?} {:?} {} {}", f.alternate(), f.width(), f.precision(), f.fill(), f.sign_plus(), f.sign_aware_zero_pad());
        f.write_str(&s)
    }
}
'''
IMPORTS = ["use rust_cp::de;", "#[macro_use] extern crate rust_cp;", "use rust_cp::*;"]


def sub(x, p):
    return x(p) if callable(x) else x


def make(kinds, form, place, imp=0):
    return {"kinds": list(kinds), "form": form, "place": place, "import": imp}


def space(tier):
    """Returns [(name, bound, cases)]."""
    n = len(KINDS)
    s = []
    s.append(("spellings", f"no argument and each of {n} expression kinds in {len(FORMS)} spellings, {len(PLACES)} places, {len(IMPORTS)} ways of importing",
              [make(k, f, p, i) for i in range(len(IMPORTS)) for f in range(len(FORMS)) for p in range(len(PLACES))
               for k in [()] + [(x,) for x in range(n)] if not (k == () and FORMS[f][1].startswith(","))]))
    s.append(("pairs", f"all ordered pairs of {n} expression kinds, two spellings",
              [make(k, f, 0) for f in (0, 7) for k in itertools.product(range(n), repeat=2)]))
    base = range(n) if tier == "thorough" else CORE
    s.append(("triples", f"all ordered triples of {len(base)} expression kinds",
              [make(k, 1, 0) for k in itertools.product(base, repeat=3)]))
    if tier == "thorough":
        s.append(("quadruples", "all ordered quadruples of 10 expression kinds", [make(k, 0, 0) for k in itertools.product(CORE, repeat=4)]))
    s.append(("long lists", f"every list length up to {64 if tier == 'thorough' else 32}, cycling through the kinds from every start",
              [make([(a + i * 7) % n for i in range(l)], a % 2, 0) for l in range(3, (65 if tier == "thorough" else 33))
               for a in (range(n) if tier == "thorough" or l <= 12 else (0, 11, 23))]))
    return s


def render(case, idx, line):
    """Source lines of one case, first line number given; also the expected debug output and evaluations."""
    setup, args, texts, evals = [], [], [], []
    for p, k in enumerate(case["kinds"], 1):
        _, pre, expr, dbg, ev = KINDS[k]
        at = lambda t: t.replace("@", str(p))
        if pre:
            setup.append(at(pre))
        args.append(at(expr))
        texts.append(f" {at(expr)} = {sub(dbg, p)}")
        evals += sub(ev, p)
    o, c, sep = FORMS[case["form"]]
    place = case["place"]
    body = []
    # values are moved by the macro, so they are made where it stands
    inner = " ".join(setup) + " " + o + ("," + (sep or " ")).join(args) + c + (";" if not o.endswith("{") else "")
    src = f"fn case_{idx}() {{\n" + PLACES[place].format(inner) + "\n}\n"
    macro_line = line + 1
    rep = REPEAT[place]
    return src, "".join(f"#{macro_line}{''.join(texts)}\n" for _ in range(rep)), evals * rep


def program(cases, imp):
    src = PRELUDE % IMPORTS[imp]
    exp, spans = [], []
    for i, c in enumerate(cases):
        line = src.count("\n") + 1 if i == 0 else line
        s, out, ev = render(c, i, line)
        parts.append(s) if i else None
        if i == 0:
            parts = [src, s]
        spans.append((line, line + s.count("\n")))
        line += s.count("\n")
        exp.append((out, ev))
    parts.append("fn main() {\n let cases: &[fn()] = &[" + ", ".join(f"case_{i}" for i in range(len(cases))) + "];\n"
                 " let mut log = String::new();\n"
                 " for (i, f) in cases.iter().enumerate() {\n"
                 "  eprint!(\"@@{}@@\", i);\n"
                 "  let ok = std::panic::catch_unwind(|| f()).is_ok();\n"
                 "  log += &format!(\"{} {} {:?}\\n\", i, ok, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())));\n"
                 " }\n eprint!(\"@@end@@\");\n"
                 " std::fs::write(std::env::args().nth(1).unwrap(), log).unwrap();\n}\n")
    return "".join(parts), exp, spans


def describe(case):
    src, _, _ = render(case, 0, 1)
    return f"{IMPORTS[case['import']]} {' '.join(src.split())}"


CARGO = """[package]
name = "tracing_cases"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust-cp = { path = "%s" }
[profile.dev]
debug = 0
incremental = false
[profile.release]
incremental = false
"""


def compile_(tmp, name, src, profile, target):
    d = os.path.join(tmp, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write((CARGO % run.REPO).replace("tracing_cases", name))
    open(os.path.join(d, "src", "main.rs"), "w").write(src)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", RUSTFLAGS="")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL"):
        env.pop(k, None)
    # the library goes to a target directory of its own per program: cargo locks it
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml"), "--target-dir", os.path.join(target, name)]
                       + (["--release"] if profile == "release" else []), env=env, capture_output=True, text=True)
    exe = os.path.join(target, name, profile, name)
    return (exe if p.returncode == 0 else None), p.stderr


def execute(exe, tmp):
    log = exe + ".log"
    if os.path.exists(log):
        os.unlink(log)
    try:
        p = subprocess.run([exe, log], capture_output=True, text=True, timeout=120, cwd=tmp)
    except subprocess.TimeoutExpired:
        return None
    rows = {}
    if os.path.exists(log):
        for l in open(log):
            i, ok, ev = l.split(" ", 2)
            rows[int(i)] = (ok == "true", json.loads(ev))
    return p.returncode, p.stdout, p.stderr, rows


def judge(i, exp, profile, err, rows):
    out, ev = exp
    if profile == "release":
        out, ev = "", []
    m = re.search(r"@@%d@@(.*?)@@(%d|end)@@" % (i, i + 1), err, re.S)
    if i not in rows or not m:
        return "the program did not get past this use"
    ok, got_ev = rows[i]
    if not ok:
        return "panicked: " + m.group(1)[-200:]
    if got_ev != ev:
        return f"evaluations in order {got_ev}, expected {ev}"
    if m.group(1) != out:
        return f"standard error got {m.group(1)!r}, expected {out!r}"
    return None


def batch(cases, imp, profile, tmp, target, name):
    """Returns (None or (index, message)); index None: not attributable to one use."""
    src, exp, spans = program(cases, imp)
    exe, log = compile_(tmp, name, src, profile, target)
    if exe is None:
        lines = [int(x) for x in re.findall(r"^\s*--> src/main\.rs:(\d+):", log, re.M)]
        for l in lines:
            for i, (a, b) in enumerate(spans):
                if a <= l < b:
                    return i, "not accepted by the compiler: " + " ".join(re.findall(r"^error.*$", log, re.M)[:2])
        return None, log[-3000:]
    r = execute(exe, tmp)
    shutil.rmtree(os.path.join(target, name), ignore_errors=True)
    if r is None:
        return 0 if len(cases) == 1 else None, "does not terminate"
    rc, out, err, rows = r
    for i in range(len(cases)):
        msg = judge(i, exp[i], profile, err, rows)
        if msg:
            return i, msg
    if out:
        if len(cases) == 1:
            return 0, f"wrote to standard output: {out[:200]!r}"
        # find one use that does it alone
        h = len(cases) // 2
        return batch(cases[:h], imp, profile, tmp, target, name) or shift(batch(cases[h:], imp, profile, tmp, target, name), h) or (None, "wrote to standard output")
    return None


def shift(r, h):
    return (r[0] + h, r[1]) if r and r[0] is not None else r


def explore(tier, tmp, target):
    spaces = space(tier)
    jobs = []
    for si, (_, _, cases) in enumerate(spaces):
        for imp in range(len(IMPORTS)):
            sel = [c for c in cases if c["import"] == imp]
            step = 400
            for a in range(0, len(sel), step):
                for profile in ("debug", "release"):
                    jobs.append((si, sel[a:a + step], imp, profile))
    from concurrent.futures import ThreadPoolExecutor
    found, errors, done = [], [], [0] * len(spaces)

    def one(j):
        n, (si, cases, imp, profile) = j
        if found or errors:
            return
        r = batch(cases, imp, profile, tmp, target, f"b{n}")
        if r is None:
            done[si] += len(cases)
        elif r[0] is None:
            errors.append(r[1])
        else:
            # confirm alone
            c = cases[r[0]]
            alone = batch([c], imp, profile, tmp, target, f"one{n}")
            if alone and alone[0] is not None:
                found.append((n, c, profile, alone[1]))
            else:
                errors.append(f"{describe(c)}: {r[1]} (not reproduced alone: {alone})")

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, enumerate(jobs)))
    return spaces, done, sorted(found, key=lambda x: x[0]), errors


def check(tier, seed, t0):
    target = os.path.join(run.target_dir(), "tracing")
    with tempfile.TemporaryDirectory(prefix="mc-") as tmp:
        spaces, done, found, errors = explore(tier, tmp, target)
    known = [l.strip().split(" case=", 1)[1] for l in open(run.KNOWN) if l.startswith("finding: property=C28 case=")] if os.path.exists(run.KNOWN) else []
    viol = []
    for _, c, profile, msg in found:
        d = describe(c)
        if d in known:
            run.say(f"KNOWN-FINDING: property=C28 {d}: {msg}")
        else:
            viol.append((c, profile, d, msg))
    cases = [c for s in spaces for c in s[2]]
    pick = [cases[i] for i in range(0, len(cases), max(1, len(cases) // 12))]
    ev = {"property": "C28", "tier": tier, "seed": seed, "level": run.LEVEL, "coverage": {
            "states": len(cases), "transitions": sum(max(1, len(c["kinds"])) for c in cases) * 2,
            "traces_validated_against_impl": sum(done), "samples": [describe(c) for c in pick[:12]],
            "exhaustive": not viol and not errors,
            "explanation": "states: distinct uses of the macro (argument list, spelling, place, import); transitions: argument expressions expanded in both profiles; "
                           "traces_validated_against_impl: uses compiled against /repo and executed, debug and release builds counted separately.",
            "configurations": ["debug", "release"],
            "spaces": [{"name": n, "bound": b, "cases": len(c), "executions": done[i]} for i, (n, b, c) in enumerate(spaces)]},
          "assumptions": ["expressions are written in the compiler's canonical spelling, so their text is known in advance",
                          "lines written by concurrent threads are not covered"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol), "known_findings": []}
    json.dump(ev, open(os.path.join(run.EVIDENCE, "C28.json"), "w"), indent=1)
    if viol:
        c, profile, d, msg = viol[0]
        path = os.path.join(run.REPLAYS, "C28.json")
        json.dump({"property": "C28", "tier": tier, "config": profile, "case": d, "use": c, "observed": msg,
                   "how": "python3 run.py replay replays/C28.json  (compiles and runs exactly this use)"}, open(path, "w"), indent=1)
        run.say(f"  case ({profile} build): {d}")
        run.say(f"  observed: {msg}")
        run.say(f"VIOLATION property=C28 replay={path}")
        return 1
    if errors:
        run.say("ERROR: " + errors[0])
        return 2
    run.say(f"C28: held on {sum(done)} executions ({tier}, {time.time() - t0:.1f} s)")
    return 0


def replay(r):
    target = os.path.join(run.target_dir(), "tracing")
    with tempfile.TemporaryDirectory(prefix="mc-") as tmp:
        res = batch([r["use"]], r["use"]["import"], r["config"], tmp, target, "replay")
    run.say("case:", r["case"])
    run.say("violated: " + res[1] if res else "held")
    return 1 if res else 0
