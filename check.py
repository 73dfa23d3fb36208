#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (VERIF_TIER=quick|thorough)
   check.py setup               build everything beforehand
   check.py replay FILE         replay a reported violation against /repo

Exit 0: the property held on everything explored.  Exit 1: a violation that was
replayed against the real code (VIOLATION line).  Exit 2: no answer."""
import json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
GB = 1 << 30
KANI = {"C15": "ints", "C21": "text"}
BOTH = {"C21"}  # Kani decides short texts, symx texts assembled from pieces
INTS = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split()
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
T0 = time.time()
# Seconds a check may use (a check gets 900 s at most in the quick tier).
QUICK_BUDGET = int(os.environ.get("VERIF_QUICK_S", "600"))
EXTRA_BUDGET = int(os.environ.get("VERIF_EXTRA_S", "2400"))


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env(extra=None):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["RUSTFLAGS"] = "--cap-lints allow"
    e.update(extra or {})
    return e


LIVE = set()


def kill_all():
    for p in list(LIVE):
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass


def run(cmd, timeout, cwd=None, extra=None, mem=None, out=None):
    """Runs cmd in its own process group; (rc or None on timeout, output)."""
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", preexec_fn=pre)
    LIVE.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o
    finally:
        LIVE.discard(p)


# ---- Building -----------------------------------------------------------------
def build(crate, feature=None, release=False, binary=None):
    td = os.path.join(BUILD, crate + ("-" + feature if feature else ""))
    cmd = ["cargo", "build", "--offline", "--locked"]
    if feature:
        cmd += ["--features", feature]
    if release:
        cmd += ["--release"]
    rc, o = run(cmd, 600, cwd=os.path.join(VERIF, crate), extra={"CARGO_TARGET_DIR": td})
    if rc != 0:
        raise NoAnswer(f"building {crate} failed ({rc}):\n{o[-4000:]}")
    return os.path.join(td, "release" if release else "debug", binary or crate)


def feature_of(prop):
    return "serde" if prop == "C29" else None


# ---- Native replay --------------------------------------------------------------
def write_replay(prop, n, d):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    p = os.path.join(EVID, "replay", f"{prop}-{n}.txt")
    with open(p, "w") as f:
        for k, v in d.items():
            f.write(f"{k}={v}\n")
    return p


def replay_native(prop, path, profiles=("dev", "release"), limit=25):
    """Replays one input natively. Returns (reproduced, what happened)."""
    said = []
    # Kani's inputs are bytes, those of symx choices and values.
    kani_replay = any(l.startswith("check=") for l in open(path))
    for prof in profiles:
        if kani_replay:
            exe, cmd = build("kani", release=prof == "release", binary="replay"), []
        else:
            exe, cmd = build("symx", feature_of(prop), prof == "release"), ["replay"]
        rc, o = run([exe] + cmd + [path], limit, mem=3 * GB)
        lines = [l for l in o.splitlines() if l.startswith(("FAIL", "OK", "SKIP"))]
        msg = lines[-1] if lines else (o.strip().splitlines() or [""])[-1][:300]
        said.append(f"{prof}: " + (f"no end within {limit} s" if rc is None else msg if rc in (0, 1, 4) else f"died with status {rc}: {msg}"))
        if rc is None or rc == 1 or rc < 0 or rc > 100:
            return True, "; ".join(said)
        if rc not in (0, 4):
            raise NoAnswer(f"replay of {path} failed: {said}")
    return False, "; ".join(said)


# ---- Symbolic execution (symx) -------------------------------------------------
def functions_of(prop):
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == prop:
            return [f"{m['name']} ({m['where']})" for m in d["anchors"]["mechanism"]]
    return []


def wit_fields(prop, harness, args, ty, w, msg):
    return dict(property=prop, harness=harness, args=",".join(map(str, args)), type=ty, m=w["m"],
                choices=",".join(map(str, w["choices"])), values=",".join(map(str, w["values"])), message=msg.replace("\n", " "))


# Seconds spent on exploring the release build (debug assertions and overflow
# checks off) once the debug build is done.
RELEASE_BUDGET = int(os.environ.get("VERIF_RELEASE_S", "100" if TIER == "quick" else "900"))


def symx(prop):
    """Explores the debug build completely, then as much as fits of the release
    build, cheapest jobs first."""
    with ThreadPoolExecutor(1) as ex:
        rel = ex.submit(build, "symx", feature_of(prop), True)
        res, found = symx_run(prop, build("symx", feature_of(prop)))
        exe = rel.result()
    if found or res is None:
        return res, found
    left, jobs = RELEASE_BUDGET, []
    for j in sorted((j for j in res["jobs"] if not j.get("skipped") and not j["timed_out"]), key=lambda j: j["wall_s"]):
        if left > j["wall_s"]:
            left -= j["wall_s"]
            jobs.append(j)
    lst = os.path.join(BUILD, f"release-{prop}.list")
    with open(lst, "w") as f:
        f.writelines(f"{j['harness']} {','.join(map(str, j['args']))}\n" for j in jobs)
    rres, found = symx_run(prop, exe, lst)
    if rres is None:
        return None, found
    res["release"] = rres
    return res, found


def symx_run(prop, exe, jobs=None):
    tag = prop + ("-release" if jobs else "")
    out = os.path.join(BUILD, f"out-{tag}.json")
    dump = os.path.join(BUILD, f"dump-{tag}")
    shutil.rmtree(dump, ignore_errors=True)
    os.makedirs(dump)
    for x in (out, out + ".crash", out + ".jobs"):
        if os.path.exists(x):
            os.remove(x)
    cmd = [exe, "explore", "--prop", prop, "--tier", TIER, "--out", out, "--budget", str(QUICK_BUDGET), "--dump", dump]
    limit = QUICK_BUDGET + 60
    if jobs:
        cmd += ["--jobs", jobs]
        # Twice the time the debug build took is plenty.
        limit = min(limit, 850 - (time.time() - T0)) if TIER == "quick" else 3 * RELEASE_BUDGET + 120
        cmd[cmd.index("--budget") + 1] = str(int(max(5, limit - 30)))
    elif TIER == "thorough":
        cmd += ["--extra", str(EXTRA_BUDGET)]
        limit = max(QUICK_BUDGET, EXTRA_BUDGET) + 120
    if os.environ.get("VERIF_VERBOSE"):
        cmd += ["--verbose", "1"]
    rc, o = run(cmd, limit, mem=20 * GB)
    if os.environ.get("VERIF_VERBOSE"):
        log(o)
    crash = open(out + ".crash").read().split("\n") if os.path.exists(out + ".crash") else []
    crash = [c for c in crash if c.strip()]
    found, res = [], None
    if crash:
        jobs = {}
        for l in open(out + ".jobs"):
            p = l.rstrip("\n").split(" ")
            jobs[int(p[0])] = (p[1], p[2] if len(p) > 2 else "")
        finite = {l.split()[1]: "finite=true" in l for l in run([exe, "list"], 20)[1].splitlines()}
        for n, c in enumerate(crash):
            kind, job, m, ch, va = c.split(" ")
            h, a = jobs[int(job)]
            d = dict(property=prop, harness=h, args=a, type="dyn" if finite[h] else "i64", m=m, choices=ch[1:].strip(","), values=va[1:].strip(","),
                     message="no end" if kind == "hang" else "the process aborted")
            p = write_replay(prop, n, d)
            yes, said = replay_native(prop, p)
            if yes:
                found.append((p, said, f"{h}[{a}] {d['message']}"))
        if not found:
            raise NoAnswer(f"the exploration stopped ({crash[0].split()[0]}) but no input reproduces it: {crash[:3]}\n{o[-1500:]}")
        return None, found
    if rc != 0 or not os.path.exists(out):
        raise NoAnswer(f"symx explore ended with {rc}:\n{o[-3000:]}")
    res = json.load(open(out))
    n, lost = 0, []
    for j in res["jobs"]:
        for f in j.get("found", []):
            tries = [(j["types"][0], f["wit"])]
            if f["wit_u8"] and "u8" in j["types"]:
                tries.append(("u8", f["wit_u8"]))
            ok = False
            for ty, w in tries:
                p = write_replay(prop, n, wit_fields(prop, j["harness"], j["args"], ty, w, f["msg"]))
                yes, said = replay_native(prop, p)
                if yes:
                    found.append((p, said, f"{j['harness']}{j['args']} {f['msg']}"))
                    ok = True
                    n += 1
                    break
            if not ok:
                lost.append((j["harness"], j["args"], f["msg"], f["wit"]))
            if len(found) >= 3:
                break
    if not found:
        if lost:
            raise NoAnswer(f"counterexamples that the real code does not reproduce: {lost[:3]}")
        # Small structures come first. Code that became much slower may leave the
        # largest ones undone: they are reported as such, and no more than half.
        late = [j for j in res["jobs"] if j.get("required") and (j.get("skipped") or j.get("timed_out"))]
        if not jobs and late:
            for j in late:
                print(f"NOT-REACHED: {j['harness']}{j['args']} did not finish within the budget")
            if 2 * len(late) > sum(1 for j in res["jobs"] if j.get("required")):
                raise NoAnswer("most of the required jobs did not finish within the budget")
        for j in res["jobs"]:
            if j.get("mismatch"):
                raise NoAnswer(f"symbolic and native runs differ in {j['harness']}{j['args']}: {j['mismatch']}")
            if j.get("unknown"):
                raise NoAnswer(f"{j['harness']}{j['args']}: {j['unknown']} queries undecided")
            # Reachability: a job none of whose paths gets to an assertion proves nothing.
            if not j.get("skipped") and not j["timed_out"] and (j["paths"] == 0 or not j["covers"]):
                raise NoAnswer(f"{j['harness']}{j['args']} reaches no assertion (vacuous)")
    res["cross"] = None if found else cross_check(dump)
    return res, found


def cross_check(dump):
    """A second solver (cvc5) on a sample of the queries z3 answered unsat."""
    files = sorted(os.listdir(dump))
    files = [files[(SEED * 7 + i * 13) % len(files)] for i in range(min(12, len(files)))] if files else []
    t, agree = time.time(), 0
    for f in sorted(set(files)):
        rc, o = run(["cvc5", "--lang", "smt2", "--tlimit=20000", os.path.join(dump, f)], 30)
        a = o.strip().split("\n")[-1] if o.strip() else ""
        if a == "unsat":
            agree += 1
        elif a == "sat":
            raise NoAnswer(f"solvers disagree on {f}")
    return dict(solver="cvc5", queries=len(set(files)), agree=agree, seconds=round(time.time() - t, 2))


def evidence(prop, level, coverage, assumptions, violations):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=coverage, assumptions=assumptions,
             wall_s=round(time.time() - T0, 3), violations=violations)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(d, f, indent=1)


SYMX_ASSUMPTIONS = [
    "The library code is generic over its point type and is executed unmodified with a symbolic point type; what it does with points goes through Ord, Eq, Hash, Clone, Finite, Sub, Display/FromStr or serde, all symbolic.",
    "finite=true harnesses: points range over a finite type with any number (>= 1) of consecutive values; finite=false: over any unbounded total order with a point between and around any two (decided over the reals), inputs being any order type of the given points.",
    "Every fresh start state is an arbitrary canonical value with the stated number of runs, built through the public constructors.",
    "Trusted: rustc, the standard library, z3 4.8 (sampled cross-check with cvc5), the path explorer in symx.",
]


def symx_coverage(res):
    js = [j for j in res["jobs"] if not j.get("skipped")]
    s = lambda k: sum(j[k] for j in js)
    extra = {}
    if res.get("release"):
        r = symx_coverage(res["release"])
        extra["release_build"] = {k: r[k] for k in ("states", "transitions", "queries", "unsat", "solver_s", "traces_validated_against_impl", "not_reached_in_time")}
        extra["release_build"]["jobs"] = len(r["bounds"])
        extra["release_build"]["bounds"] = [f"{b['harness']}{b['args']}" for b in r["bounds"]]
    return dict(
        **extra,
        states=s("paths"), transitions=s("branches"), traces_validated_against_impl=s("validated"),
        samples=[dict(harness=j["harness"], args=j["args"], **w) for j in js for w in j["samples"][:1]][:12],
        queries=s("queries"), sat=s("sat"), unsat=s("unsat"), unknown=s("unknown"), cached=s("cached"),
        infeasible_paths=s("infeasible"), solver_s=round(s("solver_s"), 3), solver=res["z3"], cross_check=res.get("cross"),
        bounds=[dict(harness=j["harness"], args=j["args"], finite=j["finite"], paths=j["paths"], queries=j["queries"], solver_s=j["solver_s"],
                     max_branch_depth=j["max_depth"], reached=j["covers"], complete=not j["timed_out"]) for j in js],
        not_reached_in_time=[f"{j['harness']}{j['args']}" for j in res["jobs"] if j.get("skipped") or j.get("timed_out")],
        meaning="states: complete symbolic paths, each standing for every assignment of points satisfying its condition; transitions: solver-decided branches; traces_validated: paths whose model was also run natively with the same outcome and observations",
    )


# ---- Kani ------------------------------------------------------------------------
KTD = os.path.join(BUILD, "kani-bmc")


def kani_one(h, timeout, playback=False, unwind=None):
    cmd = ["cargo", "kani", "--exact", "--harness", h, "-Z", "unstable-options", "--no-assertion-reach-checks"]
    if playback:
        cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    t = time.time()
    e = {"CARGO_TARGET_DIR": KTD}
    rc, o = run(cmd, timeout, cwd=os.path.join(VERIF, "kani"), extra=e)
    num = lambda p: [int(x) for x in re.findall(p, o)]
    r = dict(harness=h, wall_s=round(time.time() - t, 2), steps=sum(num(r"size of program expression: (\d+) steps")[:1]),
             vccs=sum(num(r"Generated (\d+) VCC")[:1]), left=sum(num(r"VCC\(s\), (\d+) remaining")[:1]),
             variables=max(num(r"(\d+) variables") or [0]), clauses=max(num(r"variables, (\d+) clauses") or [0]),
             solver_s=round(sum(float(x) for x in re.findall(r"Runtime Solver: ([\d.e+-]+)s", o)), 3),
             queries=len(re.findall(r"SAT checker: instance is", o)),
             checks=sum(num(r"\*\* \d+ of (\d+) failed")[:1]), covered=(re.findall(r"\*\* (\d+) of \d+ cover", o) or [0])[0])
    r["covered"] = int(r["covered"])
    failed = re.findall(r"Failed Checks: (.*)", o)
    r["failed"] = failed
    if rc is None:
        r["verdict"] = "timeout"
    elif "VERIFICATION:- SUCCESSFUL" in o:
        r["verdict"] = "ok"
    elif "VERIFICATION:- FAILED" in o:
        r["verdict"] = "unwind" if failed and all("unwinding assertion" in f for f in failed) else "failed"
    else:
        r["verdict"] = "error"
        r["out"] = o[-3000:]
    if playback:
        r["tests"] = []
        for blk in re.findall(r"/// Check for `([^`]*)`: (.*?)\n.*?vec!\[\n(.*?)\n\s*\];", o, re.S):
            r["tests"].append((blk[0], blk[1], [[int(x) for x in re.findall(r"\d+", v)] for v in re.findall(r"vec!\[([^\]]*)\]", blk[2])]))
    return r


# Longest texts of the two point types, in bytes. Longer ones than the required
# are decided if they take no longer than they used to.
TEXTS = {"required": (8, 6), "quick": (10, 7), "thorough": (13, 11)}


def kani_jobs(prop, top=None):
    if prop == "C15":
        return [f"ints::{t}::c15" for t in INTS]
    top = TEXTS[top or TIER]
    hs = [(n, t) for t, m in zip(("num", "word"), top) for n in range(m + 1)]
    # A few short lengths first: most mistakes show there, and soon.
    first = [h for h in sorted(hs) if 2 <= h[0] <= 4]
    hs = first + [h for h in sorted(hs, reverse=True) if h not in first]
    return [f"text::proofs::{t}_{n}" for n, t in hs] + [f"text::proofs::{h}" for h in REACH]


REACH = ["reach_num_2", "reach_num_5", "reach_word_5"]


def kani(prop):
    rc, o = run(["cargo", "kani", "--only-codegen"], 400, cwd=os.path.join(VERIF, "kani"), extra={"CARGO_TARGET_DIR": KTD})
    if rc != 0:
        raise NoAnswer(f"cargo kani does not compile the harnesses ({rc}):\n{o[-3000:]}")
    limit = 780 if TIER == "quick" else 3000
    jobs, need, end = kani_jobs(prop), set(kani_jobs(prop, "required")), T0 + limit
    end_more = T0 + 560 if TIER == "quick" else end
    stop = []

    def one(h):
        if stop:
            return dict(harness=h, verdict="skipped")
        r = kani_one(h, max(10, (end if h in need else end_more) - time.time()))
        if r["verdict"] == "unwind" and not stop and (end if h in need else end_more) - time.time() > 60:
            n = int(h.rsplit("_", 1)[1]) if "_" in h else 8
            r = kani_one(h, max(10, (end if h in need else end_more) - time.time()), unwind=2 * n + 12)
        if r["verdict"] == "failed" and not stop:
            stop.append(h)
            kill_all()
        elif stop and r["verdict"] != "ok":
            r["verdict"] = "skipped"
        return r
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, jobs))
    found, traces, n = [], [], 0
    tests = []
    for h in stop:
        p = kani_one(h, max(60, end - time.time()), playback=True)
        tests += [(h, t) for t in p["tests"]]
    if not tests:
        for h in (["ints::i128::c15", "ints::u8::c15"] if prop == "C15" else ["text::proofs::reach_num_2"]):
            p = kani_one(h, 300, playback=True)
            tests += [(h, t) for t in p["tests"]]
    for h, (kind, what, vals) in tests:
        part = h.split("::")
        # text harnesses take one array: its bytes come as one value or as many
        check = f"ints:{part[1]}" if prop == "C15" else "text:" + part[2].replace("reach_", "").split("_")[0].capitalize()
        d = dict(property=prop, harness=h, check=check, bytes=";".join(",".join(map(str, v)) for v in vals), message=what)
        f = write_replay(prop, n, d)
        yes, said = replay_native(prop, f, ("dev", "release") if kind != "cover" else ("dev",))
        traces.append(dict(harness=h, kind=kind, what=what, input=vals, native=said))
        if yes:
            found.append((f, said, f"{h}: {what}"))
            n += 1
            if n >= 3:
                break
    if not found:
        bad = [r for r in rs if r["verdict"] == "failed"]
        if bad:
            raise NoAnswer(f"counterexamples that the real code does not reproduce: {[(r['harness'], r['failed']) for r in bad]} {traces}")
        for r in rs:
            if r["verdict"] != "ok" and (r["verdict"] not in ("timeout", "skipped", "unwind") or r["harness"] in need):
                raise NoAnswer(f"{r['harness']}: {r['verdict']} {r.get('failed')} {r.get('out', '')}")
            if r["verdict"] == "ok" and r["covered"] == 0 and (prop == "C15" or "reach" in r["harness"]):
                raise NoAnswer(f"{r['harness']} reaches no assertion (vacuous)")
    return rs, traces, found


KANI_ASSUMPTIONS = {
    "C15": ["All values of each of the twelve types; the code is loop-free, so there is no unrolling bound.", "usize/isize are 64 bits wide.",
            "Trusted: rustc, Kani 0.68, CBMC 6.11 with CaDiCaL."],
    "C21": ["Short texts: every well-formed UTF-8 string of each length (in bytes) listed in bounds.",
            "Longer texts (assembled_texts): every sequence of the stated number of pieces (brackets, commas, infinity signs, blanks, look-alikes, the texts of points of 1 to 80 bytes) and every well-formed text with the stated number of pieces inserted, removed or replaced; the values of the points are symbolic. Other long texts are outside the claim.",
            "Point types: Num (one or two decimal digits) and Word (any text without brackets and commas), standing for types that reject and that accept liberally.",
            "When several things are wrong with a text (several commas; a bad bracket and a bad value) any error is accepted.",
            "Unwinding assertions are on: loops of the parser and of core::str are unrolled completely.", "Trusted: rustc, Kani 0.68, CBMC 6.11 with CaDiCaL."],
}


def kani_coverage(rs, traces):
    done = [r for r in rs if r["verdict"] == "ok"]
    s = lambda k: sum(r[k] for r in done)
    return dict(states=s("steps"), transitions=s("vccs"), traces_validated_against_impl=len([t for t in traces if t["native"].startswith("dev: OK")]),
                samples=traces[:8], harnesses=len(done), queries=s("queries"), solver_s=round(s("solver_s"), 2), checks=s("checks"),
                bounds=[dict(harness=r["harness"], steps=r["steps"], vccs=r["vccs"], vccs_left_to_solver=r["left"], variables=r["variables"], clauses=r["clauses"],
                             solver_s=r["solver_s"], covers_reached=r["covered"]) for r in done],
                not_reached_in_time=[r["harness"] for r in rs if r["verdict"] != "ok"],
                meaning="states: steps of the symbolic program expression; transitions: verification conditions generated; traces_validated: solver-produced inputs for the reachability goals replayed natively with the expected outcome")


# ---- Entry ----------------------------------------------------------------------
def known_findings(prop):
    """finding: property=ID harness=H args=A values=V choices=C  <what fails>"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"finding: property={prop} "):
                out.append(l[len("finding: "):].strip())
    return out


def decide(prop):
    cov, ass, found = None, [], []
    if prop not in KANI or prop in BOTH:
        res, found = symx(prop)
        cov = symx_coverage(res) if res else dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], queries=0, solver_s=0)
        ass = SYMX_ASSUMPTIONS
    if prop in KANI and not found:
        rs, traces, found = kani(prop)
        first, cov = cov, kani_coverage(rs, traces)
        ass = KANI_ASSUMPTIONS[prop] + ass
        if first:
            cov["assembled_texts"] = first
            for k in ("states", "transitions", "traces_validated_against_impl", "queries", "solver_s"):
                cov[k] = round(cov[k] + first[k], 2)
            cov["samples"] += first["samples"][:4]
    cov["functions_encoded"] = functions_of(prop)
    if found:
        cov["violation_inputs"] = [dict(replay=p, native=said, what=w) for p, said, w in found]
    evidence(prop, "model_checking", cov, ass, len(found))
    for p, said, w in found:
        log(f"{prop}: {w}\n  replayed natively: {said}")
    if found:
        log(f"VIOLATION property={prop} replay={found[0][0]}")
        return 1
    log(f"{prop}: held on {cov['states']} {'steps and paths' if prop in BOTH else 'steps' if prop in KANI else 'paths'}, {cov['queries']} queries, {cov['solver_s']} s solving, {round(time.time() - T0, 1)} s")
    return 0


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a[:1] == ["setup"]:
            with ThreadPoolExecutor(3) as ex:
                fs = [ex.submit(build, "symx"), ex.submit(build, "symx", None, True), ex.submit(build, "symx", "serde", True), ex.submit(build, "symx", "serde"), ex.submit(build, "kani", None, False, "replay")]
                for f in fs:
                    f.result()
            return 0
        if a[:1] == ["replay"]:
            d = dict(l.rstrip("\n").split("=", 1) for l in open(a[1]) if "=" in l)
            yes, said = replay_native(d["property"], a[1])
            log(said)
            return 1 if yes else 0
        return decide(a[0])
    except NoAnswer as e:
        log(f"NO ANSWER: {e}")
        return 2


sys.exit(main())
