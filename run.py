#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py setup                    build both harnesses (and Miri's sysroot)
  run.py check ID [TIER]          decide one property; exit 0 / 1 (VIOLATION line) / 2 (no answer)
  run.py replay FILE              run the case of a replay file again, verbosely

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = f"{VERIF}/build"
CORE_SRC = f"{BUILD}/core-src"
TOOLCHAIN = "nightly-2026-08-21"
MIRI_TOOLCHAIN = "nightly"
HOOK_CFG = "rustomata_verif"

# ---------------------------------------------------------------- properties

#: id -> (kind, extra)
CORE = ["C%02d" % i for i in range(1, 21)]
FULL = ["C%02d" % i for i in range(21, 33)]
MIRI = {"C33"}

# ---------------------------------------------------------------- layout of the core part

#: modules that need the unreachable dependency -> what remains of them (as in /opt/vp/mirror.py)
LEFT_OUT = {
    "approximation/mod.rs": "pub mod equivalence_classes;\n",
    "automata/mod.rs": "",
    "dyck/multiple/mod.rs": "",
    "grammars/lcfrs/csparsing/mod.rs": "",
    "recognisable/mod.rs": "pub mod configuration;\n",
    "util/integerisable.rs": "",
    "util/push_down.rs": "",
}


def write_if_changed(path, text):
    if os.path.islink(path):
        os.remove(path)
    if os.path.isfile(path):
        with open(path) as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def mirror():
    """Lays out, under build/core-src, the part of /repo that does not need `integeriser`."""
    files, links = {}, {}
    with open(f"{REPO}/Cargo.toml") as f:
        manifest = f.read()
    manifest = re.sub(r"(?m)^integeriser\b.*\n", "", manifest)
    manifest = re.sub(r"(?m)^\[\[bin\]\]\n(?:[^\[\n].*\n|\n)*", "", manifest)
    files["Cargo.toml"] = manifest
    with open(f"{REPO}/src/lib.rs") as f:
        files["src/lib.rs"] = re.sub(r"(?m)^extern crate integeriser;$", "", f.read())
    for name, text in LEFT_OUT.items():
        files[f"src/{name}"] = text
    for entry in sorted(os.listdir(REPO)):
        if os.path.isdir(f"{REPO}/{entry}") and entry not in (
            ".git", "src", "target", "tests", "benches",
        ):
            links[entry] = f"{REPO}/{entry}"
    for base, dirs, names in os.walk(f"{REPO}/src"):
        rel = os.path.relpath(base, REPO)
        if rel == "src" and "bin" in dirs:
            dirs.remove("bin")
        for name in names:
            if f"{rel}/{name}" not in files:
                links[f"{rel}/{name}"] = f"{base}/{name}"
    for base, dirs, names in os.walk(CORE_SRC, topdown=False):
        for name in names + dirs:
            path = os.path.join(base, name)
            rel = os.path.relpath(path, CORE_SRC)
            if os.path.islink(path):
                if links.get(rel) != os.readlink(path):
                    os.remove(path)
            elif os.path.isdir(path):
                if not os.listdir(path):
                    os.rmdir(path)
            elif rel not in files and rel != "Cargo.lock":
                os.remove(path)
    for rel, target in links.items():
        path = f"{CORE_SRC}/{rel}"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.islink(path):
            os.symlink(target, path)
    for rel, text in files.items():
        write_if_changed(f"{CORE_SRC}/{rel}", text)


def cargo_env(toolchain, flags="", hook=True):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "MIRIFLAGS"):
            del env[k]
    env.update(
        HOME="/root",
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin",
        RUSTUP_TOOLCHAIN=toolchain,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTFLAGS=f"-Awarnings {f'--cfg {HOOK_CFG}' if hook else ''} {flags}".strip(),
    )
    return env


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


def build(kind, bins):
    """Builds a harness from the current tree of /repo; returns the directory of the binaries."""
    mirror()
    target = f"{BUILD}/target-{kind}"
    env = cargo_env(TOOLCHAIN)
    env["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--manifest-path", f"{VERIF}/{kind}/Cargo.toml"]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 and kind == "core":
        # the guarded hook names private items; without it, only C19 has no answer
        log(p.stdout[-3000:])
        log("trying again without the hook")
        env = cargo_env(TOOLCHAIN, hook=False)
        env["CARGO_TARGET_DIR"] = target
        p = subprocess.run(cmd + ["--no-default-features"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise NoAnswer(f"the {kind} harness does not build")
    return f"{target}/debug"


# ---------------------------------------------------------------- running

CASE_CPU = 90          # CPU seconds one case may use before it is judged not to terminate
AS_LIMIT = 8 << 30     # address space of a worker


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_case():
    limits()
    resource.setrlimit(resource.RLIMIT_CPU, (CASE_CPU, CASE_CPU + 5))


def cpu_seconds(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def run_shards(exe, pid, seed, tier, deadline, extra_env):
    scratch = f"{BUILD}/run/{pid}-{os.getpid()}"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    n = max(2, min(8, os.cpu_count() or 2))
    env = dict(os.environ, **extra_env)
    env["VERIF_SCRATCH"] = scratch
    shards = []
    for k in range(n):
        out, prog = f"{scratch}/out{k}.json", f"{scratch}/prog{k}"
        err = open(f"{scratch}/err{k}", "w")
        p = subprocess.Popen(
            [exe, pid, "--seed", str(seed), "--tier", tier, "--shard", str(k), "--of", str(n),
             "--deadline", str(deadline), "--out", out, "--progress", prog],
            env=env, preexec_fn=limits, stdout=err, stderr=err, start_new_session=True)
        shards.append(dict(p=p, k=k, out=out, prog=prog, err=err.name, last=None, cpu0=0.0, bad=None))
        err.close()
    hard = time.time() + deadline + 3 * CASE_CPU
    alive = list(shards)
    while alive:
        time.sleep(0.05)
        for s in list(alive):
            rc = s["p"].poll()
            case = read_progress(s["prog"])
            if rc is not None:
                alive.remove(s)
                if rc != 0:
                    s["bad"] = ("crash", rc, case)
                continue
            cpu = cpu_seconds(s["p"].pid)
            if case != s["last"]:
                s["last"], s["cpu0"] = case, cpu
            elif cpu - s["cpu0"] > CASE_CPU or time.time() > hard:
                kill(s["p"])
                alive.remove(s)
                s["bad"] = ("hang", None, case)
    return scratch, shards


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read_progress(path):
    try:
        with open(path) as f:
            return f.read().strip()
    except OSError:
        return ""


def rerun_case(exe, pid, seed, tier, case, env, out=None):
    cmd = [exe, pid, "--seed", str(seed), "--tier", tier, "--case", str(case)]
    if out:
        cmd += ["--out", out]
    p = subprocess.Popen(cmd, env=env, preexec_fn=limits_case, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        text, _ = p.communicate(timeout=CASE_CPU * 6)
    except subprocess.TimeoutExpired:
        kill(p)
        return "timeout", ""
    return p.returncode, text.decode("utf-8", "replace")


def known_findings(pid):
    path = f"{VERIF}/known-findings.json"
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def conclude(pid, tier, seed, violations, coverage, wall, assumptions, inconclusive):
    """Prints the verdict, writes the evidence, returns the exit code."""
    known = {e["signature"]: e for e in known_findings(pid) if e["status"] == "known"}
    seen_known, real = set(), []
    for v in violations:
        if v["sig"] in known:
            seen_known.add(v["sig"])
        else:
            real.append(v)
    for sig in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[sig]['what']}")
    coverage["known_findings_reproduced"] = sorted(seen_known)
    if inconclusive:
        coverage["inconclusive"] = inconclusive
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 2),
        "violations": len(real),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if real:
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        by_sig = {}
        for v in real:
            by_sig.setdefault(v["sig"], v)
        for i, (sig, v) in enumerate(sorted(by_sig.items())):
            path = f"{VERIF}/replays/{pid}-{i}.json"
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, **v), f, indent=1, ensure_ascii=False)
                f.write("\n")
            log(f"  [{sig}] {v['detail'][:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if inconclusive:
        log(f"{pid}: inconclusive: {inconclusive}")
        return 2
    c = coverage
    print(f"{pid}: held on {c['evaluations']} executions ({c['distinct_nontrivial']} distinct non-trivial), "
          f"{wall:.1f} s")
    return 0


def check(pid, tier, seed):
    if pid in MIRI:
        return check_miri(pid, tier, seed)
    kind = "core" if pid in CORE else "full"
    bins = [f"{kind}-harness"] + (["rustomata-cli"] if pid == "C32" else [])
    start = time.time()
    bindir = build(kind, bins)
    built = time.time() - start
    deadline = 100 if tier == "quick" else 650
    extra = {"RUSTOMATA_CLI": f"{bindir}/rustomata-cli"}
    exe = f"{bindir}/{kind}-harness"
    scratch, shards = run_shards(exe, pid, seed, tier, deadline, extra)
    try:
        return merge(pid, tier, seed, exe, shards, scratch, extra, start, built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def merge(pid, tier, seed, exe, shards, scratch, extra, start, built):
    violations, events, samples, distinct = [], {}, [], set()
    evaluations = cases = 0
    rule, inconclusive, min_eval, finished = "", None, 0, True
    # crashes reproduce faster than hangs
    shards = sorted(shards, key=lambda s: bool(s["bad"]) and s["bad"][0] == "hang")
    for s in shards:
        if s["bad"]:
            what, rc, case = s["bad"]
            if any(v["sig"] in ("hang", "crash") for v in violations):
                continue  # one that reproduces is enough
            env = dict(os.environ, VERIF_SCRATCH=scratch, **extra)
            rc2, text = rerun_case(exe, pid, seed, tier, case, env) if case else (0, "")
            tail = text[-800:]
            if rc2 in (0, "timeout"):
                with open(s["err"]) as f:
                    tail += f.read()[-800:]
                inconclusive = f"a worker ended ({what}, {rc}) in case {case}, which does not reproduce: {tail}"
            else:
                name = f"signal {-rc2}" if rc2 < 0 else f"exit {rc2}"
                if rc2 in (-signal.SIGXCPU, -signal.SIGKILL) and what == "hang":
                    sig, name = "hang", f"no answer within {CASE_CPU} CPU seconds"
                else:
                    sig = "crash"
                violations.append(dict(sig=sig, case=case, detail=f"case {case}: {name}; {tail}"))
            continue
        try:
            with open(s["out"]) as f:
                r = json.load(f)
        except (OSError, ValueError) as e:
            inconclusive = f"no report from shard {s['k']}: {e}"
            continue
        rule, min_eval = r["rule"], r["min_evaluations"]
        evaluations += r["evaluations"]
        cases += r["cases"]
        finished = finished and r["finished"]
        distinct.update(r["distinct"])
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        samples += r["samples"][:2]
        violations += r["violations"]
        if r["harness_errors"]:
            inconclusive = "harness error: " + r["harness_errors"][0]
    if not violations and not inconclusive and evaluations < min_eval:
        inconclusive = f"only {evaluations} executions were judged, {min_eval} are needed"
    coverage = dict(
        evaluations=evaluations, distinct_nontrivial=len(distinct), rule=rule, samples=samples[:6],
        observed=dict(sorted(events.items())), cases=cases, all_planned_cases_run=finished,
        shards=len(shards), build_s=round(built, 1))
    return conclude(pid, tier, seed, violations, coverage, time.time() - start,
                    ASSUMPTIONS + EXTRA_ASSUMPTIONS.get(pid, []), inconclusive)


ASSUMPTIONS = [
    "the monitors see only the executions the generated workload drives",
    "the third-party crates (nom, log_domain, min-max-heap, serde, bincode, flate2) do what they document",
]
FULL_ASSUMPTION = "the crate `integeriser` is replaced by a stand-in with its documented contract (/verif/stub)"
EXTRA_ASSUMPTIONS = {p: [FULL_ASSUMPTION] for p in FULL}


# ---------------------------------------------------------------- Miri and AddressSanitizer

ASAN_TARGET = "x86_64-unknown-linux-gnu"
#: what is run under AddressSanitizer: property, cases in the quick and the thorough tier
ASAN_RUNS = [
    ("C33", 60000, 1500000), ("C05", 40000, 400000), ("C29", 4000, 80000), ("C28", 1500, 30000),
    ("C26", 2000, 40000), ("C22", 2000, 40000), ("C21", 1500, 30000), ("C25", 1500, 30000),
    ("C27", 8000, 200000), ("C30", 8000, 200000), ("C31", 8000, 200000),
]
CORE_ASAN = {"C05"}
#: marks of undefined behaviour in what a run prints
UB_MARKS = re.compile(
    r"Undefined Behavior|ERROR: AddressSanitizer: (?!stack-overflow|out of memory|allocation-size-too-big"
    r"|requested allocation size)[a-z-]+|unsafe precondition")


def miri_cmd():
    env = cargo_env(MIRI_TOOLCHAIN)
    env.update(CARGO_TARGET_DIR=f"{BUILD}/target-miri", VERIF_SMALL="1",
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks")
    return env, ["cargo", "miri", "run", "-q", "--offline", "--manifest-path", f"{VERIF}/full/Cargo.toml",
                 "--bin", "full-harness", "--"]


def build_miri():
    mirror()
    env, cmd = miri_cmd()
    p = subprocess.run(cmd + ["C33", "--cases", "0", "--no-fixed"], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise NoAnswer("the harness does not run under Miri")
    return env, cmd


def build_asan():
    mirror()
    env = cargo_env(TOOLCHAIN, "-Zsanitizer=address -Cforce-frame-pointers=yes")
    env["CARGO_TARGET_DIR"] = f"{BUILD}/target-asan"
    for kind in ("full", "core"):
        p = subprocess.run(
            ["cargo", "build", "--offline", "--target", ASAN_TARGET, "--manifest-path",
             f"{VERIF}/{kind}/Cargo.toml", "--bin", f"{kind}-harness"],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            log(p.stdout[-6000:])
            raise NoAnswer("the harness does not build with AddressSanitizer")
    return f"{BUILD}/target-asan/{ASAN_TARGET}/debug"


def ub_in(text, rc):
    m = UB_MARKS.search(text)
    if m:
        return m.group(0)
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL) and "overflow" not in text:
        return f"signal {-rc}"
    return None


def read_report(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def sanitized(jobs, limit):
    """Runs the jobs, at most eight at a time; each ends by itself at its deadline or is ended."""
    waiting, running, done = list(jobs), [], []
    while waiting or running:
        while waiting and len(running) < 8:
            j = waiting.pop(0)
            with open(j["err"], "w") as err:
                j["p"] = subprocess.Popen(j["cmd"], env=j["env"], stdout=err, stderr=err, start_new_session=True)
            j["t0"] = time.time()
            running.append(j)
        time.sleep(0.05)
        for j in list(running):
            rc = j["p"].poll()
            if rc is None and time.time() - j["t0"] > limit:
                kill(j["p"])
                rc = "ended"
            if rc is not None:
                j["rc"] = rc
                running.remove(j)
                done.append(j)
    return done


def check_miri(pid, tier, seed):
    start = time.time()
    quick = tier == "quick"
    menv, mcmd = build_miri()
    asan = build_asan()
    built = time.time() - start
    scratch = f"{BUILD}/run/{pid}-{os.getpid()}"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    jobs = []
    n = 8
    for k in range(n):
        base = f"{scratch}/miri{k}"
        deadline = 60 if quick else 420
        jobs.append(dict(
            tool="Miri", prop=pid, k=k, out=base + ".json", prog=base + ".prog", err=base + ".err", env=menv,
            limit=deadline + 120,
            args=["--seed", str(seed), "--tier", tier, "--cases", "1000000", "--no-fixed", "--shard", str(k),
                  "--of", str(n), "--deadline", str(deadline), "--out", base + ".json",
                  "--progress", base + ".prog"]))
        jobs[-1]["cmd"] = mcmd + [pid] + jobs[-1]["args"]
    aenv = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", VERIF_SCRATCH=scratch)
    aenv.pop("VERIF_SMALL", None)
    ajobs = []
    for prop, few, many in ASAN_RUNS:
        for k in range(n):
            base = f"{scratch}/asan-{prop}-{k}"
            exe = f"{asan}/{'core' if prop in CORE_ASAN else 'full'}-harness"
            ajobs.append(dict(
                tool="AddressSanitizer", prop=prop, k=k, out=base + ".json", prog=base + ".prog",
                err=base + ".err", env=aenv,
                cmd=[exe, prop, "--seed", str(seed), "--tier", tier, "--cases", str(few if quick else many),
                     "--no-fixed", "--shard", str(k), "--of", str(n),
                     "--deadline", str(20 if quick else 60), "--out", base + ".json",
                     "--progress", base + ".prog"]))
    try:
        done = sanitized(ajobs, 60 if quick else 120) + sanitized(jobs, 150 if quick else 520)
        violations, observed, runs, distinct = [], {}, {}, set()
        evaluations = cut_short = 0
        samples = []
        for j in done:
            with open(j["err"], errors="replace") as f:
                text = f.read()
            rc = j["rc"]
            ub = ub_in(text, rc if isinstance(rc, int) else 0)
            case = read_progress(j["prog"])
            if ub:
                at = UB_MARKS.search(text)
                at = at.start() if at else max(0, len(text) - 1500)
                violations.append(dict(
                    sig=f"{j['tool']}:{ub}", case=case, workload=j["prop"],
                    detail=f"{j['tool']}, workload {j['prop']}, case {case}: {text[at:at + 1500]}"))
            r = read_report(j["out"])
            if r is None:
                # ended before its report: what it ran was still watched, as far as it says
                cut_short += 1
                continue
            e = runs.setdefault(f"{j['tool']} {j['prop']}", [0, 0])
            e[0] += r["cases"]
            e[1] += len(r["distinct"])
            evaluations += r["cases"]
            distinct.update((j["prop"], d) for d in r["distinct"])
            if j["prop"] == pid:
                for k, v in r["events"].items():
                    k = f"{j['tool']}: {k}"
                    observed[k] = observed.get(k, 0) + v
        miri_cases = runs.get(f"Miri {pid}", [0, 0])[0]
        for name, (c, d) in sorted(runs.items()):
            observed[f"{name}: cases watched"] = c
            samples.append(f"{name}: {c} cases, {d} distinct results of non-trivial cases")
        inconclusive = None
        if not violations:
            if miri_cases < 40:
                inconclusive = f"only {miri_cases} cases ran to their end under Miri, 40 are needed"
            elif evaluations < 5000:
                inconclusive = f"only {evaluations} cases ran to their end"
        coverage = dict(
            evaluations=evaluations, distinct_nontrivial=len(distinct),
            rule=("An evaluation is one case that ran to its end under Miri (Stacked Borrows, bounds, validity, "
                  "initialisation; workload C33 in small sizes) or under AddressSanitizer (workloads listed). "
                  "Distinct non-trivial are the distinct (workload, hash of input and result) of cases that "
                  "reached the behaviour the workload is after."),
            samples=samples[:16], observed=dict(sorted(observed.items())), workers_cut_short=cut_short,
            build_s=round(built, 1))
        return conclude(pid, tier, seed, violations, coverage, time.time() - start,
                        ASSUMPTIONS + [FULL_ASSUMPTION], inconclusive)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_sanitized(r):
    """The case once more under the tool that reported it."""
    args = [r["workload"], "--seed", str(r["seed"]), "--tier", r["tier"], "--case", str(r["case"])]
    if r["sig"].startswith("Miri"):
        env, cmd = build_miri()
    else:
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", VERIF_SCRATCH="/tmp")
        cmd = [f"{build_asan()}/{'core' if r['workload'] in CORE_ASAN else 'full'}-harness"]
    p = subprocess.run(cmd + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(p.stdout)
    return 1 if ub_in(p.stdout, p.returncode) else 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    pid = r["property"]
    print(f"property {pid}, seed {r['seed']}, case {r['case']}: [{r['sig']}]\n{r['detail']}\n")
    if pid in MIRI:
        return replay_sanitized(r)
    kind = "core" if pid in CORE else "full"
    bins = [f"{kind}-harness"] + (["rustomata-cli"] if pid == "C32" else [])
    bindir = build(kind, bins)
    case = r["case"]
    if case == 2**64 - 1:
        case = "fixed"
    scratch = f"{BUILD}/run/replay-{os.getpid()}"
    os.makedirs(scratch)
    env = dict(os.environ, RUSTOMATA_CLI=f"{bindir}/rustomata-cli", VERIF_SCRATCH=scratch)
    rc, text = rerun_case(f"{bindir}/{kind}-harness", pid, r["seed"], r["tier"], case, env)
    shutil.rmtree(scratch, ignore_errors=True)
    print(text)
    return 1 if rc != 0 or "violated [" in text else 0


def main():
    args = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        if args[0] == "setup":
            build("core", ["core-harness"])
            if os.path.exists(f"{VERIF}/full/src/main.rs"):
                build("full", ["full-harness", "rustomata-cli"])
                build_asan()
                build_miri()
            return 0
        if args[0] == "check":
            tier = args[2] if len(args) > 2 else os.environ.get("VERIF_TIER", "quick")
            return check(args[1], tier, seed)
        if args[0] == "replay":
            return replay(args[1])
        log(__doc__)
        return 2
    except NoAnswer as e:
        log(f"no answer: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
