#!/usr/bin/env python3
"""Driver of the checks: builds the property's harness against /repo's working tree in every
configuration it is decided in, runs the generated cases, and writes the evidence.

  run.py C07                  run the check (VERIF_SEED, VERIF_TIER from the environment)
  run.py --replay FILE        run one saved case again
  run.py --setup              build everything once (all configurations)
"""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
KNOWN = os.path.join(ROOT, "known-findings.txt")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-2023-04-01-x86_64-unknown-linux-gnu"
AVX = "-C target-feature=+sse2,+sse3,+avx,+avx2"

# name: (toolchain, extra RUSTFLAGS, cargo features)
CONFIGS = {
    "std": (STABLE, "", "std"),
    "nostd": (STABLE, "", ""),
    "full": (STABLE, "", "full"),
    "sse2": (NIGHTLY, "", "sse2"),
    "avx2": (NIGHTLY, AVX, "avx2"),
}

DEFAULT = ["std", "nostd", "sse2", "avx2"]
PROPERTY_CONFIGS = {
    # Without std there are no threads.
    "C11": ["std", "sse2", "avx2"],
    "C24": ["full"],
    "C25": ["full"],
}

# The properties whose binaries use the catalogue of all operations.
WITH_OPS = {"C11", "C12", "C13", "C14", "C24", "C25", "C26"}

RUN_LIMIT = {"quick": 420, "thorough": 6 * 3600}
BUILD_LIMIT = 600


def configs_of(prop):
    return PROPERTY_CONFIGS.get(prop, DEFAULT)


def build(config, binary):
    toolchain, flags, features = CONFIGS[config]
    env = dict(os.environ)
    env.update(
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTUP_TOOLCHAIN=toolchain,
        RUSTFLAGS=("-Awarnings " + flags).strip(),
        CARGO_TARGET_DIR=os.path.join(TARGET, config),
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
    )
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    if binary is None or binary.upper() in WITH_OPS:
        features = (features + ",ops").strip(",")
    cmd = ["cargo", "build", "--offline", "--locked", "--features", features]
    cmd += ["--bins"] if binary is None else ["--bin", binary]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=BUILD_LIMIT)
    except subprocess.TimeoutExpired:
        return config, False, "build timed out", time.time() - t0
    return config, r.returncode == 0, r.stdout[-6000:], time.time() - t0


def missing_symbols(prop, text):
    """The C functions which the linker doesn't find although everything compiled."""
    if prop != "C25":
        return []
    return sorted(set(re.findall(r"undefined (?:reference to|symbol:?) [`']?(\w+(?:32|64))\b", text)))


def binary_path(config, binary):
    return os.path.join(TARGET, config, "debug", binary)


def load_known():
    """Lines `known: property=<id> key=<key> <text>`."""
    known = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    known[(m.group(1), m.group(2))] = m.group(3)
    except FileNotFoundError:
        pass
    return known


def write_replay(prop, config, tier, seed, failure):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s.json" % (prop, config, re.sub(r"[^A-Za-z0-9_]+", "_", failure["sub"]).strip("_"))
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(dict(property=prop, config=config, tier=tier, seed=seed, **failure), f, indent=1)
        f.write("\n")
    return path


def isolated(binary, config, tier, seed, sub, case):
    """Runs one case on its own; returns the signal which ended it or None."""
    try:
        r = subprocess.run([binary_path(config, binary), "--tier", tier, "--seed", str(seed), "--only", sub,
                            "--case", str(case)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=60)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if r.returncode < 0:
        return -r.returncode, r.stdout
    return None, r.stdout


def run_config(prop, config, tier, seed):
    """Returns (report or None, crash failures, error text)."""
    binary = prop.lower()
    work = os.path.join(ROOT, "scratch", "%s-%s" % (prop, config))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    out = os.path.join(work, "report.json")
    cmd = [binary_path(config, binary), "--tier", tier, "--seed", str(seed), "--out", out, "--journal", work]
    scale = os.environ.get("VERIF_SCALE")
    if scale:
        cmd += ["--scale", scale]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=RUN_LIMIT[tier])
    except subprocess.TimeoutExpired:
        return None, [], "the run timed out"
    if r.returncode == 0:
        with open(out) as f:
            report = json.load(f)
        shutil.rmtree(work, ignore_errors=True)
        return report, [], None
    if r.returncode < 0 and -r.returncode in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT,
                                              signal.SIGFPE):
        # A crash of the code under test takes the process down. Confirm it in isolation.
        crashes = []
        for name in sorted(os.listdir(work)):
            if not name.startswith("w"):
                continue
            with open(os.path.join(work, name)) as f:
                parts = f.read().rsplit(None, 1)
            if len(parts) < 2:
                continue
            sub, case = parts[0].strip(), int(parts[1])
            sig, text = isolated(binary, config, tier, seed, sub, case)
            if sig is not None:
                crashes.append(dict(sub=sub, case=case, choices=None, known=None,
                                    msg="the process dies with signal %d (%s): %s" % (
                                        sig, signal.Signals(sig).name, text[-500:]), notes=""))
        if not crashes:
            # It may take what the cases before left in memory: run all of them in one thread.
            try:
                again = subprocess.run(cmd + ["--threads", "1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       text=True, timeout=RUN_LIMIT[tier])
                if again.returncode == r.returncode:
                    with open(os.path.join(work, "w0")) as f:
                        parts = f.read().rsplit(None, 1)
                    crashes.append(dict(sub=parts[0].strip(), case=int(parts[1]), choices=None, known=None, all=True,
                                        msg="the process dies with signal %d (%s) after all cases before: %s" % (
                                            -r.returncode, signal.Signals(-r.returncode).name, again.stdout[-500:]),
                                        notes=""))
            except (subprocess.TimeoutExpired, OSError, ValueError, IndexError):
                pass
        shutil.rmtree(work, ignore_errors=True)
        if crashes:
            return None, crashes, None
    shutil.rmtree(work, ignore_errors=True)
    return None, [], "the run ended with %d: %s" % (r.returncode, r.stdout[-2000:])


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in RUN_LIMIT:
        tier = "quick"
    configs = configs_of(prop)
    only = os.environ.get("VERIF_CONFIGS")
    if only:
        configs = [c for c in configs if c in only.split(",")]
    binary = prop.lower()
    known = load_known()
    reports, failures, errors, builds = {}, [], [], {}
    with concurrent.futures.ThreadPoolExecutor(len(configs)) as pool:
        futures = [pool.submit(build, c, binary) for c in configs]
        for fut in concurrent.futures.as_completed(futures):
            config, good, text, wall = fut.result()
            builds[config] = round(wall, 1)
            if not good:
                missing = missing_symbols(prop, text)
                if missing:
                    failures.append((config, dict(sub="exported functions", case=0, choices=None, known=None, notes="",
                                                  msg="not exported: " + ", ".join(missing))))
                    continue
                errors.append("%s: the build failed:\n%s" % (config, text))
                continue
            report, crashes, error = run_config(prop, config, tier, seed)
            if error:
                errors.append("%s: %s" % (config, error))
            for c in crashes:
                failures.append((config, c))
            if report:
                reports[config] = report
                for f in report["failures"]:
                    failures.append((config, f))

    violations = []
    found = {}
    for config, f in failures:
        key = f.get("known")
        if key and (prop, key) in known:
            found.setdefault(key, []).append(config)
        else:
            violations.append((config, f))
    samples = []
    for config in configs:
        if config in reports:
            for s in reports[config]["samples"]:
                if len(samples) < 60:
                    samples.append("[%s] %s" % (config, s))
    rule = ""
    for r in reports.values():
        rule = r["rule"]
    coverage = dict(
        evaluations=sum(r["evaluations"] for r in reports.values()),
        distinct_nontrivial=sum(r["distinct_nontrivial"] for r in reports.values()),
        rule=rule + "; a case is one drawn list of choices in one build configuration (distinct within it)",
        samples=samples,
        configurations={c: dict(evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"],
                                time_ms=r["time_ms"]) for c, r in reports.items()},
        classes=next((reports[c]["classes"] for c in configs if c in reports), {}),
        build_s=builds,
        known_findings={k: sorted(set(v)) for k, v in found.items()},
    )
    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
                    assumptions=["the oracles in harness/src are right", "the toolchains installed in the sandbox"],
                    wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for key in sorted(found):
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (prop, key, known[(prop, key)], ",".join(sorted(set(found[key])))))
    for config, f in violations:
        path = write_replay(prop, config, tier, seed, f)
        print("%s [%s] %s | %s" % (f["sub"], config, f["msg"], f.get("notes", "")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s seed %d: %d cases, %d distinct non-trivial, configurations %s, %.1f s" % (
        prop, tier, seed, coverage["evaluations"], coverage["distinct_nontrivial"],
        ",".join(c for c in configs if c in reports), evidence["wall_s"]))
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    config, binary = r["config"], r["property"].lower()
    _, good, text, _ = build(config, binary)
    if not good:
        print(text)
        if missing_symbols(r["property"], text):
            print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(path)))
            return 1
        return 2
    cmd = [binary_path(config, binary), "--tier", r["tier"], "--seed", str(r["seed"])]
    if r.get("all"):
        cmd += ["--threads", "1"]
    else:
        cmd += ["--only", r["sub"]]
    if r.get("all"):
        pass
    elif r.get("choices") is not None:
        cmd += ["--choices", ",".join(str(c) for c in r["choices"])]
    else:
        cmd += ["--case", str(r["case"])]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(p.stdout)
    if p.returncode < 0 or "REPLAY-FAIL" in p.stdout:
        print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(path)))
        return 1
    return 0


def setup():
    with concurrent.futures.ThreadPoolExecutor(len(CONFIGS)) as pool:
        good = True
        for config, ok, text, wall in pool.map(lambda c: build(c, "c01"), CONFIGS):
            print("%s: %s in %.1f s" % (config, "built" if ok else "FAILED", wall))
            if not ok:
                print(text)
                good = False
    return 0 if good else 1


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        sys.exit(setup())
    if len(sys.argv) == 2 and re.match(r"^[A-Z]\d+$", sys.argv[1]):
        sys.exit(check(sys.argv[1]))
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
