#!/usr/bin/env python3
"""Driver: build a property's binary against /repo in every configuration, run it, report.

    check.py run <ID> [quick|thorough]   decide one property
    check.py replay <FILE>               re-run a stored counterexample
    check.py build <ID>...               build only (setup)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TF = {
    "sse3": "+sse3",
    "sse41": "+sse3,+sse4.1",
    "avx": "+sse3,+sse4.1,+avx",
    "f16c": "+sse3,+sse4.1,+avx,+f16c",
    "fma": "+sse3,+sse4.1,+avx,+f16c,+fma",
    "avx2": "+sse3,+sse4.1,+avx,+f16c,+fma,+avx2",
}
# name: (toolchain, target features, cargo features, release)
CONFIGS = {
    "ni": (STABLE, "", "no_intrinsics", False),
    "sse2": (STABLE, "", "", False),
    "sse3": (STABLE, TF["sse3"], "", False),
    "sse41": (STABLE, TF["sse41"], "", False),
    "avx": (STABLE, TF["avx"], "", False),
    "f16c": (STABLE, TF["f16c"], "", False),
    "fma": (STABLE, TF["fma"], "", False),
    "avx2": (STABLE, TF["avx2"], "", False),
    "intel": (STABLE, TF["avx2"], "favor_intel", False),
    "rel_sse2": (STABLE, "", "", True),
    "rel_avx2": (STABLE, TF["avx2"], "", True),
    "spec": (NIGHTLY, "", "no_intrinsics,specialization", False),
    # unoptimised: the optimiser narrows or drops loads whose extra bytes are masked off later
    "o0_sse2": (STABLE, "", "", False),
    "o0_avx2": (STABLE, TF["avx2"], "", False),
}
ALL = ["ni", "sse2", "sse3", "sse41", "avx", "f16c", "fma", "avx2", "intel"]
# Configurations the repository's own test matrix does not build.
OPTIONAL = {"intel", "rel_sse2", "rel_avx2"}

sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402  (per-property settings)


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) check=(\S+) config=(\S+) case=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def build(cfg, binary):
    tc, tf, feats, rel = CONFIGS[cfg]
    env = dict(os.environ)
    env.update(
        RUSTUP_TOOLCHAIN=tc,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=os.path.join(TARGET, cfg),
        RUSTFLAGS="-C target-cpu=x86-64" + (f" -C target-feature={tf}" if tf else "") + " -A warnings",
    )
    if cfg.startswith("o0_"):
        env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
    for k in ("RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_INCREMENTAL"):
        env.pop(k, None)
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--bin", binary]
    if feats:
        cmd += ["--features", feats]
    if rel:
        cmd += ["--release"]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    exe = os.path.join(TARGET, cfg, "release" if rel else "debug", binary)
    return p.returncode, p.stdout, exe


def run_bin(exe, args, timeout):
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out


def job(cfg, exe, seed, cases, timeout):
    t = time.time()
    rc, out = run_bin(exe, ["run", "--seed", str(seed), "--cases", str(cases)], timeout)
    res = {"config": cfg, "seed": seed, "rc": rc, "wall": time.time() - t, "exe": exe}
    m = re.search(r"^(CRASH|HANG) (\d+) (\d+) (\d+) (\d+)", out, re.M)
    if m:
        names = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        kind = "hang" if m.group(1) == "HANG" else f"signal {m.group(2)}"
        res["crash"] = {"kind": kind, "check": names[int(m.group(3))], "case": int(m.group(4))}
        return res
    i = out.rfind("{\"prop\"")
    if i >= 0:
        try:
            res["report"] = json.loads(out[i:])
            return res
        except ValueError:
            pass
    res["error"] = "no report: rc=%s %s" % (rc, out[-300:])
    return res


def write_replay(pid, d):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    h = hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:8]
    path = os.path.join(ROOT, "replays", f"{pid}-{d['config']}-{h}.json")
    json.dump(d, open(path, "w"), indent=1)
    return path


def cmd_run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[pid]
    cfgs = P.get("configs", ALL) + P.get("extra_configs", [])
    binary = P["bin"]
    exes, notes = {}, []
    with cf.ThreadPoolExecutor(10) as ex:
        for c, (rc, out, exe) in zip(cfgs, ex.map(lambda c: build(c, binary), cfgs)):
            if rc != 0:
                if c in OPTIONAL:
                    notes.append(f"configuration {c} does not build; skipped")
                    continue
                print(out[-4000:])
                print(f"ERROR: {binary} does not build in configuration {c}")
                return 2
            exes[c] = exe
    tb = time.time() - t0
    cases, budget = P["cases"], 0
    if tier != "quick":
        cases, budget = P["cases"] * 4, float(os.environ.get("VERIF_BUDGET", "600"))
    results, shard = [], 0
    # quick: one round; thorough: rounds of fresh inputs until the time budget is spent or something fails.
    # Every configuration gets inputs of its own: code shared by all of them sees that many more.
    while shard == 0 or time.time() - t0 < budget:
        jobs = [(c, e, seed + 1000003 * shard + 7919 * list(CONFIGS).index(c), cases // 8 if c.startswith("o0_") else cases) for c, e in exes.items()]
        with cf.ThreadPoolExecutor(8) as ex:
            results += ex.map(lambda j: job(*j, 600), jobs)
        if any("crash" in r or "error" in r or any("failure" in c for c in r["report"]["checks"]) for r in results[-len(jobs):]):
            break
        shard += 1
    # merge
    ev = discards = trivial = distinct = 0
    labels, samples, perck = {}, [], {}
    fails = []
    bad = False
    known = known_findings()
    for r in results:
        if "crash" in r:
            c = r["crash"]
            fails.append(dict(property=pid, bin=binary, config=r["config"], check=c["check"], seed=r["seed"], case=c["case"],
                              message=f"{c['kind']} in check {c['check']}"))
            continue
        if "error" in r:
            print("ERROR:", r["config"], r["error"])
            bad = True
            continue
        for c in r["report"]["checks"]:
            ev += c["evaluations"]
            discards += c["discards"]
            trivial += c["trivial"]
            distinct += c["distinct"]
            d = perck.setdefault(c["name"], {"evaluations": 0, "distinct_nontrivial": 0, "trivial": 0, "discards": 0})
            d["evaluations"] += c["evaluations"]
            d["distinct_nontrivial"] += c["distinct"]
            d["trivial"] += c["trivial"]
            d["discards"] += c["discards"]
            for k, v in c["labels"].items():
                labels[k] = labels.get(k, 0) + v
            if r is results[0]:
                samples += c["samples"][:1]
            if "failure" in c:
                f = c["failure"]
                fails.append(dict(property=pid, bin=binary, config=r["config"], check=c["name"], seed=r["seed"], case=f["case"],
                                  tape=f["tape"], message=f["msg"], input=f["notes"]))
    violations = []
    for f in fails:
        k = [x for x in known if x[0] == pid and x[1] == f["check"] and x[2] in ("*", f["config"])
             and x[3] == ",".join(map(str, f.get("tape", [])))]
        if k:
            print(f"KNOWN-FINDING: property={pid} {k[0][4]}")
        else:
            violations.append(f)
    wall = time.time() - t0
    step = max(1, len(samples) // 12)
    evid = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": distinct,
            "trivial": trivial,
            "discarded": discards,
            "rule": P["rule"],
            "samples": samples[::step][:16],
            "configurations": sorted(exes),
            "per_check": perck,
            "labels": labels,
            "notes": notes,
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(evid, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier}: {ev} cases ({distinct} distinct non-trivial) in {len(exes)} configurations, "
          f"build {tb:.1f}s, total {wall:.1f}s")
    if violations:
        seen = set()
        violations.sort(key=lambda f: (f["check"], f["config"]))
        for f in violations:
            if f["check"] in seen:
                continue
            seen.add(f["check"])
            path = write_replay(pid, f)
            print(f"  {f['check']} [{f['config']}]: {f['message']}")
            for n in f.get("input", []):
                print(f"     {n}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if bad:
        return 2
    return 0


def cmd_replay(path):
    d = json.load(open(path))
    rc, out, exe = build(d["config"], d["bin"])
    if rc != 0:
        print(out[-4000:])
        return 2
    a = ["replay", "--check", d["check"]]
    if "tape" in d:
        a += ["--tape", ",".join(map(str, d["tape"]))]
    else:
        a += ["--seed", str(d["seed"]), "--case", str(d["case"])]
    rc, out = run_bin(exe, a, 120)
    print(out)
    if rc == 0:
        return 0
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1


if __name__ == "__main__":
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "run":
        sys.exit(cmd_run(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")))
    if len(a) == 2 and a[0] == "replay":
        sys.exit(cmd_replay(a[1]))
    if len(a) >= 1 and a[0] == "build":
        rc, out, _ = build("sse2", a[1] if len(a) > 1 else "c01")
        print(out[-2000:])
        sys.exit(rc)
    print(__doc__)
    sys.exit(2)
