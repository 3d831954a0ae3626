#!/usr/bin/env python3
"""Create and try planted bugs, entirely in scratch copies under /tmp/mut (never in /repo).

    seed.py make SPEC.py [ID...]   write seeded/<id>/ from a spec and validate it
    seed.py try [ID...]            run the property's check against each stored bug
"""
import json, os, re, runpy, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = "/tmp/mut"
REPO = MUT + "/repo"
DEMO = r'''#!/bin/bash
# Builds demo.rs against the crate in the current directory; exits 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
directx_math = { path = "$repo" }
[features]
ni = ["directx_math/no_intrinsics"]
[profile.dev]
opt-level = 1
T
cd "$d" || exit 99
unset RUSTC_WRAPPER
rc=0
for c in CONFIGS; do
  tf=; ft=
  case $c in
    ni) ft="--features ni";;
    sse2) ;;
    sse3) tf="+sse3";;
    sse41) tf="+sse3,+sse4.1";;
    avx) tf="+sse3,+sse4.1,+avx";;
    f16c) tf="+sse3,+sse4.1,+avx,+f16c";;
    fma) tf="+sse3,+sse4.1,+avx,+f16c,+fma";;
    avx2) tf="+sse3,+sse4.1,+avx,+f16c,+fma,+avx2";;
  esac
  CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/t-$c" RUSTFLAGS="-A warnings -C target-cpu=x86-64${tf:+ -C target-feature=$tf}" cargo build -q --offline $ft || exit 98
  "$d/t-$c/debug/demo" || { echo "configuration $c: property broken"; rc=1; }
done
exit $rc
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    os.makedirs(MUT, exist_ok=True)
    if not os.path.exists(REPO):
        sh(["cp", "-a", "/repo", REPO])
    sh("git checkout -q -- . && git clean -qfd", cwd=REPO)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=REPO)


def sync_verif():
    sh(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "--exclude", "seeded", ROOT + "/", MUT + "/verif/"]) if shutil.which("rsync") else \
        sh(f"mkdir -p {MUT}/verif && rm -rf {MUT}/verif/harness {MUT}/verif/*.py && cp -a {ROOT}/harness {ROOT}/*.py {ROOT}/known_findings.txt {MUT}/verif/")


def tests():
    t = open("/opt/vp/test.sh").read().replace("/repo", REPO)
    open(MUT + "/test.sh", "w").write(t)
    p = sh(["bash", MUT + "/test.sh", MUT + "/out.json"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    b = base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable")
    got = set(json.load(open(MUT + "/out.json"))["passed"])
    return [x for x in b if x not in got]


def make(spec, only):
    seeds = runpy.run_path(spec)["SEEDS"]
    for s in seeds:
        if only and s["id"] not in only:
            continue
        fresh()
        ok = True
        for (f, old, new) in s["edits"]:
            p = os.path.join(REPO, f)
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            o, n = (old.replace("\n", "\r\n"), new.replace("\n", "\r\n")) if crlf else (old, new)
            anchor = s.get("after")
            i = t.index(anchor) if anchor else 0
            k = t.find(o, i)
            if k < 0:
                print(s["id"], "EDIT NOT FOUND:", old[:60]); ok = False; break
            t = t[:k] + n + t[k + len(o):]
            open(p, "w", newline="").write(t)
        if not ok:
            continue
        d = os.path.join(MUT, "new", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w", newline="").write(subprocess.run(["git", "diff"], cwd=REPO, stdout=subprocess.PIPE).stdout.decode())
        open(d + "/demo.sh", "w").write(DEMO.replace("CONFIGS", s["configs"]))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write("#![allow(non_snake_case, unused)]\nuse directx_math::*;\nuse directx_math::collision::*;\n" + s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        bad = tests()
        if bad:
            print(s["id"], "EXISTING TESTS FAIL:", bad[:4]); continue
        p1 = sh(["bash", d + "/demo.sh"], cwd=REPO)
        fresh()
        p0 = sh(["bash", d + "/demo.sh"], cwd=REPO)
        if p0.returncode != 0 or p1.returncode in (0, 98, 99):
            print(s["id"], "DEMO", "clean", p0.returncode, "bug", p1.returncode, p0.stdout[-600:], p1.stdout[-900:]); continue
        dst = os.path.join(ROOT, "seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(s["id"], "kept")


def try_(only):
    sync_verif()
    miss = []
    for i in sorted(os.listdir(ROOT + "/seeded")):
        if only and i not in only:
            continue
        fresh()
        m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
        p = sh(["git", "apply", f"{ROOT}/seeded/{i}/patch.diff"], cwd=REPO)
        if p.returncode:
            print(i, "PATCH DOES NOT APPLY", p.stdout); continue
        p = sh(["python3", "check.py", "run", m["property"], "quick"], cwd=MUT + "/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        caught = p.returncode == 1 and f"VIOLATION property={m['property']} " in p.stdout
        print(i, m["property"], "CAUGHT" if caught else f"MISSED rc={p.returncode}", "|", " / ".join(x.strip() for x in p.stdout.split("\n")[1:3])[:230], flush=True)
        if not caught:
            miss.append(i)
            if p.returncode not in (0, 1):
                print(p.stdout[-1500:])
    fresh()
    print("missed:", miss)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        try_(sys.argv[2:])
