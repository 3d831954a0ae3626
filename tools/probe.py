#!/usr/bin/env python3
"""Try ad-hoc breakages against the quick checks, in scratch copies under /tmp/probe (developer aid).

    probe.py SPEC.py [WORKERS] [ID...]    SPEC.py: P = [(id, property, file, after, old, new), ...]
"""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/probe"
lock = threading.Lock()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    P = runpy.run_path(sys.argv[1])["P"]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 2
    only = set(sys.argv[3:])
    free = list(range(n))
    base = json.load(open("/opt/vp/BASELINE.json"))
    b = base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable")

    def go(p):
        i, prop, file, after, old, new = p
        if only and i not in only:
            return
        with lock:
            k = free.pop()
        w = f"{W}/w{k}"
        try:
            if not os.path.exists(w + "/repo"):
                os.makedirs(w + "/verif", exist_ok=True)
                sh(["cp", "-a", "/repo", w + "/repo"])
            sh("git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=w + "/repo")
            sh(f"mkdir -p {w}/verif && rm -rf {w}/verif/harness {w}/verif/*.py && cp -a {ROOT}/harness {ROOT}/*.py {ROOT}/known_findings.txt {w}/verif/", shell=True)
            f = f"{w}/repo/{file}"
            t = open(f, newline="").read()
            if "\r\n" in t:
                after, old, new = (x.replace("\n", "\r\n") for x in (after, old, new))
            a = t.find(after)
            j = t.find(old, a) if a >= 0 else -1
            if j < 0:
                print(i, "EDIT NOT FOUND", flush=True); return
            open(f, "w", newline="").write(t[:j] + new + t[j + len(old):])
            ts = open("/opt/vp/test.sh").read().replace("/repo", w + "/repo")
            open(w + "/test.sh", "w").write(ts)
            sh(["bash", w + "/test.sh", w + "/out.json"])
            try:
                got = set(json.load(open(w + "/out.json"))["passed"])
            except Exception:
                print(i, "NO BUILD?", flush=True); return
            os.remove(w + "/out.json")
            bad = [x for x in b if x not in got]
            r = sh(["python3", "check.py", "run", prop, "quick"], cwd=w + "/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            c = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
            print(i, prop, "CAUGHT" if c else f"MISSED rc={r.returncode}", "(tests fail)" if bad else "", "|", " / ".join(x.strip() for x in r.stdout.split("\n")[1:3])[:160] if c else r.stdout[-200:] if r.returncode else "", flush=True)
        finally:
            with lock:
                free.append(k)

    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(go, P))


main()
