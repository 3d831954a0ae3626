#!/usr/bin/env python3
"""Mutation testing of the checks (developer aid, works only in /tmp/mutants).

    mutate.py FILE.rs COUNT SEED [WORKERS]    sample mutants of one source file, report survivors

A survivor compiles, passes the repository's tests and every check that names the mutated function.
Survivors are appended to /tmp/mutants/survivors.txt for reading by hand.
"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
W = "/tmp/mutants"
STABLE = "stable-x86_64-unknown-linux-gnu"
TF = {"ni": "", "sse2": "", "sse3": "+sse3", "sse41": "+sse3,+sse4.1", "avx": "+sse3,+sse4.1,+avx", "f16c": "+sse3,+sse4.1,+avx,+f16c",
      "fma": "+sse3,+sse4.1,+avx,+f16c,+fma", "avx2": "+sse3,+sse4.1,+avx,+f16c,+fma,+avx2"}
SETS = [["ni", "sse2", "sse41", "avx2"], ["sse3", "avx", "f16c", "fma"]]
CASES = os.environ.get("CASES", "40000")

SUBS = [(r"_mm_add_ps\(", "_mm_sub_ps("), (r"_mm_sub_ps\(", "_mm_add_ps("), (r"_mm_mul_ps\(", "_mm_add_ps("), (r"_mm_min_ps\(", "_mm_max_ps("), (r"_mm_max_ps\(", "_mm_min_ps("),
        (r"_mm_and_ps\(", "_mm_or_ps("), (r"_mm_and_ps\(", "_mm_andnot_ps("), (r"_mm_andnot_ps\(", "_mm_and_ps("), (r"_mm_or_ps\(", "_mm_and_ps("), (r"_mm_xor_ps\(", "_mm_or_ps("),
        (r"_mm_cmpgt_ps\(", "_mm_cmpge_ps("), (r"_mm_cmpge_ps\(", "_mm_cmpgt_ps("), (r"_mm_cmplt_ps\(", "_mm_cmple_ps("), (r"_mm_cmple_ps\(", "_mm_cmplt_ps("), (r"_mm_cmpeq_ps\(", "_mm_cmpge_ps("), (r"_mm_cmpneq_ps\(", "_mm_cmpgt_ps("),
        (r"_mm_movelh_ps\(", "_mm_movehl_ps("), (r"_mm_unpacklo_ps\(", "_mm_unpackhi_ps("), (r"_mm_unpackhi_ps\(", "_mm_unpacklo_ps("),
        (r"XMVectorAdd\(", "XMVectorSubtract("), (r"XMVectorSubtract\(", "XMVectorAdd("), (r"XMVectorMultiplyAdd\(", "XMVectorNegativeMultiplySubtract("), (r"XMVectorNegativeMultiplySubtract\(", "XMVectorMultiplyAdd("),
        (r"XMVectorMin\(", "XMVectorMax("), (r"XMVectorMax\(", "XMVectorMin("), (r"XMVectorAbs\(", "XMVectorNegate("), (r"XMVectorNegate\(", "XMVectorAbs("),
        (r"XMVectorGreater\(", "XMVectorGreaterOrEqual("), (r"XMVectorLess\(", "XMVectorLessOrEqual("), (r"XMVectorGreaterOrEqual\(", "XMVectorGreater("), (r"XMVectorLessOrEqual\(", "XMVectorLess("),
        (r"XMVectorAndInt\(", "XMVectorOrInt("), (r"XMVectorOrInt\(", "XMVectorAndInt("), (r"XMVectorTrueInt\(", "XMVectorFalseInt("), (r"XMVectorFalseInt\(", "XMVectorTrueInt("),
        (r"XMVectorSplatX\(", "XMVectorSplatY("), (r"XMVectorSplatY\(", "XMVectorSplatZ("), (r"XMVectorSplatZ\(", "XMVectorSplatX("), (r"XMVectorSplatZ\(", "XMVectorSplatW("), (r"XMVectorSplatW\(", "XMVectorSplatZ("),
        (r"XMVectorGetX\(", "XMVectorGetY("), (r"XMVectorGetY\(", "XMVectorGetZ("), (r"XMVectorGetZ\(", "XMVectorGetX("),
        (r"XM_SWIZZLE_X", "XM_SWIZZLE_Y"), (r"XM_SWIZZLE_Y", "XM_SWIZZLE_Z"), (r"XM_SWIZZLE_Z", "XM_SWIZZLE_X"), (r"XM_SWIZZLE_W", "XM_SWIZZLE_Z"),
        (r"XM_PERMUTE_0X", "XM_PERMUTE_0Y"), (r"XM_PERMUTE_0Y", "XM_PERMUTE_0Z"), (r"XM_PERMUTE_0Z", "XM_PERMUTE_0W"), (r"XM_PERMUTE_1X", "XM_PERMUTE_1Y"), (r"XM_PERMUTE_1Y", "XM_PERMUTE_1Z"), (r"XM_PERMUTE_1W", "XM_PERMUTE_0W"), (r"XM_PERMUTE_0W", "XM_PERMUTE_1W"),
        (r"XMVector3Dot\(", "XMVector4Dot("), (r"XMVector3Length\(", "XMVector3LengthSq("), (r"XMVector3LessOrEqual\(", "XMVector3Less("), (r"XMVector3GreaterOrEqual\(", "XMVector3Greater("), (r"XMVector3Greater\(", "XMVector3GreaterOrEqual("),
        (r"XMVector3Less\(", "XMVector3LessOrEqual("), (r"XMVector4Greater\(", "XMVector4GreaterOrEqual("), (r"XMVector4Less\(", "XMVector4LessOrEqual("), (r"XMVector4LessOrEqual\(", "XMVector4Less("), (r"XMVector4GreaterOrEqual\(", "XMVector4Greater("),
        (r"XMVector3AnyTrue\(", "XMVector3AllTrue("), (r"XMVector3AllTrue\(", "XMVector3AnyTrue("), (r"XMVector3InverseRotate\(", "XMVector3Rotate("), (r"XMVector3Rotate\(", "XMVector3InverseRotate("),
        (r"XMVector3TransformNormal\(", "XMVector3Transform("), (r"XMVector3Transform\(", "XMVector3TransformNormal("), (r"XMQuaternionConjugate\(", "("), (r"XMVectorSqrt\(", "("), (r"XMVectorNegate\(", "("),
        (r"g_XMSelect1000", "g_XMSelect1100"), (r"g_XMSelect1100", "g_XMSelect1110"), (r"g_XMSelect1110", "g_XMSelect1100"), (r"g_XMMask3", "g_XMMaskX"), (r"g_XMMask3", "g_XMMaskXY"), (r"g_XMIdentityR3", "g_XMZero"), (r"g_XMIdentityR2", "g_XMIdentityR1"), (r"g_XMIdentityR1", "g_XMIdentityR0"),
        (r"g_XMNegativeOne\b", "g_XMOne"), (r"g_XMOne\b", "g_XMOneHalf"), (r"g_XMZero\b", "g_XMOne"), (r"g_XMEpsilon", "g_XMOne"), (r"g_XMInfinity", "g_XMOne"), (r"g_XMQNaN", "g_XMZero"), (r"g_XMAbsMask", "g_XMNegativeZero"),
        (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "), (r" & ", " | "), (r" \| ", " & "), (r" << ", " >> "), (r" >> ", " << "),
        (r"\+= ", "-= "), (r"-= ", "+= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif \(", "if !("), (r"\bif ", "if !"),
        (r"\b0\.5\b", "0.25"), (r"\b1\.0\b", "2.0"), (r"\b2\.0\b", "1.0"), (r"\b0\.0\b", "1.0"), (r"\[0\]", "[1]"), (r"\[1\]", "[2]"), (r"\[2\]", "[3]"), (r"\[3\]", "[2]"), (r"\[2\]", "[0]"), (r"\[1\]", "[0]"),
        (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x"), (r"-([A-Za-z_])", r"\1"), (r"0x([0-9A-Fa-f]+)", None), (r"\b(\d+)\b", None), (r"_MM_SHUFFLE\((\d), ?(\d), ?(\d), ?(\d)\)", None), (r"\((\w+), (\w+)\)", r"(\2, \1)"), (r"\((\w+), (\w+), (\w+)\)", r"(\1, \3, \2)")]
lock = threading.Lock()


def functions(text):
    """(name, start line, end line) of every function outside tests and NEON blocks; lines 0-based."""
    lines = text.split("\n")
    out, skip = [], set()
    i = 0
    while i < len(lines):
        l = lines[i]
        if "#[test]" in l or "ARM_NEON" in l and "not(" not in l and "any(" not in l:
            j = i + 1
            depth, seen = 0, False
            while j < len(lines):
                depth += lines[j].count("{") - lines[j].count("}")
                seen = seen or "{" in lines[j]
                skip.add(j)
                if seen and depth <= 0 or (not seen and lines[j].rstrip().endswith(";")):
                    break
                j += 1
            i = j
        i += 1
    for i, l in enumerate(lines):
        m = re.match(r"\s*(?:pub )?(?:unsafe )?(?:const )?fn (\w+)", l)
        if not m or i in skip or m.group(1).startswith("test_"):
            continue
        depth, seen, j = 0, False, i
        while j < len(lines):
            depth += lines[j].count("{") - lines[j].count("}")
            seen = seen or "{" in lines[j]
            if seen and depth <= 0:
                break
            j += 1
        body = [k for k in range(i + 1, j) if k not in skip and lines[k].strip() and not re.match(r"\s*(//|debug_assert|#\[|#!\[)", lines[k])]
        if body:
            out.append((m.group(1), i, body))
    return lines, out


def mutate(rnd, lines, body):
    for _ in range(60):
        k = rnd.choice(body)
        l = lines[k]
        code = l.split("//")[0]
        if rnd.random() < 0.06 and re.match(r"\s*\w+(\[\d\])? [-+*&|]?= .*;\s*$", code):
            return k, re.match(r"\s*", l).group(0) + "// deleted"
        pat, rep = rnd.choice(SUBS)
        ms = list(re.finditer(pat, code))
        if not ms:
            continue
        m = rnd.choice(ms)
        if rep is None:
            if pat.startswith("_MM"):
                d = [int(x) for x in m.groups()]
                p = rnd.randrange(4)
                d[p] = (d[p] + rnd.randrange(1, 4)) % 4
                r = "_MM_SHUFFLE(%d, %d, %d, %d)" % tuple(d)
            elif pat.startswith("0x"):
                v = int(m.group(1), 16) ^ (1 << rnd.randrange(32))
                r = "0x%X" % (v & 0xFFFFFFFF)
            else:
                v = int(m.group(1))
                r = str(v + 1 if rnd.random() < 0.5 or v == 0 else v - 1)
        else:
            r = m.expand(rep)
        if pat.startswith(r"\((\w+), (\w+)\)") and re.search(r"(AndInt|OrInt|XorInt|Add|Multiply|Dot|Min|Max|EqualInt|Equal|(add|mul|min|max|and|or|xor|cmpeq|cmpneq)_(ps|ss|si128|epi32))$", l[:m.start()]):
            continue  # commutative
        n = l[:m.start()] + r + l[m.end():]
        if n != l:
            return k, n
    return None


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(w, cfg, bins):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=STABLE, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{w}/t/{cfg}",
               RUSTFLAGS="-C target-cpu=x86-64" + (f" -C target-feature={TF[cfg]}" if TF[cfg] else "") + " -A warnings")
    cmd = ["cargo", "build", "-q", "--offline", "--locked", "--manifest-path", f"{w}/verif/harness/Cargo.toml"]
    for b in bins:
        cmd += ["--bin", b]
    if cfg == "ni":
        cmd += ["--features", "no_intrinsics"]
    return sh(cmd, env=env)


def verdict(w, bins):
    for cfgs in SETS:
        for cfg in cfgs:
            p = build(w, cfg, bins)
            if p.returncode:
                return "nobuild", p.stdout[-300:]
            for b in bins:
                try:
                    q = subprocess.run([f"{w}/t/{cfg}/debug/{b}", "run", "--seed", "1", "--cases", CASES], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    return "killed", f"{b} {cfg} timeout"
                if q.returncode != 0 or '"failure":{' in q.stdout or "CRASH" in q.stdout or "HANG" in q.stdout:
                    return "killed", f"{b} {cfg}"
    t = open("/opt/vp/test.sh").read().replace("/repo", w + "/repo")
    open(w + "/test.sh", "w").write(t)
    p = sh(["bash", w + "/test.sh", w + "/out.json"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    b = base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable")
    got = set(json.load(open(w + "/out.json"))["passed"])
    bad = [x for x in b if x not in got]
    if bad:
        return "tests", str(bad[:3])
    return "SURVIVED", ""


def bins_for(fn, file):
    bd = os.path.join(ROOT, "harness/src/bin")
    res = []
    for f in sorted(os.listdir(bd)):
        if re.search(r"\b%s\b" % fn, open(os.path.join(bd, f)).read()):
            res.append(f[:-3])
    if file == "collision.rs":
        col = ["c20", "c21", "c22", "c23", "c24", "c25", "c26"]
        res = [b for b in res if b in col] or col
    if fn in ("add", "sub", "mul", "div", "neg", "eq") or fn.endswith("_assign"):
        return ["c03" if file == "vector.rs" else "c13"]
    return res[:8] or ["c01", "c03", "c12", "c13", "c14", "c17"]


def main():
    file, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 5
    only = sys.argv[5] if len(sys.argv) > 5 else None
    rnd = random.Random(seed)
    src = open("/repo/src/" + file, newline="").read()
    lines, fns = functions(src)
    if only:
        fns = [f for f in fns if re.search(only, f[0])]
    jobs, seen = [], set()
    guard = 0
    while len(jobs) < count and guard < count * 50:
        guard += 1
        n, i, body = rnd.choice(fns) if rnd.random() < 0.5 else rnd.choices(fns, weights=[len(f[2]) for f in fns])[0]
        m = mutate(rnd, lines, body)
        if m and (m[0], m[1]) not in seen:
            seen.add((m[0], m[1]))
            jobs.append((n, m[0], m[1]))
    os.makedirs(W, exist_ok=True)
    free = list(range(workers))
    stats = {}

    def go(j):
        n, k, new = j
        with lock:
            i = free.pop()
        w = f"{W}/w{i}"
        try:
            if not os.path.exists(w + "/repo"):
                os.makedirs(w, exist_ok=True)
                sh(["cp", "-a", "/repo", w + "/repo"])
            shutil.rmtree(w + "/verif", ignore_errors=True)
            os.makedirs(w + "/verif")
            shutil.copytree(ROOT + "/harness", w + "/verif/harness", ignore=shutil.ignore_patterns("target"), copy_function=shutil.copy2)
            for f in os.listdir("/repo/src"):
                p = w + "/repo/src/" + f
                t = open("/repo/src/" + f, newline="").read()
                if f == file:
                    ll = list(lines)
                    ll[k] = new + ("\r" if lines[k].endswith("\r") and not new.endswith("\r") else "")
                    t = "\n".join(ll)
                if not os.path.exists(p) or open(p, newline="").read() != t:
                    open(p, "w", newline="").write(t)
            v, why = verdict(w, bins_for(n, file))
        except Exception as e:
            v, why = "error", repr(e)
        with lock:
            free.append(i)
            stats[v] = stats.get(v, 0) + 1
            if v in ("SURVIVED", "error"):
                with open(W + "/survivors.txt", "a") as f:
                    f.write(f"{v} {file}:{k + 1} fn {n} {why}\n  - {lines[k].strip()}\n  + {new.strip()}\n")
        return v

    with cf.ThreadPoolExecutor(workers) as ex:
        for x in ex.map(go, jobs):
            pass
    print(file, stats)


main()
