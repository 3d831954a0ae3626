#!/usr/bin/env python3
"""Mutation of the constant tables in globals.rs (developer aid, works only in /tmp/consts).

The constants of a scratch copy become writable statics, so that one build serves every mutant.

    consts.py build                  rewrite and build (avx2, sse2, portable)
    consts.py run [WORKERS] [REGEX]  try every mutant, print survivors
"""
import concurrent.futures as cf, json, os, re, struct, subprocess, sys, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/consts"
CFGS = ["avx2", "sse2", "ni"]
CASES = float(os.environ.get("CASES", "0.5"))
G = r'''
pub struct G<T>(u32, std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for G<T> {}
static INIT: std::sync::Once = std::sync::Once::new();
static mut MUT: (u32, u32, u32, u32) = (u32::MAX, 0, 0, 0);
impl<T> G<T> {
    pub const fn new(i: u32, t: T) -> G<T> { G(i, std::cell::UnsafeCell::new(t)) }
}
pub fn poke(i: u32, p: *mut u32) {
    INIT.call_once(|| unsafe {
        if let Ok(s) = std::env::var("CONST") { let v: Vec<u32> = s.split(',').map(|x| x.parse().unwrap()).collect(); MUT = (v[0], v[1], v[2], v[3]); }
    });
    unsafe { if MUT.0 == i && MUT.3 != 0 {
        // lane 4: all lanes; mode by MUT.2: the xor mask
        for k in 0..4 { if MUT.1 == 4 || MUT.1 == k { let q = p.add(k as usize); std::ptr::write_volatile(q, std::ptr::read_volatile(q) ^ MUT.2); } }
        MUT.3 = 0;
    } }
}
impl<T> std::ops::Deref for G<T> { type Target = T; #[inline(never)] fn deref(&self) -> &T { poke(self.0, self.1.get() as *mut u32); unsafe { &*self.1.get() } } }
'''


def chk():
    sys.path.insert(0, W + "/verif")
    sp = importlib.util.spec_from_file_location("chk", W + "/verif/check.py")
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m


def build():
    subprocess.run(f"rm -rf {W}/repo {W}/verif; mkdir -p {W}; cp -a /repo {W}/repo; mkdir {W}/verif; cp -a {ROOT}/harness {ROOT}/*.py {ROOT}/known_findings.txt {W}/verif/", shell=True, check=True)
    f = f"{W}/repo/src/globals.rs"
    t = open(f).read()
    names = []
    def r(m):
        names.append([m.group(1), m.group(2)])
        return f"pub static {m.group(1)}: G<{m.group(2)}> = G::new({len(names)-1}, {m.group(3)});"
    t = re.sub(r"pub const (g_\w+): (\w+) = (.*);", r, t)
    open(f, "w").write(t + G)
    src = "".join(open(f"{W}/repo/src/{x}").read() for x in os.listdir(W + "/repo/src") if x.endswith(".rs") and x != "globals.rs")
    for n in names:
        n.append(len(re.findall(r"\b%s\b" % n[0], src)))
    json.dump(names, open(W + "/names.json", "w"))
    for x in os.listdir(W + "/repo/src"):
        if x == "globals.rs" or not x.endswith(".rs"): continue
        s = open(f"{W}/repo/src/{x}", newline="").read()
        # *g_X gave the vector; now the union: deref twice
        s = re.sub(r"(?<![\w\)\]])\*(g_\w+)", r"**\1", s)
        s = re.sub(r"\b(?:const|static) (\w+): (XMVECTOR|\[&XMVECTOR; 3\]|\[&'static XMVECTOR; 3\]) =", r"let \1: \2 =", s)
        s = re.sub(r"(_XM_ARM_NEON_INTRINSICS_\), )deny\(", r"\1allow(", s)
        open(f"{W}/repo/src/{x}", "w", newline="").write(s)
    m = chk()
    for c in CFGS:
        for k in range(1, 27):
            rc, o, exe = m.build(c, f"c{k:02d}")
            if rc: print(o[-6000:]); sys.exit(1)
    print("built", sum(1 for n in names if n[2]), "used constants")


ORDER = [5, 6, 3, 12, 4, 1, 2, 8, 10, 13, 14, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 7, 9, 11, 15, 16]


def run(workers, rx):
    sys.path.insert(0, ROOT)
    from props import PROPS
    names = json.load(open(W + "/names.json"))
    jobs = []
    for i, (n, ty, used) in enumerate(names):
        if not used or not re.search(rx, n): continue
        for lane in (0, 1, 2, 3):
            if "F32" in ty:
                jobs += [(i, lane, 1 << 13, "~1e-3"), (i, lane, 1 << 8, "~3e-5")]
            else:
                jobs += [(i, lane, 1, "bit0"), (i, lane, 0xFFFFFFFF, "inverted")]

    def go(j):
        i, lane, x, what = j
        for b in ORDER:
            for c in CFGS:
                exe = f"{W}/verif/target/{c}/debug/c{b:02d}"
                n = int(PROPS[f"C{b:02d}"]["cases"] * CASES)
                p = subprocess.run([exe, "run", "--seed", "5", "--cases", str(n)], env=dict(os.environ, CONST=f"{i},{lane},{x},1"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                if p.returncode != 0: return j, b
        return j, 0
    kill = 0
    with cf.ThreadPoolExecutor(workers) as ex:
        for j, b in ex.map(go, jobs):
            if b: kill += 1
            else: print("SURVIVED", names[j[0]][0], "lane", j[1], j[3], flush=True)
    print("killed", kill, "of", len(jobs))


if sys.argv[1] == "build": build()
else: run(int(sys.argv[2]) if len(sys.argv) > 2 else 6, sys.argv[3] if len(sys.argv) > 3 else "")
