#!/usr/bin/env python3
"""Domain-breadth probing of the checks (developer aid, works only in /tmp/schema).

Every public function of a scratch copy of the crate is wrapped so that, when the environment selects it, its
result is corrupted exactly on inputs satisfying one predicate ("some component is a denormal", "the first two
arguments are equal", ...).  A (function, predicate) pair no check reports is a region of the input space the
generators do not reach or the oracles do not judge.

    schema.py build [CONFIG]             instrument and build
    schema.py run [WORKERS] [REGEX] [CONDS] run every pair, print survivors
"""
import concurrent.futures as cf, json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
W = os.environ.get("SCHEMA_DIR", "/tmp/schema")
CFG = os.environ.get("CFG", "avx2")
CASES = float(os.environ.get("CASES", "0.5"))

CONDS = ["big12", "big30", "big90", "small12", "small40", "denormal", "negzero", "nan", "inf", "allequal", "xzero", "yzero", "zzero", "yz_equal", "xy_equal", "args_equal",
         "args_opposite", "allneg", "single", "wjunk", "halfway", "just_above_1", "just_below_1", "allzero", "wzero", "second_allzero", "second_single", "big12_all", "small12_all", "last_single", "last_allzero", "first_norm_just_off_1",
         "parallel", "perpendicular", "m_projective", "m_identity", "m_symmetric", "m_diagonal", "m_negdet", "m_singular", "m_notrans", "last0_zero", "last0_one", "last0_neg", "last0_above1", "all_integral",
         "w_neg", "w_one", "descending", "ascending", "x_dominant_neg", "y_dominant_neg", "z_dominant_neg", "sum_zero", "g_larger", "f_larger", "w_dominant", "last0_tiny", "three_equal", "bc_equal", "first_last_equal",
         "big_angle", "pow2_all", "f_len_one", "m_rowsequal", "one_int_rest_not",
         "v_aspect", "v_flat", "v_qw_neg", "v_halfturn", "v_near0", "v_offaxis", "v_asym", "v_deep", "v_self_larger", "v_self_smaller", "v_concentric", "v_share_coord", "v_distant", "v_cube", "v_two_equal", "v_point",
         "v_dir_one_zero", "v_plane_d0", "v_at_origin", "v_all_neg", "v_q_two_zero", "v_far_from_origin", "v_neg_dir", "v_self_is_other", "v_narrow", "v_wide", "v_near_is_far", "v_tiny", "v_huge"]

MOD = r'''
#[doc(hidden)]
pub mod schema {
    use crate::*;
    pub static mut ID: u32 = u32::MAX;
    pub static mut COND: u32 = 0;
    static HIT: std::sync::Once = std::sync::Once::new();
    static INIT: std::sync::Once = std::sync::Once::new();
    pub trait Lanes { fn lanes(&self, o: &mut Vec<f32>); fn vol(&self) -> bool { false } }
    impl Lanes for XMVECTOR { fn lanes(&self, o: &mut Vec<f32>) { let a: [f32; 4] = unsafe { std::mem::transmute(*self) }; o.extend_from_slice(&a) } }
    impl Lanes for XMMATRIX { fn lanes(&self, o: &mut Vec<f32>) { let a: [f32; 16] = unsafe { std::mem::transmute(*self) }; o.extend_from_slice(&a) } }
    impl Lanes for f32 { fn lanes(&self, o: &mut Vec<f32>) { o.push(*self) } }
    impl Lanes for XMFLOAT3 { fn lanes(&self, o: &mut Vec<f32>) { o.extend_from_slice(&[self.x, self.y, self.z]) } }
    impl Lanes for XMFLOAT4 { fn lanes(&self, o: &mut Vec<f32>) { o.extend_from_slice(&[self.x, self.y, self.z, self.w]) } }
    impl Lanes for crate::collision::BoundingSphere { fn vol(&self) -> bool { true } fn lanes(&self, o: &mut Vec<f32>) { self.Center.lanes(o); self.Radius.lanes(o) } }
    impl Lanes for crate::collision::BoundingBox { fn vol(&self) -> bool { true } fn lanes(&self, o: &mut Vec<f32>) { self.Center.lanes(o); self.Extents.lanes(o) } }
    impl Lanes for crate::collision::BoundingOrientedBox { fn vol(&self) -> bool { true } fn lanes(&self, o: &mut Vec<f32>) { self.Center.lanes(o); self.Extents.lanes(o); self.Orientation.lanes(o) } }
    impl Lanes for crate::collision::BoundingFrustum { fn vol(&self) -> bool { true } fn lanes(&self, o: &mut Vec<f32>) { self.Origin.lanes(o); self.Orientation.lanes(o); for x in [self.RightSlope, self.LeftSlope, self.TopSlope, self.BottomSlope, self.Near, self.Far] { o.push(x) } } }
    impl<T: Lanes> Lanes for &T { fn vol(&self) -> bool { (**self).vol() } fn lanes(&self, o: &mut Vec<f32>) { (**self).lanes(o) } }
    pub trait Corrupt { fn corrupt(&mut self); }
    fn bad(x: f32) -> f32 { if x.is_nan() || x.is_infinite() { 1.0 } else if x == 0.0 { 1.0 } else { -2.0 * x } }
    impl Corrupt for f32 { fn corrupt(&mut self) { *self = bad(*self) } }
    impl Corrupt for XMVECTOR { fn corrupt(&mut self) { let a: [f32; 4] = unsafe { std::mem::transmute(*self) }; let b = [bad(a[0]), bad(a[1]), bad(a[2]), bad(a[3])]; *self = unsafe { std::mem::transmute(b) } } }
    impl Corrupt for XMMATRIX { fn corrupt(&mut self) { unsafe { for i in 0..4 { self.r[i].corrupt() } } } }
    impl Corrupt for bool { fn corrupt(&mut self) { *self = !*self } }
    impl Corrupt for u32 { fn corrupt(&mut self) { *self ^= 0xA0 } }
    impl Corrupt for u16 { fn corrupt(&mut self) { *self ^= 0x8001 } }
    impl Corrupt for XMFLOAT3 { fn corrupt(&mut self) { self.x.corrupt(); self.y.corrupt(); self.z.corrupt() } }
    impl Corrupt for XMFLOAT4 { fn corrupt(&mut self) { self.x.corrupt(); self.y.corrupt(); self.z.corrupt(); self.w.corrupt() } }
    impl Corrupt for crate::collision::ContainmentType { fn corrupt(&mut self) { use crate::collision::ContainmentType::*; *self = match *self { DISJOINT => INTERSECTS, INTERSECTS => CONTAINS, CONTAINS => INTERSECTS } } }
    impl Corrupt for crate::collision::PlaneIntersectionType { fn corrupt(&mut self) { use crate::collision::PlaneIntersectionType::*; *self = match *self { FRONT => INTERSECTING, INTERSECTING => BACK, BACK => INTERSECTING } } }
    impl Corrupt for crate::collision::BoundingSphere { fn corrupt(&mut self) { self.Radius.corrupt() } }
    impl Corrupt for crate::collision::BoundingBox { fn corrupt(&mut self) { self.Extents.corrupt() } }
    impl Corrupt for crate::collision::BoundingOrientedBox { fn corrupt(&mut self) { self.Extents.corrupt() } }
    impl Corrupt for crate::collision::BoundingFrustum { fn corrupt(&mut self) { self.Far.corrupt() } }
    impl<T: Corrupt, const N: usize> Corrupt for [T; N] { fn corrupt(&mut self) { for x in self.iter_mut() { x.corrupt() } } }
    #[inline(always)]
    pub fn on(id: u32) -> bool {
        unsafe { INIT.call_once(|| {
            if let Ok(s) = std::env::var("SCHEMA") { let mut p = s.split(','); ID = p.next().unwrap().parse().unwrap(); COND = p.next().unwrap().parse().unwrap(); }
        }); ID == id }
    }
    pub fn cond(args: &[&dyn Lanes]) -> bool {
        let mut a: Vec<Vec<f32>> = Vec::new();
        for x in args { let mut o = Vec::new(); x.lanes(&mut o); a.push(o); }
        let all: Vec<f32> = a.concat();
        let e: Vec<f32> = Vec::new();
        let f = a.get(0).unwrap_or(&e);
        let g = a.get(1).unwrap_or(&e);
        let l = a.last().unwrap_or(&e);
        let k = |i: i32| 2f32.powi(i);
        let any = |p: &dyn Fn(f32) -> bool| all.iter().any(|x| p(*x));
        let n3 = |v: &Vec<f32>| v.len().min(3);
        let single = |v: &Vec<f32>| v.len() >= 3 && v[..3].iter().filter(|x| **x != 0.0).count() == 1;
        let zero = |v: &Vec<f32>| v.len() >= 2 && v[..n3(v)].iter().all(|x| *x == 0.0);
        let cr = |f: &Vec<f32>, g: &Vec<f32>| { let d = |v: &Vec<f32>, i: usize| v[i] as f64; let c = [d(f,1)*d(g,2)-d(f,2)*d(g,1), d(f,2)*d(g,0)-d(f,0)*d(g,2), d(f,0)*d(g,1)-d(f,1)*d(g,0)];
            let q = |v: &Vec<f32>| (0..3).map(|i| d(v,i)*d(v,i)).sum::<f64>(); (c.iter().map(|x| x*x).sum::<f64>(), q(f), q(g)) };
        let mat = |p: &dyn Fn(&Vec<f32>) -> bool| a.iter().any(|v| v.len() == 16 && p(v));
        let det3 = |m: &Vec<f32>| { let d = |i: usize| m[i] as f64; d(0)*(d(5)*d(10)-d(6)*d(9)) - d(1)*(d(4)*d(10)-d(6)*d(8)) + d(2)*(d(4)*d(9)-d(5)*d(8)) };
        let sz = |v: &Vec<f32>| v[..n3(v)].iter().fold(0.0f32, |m, x| m.max(x.abs()));
        let vol: Vec<&Vec<f32>> = a.iter().zip(args).filter(|(_, x)| x.vol()).map(|(v, _)| v).collect();
        let ext = |v: &Vec<f32>| -> Vec<f32> { match v.len() { 4 => vec![v[3]], 6 | 10 => v[3..6].to_vec(), 13 => vec![v[12] * v[7].abs().max(v[8].abs()).max(v[9].abs()).max(v[10].abs()).max(1.0)], _ => vec![] } };
        let qt = |v: &Vec<f32>| -> Vec<f32> { match v.len() { 10 => v[6..10].to_vec(), 13 => v[3..7].to_vec(), _ => vec![] } };
        let mx = |v: &Vec<f32>| ext(v).iter().fold(0.0f32, |m, x| m.max(*x));
        let mn = |v: &Vec<f32>| ext(v).iter().fold(f32::MAX, |m, x| m.min(*x));
        let fr = |p: &dyn Fn(&Vec<f32>) -> bool| vol.iter().any(|v| v.len() == 13 && p(v));
        let r = match unsafe { COND } {
            0 => any(&|x| x.is_finite() && x.abs() >= k(12)),
            1 => any(&|x| x.is_finite() && x.abs() >= k(30)),
            2 => any(&|x| x.is_finite() && x.abs() >= k(90)),
            3 => any(&|x| x != 0.0 && x.abs() <= k(-12)),
            4 => any(&|x| x != 0.0 && x.abs() <= k(-40)),
            5 => any(&|x| x != 0.0 && x.abs() < f32::MIN_POSITIVE),
            6 => any(&|x| x == 0.0 && x.is_sign_negative()),
            7 => any(&|x| x.is_nan()),
            8 => any(&|x| x.is_infinite()),
            9 => f.len() >= 3 && f[0] == f[1] && f[1] == f[2] && f[0] != 0.0,
            10 => f.len() >= 3 && f[0] == 0.0 && f[1] != 0.0 && f[2] != 0.0,
            11 => f.len() >= 3 && f[1] == 0.0 && f[0] != 0.0 && f[2] != 0.0,
            12 => f.len() >= 3 && f[2] == 0.0 && f[1] != 0.0 && f[0] != 0.0,
            13 => f.len() >= 3 && f[1] == f[2] && f[0] != f[1] && f[1] != 0.0,
            14 => f.len() >= 3 && f[1] == f[0] && f[0] != f[2] && f[1] != 0.0,
            15 => a.len() >= 2 && f.len() == g.len() && f.len() > 2 && f[..3] == g[..3] && !zero(f),
            16 => a.len() >= 2 && f.len() == g.len() && f.len() > 2 && (0..3).all(|i| f[i] == -g[i]) && !zero(f),
            17 => f.len() >= 3 && f.iter().all(|x| *x < 0.0),
            18 => single(f),
            19 => f.len() == 4 && !f[3].is_finite() && f[..3].iter().all(|x| x.is_finite()),
            20 => any(&|x| x.is_finite() && x.abs() < 8e6 && x.fract().abs() == 0.5),
            21 => any(&|x| x.abs() > 1.0 && x.abs() <= 1.0 + k(-12)),
            22 => any(&|x| x.abs() < 1.0 && x.abs() >= 1.0 - k(-12)),
            23 => zero(f),
            24 => f.len() == 4 && f[3] == 0.0 && f[..3].iter().all(|x| *x != 0.0),
            25 => zero(g),
            26 => single(g),
            27 => f.len() >= 3 && f[..3].iter().all(|x| x.is_finite() && x.abs() >= k(12)),
            28 => f.len() >= 3 && f[..3].iter().all(|x| *x != 0.0 && x.abs() <= k(-12)),
            29 => a.len() >= 2 && single(l),
            30 => a.len() >= 2 && zero(l),
            31 => f.len() >= 3 && { let q: f64 = f[..3].iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>().sqrt(); q != 1.0 && (q - 1.0).abs() < 1e-3 && !single(f) },
            32 => a.len() >= 2 && f.len() >= 3 && g.len() >= 3 && { let (c, d, e2) = cr(f, g); d > 0.0 && e2 > 0.0 && c <= 1e-10 * d * e2 && f[..3] != g[..3] && (0..3).any(|i| f[i] != -g[i]) },
            33 => a.len() >= 2 && f.len() >= 3 && g.len() >= 3 && { let s: f64 = (0..3).map(|i| f[i] as f64 * g[i] as f64).sum(); s == 0.0 && !zero(f) && !zero(g) && !single(f) && !single(g) },
            34 => mat(&|m| m[3] != 0.0 || m[7] != 0.0 || m[11] != 0.0),
            35 => mat(&|m| (0..16).all(|i| m[i] == if i % 5 == 0 { 1.0 } else { 0.0 })),
            36 => mat(&|m| (0..4).all(|i| (0..4).all(|j| m[i * 4 + j] == m[j * 4 + i])) && (0..16).any(|i| i % 5 != 0 && m[i] != 0.0)),
            37 => mat(&|m| (0..16).all(|i| i % 5 == 0 || m[i] == 0.0) && (0..16).any(|i| i % 5 == 0 && m[i] != 1.0)),
            38 => mat(&|m| det3(m) < 0.0),
            39 => mat(&|m| det3(m) == 0.0),
            40 => mat(&|m| (12..15).all(|i| m[i] == 0.0) && (0..11).filter(|i| m[*i] != 0.0).count() > 4),
            41 => a.len() >= 2 && l[0] == 0.0,
            42 => a.len() >= 2 && l[0] == 1.0,
            43 => a.len() >= 2 && l[0] < 0.0,
            44 => a.len() >= 2 && l[0] > 1.0,
            45 => all.iter().all(|x| x.fract() == 0.0 && x.abs() < 1000.0) && all.iter().filter(|x| **x != 0.0).count() > all.len() / 2,
            46 => f.len() == 4 && f[3] < 0.0,
            47 => f.len() == 4 && f[3] == 1.0,
            48 => f.len() >= 3 && f[0] > f[1] && f[1] > f[2] && f[2] > 0.0,
            49 => f.len() >= 3 && f[0] < f[1] && f[1] < f[2] && f[0] > 0.0,
            50 => f.len() >= 3 && f[0] < 0.0 && f[0].abs() > f[1].abs() && f[0].abs() > f[2].abs(),
            51 => f.len() >= 3 && f[1] < 0.0 && f[1].abs() > f[0].abs() && f[1].abs() > f[2].abs(),
            52 => f.len() >= 3 && f[2] < 0.0 && f[2].abs() > f[0].abs() && f[2].abs() > f[1].abs(),
            53 => f.len() >= 3 && f[0] + f[1] + f[2] == 0.0 && !zero(f),
            54 => a.len() >= 2 && f.len() >= 3 && g.len() >= 3 && sz(g) > 1024.0 * sz(f) && sz(f) > 0.0,
            55 => a.len() >= 2 && f.len() >= 3 && g.len() >= 3 && sz(f) > 1024.0 * sz(g) && sz(g) > 0.0,
            56 => f.len() == 4 && (0..3).all(|i| f[3].abs() > 4.0 * f[i].abs()) && f[0] != 0.0,
            57 => a.len() >= 2 && l[0] != 0.0 && l[0].abs() < 1e-3,
            58 => a.len() >= 3 && a[0] == a[1] && a[1] == a[2] && !zero(f),
            59 => a.len() >= 3 && a[1] == a[2] && a[0] != a[1] && !zero(g),
            60 => a.len() >= 3 && f.len() > 2 && f == l && f != g && !zero(f),
            61 => a.iter().any(|v| v.len() == 1 && v[0].abs() > 6.29 && v[0].abs() < 1000.0),
            62 => f.len() >= 3 && f[..3].iter().all(|x| *x != 0.0 && x.is_finite() && x.to_bits() & 0x7fffff == 0) && f[0].abs() != f[1].abs() && f[1].abs() != f[2].abs(),
            63 => f.len() >= 3 && (f[..3].iter().map(|x| x * x).sum::<f32>() - 1.0).abs() < 1e-6 && !single(f),
            64 => mat(&|m| (0..3).any(|i| (0..i).any(|j| (0..3).all(|k| m[i * 4 + k] == m[j * 4 + k]) && (0..3).any(|k| m[i * 4 + k] != 0.0)))),
            65 => f.len() >= 3 && f[..3].iter().filter(|x| x.fract() == 0.0).count() == 1 && sz(f) < 1e5 && f[..3].iter().all(|x| *x != 0.0),
            66 => vol.iter().any(|v| ext(v).iter().all(|x| *x > 0.0) && mx(v) > 100.0 * mn(v)),
            67 => vol.iter().any(|v| ext(v).len() == 3 && mn(v) == 0.0 && mx(v) > 0.0),
            68 => vol.iter().any(|v| qt(v).len() == 4 && qt(v)[3] < 0.0),
            69 => vol.iter().any(|v| qt(v).len() == 4 && qt(v)[3] == 0.0),
            70 => fr(&|v| v[11] == 0.0),
            71 => fr(&|v| v[7] * v[8] > 0.0 || v[9] * v[10] > 0.0),
            72 => fr(&|v| v[7] != -v[8] && v[9] != -v[10]),
            73 => fr(&|v| v[11] > 0.0 && v[12] > 1000.0 * v[11]),
            74 => vol.len() >= 2 && mx(vol[0]) > 100.0 * mx(vol[1]) && mx(vol[1]) > 0.0,
            75 => vol.len() >= 2 && mx(vol[1]) > 100.0 * mx(vol[0]) && mx(vol[0]) > 0.0,
            76 => vol.len() >= 2 && vol[0][..3] == vol[1][..3],
            77 => vol.len() >= 2 && (0..3).filter(|i| vol[0][*i] == vol[1][*i]).count() == 2,
            78 => vol.len() >= 2 && (0..3).any(|i| (vol[0][i] - vol[1][i]).abs() > 10.0 * (mx(vol[0]) + mx(vol[1]))),
            79 => vol.iter().any(|v| ext(v).len() == 3 && mn(v) == mx(v) && mn(v) > 0.0),
            80 => vol.iter().any(|v| { let e = ext(v); e.len() == 3 && mn(v) < mx(v) && (e[0] == e[1] || e[1] == e[2] || e[0] == e[2]) }),
            81 => vol.iter().any(|v| ext(v).len() > 0 && mx(v) == 0.0),
            82 => a.len() >= 2 && l.len() == 4 && l[..3].iter().filter(|x| **x == 0.0).count() == 1,
            83 => a.len() >= 2 && l.len() == 4 && l[3] == 0.0,
            84 => vol.iter().any(|v| v[..3].iter().all(|x| *x == 0.0)),
            85 => vol.iter().any(|v| v[..3].iter().all(|x| *x < 0.0)),
            86 => vol.iter().any(|v| qt(v).iter().filter(|x| **x == 0.0).count() == 2),
            87 => vol.iter().any(|v| ext(v).len() > 0 && v[..3].iter().any(|x| x.abs() > 200.0 * mx(v)) && mx(v) > 0.0),
            88 => a.len() >= 2 && l.len() == 4 && l[..3].iter().all(|x| *x < 0.0),
            89 => vol.len() >= 2 && vol[0] == vol[1],
            90 => fr(&|v| (v[7] - v[8]).abs() < 0.05 || (v[9] - v[10]).abs() < 0.05),
            91 => fr(&|v| v[7] > 3.0 && v[8] < -3.0),
            92 => fr(&|v| v[11] > 0.0 && v[12] < 1.05 * v[11]),
            93 => vol.iter().any(|v| ext(v).len() > 0 && mx(v) < 1e-2 && mx(v) > 0.0),
            94 => vol.iter().any(|v| ext(v).len() > 0 && mx(v) > 1e3),
            _ => false,
        };
        if r { HIT.call_once(|| { let _ = std::fs::write(format!("{}/hit/{}_{}", std::env::var("SCHEMA_DIR").unwrap_or("/tmp/schema".into()), unsafe { ID }, unsafe { COND }), ""); }); }
        r
    }
}
'''
FILES = ["vector.rs", "misc.rs", "matrix.rs", "convert.rs", "packed_vector.rs", "collision.rs"]
LANES = {"FXMVECTOR", "GXMVECTOR", "HXMVECTOR", "CXMVECTOR", "XMVECTOR", "XMMATRIX", "FXMMATRIX", "CXMMATRIX", "f32", "&XMMATRIX", "&f32", "&BoundingSphere", "&BoundingBox", "&BoundingOrientedBox", "&BoundingFrustum", "&Self", "&XMFLOAT3", "&XMFLOAT4"}
RET = {"FXMVECTOR", "XMVECTOR", "XMMATRIX", "f32", "bool", "u32", "HALF", "ContainmentType", "PlaneIntersectionType"}
OUT = {"XMVECTOR", "FXMVECTOR", "f32", "u32", "Self", "XMFLOAT3", "XMFLOAT4", "XMMATRIX"}


def match(t, i, o, c):
    d = 0
    while True:
        if t[i] == o: d += 1
        elif t[i] == c:
            d -= 1
            if d == 0: return i
        i += 1


def split(a):
    out, d, cur = [], 0, ""
    for ch in a:
        if ch in "(<[": d += 1
        if ch in ")>]": d -= 1
        if ch == "," and d == 0:
            out.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]


def instrument():
    ids = []
    for fn in FILES:
        p = f"{W}/repo/src/{fn}"
        t = open(p, newline="").read().replace("\r\n", "\n")
        out, pos, impl = "", 0, ""
        for m in list(re.finditer(r"^(?:impl (\w+) \{|    pub mod|pub mod (\w+)|mod (\w+)|( *)pub fn (\w+)(<'a>)?\()", t, re.M)):
            if m.group(1): impl = m.group(1)
            if m.group(2) or m.group(3): impl = m.group(2) or m.group(3)
            if not m.group(5): continue
            name = m.group(5)
            i = m.end() - 1
            j = match(t, i, "(", ")")
            b = t.index("{", j)
            ret = t[j + 1:b].strip()
            ret = ret[2:].strip() if ret.startswith("->") else ""
            if t[t.rfind("\n\n", 0, m.start()):m.start()].find("#[test]") >= 0 or m.start() < pos: continue
            if impl in ("internal", "tests") or "where" in ret: continue
            e = match(t, b, "{", "}")
            args = split(re.sub(r"//.*", "", t[i + 1:j]))
            lan, outs, tys = [], [], []
            for a in args:
                if a == "&self": lan.append("self"); tys.append("self"); continue
                n, ty = [x.strip() for x in a.split(":", 1)]
                n = n.replace("mut ", "").strip()
                if ty in LANES: lan.append(n); tys.append(ty)
                mm = re.match(r"&mut (?:'a )?(.*)", ty)
                if mm and (mm.group(1) in OUT or mm.group(1).startswith("[XMFLOAT3")): outs.append(n)
            if not lan or (ret not in RET and not (ret == "" and outs)): 
                if fn != "collision.rs" or impl.startswith("Bound"): print("skip", fn, impl, name, args, ret)
                continue
            k = len(ids)
            ids.append([k, fn, impl if fn == "collision.rs" else "", name, tys])
            body = t[b + 1:e]
            r = ret or "()"
            cor = "crate::schema::Corrupt::corrupt(&mut __r);" if ret else "".join(f"crate::schema::Corrupt::corrupt(&mut *{o});" for o in outs)
            new = ("{ let __c = crate::schema::on(%d) && crate::schema::cond(&[%s]);\n #[allow(unused_mut)] let mut __r: %s = { %s (|| -> %s {%s})() }; if __c { %s } __r }"
                   % (k, ", ".join(f"&{x}" for x in lan), r, "".join(f"let {o} = &mut *{o};" for o in outs), r, body, cor))
            out += t[pos:b] + new
            pos = e + 1
        out += t[pos:]
        open(p, "w").write(out)
    p = f"{W}/repo/src/lib.rs"
    t = open(p).read()
    open(p, "w").write(t + MOD)
    json.dump(ids, open(W + "/ids.json", "w"))
    print(len(ids), "functions instrumented")


def bins(fn, impl, name):
    if fn == "collision.rs":
        if "Transform" in name: return ["c26"]
        if name.startswith(("Create", "Get")): return ["c25"]
        if "Ray" in name: return ["c23"]
        if "Plane" in name or name == "ContainedBy": return ["c24"]
        if "Triangle" in name: return ["c22"]
        if "Frustum" in name or impl == "BoundingFrustum": return ["c21"]
        return ["c20"]
    out = []
    for k in range(1, 20):
        s = open(f"{W}/verif/harness/src/bin/c{k:02d}.rs").read()
        if re.search(r"\b%s\b" % name, s): out.append(f"c{k:02d}")
    return out


def build():
    subprocess.run(f"rm -rf {W}/repo {W}/verif {W}/hit; mkdir -p {W}; cp -a /repo {W}/repo; mkdir {W}/verif {W}/hit; cp -a {ROOT}/harness {ROOT}/*.py {ROOT}/known_findings.txt {W}/verif/", shell=True, check=True)
    instrument()
    sys.path.insert(0, W + "/verif")
    import importlib.util
    sp = importlib.util.spec_from_file_location("chk", W + "/verif/check.py")
    chk = importlib.util.module_from_spec(sp); sp.loader.exec_module(chk)
    for k in range(1, 27):
        rc, o, exe = chk.build(CFG, f"c{k:02d}")
        if rc: print(o[-6000:]); sys.exit(1)
    print("built")


def run(workers, rx, conds):
    from props import PROPS
    ids = json.load(open(W + "/ids.json"))
    res = {}

    def go(job):
        (k, fn, impl, name, tys), c = job
        last = "nobin"
        for b in bins(fn, impl, name):
            exe = f"{W}/verif/target/{CFG}/debug/{b}"
            n = int(PROPS[b.upper()]["cases"] * CASES)
            p = subprocess.run([exe, "run", "--seed", "5", "--cases", str(n)], env=dict(os.environ, SCHEMA=f"{k},{c}"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if p.returncode != 0: return job, "killed"
            last = "SURVIVED"
        return job, last
    def apt(f, c):
        n, ty, c = len(f[4]), f[4], CONDS[c]
        if c.startswith("m_"): return any("MATRIX" in x for x in ty)
        if c in ("parallel", "perpendicular", "g_larger", "f_larger") or c.startswith("last"): return n >= 2
        if c in ("three_equal", "bc_equal", "first_last_equal"): return n >= 3
        if c == "big_angle": return "f32" in ty
        return True
    jobs = [(f, c) for f in ids for c in range(len(CONDS)) if apt(f, c) and re.search(rx, f[2] + "::" + f[3]) and (not conds or CONDS[c] in conds)]
    done = 0
    by = {}
    with cf.ThreadPoolExecutor(workers) as ex:
        for (f, c), r in ex.map(go, jobs):
            if r != "killed": by.setdefault((f[1], f[2], f[3]), []).append(CONDS[c] + ("?" if r == "nobin" else "" if os.path.exists(f"{W}/hit/{f[0]}_{c}") else ":nohit"))
            if c == len(CONDS) - 1 and (f[1], f[2], f[3]) in by:
                print(f[1], f[2], f[3], by[(f[1], f[2], f[3])], flush=True)
    if conds:
        for k, v in by.items(): print(*k, v)


if sys.argv[1] == "build": build()
else: run(int(sys.argv[2]) if len(sys.argv) > 2 else 6, sys.argv[3] if len(sys.argv) > 3 else "", set(sys.argv[4].split(",")) if len(sys.argv) > 4 else None)
