//! C15: decomposing a scale-rotation-translation matrix.
use dxcheck::prelude::*;
use dxcheck::rf::*;

fn rot64(q: V4) -> [[f64; 3]; 3] {
    let n = q.iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>();
    let (x, y, z, w) = (q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64);
    let k = 2.0 / n;
    [
        [1.0 - k * (y * y + z * z), k * (x * y + z * w), k * (x * z - y * w)],
        [k * (x * y - z * w), 1.0 - k * (x * x + z * z), k * (y * z + x * w)],
        [k * (x * z + y * w), k * (y * z - x * w), 1.0 - k * (x * x + y * y)],
    ]
}
fn matrix(s: &mut Src, sc: [f32; 3], q: V4, t: [f32; 3]) -> M4 {
    let rr = rot64(q);
    let mut m = [[0.0f32; 4]; 4];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = (rr[i][j] * sc[i] as f64) as f32;
        }
    }
    m[3] = [t[0], t[1], t[2], 1.0];
    s.showm("m", m);
    m
}
fn scale_of(s: &mut Src) -> f32 {
    let x = match s.choice(5) {
        0 => 1.0,
        1 => 1.0 + s.choice(8) as f32,
        2 => s.range(0.01, 10.0),
        3 => f32::exp2(s.range(-6.0, 8.0)),
        _ => f32::exp2(s.range(-6.0, 24.0)),
    };
    if s.one_in(3) { -x } else { x }
}
fn trans(s: &mut Src) -> [f32; 3] {
    let k = f32::exp2([0.0, 0.0, 12.0, -12.0, 60.0][s.below(5)]);
    [s.moderate(8) * k, s.moderate(8) * k, s.moderate(8) * k]
}
/// decompose and recompose; `abs` is the absolute tolerance for rows whose scale is tiny
fn round_trip(s: &mut Src, m: M4, abs: f64) -> Res {
    let (mut sc, mut q, mut t) = (vec([f32::NAN; 4]), vec([f32::NAN; 4]), vec([f32::NAN; 4]));
    let ok = XMMatrixDecompose(&mut sc, &mut q, &mut t, mat(m));
    ensure!(ok, "XMMatrixDecompose rejected a scale-rotation-translation matrix");
    let (sc, q, t) = (arr(sc), arr(q), arr(t));
    s.show("scale", sc);
    s.show("rotation", q);
    for j in 0..3 {
        ensure!(t[j].to_bits() == m[3][j].to_bits(), "translation {} expected {}", sv(t), sv(m[3]));
    }
    let n: f64 = q.iter().map(|x| (*x as f64) * (*x as f64)).sum();
    ensure!((n - 1.0).abs() <= 2e-5, "rotation quaternion {} has squared length {}", sv(q), n);
    let rr = rot64(q);
    for i in 0..3 {
        let len = (0..3).map(|j| (m[i][j] as f64).powi(2)).sum::<f64>().sqrt();
        within("|scale|", sc[i].abs(), len, 8.0 * U * len + 1e-30)?;
        for j in 0..3 {
            let g = rr[i][j] * sc[i] as f64;
            let tol = 1e-5 * len + abs;
            track("recomposed", (g - m[i][j] as f64).abs() / tol);
            ensure!(
                (g - m[i][j] as f64).abs() <= tol,
                "recomposed row {} is ({}, {}, {}), expected {}",
                i,
                rr[i][0] * sc[i] as f64,
                rr[i][1] * sc[i] as f64,
                rr[i][2] * sc[i] as f64,
                sv(m[i])
            );
        }
    }
    Ok(())
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("round_trip", 200, |s| {
        let sc = [scale_of(s), scale_of(s), scale_of(s)];
        let q = s.unit_quat();
        let t = trans(s);
        let m = matrix(s, sc, q, t);
        s.label(if sc.iter().filter(|x| **x < 0.0).count() % 2 == 1 { "mirrored" } else { "proper" });
        round_trip(s, m, 0.0)
    }));
    c.push(check("proper_signs", 80, |s| {
        // without mirroring the scales come back positive and the rotation is the one put in
        let sc = [scale_of(s).abs(), scale_of(s).abs(), scale_of(s).abs()];
        let q = s.unit_quat();
        let t = trans(s);
        let m = matrix(s, sc, q, t);
        let (mut a, mut b, mut d) = (vec([0.0; 4]), vec([0.0; 4]), vec([0.0; 4]));
        ensure!(XMMatrixDecompose(&mut a, &mut b, &mut d, mat(m)), "rejected");
        let (a, b) = (arr(a), arr(b));
        ensure!(a[0] > 0.0 && a[1] > 0.0 && a[2] > 0.0, "scales {}", sv(a));
        let dot: f64 = (0..4).map(|i| b[i] as f64 * q[i] as f64).sum();
        ensure!((dot.abs() - 1.0).abs() <= 2e-5, "rotation {} expected +-{}", sv(b), sv(q));
        Ok(())
    }));
    c.push(check("degenerate_scale", 120, |s| {
        // one, two or three scales vanish
        let mut sc = [scale_of(s), scale_of(s), scale_of(s)];
        let k = s.choice(7) + 1;
        for i in 0..3 {
            if k >> i & 1 == 1 {
                sc[i] = if s.one_in(3) { s.range(-5e-5, 5e-5) } else { 0.0 };
            }
        }
        let q = s.unit_quat();
        let t = trans(s);
        s.label(["", "one zero", "two zeros", "three zeros"][k.count_ones() as usize]);
        let mut m = matrix(s, sc, q, t);
        if s.one_in(3) {
            // an exact quarter-turn rotation: rows lie on the axes, in any order and orientation
            s.label("quarter turns");
            let p = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]][s.choice(6) as usize];
            let g = s.choice(8);
            for i in 0..3 {
                for j in 0..3 {
                    m[i][j] = if p[i] != j { 0.0 } else if g >> i & 1 == 1 { -sc[i] } else { sc[i] };
                }
            }
            s.showm("m", m);
        }
        round_trip(s, m, 2.2e-4)
    }));
    c.push(check("shear", 100, |s| {
        // rows that are far from orthogonal are rejected
        let mut m = [[0.0f32; 4]; 4];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = if s.bool() { s.range(-2.0, 2.0) } else { s.lattice(3, 1.0) };
            }
        }
        m[3][3] = 1.0;
        s.showm("m", m);
        let mut u = [[0.0f64; 3]; 3];
        for i in 0..3 {
            let len = (0..3).map(|j| (m[i][j] as f64).powi(2)).sum::<f64>().sqrt();
            if len < 0.01 {
                s.trivial();
                return Ok(());
            }
            for j in 0..3 {
                u[i][j] = m[i][j] as f64 / len;
            }
        }
        let d = u[0][0] * (u[1][1] * u[2][2] - u[1][2] * u[2][1]) - u[0][1] * (u[1][0] * u[2][2] - u[1][2] * u[2][0])
            + u[0][2] * (u[1][0] * u[2][1] - u[1][1] * u[2][0]);
        let (mut a, mut b, mut t) = (vec([0.0; 4]), vec([0.0; 4]), vec([0.0; 4]));
        let ok = XMMatrixDecompose(&mut a, &mut b, &mut t, mat(m));
        let e = (d.abs() - 1.0).abs();
        if e > 0.0101 {
            s.label("sheared");
            ensure!(!ok, "accepted a matrix whose normalized rows have determinant {}", d);
        } else if e < 0.0099 {
            s.label("orthogonal");
            ensure!(ok, "rejected a matrix whose normalized rows have determinant {}", d);
        } else {
            s.trivial();
        }
        Ok(())
    }));
    dxcheck::cli::main("C15", c);
}
