//! C18: quaternion exponential/logarithm and interpolation.
use dxcheck::prelude::*;
use dxcheck::rf::*;

type Q = [f64; 4];
fn q64(a: V4) -> Q {
    a.map(|x| x as f64)
}
fn dot(a: Q, b: Q) -> f64 {
    (0..4).map(|i| a[i] * b[i]).sum()
}
fn lin(a: Q, x: f64, b: Q, y: f64) -> Q {
    let mut o = [0.0; 4];
    for i in 0..4 {
        o[i] = a[i] * x + b[i] * y;
    }
    o
}
/// the library's product: first a, then b
fn mul(a: Q, b: Q) -> Q {
    let (a, b) = (b, a);
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
        a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}
fn inv(a: Q) -> Q {
    let n = dot(a, a);
    [-a[0] / n, -a[1] / n, -a[2] / n, a[3] / n]
}
fn exp(a: Q) -> Q {
    let t = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
    let k = if t < 1e-9 { 1.0 } else { t.sin() / t };
    [a[0] * k, a[1] * k, a[2] * k, t.cos()]
}
fn ln(a: Q) -> Q {
    let w = a[3].max(-1.0).min(1.0);
    let k = if w.abs() > 1.0 - 1e-5 { 1.0 } else { w.acos() / w.acos().sin() };
    [a[0] * k, a[1] * k, a[2] * k, 0.0]
}
/// shortest-arc spherical interpolation
fn slerp(a: Q, b: Q, t: f64) -> Q {
    let d = dot(a, b);
    let (c, sg) = if d < 0.0 { (-d, -1.0) } else { (d, 1.0) };
    let om = (1.0 - c * c).max(0.0).sqrt().atan2(c);
    let (x, y) = if c < 1.0 - 1e-5 && om.sin() > 0.0 { (((1.0 - t) * om).sin() / om.sin(), (t * om).sin() / om.sin()) } else { (1.0 - t, t) };
    lin(a, x, b, y * sg)
}
fn same_q(what: &str, got: V4, want: Q, tol: f64) -> Res {
    for i in 0..4 {
        let d = (got[i] as f64 - want[i]).abs();
        if tracking() {
            track(what, if d.is_nan() { 1e9 } else { d / tol });
        }
        ensure!(d <= tol, "{}: got {} expected {:?} +- {:e}", what, sv(got), want, tol);
    }
    Ok(())
}
fn quat(s: &mut Src, name: &str) -> V4 {
    let q = s.unit_quat();
    s.show(name, q);
    q
}
/// a unit quaternion close to, far from or opposite to another
fn related(s: &mut Src, a: V4, name: &str) -> V4 {
    let q = match s.choice(4) {
        0 => s.unit_quat(),
        1 => a,
        2 => {
            let k = f64::exp2(-(s.choice(16) as f64));
            let b = s.unit_quat();
            let l = lin(q64(a), 1.0, q64(b), k);
            let n = dot(l, l).sqrt();
            if n < 1e-6 { a } else { l.map(|x| (x / n) as f32) }
        }
        _ => s.unit_quat(),
    };
    let q = if s.one_in(4) { q.map(|x| -x) } else { q };
    s.show(name, q);
    q
}
fn time(s: &mut Src) -> f32 {
    let t = match s.choice(4) {
        0 => [0.0, 1.0, 0.5][s.below(3)],
        1 | 2 => s.range(0.0, 1.0),
        _ => s.range(-0.5, 1.5),
    };
    s.showf("t", t);
    t
}
/// Measured error stays below 1e-6 except next to the switch from spherical to linear
/// interpolation (cosine 1 - 1e-5), where the two differ by about 2.5e-6.
const SLERP: f64 = 8e-6;
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("ln_exp", 150, |s| {
        let q = quat(s, "q");
        let g = arr(XMQuaternionLn(vec(q)));
        ensure!(g[3] == 0.0, "XMQuaternionLn leaves w = {:?}", g[3]);
        let w = q[3] as f64;
        let edge = (w.abs() - (1.0 - 1e-5)).abs() < 2e-7;
        // theta/sin(theta) near +-pi is ill conditioned in w
        let st = (1.0 - w * w).max(0.0).sqrt();
        if !edge && (w > -0.999 || w < -(1.0 - 1e-5)) {
            same_q("XMQuaternionLn", g, ln(q64(q)), 4e-6 / st.max(0.01))?;
        } else {
            s.label("edge of the domain");
        }
        let v = [s.range(-3.0, 3.0), s.range(-3.0, 3.0), s.range(-3.0, 3.0), [0.0, 2.0, -1e9, f32::NAN][s.below(4)]];
        let k = f32::exp2(4.0 - s.choice(34) as f32);
        let v = [v[0] * k, v[1] * k, v[2] * k, v[3]];
        s.show("v", v);
        same_q("XMQuaternionExp", arr(XMQuaternionExp(vec(v))), exp(q64(v)), 4e-6 + 4e-7 * (k as f64) * 5.2)?;
        // exp(ln q) = q
        if w > -0.99 && w < 1.0 - 2e-5 {
            same_q("exp of ln", arr(XMQuaternionExp(XMQuaternionLn(vec(q)))), q64(q), 1e-5)?;
        }
        Ok(())
    }));
    c.push(check("slerp", 250, |s| {
        let a = quat(s, "q0");
        let b = related(s, a, "q1");
        let t = time(s);
        let d = dot(q64(a), q64(b));
        let g = arr(XMQuaternionSlerp(vec(a), vec(b), t));
        let g2 = arr(XMQuaternionSlerpV(vec(a), vec(b), vec([t; 4])));
        eqn("XMQuaternionSlerp and XMQuaternionSlerpV", g, g2)?;
        if d.abs() < 1e-6 {
            // two shortest arcs: either is right
            s.label("perpendicular");
            let far = |w: Q| (0..4).map(|i| (g[i] as f64 - w[i]).abs()).fold(0.0, f64::max);
            let om = std::f64::consts::FRAC_PI_2;
            let (u, v) = (((1.0 - t as f64) * om).sin(), (t as f64 * om).sin());
            let (p, m) = (lin(q64(a), u, q64(b), v), lin(q64(a), u, q64(b), -v));
            ensure!(far(p) <= SLERP || far(m) <= SLERP, "XMQuaternionSlerp: got {} expected {:?} or {:?}", sv(g), p, m);
            return Ok(());
        }
        if d < 0.0 {
            s.label("flipped");
        }
        if d.abs() > 1.0 - 1e-5 {
            s.label("nearly parallel");
        }
        let tol = SLERP;
        same_q("XMQuaternionSlerp", g, slerp(q64(a), q64(b), t as f64), tol)?;
        if (0.0..=1.0).contains(&t) {
            let n = dot(q64(g), q64(g));
            ensure!((n - 1.0).abs() <= 4.0 * tol, "interpolated quaternion {} has squared length {}", sv(g), n);
        }
        if t == 0.0 {
            same_q("slerp at 0", g, q64(a), 4e-6)?;
        }
        Ok(())
    }));
    c.push(check("squad", 120, |s| {
        let a = quat(s, "q0");
        let (b, d, e) = (related(s, a, "q1"), related(s, a, "q2"), related(s, a, "q3"));
        let t = time(s);
        let g = arr(XMQuaternionSquad(vec(a), vec(b), vec(d), vec(e), t));
        let g2 = arr(XMQuaternionSquadV(vec(a), vec(b), vec(d), vec(e), vec([t; 4])));
        eqn("XMQuaternionSquad and XMQuaternionSquadV", g, g2)?;
        let (qa, qb, qd, qe, t) = (q64(a), q64(b), q64(d), q64(e), t as f64);
        let (p, q) = (slerp(qa, qe, t), slerp(qb, qd, t));
        // arcs next to a half turn have no well-defined shortest direction
        if [dot(qa, qe), dot(qb, qd), dot(p, q)].iter().any(|x| x.abs() < 1e-3) {
            s.trivial();
            return Ok(());
        }
        let tol = 8.0 * SLERP;
        same_q("XMQuaternionSquad", g, slerp(p, q, 2.0 * t * (1.0 - t)), tol)
    }));
    c.push(check("squad_setup", 120, |s| {
        let q1 = quat(s, "q1");
        let (q0, q2) = (related(s, q1, "q0"), related(s, q1, "q2"));
        let q3 = related(s, q2, "q3");
        let (mut a, mut b, mut d) = (vec([f32::NAN; 4]), vec([f32::NAN; 4]), vec([f32::NAN; 4]));
        XMQuaternionSquadSetup(&mut a, &mut b, &mut d, vec(q0), vec(q1), vec(q2), vec(q3));
        let (a, b, d) = (arr(a), arr(b), arr(d));
        let (p0, p1, p2, p3) = (q64(q0), q64(q1), q64(q2), q64(q3));
        let fl = |x: Q, y: Q| if dot(x, y) < 0.0 { y.map(|k| -k) } else { y };
        if [dot(p0, p1), dot(p1, p2), dot(p2, p3)].iter().any(|x| x.abs() < 1e-3) {
            s.trivial();
            return Ok(());
        }
        let (s0, s2) = (fl(p1, p0), fl(p1, p2));
        let s3 = fl(s2, p3);
        for i in 0..4 {
            ensure!(d[i] as f64 == s2[i], "C is {} expected {:?}", sv(d), s2);
        }
        let h = |m: Q, x: Q, y: Q| mul(m, exp(lin(ln(mul(inv(m), x)), -0.25, ln(mul(inv(m), y)), -0.25)));
        same_q("XMQuaternionSquadSetup A", a, h(p1, s0, s2), 4e-6)?;
        same_q("XMQuaternionSquadSetup B", b, h(s2, p1, s3), 4e-6)
    }));
    c.push(check("barycentric", 150, |s| {
        let a = quat(s, "q0");
        let (b, d) = (related(s, a, "q1"), related(s, a, "q2"));
        let (f, g) = match s.choice(4) {
            0 => (s.range(0.0, 1.0), s.range(0.0, 1.0)),
            1 => {
                let f = s.range(0.0, 1.0);
                (f, -f)
            }
            2 => (s.lattice(8, 0.125), s.lattice(8, 0.125)),
            _ => (s.lattice(4, 3e-6), s.lattice(4, 3e-6)),
        };
        s.note(|| format!("f={:?} g={:?}", f, g));
        let r1 = arr(XMQuaternionBaryCentric(vec(a), vec(b), vec(d), f, g));
        let r2 = arr(XMQuaternionBaryCentricV(vec(a), vec(b), vec(d), vec([f; 4]), vec([g; 4])));
        let t = f + g;
        if t.abs() < 0.9e-5 {
            s.label("no weight");
            eqn("XMQuaternionBaryCentric", r1, a)?;
            return eqn("XMQuaternionBaryCentricV", r2, a);
        }
        let (qa, qb, qd) = (q64(a), q64(b), q64(d));
        let k = g as f64 / t as f64;
        if t.abs() < 1.7e-5 || k.abs() > 4.0 || dot(qa, qb).abs() < 1e-3 || dot(qa, qd).abs() < 1e-3 {
            s.trivial();
            return Ok(());
        }
        let (p, q) = (slerp(qa, qb, t as f64), slerp(qa, qd, t as f64));
        if dot(p, q).abs() < 1e-3 {
            s.trivial();
            return Ok(());
        }
        // extrapolation amplifies the difference at the switch to linear interpolation
        let ext = |x: f64| 1.0 + 4.0 * (x * (x - 1.0)).abs();
        let tol = 4.0 * SLERP * ext(k) * ext(t as f64);
        let w = slerp(p, q, k);
        same_q("XMQuaternionBaryCentric", r1, w, tol)?;
        same_q("XMQuaternionBaryCentricV", r2, w, tol)
    }));
    dxcheck::cli::main("C18", c);
}
