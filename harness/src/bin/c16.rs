//! C16: view and projection matrices.
use dxcheck::prelude::*;
use dxcheck::rf::*;

fn norm3r(v: RV) -> RV {
    let l = dotn(v, v, 3).sqrt();
    [v[0] / l, v[1] / l, v[2] / l, R::ZERO]
}
fn p3(s: &mut Src, e: u32, name: &str) -> V4 {
    let j = [0.0, 1.0, -7.5, f32::NAN, f32::INFINITY][s.below(5)];
    let mut v = s.mod_vec(e, name);
    v[3] = j;
    s.show(name, v);
    v
}
fn pt(v: V4) -> RV {
    [r(v[0]), r(v[1]), r(v[2]), R::ZERO]
}
fn nv(v: RV) -> RV {
    [-v[0], -v[1], -v[2], -v[3]]
}
/// rows: right, up, forward, translation
fn look(eye: RV, dir: RV, up: RV) -> (RM, bool) {
    let r2 = norm3r(dir);
    let c = cross3(up, r2);
    let l = dotn(c, c, 3);
    let good = l.v > 64.0 * l.e && l.v > 1e-6 * dotn(up, up, 3).v;
    let r0 = norm3r(c);
    let r1 = cross3(r2, r0);
    let n = nv(eye);
    let mut m = rident();
    for j in 0..3 {
        m[j] = [r0[j], r1[j], r2[j], R::ZERO];
    }
    m[3] = [dotn(r0, n, 3), dotn(r1, n, 3), dotn(r2, n, 3), R::ONE];
    (m, good)
}
fn zero(v: V4) -> bool {
    v[0] == 0.0 && v[1] == 0.0 && v[2] == 0.0
}
/// a usable extent: away from zero by more than the documented 1e-5
fn extent(s: &mut Src) -> f32 {
    let x = match s.choice(3) {
        0 => 1.0 + s.choice(16) as f32,
        1 => s.range(0.01, 100.0),
        _ => f32::exp2(s.range(-13.0, 22.0)),
    };
    if s.one_in(6) { -x } else { x }
}
fn planes(s: &mut Src) -> (f32, f32) {
    let n = match s.choice(3) {
        0 => 1.0,
        1 => s.range(0.01, 10.0),
        _ => f32::exp2(s.range(-13.0, 13.0)),
    };
    let d = match s.choice(3) {
        0 => 1.0 + s.choice(100) as f32,
        1 => s.range(0.05, 1000.0),
        _ => f32::exp2(s.range(-3.0, 24.0)),
    };
    // reversed depth is allowed
    let (n, f) = if s.one_in(4) { (n + d, n) } else { (n, n + d) };
    s.note(|| format!("near={:?} far={:?}", n, f));
    (n, f)
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("look", 200, |s| {
        let (eye, to, up) = { let e = [8, 8, 20, 40][s.below(4)]; (p3(s, e, "eye"), p3(s, e, "to"), p3(s, e, "up")) };
        let d = [to[0] - eye[0], to[1] - eye[1], to[2] - eye[2], 0.0];
        if zero(up) || zero(to) || zero(d) {
            s.trivial();
            return Ok(());
        }
        let (w, good) = look(pt(eye), pt(to), pt(up));
        if good {
            s.label("look to");
            close44("XMMatrixLookToLH", marr(XMMatrixLookToLH(vec(eye), vec(to), vec(up))), w)?;
            let (w, _) = look(pt(eye), nv(pt(to)), pt(up));
            close44("XMMatrixLookToRH", marr(XMMatrixLookToRH(vec(eye), vec(to), vec(up))), w)?;
        }
        let dir = subv(pt(to), pt(eye));
        let (w, good2) = look(pt(eye), dir, pt(up));
        if good2 {
            s.label("look at");
            close44("XMMatrixLookAtLH", marr(XMMatrixLookAtLH(vec(eye), vec(to), vec(up))), w)?;
            let (w, _) = look(pt(eye), nv(dir), pt(up));
            close44("XMMatrixLookAtRH", marr(XMMatrixLookAtRH(vec(eye), vec(to), vec(up))), w)?;
        }
        if !good && !good2 {
            s.trivial();
        }
        Ok(())
    }));
    c.push(check("perspective", 150, |s| {
        let (w, h) = (extent(s), extent(s));
        s.note(|| format!("width={:?} height={:?}", w, h));
        let (n, f) = planes(s);
        let two = rc(2.0);
        let rg = r(f) / (r(f) - r(n));
        let z = R::ZERO;
        let (a, b) = (two * r(n) / r(w), two * r(n) / r(h));
        let lh = [[a, z, z, z], [z, b, z, z], [z, z, rg, R::ONE], [z, z, -(rg * r(n)), z]];
        let rh = [[a, z, z, z], [z, b, z, z], [z, z, -rg, -R::ONE], [z, z, -(rg * r(n)), z]];
        close44("XMMatrixPerspectiveLH", marr(XMMatrixPerspectiveLH(w, h, n, f)), lh)?;
        close44("XMMatrixPerspectiveRH", marr(XMMatrixPerspectiveRH(w, h, n, f)), rh)
    }));
    c.push(check("perspective_fov", 150, |s| {
        let fov = match s.choice(3) {
            0 => std::f32::consts::FRAC_PI_2,
            1 => s.range(0.02, 3.1),
            _ => s.range(0.3, 2.0),
        };
        let ar = extent(s);
        s.note(|| format!("fov={:?} aspect={:?}", fov, ar));
        let (n, f) = planes(s);
        let half = fov as f64 * 0.5;
        let sn = R::new(half.sin(), 4.0 * U + 4.0 * U * half);
        let cs = R::new(half.cos(), 4.0 * U + 4.0 * U * half);
        let h = cs / sn;
        let a = h / r(ar);
        let rg = r(f) / (r(f) - r(n));
        let z = R::ZERO;
        let lh = [[a, z, z, z], [z, h, z, z], [z, z, rg, R::ONE], [z, z, -(rg * r(n)), z]];
        let rh = [[a, z, z, z], [z, h, z, z], [z, z, -rg, -R::ONE], [z, z, -(rg * r(n)), z]];
        close44("XMMatrixPerspectiveFovLH", marr(XMMatrixPerspectiveFovLH(fov, ar, n, f)), lh)?;
        close44("XMMatrixPerspectiveFovRH", marr(XMMatrixPerspectiveFovRH(fov, ar, n, f)), rh)
    }));
    c.push(check("perspective_off_center", 150, |s| {
        let (l, b) = (s.moderate(6), s.moderate(6));
        let (rt, t) = (l + extent(s), b + extent(s));
        if (rt - l).abs() < 1e-3 || (t - b).abs() < 1e-3 {
            s.trivial();
            return Ok(());
        }
        s.note(|| format!("left={:?} right={:?} bottom={:?} top={:?}", l, rt, b, t));
        let (n, f) = planes(s);
        let two = rc(2.0);
        let z = R::ZERO;
        let (iw, ih) = (R::ONE / (r(rt) - r(l)), R::ONE / (r(t) - r(b)));
        let rg = r(f) / (r(f) - r(n));
        let (a, d) = (two * r(n) * iw, two * r(n) * ih);
        let (x, y) = ((r(l) + r(rt)) * iw, (r(t) + r(b)) * ih);
        let lh = [[a, z, z, z], [z, d, z, z], [-x, -y, rg, R::ONE], [z, z, -(rg * r(n)), z]];
        let rh = [[a, z, z, z], [z, d, z, z], [x, y, -rg, -R::ONE], [z, z, -(rg * r(n)), z]];
        close44("XMMatrixPerspectiveOffCenterLH", marr(XMMatrixPerspectiveOffCenterLH(l, rt, b, t, n, f)), lh)?;
        close44("XMMatrixPerspectiveOffCenterRH", marr(XMMatrixPerspectiveOffCenterRH(l, rt, b, t, n, f)), rh)
    }));
    c.push(check("orthographic", 150, |s| {
        let (w, h) = (extent(s), extent(s));
        s.note(|| format!("width={:?} height={:?}", w, h));
        let (mut n, mut f) = planes(s);
        if s.one_in(3) {
            let k = s.range(-50.0, 50.0);
            n -= k;
            f -= k;
            if (f - n).abs() < 1e-3 {
                s.trivial();
                return Ok(());
            }
        }
        s.note(|| format!("near={:?} far={:?}", n, f));
        let two = rc(2.0);
        let z = R::ZERO;
        let rg = R::ONE / (r(f) - r(n));
        let (a, b) = (two / r(w), two / r(h));
        let lh = [[a, z, z, z], [z, b, z, z], [z, z, rg, z], [z, z, -(rg * r(n)), R::ONE]];
        let rh = [[a, z, z, z], [z, b, z, z], [z, z, -rg, z], [z, z, -(rg * r(n)), R::ONE]];
        close44("XMMatrixOrthographicLH", marr(XMMatrixOrthographicLH(w, h, n, f)), lh)?;
        close44("XMMatrixOrthographicRH", marr(XMMatrixOrthographicRH(w, h, n, f)), rh)
    }));
    c.push(check("view_volume", 100, |s| {
        // the corners of the view volume land on the corners of clip space
        let (n, f) = planes(s);
        let (n, f) = (n.min(f), n.max(f));
        let (w, h) = (extent(s).abs(), extent(s).abs());
        s.note(|| format!("width={:?} height={:?}", w, h));
        let far = s.bool();
        let (sx, sy) = ([-1.0f32, 1.0][s.below(2)], [-1.0f32, 1.0][s.below(2)]);
        let d = if far { f } else { n };
        let k = d as f64 / n as f64;
        for (hand, m) in [(1.0f32, XMMatrixPerspectiveLH(w, h, n, f)), (-1.0, XMMatrixPerspectiveRH(w, h, n, f))] {
            let p = [(sx as f64 * w as f64 / 2.0 * k) as f32, (sy as f64 * h as f64 / 2.0 * k) as f32, hand * d, 1.0];
            let g = arr(XMVector3TransformCoord(vec(p), m));
            // depth near 0 comes from a cancellation: its error grows with far/(far-near)
            let ed = 16.0 * U * (f / (f - n)) as f64;
            within("clip x", g[0], sx as f64, 8.0 * U)?;
            within("clip y", g[1], sy as f64, 8.0 * U)?;
            within("clip depth", g[2], if far { 1.0 } else { 0.0 }, ed)?;
        }
        for (hand, m) in [(1.0f32, XMMatrixOrthographicLH(w, h, n, f)), (-1.0, XMMatrixOrthographicRH(w, h, n, f))] {
            let p = [sx * w / 2.0, sy * h / 2.0, hand * d, 1.0];
            let g = arr(XMVector3TransformCoord(vec(p), m));
            let ed = 16.0 * U * (f / (f - n)) as f64;
            within("ortho x", g[0], sx as f64, 8.0 * U)?;
            within("ortho y", g[1], sy as f64, 8.0 * U)?;
            within("ortho depth", g[2], if far { 1.0 } else { 0.0 }, ed)?;
        }
        Ok(())
    }));
    dxcheck::cli::main("C16", c);
}
