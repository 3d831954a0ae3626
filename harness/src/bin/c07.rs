//! C07: interpolation (linear, Hermite, Catmull-Rom, barycentric).
use dxcheck::prelude::*;
use dxcheck::rf::*;

/// A curve parameter: end points, inside and (moderately) outside [0, 1].
fn param(s: &mut Src) -> f32 {
    match s.choice(5) {
        0 => [0.0f32, 1.0, 0.5, -1.0, 2.0][s.below(5)],
        1 | 2 => s.range(0.0, 1.0),
        3 => s.range(-4.0, 4.0),
        _ => s.moderate(4),
    }
}
fn params(s: &mut Src) -> V4 {
    let t = [param(s), param(s), param(s), param(s)];
    s.show("t", t);
    t
}
fn k(x: f64) -> R {
    R::new(x, 0.0)
}
fn hermite(t: R) -> [R; 4] {
    let t2 = t * t;
    let t3 = t2 * t;
    [k(2.0) * t3 - k(3.0) * t2 + R::ONE, t3 - k(2.0) * t2 + t, k(3.0) * t2 - k(2.0) * t3, t3 - t2]
}
fn catmull(t: R) -> [R; 4] {
    let t2 = t * t;
    let t3 = t2 * t;
    let h = k(0.5);
    [
        h * (k(2.0) * t2 - t3 - t),
        h * (k(3.0) * t3 - k(5.0) * t2 + k(2.0)),
        h * (k(4.0) * t2 - k(3.0) * t3 + t),
        h * (t3 - t2),
    ]
}
fn comb(c: [R; 4], p: [f32; 4]) -> R {
    r(p[0]) * c[0] + r(p[1]) * c[1] + r(p[2]) * c[2] + r(p[3]) * c[3]
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("lerp", 100, |s| {
        let e = [30, 30, 60, 110][s.below(4)];
        let (a, b, t) = (s.mod_vec(e, "a"), s.mod_vec(e, "b"), params(s));
        let g = arr(XMVectorLerpV(vec(a), vec(b), vec(t)));
        let w = |i: usize, t: f32| r(a[i]) + (r(b[i]) - r(a[i])) * r(t);
        close4("XMVectorLerpV", g, [w(0, t[0]), w(1, t[1]), w(2, t[2]), w(3, t[3])])?;
        let g = arr(XMVectorLerp(vec(a), vec(b), t[0]));
        close4("XMVectorLerp", g, [w(0, t[0]), w(1, t[0]), w(2, t[0]), w(3, t[0])])?;
        // the start point is reproduced exactly
        eqn("XMVectorLerp(.., 0)", arr(XMVectorLerp(vec(a), vec(b), 0.0)), a)?;
        eqn("XMVectorLerpV(.., 0)", arr(XMVectorLerpV(vec(a), vec(b), vec([0.0; 4]))), a)
    }));
    c.push(check("hermite", 100, |s| {
        let e = [16, 16, 50, 105][s.below(4)];
        let (p0, t0, p1, t1) = (s.mod_vec(e, "p0"), s.mod_vec(e, "t0"), s.mod_vec(e, "p1"), s.mod_vec(e, "t1"));
        let t = params(s);
        let g = arr(XMVectorHermite(vec(p0), vec(t0), vec(p1), vec(t1), t[0]));
        let h = hermite(r(t[0]));
        let mut w = [R::ZERO; 4];
        for i in 0..4 {
            w[i] = comb(h, [p0[i], t0[i], p1[i], t1[i]]);
        }
        close4("XMVectorHermite", g, w)?;
        // the V form weights Position0, Tangent0, Position1, Tangent1 by the X, Y, Z, W parameters
        let g = arr(XMVectorHermiteV(vec(p0), vec(t0), vec(p1), vec(t1), vec(t)));
        let h = [hermite(r(t[0]))[0], hermite(r(t[1]))[1], hermite(r(t[2]))[2], hermite(r(t[3]))[3]];
        for i in 0..4 {
            w[i] = comb(h, [p0[i], t0[i], p1[i], t1[i]]);
        }
        close4("XMVectorHermiteV", g, w)?;
        // end points
        for (e, want) in [(0.0f32, p0), (1.0, p1)] {
            eqn("XMVectorHermite end point", arr(XMVectorHermite(vec(p0), vec(t0), vec(p1), vec(t1), e)), want)?;
            let g = arr(XMVectorHermiteV(vec(p0), vec(t0), vec(p1), vec(t1), vec([e; 4])));
            eqn("XMVectorHermiteV end point", g, want)?;
        }
        Ok(())
    }));
    c.push(check("catmull_rom", 100, |s| {
        let e = [16, 16, 50, 105][s.below(4)];
        let p = [s.mod_vec(e, "p0"), s.mod_vec(e, "p1"), s.mod_vec(e, "p2"), s.mod_vec(e, "p3")];
        let t = params(s);
        let f = |i: usize, t: f32| comb(catmull(r(t)), [p[0][i], p[1][i], p[2][i], p[3][i]]);
        let (a, b, cc, d) = (vec(p[0]), vec(p[1]), vec(p[2]), vec(p[3]));
        let g = arr(XMVectorCatmullRom(a, b, cc, d, t[0]));
        close4("XMVectorCatmullRom", g, [f(0, t[0]), f(1, t[0]), f(2, t[0]), f(3, t[0])])?;
        let g = arr(XMVectorCatmullRomV(a, b, cc, d, vec(t)));
        close4("XMVectorCatmullRomV", g, [f(0, t[0]), f(1, t[1]), f(2, t[2]), f(3, t[3])])?;
        for (e, want) in [(0.0f32, p[1]), (1.0, p[2])] {
            eqn("XMVectorCatmullRom end point", arr(XMVectorCatmullRom(a, b, cc, d, e)), want)?;
            eqn("XMVectorCatmullRomV end point", arr(XMVectorCatmullRomV(a, b, cc, d, vec([e; 4]))), want)?;
        }
        Ok(())
    }));
    c.push(check("barycentric", 100, |s| {
        let e = [20, 20, 50, 105][s.below(4)];
        let p = [s.mod_vec(e, "p0"), s.mod_vec(e, "p1"), s.mod_vec(e, "p2")];
        let (f, g) = (params(s), params(s));
        let w = |i: usize, f: f32, g: f32| r(p[0][i]) + (r(p[1][i]) - r(p[0][i])) * r(f) + (r(p[2][i]) - r(p[0][i])) * r(g);
        let (a, b, cc) = (vec(p[0]), vec(p[1]), vec(p[2]));
        let got = arr(XMVectorBaryCentric(a, b, cc, f[0], g[0]));
        close4("XMVectorBaryCentric", got, [w(0, f[0], g[0]), w(1, f[0], g[0]), w(2, f[0], g[0]), w(3, f[0], g[0])])?;
        let got = arr(XMVectorBaryCentricV(a, b, cc, vec(f), vec(g)));
        close4("XMVectorBaryCentricV", got, [w(0, f[0], g[0]), w(1, f[1], g[1]), w(2, f[2], g[2]), w(3, f[3], g[3])])?;
        eqn("XMVectorBaryCentric(0, 0)", arr(XMVectorBaryCentric(a, b, cc, 0.0, 0.0)), p[0])
    }));
    c.push(check("components_do_not_mix", 100, |s| {
        // a NaN, infinite or huge component stays in its component
        let p = [s.any_vec("p0"), s.any_vec("p1"), s.any_vec("p2"), s.any_vec("p3")];
        let (t, u) = (param(s), param(s));
        s.showf("t", t);
        s.showf("u", u);
        let tv = params(s);
        let f: [(&str, Box<dyn Fn([V4; 4], V4) -> V4>); 8] = [
            ("XMVectorLerp", Box::new(move |p, _| arr(XMVectorLerp(vec(p[0]), vec(p[1]), t)))),
            ("XMVectorLerpV", Box::new(move |p, t| arr(XMVectorLerpV(vec(p[0]), vec(p[1]), vec(t))))),
            ("XMVectorHermite", Box::new(move |p, _| arr(XMVectorHermite(vec(p[0]), vec(p[1]), vec(p[2]), vec(p[3]), t)))),
            ("XMVectorHermiteV", Box::new(move |p, _| arr(XMVectorHermiteV(vec(p[0]), vec(p[1]), vec(p[2]), vec(p[3]), vec(tv))))),
            ("XMVectorCatmullRom", Box::new(move |p, _| arr(XMVectorCatmullRom(vec(p[0]), vec(p[1]), vec(p[2]), vec(p[3]), t)))),
            ("XMVectorCatmullRomV", Box::new(move |p, t| arr(XMVectorCatmullRomV(vec(p[0]), vec(p[1]), vec(p[2]), vec(p[3]), vec(t))))),
            ("XMVectorBaryCentric", Box::new(move |p, _| arr(XMVectorBaryCentric(vec(p[0]), vec(p[1]), vec(p[2]), t, u)))),
            ("XMVectorBaryCentricV", Box::new(move |p, t| arr(XMVectorBaryCentricV(vec(p[0]), vec(p[1]), vec(p[2]), vec(t), vec(p[3]))))),
        ];
        for (n, f) in f.iter() {
            let g = f(p, tv);
            for i in 0..4 {
                let h = f([[p[0][i]; 4], [p[1][i]; 4], [p[2][i]; 4], [p[3][i]; 4]], [tv[i]; 4]);
                for j in 0..4 {
                    ensure!(same(g[i], h[j]), "{}: component {} is {} among the others, {} (in component {}) alone", n, i, sf(g[i]), sf(h[j]), j);
                }
            }
        }
        // a NaN control value gives NaN
        let g = arr(XMVectorLerp(vec(p[0]), vec(p[1]), t));
        for i in 0..4 {
            ensure!(!p[0][i].is_nan() && !p[1][i].is_nan() || g[i].is_nan(), "XMVectorLerp of NaN: {}", sv(g));
        }
        Ok(())
    }));
    dxcheck::cli::main("C07", c);
}
