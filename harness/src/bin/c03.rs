//! C03: lane arithmetic, bitwise operations, rounding.
use dxcheck::prelude::*;
use dxcheck::rf::*;

fn round_even(x: f32) -> f32 {
    x.round_ties_even()
}
fn tint(a: V4, b: V4, f: impl Fn(u32, u32) -> u32) -> [u32; 4] {
    let (a, b) = (tb(a), tb(b));
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2]), f(a[3], b[3])]
}
/// As eqn, and the sign of zero counts.
fn eqs(what: &str, got: V4, want: V4) -> Res {
    eqn(what, got, want)?;
    for i in 0..4 {
        ensure!(got[i] != 0.0 || got[i].is_sign_negative() == want[i].is_sign_negative(), "{}: got {} expected {}", what, sv(got), sv(want));
    }
    Ok(())
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("bitwise", 100, |s| {
        let (a, b) = (s.any_vec("v1"), s.any_vec("v2"));
        let (x, y) = (vec(a), vec(b));
        eqb("XMVectorAndInt", XMVectorAndInt(x, y), tint(a, b, |p, q| p & q))?;
        eqb("XMVectorAndCInt", XMVectorAndCInt(x, y), tint(a, b, |p, q| p & !q))?;
        eqb("XMVectorOrInt", XMVectorOrInt(x, y), tint(a, b, |p, q| p | q))?;
        eqb("XMVectorNorInt", XMVectorNorInt(x, y), tint(a, b, |p, q| !(p | q)))?;
        eqb("XMVectorXorInt", XMVectorXorInt(x, y), tint(a, b, |p, q| p ^ q))
    }));
    c.push(check("ieee_exact", 100, |s| {
        let (a, b) = (s.any_vec("v1"), s.any_vec("v2"));
        let k = s.any();
        s.showf("k", k);
        let (x, y) = (vec(a), vec(b));
        eqs("XMVectorAdd", arr(XMVectorAdd(x, y)), zip(a, b, |p, q| p + q))?;
        eqs("XMVectorSubtract", arr(XMVectorSubtract(x, y)), zip(a, b, |p, q| p - q))?;
        eqs("XMVectorMultiply", arr(XMVectorMultiply(x, y)), zip(a, b, |p, q| p * q))?;
        eqs("XMVectorDivide", arr(XMVectorDivide(x, y)), zip(a, b, |p, q| p / q))?;
        eqs("XMVectorScale", arr(XMVectorScale(x, k)), map(a, |p| p * k))?;
        eqs("XMVectorReciprocal", arr(XMVectorReciprocal(x)), map(a, |p| 1.0 / p))?;
        eqs("XMVectorSqrt", arr(XMVectorSqrt(x)), map(a, |p| p.sqrt()))?;
        eqn("XMVectorNegate", arr(XMVectorNegate(x)), map(a, |p| -p))?;
        eqn("XMVectorAbs", arr(XMVectorAbs(x)), map(a, |p| p.abs()))?;
        eqn("XMVectorMin", arr(XMVectorMin(x, y)), zip(a, b, |p, q| if p < q { p } else { q }))?;
        eqn("XMVectorMax", arr(XMVectorMax(x, y)), zip(a, b, |p, q| if p > q { p } else { q }))
    }));
    c.push(check("operators", 100, |s| {
        let (a, b) = (s.any_vec("v1"), s.any_vec("v2"));
        let k = s.any();
        s.showf("k", k);
        let (x, y) = (XMVector(vec(a)), XMVector(vec(b)));
        let mut z;
        eqs("+", arr((x + y).0), zip(a, b, |p, q| p + q))?;
        eqs("-", arr((x - y).0), zip(a, b, |p, q| p - q))?;
        eqs("*", arr((x * y).0), zip(a, b, |p, q| p * q))?;
        eqs("/", arr((x / y).0), zip(a, b, |p, q| p / q))?;
        eqs("*f", arr((x * k).0), map(a, |p| p * k))?;
        eqs("f*", arr((k * x).0), map(a, |p| p * k))?;
        // scalar division may go through a reciprocal
        let want = map(a, |p| p / k);
        let got = arr((x / k).0);
        let alt = map(a, |p| p * (1.0 / k));
        for i in 0..4 {
            ensure!(same(got[i], want[i]) || same(got[i], alt[i]), "/f: got {} expected {}", sv(got), sv(want));
        }
        eqn("neg", arr((-x).0), map(a, |p| -p))?;
        z = x;
        z += y;
        eqs("+=", arr(z.0), zip(a, b, |p, q| p + q))?;
        z = x;
        z -= y;
        eqs("-=", arr(z.0), zip(a, b, |p, q| p - q))?;
        z = x;
        z *= y;
        eqs("*=", arr(z.0), zip(a, b, |p, q| p * q))?;
        z = x;
        z /= y;
        eqs("/=", arr(z.0), zip(a, b, |p, q| p / q))?;
        z = x;
        z *= k;
        eqs("*=f", arr(z.0), map(a, |p| p * k))?;
        z = x;
        z /= k;
        let got2 = arr(z.0);
        eqs("/=f", got2, got)
    }));
    c.push(check("fused", 100, |s| {
        let (a, b, d) = if s.bool() {
            (s.any_vec("v1"), s.any_vec("v2"), s.any_vec("v3"))
        } else {
            (s.mod_vec(30, "v1"), s.mod_vec(30, "v2"), s.mod_vec(30, "v3"))
        };
        let (x, y, z) = (vec(a), vec(b), vec(d));
        let g = arr(XMVectorMultiplyAdd(x, y, z));
        let h = arr(XMVectorNegativeMultiplySubtract(x, y, z));
        for i in 0..4 {
            // either the fused or the unfused IEEE result is acceptable
            let w = [a[i] * b[i] + d[i], a[i].mul_add(b[i], d[i])];
            ensure!(same(g[i], w[0]) || same(g[i], w[1]), "XMVectorMultiplyAdd lane {}: got {} expected {} or {}", i, sf(g[i]), sf(w[0]), sf(w[1]));
            let w = [d[i] - a[i] * b[i], (-a[i]).mul_add(b[i], d[i])];
            ensure!(same(h[i], w[0]) || same(h[i], w[1]), "XMVectorNegativeMultiplySubtract lane {}: got {} expected {} or {}", i, sf(h[i]), sf(w[0]), sf(w[1]));
        }
        Ok(())
    }));
    c.push(check("recip_sqrt", 100, |s| {
        let a = s.any_vec("v");
        let g = arr(XMVectorReciprocalSqrt(vec(a)));
        for i in 0..4 {
            let w = 1.0 / (a[i] as f64).sqrt();
            let ok = if w.is_nan() {
                g[i].is_nan()
            } else if w.is_infinite() {
                // 1/sqrt(-0) is -inf on every backend that keeps the sign of zero
                g[i].is_infinite()
            } else {
                (g[i] as f64 - w).abs() <= 2.5e-7 * w.abs() + 1e-44
            };
            ensure!(ok, "XMVectorReciprocalSqrt lane {}: got {} expected {:?}", i, sf(g[i]), w);
        }
        Ok(())
    }));
    c.push(check("sum", 100, |s| {
        if s.one_in(4) {
            let a = s.any_vec("v");
            let g = arr(XMVectorSum(vec(a)));
            for i in 0..4 {
                class_sum("XMVectorSum", g[i], &[(a[0], 1.0), (a[1], 1.0), (a[2], 1.0), (a[3], 1.0)])?;
            }
        }
        let a = if s.bool() { s.mod_vec(120, "v") } else if s.bool() { s.mod_vec(40, "v") } else { map(s.mod_vec(10, "v"), |x| x * 1e-40) };
        s.show("v", a);
        let (p, q, t, u) = (r(a[0]), r(a[1]), r(a[2]), r(a[3]));
        splat_close("XMVectorSum", arr(XMVectorSum(vec(a))), p + q + t + u)
    }));
    c.push(check("rounding", 200, |s| {
        let a = s.any_vec("v");
        let x = vec(a);
        // NaN stays NaN, infinities and integers map to themselves
        eqn("XMVectorRound", arr(XMVectorRound(x)), map(a, round_even))?;
        eqn("XMVectorTruncate", arr(XMVectorTruncate(x)), map(a, |p| p.trunc()))?;
        eqn("XMVectorFloor", arr(XMVectorFloor(x)), map(a, |p| p.floor()))?;
        eqn("XMVectorCeiling", arr(XMVectorCeiling(x)), map(a, |p| p.ceil()))
    }));
    c.push(check("clamp", 100, |s| {
        let (a, b, d) = (s.any_vec("v"), s.fin_vec("b1"), s.fin_vec("b2"));
        let (mut lo, mut hi) = (zip(b, d, |p, q| if p < q { p } else { q }), zip(b, d, |p, q| if p < q { q } else { p }));
        if s.one_in(8) {
            lo[s.below(4)] = f32::NEG_INFINITY;
            hi[s.below(4)] = f32::INFINITY;
        }
        let g = arr(XMVectorClamp(vec(a), vec(lo), vec(hi)));
        for i in 0..4 {
            if a[i].is_nan() {
                // a NaN lane yields NaN or a value within the bounds
                ensure!(g[i].is_nan() || (g[i] >= lo[i] && g[i] <= hi[i]), "XMVectorClamp NaN lane {}: {}", i, sf(g[i]));
                continue;
            }
            let w = if a[i] < lo[i] { lo[i] } else if a[i] > hi[i] { hi[i] } else { a[i] };
            ensure!(same(g[i], w), "XMVectorClamp lane {}: {} in [{}, {}] got {} expected {}", i, sf(a[i]), sf(lo[i]), sf(hi[i]), sf(g[i]), sf(w));
        }
        let g = arr(XMVectorSaturate(vec(a)));
        for i in 0..4 {
            if a[i].is_nan() {
                ensure!(g[i].is_nan() || (g[i] >= 0.0 && g[i] <= 1.0), "XMVectorSaturate NaN lane {}: {}", i, sf(g[i]));
                continue;
            }
            let w = if a[i] < 0.0 { 0.0 } else if a[i] > 1.0 { 1.0 } else { a[i] };
            ensure!(same(g[i], w), "XMVectorSaturate lane {}: {} got {} expected {}", i, sf(a[i]), sf(g[i]), sf(w));
        }
        Ok(())
    }));
    c.push(check("scalar_minmax", 20, |s| {
        let (a, b) = (s.finite(), s.finite());
        s.showf("a", a);
        s.showf("b", b);
        eqf("XMMin", XMMin(a, b), if a < b { a } else { b })?;
        eqf("XMMax", XMMax(a, b), if a > b { a } else { b })
    }));
    dxcheck::cli::main("C03", c);
}
