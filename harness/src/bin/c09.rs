//! C09: reflection, refraction and the Fresnel term.
use dxcheck::prelude::*;
use dxcheck::rf::*;

/// A unit vector of dimension n (f32), the remaining lanes filled with junk that must not matter.
fn unitn(s: &mut Src, n: usize, name: &str) -> V4 {
    let w: [f64; 4] = match s.choice(4) {
        0 => {
            let mut v = [0.0; 4];
            v[s.below(n)] = if s.bool() { -1.0 } else { 1.0 };
            v
        }
        1 => [s.lattice(3, 1.0) as f64, s.lattice(3, 1.0) as f64, s.lattice(3, 1.0) as f64, s.lattice(3, 1.0) as f64],
        _ => [s.range(-1.0, 1.0) as f64, s.range(-1.0, 1.0) as f64, s.range(-1.0, 1.0) as f64, s.range(-1.0, 1.0) as f64],
    };
    let l = w[..n].iter().map(|x| x * x).sum::<f64>().sqrt();
    let mut o = [0.0f32; 4];
    if l < 1e-3 {
        o[0] = 1.0;
    } else {
        for i in 0..n {
            o[i] = (w[i] / l) as f32;
        }
    }
    for i in n..4 {
        o[i] = [0.0, 1.0, -2.5, f32::NAN, f32::INFINITY][s.below(5)];
    }
    s.show(name, o);
    o
}
fn used(v: V4, n: usize) -> RV {
    let mut o = [R::ZERO; 4];
    for i in 0..n {
        o[i] = r(v[i]);
    }
    o
}
/// None: too close to the total-internal-reflection threshold to call.
fn refract(i: V4, nn: V4, n: usize, k: f32) -> Option<RV> {
    let (i, nn) = (used(i, n), used(nn, n));
    let d = dotn(i, nn, n);
    let k = r(k);
    let t = R::ONE - (R::ONE - d * d) * (k * k);
    // the threshold region also absorbs different groupings of the same formula
    if t.v.abs() <= 16.0 * t.e {
        return None;
    }
    if t.v < 0.0 {
        return Some([R::ZERO; 4]);
    }
    let q = k * d + t.sqrt();
    Some(subv(scale(i, k), scale(nn, q)))
}
macro_rules! dims {
    ($c:ident, $n:expr, $p:expr, $refl:ident, $refr:ident, $refrv:ident) => {
        $c.push(check(concat!($p, "_reflect"), 100, |s| {
            let n = $n;
            let e = [10, 10, 40, 110][s.below(4)];
            let mut i = s.mod_vec(e, "incident");
            for k in n..4 {
                if s.one_in(3) { i[k] = if s.bool() { f32::NAN } else { f32::INFINITY } }
            }
            let nn = unitn(s, n, "normal");
            let g = arr($refl(vec(i), vec(nn)));
            let d = dotn(rv(i), rv(nn), n);
            closen(stringify!($refl), g, subv(used(i, n), scale(used(nn, n), d + d)), n)
        }));
        $c.push(check(concat!($p, "_refract"), 150, |s| {
            let n = $n;
            let (mut i, nn) = (unitn(s, n, "incident"), unitn(s, n, "normal"));
            if s.one_in(6) {
                // straight along the normal, or back out
                for j in 0..n { i[j] = if s.bool() { nn[j] } else { -nn[j] } }
                if s.bool() { for j in 0..n { i[j] = -nn[j] } }
                let l: f64 = i[..n].iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt();
                for j in 0..n { i[j] = (i[j] as f64 / l) as f32 }
                s.show("incident", i);
            }
            let k = match s.choice(4) { 0 => 1.0, 1 => s.range(0.0, 1.0), 2 => s.range(1.0, 3.0), _ => s.moderate(3).abs() };
            s.showf("index", k);
            let w = match refract(i, nn, n, k) { Some(w) => w, None => { s.trivial(); return Ok(()) } };
            if w[0].v == 0.0 && w[0].e == 0.0 && w[1].v == 0.0 { s.label("total internal reflection") }
            closen(stringify!($refr), arr($refr(vec(i), vec(nn), k)), w, n)?;
            closen(stringify!($refrv), arr($refrv(vec(i), vec(nn), vec([k; 4]))), w, n)
        }));
        $c.push(check(concat!($p, "_refract_per_component"), 100, |s| {
            let n = $n;
            let (mut i, nn) = (unitn(s, n, "incident"), unitn(s, n, "normal"));
            if s.one_in(6) {
                // straight along the normal, or back out
                for j in 0..n { i[j] = if s.bool() { nn[j] } else { -nn[j] } }
                if s.bool() { for j in 0..n { i[j] = -nn[j] } }
                let l: f64 = i[..n].iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt();
                for j in 0..n { i[j] = (i[j] as f64 / l) as f32 }
                s.show("incident", i);
            }
            let mut k = [0.0f32; 4];
            for j in 0..4 {
                k[j] = match s.choice(4) { 0 => 1.0, 1 => s.range(0.0, 1.0), 2 => s.range(1.0, 3.0), _ => s.moderate(3).abs() };
            }
            // components beyond the dimension carry no meaning
            for j in n..4 {
                k[j] = [0.0, 1.0, 3.0, 1e9, f32::NAN][s.below(5)];
            }
            s.show("index", k);
            let g = arr($refrv(vec(i), vec(nn), vec(k)));
            let mut tir = 0;
            for j in 0..n {
                if let Some(w) = refract(i, nn, n, k[j]) {
                    if w.iter().all(|x| x.v == 0.0 && x.e == 0.0) { tir += 1 }
                    close(&format!("{}[{}]", stringify!($refrv), j), g[j], w[j])?;
                }
            }
            s.label(if tir == 0 { "no total internal reflection" } else if tir == n { "total in every component" } else { "total in some components" });
            Ok(())
        }));
    };
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    dims!(c, 2, "v2", XMVector2Reflect, XMVector2Refract, XMVector2RefractV);
    dims!(c, 3, "v3", XMVector3Reflect, XMVector3Refract, XMVector3RefractV);
    dims!(c, 4, "v4", XMVector4Reflect, XMVector4Refract, XMVector4RefractV);
    c.push(check("fresnel", 150, |s| {
        let mut co = [0.0f32; 4];
        let mut ix = [0.0f32; 4];
        for i in 0..4 {
            co[i] = match s.choice(4) { 0 => [0.0, 1.0, 0.5, -0.0][s.below(4)], 1 => f32::exp2(-s.range(0.0, 30.0)), _ => s.range(0.0, 1.0) };
            ix[i] = match s.choice(4) { 0 => [1.0, 1.5, 2.0, 0.5][s.below(4)], 1 => s.range(0.1, 1.0), 2 => f32::exp2(s.range(-8.0, 20.0)), _ => s.range(1.0, 4.0) };
        }
        // the usual call: one value in all lanes
        match s.choice(6) { 0 => { co = [co[0]; 4]; ix = [ix[0]; 4] } 1 => co = [co[0]; 4], 2 => ix = [ix[0]; 4], _ => () }
        s.show("cos", co);
        s.show("index", ix);
        let g = arr(XMFresnelTerm(vec(co), vec(ix)));
        for i in 0..4 {
            let (cc, k) = (r(co[i]), r(ix[i]));
            let gg = (k * k - R::ONE + cc * cc).abs().sqrt();
            let (sm, df) = (gg + cc, gg - cc);
            let a = R::new(0.5, 0.0) * (df * df) / (sm * sm);
            let u = cc * sm - R::ONE;
            let v = cc * df + R::ONE;
            let w = a * ((u * u) / (v * v) + R::ONE);
            if !w.known() || w.e > 0.05 {
                continue;
            }
            let w = R::new(w.v.clamp(0.0, 1.0), w.e);
            close("XMFresnelTerm", g[i], w)?;
            ensure!(g[i] >= 0.0 && g[i] <= 1.0, "XMFresnelTerm outside [0, 1]: {:?}", g[i]);
        }
        Ok(())
    }));
    dxcheck::cli::main("C09", c);
}
