//! C02: comparisons, comparison records and dimensional predicates.
use dxcheck::prelude::*;

const T: u32 = 0x80; // all true
const F: u32 = 0x20; // all false / in bounds

/// Two vectors whose lanes are related in interesting ways.
fn pair(s: &mut Src) -> (V4, V4) {
    let mut a = [0u32; 4];
    let mut b = [0u32; 4];
    // whole-vector bias, so that "all lanes true" and "all lanes false" are both common
    let bias = s.choice(6);
    for i in 0..4 {
        a[i] = s.any_bits();
        let k = if bias > 0 && s.choice(8) != 0 { bias - 1 } else { s.choice(6) };
        let fa = f32::from_bits(a[i]);
        b[i] = match k {
            0 => a[i],
            1 => ulps(fa, 1).to_bits(),
            2 => ulps(fa, -1).to_bits(),
            3 => a[i] ^ 0x80000000,
            4 => {
                let d = s.moderate(10).abs();
                (fa + d).to_bits()
            }
            _ => s.any_bits(),
        };
    }
    if s.one_in(6) {
        let i = s.below(4);
        a[i] = 0x7FC00000;
    }
    let swap = s.bool();
    let (a, b) = if swap { (b, a) } else { (a, b) };
    s.show("v1", fb(a));
    s.show("v2", fb(b));
    (fb(a), fb(b))
}
fn all(m: [u32; 4], n: usize) -> bool {
    m[..n].iter().all(|x| *x != 0)
}
fn none(m: [u32; 4], n: usize) -> bool {
    m[..n].iter().all(|x| *x == 0)
}
/// The record a comparison with lane mask `m` must produce over `n` lanes.
fn record(what: &str, got: u32, m: [u32; 4], n: usize) -> Res {
    let want = if all(m, n) {
        T
    } else if none(m, n) {
        F
    } else {
        0
    };
    if got == want {
        return Ok(());
    }
    Err(Stop::Fail(format!("{}: record 0x{:X}, lanes {:?} over {} components give 0x{:X}", what, got, m, n, want)))
}
fn nan_in(a: V4, b: V4, n: usize) -> bool {
    (0..n).any(|i| a[i].is_nan() || b[i].is_nan())
}

fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("lane_masks", 100, |s| {
        let (a, b) = pair(s);
        let (x, y) = (vec(a), vec(b));
        eqb("XMVectorEqual", XMVectorEqual(x, y), zipm(a, b, |p, q| p == q))?;
        eqb("XMVectorNotEqual", XMVectorNotEqual(x, y), zipm(a, b, |p, q| p != q))?;
        eqb("XMVectorEqualInt", XMVectorEqualInt(x, y), zipm(a, b, |p, q| p.to_bits() == q.to_bits()))?;
        eqb("XMVectorNotEqualInt", XMVectorNotEqualInt(x, y), zipm(a, b, |p, q| p.to_bits() != q.to_bits()))?;
        eqb("XMVectorGreater", XMVectorGreater(x, y), zipm(a, b, |p, q| p > q))?;
        eqb("XMVectorGreaterOrEqual", XMVectorGreaterOrEqual(x, y), zipm(a, b, |p, q| p >= q))?;
        eqb("XMVectorLess", XMVectorLess(x, y), zipm(a, b, |p, q| p < q))?;
        eqb("XMVectorLessOrEqual", XMVectorLessOrEqual(x, y), zipm(a, b, |p, q| p <= q))?;
        eqb("XMVectorInBounds", XMVectorInBounds(x, y), zipm(a, b, |p, q| p <= q && p >= -q))?;
        eqb("XMVectorIsNaN", XMVectorIsNaN(x), zipm(a, a, |p, _| p.is_nan()))?;
        eqb("XMVectorIsInfinite", XMVectorIsInfinite(x), zipm(a, a, |p, _| p.is_infinite()))
    }));
    c.push(check("near_equal", 100, |s| {
        let (a, b) = pair(s);
        let mut e = [0.0f32; 4];
        for i in 0..4 {
            let d = (a[i] - b[i]).abs();
            e[i] = match s.choice(6) {
                0 => d,
                1 => ulps(d, -1),
                2 => ulps(d, 1),
                3 => s.any(),
                4 => 0.0,
                _ => s.moderate(20).abs(),
            };
        }
        s.show("eps", e);
        let m = zip3(a, b, e, |p, q, r| if (p - q).abs() <= r { 1.0 } else { 0.0 });
        let w = zipm(m, m, |p, _| p == 1.0);
        let (x, y, z) = (vec(a), vec(b), vec(e));
        eqb("XMVectorNearEqual", XMVectorNearEqual(x, y, z), w)?;
        ensure!(XMVector2NearEqual(x, y, z) == all(w, 2), "XMVector2NearEqual: lanes {:?}", w);
        ensure!(XMVector3NearEqual(x, y, z) == all(w, 3), "XMVector3NearEqual: lanes {:?}", w);
        ensure!(XMVector4NearEqual(x, y, z) == all(w, 4), "XMVector4NearEqual: lanes {:?}", w);
        for i in 0..4 {
            ensure!(XMScalarNearEqual(a[i], b[i], e[i]) == (w[i] != 0), "XMScalarNearEqual({:?}, {:?}, {:?})", a[i], b[i], e[i]);
        }
        Ok(())
    }));
    c.push(check("vector_records", 100, |s| {
        let (a, b) = pair(s);
        let (x, y) = (vec(a), vec(b));
        let mut cr;
        let m = zipm(a, b, |p, q| p == q);
        cr = 0xAAAA5555;
        eqb("XMVectorEqualR mask", XMVectorEqualR(&mut cr, x, y), m)?;
        record("XMVectorEqualR", cr, m, 4)?;
        let m = zipm(a, b, |p, q| p.to_bits() == q.to_bits());
        cr = 0xAAAA5555;
        eqb("XMVectorEqualIntR mask", XMVectorEqualIntR(&mut cr, x, y), m)?;
        record("XMVectorEqualIntR", cr, m, 4)?;
        let m = zipm(a, b, |p, q| p > q);
        cr = 0xAAAA5555;
        eqb("XMVectorGreaterR mask", XMVectorGreaterR(&mut cr, x, y), m)?;
        record("XMVectorGreaterR", cr, m, 4)?;
        let m = zipm(a, b, |p, q| p >= q);
        cr = 0xAAAA5555;
        eqb("XMVectorGreaterOrEqualR mask", XMVectorGreaterOrEqualR(&mut cr, x, y), m)?;
        record("XMVectorGreaterOrEqualR", cr, m, 4)?;
        let m = zipm(a, b, |p, q| p <= q && p >= -q);
        cr = 0xAAAA5555;
        eqb("XMVectorInBoundsR mask", XMVectorInBoundsR(&mut cr, x, y), m)?;
        let w = if all(m, 4) { F } else { 0 };
        ensure!(cr == w, "XMVectorInBoundsR: record 0x{:X}, expected 0x{:X} for lanes {:?}", cr, w, m);
        ensure!(XMComparisonAllInBounds(cr) == all(m, 4), "XMComparisonAllInBounds(XMVectorInBoundsR)");
        ensure!(XMComparisonAnyOutOfBounds(cr) == !all(m, 4), "XMComparisonAnyOutOfBounds(XMVectorInBoundsR)");
        Ok(())
    }));
    macro_rules! dims {
        ($n:expr, $c:ident, $name:expr, $eq:ident $eqr:ident $eqi:ident $eqir:ident $ne:ident $nei:ident $gt:ident $gtr:ident $ge:ident $ger:ident $lt:ident $le:ident $ib:ident $nan:ident $inf:ident) => {
            $c.push(check($name, 100, |s| {
                let (a, b) = pair(s);
                let (x, y) = (vec(a), vec(b));
                let nan = nan_in(a, b, $n);
                macro_rules! b {
                    ($f:ident, $want:expr) => {
                        ensure!($f(x, y) == $want, "{}: got {}, expected {}", stringify!($f), $f(x, y), $want)
                    };
                }
                let eq = zipm(a, b, |p, q| p == q);
                let eqi = zipm(a, b, |p, q| p.to_bits() == q.to_bits());
                let gt = zipm(a, b, |p, q| p > q);
                let ge = zipm(a, b, |p, q| p >= q);
                b!($eq, all(eq, $n));
                b!($ne, !all(eq, $n));
                b!($eqi, all(eqi, $n));
                b!($nei, !all(eqi, $n));
                b!($gt, all(gt, $n));
                b!($ge, all(ge, $n));
                b!($lt, all(zipm(a, b, |p, q| p < q), $n));
                b!($le, all(zipm(a, b, |p, q| p <= q), $n));
                b!($ib, all(zipm(a, b, |p, q| p <= q && p >= -q), $n));
                record(stringify!($eqr), $eqr(x, y), eq, $n)?;
                record(stringify!($eqir), $eqir(x, y), eqi, $n)?;
                record(stringify!($gtr), $gtr(x, y), gt, $n)?;
                record(stringify!($ger), $ger(x, y), ge, $n)?;
                let w = (0..$n).any(|i| a[i].is_nan());
                ensure!($nan(x) == w, "{}: expected {}", stringify!($nan), w);
                let w = (0..$n).any(|i| a[i].is_infinite());
                ensure!($inf(x) == w, "{}: expected {}", stringify!($inf), w);
                if all(gt, $n) {
                    s.label("all lanes greater");
                } else if none(gt, $n) {
                    s.label("no lane greater");
                } else {
                    s.label("mixed");
                }
                if nan {
                    s.label("NaN in a used lane");
                }
                Ok(())
            }));
        };
    }
    dims!(2, c, "2d", XMVector2Equal XMVector2EqualR XMVector2EqualInt XMVector2EqualIntR XMVector2NotEqual XMVector2NotEqualInt XMVector2Greater XMVector2GreaterR XMVector2GreaterOrEqual XMVector2GreaterOrEqualR XMVector2Less XMVector2LessOrEqual XMVector2InBounds XMVector2IsNaN XMVector2IsInfinite);
    dims!(3, c, "3d", XMVector3Equal XMVector3EqualR XMVector3EqualInt XMVector3EqualIntR XMVector3NotEqual XMVector3NotEqualInt XMVector3Greater XMVector3GreaterR XMVector3GreaterOrEqual XMVector3GreaterOrEqualR XMVector3Less XMVector3LessOrEqual XMVector3InBounds XMVector3IsNaN XMVector3IsInfinite);
    dims!(4, c, "4d", XMVector4Equal XMVector4EqualR XMVector4EqualInt XMVector4EqualIntR XMVector4NotEqual XMVector4NotEqualInt XMVector4Greater XMVector4GreaterR XMVector4GreaterOrEqual XMVector4GreaterOrEqualR XMVector4Less XMVector4LessOrEqual XMVector4InBounds XMVector4IsNaN XMVector4IsInfinite);
    c.push(check("quaternion_plane_matrix_predicates", 100, |s| {
        let (a, b) = pair(s);
        let (x, y) = (vec(a), vec(b));
        let eq = zipm(a, b, |p, q| p == q);
        ensure!(XMQuaternionEqual(x, y) == all(eq, 4), "XMQuaternionEqual");
        ensure!(XMQuaternionNotEqual(x, y) == !all(eq, 4), "XMQuaternionNotEqual");
        ensure!(XMPlaneEqual(x, y) == all(eq, 4), "XMPlaneEqual");
        ensure!(XMPlaneNotEqual(x, y) == !all(eq, 4), "XMPlaneNotEqual");
        let nan = a.iter().any(|v| v.is_nan());
        let inf = a.iter().any(|v| v.is_infinite());
        ensure!(XMQuaternionIsNaN(x) == nan, "XMQuaternionIsNaN");
        ensure!(XMPlaneIsNaN(x) == nan, "XMPlaneIsNaN");
        ensure!(XMQuaternionIsInfinite(x) == inf, "XMQuaternionIsInfinite");
        ensure!(XMPlaneIsInfinite(x) == inf, "XMPlaneIsInfinite");
        // XMVector's PartialEq is component-wise float equality
        ensure!((XMVector(x) == XMVector(y)) == all(eq, 4), "XMVector ==");
        Ok(())
    }));
    c.push(check("identity_predicates", 100, |s| {
        let mut m = [[0.0f32; 4]; 4];
        for i in 0..4 {
            m[i][i] = 1.0;
        }
        if s.one_in(4) {
            m = s.mod_mat(20, "base");
        }
        for _ in 0..if s.one_in(8) { s.below(17) } else { s.below(3) } {
            let (i, j) = (s.below(4), s.below(4));
            m[i][j] = match s.choice(5) {
                0 => -0.0,
                1 => ulps(m[i][j], 1),
                2 => ulps(m[i][j], -1),
                3 => 1.0,
                _ => s.any(),
            };
        }
        s.showm("m", m);
        let mut id = true;
        for i in 0..4 {
            for j in 0..4 {
                id &= m[i][j] == if i == j { 1.0 } else { 0.0 };
            }
        }
        s.label(if id { "identity" } else { "not identity" });
        ensure!(XMMatrixIsIdentity(mat(m)) == id, "XMMatrixIsIdentity: got {} expected {}", !id, id);
        let q = m[3];
        let qid = q[0] == 0.0 && q[1] == 0.0 && q[2] == 0.0 && q[3] == 1.0;
        ensure!(XMQuaternionIsIdentity(vec(q)) == qid, "XMQuaternionIsIdentity({:?}): got {}", q, !qid);
        let nan = m.iter().flatten().any(|v| v.is_nan());
        ensure!(XMMatrixIsNaN(mat(m)) == nan, "XMMatrixIsNaN: expected {}", nan);
        let inf = m.iter().flatten().any(|v| v.is_infinite());
        ensure!(XMMatrixIsInfinite(mat(m)) == inf, "XMMatrixIsInfinite: expected {}", inf);
        let mut m2 = m;
        if s.bool() {
            let (i, j) = (s.below(4), s.below(4));
            m2[i][j] = s.any();
        }
        let want = m == m2;
        ensure!((XMMatrix(mat(m)) == XMMatrix(mat(m2))) == want, "XMMatrix ==: expected {}, other {:?}", want, m2);
        Ok(())
    }));
    c.push(check("matrix_special_positions", 30, |s| {
        let mut m = s.mod_mat(10, "m");
        let (i, j) = (s.below(4), s.below(4));
        let k = s.choice(4);
        let x = match k {
            0 => f32::NAN,
            1 => f32::INFINITY,
            2 => f32::NEG_INFINITY,
            _ => f32::from_bits(0xFF800001),
        };
        m[i][j] = x;
        s.note(|| format!("m[{}][{}]={}", i, j, sf(x)));
        ensure!(XMMatrixIsNaN(mat(m)) == x.is_nan(), "XMMatrixIsNaN");
        ensure!(XMMatrixIsInfinite(mat(m)) == x.is_infinite(), "XMMatrixIsInfinite");
        ensure!(!XMMatrixIsIdentity(mat(m)), "XMMatrixIsIdentity");
        Ok(())
    }));
    c.push(check("comparison_record_queries", 20, |s| {
        let cr = match s.choice(2) {
            0 => [0, T, F, T | F][s.below(4)],
            // bits outside the record field carry no meaning
            _ => s.u32() & !0xF0 | [0, T, F][s.below(3)],
        };
        s.note(|| format!("cr=0x{:X}", cr));
        let (t, f) = (cr & T != 0, cr & F != 0);
        ensure!(XMComparisonAllTrue(cr) == t, "XMComparisonAllTrue");
        ensure!(XMComparisonAnyTrue(cr) == !f, "XMComparisonAnyTrue");
        ensure!(XMComparisonAllFalse(cr) == f, "XMComparisonAllFalse");
        ensure!(XMComparisonAnyFalse(cr) == !t, "XMComparisonAnyFalse");
        ensure!(XMComparisonMixed(cr) == (!t && !f), "XMComparisonMixed");
        ensure!(XMComparisonAllInBounds(cr) == f, "XMComparisonAllInBounds");
        ensure!(XMComparisonAnyOutOfBounds(cr) == !f, "XMComparisonAnyOutOfBounds");
        Ok(())
    }));
    dxcheck::cli::main("C02", c);
}
