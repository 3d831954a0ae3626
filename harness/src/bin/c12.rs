//! C12: integer/float vector conversions and half-precision conversions.
use dxcheck::prelude::*;

/// Reference half -> float through f64 arithmetic on the decoded fields.
fn half_to_f64(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 0x3FF) as f64;
    match e {
        0 => s * m * (2.0f64).powi(-24),
        31 => {
            if m != 0.0 {
                f64::NAN
            } else {
                s * f64::INFINITY
            }
        }
        _ => s * (1024.0 + m) * (2.0f64).powi(e - 25),
    }
}
/// Reference float -> half: the nearest half, ties to even, by value.
fn nearest_half(x: f32) -> u16 {
    let sign = ((x.to_bits() >> 31) as u16) << 15;
    let a = (x as f64).abs();
    if a >= 65520.0 {
        return sign | 0x7C00;
    }
    // halves are monotone in their bit pattern: find the largest one <= a
    let (mut lo, mut hi) = (0u16, 0x7C00u16);
    while hi - lo > 1 {
        let m = lo + (hi - lo) / 2;
        if half_to_f64(m) <= a {
            lo = m
        } else {
            hi = m
        }
    }
    let (vl, vh) = (half_to_f64(lo), if hi == 0x7C00 { 65536.0 } else { half_to_f64(hi) });
    let (dl, dh) = (a - vl, vh - a);
    let m = if dl < dh || (dl == dh && lo % 2 == 0) { lo } else { hi };
    sign | m
}
fn half_one(h: u16) -> Res {
    let f = XMConvertHalfToFloat(h);
    let w = half_to_f64(h);
    if w.is_nan() {
        ensure!(f.is_nan(), "half 0x{:04X} -> {:?}, expected NaN", h, f);
    } else {
        ensure!(
            f.to_bits() == (w as f32).to_bits(),
            "half 0x{:04X} -> {:?} (0x{:08X}), expected {:?}",
            h,
            f,
            f.to_bits(),
            w
        );
    }
    let b = XMConvertFloatToHalf(f);
    if w.is_nan() {
        ensure!(b & 0x7C00 == 0x7C00 && b & 0x3FF != 0, "NaN half 0x{:04X} came back as 0x{:04X}", h, b);
    } else {
        ensure!(b == h, "half 0x{:04X} -> {:?} -> half 0x{:04X}", h, f, b);
    }
    Ok(())
}
/// Integers with weight on the places where f32 loses exactness and on the sign bit.
fn int(s: &mut Src) -> u32 {
    match s.choice(5) {
        0 => s.choice(17) as u32,
        1 => (s.choice(17) as u32).wrapping_neg(),
        2 => {
            let k = s.choice(32) as u32;
            (1u32 << k).wrapping_add(s.choice(5) as u32).wrapping_sub(2)
        }
        3 => {
            // round-to-nearest ties: 24 significant bits followed by a half
            let k = s.choice(8) as u32 + 1;
            let m = 0x800000 + s.choice(0x800000) as u32;
            let t = (m << k) | (1 << (k - 1));
            t.wrapping_add(s.choice(3) as u32).wrapping_sub(1)
        }
        _ => s.u32(),
    }
}
fn ints(s: &mut Src) -> [u32; 4] {
    let v = [int(s), int(s), int(s), int(s)];
    s.note(|| format!("v={}", su(v)));
    v
}
/// Floats on and around the limits of the integer ranges once scaled by 2^e.
fn flt(s: &mut Src, e: u32) -> f32 {
    let p = 1.0 / (1u64 << e) as f32;
    let x = match s.choice(6) {
        0 => s.finite(),
        1 => {
            let b = [2147483648.0f32, 4294967296.0, 2147483520.0, 4294967040.0, 0.0, 1.0][s.below(6)];
            let d = s.choice(7) as i32 - 3;
            let x = ulps(b, d) * p;
            if s.bool() { -x } else { x }
        }
        2 => (int(s) as f32) * p,
        3 => (int(s) as i32 as f32) * p,
        4 => {
            let x = (s.choice(1 << 20) as f32 + 0.5) * p;
            let x = ulps(x, s.choice(3) as i32 - 1);
            if s.bool() { -x } else { x }
        }
        _ => match s.choice(3) {
            0 => f32::INFINITY,
            1 => f32::NEG_INFINITY,
            _ => s.moderate(60),
        },
    };
    if x.is_nan() { 0.0 } else { x }
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("int_to_float", 100, |s| {
        let v = ints(s);
        let e = s.choice(32) as u32;
        s.note(|| format!("exponent={}", e));
        let g = arr(XMConvertVectorIntToFloat(vecu(v), e));
        for i in 0..4 {
            let w = (v[i] as i32 as f32) as f64 / (1u64 << e) as f64;
            ensure!(g[i] as f64 == w, "XMConvertVectorIntToFloat({}, {}) lane {}: got {:?}, expected {:?}", v[i] as i32, e, i, g[i], w);
        }
        Ok(())
    }));
    c.push(check("uint_to_float", 100, |s| {
        let v = ints(s);
        let e = s.choice(32) as u32;
        s.note(|| format!("exponent={}", e));
        let g = arr(XMConvertVectorUIntToFloat(vecu(v), e));
        for i in 0..4 {
            let w = (v[i] as f32) as f64 / (1u64 << e) as f64;
            // from 2^31 on a double rounding may move the result by one unit in the last place
            let tol = if v[i] >= 0x80000000 { 256.0 / (1u64 << e) as f64 } else { 0.0 };
            ensure!((g[i] as f64 - w).abs() <= tol, "XMConvertVectorUIntToFloat({}, {}) lane {}: got {:?}, expected {:?}", v[i], e, i, g[i], w);
            if (v[i] as f32) as f64 == v[i] as f64 {
                ensure!(g[i] as f64 == w, "XMConvertVectorUIntToFloat({}, {}) lane {}: got {:?}, expected exactly {:?}", v[i], e, i, g[i], w);
            }
        }
        Ok(())
    }));
    c.push(check("float_to_int", 150, |s| {
        let e = s.choice(32) as u32;
        let v = [flt(s, e), flt(s, e), flt(s, e), flt(s, e)];
        s.note(|| format!("exponent={}", e));
        s.show("v", v);
        let g = bits(XMConvertVectorFloatToInt(vec(v), e));
        for i in 0..4 {
            let t = v[i] as f64 * (1u64 << e) as f64;
            let w = if t <= -2147483648.0 {
                i32::MIN
            } else if t > 2147483520.0 {
                i32::MAX
            } else {
                t.trunc() as i32
            };
            ensure!(g[i] as i32 == w, "XMConvertVectorFloatToInt({:?}, {}) lane {}: got {}, expected {}", v[i], e, i, g[i] as i32, w);
        }
        Ok(())
    }));
    c.push(check("float_to_uint", 150, |s| {
        let e = s.choice(32) as u32;
        let v = [flt(s, e), flt(s, e), flt(s, e), flt(s, e)];
        s.note(|| format!("exponent={}", e));
        s.show("v", v);
        let g = bits(XMConvertVectorFloatToUInt(vec(v), e));
        for i in 0..4 {
            let t = v[i] as f64 * (1u64 << e) as f64;
            let w = if t <= 0.0 {
                0
            } else if t >= 4294967296.0 {
                u32::MAX
            } else {
                t.trunc() as u32
            };
            ensure!(g[i] == w, "XMConvertVectorFloatToUInt({:?}, {}) lane {}: got {}, expected {}", v[i], e, i, g[i], w);
        }
        Ok(())
    }));
    c.push(check("round_trips", 60, |s| {
        // integers that f32 holds exactly come back, whatever the scale
        let e = s.choice(32) as u32;
        let v = [0; 4].map(|_| {
            let m = s.choice(1 << 24) as i64;
            let k = s.choice(8) as u32;
            let x = (m << k).min(0x7FFFFF80) as i32;
            if s.bool() { -x } else { x }
        });
        s.note(|| format!("v={:?} exponent={}", v, e));
        let u = v.map(|x| x as u32);
        let g = bits(XMConvertVectorFloatToInt(XMConvertVectorIntToFloat(vecu(u), e), e));
        ensure!(g == u, "signed round trip of {:?} with exponent {}: {:?}", v, e, g.map(|x| x as i32));
        let a = v.map(|x| x.unsigned_abs());
        let g = bits(XMConvertVectorFloatToUInt(XMConvertVectorUIntToFloat(vecu(a), e), e));
        ensure!(g == a, "unsigned round trip of {:?} with exponent {}: {:?}", a, e, g);
        Ok(())
    }));
    c.push(check("half_all", 4, |s| {
        // all 65536 halves, 256 at a time
        let hi = s.choice(256) as u16;
        s.note(|| format!("halves 0x{:02X}00..=0x{:02X}FF", hi, hi));
        for lo in 0..256u16 {
            half_one(hi << 8 | lo)?;
        }
        Ok(())
    }));
    c.push(check("float_to_half", 300, |s| {
        let x = match s.choice(4) {
            0 => s.any(),
            1 => {
                // between two neighbouring halves, at or next to the midpoint
                let h = s.choice(0x7C00) as u16;
                let (a, b) = (half_to_f64(h), if h == 0x7BFF { 65536.0 } else { half_to_f64(h + 1) });
                let m = ((a + b) / 2.0) as f32;
                let m = ulps(m, s.choice(5) as i32 - 2);
                if s.bool() { -m } else { m }
            }
            2 => {
                let e = 100 + s.choice(45) as u32;
                let m = s.mantissa();
                f32::from_bits((s.choice(2) as u32) << 31 | e << 23 | m)
            }
            _ => {
                let h = s.choice(0x10000) as u16;
                ulps(half_to_f64(h) as f32, s.choice(3) as i32 - 1)
            }
        };
        s.showf("x", x);
        let g = XMConvertFloatToHalf(x);
        if x.is_nan() {
            ensure!(g & 0x7C00 == 0x7C00 && g & 0x3FF != 0, "XMConvertFloatToHalf(NaN) = 0x{:04X}", g);
            return Ok(());
        }
        let w = nearest_half(x);
        ensure!(g == w, "XMConvertFloatToHalf({:?}) = 0x{:04X}, expected 0x{:04X}", x, g, w);
        Ok(())
    }));
    dxcheck::cli::main("C12", c);
}
