//! C01: data movement is bit exact.
use dxcheck::prelude::*;
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("set", 100, |s| {
        let a = s.any_vec("v");
        let b = tb(a);
        eqb("XMVectorSet", XMVectorSet(a[0], a[1], a[2], a[3]), b)?;
        eqb("XMVectorSetInt", XMVectorSetInt(b[0], b[1], b[2], b[3]), b)?;
        eqb("XMVectorReplicate", XMVectorReplicate(a[1]), [b[1]; 4])?;
        eqb("XMVectorReplicatePtr", XMVectorReplicatePtr(&a[2]), [b[2]; 4])?;
        eqb("XMVectorReplicateInt", XMVectorReplicateInt(b[3]), [b[3]; 4])?;
        let v = vec(a);
        eqb("XMVectorSplatX", XMVectorSplatX(v), [b[0]; 4])?;
        eqb("XMVectorSplatY", XMVectorSplatY(v), [b[1]; 4])?;
        eqb("XMVectorSplatZ", XMVectorSplatZ(v), [b[2]; 4])?;
        eqb("XMVectorSplatW", XMVectorSplatW(v), [b[3]; 4])?;
        let w = XMVector::set(a[0], a[1], a[2], a[3]);
        eqb("XMVector::set", w.0, b)?;
        let w = XMVector::from(&a);
        eqb("XMVector::from", w.0, b)
    }));
    c.push(check("constants", 1, |_s| {
        eqb("XMVectorZero", XMVectorZero(), [0; 4])?;
        eqb("XMVectorTrueInt", XMVectorTrueInt(), [!0; 4])?;
        eqb("XMVectorFalseInt", XMVectorFalseInt(), [0; 4])?;
        eqb("XMVectorSplatOne", XMVectorSplatOne(), [0x3F800000; 4])?;
        eqb("XMVectorSplatInfinity", XMVectorSplatInfinity(), [0x7F800000; 4])?;
        eqb("XMVectorSplatQNaN", XMVectorSplatQNaN(), [0x7FC00000; 4])?;
        eqb("XMVectorSplatEpsilon", XMVectorSplatEpsilon(), [0x34000000; 4])?;
        eqb("XMVectorSplatSignMask", XMVectorSplatSignMask(), [0x80000000; 4])
    }));
    c.push(check("named_indices", 20, |s| {
        let (a, b) = (s.any_vec("v1"), s.any_vec("v2"));
        let all = [tb(a), tb(b)].concat();
        let p = [XM_PERMUTE_0X, XM_PERMUTE_0Y, XM_PERMUTE_0Z, XM_PERMUTE_0W, XM_PERMUTE_1X, XM_PERMUTE_1Y, XM_PERMUTE_1Z, XM_PERMUTE_1W];
        let z = [XM_SWIZZLE_X, XM_SWIZZLE_Y, XM_SWIZZLE_Z, XM_SWIZZLE_W];
        let i = [s.below(8), s.below(8), s.below(8), s.below(8)];
        s.note(|| format!("components={:?}", i));
        let w = |k: usize| all[i[k]];
        eqb("XMVectorPermute with XM_PERMUTE_*", XMVectorPermute(vec(a), vec(b), p[i[0]], p[i[1]], p[i[2]], p[i[3]]), [w(0), w(1), w(2), w(3)])?;
        let w = |k: usize| all[i[k] % 4];
        eqb("XMVectorSwizzle with XM_SWIZZLE_*", XMVectorSwizzle(vec(a), z[i[0] % 4], z[i[1] % 4], z[i[2] % 4], z[i[3] % 4]), [w(0), w(1), w(2), w(3)])?;
        let m = [XM_SELECT_0, XM_SELECT_1];
        let c = XMVectorSetInt(m[i[0] / 4], m[i[1] / 4], m[i[2] / 4], m[i[3] / 4]);
        let w = |k: usize| all[k + i[k] / 4 * 4];
        eqb("XMVectorSelect with XM_SELECT_*", XMVectorSelect(vec(a), vec(b), c), [w(0), w(1), w(2), w(3)])
    }));
    c.push(check("get", 100, |s| {
        let a = s.any_vec("v");
        let (b, v) = (tb(a), vec(a));
        let f: [f32; 4] = [XMVectorGetX(v), XMVectorGetY(v), XMVectorGetZ(v), XMVectorGetW(v)];
        ensure!(tb(f) == b, "XMVectorGetX..W: got {} expected {}", su(tb(f)), su(b));
        let i = [XMVectorGetIntX(v), XMVectorGetIntY(v), XMVectorGetIntZ(v), XMVectorGetIntW(v)];
        ensure!(i == b, "XMVectorGetIntX..W: got {} expected {}", su(i), su(b));
        for k in 0..4 {
            ensure!(XMVectorGetByIndex(v, k).to_bits() == b[k], "XMVectorGetByIndex({})", k);
            ensure!(XMVectorGetIntByIndex(v, k) == b[k], "XMVectorGetIntByIndex({})", k);
        }
        let mut p = [7.0f32; 4];
        let [p0, p1, p2, p3] = &mut p;
        XMVectorGetXPtr(p0, v);
        XMVectorGetYPtr(p1, v);
        XMVectorGetZPtr(p2, v);
        XMVectorGetWPtr(p3, v);
        ensure!(tb(p) == b, "XMVectorGet*Ptr: got {} expected {}", su(tb(p)), su(b));
        Ok(())
    }));
    c.push(check("set_component", 100, |s| {
        let a = s.any_vec("v");
        let x = s.any();
        s.showf("x", x);
        let (b, v, xb) = (tb(a), vec(a), x.to_bits());
        for k in 0..4 {
            let mut want = b;
            want[k] = xb;
            let g = match k {
                0 => XMVectorSetX(v, x),
                1 => XMVectorSetY(v, x),
                2 => XMVectorSetZ(v, x),
                _ => XMVectorSetW(v, x),
            };
            eqb(&format!("XMVectorSet{}", ["X", "Y", "Z", "W"][k]), g, want)?;
            let g = match k {
                0 => XMVectorSetIntX(v, xb),
                1 => XMVectorSetIntY(v, xb),
                2 => XMVectorSetIntZ(v, xb),
                _ => XMVectorSetIntW(v, xb),
            };
            eqb(&format!("XMVectorSetInt{}", ["X", "Y", "Z", "W"][k]), g, want)?;
            eqb("XMVectorSetByIndex", XMVectorSetByIndex(v, x, k), want)?;
            eqb("XMVectorSetIntByIndex", XMVectorSetIntByIndex(v, xb, k), want)?;
        }
        Ok(())
    }));
    c.push(check("swizzle_all", 10, |s| {
        let a = s.any_vec("v");
        let (b, v) = (tb(a), vec(a));
        for k in 0..256u32 {
            let i = [k & 3, k >> 2 & 3, k >> 4 & 3, k >> 6 & 3];
            let want = [b[i[0] as usize], b[i[1] as usize], b[i[2] as usize], b[i[3] as usize]];
            eqb(&format!("XMVectorSwizzle{:?}", i), XMVectorSwizzle(v, i[0], i[1], i[2], i[3]), want)?;
        }
        Ok(())
    }));
    c.push(check("permute_all", 2, |s| {
        let a = s.any_vec("v1");
        let d = s.any_vec("v2");
        let b = [tb(a), tb(d)].concat();
        for k in 0..4096u32 {
            let i = [k & 7, k >> 3 & 7, k >> 6 & 7, k >> 9 & 7];
            let want = [b[i[0] as usize], b[i[1] as usize], b[i[2] as usize], b[i[3] as usize]];
            eqb(&format!("XMVectorPermute{:?}", i), XMVectorPermute(vec(a), vec(d), i[0], i[1], i[2], i[3]), want)?;
        }
        Ok(())
    }));
    c.push(check("swizzle_trait", 5, |s| {
        let a = s.any_vec("v");
        let (b, v) = (tb(a), vec(a));
        use dxcheck::prelude::{SwizzleW as W, SwizzleX as X, SwizzleY as Y, SwizzleZ as Z};
        fn ix<T: Swizzle>() -> usize {
            T::SWIZZLE as usize
        }
        ensure!((ix::<X>(), ix::<Y>(), ix::<Z>(), ix::<W>()) == (0, 1, 2, 3), "swizzle constants");
        macro_rules! one { ($($a:ident $b:ident $c:ident $d:ident,)*) => { $(
            eqb(concat!("trait swizzle ", stringify!($a $b $c $d)), <($a, $b, $c, $d)>::XMVectorSwizzle(v),
                [b[ix::<$a>()], b[ix::<$b>()], b[ix::<$c>()], b[ix::<$d>()]])?;
        )* } }
        macro_rules! last { ($a:ident $b:ident $c:ident) => { one!($a $b $c X, $a $b $c Y, $a $b $c Z, $a $b $c W,); } }
        macro_rules! third { ($a:ident $b:ident) => { last!($a $b X); last!($a $b Y); last!($a $b Z); last!($a $b W); } }
        macro_rules! second { ($a:ident) => { third!($a X); third!($a Y); third!($a Z); third!($a W); } }
        second!(X);
        second!(Y);
        second!(Z);
        second!(W);
        Ok(())
    }));
    c.push(check("permute_trait", 5, |s| {
        let a = s.any_vec("v1");
        let d = s.any_vec("v2");
        let b = [tb(a), tb(d)].concat();
        type A0 = Permute0X;
        type A1 = Permute0Y;
        type A2 = Permute0Z;
        type A3 = Permute0W;
        type B0 = Permute1X;
        type B1 = Permute1Y;
        type B2 = Permute1Z;
        type B3 = Permute1W;
        fn ix<T: Permute>() -> usize {
            T::PERMUTE as usize
        }
        ensure!(
            [ix::<A0>(), ix::<A1>(), ix::<A2>(), ix::<A3>(), ix::<B0>(), ix::<B1>(), ix::<B2>(), ix::<B3>()]
                == [0, 1, 2, 3, 4, 5, 6, 7],
            "permute constants"
        );
        macro_rules! one { ($($a:ident $b:ident $c:ident $d:ident,)*) => { $(
            eqb(concat!("trait permute ", stringify!($a $b $c $d)), <($a, $b, $c, $d)>::XMVectorPermute(vec(a), vec(d)),
                [b[ix::<$a>()], b[ix::<$b>()], b[ix::<$c>()], b[ix::<$d>()]])?;
        )* } }
        one!(A0 A1 A2 A3, B0 B1 B2 B3, A0 A1 B0 B1, B2 B3 A2 A3, A2 A3 B2 B3, B0 B1 A0 A1, A0 B0 A1 B1, A2 B2 A3 B3,);
        one!(A0 A2 B0 B2, A1 A3 B1 B3, A3 A2 A1 A0, B3 B2 B1 B0, A0 A0 B0 B0, B1 A1 B1 A1, B0 A1 A2 A3, A0 B1 A2 A3,);
        one!(A0 A1 B2 A3, A0 A1 A2 B3, B0 B1 B2 A3, A1 A2 A3 B0, A2 A3 B0 B1, A3 B0 B1 B2, A3 A3 A3 B3, B2 A0 A0 A1,);
        one!(B1 A2 B3 A0, A3 B2 A1 B0, B2 B2 A2 A2, A1 B0 B3 A2, B3 A3 B0 A0, A2 B1 B1 B1, B1 B0 A1 A0, A0 B3 B2 A1,);
        Ok(())
    }));
    c.push(check("select", 100, |s| {
        let (a, d) = (s.any_vec("v1"), s.any_vec("v2"));
        let cb = match s.choice(3) {
            0 => {
                let k = s.choice(16) as u32;
                [0u32.wrapping_sub(k & 1), 0u32.wrapping_sub(k >> 1 & 1), 0u32.wrapping_sub(k >> 2 & 1), 0u32.wrapping_sub(k >> 3)]
            }
            _ => [s.any_bits(), s.any_bits(), s.any_bits(), s.any_bits()],
        };
        s.note(|| format!("control={}", su(cb)));
        let (x, y) = (tb(a), tb(d));
        let mut w = [0; 4];
        for i in 0..4 {
            w[i] = x[i] & !cb[i] | y[i] & cb[i];
        }
        eqb("XMVectorSelect", XMVectorSelect(vec(a), vec(d), vecu(cb)), w)?;
        eqb("XMVectorMergeXY", XMVectorMergeXY(vec(a), vec(d)), [x[0], y[0], x[1], y[1]])?;
        eqb("XMVectorMergeZW", XMVectorMergeZW(vec(a), vec(d)), [x[2], y[2], x[3], y[3]])
    }));
    c.push(check("select_control_all", 5, |s| {
        let (a, d) = (s.any_vec("v1"), s.any_vec("v2"));
        let (x, y) = (tb(a), tb(d));
        for k in 0..16u32 {
            let i = [k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3 & 1];
            let g = XMVectorSelectControl(i[0], i[1], i[2], i[3]);
            eqb(&format!("XMVectorSelectControl{:?}", i), g, [i[0] * !0, i[1] * !0, i[2] * !0, i[3] * !0])?;
            let mut w = x;
            for j in 0..4 {
                if i[j] == 1 {
                    w[j] = y[j]
                }
            }
            eqb("XMVectorSelect(SelectControl)", XMVectorSelect(vec(a), vec(d), g), w)?;
        }
        Ok(())
    }));
    c.push(check("shift_rotate_insert_all", 20, |s| {
        let (a, d) = (s.any_vec("v1"), s.any_vec("v2"));
        let (x, y) = (tb(a), tb(d));
        let z = [x, y].concat();
        for n in 0..4usize {
            eqb(&format!("XMVectorShiftLeft {}", n), XMVectorShiftLeft(vec(a), vec(d), n as u32), [z[n], z[n + 1], z[n + 2], z[n + 3]])?;
            let rl = [x[n % 4], x[(n + 1) % 4], x[(n + 2) % 4], x[(n + 3) % 4]];
            eqb(&format!("XMVectorRotateLeft {}", n), XMVectorRotateLeft(vec(a), n as u32), rl)?;
            let rr = [x[(4 - n) % 4], x[(5 - n) % 4], x[(6 - n) % 4], x[(7 - n) % 4]];
            eqb(&format!("XMVectorRotateRight {}", n), XMVectorRotateRight(vec(a), n as u32), rr)?;
            let ry = [y[n % 4], y[(n + 1) % 4], y[(n + 2) % 4], y[(n + 3) % 4]];
            for k in 0..16u32 {
                let i = [k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3 & 1];
                let mut w = x;
                for j in 0..4 {
                    if i[j] == 1 {
                        w[j] = ry[j]
                    }
                }
                let g = XMVectorInsert(vec(a), vec(d), n as u32, i[0], i[1], i[2], i[3]);
                eqb(&format!("XMVectorInsert rot {} sel {:?}", n, i), g, w)?;
            }
        }
        Ok(())
    }));
    c.push(check("binary_constant", 20, |s| {
        let k: Vec<u32> = (0..4).map(|_| if s.one_in(4) { s.u32() } else { s.choice(2) as u32 }).collect();
        s.note(|| format!("{:?}", k));
        let w: Vec<u32> = k.iter().map(|x| (x & 1) * 0x3F800000).collect();
        eqb("XMVectorSetBinaryConstant", XMVectorSetBinaryConstant(k[0], k[1], k[2], k[3]), [w[0], w[1], w[2], w[3]])
    }));
    c.push(check("splat_constant_all", 1, |_s| {
        for i in -16i32..=15 {
            eqb("XMVectorSplatConstantInt", XMVectorSplatConstantInt(i), [i as u32; 4])?;
            for e in 0..32u32 {
                let w = i as f32 / (1u64 << e) as f32;
                eqn(&format!("XMVectorSplatConstant({}, {})", i, e), arr(XMVectorSplatConstant(i, e)), [w; 4])?;
            }
        }
        Ok(())
    }));
    dxcheck::cli::main("C01", c);
}
