//! C13: matrix algebra and the operators of the matrix wrapper.
use dxcheck::prelude::*;
use dxcheck::rf::*;

fn eqm(what: &str, got: XMMATRIX, want: M4) -> Res {
    let g = marr(got);
    for i in 0..4 {
        eqn(&format!("{} row {}", what, i), g[i], want[i])?;
    }
    Ok(())
}
fn eqmb(what: &str, got: XMMATRIX, want: M4) -> Res {
    let g = marr(got);
    for i in 0..4 {
        ensure!(tb(g[i]) == tb(want[i]), "{} row {}: got {} expected {}", what, i, sv(g[i]), sv(want[i]));
    }
    Ok(())
}
fn any_mat(s: &mut Src, name: &str) -> M4 {
    let mut m = [[0.0f32; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            m[i][j] = s.any();
        }
    }
    s.showm(name, m);
    m
}
fn fin_mat(s: &mut Src, name: &str) -> M4 {
    let mut m = [[0.0f32; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            m[i][j] = s.finite();
        }
    }
    s.showm(name, m);
    m
}
fn minor(m: &RM, i: usize, j: usize) -> R {
    let mut a = [[R::ZERO; 3]; 3];
    let mut r = 0;
    for p in 0..4 {
        if p == i {
            continue;
        }
        let mut c = 0;
        for q in 0..4 {
            if q == j {
                continue;
            }
            a[r][c] = m[p][q];
            c += 1;
        }
        r += 1;
    }
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}
fn cof(m: &RM, i: usize, j: usize) -> R {
    let x = minor(m, i, j);
    if (i + j) % 2 == 1 { -x } else { x }
}
fn det(m: &RM) -> R {
    let mut d = m[0][0] * cof(m, 0, 0);
    for j in 1..4 {
        d = d + m[0][j] * cof(m, 0, j);
    }
    // the rows may be combined in any order: use the largest bound of the four expansions
    let mut e = d.e;
    for i in 1..4 {
        let mut k = m[i][0] * cof(m, i, 0);
        for j in 1..4 {
            k = k + m[i][j] * cof(m, i, j);
        }
        let mut l = m[0][i] * cof(m, 0, i);
        for j in 1..4 {
            l = l + m[j][i] * cof(m, j, i);
        }
        e = e.max(k.e).max(l.e);
    }
    let mut k = m[0][0] * cof(m, 0, 0);
    for j in 1..4 {
        k = k + m[j][0] * cof(m, j, 0);
    }
    R::new(d.v, e.max(k.e))
}
fn det_i(m: [[i64; 4]; 4]) -> i64 {
    fn d3(a: [[i64; 3]; 3]) -> i64 {
        a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
    }
    let mut t = 0;
    for j in 0..4 {
        let mut a = [[0; 3]; 3];
        for p in 1..4 {
            let mut c = 0;
            for q in 0..4 {
                if q != j {
                    a[p - 1][c] = m[p][q];
                    c += 1;
                }
            }
        }
        t += if j % 2 == 0 { m[0][j] * d3(a) } else { -m[0][j] * d3(a) };
    }
    t
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("multiply", 150, |s| {
        let e = [30, 30, 60, 110][s.below(4)];
        let (a, b) = (s.mod_mat(e, "a"), s.mod_mat(e, "b"));
        let w = matmul(rm(a), rm(b));
        close44("XMMatrixMultiply", marr(XMMatrixMultiply(mat(a), &mat(b))), w)?;
        close44("XMMatrixMultiplyTranspose", marr(XMMatrixMultiplyTranspose(mat(a), &mat(b))), transpose(w))?;
        close44("matrix * matrix", marr((XMMatrix(mat(a)) * XMMatrix(mat(b))).0), w)?;
        let mut x = XMMatrix(mat(a));
        x *= XMMatrix(mat(b));
        close44("matrix *= matrix", marr(x.0), w)
    }));
    c.push(check("multiply_non_finite", 60, |s| {
        let wild = |s: &mut Src| match s.choice(6) { 0 => f32::INFINITY, 1 => f32::NEG_INFINITY, 2 => f32::NAN, 3 => 0.0, _ => s.moderate(20) };
        let (mut a, mut b) = (s.mod_mat(20, "a"), s.mod_mat(20, "b"));
        for _ in 0..1 + s.below(3) {
            let (i, j) = (s.below(4), s.below(4));
            if s.bool() { a[i][j] = wild(s) } else { b[i][j] = wild(s) }
        }
        s.showm("a", a);
        s.showm("b", b);
        let (g, h) = (marr(XMMatrixMultiply(mat(a), &mat(b))), marr(XMMatrixMultiplyTranspose(mat(a), &mat(b))));
        for i in 0..4 {
            for j in 0..4 {
                let t: Vec<(f32, f32)> = (0..4).map(|k| (a[i][k], b[k][j])).collect();
                class_sum("XMMatrixMultiply", g[i][j], &t)?;
                class_sum("XMMatrixMultiplyTranspose", h[j][i], &t)?;
            }
        }
        Ok(())
    }));
    c.push(check("multiply_exact", 100, |s| {
        // integers: every order of evaluation is exact
        let mut a = [[0.0f32; 4]; 4];
        let mut b = a;
        for i in 0..4 {
            for j in 0..4 {
                a[i][j] = s.lattice(900, 1.0);
                b[i][j] = s.lattice(900, 1.0);
            }
        }
        s.showm("a", a);
        s.showm("b", b);
        let mut w = [[0.0f32; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                w[i][j] = (0..4).map(|k| a[i][k] as i64 * b[k][j] as i64).sum::<i64>() as f32;
            }
        }
        eqm("XMMatrixMultiply", XMMatrixMultiply(mat(a), &mat(b)), w)?;
        let mut t = w;
        for i in 0..4 {
            for j in 0..4 {
                t[i][j] = w[j][i];
            }
        }
        eqm("XMMatrixMultiplyTranspose", XMMatrixMultiplyTranspose(mat(a), &mat(b)), t)
    }));
    c.push(check("transpose_set", 60, |s| {
        let mut a = any_mat(s, "a");
        if s.one_in(3) {
            // identity, diagonal, symmetric, antisymmetric, affine, small integers
            a = s.mod_mat(20, "a");
            match s.choice(6) {
                0 => (0..16).for_each(|k| a[k / 4][k % 4] = if k % 5 == 0 { 1.0 } else { 0.0 }),
                1 => (0..16).for_each(|k| if k % 5 != 0 { a[k / 4][k % 4] = 0.0 }),
                2 => (0..16).for_each(|k| a[k / 4][k % 4] = a[k % 4][k / 4]),
                3 => (0..16).for_each(|k| if k / 4 > k % 4 { a[k / 4][k % 4] = -a[k % 4][k / 4] }),
                4 => (0..3).for_each(|k| a[3][k] = 0.0),
                _ => (),
            }
            s.showm("a", a);
        }
        let mut t = a;
        for i in 0..4 {
            for j in 0..4 {
                t[i][j] = a[j][i];
            }
        }
        eqmb("XMMatrixTranspose", XMMatrixTranspose(mat(a)), t)?;
        eqmb("XMMatrixTranspose twice", XMMatrixTranspose(XMMatrixTranspose(mat(a))), a)?;
        let p = |i: usize| a[i / 4][i % 4];
        eqmb(
            "XMMatrixSet",
            XMMatrixSet(p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), p(8), p(9), p(10), p(11), p(12), p(13), p(14), p(15)),
            a,
        )?;
        eqmb(
            "XMMatrix::set",
            XMMatrix::set(p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), p(8), p(9), p(10), p(11), p(12), p(13), p(14), p(15)).0,
            a,
        )?;
        let mut flat = [0.0f32; 16];
        for i in 0..16 {
            flat[i] = p(i);
        }
        eqmb("XMMatrix::from(&[f32; 16])", XMMatrix::from(&flat).0, a)?;
        eqmb("XMMatrix::from(&[[f32; 4]; 4])", XMMatrix::from(&a).0, a)?;
        let f: [f32; 16] = XMMatrix(mat(a)).into();
        ensure!((0..16).all(|i| f[i].to_bits() == flat[i].to_bits()), "Into<[f32; 16]>: {:?}", f);
        let f: [[f32; 4]; 4] = XMMatrix(mat(a)).into();
        eqmb("Into<[[f32; 4]; 4]>", mat(f), a)
    }));
    c.push(check("determinant_inverse", 200, |s| {
        let e = [7, 7, 7, 14, 28][s.below(5)];
        let m = s.mod_mat(e, "m");
        let x = rm(m);
        let d = det(&x);
        let g = arr(XMMatrixDeterminant(mat(m)));
        splat_close("XMMatrixDeterminant", g, d)?;
        let mut dd = vec([f32::NAN; 4]);
        let inv = XMMatrixInverse(Some(&mut dd), mat(m));
        splat_close("XMMatrixInverse determinant", arr(dd), d)?;
        let inv2 = XMMatrixInverse(None, mat(m));
        ensure!(
            marr(inv).iter().flatten().zip(marr(inv2).iter().flatten()).all(|(a, b)| same(*a, *b)),
            "XMMatrixInverse depends on whether the determinant is asked for"
        );
        if d.v.abs() < 64.0 * d.e || d.v == 0.0 {
            s.trivial();
            s.label("near singular");
            return Ok(());
        }
        let g = marr(inv);
        let rcp = R::ONE / d;
        for i in 0..4 {
            for j in 0..4 {
                close(&format!("XMMatrixInverse[{}][{}] of {:?}", i, j, g), g[i][j], cof(&x, j, i) * rcp)?;
            }
        }
        Ok(())
    }));
    c.push(check("determinant_exact", 60, |s| {
        let mut m = [[0.0f32; 4]; 4];
        let mut k = [[0i64; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                m[i][j] = s.lattice(20, 1.0);
                k[i][j] = m[i][j] as i64;
            }
        }
        s.showm("m", m);
        let d = det_i(k) as f32;
        eqn("XMMatrixDeterminant", arr(XMMatrixDeterminant(mat(m))), [d; 4])?;
        let mut dd = vec([f32::NAN; 4]);
        XMMatrixInverse(Some(&mut dd), mat(m));
        eqn("XMMatrixInverse determinant", arr(dd), [d; 4])
    }));
    c.push(check("inverse_of_product", 80, |s| {
        // M * M^-1 = I for well conditioned matrices
        let q = s.unit_quat();
        s.show("q", q);
        let sc = [s.range(0.25, 4.0), s.range(0.25, 4.0), -s.range(0.25, 4.0)];
        let t = [s.range(-8.0, 8.0), s.range(-8.0, 8.0), s.range(-8.0, 8.0)];
        s.note(|| format!("scale={:?} translation={:?}", sc, t));
        let mut m = XMMatrixMultiply(XMMatrixScaling(sc[0], sc[1], sc[2]), &XMMatrixRotationQuaternion(vec(q)));
        m = XMMatrixMultiply(m, &XMMatrixTranslation(t[0], t[1], t[2]));
        let p = marr(XMMatrixMultiply(m, &XMMatrixInverse(None, m)));
        for i in 0..4 {
            for j in 0..4 {
                within("M * inverse(M)", p[i][j], if i == j { 1.0 } else { 0.0 }, 2e-5)?;
            }
        }
        Ok(())
    }));
    c.push(check("tensor_product", 60, |s| {
        let (a, b) = (s.fin_vec("a"), s.fin_vec("b"));
        let mut w = [[0.0f32; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                w[i][j] = a[i] * b[j];
            }
        }
        eqm("XMMatrixVectorTensorProduct", XMMatrixVectorTensorProduct(vec(a), vec(b)), w)
    }));
    c.push(check("predicates", 100, |s| {
        // one element of interest in an otherwise ordinary matrix, plus fully arbitrary matrices
        let mut m = [[0.0f32; 4]; 4];
        for i in 0..4 {
            m[i][i] = 1.0;
        }
        match s.choice(4) {
            0 => {}
            1 => m = any_mat(s, "a"),
            2 => {
                let (i, j) = (s.below(4), s.below(4));
                m[i][j] = s.any();
            }
            _ => {
                let (i, j) = (s.below(4), s.below(4));
                m[i][j] = ulps(m[i][j], s.choice(3) as i32 - 1);
            }
        }
        s.showm("m", m);
        let nan = m.iter().flatten().any(|x| x.is_nan());
        let inf = m.iter().flatten().any(|x| x.is_infinite());
        let id = (0..4).all(|i| (0..4).all(|j| m[i][j] == if i == j { 1.0 } else { 0.0 }));
        if nan {
            s.label("nan");
        }
        if inf {
            s.label("infinite");
        }
        if id {
            s.label("identity");
        }
        ensure!(XMMatrixIsNaN(mat(m)) == nan, "XMMatrixIsNaN: expected {}", nan);
        ensure!(XMMatrixIsInfinite(mat(m)) == inf, "XMMatrixIsInfinite: expected {}", inf);
        ensure!(XMMatrixIsIdentity(mat(m)) == id, "XMMatrixIsIdentity: expected {}", id);
        ensure!(XMMatrixIsIdentity(XMMatrixIdentity()), "XMMatrixIdentity is not the identity");
        Ok(())
    }));
    c.push(check("operators", 150, |s| {
        let (a, b) = (fin_mat(s, "a"), fin_mat(s, "b"));
        let k = s.finite();
        s.showf("k", k);
        let z = |f: &dyn Fn(f32, f32) -> f32| {
            let mut o = a;
            for i in 0..4 {
                for j in 0..4 {
                    o[i][j] = f(a[i][j], b[i][j]);
                }
            }
            o
        };
        let (x, y) = (XMMatrix(mat(a)), XMMatrix(mat(b)));
        eqm("+", (x + y).0, z(&|p, q| p + q))?;
        eqm("-", (x - y).0, z(&|p, q| p - q))?;
        eqm("unary -", (-x).0, z(&|p, _| -p))?;
        eqm("* f32", (x * k).0, z(&|p, _| p * k))?;
        eqm("f32 *", (k * x).0, z(&|p, _| p * k))?;
        eqm("/ f32", (x / k).0, z(&|p, _| p / k))?;
        let mut t = x;
        t += y;
        eqm("+=", t.0, z(&|p, q| p + q))?;
        let mut t = x;
        t -= y;
        eqm("-=", t.0, z(&|p, q| p - q))?;
        let mut t = x;
        t *= k;
        eqm("*= f32", t.0, z(&|p, _| p * k))?;
        let mut t = x;
        t /= k;
        eqm("/= f32", t.0, z(&|p, _| p / k))
    }));
    c.push(check("equality", 80, |s| {
        let a = if s.bool() { any_mat(s, "a") } else { fin_mat(s, "a") };
        let mut b = a;
        if s.choice(4) != 0 {
            let (i, j) = (s.below(4), s.below(4));
            b[i][j] = match s.choice(4) {
                0 => -b[i][j],
                1 => ulps(b[i][j], 1),
                2 => f32::NAN,
                _ => s.any(),
            };
        }
        s.showm("b", b);
        let w = (0..4).all(|i| (0..4).all(|j| a[i][j] == b[i][j]));
        s.label(if w { "equal" } else { "different" });
        ensure!((XMMatrix(mat(a)) == XMMatrix(mat(b))) == w, "matrix ==: expected {}", w);
        Ok(())
    }));
    c.push(check("debug", 4, |s| {
        let a = any_mat(s, "a");
        let w = format!("{:?}", a);
        let g = format!("{:?}", XMMatrix(mat(a)));
        ensure!(g == w, "Debug: {} expected {}", g, w);
        Ok(())
    }));
    dxcheck::cli::main("C13", c);
}
