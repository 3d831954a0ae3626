//! C11: loads, stores and conversions between vectors/matrices and plain data.
use dxcheck::guard::Guard;
use dxcheck::prelude::*;

/// n arbitrary 32-bit patterns
fn words(s: &mut Src, n: usize) -> Vec<u32> {
    let mut w: Vec<u32> = (0..n).map(|_| s.any_bits()).collect();
    if s.one_in(3) {
        // all distinct and recognisable: catches transposed or duplicated elements
        for i in 0..n {
            w[i] = ((i + 1) as f32).to_bits();
        }
    }
    s.note(|| format!("data={:08X?}", w));
    w
}
fn mbits(m: XMMATRIX) -> [[u32; 4]; 4] {
    unsafe { std::mem::transmute(m) }
}
fn eq_words(what: &str, got: &[u32], want: &[u32], exact: bool) -> Res {
    for i in 0..want.len() {
        let ok = if exact { got[i] == want[i] } else { same(f32::from_bits(got[i]), f32::from_bits(want[i])) };
        ensure!(ok, "{}: element {} is 0x{:08X}, expected 0x{:08X} (all: {:08X?})", what, i, got[i], want[i], got);
    }
    Ok(())
}
/// Put `w` at a guarded address and hand it to `f` as a &T.
fn with_src<T, O>(s: &mut Src, g: &Guard, w: &[u32], aligned: bool, f: impl Fn(&T) -> O) -> O {
    let size = std::mem::size_of::<T>();
    assert!(size >= 4 * w.len());
    let k = if aligned { s.below(3) } else { s.below(6) };
    let p = g.place(size, k, 0xA5);
    unsafe {
        for i in 0..w.len() {
            (p as *mut u32).add(i).write(w[i]);
        }
        f(&*(p as *const T))
    }
}
/// Let `f` write a T at a guarded address; return its words and check that nothing around it changed.
fn with_dst<T>(s: &mut Src, g: &Guard, what: &str, n: usize, aligned: bool, f: impl Fn(&mut T)) -> Result<Vec<u32>, Stop> {
    let size = std::mem::size_of::<T>();
    let k = if aligned { s.below(3) } else { s.below(6) };
    let p = g.place(size, k, 0xA5);
    unsafe {
        f(&mut *(p as *mut T));
        if let Some(o) = g.intact(p, size, 0xA5) {
            return Err(Stop::Fail(format!("{}: wrote outside the destination (offset {} of a {}-byte object)", what, o, size)));
        }
        Ok((0..n).map(|i| (p as *const u32).add(i).read()).collect())
    }
}
macro_rules! vec_ls {
    ($c:ident, $T:ty, $n:expr, $al:expr, $load:ident, $store:ident) => {
        let g = Guard::new();
        $c.push(check(stringify!($load), 60, move |s| {
            let w = words(s, $n);
            let v = bits(with_src::<$T, _>(s, &g, &w, $al, |p| $load(p)));
            let mut want = [0u32; 4];
            want[..$n].copy_from_slice(&w);
            eq_words(stringify!($load), &v, &want, true)
        }));
        let g = Guard::new();
        $c.push(check(stringify!($store), 60, move |s| {
            let w = words(s, 4);
            let v = vecu([w[0], w[1], w[2], w[3]]);
            let got = with_dst::<$T>(s, &g, stringify!($store), $n, $al, |p| $store(p, v))?;
            eq_words(stringify!($store), &got, &w[..$n], true)
        }));
    };
}
macro_rules! mat_ls {
    ($c:ident, $T:ty, $n:expr, $al:expr, $exact:expr, $load:ident, $store:ident, $at:expr) => {
        let g = Guard::new();
        $c.push(check(stringify!($load), 60, move |s| {
            let w = words(s, $n);
            let m = mbits(with_src::<$T, _>(s, &g, &w, $al, |p| $load(p)));
            let at: fn(usize, usize) -> Option<usize> = $at;
            for i in 0..4 {
                let mut want = [0u32; 4];
                for j in 0..4 {
                    want[j] = match at(i, j) {
                        Some(k) => w[k],
                        None => if i == 3 && j == 3 { 0x3F800000 } else { 0 },
                    };
                }
                eq_words(&format!("{} row {}", stringify!($load), i), &m[i], &want, $exact)?;
            }
            Ok(())
        }));
        let g = Guard::new();
        $c.push(check(stringify!($store), 60, move |s| {
            let w = words(s, 16);
            let mut rows = [[0u32; 4]; 4];
            for i in 0..16 { rows[i / 4][i % 4] = w[i]; }
            let m: XMMATRIX = unsafe { std::mem::transmute(rows) };
            let got = with_dst::<$T>(s, &g, stringify!($store), $n, $al, |p| $store(p, m))?;
            let at: fn(usize, usize) -> Option<usize> = $at;
            let mut want = vec![0u32; $n];
            for i in 0..4 { for j in 0..4 { if let Some(k) = at(i, j) { want[k] = rows[i][j]; } } }
            eq_words(stringify!($store), &got, &want, true)
        }));
    };
}
macro_rules! structs {
    ($s:ident, $w:ident, $T:ident, $t:ty, $n:expr, $conv:expr, $back:expr, $($f:ident = $i:expr),*) => {{
        let conv: fn(u32) -> $t = $conv;
        let back: fn($t) -> u32 = $back;
        let a: [$t; $n] = core::array::from_fn(|i| conv($w[i]));
        let x = $T::from(a);
        $( ensure!(back(x.$f) == $w[$i], "{}::from([..]).{} = 0x{:08X}, expected 0x{:08X}", stringify!($T), stringify!($f), back(x.$f), $w[$i]); )*
        let y = $T::set($(a[$i]),*);
        $( ensure!(back(y.$f) == $w[$i], "{}::set(..).{}", stringify!($T), stringify!($f)); )*
        let b: [$t; $n] = x.into();
        let rx: &$T = (&a).into();
        let rb: &[$t; $n] = rx.into();
        let ab: &[$t; $n] = x.as_ref();
        for i in 0..$n {
            ensure!(back(b[i]) == $w[i] && back(rb[i]) == $w[i] && back(ab[i]) == $w[i], "{} array conversion, element {}", stringify!($T), i);
        }
        $( ensure!(back(rx.$f) == $w[$i], "&[..] as &{} .{}", stringify!($T), stringify!($f)); )*
        let mut z = x;
        { let m: &mut [$t; $n] = z.as_mut(); m[$n - 1] = conv(0x40400000); }
        let zb: [$t; $n] = z.into();
        for i in 0..$n {
            let want = if i == $n - 1 { 0x40400000 } else { $w[i] };
            ensure!(back(zb[i]) == want, "{}::as_mut element {}", stringify!($T), i);
        }
        ensure!(std::mem::size_of::<$T>() == 4 * $n, "{} is not {} packed words", stringify!($T), $n);
    }};
}
macro_rules! mats {
    ($s:ident, $w:ident, $T:ident, $r:expr, $cc:expr, $n:expr) => {{
        let f = |i: usize| f32::from_bits($w[i]);
        let flat: [f32; $n] = core::array::from_fn(|i| f(i));
        let nest: [[f32; $cc]; $r] = core::array::from_fn(|i| core::array::from_fn(|j| f(i * $cc + j)));
        let a = $T::from(flat);
        let b = $T::from(nest);
        let ra: &$T = (&flat).into();
        let rb: &$T = (&nest).into();
        let fa: [f32; $n] = b.into();
        let na: [[f32; $cc]; $r] = a.into();
        let rfa: &[f32; $n] = (&b).into();
        let rna: &[[f32; $cc]; $r] = (&a).into();
        let afa: &[f32; $n] = a.as_ref();
        let ana: &[[f32; $cc]; $r] = b.as_ref();
        let mut ma = a;
        { let x: &mut [f32; $n] = ma.as_mut(); x[1] = 5.5; }
        { let x: &mut [[f32; $cc]; $r] = ma.as_mut(); x[$r - 1][0] = 6.5; }
        for i in 0..$r { for j in 0..$cc {
            let k = i * $cc + j;
            for (what, v) in [("from flat", a.m[i][j]), ("from nested", b.m[i][j]), ("&flat", ra.m[i][j]), ("&nested", rb.m[i][j]), ("into flat", fa[k]),
                ("into nested", na[i][j]), ("into &flat", rfa[k]), ("into &nested", rna[i][j]), ("as_ref flat", afa[k]), ("as_ref nested", ana[i][j])] {
                ensure!(v.to_bits() == $w[k], "{} {} [{}][{}]: 0x{:08X} expected 0x{:08X}", stringify!($T), what, i, j, v.to_bits(), $w[k]);
            }
            let want = if k == 1 { 5.5f32.to_bits() } else if i == $r - 1 && j == 0 { 6.5f32.to_bits() } else { $w[k] };
            ensure!(ma.m[i][j].to_bits() == want, "{} as_mut [{}][{}]", stringify!($T), i, j);
        } }
    }};
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    vec_ls!(c, [u32; 2], 2, false, XMLoadInt2, XMStoreInt2);
    vec_ls!(c, [u32; 3], 3, false, XMLoadInt3, XMStoreInt3);
    vec_ls!(c, [u32; 4], 4, false, XMLoadInt4, XMStoreInt4);
    vec_ls!(c, XMFLOAT2, 2, false, XMLoadFloat2, XMStoreFloat2);
    vec_ls!(c, XMFLOAT3, 3, false, XMLoadFloat3, XMStoreFloat3);
    vec_ls!(c, XMFLOAT4, 4, false, XMLoadFloat4, XMStoreFloat4);
    vec_ls!(c, Align16<XMFLOAT3>, 3, true, XMLoadFloat3A, XMStoreFloat3A);
    vec_ls!(c, Align16<XMFLOAT4>, 4, true, XMLoadFloat4A, XMStoreFloat4A);
    mat_ls!(c, XMFLOAT4X4, 16, false, true, XMLoadFloat4x4, XMStoreFloat4x4, |i, j| Some(i * 4 + j));
    mat_ls!(c, Align16<XMFLOAT4X4>, 16, true, true, XMLoadFloat4x4A, XMStoreFloat4x4A, |i, j| Some(i * 4 + j));
    mat_ls!(c, XMFLOAT4X3, 12, false, true, XMLoadFloat4x3, XMStoreFloat4x3, |i, j| if j < 3 { Some(i * 3 + j) } else { None });
    // the 3x4 form is column major: element [i][j] holds row j, column i
    mat_ls!(c, XMFLOAT3X4, 12, false, true, XMLoadFloat3x4, XMStoreFloat3x4, |i, j| if j < 3 { Some(j * 4 + i) } else { None });
    mat_ls!(c, XMFLOAT3X3, 9, false, false, XMLoadFloat3x3, XMStoreFloat3x3, |i, j| if i < 3 && j < 3 { Some(i * 3 + j) } else { None });
    let g = Guard::new();
    c.push(check("XMStoreFloat", 60, move |s| {
        let w = words(s, 4);
        let v = vecu([w[0], w[1], w[2], w[3]]);
        let got = with_dst::<f32>(s, &g, "XMStoreFloat", 1, false, |p| XMStoreFloat(p, v))?;
        eq_words("XMStoreFloat", &got, &w[..1], true)
    }));
    c.push(check("structs", 60, |s| {
        let w = words(s, 4);
        structs!(s, w, XMINT2, i32, 2, |x| x as i32, |x| x as u32, x = 0, y = 1);
        structs!(s, w, XMINT3, i32, 3, |x| x as i32, |x| x as u32, x = 0, y = 1, z = 2);
        structs!(s, w, XMINT4, i32, 4, |x| x as i32, |x| x as u32, x = 0, y = 1, z = 2, w = 3);
        structs!(s, w, XMUINT2, u32, 2, |x| x, |x| x, x = 0, y = 1);
        structs!(s, w, XMUINT3, u32, 3, |x| x, |x| x, x = 0, y = 1, z = 2);
        structs!(s, w, XMUINT4, u32, 4, |x| x, |x| x, x = 0, y = 1, z = 2, w = 3);
        structs!(s, w, XMFLOAT2, f32, 2, f32::from_bits, f32::to_bits, x = 0, y = 1);
        structs!(s, w, XMFLOAT3, f32, 3, f32::from_bits, f32::to_bits, x = 0, y = 1, z = 2);
        structs!(s, w, XMFLOAT4, f32, 4, f32::from_bits, f32::to_bits, x = 0, y = 1, z = 2, w = 3);
        Ok(())
    }));
    c.push(check("matrix_structs", 60, |s| {
        let w = words(s, 16);
        mats!(s, w, XMFLOAT4X4, 4, 4, 16);
        mats!(s, w, XMFLOAT4X3, 4, 3, 12);
        mats!(s, w, XMFLOAT3X4, 3, 4, 12);
        mats!(s, w, XMFLOAT3X3, 3, 3, 9);
        Ok(())
    }));
    c.push(check("operators_types", 60, |s| {
        let w = words(s, 16);
        let flat: [f32; 16] = core::array::from_fn(|i| f32::from_bits(w[i]));
        let nest: [[f32; 4]; 4] = core::array::from_fn(|i| core::array::from_fn(|j| flat[i * 4 + j]));
        let f = &flat;
        let a = XMMatrix::from(&flat);
        let b = XMMatrix::from(&nest);
        let d = XMMatrix::set(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11], f[12], f[13], f[14], f[15]);
        let e = XMMatrixSet(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11], f[12], f[13], f[14], f[15]);
        for (what, m) in [("from(&[f32; 16])", *a), ("from(&[[f32; 4]; 4])", *b), ("XMMatrix::set", *d), ("XMMatrixSet", e)] {
            let r = mbits(m);
            eq_words(what, &[r[0], r[1], r[2], r[3]].concat(), &w, true)?;
        }
        let of: [f32; 16] = a.into();
        let on: [[f32; 4]; 4] = b.into();
        eq_words("into [f32; 16]", &of.map(|x| x.to_bits()), &w, true)?;
        eq_words("into [[f32; 4]; 4]", &on.concat().iter().map(|x| x.to_bits()).collect::<Vec<_>>(), &w, true)?;
        let v4 = [f[0], f[1], f[2], f[3]];
        eq_words("XMVector::from", &bits(*XMVector::from(&v4)), &w[..4], true)?;
        eq_words("XMVector::set", &bits(XMVector::set(f[0], f[1], f[2], f[3]).0), &w[..4], true)?;
        let mut x = XMVector::set(1.0, 2.0, 3.0, 4.0);
        *x = vec(v4);
        eq_words("XMVector deref_mut", &bits(x.0), &w[..4], true)?;
        let mut y = Align16::from(XMFLOAT4::from(v4));
        ensure!(&y as *const _ as usize % 16 == 0, "Align16 is not aligned");
        { let r: &mut XMFLOAT4 = y.as_mut(); r.z = f[4]; }
        y.w = f[5];
        let r: &XMFLOAT4 = y.as_ref();
        eq_words("Align16", &[r.x.to_bits(), r.y.to_bits(), r.z.to_bits(), r.w.to_bits()], &[w[0], w[1], w[4], w[5]], true)?;
        ensure!(std::mem::align_of::<XMVECTOR>() == 16 && std::mem::size_of::<XMVECTOR>() == 16 && std::mem::size_of::<XMMATRIX>() == 64, "layout");
        Ok(())
    }));
    dxcheck::cli::main("C11", c);
}
