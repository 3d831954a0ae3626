#![allow(non_snake_case, clippy::all)]
#[macro_use]
pub mod engine;
pub mod cli;
pub mod gen;
pub mod geo;
pub mod guard;
pub mod rf;
pub mod prelude {
    pub use crate::engine::{check, Check, Res, Src, Stop};
    pub use crate::gen::*;
    pub use crate::{ensure, fail};
    pub use directx_math::*;
    /// Bit-exact comparison.
    pub fn eqb(what: &str, got: XMVECTOR, want: [u32; 4]) -> Res {
        let g = bits(got);
        if g == want {
            return Ok(());
        }
        Err(Stop::Fail(format!("{}: got {} expected {}", what, su(g), su(want))))
    }
    /// Numeric comparison: NaN matches NaN, +0 matches -0.
    pub fn same(a: f32, b: f32) -> bool {
        (a.is_nan() && b.is_nan()) || a == b
    }
    pub fn eqn(what: &str, got: V4, want: V4) -> Res {
        for i in 0..4 {
            if !same(got[i], want[i]) {
                return Err(Stop::Fail(format!("{}: got {} expected {}", what, sv(got), sv(want))));
            }
        }
        Ok(())
    }
    pub fn eqf(what: &str, got: f32, want: f32) -> Res {
        if same(got, want) {
            return Ok(());
        }
        Err(Stop::Fail(format!("{}: got {} expected {}", what, sf(got), sf(want))))
    }
    pub fn map(a: V4, f: impl Fn(f32) -> f32) -> V4 {
        [f(a[0]), f(a[1]), f(a[2]), f(a[3])]
    }
    pub fn zip(a: V4, b: V4, f: impl Fn(f32, f32) -> f32) -> V4 {
        [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2]), f(a[3], b[3])]
    }
    pub fn zip3(a: V4, b: V4, c: V4, f: impl Fn(f32, f32, f32) -> f32) -> V4 {
        [f(a[0], b[0], c[0]), f(a[1], b[1], c[1]), f(a[2], b[2], c[2]), f(a[3], b[3], c[3])]
    }
    /// A component-wise function must give each component what it gives that component's value anywhere else:
    /// whatever the other components hold, and whichever position it is in.
    pub fn lanewise(what: &str, f: impl Fn(XMVECTOR) -> XMVECTOR, a: V4) -> Res {
        let g = arr(f(vec(a)));
        for i in 0..4 {
            let h = arr(f(vec([a[i]; 4])));
            for j in 0..4 {
                ensure!(same(g[i], h[j]), "{}: component {} of {} is {}, but {} of a vector of {} gives {}", what, i, sv(a), sf(g[i]), j, sf(a[i]), sf(h[j]));
            }
        }
        Ok(())
    }
    pub fn lanewise2(what: &str, f: impl Fn(XMVECTOR, XMVECTOR) -> XMVECTOR, a: V4, b: V4) -> Res {
        let g = arr(f(vec(a), vec(b)));
        for i in 0..4 {
            let h = arr(f(vec([a[i]; 4]), vec([b[i]; 4])));
            for j in 0..4 {
                ensure!(same(g[i], h[j]), "{}: component {} for {} and {} is {}, but {} for {} and {} everywhere gives {}", what, i, sv(a), sv(b), sf(g[i]), j, sf(a[i]), sf(b[i]), sf(h[j]));
            }
        }
        Ok(())
    }
    pub fn zipm(a: V4, b: V4, f: impl Fn(f32, f32) -> bool) -> [u32; 4] {
        let m = |x: bool| if x { 0xFFFFFFFFu32 } else { 0 };
        [m(f(a[0], b[0])), m(f(a[1], b[1])), m(f(a[2], b[2])), m(f(a[3], b[3]))]
    }
}
