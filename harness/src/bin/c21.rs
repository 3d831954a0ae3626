//! C21: containment and intersection involving frustums.
use directx_math::collision::*;
use dxcheck::geo::*;
use dxcheck::prelude::*;

fn scene(s: &mut Src, a: Kind, b: Kind, exact: bool) -> (Shape, Shape) {
    let k = s.unit(exact);
    let mut x = s.shape(a, exact, k);
    let mut y = s.shape(b, exact, k);
    if !exact && s.one_in(6) {
        // a small body, so that it can lie inside
        y = s.shape(b, exact, k * 0.1);
    }
    if !s.relate(&x, &mut y) && !exact && s.choice(5) > 0 {
        s.contact(&x, &mut y);
    }
    s.site(&mut x, &mut y, k);
    x.show(s, "a");
    y.show(s, "b");
    (x, y)
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    for exact in [true, false] {
        let m = if exact { "lattice" } else { "contact" };
        c.push(check(format!("Frustum_point_{}", m), 100, move |s| {
            let (x, y) = scene(s, Kind::Frustum, Kind::Point, exact);
            let j = Judge::new(exact, &[&x, &y]);
            let h = j.holds(&x, &y);
            if h == Verdict::Unclear {
                s.trivial();
            }
            let p = match y {
                Shape::Point(p) => s.pt(p),
                _ => unreachable!(),
            };
            let g = x.frustum().ContainsPoint(p);
            if g == ContainmentType::INTERSECTS {
                fail!("Frustum.ContainsPoint: INTERSECTS for a point");
            }
            expect_containment("Frustum.ContainsPoint", g, h, h)
        }));
        for b in [Kind::Sphere, Kind::Box, Kind::Obb, Kind::Frustum] {
            c.push(check(format!("Frustum_{:?}_{}", b, m), 100, move |s| {
                let (x, y) = scene(s, Kind::Frustum, b, exact);
                let f = x.frustum();
                let j = Judge::new(exact, &[&x, &y]);
                let meets = j.meets(&x, &y);
                s.label(match meets {
                    Verdict::Yes => "overlapping",
                    Verdict::No => "disjoint",
                    _ => "near contact",
                });
                let (i1, i2) = match b {
                    Kind::Sphere => (f.IntersectsSphere(&y.sphere()), y.sphere().IntersectsFrustum(&f)),
                    Kind::Box => (f.IntersectsBox(&y.aabb()), y.aabb().IntersectsFrustum(&f)),
                    Kind::Obb => (f.IntersectsOrientedBox(&y.obb()), y.obb().IntersectsFrustum(&f)),
                    _ => (f.IntersectsFrustum(&y.frustum()), y.frustum().IntersectsFrustum(&f)),
                };
                expect_bool(&format!("Frustum.Intersects{:?}", b), i1, meets)?;
                expect_bool(&format!("{:?}.IntersectsFrustum", b), i2, meets)?;
                // a volume holding the frustum
                let holds = j.holds(&y, &x);
                let g = match b {
                    Kind::Sphere => Some(y.sphere().ContainsFrustum(&f)),
                    Kind::Box => Some(y.aabb().ContainsFrustum(&f)),
                    Kind::Obb => Some(y.obb().ContainsFrustum(&f)),
                    _ => None,
                };
                if let Some(g) = g {
                    expect_containment(&format!("{:?}.ContainsFrustum", b), g, meets, holds)?;
                }
                // the frustum holding a volume: classification against its six planes
                let j = Judge::new(false, &[&x, &y]);
                let holds = j.holds(&x, &y);
                let cut = j.cut_off(&x, &y);
                if meets == Verdict::Unclear && holds == Verdict::Unclear && cut == Verdict::Unclear {
                    s.trivial();
                }
                if cut == Verdict::Yes {
                    s.label("beyond one plane");
                }
                if holds == Verdict::Yes {
                    s.label("inside the frustum");
                }
                let g = match b {
                    Kind::Sphere => f.ContainsSphere(&y.sphere()),
                    Kind::Box => f.ContainsBox(&y.aabb()),
                    Kind::Obb => f.ContainsOrientedBox(&y.obb()),
                    _ => f.ContainsFrustum(&y.frustum()),
                };
                let what = format!("Frustum.Contains{:?}", b);
                use ContainmentType::*;
                match g {
                    DISJOINT => ensure!(cut != Verdict::No, "{}: DISJOINT although no plane of the frustum separates", what),
                    INTERSECTS => {
                        ensure!(cut != Verdict::Yes, "{}: INTERSECTS although the body is beyond a plane", what);
                        ensure!(holds != Verdict::Yes, "{}: INTERSECTS although the body is inside", what)
                    }
                    CONTAINS => {
                        ensure!(holds != Verdict::No, "{}: CONTAINS although the body sticks out", what)
                    }
                }
                Ok(())
            }));
        }
    }
    dxcheck::cli::main("C21", c);
}
