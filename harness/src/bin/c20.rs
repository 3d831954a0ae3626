//! C20: containment and intersection of spheres, boxes and oriented boxes.
use directx_math::collision::*;
use dxcheck::geo::*;
use dxcheck::prelude::*;

fn scene(s: &mut Src, a: Kind, b: Kind, exact: bool) -> (Shape, Shape) {
    let k = s.unit(exact);
    let mut x = s.shape(a, exact, k);
    let mut y = s.shape(b, exact, k);
    if !s.relate(&x, &mut y) && !exact && s.choice(5) > 0 {
        s.contact(&x, &mut y);
    }
    s.site(&mut x, &mut y, k);
    x.show(s, "a");
    y.show(s, "b");
    (x, y)
}
fn contains(s: &mut Src, a: &Shape, b: &Shape) -> ContainmentType {
    match (a.kind(), b.kind()) {
        (Kind::Sphere, Kind::Sphere) => a.sphere().ContainsSphere(&b.sphere()),
        (Kind::Sphere, Kind::Box) => a.sphere().ContainsBox(&b.aabb()),
        (Kind::Sphere, Kind::Obb) => a.sphere().ContainsOrientedBox(&b.obb()),
        (Kind::Box, Kind::Sphere) => a.aabb().ContainsSphere(&b.sphere()),
        (Kind::Box, Kind::Box) => a.aabb().ContainsBox(&b.aabb()),
        (Kind::Box, Kind::Obb) => a.aabb().ContainsOrientedBox(&b.obb()),
        (Kind::Obb, Kind::Sphere) => a.obb().ContainsSphere(&b.sphere()),
        (Kind::Obb, Kind::Box) => a.obb().ContainsBox(&b.aabb()),
        (Kind::Obb, Kind::Obb) => a.obb().ContainsOrientedBox(&b.obb()),
        (k, Kind::Point) => {
            let p = match b {
                Shape::Point(p) => s.pt(*p),
                _ => unreachable!(),
            };
            match k {
                Kind::Sphere => a.sphere().ContainsPoint(p),
                Kind::Box => a.aabb().ContainsPoint(p),
                _ => a.obb().ContainsPoint(p),
            }
        }
        _ => unreachable!(),
    }
}
fn intersects(a: &Shape, b: &Shape) -> bool {
    match (a.kind(), b.kind()) {
        (Kind::Sphere, Kind::Sphere) => a.sphere().IntersectsSphere(&b.sphere()),
        (Kind::Sphere, Kind::Box) => a.sphere().IntersectsBox(&b.aabb()),
        (Kind::Sphere, Kind::Obb) => a.sphere().IntersectsOrientedBox(&b.obb()),
        (Kind::Box, Kind::Sphere) => a.aabb().IntersectsSphere(&b.sphere()),
        (Kind::Box, Kind::Box) => a.aabb().IntersectsBox(&b.aabb()),
        (Kind::Box, Kind::Obb) => a.aabb().IntersectsOrientedBox(&b.obb()),
        (Kind::Obb, Kind::Sphere) => a.obb().IntersectsSphere(&b.sphere()),
        (Kind::Obb, Kind::Box) => a.obb().IntersectsBox(&b.aabb()),
        (Kind::Obb, Kind::Obb) => a.obb().IntersectsOrientedBox(&b.obb()),
        _ => unreachable!(),
    }
}
fn judge(s: &mut Src, exact: bool, x: &Shape, y: &Shape) -> (Verdict, Verdict) {
    let j = Judge::new(exact, &[x, y]);
    let m = j.meets(x, y);
    let h = j.holds(x, y);
    if m == Verdict::Unclear && h == Verdict::Unclear {
        s.trivial();
    }
    s.label(match (m, h) {
        (Verdict::No, _) => "disjoint",
        (_, Verdict::Yes) => "contained",
        (Verdict::Yes, _) => "overlapping",
        _ => "near contact",
    });
    (m, h)
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    let vols = [Kind::Sphere, Kind::Box, Kind::Obb];
    for a in vols {
        for exact in [true, false] {
            let m = if exact { "lattice" } else { "contact" };
            c.push(check(format!("{:?}_point_{}", a, m), 100, move |s| {
                let (x, y) = scene(s, a, Kind::Point, exact);
                let j = Judge::new(exact, &[&x, &y]);
                let h = j.holds(&x, &y);
                if h == Verdict::Unclear {
                    s.trivial();
                }
                let g = contains(s, &x, &y);
                let what = format!("{:?}.ContainsPoint", a);
                if g == ContainmentType::INTERSECTS {
                    fail!("{}: INTERSECTS for a point", what);
                }
                expect_containment(&what, g, h, h)
            }));
            for b in vols {
                c.push(check(format!("{:?}_{:?}_{}", a, b, m), 100, move |s| {
                    let (x, y) = scene(s, a, b, exact);
                    let (m, h) = judge(s, exact, &x, &y);
                    expect_bool(&format!("{:?}.Intersects{:?}", a, b), intersects(&x, &y), m)?;
                    expect_bool(&format!("{:?}.Intersects{:?}", b, a), intersects(&y, &x), m)?;
                    let g = contains(s, &x, &y);
                    expect_containment(&format!("{:?}.Contains{:?}", a, b), g, m, h)
                }));
            }
        }
    }
    dxcheck::cli::main("C20", c);
}
