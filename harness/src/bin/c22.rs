//! C22: triangles against the bounding volumes and against each other.
use directx_math::collision::*;
use dxcheck::geo::*;
use dxcheck::prelude::*;

fn tri(s: &mut Src, t: &Shape) -> [XMVECTOR; 3] {
    match *t {
        Shape::Tri(v) => {
            // any order of the corners is the same triangle
            let o = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]][s.below(6)];
            [s.pt(v[o[0]]), s.pt(v[o[1]]), s.pt(v[o[2]])]
        }
        _ => unreachable!(),
    }
}
fn scene(s: &mut Src, a: Kind, exact: bool) -> (Shape, Shape) {
    let k = s.unit(exact);
    let mut x = s.shape(a, exact, k);
    let f = if !exact && s.one_in(4) { 0.2 } else { 1.0 };
    let mut y = s.shape(Kind::Tri, exact, k * f);
    if !s.relate(&x, &mut y) && !exact && s.choice(5) > 0 {
        s.contact(&x, &mut y);
    }
    s.site(&mut x, &mut y, k);
    x.show(s, "a");
    y.show(s, "triangle");
    (x, y)
}
fn label(s: &mut Src, m: Verdict, h: Verdict) {
    if m == Verdict::Unclear && h == Verdict::Unclear {
        s.trivial();
    }
    s.label(match (m, h) {
        (Verdict::No, _) => "disjoint",
        (_, Verdict::Yes) => "contained",
        (Verdict::Yes, _) => "overlapping",
        _ => "near contact",
    });
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    for exact in [true, false] {
        let m = if exact { "lattice" } else { "contact" };
        for a in [Kind::Sphere, Kind::Box, Kind::Obb] {
            c.push(check(format!("{:?}_triangle_{}", a, m), 100, move |s| {
                let (x, y) = scene(s, a, exact);
                let j = Judge::new(exact, &[&x, &y]);
                let mut meets = j.meets(&x, &y);
                if exact && a == Kind::Sphere {
                    // the sphere test normalizes: not exact
                    meets = Judge::new(false, &[&x, &y]).meets(&x, &y);
                }
                let holds = j.holds(&x, &y);
                label(s, meets, holds);
                let [p, q, r] = tri(s, &y);
                let (i, g) = match a {
                    Kind::Sphere => (x.sphere().IntersectsTriangle(p, q, r), x.sphere().ContainsTriangle(p, q, r)),
                    Kind::Box => (x.aabb().IntersectsTriangle(p, q, r), x.aabb().ContainsTriangle(p, q, r)),
                    _ => (x.obb().IntersectsTriangle(p, q, r), x.obb().ContainsTriangle(p, q, r)),
                };
                expect_bool(&format!("{:?}.IntersectsTriangle", a), i, meets)?;
                expect_containment(&format!("{:?}.ContainsTriangle", a), g, meets, holds)
            }));
        }
        c.push(check(format!("Frustum_triangle_{}", m), 100, move |s| {
            let (x, y) = scene(s, Kind::Frustum, exact);
            let j = Judge::new(exact, &[&x, &y]);
            let meets = j.meets(&x, &y);
            let j = Judge::new(false, &[&x, &y]);
            let holds = j.holds(&x, &y);
            let cut = j.cut_off(&x, &y);
            label(s, meets, holds);
            let [p, q, r] = tri(s, &y);
            let f = x.frustum();
            let i = f.IntersectsTriangle(p, q, r);
            expect_bool("Frustum.IntersectsTriangle", i, meets)?;
            let g = f.ContainsTriangle(p, q, r);
            use ContainmentType::*;
            match g {
                DISJOINT => ensure!(cut != Verdict::No, "Frustum.ContainsTriangle: DISJOINT although no plane of the frustum separates"),
                INTERSECTS => {
                    ensure!(cut != Verdict::Yes, "Frustum.ContainsTriangle: INTERSECTS although the triangle is beyond a plane");
                    ensure!(holds != Verdict::Yes, "Frustum.ContainsTriangle: INTERSECTS although the triangle is inside")
                }
                CONTAINS => ensure!(holds != Verdict::No, "Frustum.ContainsTriangle: CONTAINS although the triangle sticks out"),
            }
            Ok(())
        }));
        c.push(check(format!("triangle_triangle_{}", m), 200, move |s| {
            let (x, y) = scene(s, Kind::Tri, exact);
            let j = Judge::new(exact, &[&x, &y]);
            let meets = j.meets(&x, &y);
            label(s, meets, meets);
            let [p, q, r] = tri(s, &x);
            let [t, u, v] = tri(s, &y);
            expect_bool("triangle_tests::IntersectsTriangle", triangle_tests::IntersectsTriangle(p, q, r, t, u, v), meets)
        }));
    }
    // two triangles in one plane: lattice planes of any tilt, and coordinate planes with any corners
    c.push(check("triangles_in_one_plane_lattice", 150, |s| {
        let v3 = |s: &mut Src| [s.lattice(2, 1.0) as f64, s.lattice(2, 1.0) as f64, s.lattice(2, 1.0) as f64];
        let (o, u) = (v3(s), v3(s));
        let mut v = v3(s);
        let mut u = if u == [0.0; 3] { [1.0, 0.0, 1.0] } else { u };
        if cross(u, v) == [0.0; 3] {
            u = [0.0, 1.0, 1.0];
            v = [1.0, 0.0, -1.0];
        }
        let mut t = || loop {
            let mut c = [[0.0f64; 2]; 3];
            for x in c.iter_mut() {
                *x = [s.lattice(4, 1.0) as f64, s.lattice(4, 1.0) as f64];
            }
            if (c[1][0] - c[0][0]) * (c[2][1] - c[0][1]) == (c[1][1] - c[0][1]) * (c[2][0] - c[0][0]) {
                c[1] = [c[0][0] + 1.0, c[0][1]];
                c[2] = [c[0][0], c[0][1] + 2.0];
            }
            break Shape::Tri(c.map(|x| f3(add(o, add(mul(u, x[0]), mul(v, x[1]))))));
        };
        let (x, y) = (t(), t());
        x.show(s, "a");
        y.show(s, "triangle");
        let meets = Judge::new(true, &[&x, &y]).meets(&x, &y);
        label(s, meets, meets);
        let [p, q, r] = tri(s, &x);
        let [t, u, v] = tri(s, &y);
        expect_bool("triangle_tests::IntersectsTriangle", triangle_tests::IntersectsTriangle(p, q, r, t, u, v), meets)
    }));
    c.push(check("triangles_in_coordinate_plane", 100, |s| {
        let k = s.scale();
        let axis = s.below(3);
        let flat = |t: Shape, h: f32| match t {
            Shape::Tri(mut v) => {
                v.iter_mut().for_each(|p| p[axis] = h);
                Shape::Tri(v)
            }
            t => t,
        };
        let h = s.range(-2.0, 2.0) * k;
        let x = flat(s.shape(Kind::Tri, false, k), h);
        let y = s.shape(Kind::Tri, false, k);
        let mut y = flat(y, h);
        let j = Judge::new(false, &[&x, &y]);
        for t in [&x, &y] {
            let n = len(t.poly().n[0]);
            if n < 1e-2 * (k as f64) * (k as f64) {
                s.trivial();
                return Ok(());
            }
        }
        // move y along an in-plane edge normal of one of them
        if s.choice(3) > 0 {
            let (pa, pb) = (x.poly(), y.poly());
            let i = 1 + s.below(3);
            let mut n = unit(if s.bool() { pa.n[i] } else { pb.n[i] });
            if s.bool() {
                n = mul(n, -1.0);
            }
            let g = s.range(-0.3, 0.3) as f64 * j.size;
            let (hi, lo) = (span(&pa.v, n).1, span(&pb.v, n).0);
            y.translate(mul(n, hi - lo + g));
            y = flat(y, h);
        }
        x.show(s, "a");
        y.show(s, "triangle");
        let j = Judge::new(false, &[&x, &y]);
        let flat2 = |p: Poly| Poly { n: p.n[1..].to_vec(), e: vec![], ..p };
        let meets = le0(gap(&flat2(x.poly()), &flat2(y.poly()), false), j.eps());
        label(s, meets, meets);
        let [p, q, r] = tri(s, &x);
        let [t, u, v] = tri(s, &y);
        expect_bool("triangle_tests::IntersectsTriangle", triangle_tests::IntersectsTriangle(p, q, r, t, u, v), meets)
    }));
    dxcheck::cli::main("C22", c);
}
