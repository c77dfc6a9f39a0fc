//! shapes: construction (S01), tolerance (S12), containment (S02), contact and casting (S03-S07), order (S09), support (S10)
use super::*;
use bounds::data;
use contracts::NORMALIZE;
use mazth::i_shape::{IShape, ShapeType};
use mazth::i_vicinity::IVicinity;
use mazth::line::Line3;
use mazth::mat::Mat3x1;
use mazth::plane::Plane;
use mazth::point::Point3;
use mazth::ray::Ray3;
use mazth::rbox::RecBox;
use mazth::sphere::Sphere;
use mazth::triprism::TriPrism;

pub fn init_of(t: &str, ty: &str) -> String { format!("<mazth::{}::{}>::init", t, ty) }
pub fn shape_of(t: &str, ty: &str, m: &str) -> String { format!("<mazth::{}::{} as mazth::i_shape::IShape>::{}", t, ty, m) }
pub fn vic_of(t: &str, ty: &str, m: &str) -> String { format!("<mazth::{}::{} as mazth::i_vicinity::IVicinity<f64>>::{}", t, ty, m) }
pub type Ans = (bool, Option<Mat3x1<f64>>);

pub fn m3(v: [f64; 3]) -> Mat3x1<f64> { Mat3x1 { _val: v } }
pub fn ev(m: &Mat3x1<f64>) -> V3 { ex3(&m._val) }
/// three numbers that are not all zero
pub fn direction(nm: &str) -> [f64; 3] {
    let d: [f64; 3] = symn(nm);
    assume_nz(nm, &exn(&d));
    d
}
pub fn nonneg(nm: &str) -> f64 {
    let r: f64 = sym(nm);
    assume(ex(r).ge(c(0.0)));
    r
}
pub fn positive(nm: &str) -> f64 {
    let r: f64 = sym_scaled(nm, 0.0, 6.0);
    assume(ex(r).gt(c(0.0)));
    r
}
/// each component of the unit vector has the sign of the component it was made from
fn signs(nm: &str, u: V3, d: &[f64; 3]) {
    for i in 0..3 {
        let e = ex(d[i]);
        lemma(&format!("{}: unit vector rises where the given one does", nm), iff(u[i].gt(c(0.0)), e.gt(c(0.0))));
        lemma(&format!("{}: unit vector falls where the given one does", nm), iff(u[i].lt(c(0.0)), e.lt(c(0.0))));
    }
}
pub fn mk_ray(nm: &str) -> (Ray3, V3, V3) {
    let (o, d): ([f64; 3], [f64; 3]) = (symn(&format!("{}.origin", nm)), direction(&format!("{}.direction", nm)));
    mk_ray_from(nm, o, d)
}
pub fn mk_ray_from(nm: &str, o: [f64; 3], d: [f64; 3]) -> (Ray3, V3, V3) {
    let r = val("Ray3::init", call(|| Ray3::init(&o, &d)));
    let u = ev(&r._dir);
    signs(nm, u, &d);
    (r, ex3(&o), u)
}
pub fn mk_ray_plain(nm: &str) -> (Ray3, V3, V3) {
    let (o, d): ([f64; 3], [f64; 3]) = (symn(&format!("{}.origin", nm)), direction(&format!("{}.direction", nm)));
    let r = val("Ray3::init", call(|| Ray3::init(&o, &d)));
    let u = ev(&r._dir);
    (r, ex3(&o), u)
}
pub fn mk_plane(nm: &str) -> (Plane, V3, V3) {
    let (o, d): ([f64; 3], [f64; 3]) = (symn(&format!("{}.offset", nm)), direction(&format!("{}.normal", nm)));
    let p = val("Plane::init", call(|| Plane::init(&o, &d)));
    let n = ev(&p._normal);
    (p, ex3(&o), n)
}
pub fn mk_sphere(nm: &str, r: f64) -> (Sphere, V3) {
    let o: [f64; 3] = symn(&format!("{}.center", nm));
    (val("Sphere::init", call(|| Sphere::init(&o, r))), ex3(&o))
}
pub fn mk_point(p: [f64; 3]) -> Point3 { val("Point3::init", call(|| Point3::init(&p))) }
/// asks a about b or b about a; the answer must be well formed
pub fn ask(a: &dyn IShape, b: &dyn IShape) -> Ans {
    let r = if choose_bool("exchanged") { val("get_intersect", call(|| b.get_intersect(a))) } else { val("get_intersect", call(|| a.get_intersect(b))) };
    formed(&r);
    r
}
pub fn ask1(a: &dyn IShape, b: &dyn IShape) -> Ans {
    let r = val("get_intersect", call(|| a.get_intersect(b)));
    formed(&r);
    r
}
fn formed(r: &Ans) { ensure("get_intersect: carries a location exactly when positive", bx(r.0 == r.1.is_some())); if r.0 != r.1.is_some() { stop_path() } }
pub fn loc(r: &Ans) -> V3 { ev(r.1.as_ref().unwrap()) }
/// exact answer
pub fn exact(nm: &str, r: &Ans, spec: Bx) {
    if r.0 { ensure(&format!("{}: reported only when true", nm), spec); } else { ensure(&format!("{}: reported whenever true", nm), !spec); }
}
fn along(o: V3, t: Ex, u: V3) -> V3 { add3(o, scale3(u, t)) }

fn kind(nm: &str, s: &dyn IShape, k: fn(&ShapeType) -> bool) { ensure(&format!("{}: reports its kind", nm), bx(k(&s.get_type()))); }
fn has_data(nm: &str, s: &dyn IShape, want: &[Ex]) {
    let d = val("get_shape_data", call(|| s.get_shape_data()));
    ensure(&format!("{}: keeps the data it was built from", nm), eqn(&exn(&d), want));
}
fn turned(nm: &str, u: &[Ex], d: &[Ex]) {
    let (u, d) = ([u[0], u[1], u[2]], [d[0], d[1], d[2]]);
    ensure(&format!("{}: direction rescaled to unit length", nm), dot3(u, u).eq(c(1.0)));
    ensure(&format!("{}: direction not turned", nm), eq3(cross3(u, d), [c(0.0); 3]) & dot3(u, d).gt(c(0.0)));
}
fn refused<R>(nm: &str, r: Result<R, String>) { ensure(&format!("{}: wrong number of coordinates is refused", nm), bx(r.is_err())); }

/// tolerance handling of one shape
fn vicinity<T: IShape + Clone>(nm: &str, s: T, tol: fn(&T) -> f64) {
    ensure(&format!("{}: tolerance of a new shape", nm), ex(tol(&s)).eq(c(0.000001)));
    let mut s2 = s.clone();
    let e: f64 = sym_scaled("epsilon", -2.0, 2.0);
    val("set_vicinity", call(|| s2.set_vicinity(e)));
    ensure(&format!("{}: set_vicinity stores the absolute value", nm), ex(tol(&s2)).eq(ex(e).abs()));
    ensure(&format!("{}: set_vicinity changes nothing else", nm), eqn(&exn(&s2.get_shape_data()), &exn(&s.get_shape_data())));
    let (b, b2) = (data(nm, &s), data(nm, &s2));
    for i in 0..3 {
        for (x, y) in [(b.0[i], b2.0[i]), (b.1[i], b2.1[i])] {
            ensure(&format!("{}: set_vicinity keeps the bounding box", nm), if x.is_finite() { x.eq(y) } else { bx(x.is_pinf() == y.is_pinf() && x.is_ninf() == y.is_ninf()) });
        }
    }
    let a: f64 = sym("x");
    let b: f64 = if choose_bool("near") { f64::from_ex(ex(a) + ex(sym_scaled::<f64>("gap", -3.0, 3.0))) } else { sym("y") };
    let r = val("within_vicinity", call(|| s2.within_vicinity(a, b)));
    let d = (ex(a) - ex(b)).abs();
    if r { ensure(&format!("{}: numbers reported within tolerance differ by at most the tolerance", nm), d.le(ex(tol(&s2)))); }
    else { ensure(&format!("{}: numbers reported apart differ by more than the tolerance", nm), d.gt(ex(tol(&s2)))); }
}

pub fn units(us: &mut Units) {
    s01(us);
    s12(us);
    s02(us);
    s03(us);
    s04(us);
    s05(us);
    s06(us);
    s07(us);
    s09(us);
    s10(us);
}

fn s01(us: &mut Units) {
    let mut t = vec![];
    for (m, ty) in [("sphere", "Sphere"), ("rbox", "RecBox"), ("point", "Point3"), ("line", "Line3"), ("ray", "Ray3"), ("plane", "Plane")] {
        t.push(init_of(m, ty));
        t.push(shape_of(m, ty, "get_shape_data"));
        t.push(shape_of(m, ty, "get_type"));
    }
    let tr: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
    us.u("shape/data", &["S01"], &tr, || {
        use_contracts(&[NORMALIZE]);
        let (a, b): ([f64; 3], [f64; 3]) = (symn("a"), symn("b"));
        let r: f64 = sym("size");
        let (ea, eb, er) = (exn(&a), exn(&b), ex(r));
        match choose("shape", 6) {
            0 => {
                let s = val("Sphere::init", call(|| Sphere::init(&a, r)));
                kind("sphere", &s, |k| matches!(k, ShapeType::Sphere));
                has_data("sphere", &s, &[ea[0], ea[1], ea[2], er]);
            }
            1 => {
                let s = val("RecBox::init", call(|| RecBox::init(&a, r)));
                kind("box", &s, |k| matches!(k, ShapeType::Box));
                has_data("box", &s, &[ea[0], ea[1], ea[2], er]);
            }
            2 => {
                let s = val("Point3::init", call(|| Point3::init(&a)));
                kind("point", &s, |k| matches!(k, ShapeType::Point));
                has_data("point", &s, &ea);
            }
            3 => {
                let s = val("Line3::init", call(|| Line3::init(&a, &b)));
                kind("segment", &s, |k| matches!(k, ShapeType::Line));
                has_data("segment", &s, &[ea[0], ea[1], ea[2], eb[0], eb[1], eb[2]]);
            }
            4 => {
                assume_nz("direction", &eb);
                let s = val("Ray3::init", call(|| Ray3::init(&a, &b)));
                kind("ray", &s, |k| matches!(k, ShapeType::Ray));
                let d = exn(&s.get_shape_data());
                ensure("ray: six numbers", bx(d.len() == 6));
                ensure("ray: keeps its origin", eqn(&d[0..3], &ea));
                turned("ray", &d[3..6], &eb);
            }
            _ => {
                assume_nz("normal", &eb);
                let s = val("Plane::init", call(|| Plane::init(&a, &b)));
                kind("plane", &s, |k| matches!(k, ShapeType::Plane));
                let d = exn(&s.get_shape_data());
                ensure("plane: six numbers", bx(d.len() == 6));
                ensure("plane: keeps its offset", eqn(&d[0..3], &ea));
                turned("plane", &d[3..6], &eb);
            }
        }
    });
    let tp = [init_of("triprism", "TriPrism"), shape_of("triprism", "TriPrism", "get_shape_data"), shape_of("triprism", "TriPrism", "get_type")];
    us.u("shape/data/prism", &["S01"], &[&tp[0], &tp[1], &tp[2]], || {
        let v: [f64; 9] = symn("base");
        let h: f64 = sym("height");
        let e = exn(&v);
        let (d1, d2) = (sub3(ex3(&v[3..6]), ex3(&v[0..3])), sub3(ex3(&v[6..9]), ex3(&v[0..3])));
        let x = cross3(d1, d2);
        assume_nonzero("base", &x);
        let p = val("TriPrism::init", call(|| TriPrism::init(&v, h)));
        kind("prism", &p, |k| matches!(k, ShapeType::TriPrism));
        let d = exn(&p.get_shape_data());
        ensure("prism: twelve numbers", bx(d.len() == 12));
        ensure("prism: keeps its base", eqn(&d[0..9], &e));
        for k in 0..3 { for i in 0..3 { ensure("prism: near face is the base", ex(p._tri_base[k]._val[i]).eq(e[3 * k + i])); } }
        let len = dot3(x, x).sqrt();
        for i in 0..3 {
            // height times the right-handed unit normal
            ensure("prism: extruded along the unit normal by the height", (d[9 + i] * len).eq(ex(h) * x[i]));
            for k in 0..3 { ensure("prism: far face is the base moved by the height", ex(p._tri_base2[k]._val[i]).eq(e[3 * k + i] + d[9 + i])); }
        }
    });
    us.merged();
    us.u("shape/lengths", &["S01"], &[&tp[0], tr[0], tr[3], tr[6], tr[9], tr[12], tr[15]], || {
        let good = [1.0, 2.0, 3.0];
        // all short lists, and lists as long as a short one in an 8- or 16-bit count
        let k = choose("length", 49) as usize;
        let n = if k < 41 { k } else { [256 + 3, 256 + 9, 512 + 3, 512 + 9, 65536 + 3, 65536 + 9, 131072 + 3, 131072 + 9][k - 41] };
        let v: Vec<f64> = (0..n).map(|i| ((i * i) % 5) as f64 + i as f64).collect();
        if n != 9 { refused("TriPrism::init", call(|| TriPrism::init(&v, 1.0))); }
        if n != 3 {
            refused("Sphere::init", call(|| Sphere::init(&v, 1.0)));
            refused("RecBox::init", call(|| RecBox::init(&v, 1.0)));
            refused("Point3::init", call(|| Point3::init(&v)));
            refused("Line3::init", call(|| Line3::init(&v, &good)));
            refused("Line3::init", call(|| Line3::init(&good, &v)));
            refused("Ray3::init", call(|| Ray3::init(&v, &good)));
            refused("Ray3::init", call(|| Ray3::init(&good, &v)));
            refused("Plane::init", call(|| Plane::init(&v, &good)));
            refused("Plane::init", call(|| Plane::init(&good, &v)));
        }
    });
    us.bounded("lists of 0 to 40, 259, 265, 515, 521, 65539, 65545, 131075 and 131081 coordinates");
}

fn s12(us: &mut Units) {
    let mut t = vec![];
    for (m, ty) in [("sphere", "Sphere"), ("rbox", "RecBox"), ("point", "Point3"), ("line", "Line3"), ("ray", "Ray3"), ("plane", "Plane")] {
        t.push(init_of(m, ty));
        t.push(vic_of(m, ty, "set_vicinity"));
        t.push(vic_of(m, ty, "within_vicinity"));
    }
    let tr: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
    us.u("shape/vicinity", &["S12"], &tr, || {
        use_contracts(&[NORMALIZE]);
        let (a, b): ([f64; 3], [f64; 3]) = (symn("a"), symn("b"));
        match choose("shape", 6) {
            0 => vicinity("sphere", val("init", call(|| Sphere::init(&a, b[0]))), |s| s._vicinity),
            1 => vicinity("box", val("init", call(|| RecBox::init(&a, b[0]))), |s| s._vicinity),
            2 => vicinity("point", val("init", call(|| Point3::init(&a))), |s| s._vicinity),
            3 => vicinity("segment", val("init", call(|| Line3::init(&a, &b))), |s| s._vicinity),
            4 => { assume_nz("direction", &exn(&b)); vicinity("ray", val("init", call(|| Ray3::init(&a, &b))), |s| s._vicinity) }
            _ => { assume_nz("normal", &exn(&b)); vicinity("plane", val("init", call(|| Plane::init(&a, &b))), |s| s._vicinity) }
        }
    });
    us.u("shape/vicinity/prism", &["S12"], &[&init_of("triprism", "TriPrism"), &vic_of("triprism", "TriPrism", "set_vicinity"), &vic_of("triprism", "TriPrism", "within_vicinity")], || {
        use_contracts(&[NORMALIZE]);
        let v: [f64; 9] = symn("base");
        let h: f64 = sym("height");
        let (d1, d2) = (sub3(ex3(&v[3..6]), ex3(&v[0..3])), sub3(ex3(&v[6..9]), ex3(&v[0..3])));
        assume_nz("base", &cross3(d1, d2));
        vicinity("prism", val("init", call(|| TriPrism::init(&v, h))), |s| s._vicinity);
    });
    us.merged();
}

fn s02(us: &mut Units) {
    let g = |t: &str, ty: &str| shape_of(t, ty, "get_intersect");
    let gp = g("point", "Point3");
    us.u("point/in/sphere", &["S02"], &[&g("sphere", "Sphere"), &gp], || {
        let (s, o) = mk_sphere("sphere", nonneg("radius"));
        let p: [f64; 3] = symn("p");
        let r = ask(&s, &mk_point(p));
        let d = sub3(ex3(&p), o);
        exact("point in sphere", &r, dot3(d, d).le(ex(s._radius) * ex(s._radius)));
        if r.0 { ensure("point in sphere: location is the point", eq3(loc(&r), ex3(&p))); }
    });
    us.u("point/in/box", &["S02"], &[&g("rbox", "RecBox"), &gp], || {
        let o: [f64; 3] = symn("center");
        let s = nonneg("size");
        let b = val("RecBox::init", call(|| RecBox::init(&o, s)));
        let p: [f64; 3] = symn("p");
        let r = ask(&b, &mk_point(p));
        let d = sub3(ex3(&p), ex3(&o));
        exact("point in box", &r, all(&d.iter().map(|x| x.le(ex(s)) & x.ge(-ex(s))).collect::<Vec<_>>()));
        if r.0 { ensure("point in box: location is the point", eq3(loc(&r), ex3(&p))); }
    });
    us.u("point/on/plane", &["S02"], &[&g("plane", "Plane"), &gp], || {
        use_contracts(&[NORMALIZE]);
        let (mut s, o, n) = mk_plane("plane");
        s.set_vicinity(sym("tolerance"));
        let p: [f64; 3] = if choose_bool("near") {
            // a point given by its distance from the plane
            let (q, t): ([f64; 3], f64) = (symn("q"), sym_scaled("t", -2.0, 2.0));
            let k = dot3(sub3(ex3(&q), o), n);
            let m = add3(sub3(ex3(&q), scale3(n, k)), scale3(n, ex(t)));
            [f64::from_ex(m[0]), f64::from_ex(m[1]), f64::from_ex(m[2])]
        } else { symn("p") };
        let r = ask(&s, &mk_point(p));
        exact("point on plane", &r, dot3(sub3(ex3(&p), o), n).abs().le(ex(s._vicinity)));
        if r.0 { ensure("point on plane: location is the point", eq3(loc(&r), ex3(&p))); }
    });
    us.u("point/point", &["S02"], &[&gp], || {
        let a: [f64; 3] = symn("a");
        let b: [f64; 3] = symn("b");
        let mut s = mk_point(a);
        s.set_vicinity(sym("tolerance"));
        let same = choose_bool("same");
        let r = ask1(&s, &mk_point(if same { a } else { b }));
        if same { ensure("point point: a point coincides with itself", bx(r.0)); }
        if r.0 {
            let d = sub3(ex3(&a), if same { ex3(&a) } else { ex3(&b) });
            for i in 0..3 { ensure("point point: coinciding points are within tolerance", d[i].abs().le(ex(s._vicinity))); }
            ensure("point point: location is the point", eq3(loc(&r), ex3(&a)));
        }
    });
}

fn s03(us: &mut Units) {
    let g = |t: &str, ty: &str| shape_of(t, ty, "get_intersect");
    us.u("sphere/sphere", &["S03"], &[&g("sphere", "Sphere")], || {
        let (ra, rb) = (positive("ra"), positive("rb"));
        let ((a, oa), (b, ob)) = (mk_sphere("a", ra), mk_sphere("b", rb));
        let r = ask1(&a, &b);
        let cc = sub3(ob, oa);
        let (x, y, s) = (ex(ra), ex(rb), ex(ra) + ex(rb));
        let d2 = dot3(cc, cc);
        exact("spheres", &r, d2.le(s * s));
        if r.0 {
            let l = loc(&r);
            let (la, lb) = (sub3(l, oa), sub3(l, ob));
            for i in 0..3 {
                lemma("spheres: location divides the center line by the radii", (la[i] * s).eq(cc[i] * x));
                lemma("spheres: location divides the center line by the radii (b)", (lb[i] * s).eq(-(cc[i] * y)));
            }
            lemma("spheres: distance from a", (dot3(la, la) * s * s).eq(d2 * x * x));
            lemma("spheres: distance from b", (dot3(lb, lb) * s * s).eq(d2 * y * y));
            let (qa, qb) = (ghost("qa", dot3(la, la)), ghost("qb", dot3(lb, lb)));
            let q = ghost("q", d2);
            let base = [q.le(s * s), x.gt(c(0.0)), y.gt(c(0.0))];
            let f = [(qa * s * s).eq(q * x * x), base[0], base[1], base[2]];
            lemma_from("spheres: location in the first", &f, qa.le(x * x));
            let f = [(qb * s * s).eq(q * y * y), base[0], base[1], base[2]];
            lemma_from("spheres: location in the second", &f, qb.le(y * y));
            ensure("spheres: location lies in both", dot3(la, la).le(x * x) & dot3(lb, lb).le(y * y));
        }
    });
    us.u("sphere/plane", &["S03"], &[&g("sphere", "Sphere"), &g("plane", "Plane")], || {
        use_contracts(&[NORMALIZE]);
        let (s, o) = mk_sphere("sphere", positive("radius"));
        let (p, off, n) = mk_plane("plane");
        let r = ask(&s, &p);
        let t = dot3(n, sub3(o, off));
        let rad = ex(s._radius);
        exact("sphere plane", &r, t.abs().le(rad));
        if r.0 {
            let l = loc(&r);
            ensure("sphere plane: location is the foot of the perpendicular", eq3(l, sub3(o, scale3(n, t))));
            ensure("sphere plane: location is on the plane", dot3(n, sub3(l, off)).eq(c(0.0)));
            let q = sub3(l, o);
            lemma("sphere plane: distance of the location", dot3(q, q).eq(t * t));
            ensure("sphere plane: location is in the sphere", dot3(q, q).le(rad * rad));
        }
    });
}

fn s04(us: &mut Units) {
    let g = |t: &str, ty: &str| shape_of(t, ty, "get_intersect");
    us.u("ray/sphere", &["S04"], &[&g("ray", "Ray3"), &g("sphere", "Sphere")], || {
        use_contracts(&[NORMALIZE]);
        let (ray, o, u) = mk_ray("ray");
        let (s, m) = mk_sphere("sphere", nonneg("radius"));
        let rad = ex(s._radius);
        let rel = sub3(o, m);
        let (b, k) = (dot3(rel, u), dot3(rel, rel) - rad * rad);
        let dd = b * b - k;
        if !symbolic() {
            let r = ask(&ray, &s);
            let far = dd.sqrt() - b;
            exact("ray sphere", &r, dd.ge(c(0.0)) & far.ge(c(0.0)));
            if r.0 {
                let t = ite((-b - dd.sqrt()).ge(c(0.0)), -b - dd.sqrt(), far);
                ensure("ray sphere: location is the first surface point", eq3(loc(&r), along(o, t, u)));
            }
            return;
        }
        alias(dot3(u, u), c(1.0));
        let (bb, qq) = (abbrev("b", b), abbrev("rel2", dot3(rel, rel)));
        let at = |t: Ex| t * t + c(2.0) * bb * t + qq;
        let r = ask(&ray, &s);
        let q = ex(sym_scaled::<f64>("q", 0.0, 10.0));
        assume(q.ge(c(0.0)));
        let on = |t: Ex| { let p = sub3(along(o, t, u), m); dot3(p, p).eq(rad * rad) };
        let pq = sub3(along(o, q, u), m);
        rewrite("ray sphere: distance polynomial", dot3(pq, pq), at(q));
        let g = [ghost("x", pq[0]), ghost("y", pq[1]), ghost("z", pq[2])];
        for i in 0..3 { lemma_from("ray sphere: on every axis a surface point is within a radius", &[rad.ge(c(0.0))], implies(dot3(g, g).eq(rad * rad), g[i].abs().le(rad))); }
        for i in 0..3 { lemma("ray sphere: on every axis a surface point is within a radius", implies(at(q).eq(rad * rad), pq[i].abs().le(rad))); }
        if !r.0 {
            ensure("ray sphere: a ray with a surface point is reported", !on(q));
        } else {
            let l = loc(&r);
            let t = dot3(sub3(l, o), u);
            ensure("ray sphere: location is on the ray", eq3(l, along(o, t, u)));
            lemma("ray sphere: location is not behind the origin", t.ge(c(0.0)));
            let d = sub3(l, m);
            lemma("ray sphere: distance polynomial", dot3(d, d).eq(at(t)));
            lemma("ray sphere: location solves the distance polynomial", at(t).eq(rad * rad));
            ensure("ray sphere: location is on the surface", dot3(d, d).eq(rad * rad));
            ensure("ray sphere: no surface point is nearer", implies(q.lt(t), !on(q)));
        }
    });
}

fn s05(us: &mut Units) {
    let g = |t: &str, ty: &str| shape_of(t, ty, "get_intersect");
    us.u("ray/plane", &["S05"], &[contracts::RAY_PLANE, &g("ray", "Ray3"), &g("plane", "Plane")], || {
        use_contracts(&[NORMALIZE]);
        let (p, off, n) = mk_plane("plane");
        let (ray, o, u) = mk_ray("ray");
        let r = ask(&ray, &p);
        let (den, num) = (dot3(n, u), dot3(n, sub3(off, o)));
        let z = c(0.0);
        exact("ray plane", &r, (den.eq(z) & num.eq(z)) | (den.lt(z) & num.le(z)));
        if r.0 {
            let l = loc(&r);
            let t = dot3(sub3(l, o), u);
            ensure("ray plane: location is on the ray", eq3(l, along(o, t, u)));
            ensure("ray plane: location is not behind the origin", t.ge(z));
            ensure("ray plane: location is on the plane", dot3(n, sub3(l, off)).eq(z));
            ensure("ray plane: a ray in the plane meets it at its origin", implies(den.eq(z), eq3(l, o)));
        }
    });
}

fn coarse(x: f64) -> bool { (x * 4.0).fract() == 0.0 && x.abs() < 1e6 }
fn s06(us: &mut Units) {
    let g = |t: &str, ty: &str| shape_of(t, ty, "get_intersect");
    us.u("ray/point/on", &["S06"], &[&g("ray", "Ray3"), &g("point", "Point3")], || {
        use_contracts(&[NORMALIZE]);
        let (mut ray, o, u) = mk_ray("ray");
        let own = choose_bool("own tolerance");
        if own { ray.set_vicinity(sym("tolerance")); }
        let t = ex(sym_scaled::<f64>("t", 0.0, 10.0));
        if own && !symbolic() {
            // only inputs on which machine arithmetic is exact
            let f = |x: Ex| f64::from_ex(x);
            if (0..3).filter(|i| f(u[*i]) == 0.0).count() != 2 || (0..3).any(|i| !coarse(f(o[i]))) || !coarse(f(t)) { stop_path() }
        }
        assume(t.ge(c(0.0)));
        let e = along(o, t, u);
        let p = [f64::from_ex(e[0]), f64::from_ex(e[1]), f64::from_ex(e[2])];
        for i in 0..3 { lemma("ray point: the point is not behind on any axis", implies(u[i].ge(c(0.0)), e[i].ge(o[i])) & implies(u[i].le(c(0.0)), e[i].le(o[i]))); }
        lemma("ray point: distance along the ray", dot3(sub3(e, o), u).eq(t));
        let r = ask(&ray, &mk_point(p));
        ensure("ray point: a point on the ray is reported", bx(r.0));
        if r.0 { ensure("ray point: at the point", eq3(loc(&r), e)); }
    });
    us.u("ray/point", &["S06"], &[&g("ray", "Ray3"), &g("point", "Point3")], || {
        use_contracts(&[NORMALIZE]);
        let (mut ray, o, u) = mk_ray("ray");
        if choose_bool("own tolerance") { ray.set_vicinity(sym("tolerance")); }
        let p: [f64; 3] = if choose_bool("near") && !symbolic() {
            let e = add3(along(o, ex(sym_scaled::<f64>("t", -3.0, 10.0)), u), ex3(&symn::<f64, 3>("gap")));
            [f64::from_ex(e[0]), f64::from_ex(e[1]), f64::from_ex(e[2])]
        } else { symn("p") };
        let r = ask(&ray, &mk_point(p));
        if r.0 {
            let l = loc(&r);
            let t = dot3(sub3(l, o), u);
            ensure("ray point: location is on the ray", eq3(l, along(o, t, u)));
            ensure("ray point: location is not behind the origin", t.ge(c(0.0)));
            for i in 0..3 { ensure("ray point: location is within tolerance of the point", (l[i] - ex(p[i])).abs().le(ex(ray._vicinity))); }
        }
    });
}

pub fn abbrev3(nm: &str, v: V3) -> V3 { [abbrev(nm, v[0]), abbrev(nm, v[1]), abbrev(nm, v[2])] }
fn f3(e: V3) -> [f64; 3] { [f64::from_ex(e[0]), f64::from_ex(e[1]), f64::from_ex(e[2])] }
fn s07(us: &mut Units) {
    let g = shape_of("ray", "Ray3", "get_intersect");
    let different = |v: V3| any(&[v[0].abs().gt(c(0.0001)), v[1].abs().gt(c(0.0001)), v[2].abs().gt(c(0.0001))]);
    // rays whose lines cross at one point
    us.u("ray/ray/crossing", &["S07"], &[&g], move || {
        use_contracts(&[NORMALIZE]);
        let (mut a, oa, ua) = mk_ray("a");
        a.set_vicinity(nonneg("tolerance"));
        let (t, s) = (ex(sym_scaled::<f64>("t", -3.0, 10.0)), ex(sym_scaled::<f64>("s", -3.0, 10.0)));
        let db = direction("b.direction");
        let (probe, _, ub) = mk_ray_from("b", [0.0; 3], db);
        let x = along(oa, t, ua);
        let v = abbrev3("v", cross3(ua, ub));
        assume(different(v));
        let vv = abbrev("vv", dot3(v, v));
        lemma("crossing rays: directions differ", dot3(v, v).gt(c(0.0)));
        lemma("crossing rays: directions differ", vv.gt(c(0.0)));
        let off = sub3(scale3(ua, t), scale3(ub, s));
        rewrite("crossing rays: parameter on the first", dot3(cross3(off, ub), v), t * vv);
        rewrite("crossing rays: parameter on the second", dot3(cross3(off, ua), v), s * vv);
        let (b, ob, _) = mk_ray_from("b", f3(sub3(x, scale3(ub, s))), db);
        let r = ask1(&a, &b);
        let z = c(0.0);
        let shared = t.ge(z) & s.ge(z);
        exact("crossing rays", &r, shared);
        if r.0 { ensure("crossing rays: location is the crossing", eq3(loc(&r), x)); }
    });
    us.merged();
    // any two rays with clearly different directions
    us.u("ray/ray/skew", &["S07"], &[&g], move || {
        use_contracts(&[NORMALIZE]);
        let ((mut a, oa, ua), (b, ob, ub)) = (mk_ray("a"), mk_ray("b"));
        a.set_vicinity(nonneg("tolerance"));
        let v = abbrev3("v", cross3(ua, ub));
        assume(different(v));
        alias(dot3(ua, ua), c(1.0));
        let trip = abbrev("triple", dot3(v, sub3(ob, oa)));
        let r = ask1(&a, &b);
        if r.0 {
            ensure("skew rays: triple product within tolerance", dot3(v, sub3(ob, oa)).abs().le(ex(a._vicinity)));
            let l = loc(&r);
            let t = dot3(sub3(l, oa), ua);
            ensure("skew rays: location is on the first ray", eq3(l, along(oa, t, ua)));
            ensure("skew rays: location is not behind the first origin", t.ge(c(0.0)));
        }
    });
    us.merged();
    us.u("ray/ray/parallel", &["S07"], &[&g], move || {
        use_contracts(&[NORMALIZE]);
        let (mut a, oa, ua) = mk_ray("a");
        a.set_vicinity(nonneg("tolerance"));
        let da = direction("a.direction");
        let k = ex(sym_scaled::<f64>("scale", 0.0, 4.0));
        assume(k.gt(c(0.0)));
        let opp = choose_bool("opposite");
        let k = if opp { -k } else { k };
        let dbv = abbrev3("b.direction", scale3(ex3(&da), k));
        for i in 0..3 {
            let e = if opp { -ex(da[i]) } else { ex(da[i]) };
            lemma("second direction has the sign of the first or its opposite", iff(dbv[i].gt(c(0.0)), e.gt(c(0.0))) & iff(dbv[i].lt(c(0.0)), e.lt(c(0.0))));
        }
        let db = f3(dbv);
        assume_nz("b.direction", &exn(&db));
        let collinear = choose_bool("collinear");
        let pos = ex(sym_scaled::<f64>("position", -10.0, 10.0));
        let ob: [f64; 3] = if collinear { f3(along(oa, pos, ua)) } else { symn("b.origin") };
        let obv = ob;
        let (b, ob, ub) = mk_ray_from("b", ob, db);
        if symbolic() {
            let (ka, kb) = (dot3(ua, ex3(&da)), dot3(ub, ex3(&db)));
            lemma("a: length", ka.gt(c(0.0)) & eq3(scale3(ua, ka), ex3(&da)));
            lemma("b: length", kb.gt(c(0.0)) & eq3(scale3(ub, kb), ex3(&db)));
            let (ma, mb) = (ghost("ma", ka), ghost("mb", kb));
            for i in 0..3 {
                let (e, f, g) = (ex(da[i]), ub[i] * kb, ua[i] * ka);
                lemma_from("a: length", &[ma.eq(ka), g.eq(e)], (ua[i] * ma).eq(e));
                lemma_from("b: length", &[mb.eq(kb), f.eq(dbv[i])], (ub[i] * mb).eq(dbv[i]));
                lemma_from("b: multiple of the first", &[(ub[i] * mb).eq(dbv[i]), (ua[i] * ma).eq(e)], (ub[i] * mb).eq(ua[i] * (ma * k)));
            }
            lemma("b: squared length", (mb * mb).eq(k * k * ma * ma));
            let want = if opp { -(k * ma) } else { k * ma };
            lemma_from("lengths in proportion", &[(mb * mb).eq(k * k * ma * ma), ma.gt(c(0.0)), mb.gt(c(0.0)), if opp { k.lt(c(0.0)) } else { k.gt(c(0.0)) }], mb.eq(want));
            for i in 0..3 {
                let e = if opp { -ua[i] } else { ua[i] };
                lemma_from("unit directions are the same up to sign", &[mb.gt(c(0.0)), mb.eq(want), (ub[i] * mb).eq(ua[i] * (ma * k))], ub[i].eq(e));
                alias(ub[i], e);
            }
            alias(dot3(ua, ua), c(1.0));
            if collinear {
                let d = sub3(ex3(&obv), oa);
                rewrite("offset along the first ray", dot3(d, ua), pos);
                rewrite("squared offset", dot3(d, d), pos * pos);
            } else {
                let w = cross3(ua, sub3(ex3(&obv), oa));
                abbrev("area", dot3(w, w));
            }
        }
        let r = ask1(&a, &b);
        let z = c(0.0);
        if collinear {
            // the rays overlap unless they point away from each other
            let overlap = bx(!opp) | pos.ge(z);
            exact("collinear rays", &r, overlap);
            if r.0 {
                let l = loc(&r);
                let (t, s) = (dot3(sub3(l, oa), ua), dot3(sub3(l, ob), ub));
                ensure("collinear rays: location is on the first", eq3(l, along(oa, t, ua)) & t.ge(z));
                ensure("collinear rays: location is on the second", eq3(l, along(ob, s, ub)) & s.ge(z));
            }
        } else {
            let w = cross3(ua, sub3(ob, oa));
            let tol = ex(a._vicinity);
            if r.0 { ensure("parallel rays: not farther apart than tolerance", dot3(w, w).le(tol * tol)); }
        }
    });
    us.merged();
}

/// what a shape shows to its users
fn shown(nm: &str, s: &dyn IShape) -> Vec<Ex> {
    let mut v = exn(&s.get_shape_data());
    let b = data(nm, s);
    v.extend(b.0.iter().chain(b.1.iter()));
    v
}
/// asks in both orders
pub fn both(nm: &str, a: &dyn IShape, b: &dyn IShape) {
    let (sa, sb) = (shown(nm, a), shown(nm, b));
    let r = ask1(a, b);
    let q = ask1(b, a);
    ensure(&format!("{}: the answer does not depend on the order", nm), bx(r.0 == q.0));
    if r.0 && q.0 { ensure(&format!("{}: the location does not depend on the order", nm), eq3(loc(&r), loc(&q))); }
    ensure(&format!("{}: asking changes neither shape", nm), eqn(&sa, &shown(nm, a)) & eqn(&sb, &shown(nm, b)));
}
/// a prism with a base that is not degenerate and positive height
pub fn mk_prism(nm: &str) -> (TriPrism, [V3; 3], Ex) {
    let v: [f64; 9] = symn(&format!("{}.base", nm));
    let h = positive(&format!("{}.height", nm));
    let t = [ex3(&v[0..3]), ex3(&v[3..6]), ex3(&v[6..9])];
    assume_nz("base", &cross3(sub3(t[1], t[0]), sub3(t[2], t[0])));
    (val("TriPrism::init", call(|| TriPrism::init(&v, h))), t, ex(h))
}
/// a point near a shape for the replay, any point for the verifier
fn near_point(nm: &str, o: V3, u: V3, far: f64) -> [f64; 3] {
    if !symbolic() && choose_bool("near") { f3(add3(along(o, ex(sym_scaled::<f64>(&format!("{}.t", nm), -far, far)), u), scale3(ex3(&symn::<f64, 3>(&format!("{}.gap", nm))), c(0.1)))) } else { symn(nm) }
}
fn s09(us: &mut Units) {
    let g = |t: &str, ty: &str| shape_of(t, ty, "get_intersect");
    let z3 = || [c(0.0); 3];
    us.u("order/sphere-point", &["S09"], &[&g("sphere", "Sphere"), &g("point", "Point3")], move || {
        let (s, o) = mk_sphere("sphere", nonneg("radius"));
        both("sphere and point", &s, &mk_point(near_point("p", o, [c(1.0); 3], 4.0)));
    });
    us.u("order/box-point", &["S09"], &[&g("rbox", "RecBox"), &g("point", "Point3")], move || {
        let o: [f64; 3] = symn("center");
        let b = val("RecBox::init", call(|| RecBox::init(&o, nonneg("size"))));
        both("box and point", &b, &mk_point(near_point("p", ex3(&o), [c(1.0); 3], 4.0)));
    });
    us.u("order/plane-point", &["S09"], &[&g("plane", "Plane"), &g("point", "Point3")], move || {
        use_contracts(&[NORMALIZE]);
        let (mut s, o, n) = mk_plane("plane");
        s.set_vicinity(sym("tolerance"));
        both("plane and point", &s, &mk_point(near_point("p", o, n, 1.0)));
    });
    us.u("order/sphere-plane", &["S09"], &[&g("sphere", "Sphere"), &g("plane", "Plane")], move || {
        use_contracts(&[NORMALIZE]);
        let (s, o) = mk_sphere("sphere", nonneg("radius"));
        both("sphere and plane", &s, &mk_plane("plane").0);
    });
    us.u("order/ray-plane", &["S09"], &[&g("ray", "Ray3"), &g("plane", "Plane")], move || {
        use_contracts(&[NORMALIZE]);
        both("ray and plane", &mk_ray_plain("ray").0, &mk_plane("plane").0);
    });
    us.merged();
    us.u("order/ray-sphere", &["S09"], &[&g("ray", "Ray3"), &g("sphere", "Sphere")], move || {
        use_contracts(&[NORMALIZE]);
        let (s, o) = mk_sphere("sphere", nonneg("radius"));
        both("ray and sphere", &mk_ray_plain("ray").0, &s);
    });
    us.merged();
    us.u("order/ray-point", &["S09"], &[&g("ray", "Ray3"), &g("point", "Point3")], move || {
        use_contracts(&[NORMALIZE]);
        let (mut ray, o, u) = mk_ray_plain("ray");
        ray.set_vicinity(sym("tolerance"));
        both("ray and point", &ray, &mk_point(near_point("p", o, u, 9.0)));
    });
    us.merged();
    us.u("order/prism-point", &["S09"], &[&g("triprism", "TriPrism"), &g("point", "Point3")], move || {
        use_contracts(&[NORMALIZE]);
        let (s, t, _) = mk_prism("prism");
        let x = if symbolic() { z3() } else { sub3(t[1], t[0]) };
        both("prism and point", &s, &mk_point(near_point("p", t[0], x, 1.0)));
    });
    us.merged();
    us.u("order/prism-segment", &["S09"], &[&g("triprism", "TriPrism"), &g("line", "Line3")], move || {
        // (segments of zero length: prism/segment/point)
        if symbolic() { return prism::order_segment(); }
        let (s, t, _) = mk_prism("prism");
        let (x, y) = (sub3(t[1], t[0]), sub3(t[2], t[0]));
        let a = near_point("a", t[0], x, 1.0);
        let b = if choose_bool("single point") { a } else { near_point("b", t[0], y, 1.0) };
        both("prism and segment", &s, &val("Line3::init", call(|| Line3::init(&a, &b))));
    });
    us.merged();
}

fn s10(us: &mut Units) {
    let g = |t: &str, ty: &str| shape_of(t, ty, "get_support");
    us.u("support/sphere", &["S10"], &[&g("sphere", "Sphere")], || {
        use_contracts(&[NORMALIZE]);
        let (s, o) = mk_sphere("sphere", nonneg("radius"));
        let d = direction("direction");
        let e = ex3(&d);
        let r = ev(&some("get_support", call(|| s.get_support(&m3(d)))));
        let (rad, q) = (ex(s._radius), sub3(r, o));
        ensure("sphere: support point is in the sphere", dot3(q, q).le(rad * rad));
        // any other point of the ball
        let p = if symbolic() { ex3(&symn::<f64, 3>("p")) } else { along(o, rad * ex(sym_scaled::<f64>("k", -1.0, 1.0)), ex3(&sym_unit3::<f64>("w"))) };
        let w = sub3(p, o);
        assume(dot3(w, w).le(rad * rad));
        let len = dot3(q, e);
        lemma("sphere: the support point is along the direction", (dot3(q, e) * dot3(q, e)).eq(rad * rad * dot3(e, e)) & dot3(q, e).ge(c(0.0)));
        lemma_pure("Cauchy-Schwarz", (dot3(w, e) * dot3(w, e)).le(dot3(w, w) * dot3(e, e)));
        let (we, ww, ee, l) = (ghost("we", dot3(w, e)), ghost("ww", dot3(w, w)), ghost("ee", dot3(e, e)), ghost("l", len));
        let f = [(we * we).le(ww * ee), ww.le(rad * rad), (l * l).eq(rad * rad * ee), l.ge(c(0.0)), ee.gt(c(0.0))];
        lemma_from("sphere: no point is farther", &f, we.le(l));
        ensure("sphere: no point lies farther along the direction", dot3(p, e).le(dot3(r, e)));
    });
    us.u("support/box", &["S10"], &[&g("rbox", "RecBox")], || {
        let o: [f64; 3] = symn("center");
        let s = nonneg("size");
        let b = val("RecBox::init", call(|| RecBox::init(&o, s)));
        let d = direction("direction");
        let (e, z) = (ex3(&d), ex(s));
        let r = ev(&some("get_support", call(|| b.get_support(&m3(d)))));
        let q = sub3(r, ex3(&o));
        for i in 0..3 { ensure("box: support point is in the box", q[i].le(z) & q[i].ge(-z)); }
        let far = z * (e[0].abs() + e[1].abs() + e[2].abs());
        lemma("box: support point is a farthest corner", dot3(q, e).eq(far));
        if !symbolic() { ensure("box: no point lies farther along the direction", dot3(q, e).eq(far)); }
        // any other point of the cube
        let p: [f64; 3] = symn("p");
        let w = sub3(ex3(&p), ex3(&o));
        for i in 0..3 {
            assume(w[i].le(z) & w[i].ge(-z));
            lemma("box: one axis", (w[i] * e[i]).le(z * e[i].abs()));
        }
        ensure("box: no point lies farther along the direction", dot3(w, e).le(dot3(q, e)));
    });
    us.u("support/other", &["S10"], &[&g("rbox", "RecBox"), &g("sphere", "Sphere"), &g("point", "Point3"), &g("ray", "Ray3"), &g("plane", "Plane"), &g("triprism", "TriPrism")], || {
        use_contracts(&[NORMALIZE]);
        let d: [f64; 3] = symn("direction");
        let p: [f64; 3] = symn("p");
        let zero = m3([0.0; 3]);
        let r = ev(&some("get_support", call(|| mk_point(p).get_support(&m3(d)))));
        ensure("point: is its own support point", eq3(r, ex3(&p)));
        let s = nonneg("size");
        let (b, q) = (val("RecBox::init", call(|| RecBox::init(&p, s))), val("Sphere::init", call(|| Sphere::init(&p, s))));
        ensure("box: the zero direction has no support point", bx(matches!(call(|| b.get_support(&zero)), Ok(None))));
        ensure("sphere: the zero direction has no support point", bx(matches!(call(|| q.get_support(&zero)), Ok(None))));
        let t = TriPrism { _tri_base: [m3(p); 3], _tri_base2: [m3(d); 3], ..Default::default() };
        ensure("prism: the zero direction has no support point", bx(matches!(call(|| t.get_support(&zero)), Ok(None))));
        let (ray, plane) = (mk_ray("ray").0, mk_plane("plane").0);
        ensure("ray: has no support point", bx(matches!(call(|| ray.get_support(&m3(d))), Ok(None))));
        ensure("plane: has no support point", bx(matches!(call(|| plane.get_support(&m3(d))), Ok(None))));
    });
}
