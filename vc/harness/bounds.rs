//! axis-aligned boxes (B01, B02) and the bounding boxes of the shapes (B03)
use super::*;
use mazth::bound::{Axis, AxisAlignedBBox};
use mazth::i_bound::{BoundType, IBound};
use mazth::i_shape::{IShape, ShapeType};
use mazth::line::Line3;
use mazth::plane::Plane;
use mazth::point::Point3;
use mazth::ray::Ray3;
use mazth::rbox::RecBox;
use mazth::sphere::Sphere;
use mazth::triprism::TriPrism;

type OnNext = Box<dyn Fn(bool)>;
thread_local! {
    static NEXT: std::cell::RefCell<Option<OnNext>> = std::cell::RefCell::new(None);
}
/// the loop of get_union over the boxes it is given
const AT_NEXT: &str = "<core::slice::iter::Iter<&dyn mazth::i_bound::IBound> as core::iter::traits::iterator::Iterator>::next";
#[export_name = "after:<core::slice::iter::Iter<&dyn mazth::i_bound::IBound> as core::iter::traits::iterator::Iterator>::next"]
pub fn after_next<'a>(r: Option<&'a &'a dyn IBound>, _it: &mut std::slice::Iter<'a, &'a dyn IBound>) -> Option<&'a &'a dyn IBound> {
    NEXT.with(|h| if let Some(f) = &*h.borrow() { f(r.is_some()) });
    r
}

const BB: &str = "mazth::bound::AxisAlignedBBox";
fn ib(m: &str) -> String { format!("<{} as mazth::i_bound::IBound>::{}", BB, m) }

/// one side pair of a valid box: both finite with lower <= upper, or unbounded below / above / both
fn side(nm: &str, axis: usize, inf: bool) -> (f64, f64) {
    let k = if inf { choose(&format!("{} sides on axis {}", nm, axis), 4) } else { 0 };
    let l = if k == 1 || k == 3 { f64::NEG_INFINITY } else { sym(&format!("{}.lower.{}", nm, axis)) };
    let u = if k == 2 || k == 3 { f64::INFINITY } else { sym(&format!("{}.upper.{}", nm, axis)) };
    if k == 0 { assume(ex(l).le(ex(u))); }
    (l, u)
}
fn bbox(nm: &str, inf: [bool; 3]) -> AxisAlignedBBox {
    let s: Vec<(f64, f64)> = (0..3).map(|i| side(nm, i, inf[i])).collect();
    AxisAlignedBBox { _bound_lower: [s[0].0, s[1].0, s[2].0], _bound_upper: [s[0].1, s[1].1, s[2].1] }
}
fn bbox_k(nm: &str, k0: u32) -> AxisAlignedBBox {
    let b = bbox(nm, [true; 3]);
    let (l, u) = (ex(b._bound_lower[0]).is_finite(), ex(b._bound_upper[0]).is_finite());
    if [(true, true), (false, true), (true, false), (false, false)][k0 as usize] != (l, u) { stop_path() }
    b
}
/// [l0,u0] and [l1,u1] share a number
fn meet(a: &AxisAlignedBBox, b: &AxisAlignedBBox, i: usize) -> Bx {
    ex(a._bound_lower[i]).le(ex(b._bound_upper[i])) & ex(b._bound_lower[i]).le(ex(a._bound_upper[i]))
}
/// the six numbers of a shape's bounding box
pub fn data(nm: &str, s: &dyn IShape) -> ([Ex; 3], [Ex; 3]) {
    let b = s.get_bound();
    ensure(&format!("{}: bounding box is axis aligned", nm), bx(matches!(b.get_type(), BoundType::AxisAlignBox)));
    let d = b.get_bound_data();
    ([ex(d[0]), ex(d[1]), ex(d[2])], [ex(d[3]), ex(d[4]), ex(d[5])])
}
fn tight(nm: &str, b: &([Ex; 3], [Ex; 3]), i: usize, lo: Ex, hi: Ex) {
    ensure(&format!("{}: box is exactly as wide as the shape", nm), b.0[i].eq(lo) & b.1[i].eq(hi));
}

fn same(a: f64, b: f64) -> Bx {
    let (a, b) = (ex(a), ex(b));
    if a.is_finite() && b.is_finite() { a.eq(b) } else { bx(a.is_pinf() == b.is_pinf() && a.is_ninf() == b.is_ninf() && !a.is_nan() && !b.is_nan()) }
}
/// machine arithmetic: lists of up to 69 boxes
fn some_lists() {
    let n = choose("boxes", 70) as usize;
    let bs: Vec<AxisAlignedBBox> = (0..n).map(|b| {
        let s: Vec<(f64, f64)> = (0..3).map(|i| {
            let k = choose(&format!("box{} sides on axis {}", b, i), 12);
            let l: f64 = sym(&format!("box{}.lower.{}", b, i));
            let w: f64 = sym(&format!("box{}.extent.{}", b, i));
            (if k == 1 || k == 3 { f64::NEG_INFINITY } else { l }, if k == 2 || k == 3 { f64::INFINITY } else { l + w.abs() })
        }).collect();
        AxisAlignedBBox { _bound_lower: [s[0].0, s[1].0, s[2].0], _bound_upper: [s[0].1, s[1].1, s[2].1] }
    }).collect();
    let refs: Vec<&dyn IBound> = bs.iter().map(|x| x as &dyn IBound).collect();
    let mut r = AxisAlignedBBox { _bound_lower: symn("old.lower"), _bound_upper: symn("old.upper") };
    val("get_union", call(|| r.get_union(&refs)));
    for i in 0..3 {
        let lo = bs.iter().map(|b| b._bound_lower[i]).fold(f64::INFINITY, f64::min);
        let hi = bs.iter().map(|b| b._bound_upper[i]).fold(f64::NEG_INFINITY, f64::max);
        ensure("get_union: the smallest box that contains all", bx(lo == r._bound_lower[i] && hi == r._bound_upper[i]));
    }
}

pub fn units(us: &mut Units) {
    let inter = ib("intersect");
    let gbd = ib("get_bound_data");
    // ---- B01.  Every kind of sides of both boxes on every axis; one unit per kind on the first axis of the first box
    for k0 in 0..4u32 {
        us.u(&format!("bound/intersect/kind{}", k0), &["B01"], &[&inter, &gbd], move || {
            let (a, b) = (bbox_k("a", k0), bbox("b", [true; 3]));
            let r = val("intersect", call(|| a.intersect(&b)));
            let m = meet(&a, &b, 0) & meet(&a, &b, 1) & meet(&a, &b, 2);
            if r {
                ensure("intersect: boxes reported as overlapping share a point", m);
            } else {
                ensure("intersect: boxes reported as apart share no point", !m);
            }
            let s = val("intersect", call(|| b.intersect(&a)));
            ensure("intersect: does not depend on the order", bx(r == s));
        });
    }
    // ---- B02
    let un = ib("get_union");
    for n in 0..5usize {
        us.u(&format!("bound/union/{}", n), &["B02"], &[&un, &gbd], move || {
            let inf = [n <= 2 && n > 0, false, false];
            let bs: Vec<AxisAlignedBBox> = (0..n).map(|i| bbox(&format!("box{}", i), inf)).collect();
            let refs: Vec<&dyn IBound> = bs.iter().map(|x| x as &dyn IBound).collect();
            // the receiver starts with arbitrary content
            let (l, u): ([f64; 3], [f64; 3]) = (symn("old.lower"), symn("old.upper"));
            let mut r = AxisAlignedBBox { _bound_lower: l, _bound_upper: u };
            val("get_union", call(|| r.get_union(&refs)));
            for i in 0..3 {
                let (lo, hi) = (ex(r._bound_lower[i]), ex(r._bound_upper[i]));
                if n == 0 {
                    ensure("get_union: the union of nothing is empty", bx(lo.is_pinf() && hi.is_ninf()));
                    continue;
                }
                let ls: Vec<Ex> = bs.iter().map(|b| ex(b._bound_lower[i])).collect();
                let hs: Vec<Ex> = bs.iter().map(|b| ex(b._bound_upper[i])).collect();
                for k in 0..n { ensure("get_union: contains each box", lo.le(ls[k]) & hs[k].le(hi)); }
                ensure("get_union: no smaller box contains them all", any(&ls.iter().map(|x| lo.eq(*x)).collect::<Vec<_>>()) & any(&hs.iter().map(|x| hi.eq(*x)).collect::<Vec<_>>()));
            }
        });
        if n > 0 { us.bounded("lists of 1 to 4 boxes; lists of any length are proved by bound/union/any"); }
    }
    // lists of any length: the loop adds one box, whatever came before
    for k0 in 0..5u32 {
        us.u(&format!("bound/union/any/{}", k0), &["B02"], &[&un, &gbd], move || {
            if !symbolic() { return some_lists(); }
            // any box in the list
            let e = bbox("box", [true; 3]);
            // any union of boxes before it: of none, or of some
            let (mut l, mut u): ([f64; 3], [f64; 3]) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
            if k0 < 4 {
                for i in 0..3 {
                    let k = if i == 0 { k0 } else { choose(&format!("sides so far on axis {}", i), 4) };
                    l[i] = if k == 1 || k == 3 { f64::NEG_INFINITY } else { sym(&format!("so far.lower.{}", i)) };
                    u[i] = if k == 2 || k == 3 { f64::INFINITY } else { sym(&format!("so far.upper.{}", i)) };
                }
            }
            let mut r = AxisAlignedBBox { _bound_lower: symn("old.lower"), _bound_upper: symn("old.upper") };
            let at: *mut AxisAlignedBBox = &mut r;
            let round = std::rc::Rc::new(std::cell::Cell::new(0));
            let (round1, e1) = (round.clone(), e.clone());
            NEXT.with(|h| *h.borrow_mut() = Some(Box::new(move |some| {
                let r = unsafe { &mut *at };
                let now = |i: usize| (ex(r._bound_lower[i]), ex(r._bound_upper[i]));
                round1.set(round1.get() + 1);
                match (round1.get(), some) {
                    (1, true) => {
                        for i in 0..3 { ensure("get_union: starts from the union of nothing", bx(now(i).0.is_pinf() && now(i).1.is_ninf())); }
                        r._bound_lower = l;
                        r._bound_upper = u;
                    }
                    (2, false) => {
                        for i in 0..3 {
                            let (a, b) = (ex(e1._bound_lower[i]), ex(e1._bound_upper[i]));
                            let (l, u) = (ex(l[i]), ex(u[i]));
                            ensure("get_union: contains the box just added", now(i).0.le(a) & b.le(now(i).1));
                            ensure("get_union: contains all it contained before", now(i).0.le(l) & u.le(now(i).1));
                            ensure("get_union: grows no more than the box just added needs", (now(i).0.eq(l) | now(i).0.eq(a)) & (now(i).1.eq(u) | now(i).1.eq(b)));
                        }
                        r._bound_lower = l;
                        r._bound_upper = u;
                    }
                    _ => give_up("the list is not read box by box"),
                }
            })));
            let refs: Vec<&dyn IBound> = vec![&e];
            let o = call(|| r.get_union(&refs));
            NEXT.with(|h| *h.borrow_mut() = None);
            val("get_union", o);
            if round.get() != 2 { give_up("the list is not read box by box") }
            for i in 0..3 {
                ensure("get_union: nothing changes after the last box", same(r._bound_lower[i], l[i]) & same(r._bound_upper[i], u[i]));
            }
        });
        us.cut(Cut { within: un.clone(), at: AT_NEXT.into(), forgets_self: true, list: true, frozen: vec![ib("get_type"), gbd.clone()] });
    }
    us.u("bound/centroid", &["B02"], &[&ib("get_centroid"), &gbd, &ib("get_type"), "<mazth::bound::AxisAlignedBBox>::get_longest_axis", "<mazth::bound::AxisAlignedBBox as core::default::Default>::default"], || {
        let a = bbox("a", [false; 3]);
        let c0 = val("get_centroid", call(|| a.get_centroid()));
        let ext: Vec<Ex> = (0..3).map(|i| ex(a._bound_upper[i]) - ex(a._bound_lower[i])).collect();
        for i in 0..3 {
            ensure("get_centroid: midpoint of the corners", (ex(c0[i]) * c(2.0)).eq(ex(a._bound_lower[i]) + ex(a._bound_upper[i])));
        }
        ensure("get_type: axis-aligned box", bx(matches!(a.get_type(), BoundType::AxisAlignBox)));
        let d = val("get_bound_data", call(|| a.get_bound_data()));
        for i in 0..3 { ensure("get_bound_data: corners", ex(d[i]).eq(ex(a._bound_lower[i])) & ex(d[i + 3]).eq(ex(a._bound_upper[i]))); }
        let (axis, l) = val("get_longest_axis", call(|| a.get_longest_axis()));
        let k = match axis { Axis::X => 0, Axis::Y => 1, Axis::Z => 2 };
        ensure("get_longest_axis: reports the extent of the axis it names", ex(l).eq(ext[k]));
        for i in 0..3 { ensure("get_longest_axis: no axis is longer", ext[i].le(ext[k])); }
        let df = AxisAlignedBBox::default();
        for i in 0..3 { ensure("default: unbounded on every side", bx(ex(df._bound_lower[i]).is_ninf() && ex(df._bound_upper[i]).is_pinf())); }
    });
    us.u("bound/longest/unbounded", &["B02"], &["<mazth::bound::AxisAlignedBBox>::get_longest_axis"], || {
        let a = bbox("a", [true, true, true]);
        let ext: Vec<Ex> = (0..3).map(|i| ex(a._bound_upper[i]) - ex(a._bound_lower[i])).collect();
        let (axis, l) = val("get_longest_axis", call(|| a.get_longest_axis()));
        let k = match axis { Axis::X => 0, Axis::Y => 1, Axis::Z => 2 };
        ensure("get_longest_axis: reports the extent of the axis it names", ex(l).eq(ext[k]));
        for i in 0..3 { ensure("get_longest_axis: no axis is longer", ext[i].le(ext[k])); }
    });
    // ---- B03
    let bi = format!("<{}>::init", BB);
    let sh = |t: &str, ty: &str| (format!("<mazth::{}::{}>::init", t, ty), format!("<mazth::{}::{} as mazth::i_shape::IShape>::get_bound", t, ty));
    let (i1, g1) = sh("sphere", "Sphere");
    let (i2, g2) = sh("rbox", "RecBox");
    us.u("bound/of/sphere-box-point", &["B03"], &[&bi, &i1, &g1, &i2, &g2, "<mazth::point::Point3>::init", "<mazth::point::Point3 as mazth::i_shape::IShape>::get_bound"], || {
        let o: [f64; 3] = symn("center");
        let r: f64 = sym("size");
        assume(ex(r).ge(c(0.0)));
        let s = val("Sphere::init", call(|| Sphere::init(&o, r)));
        let x = val("RecBox::init", call(|| RecBox::init(&o, r)));
        let p = val("Point3::init", call(|| Point3::init(&o)));
        let (bs, bx_, bp) = (data("sphere", &s), data("box", &x), data("point", &p));
        // an arbitrary point of the ball / of the cube
        let q: [f64; 3] = symn("q");
        let d = sub3(ex3(&q), ex3(&o));
        if choose_bool("ball") {
            assume(dot3(d, d).le(ex(r) * ex(r)));
            for i in 0..3 { ensure("sphere: box encloses every point", bs.0[i].le(ex(q[i])) & ex(q[i]).le(bs.1[i])); }
        } else {
            for i in 0..3 { assume(d[i].le(ex(r)) & d[i].ge(-ex(r))); }
            for i in 0..3 { ensure("box: box encloses every point", bx_.0[i].le(ex(q[i])) & ex(q[i]).le(bx_.1[i])); }
        }
        for i in 0..3 {
            // the extreme points center +- r e_i belong to both shapes
            tight("sphere", &bs, i, ex(o[i]) - ex(r), ex(o[i]) + ex(r));
            tight("box", &bx_, i, ex(o[i]) - ex(r), ex(o[i]) + ex(r));
            tight("point", &bp, i, ex(o[i]), ex(o[i]));
        }
    });
    let (i1, g1) = sh("line", "Line3");
    us.u("bound/of/segment", &["B03"], &[&bi, &i1, &g1], || {
        let (a, b): ([f64; 3], [f64; 3]) = (symn("a"), symn("b"));
        let l = val("Line3::init", call(|| Line3::init(&a, &b)));
        let bd = data("segment", &l);
        let t = ex(sym_scaled::<f64>("t", 0.0, 1.0));
        assume(t.ge(c(0.0)) & t.le(c(1.0)));
        for i in 0..3 {
            let (x, y) = (ex(a[i]), ex(b[i]));
            let p = x + t * (y - x);
            ensure("segment: box encloses both ends", bd.0[i].le(x) & bd.0[i].le(y) & x.le(bd.1[i]) & y.le(bd.1[i]));
            ensure("segment: box encloses every point", bd.0[i].le(p) & p.le(bd.1[i]));
            ensure("segment: every side touches an end", (bd.0[i].eq(x) | bd.0[i].eq(y)) & (bd.1[i].eq(x) | bd.1[i].eq(y)));
        }
    });
    let (i1, g1) = sh("triprism", "TriPrism");
    us.u("bound/of/prism", &["B03"], &[&bi, &i1, &g1], || {
        use_contracts(&[contracts::NORMALIZE]);
        let v: [f64; 9] = symn("base");
        let h: f64 = sym("height");
        let (d1, d2) = (sub3(ex3(&v[3..6]), ex3(&v[0..3])), sub3(ex3(&v[6..9]), ex3(&v[0..3])));
        assume_nz("base", &cross3(d1, d2));
        let p = val("TriPrism::init", call(|| TriPrism::init(&v, h)));
        let b = data("prism", &p);
        // every point of the prism is a convex combination of its six vertices
        for i in 0..3 {
            let vs: Vec<Ex> = p._tri_base.iter().chain(p._tri_base2.iter()).map(|x| ex(x._val[i])).collect();
            for x in &vs { ensure("prism: box encloses every vertex", b.0[i].le(*x) & x.le(b.1[i])); }
            ensure("prism: every side touches a vertex", any(&vs.iter().map(|x| b.0[i].eq(*x)).collect::<Vec<_>>()) & any(&vs.iter().map(|x| b.1[i].eq(*x)).collect::<Vec<_>>()));
        }
    });
    us.merged();
    let (i1, g1) = sh("ray", "Ray3");
    let (i2, g2) = sh("plane", "Plane");
    us.u("bound/of/ray-plane", &["B03"], &[contracts::RAY_BOUND, &bi, &i1, &g1, &i2, &g2], || {
        let (o, d): ([f64; 3], [f64; 3]) = (symn("origin"), symn("direction"));
        let e = exn(&d);
        assume(any(&[e[0].ne(c(0.0)), e[1].ne(c(0.0)), e[2].ne(c(0.0))]));
        lemma("squared length is positive", dotn(&e, &e).gt(c(0.0)));
        if choose_bool("ray") {
            let r = val("Ray3::init", call(|| Ray3::init(&o, &d)));
            let b = data("ray", &r);
            let t = ex(sym_scaled::<f64>("t", 0.0, 9.0));
            assume(t.ge(c(0.0)));
            for i in 0..3 {
                let p = ex(o[i]) + t * e[i];
                ensure("ray: box encloses every point", b.0[i].le(p) & p.le(b.1[i]));
                ensure("ray: infinite above exactly where the ray rises", iff(bx(b.1[i].is_pinf()), e[i].gt(c(0.0))));
                ensure("ray: infinite below exactly where the ray falls", iff(bx(b.0[i].is_ninf()), e[i].lt(c(0.0))));
                ensure("ray: finite sides are at the origin", (bx(b.0[i].is_ninf()) | b.0[i].eq(ex(o[i]))) & (bx(b.1[i].is_pinf()) | b.1[i].eq(ex(o[i]))));
            }
        } else {
            let p = val("Plane::init", call(|| Plane::init(&o, &d)));
            let b = data("plane", &p);
            for i in 0..3 { ensure("plane: box is all of space", bx(b.0[i].is_ninf() && b.1[i].is_pinf())); }
        }
    });
}
