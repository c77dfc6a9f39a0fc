//! contracts of functions under contract, as seen by their callers
use super::*;
use mazth::mat::Mat3x1;

pub const NORMALIZE: &str = "<mazth::mat::Mat3x1<f64>>::normalize";
/// requires a nonzero vector; ensures a unit vector r and a length m > 0 with m r = a  (proved by unit vec/normalize/Mat3x1<f64>)
#[export_name = "ct:<mazth::mat::Mat3x1<f64>>::normalize"]
pub fn ct_normalize(a: Mat3x1<f64>) -> Option<Mat3x1<f64>> {
    if !stub_on(NORMALIZE) { return a.normalize(); }
    let e = ex3(&a._val);
    let n2 = dot3(e, e);
    lemma("normalize: called with a nonzero vector", n2.gt(c(0.0)));
    let r = [fresh_of("unit.x", &e), fresh_of("unit.y", &e), fresh_of("unit.z", &e)];
    let m = fresh_of("length", &e);
    assume(m.gt(c(0.0)) & dot3(r, r).eq(c(1.0)));
    for i in 0..3 { assume((r[i] * m).eq(e[i])); }
    Some(Mat3x1 { _val: [f64::from_ex(r[0]), f64::from_ex(r[1]), f64::from_ex(r[2])] })
}

pub const RAY_PLANE: &str = "<mazth::ray::Ray3 as mazth::i_shape::IShape>::get_intersect on a plane";
/// Casting a ray with origin o and unit direction u on a plane through p with unit normal n answers true exactly when
/// n.u = 0 and n.(p - o) = 0, located at o, or n.u < 0 and n.(p - o) <= 0, located at o + t u with t >= 0 on the plane
/// (proved by unit ray/plane).  The harness of the caller supplies the consequence it needs of this.
pub type Cast = Box<dyn Fn(V3, V3, V3, V3) -> Option<V3>>;
thread_local! { pub static CAST: std::cell::RefCell<Option<Cast>> = std::cell::RefCell::new(None); }
#[export_name = "ct:<mazth::ray::Ray3 as mazth::i_shape::IShape>::get_intersect"]
pub fn ct_ray(r: &mazth::ray::Ray3, other: &dyn mazth::i_shape::IShape) -> (bool, Option<Mat3x1<f64>>) {
    use mazth::i_shape::{IShape, ShapeType};
    let plane = match other.get_type() { ShapeType::Plane => true, _ => false };
    if !plane || !stub_on(RAY_PLANE) { return r.get_intersect(other); }
    let d = other.get_shape_data();
    let f = |i: usize| [ex(d[i]), ex(d[i + 1]), ex(d[i + 2])];
    let (n, u) = (f(3), ex3(&r._dir._val));
    lemma("ray plane: called with unit vectors", dot3(n, n).eq(c(1.0)) & dot3(u, u).eq(c(1.0)));
    let x = CAST.with(|h| (h.borrow().as_ref().expect("no cast"))(f(0), n, ex3(&r._ori._val), u));
    match x {
        Some(x) => (true, Some(Mat3x1 { _val: [f64::from_ex(x[0]), f64::from_ex(x[1]), f64::from_ex(x[2])] })),
        None => (false, None),
    }
}

pub const RAY_BOUND: &str = "<mazth::bound::AxisAlignedBBox>::init on a ray";
/// Returns some box when called with six numbers, the last three not all zero (proved by unit bound/of/ray-plane, which also says which).
/// Callers that never look at the bounding box of the ray they make need no more.
#[export_name = "ct:<mazth::bound::AxisAlignedBBox>::init"]
pub fn ct_bound(shape_type: mazth::i_shape::ShapeType, vals: &[f64]) -> mazth::bound::AxisAlignedBBox {
    use mazth::{bound::AxisAlignedBBox, i_shape::ShapeType};
    let ray = match shape_type { ShapeType::Ray => true, _ => false };
    if !ray || !stub_on(RAY_BOUND) { return AxisAlignedBBox::init(shape_type, vals); }
    if vals.len() != 6 { panic!("bounding box of a ray from {} numbers", vals.len()); }
    lemma("bounding box of a ray: called with a direction", any(&vals[3..].iter().map(|x| ex(*x).ne(c(0.0))).collect::<Vec<_>>()));
    let some: Vec<f64> = (0..6).map(|_| f64::from_ex(fresh("side"))).collect();
    let mut b: AxisAlignedBBox = Default::default();
    b._bound_lower = [some[0], some[1], some[2]];
    b._bound_upper = [some[3], some[4], some[5]];
    b
}
