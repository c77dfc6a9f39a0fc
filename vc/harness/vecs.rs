//! V01-V04: vectors
use super::*;
use mazth::i_comparable::IComparableError;
use mazth::mat::*;

macro_rules! vec_units {
    ($us:ident, $M:ident, $n:expr, $t:ident, $Tr:ident) => {{
        type M = $M<$t>;
        let tn = concat!(stringify!($M), "<", stringify!($t), ">");
        let f = |m: &str| format!("<mazth::mat::{}>::{}", tn, m);
        let mk = |n: &str| M { _val: symn::<$t, $n>(n) };
        // -- sum, difference, elementwise product, scaling
        $us.u(&format!("vec/plus/{}", tn), &["V01"], &[&f("plus")], move || {
            let (a, b) = (mk("a"), mk("b"));
            let r = some("plus", call(|| a.plus(&b)));
            for i in 0..$n { ensure("plus: component i is a_i + b_i", ex(r._val[i]).eq(ex(a._val[i]) + ex(b._val[i]))); }
        });
        $us.u(&format!("vec/minus/{}", tn), &["V01"], &[&f("minus")], move || {
            let (a, b) = (mk("a"), mk("b"));
            let r = some("minus", call(|| a.minus(&b)));
            for i in 0..$n { ensure("minus: component i is a_i - b_i", ex(r._val[i]).eq(ex(a._val[i]) - ex(b._val[i]))); }
        });
        $us.u(&format!("vec/mul_elem/{}", tn), &["V01"], &[&f("mul_elem")], move || {
            let (a, b) = (mk("a"), mk("b"));
            let r = some("mul_elem", call(|| a.mul_elem(&b)));
            for i in 0..$n { ensure("mul_elem: component i is a_i * b_i", ex(r._val[i]).eq(ex(a._val[i]) * ex(b._val[i]))); }
        });
        $us.u(&format!("vec/scale/{}", tn), &["V01"], &[&f("scale")], move || {
            let a = mk("a");
            let s: $t = sym("s");
            let r = some("scale", call(|| a.scale(s)));
            for i in 0..$n { ensure("scale: component i is a_i * s", ex(r._val[i]).eq(ex(a._val[i]) * ex(s))); }
        });
        $us.u(&format!("vec/div/{}", tn), &["V01"], &[&f("div")], move || {
            let (a, b) = (mk("a"), mk("b"));
            // at most one divisor component is zero
            let z = choose("zero divisor", $n + 1) as usize;
            for i in 0..$n { let q = ex(b._val[i]).eq(c(0.0)); assume(if i == z { q } else { !q }); }
            let r = some("div", call(|| a.div(&b)));
            for i in 0..$n {
                let o = ex(r._val[i]);
                if i == z { ensure("div: a zero divisor gives no finite value", !o.fin()); }
                else { ensure("div: component i is a_i / b_i", o.fin() & (o * ex(b._val[i])).eq(ex(a._val[i]))); }
            }
        });
        $us.u(&format!("vec/transpose/{}", tn), &["V01"], &[&f("transpose")], move || {
            let a = mk("a");
            let r: $Tr<$t> = val("transpose", call(|| a.transpose()));
            for i in 0..$n { ensure("transpose: keeps component i", ex(r._val[i]).eq(ex(a._val[i]))); }
        });
        $us.u(&format!("vec/access/{}", tn), &["V01"], &[&f("size"), &format!("<mazth::mat::{} as core::default::Default>::default", tn), &format!("<mazth::mat::{} as core::ops::index::Index<usize>>::index", tn), &format!("<mazth::mat::{} as core::ops::index::IndexMut<usize>>::index_mut", tn)], move || {
            let a = mk("a");
            ensure("size: number of components", bx(val("size", call(|| a.size())) == Some($n)));
            let d = val("default", call(|| M::default()));
            for i in 0..$n { ensure("default: all zero", ex(d._val[i]).eq(c(0.0))); }
            let i = choose("i", $n) as usize;
            let r = val("index", call(|| a[i]));
            ensure("index: reads component i", ex(r).eq(ex(a._val[i])));
            let mut w = a;
            let x: $t = sym("x");
            val("index_mut", call(|| { w[i] = x; }));
            for j in 0..$n { ensure("index_mut: writes component i and no other", ex(w._val[j]).eq(if j == i { ex(x) } else { ex(a._val[j]) })); }
            ensure("index: out of range is refused", bx(call(|| a[$n]).is_err()));
        });
        // -- dot, magnitude, normalize
        $us.u(&format!("vec/dot/{}", tn), &["V02"], &[&f("dot")], move || {
            let (a, b) = (mk("a"), mk("b"));
            let r = some("dot", call(|| a.dot(&b)));
            ensure("dot: sum of products of corresponding components", ex(r).eq(dotn(&exn(&a._val), &exn(&b._val))));
        });
        $us.u(&format!("vec/magnitude/{}", tn), &["V02"], &[&f("magnitude")], move || {
            let a = mk("a");
            let r = ex(some("magnitude", call(|| a.magnitude())));
            ensure("magnitude: a number", r.fin());
            ensure("magnitude: non-negative", r.ge(c(0.0)));
            ensure("magnitude: squared is the dot product with itself", (r * r).eq(dotn(&exn(&a._val), &exn(&a._val))));
        });
        $us.u(&format!("vec/normalize/{}", tn), &["V02"], &[&f("normalize")], move || {
            let a = mk("a");
            let av = exn(&a._val);
            let m2 = dotn(&av, &av);
            assume(any(&av.iter().map(|x| x.ne(c(0.0))).collect::<Vec<_>>()));
            lemma("nonzero vector has positive squared length", m2.gt(c(0.0)));
            let m = m2.sqrt();
            lemma("nonzero vector has positive length", m.gt(c(0.0)));
            let r = some("normalize", call(|| a.normalize()));
            let rv = exn(&r._val);
            for x in &rv { ensure("normalize: a number", x.fin()); }
            ensure("normalize: length one", dotn(&rv, &rv).eq(c(1.0)));
            for i in 0..$n { ensure("normalize: positive multiple of the original", (rv[i] * m).eq(av[i])); }
        });
        // -- approximate equality
        let eqf = format!("<mazth::mat::{} as mazth::i_comparable::IComparableError<{}>>::is_equal", tn, stringify!($t));
        $us.u(&format!("vec/is_equal/{}", tn), &["V04"], &[&eqf], move || {
            let (a, b) = (mk("a"), mk("b"));
            let t: $t = sym("tol");
            let r = some("is_equal", call(|| a.is_equal(&b, t)));
            let spec = all(&(0..$n).map(|i| { let d = ex(a._val[i]) - ex(b._val[i]); d.le(ex(t)) & (-d).le(ex(t)) }).collect::<Vec<_>>());
            ensure("is_equal: exactly when every pair of entries differs by at most the tolerance", iff(bx(r), spec));
            let q = some("is_equal", call(|| b.is_equal(&a, t)));
            ensure("is_equal: symmetric", iff(bx(q), spec));
        });
        $us.u(&format!("vec/is_equal_nan/{}", tn), &["V04"], &[&eqf], move || {
            let (mut a, mut b) = (mk("a"), mk("b"));
            let k = choose("nan at", $n) as usize;
            let nan = <$t>::from_ex(c(0.0)) / <$t>::lit(0.0);
            match choose("nan in", 3) { 0 => a._val[k] = nan, 1 => b._val[k] = nan, _ => { a._val[k] = nan; b._val[k] = nan; } }
            let t: $t = sym("tol");
            let r = some("is_equal", call(|| a.is_equal(&b, t)));
            ensure("is_equal: an entry that is not a number is never equal", bx(!r));
        });
    }};
}
macro_rules! no_cross {
    ($us:ident, $M:ident, $n:expr, $t:ident) => {{
        let tn = concat!(stringify!($M), "<", stringify!($t), ">");
        $us.u(&format!("vec/nocross/{}", tn), &["V03"], &[&format!("<mazth::mat::{}>::cross", tn)], move || {
            let (a, b) = ($M::<$t> { _val: symn::<$t, $n>("a") }, $M::<$t> { _val: symn::<$t, $n>("b") });
            ensure("cross: none for this shape", bx(val("cross", call(|| a.cross(&b))).is_none()));
        });
    }};
}
macro_rules! cross_units {
    ($us:ident, $M:ident, $t:ident) => {{
        let tn = concat!(stringify!($M), "<", stringify!($t), ">");
        $us.u(&format!("vec/cross/{}", tn), &["V03"], &[&format!("<mazth::mat::{}>::cross", tn)], move || {
            let (a, b) = ($M::<$t> { _val: symn::<$t, 3>("a") }, $M::<$t> { _val: symn::<$t, 3>("b") });
            let (av, bv) = (ex3(&a._val), ex3(&b._val));
            let r = ex3(&some("cross", call(|| a.cross(&b)))._val);
            let s = ex3(&some("cross", call(|| b.cross(&a)))._val);
            let sp = cross3(av, bv);
            ensure("cross: orthogonal to the first operand", dot3(r, av).eq(c(0.0)));
            ensure("cross: orthogonal to the second operand", dot3(r, bv).eq(c(0.0)));
            for i in 0..3 {
                ensure("cross: changes sign when swapped", s[i].eq(-r[i]));
                ensure("cross: right-handed frame", r[i].eq(sp[i]));
            }
            ensure("cross: squared length is |a|^2 |b|^2 - (a.b)^2", dot3(r, r).eq(dot3(av, av) * dot3(bv, bv) - dot3(av, bv).sq()));
        });
    }};
}

pub fn units(us: &mut Units) {
    macro_rules! both { ($m:ident, $($a:tt),*) => { $m!(us, $($a),*, f64); $m!(us, $($a),*, f32); } }
    vec_units!(us, Mat2x1, 2, f64, Mat1x2);
    vec_units!(us, Mat1x2, 2, f64, Mat2x1);
    vec_units!(us, Mat3x1, 3, f64, Mat1x3);
    vec_units!(us, Mat1x3, 3, f64, Mat3x1);
    vec_units!(us, Mat4x1, 4, f64, Mat1x4);
    vec_units!(us, Mat1x4, 4, f64, Mat4x1);
    vec_units!(us, Mat2x1, 2, f32, Mat1x2);
    vec_units!(us, Mat1x2, 2, f32, Mat2x1);
    vec_units!(us, Mat3x1, 3, f32, Mat1x3);
    vec_units!(us, Mat1x3, 3, f32, Mat3x1);
    vec_units!(us, Mat4x1, 4, f32, Mat1x4);
    vec_units!(us, Mat1x4, 4, f32, Mat4x1);
    both!(no_cross, Mat2x1, 2);
    both!(no_cross, Mat1x2, 2);
    both!(no_cross, Mat4x1, 4);
    both!(no_cross, Mat1x4, 4);
    both!(cross_units, Mat3x1);
    both!(cross_units, Mat1x3);
}
