//! M01-M05 (and the matrix parts of V03, V04): 3x3 and 4x4 matrices.  Entries are read through the layout by `at`,
//! written here independently of the code's own accessors.
use super::*;
use mazth::i_comparable::IComparableError;
use mazth::mat::*;

macro_rules! at {
    ($m:expr, $n:expr, $i:expr, $j:expr) => { ex(if $m._is_row_major { $m._val[$i * $n + $j] } else { $m._val[$j * $n + $i] }) };
}
macro_rules! mat_units {
    ($us:ident, $M:ident, $n:expr, $t:ident, $V:ident, $R:ident, $mulv:ident, $vmul:ident) => {{
        type M = $M<$t>;
        const N: usize = $n;
        let tn = concat!(stringify!($M), "<", stringify!($t), ">");
        let f = |m: &str| format!("<mazth::mat::{}>::{}", tn, m);
        // a matrix with arbitrary entries; entry (i,j) is named x.i.j in either layout
        let mk = |n: &str, row: bool| -> M {
            let mut v = [<$t>::lit(0.0); N * N];
            for i in 0..N { for j in 0..N { v[if row { i * N + j } else { j * N + i }] = sym(&format!("{}.{}.{}", n, i, j)); } }
            M { _val: v, _is_row_major: row }
        };
        let keeps = |nm: &str, r: &M, row: bool| ensure(&format!("{}: keeps the layout", nm), bx(r._is_row_major == row));
        // ---- M01
        $us.u(&format!("mat/access/{}", tn), &["M01"], &[&f("init"), &f("index"), &f("index_mut"), &f("size")], move || {
            let row = choose_bool("row_major");
            let a = symn::<$t, { N * N }>("a");
            let m = val("init", call(|| M::init(a, row)));
            for i in 0..N { for j in 0..N {
                let r = val("index", call(|| m.index(i as u64, j as u64)));
                ensure("index: reads back the listed entry", ex(r).eq(ex(a[i * N + j])));
            } }
            keeps("init", &m, row);
            for i in 0..N { for j in 0..N { ensure("init: stores entries in the requested layout", at!(m, N, i, j).eq(ex(a[i * N + j]))); } }
            let (i, j) = (choose("i", $n) as usize, choose("j", $n) as usize);
            let x: $t = sym("x");
            let mut w = m;
            val("index_mut", call(|| { *w.index_mut(i as u64, j as u64) = x; }));
            for p in 0..N { for q in 0..N {
                let want = if (p, q) == (i, j) { ex(x) } else { ex(a[p * N + q]) };
                ensure("index_mut: changes that entry and no other", at!(w, N, p, q).eq(want));
            } }
            keeps("index_mut", &w, row);
            ensure("size: number of entries", bx(val("size", call(|| m.size())) == Some(N * N)));
        });
        // ---- M02
        $us.u(&format!("mat/mul/{}", tn), &["M02"], &[&f("mul")], move || {
            let row = choose_bool("row_major");
            let (a, b) = (mk("a", row), mk("b", row));
            let r = some("mul", call(|| a.mul(&b)));
            keeps("mul", &r, row);
            for i in 0..N { for j in 0..N {
                let mut s = at!(a, N, i, 0) * at!(b, N, 0, j);
                for k in 1..N { s = s + at!(a, N, i, k) * at!(b, N, k, j); }
                ensure("mul: entry is the row-by-column sum", at!(r, N, i, j).eq(s));
            } }
        });
        $us.u(&format!("mat/mul_mixed/{}", tn), &["M02"], &[&f("mul")], move || {
            let row = choose_bool("row_major");
            let (a, b) = (mk("a", row), mk("b", !row));
            let r = call(|| a.mul(&b));
            ensure("mul: different layouts are refused", bx(match r { Err(_) => true, Ok(x) => x.is_none() }));
        });
        $us.u(&format!("mat/mul_vec/{}", tn), &["M02"], &[&f(stringify!($mulv)), &format!("<mazth::mat::{}<{}>>::{}", stringify!($R), stringify!($t), stringify!($vmul))], move || {
            let row = choose_bool("row_major");
            let a = mk("a", row);
            let v = $V::<$t> { _val: symn::<$t, N>("v") };
            let r = some("matrix times column", call(|| a.$mulv(&v)));
            let rv = $R::<$t> { _val: v._val };
            let l = some("row times matrix", call(|| rv.$vmul(&a)));
            for i in 0..N {
                let mut s = at!(a, N, i, 0) * ex(v._val[0]);
                let mut t = at!(a, N, 0, i) * ex(v._val[0]);
                for k in 1..N { s = s + at!(a, N, i, k) * ex(v._val[k]); t = t + at!(a, N, k, i) * ex(v._val[k]); }
                ensure("matrix times column: mathematical product", ex(r._val[i]).eq(s));
                ensure("row times matrix: mathematical product", ex(l._val[i]).eq(t));
            }
        });
        // ---- M03
        $us.u(&format!("mat/transpose/{}", tn), &["M03"], &[&f("transpose"), &f("transpose_self")], move || {
            let row = choose_bool("row_major");
            let a = mk("a", row);
            let r = val("transpose", call(|| a.transpose()));
            let mut s = a;
            val("transpose_self", call(|| s.transpose_self()));
            let mut ss = s;
            val("transpose_self", call(|| ss.transpose_self()));
            let rr = val("transpose", call(|| r.transpose()));
            for (nm, m) in [("transpose", &r), ("transpose_self", &s), ("transpose twice", &rr), ("transpose_self twice", &ss)] { keeps(nm, m, row); }
            for i in 0..N { for j in 0..N {
                ensure("transpose: entry (i,j) is the original (j,i)", at!(r, N, i, j).eq(at!(a, N, j, i)));
                ensure("transpose_self: entry (i,j) is the original (j,i)", at!(s, N, i, j).eq(at!(a, N, j, i)));
                ensure("transpose: twice is the original", at!(rr, N, i, j).eq(at!(a, N, i, j)));
                ensure("transpose_self: twice is the original", at!(ss, N, i, j).eq(at!(a, N, i, j)));
            } }
        });
        // ---- M05
        $us.u(&format!("mat/arith/{}", tn), &["M05"], &[&f("plus"), &f("minus"), &f("mul_elem"), &f("scale")], move || {
            let row = choose_bool("row_major");
            let (a, b) = (mk("a", row), mk("b", row));
            let s: $t = sym("s");
            let p = some("plus", call(|| a.plus(&b)));
            let m = some("minus", call(|| a.minus(&b)));
            let e = some("mul_elem", call(|| a.mul_elem(&b)));
            let c = some("scale", call(|| a.scale(s)));
            for (nm, m) in [("plus", &p), ("minus", &m), ("mul_elem", &e), ("scale", &c)] { keeps(nm, m, row); }
            for i in 0..N { for j in 0..N {
                let (x, y) = (at!(a, N, i, j), at!(b, N, i, j));
                ensure("plus: every entry", at!(p, N, i, j).eq(x + y));
                ensure("minus: every entry", at!(m, N, i, j).eq(x - y));
                ensure("mul_elem: every entry", at!(e, N, i, j).eq(x * y));
                ensure("scale: every entry", at!(c, N, i, j).eq(x * ex(s)));
            } }
        });
        $us.u(&format!("mat/div/{}", tn), &["M05"], &[&f("div")], move || {
            let row = choose_bool("row_major");
            let (a, b) = (mk("a", row), mk("b", row));
            let z = choose("zero divisor", ($n * $n + 1) as u32) as usize;
            for i in 0..N { for j in 0..N { let q = at!(b, N, i, j).eq(c(0.0)); assume(if i * N + j == z { q } else { !q }); } }
            let r = some("div", call(|| a.div(&b)));
            keeps("div", &r, row);
            for i in 0..N { for j in 0..N {
                let o = at!(r, N, i, j);
                if i * N + j == z { ensure("div: a zero divisor gives no finite value", !o.fin()); }
                else { ensure("div: every entry", o.fin() & (o * at!(b, N, i, j)).eq(at!(a, N, i, j))); }
            } }
        });
        $us.u(&format!("mat/normalize/{}", tn), &["M05"], &[&f("normalize")], move || {
            let row = choose_bool("row_major");
            let a = mk("a", row);
            let last = at!(a, N, N - 1, N - 1);
            assume(!last.eq(c(0.0)));
            let r = some("normalize", call(|| a.normalize()));
            keeps("normalize", &r, row);
            for i in 0..N { for j in 0..N {
                let o = at!(r, N, i, j);
                ensure("normalize: every entry divided by the bottom-right entry", o.fin() & (o * last).eq(at!(a, N, i, j)));
            } }
        });
        $us.u(&format!("mat/iden_trace/{}", tn), &["M05"], &[&f("iden"), &f("trace"), &f("mul"), &format!("<mazth::mat::{} as core::default::Default>::default", tn)], move || {
            let id = val("iden", call(|| M::iden()));
            for i in 0..N { for j in 0..N { ensure("iden: ones on the diagonal, zeros elsewhere", at!(id, N, i, j).eq(c(if i == j { 1.0 } else { 0.0 }))); } }
            let a = mk("a", id._is_row_major);
            let l = some("iden * a", call(|| id.mul(&a)));
            let r = some("a * iden", call(|| a.mul(&id)));
            for i in 0..N { for j in 0..N {
                ensure("iden: neutral on the left", at!(l, N, i, j).eq(at!(a, N, i, j)));
                ensure("iden: neutral on the right", at!(r, N, i, j).eq(at!(a, N, i, j)));
            } }
            for row in [true, false] {
                let a = mk("a", row);
                let mut s = at!(a, N, 0, 0);
                for i in 1..N { s = s + at!(a, N, i, i); }
                ensure("trace: sum of the diagonal", ex(val("trace", call(|| a.trace()))).eq(s));
            }
            let d = val("default", call(|| M::default()));
            for i in 0..N * N { ensure("default: all zero", ex(d._val[i]).eq(c(0.0))); }
        });
        // ---- V03, V04
        $us.u(&format!("mat/nodot/{}", tn), &["V03"], &[&f("dot"), &f("cross")], move || {
            let (a, b) = (mk("a", choose_bool("row a")), mk("b", choose_bool("row b")));
            ensure("dot: none for matrices", bx(val("dot", call(|| a.dot(&b))).is_none()));
            ensure("cross: none for matrices", bx(val("cross", call(|| a.cross(&b))).is_none()));
        });
        let eqf = format!("<mazth::mat::{} as mazth::i_comparable::IComparableError<{}>>::is_equal", tn, stringify!($t));
        $us.u(&format!("mat/is_equal/{}", tn), &["V04"], &[&eqf], move || {
            let row = choose_bool("row_major");
            let (a, b) = (mk("a", row), mk("b", row));
            let t: $t = sym("tol");
            let r = some("is_equal", call(|| a.is_equal(&b, t)));
            let spec = all(&(0..N * N).map(|i| { let d = ex(a._val[i]) - ex(b._val[i]); d.le(ex(t)) & (-d).le(ex(t)) }).collect::<Vec<_>>());
            ensure("is_equal: exactly when every pair of entries differs by at most the tolerance", iff(bx(r), spec));
            let q = some("is_equal", call(|| b.is_equal(&a, t)));
            ensure("is_equal: symmetric", iff(bx(q), spec));
        });
        $us.u(&format!("mat/is_equal_mixed/{}", tn), &["V04"], &[&eqf], move || {
            let row = choose_bool("row_major");
            let (a, b) = (mk("a", row), mk("b", !row));
            let t: $t = sym("tol");
            ensure("is_equal: different layouts are never equal", bx(!some("is_equal", call(|| a.is_equal(&b, t)))));
        });
        $us.u(&format!("mat/is_equal_nan/{}", tn), &["V04"], &[&eqf], move || {
            let row = choose_bool("row_major");
            let (mut a, mut b) = (mk("a", row), mk("b", row));
            let k = choose("nan at", ($n * $n) as u32) as usize;
            let nan = <$t>::from_ex(c(0.0)) / <$t>::lit(0.0);
            match choose("nan in", 3) { 0 => a._val[k] = nan, 1 => b._val[k] = nan, _ => { a._val[k] = nan; b._val[k] = nan; } }
            // the entries other than k are equal, so that the answer hinges on entry k
            let t: $t = sym("tol");
            assume(ex(t).ge(c(0.0)));
            for i in 0..N * N { if i != k { b._val[i] = a._val[i]; } }
            let r = some("is_equal", call(|| a.is_equal(&b, t)));
            ensure("is_equal: an entry that is not a number is never equal", bx(!r));
        });
    }};
}

/// determinant by cofactor expansion along the first row
fn det(a: &Vec<Vec<Ex>>) -> Ex {
    let n = a.len();
    if n == 1 { return a[0][0]; }
    let mut s = c(0.0);
    for j in 0..n {
        let t = a[0][j] * det(&minor(a, 0, j));
        s = if j % 2 == 0 { s + t } else { s - t };
    }
    s
}
fn minor(a: &Vec<Vec<Ex>>, i: usize, j: usize) -> Vec<Vec<Ex>> {
    let n = a.len();
    (0..n).filter(|r| *r != i).map(|r| (0..n).filter(|q| *q != j).map(|q| a[r][q]).collect()).collect()
}
macro_rules! inv_units {
    ($us:ident, $M:ident, $n:expr, $t:ident, $thr:expr) => {{
        type M = $M<$t>;
        const N: usize = $n;
        let tn = concat!(stringify!($M), "<", stringify!($t), ">");
        $us.u(&format!("mat/inverse/{}", tn), &["M04"], &[&format!("<mazth::mat::{}>::inverse", tn)], move || {
            let row = choose_bool("row_major");
            let mut v = [<$t>::lit(0.0); N * N];
            for i in 0..N { for j in 0..N { v[if row { i * N + j } else { j * N + i }] = sym(&format!("a.{}.{}", i, j)); } }
            let a = M { _val: v, _is_row_major: row };
            let ae: Vec<Vec<Ex>> = (0..N).map(|i| (0..N).map(|j| at!(a, N, i, j)).collect()).collect();
            let d = det(&ae);
            match val("inverse", call(|| a.inverse())) {
                None => ensure("inverse: a well-conditioned determinant yields a result", d.abs().lt(c($thr))),
                Some(r) => {
                    ensure("inverse: a zero determinant yields none", !d.eq(c(0.0)));
                    ensure("inverse: keeps the layout", bx(r._is_row_major == row));
                    for i in 0..N { for j in 0..N {
                        ensure("inverse: a number", at!(r, N, i, j).fin());
                        let (mut s, mut t) = (c(0.0), c(0.0));
                        for k in 0..N { s = s + at!(a, N, i, k) * at!(r, N, k, j); t = t + at!(r, N, i, k) * at!(a, N, k, j); }
                        let one = c(if i == j { 1.0 } else { 0.0 });
                        ensure("inverse: product with the original on the left is the identity", t.eq(one));
                        ensure("inverse: product with the original on the right is the identity", s.eq(one));
                    } }
                }
            }
        });
    }};
}
macro_rules! sub_units {
    ($us:ident, $t:ident) => {{
        $us.u(&format!("mat/submat/Mat4<{}>", stringify!($t)), &["M05"], &[&format!("<mazth::mat::Mat4<{}>>::submat_mat3", stringify!($t))], move || {
            let row = choose_bool("row_major");
            let a = Mat4::<$t> { _val: symn::<$t, 16>("a"), _is_row_major: row };
            let r: Mat3<$t> = val("submat_mat3", call(|| a.submat_mat3()));
            ensure("submat_mat3: keeps the layout", bx(r._is_row_major == row));
            for i in 0..3 { for j in 0..3 { ensure("submat_mat3: corresponding entry", at!(r, 3, i, j).eq(at!(a, 4, i, j))); } }
        });
    }};
}

pub fn units(us: &mut Units) {
    mat_units!(us, Mat3, 3, f64, Mat3x1, Mat1x3, mul_mat3x1, mul_mat3x3);
    mat_units!(us, Mat3, 3, f32, Mat3x1, Mat1x3, mul_mat3x1, mul_mat3x3);
    mat_units!(us, Mat4, 4, f64, Mat4x1, Mat1x4, mul_mat4x1, mul_mat4x4);
    mat_units!(us, Mat4, 4, f32, Mat4x1, Mat1x4, mul_mat4x1, mul_mat4x4);
    inv_units!(us, Mat3, 3, f64, 1e-9);
    inv_units!(us, Mat3, 3, f32, 1e-9);
    inv_units!(us, Mat4, 4, f64, f64::EPSILON);
    inv_units!(us, Mat4, 4, f32, f32::EPSILON as f64);
    sub_units!(us, f64);
    sub_units!(us, f32);
}
