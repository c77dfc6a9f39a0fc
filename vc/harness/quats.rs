//! Q01-Q08: quaternions and dual quaternions.
use super::*;
use mazth::dualquat::DualQuat;
use mazth::mat::*;
use mazth::quat::Quat;

type Q4 = [Ex; 4];
/// the Hamilton product, written out from the definition i*i = j*j = k*k = i*j*k = -1
fn ham(a: Q4, b: Q4) -> Q4 {
    let (av, bv) = ([a[0], a[1], a[2]], [b[0], b[1], b[2]]);
    let x = cross3(av, bv);
    [a[3] * b[0] + b[3] * a[0] + x[0], a[3] * b[1] + b[3] * a[1] + x[1], a[3] * b[2] + b[3] * a[2] + x[2], a[3] * b[3] - dot3(av, bv)]
}
fn qe<T: Num>(q: &Quat<T>) -> Q4 { [ex(q._x), ex(q._y), ex(q._z), ex(q._w)] }
fn qv<T: Num>(q: &Quat<T>) -> V3 { [ex(q._x), ex(q._y), ex(q._z)] }
fn qq<T: Num>(a: [T; 4]) -> Quat<T> { Quat { _x: a[0], _y: a[1], _z: a[2], _w: a[3] } }
fn v3<T: Num>(n: &str) -> Mat3x1<T> { Mat3x1 { _val: symn::<T, 3>(n) } }
macro_rules! at {
    ($m:expr, $n:expr, $i:expr, $j:expr) => { ex(if $m._is_row_major { $m._val[$i * $n + $j] } else { $m._val[$j * $n + $i] }) };
}

macro_rules! quat_units {
    ($us:ident, $t:ident) => {{
        type Q = Quat<$t>;
        let tn = concat!("Quat<", stringify!($t), ">");
        let f = |m: &str| format!("<mazth::quat::{}>::{}", tn, m);
        // ---- Q01
        $us.u(&format!("quat/arith/{}", tn), &["Q01"], &[&f("add"), &f("minus"), &f("negate"), &f("scale"), &f("init"), &f("init_from_vals_raw"), &format!("<mazth::quat::{} as core::default::Default>::default", tn)], || {
            let (a, b) = (symn::<$t, 4>("a"), symn::<$t, 4>("b"));
            let s: $t = sym("s");
            let p = val("add", call(|| qq(a).add(qq(b))));
            let m = val("minus", call(|| qq(a).minus(qq(b))));
            let n = val("negate", call(|| qq(a).negate()));
            let k = val("scale", call(|| qq(a).scale(s)));
            let raw = val("init_from_vals_raw", call(|| Q::init_from_vals_raw(a[0], a[1], a[2], a[3])));
            for i in 0..4 {
                ensure("add: componentwise", qe(&p)[i].eq(ex(a[i]) + ex(b[i])));
                ensure("minus: componentwise", qe(&m)[i].eq(ex(a[i]) - ex(b[i])));
                ensure("negate: componentwise", qe(&n)[i].eq(-ex(a[i])));
                ensure("scale: componentwise", qe(&k)[i].eq(ex(a[i]) * ex(s)));
                ensure("init_from_vals_raw: keeps the components", qe(&raw)[i].eq(ex(a[i])));
            }
            let id = [c(0.0), c(0.0), c(0.0), c(1.0)];
            ensure("init: is the identity quaternion", eqn(&qe(&val("init", call(|| Q::init()))), &id));
            ensure("default: is the identity quaternion", eqn(&qe(&val("default", call(|| Q::default()))), &id));
        });
        $us.u(&format!("quat/mul/{}", tn), &["Q01"], &[&f("mul"), &f("init")], || {
            let (a, b) = (symn::<$t, 4>("a"), symn::<$t, 4>("b"));
            let r = val("mul", call(|| qq(a).mul(qq(b))));
            let h = ham([ex(a[0]), ex(a[1]), ex(a[2]), ex(a[3])], [ex(b[0]), ex(b[1]), ex(b[2]), ex(b[3])]);
            for i in 0..4 { ensure("mul: is the Hamilton product", qe(&r)[i].eq(h[i])); }
            let id = val("init", call(|| Q::init()));
            let l = val("mul", call(|| id.mul(qq(a))));
            let rr = val("mul", call(|| qq(a).mul(id)));
            ensure("mul: identity on the left", eqn(&qe(&l), &exn(&a)));
            ensure("mul: identity on the right", eqn(&qe(&rr), &exn(&a)));
            let u = |k: usize| { let mut v = [<$t>::lit(0.0); 4]; v[k] = <$t>::lit(1.0); qq(v) };
            let ij = val("mul", call(|| u(0).mul(u(1))));
            ensure("mul: i*j = k", eqn(&qe(&ij), &qe(&u(2))));
        });
        $us.u(&format!("quat/ring/{}", tn), &["Q01"], &[&f("mul"), &f("add")], || {
            let (a, b, d) = (qq(symn::<$t, 4>("a")), qq(symn::<$t, 4>("b")), qq(symn::<$t, 4>("c")));
            let l = val("mul", call(|| a.mul(b).mul(d)));
            let r = val("mul", call(|| a.mul(b.mul(d))));
            let dl = val("mul", call(|| a.mul(b.add(d))));
            let dr = val("mul", call(|| a.mul(b).add(a.mul(d))));
            let el = val("mul", call(|| a.add(b).mul(d)));
            let er = val("mul", call(|| a.mul(d).add(b.mul(d))));
            for i in 0..4 {
                ensure("mul: associative", qe(&l)[i].eq(qe(&r)[i]));
                ensure("mul: distributes over a sum on the right", qe(&dl)[i].eq(qe(&dr)[i]));
                ensure("mul: distributes over a sum on the left", qe(&el)[i].eq(qe(&er)[i]));
            }
        });
        // ---- Q02
        $us.u(&format!("quat/norm/{}", tn), &["Q02"], &[&f("length_squared"), &f("length"), &f("conjugate"), &f("mul")], || {
            let (a, b) = (qq(symn::<$t, 4>("a")), qq(symn::<$t, 4>("b")));
            let ls = val("length_squared", call(|| a.length_squared()));
            let na = dotn(&qe(&a), &qe(&a));
            let nb = dotn(&qe(&b), &qe(&b));
            ensure("length_squared: sum of the squares", ex(ls).eq(na));
            let l = val("length", call(|| a.length()));
            ensure("length: non-negative root of the squared length", ex(l).ge(c(0.0)) & (ex(l) * ex(l)).eq(na));
            let ab = val("mul", call(|| a.mul(b).length_squared()));
            ensure("length_squared: multiplicative", ex(ab).eq(na * nb));
            let k = val("conjugate", call(|| a.conjugate()));
            let q = qe(&a);
            ensure("conjugate: negates the vector part only", eqn(&qe(&k), &[-q[0], -q[1], -q[2], q[3]]));
            let kab = val("conjugate", call(|| a.mul(b).conjugate()));
            let kbka = val("conjugate", call(|| b.conjugate().mul(a.conjugate())));
            for i in 0..4 { ensure("conjugate: reverses products", qe(&kab)[i].eq(qe(&kbka)[i])); }
        });
        $us.u(&format!("quat/inverse/{}", tn), &["Q02"], &[&f("inverse"), &f("mul")], || {
            let a = qq(symn::<$t, 4>("a"));
            assume_nonzero("a", &qe(&a));
            let r = val("inverse", call(|| a.inverse()));
            let l = val("mul", call(|| r.mul(a)));
            let s = val("mul", call(|| a.mul(r)));
            for i in 0..4 {
                let id = c(if i == 3 { 1.0 } else { 0.0 });
                ensure("inverse: is finite", qe(&r)[i].fin());
                ensure("inverse: identity on the left", qe(&l)[i].eq(id));
                ensure("inverse: identity on the right", qe(&s)[i].eq(id));
            }
        });
        $us.u(&format!("quat/normalize/{}", tn), &["Q02"], &[&f("normalize"), &f("init_from_vals_normalize")], || {
            let a = symn::<$t, 4>("a");
            let e = exn(&a);
            assume_nonzero("a", &e);
            let len = dotn(&e, &e).sqrt();
            let ctor = choose_bool("init_from_vals_normalize");
            let r = if ctor { val("init_from_vals_normalize", call(|| Q::init_from_vals_normalize(a[0], a[1], a[2], a[3]))) } else { val("normalize", call(|| qq(a).normalize())) };
            let r = qe(&r);
            ensure("normalize: unit length", dotn(&r, &r).eq(c(1.0)));
            for i in 0..4 { ensure("normalize: same direction", (r[i] * len).eq(e[i])); }
        });
        $us.u(&format!("quat/zero/{}", tn), &["Q02"], &[&f("normalize"), &f("inverse"), &f("init_from_vals_normalize")], || {
            let z = qq([<$t>::lit(0.0); 4]);
            ensure("inverse: zero is refused", bx(call(|| z.inverse()).is_err()));
            ensure("normalize: zero is refused", bx(call(|| z.normalize()).is_err()));
            ensure("init_from_vals_normalize: zero is refused", bx(call(|| Q::init_from_vals_normalize(z._x, z._y, z._z, z._w)).is_err()));
        });
        // ---- Q03
        $us.u(&format!("quat/rotate/{}", tn), &["Q03"], &[&f("rotate_vector"), &f("conjugate"), &f("mul")], || {
            let q = qq(sym_unit4::<$t>("q"));
            let (a, b) = (v3::<$t>("a"), v3::<$t>("b"));
            let ra = ex3(&val("rotate_vector", call(|| q.rotate_vector(a)))._val);
            let rb = ex3(&val("rotate_vector", call(|| q.rotate_vector(b)))._val);
            let (ea, eb) = (ex3(&a._val), ex3(&b._val));
            // the rotation, as the sandwich product q (p) conj(q)
            let e = qe(&q);
            let k = [-e[0], -e[1], -e[2], e[3]];
            let w = ham(ham(e, [ea[0], ea[1], ea[2], c(0.0)]), k);
            for i in 0..3 { ensure("rotate_vector: is q p conj(q)", ra[i].eq(w[i])); }
            ensure("rotate_vector: preserves dot products", dot3(ra, rb).eq(dot3(ea, eb)));
            let cr = {
                let x = cross3(ea, eb);
                ham(ham(e, [x[0], x[1], x[2], c(0.0)]), k)
            };
            let rx = cross3(ra, rb);
            for i in 0..3 { ensure("rotate_vector: preserves cross products", rx[i].eq(cr[i])); }
            let back = val("rotate_vector", call(|| q.conjugate().rotate_vector(q.rotate_vector(a))));
            for i in 0..3 { ensure("conjugate: undoes the rotation", ex(back._val[i]).eq(ea[i])); }
        });
        $us.u(&format!("quat/compose/{}", tn), &["Q03"], &[&f("rotate_vector"), &f("mul")], || {
            let (p, q) = (qq(sym_unit4::<$t>("p")), qq(sym_unit4::<$t>("q")));
            let a = v3::<$t>("a");
            let l = val("rotate_vector", call(|| p.mul(q).rotate_vector(a)));
            let r = val("rotate_vector", call(|| p.rotate_vector(q.rotate_vector(a))));
            for i in 0..3 { ensure("rotate_vector: product rotates by the second, then the first", ex(l._val[i]).eq(ex(r._val[i]))); }
        });
        $us.u(&format!("quat/rotmat/{}", tn), &["Q03"], &[&f("to_rotation_matrix"), &f("rotate_vector")], || {
            let q = qq(sym_unit4::<$t>("q"));
            let a = v3::<$t>("a");
            let h: $t = sym("h");
            let row = choose_bool("row_major");
            let m = val("to_rotation_matrix", call(|| q.to_rotation_matrix(row)));
            ensure("to_rotation_matrix: has the requested layout", bx(m._is_row_major == row));
            let r = val("rotate_vector", call(|| q.rotate_vector(a)));
            let v = [ex(a._val[0]), ex(a._val[1]), ex(a._val[2]), ex(h)];
            for i in 0..4 {
                let mut s = at!(m, 4, i, 0) * v[0];
                for j in 1..4 { s = s + at!(m, 4, i, j) * v[j]; }
                if i < 3 { ensure("to_rotation_matrix: same image as rotate_vector", s.eq(ex(r._val[i]))); } else { ensure("to_rotation_matrix: keeps the homogeneous coordinate", s.eq(v[3])); }
            }
        });
        // ---- Q04
        $us.u(&format!("quat/axis_angle/{}", tn), &["Q04"], &[&f("init_from_axis_angle_radian"), &f("rotate_vector")], || {
            let a = v3::<$t>("axis");
            let th: $t = sym_scaled("angle", -7.0, 7.0);
            let p = v3::<$t>("p");
            let ea = ex3(&a._val);
            assume_nonzero("axis", &ea);
            let q = val("init_from_axis_angle_radian", call(|| Q::init_from_axis_angle_radian((a, th))));
            let len = dot3(ea, ea).sqrt();
            let n = [ea[0] / len, ea[1] / len, ea[2] / len];
            let half = ex(th) * c(0.5);
            let (C, S) = (half.cos(), half.sin());
            axiom("sin^2 + cos^2 = 1", (C * C + S * S).eq(c(1.0)));
            axiom("cos 2x = cos^2 x - sin^2 x", ex(th).cos().eq(C * C - S * S));
            axiom("sin 2x = 2 sin x cos x", ex(th).sin().eq(c(2.0) * S * C));
            ensure("init_from_axis_angle_radian: unit length", dotn(&qe(&q), &qe(&q)).eq(c(1.0)));
            for i in 0..3 { lemma("init_from_axis_angle_radian: vector part", qe(&q)[i].eq(n[i] * S)); }
            lemma("init_from_axis_angle_radian: scalar part", qe(&q)[3].eq(C));
            let fixed = ex3(&val("rotate_vector", call(|| q.rotate_vector(a)))._val);
            for i in 0..3 { ensure("rotation leaves the axis fixed", fixed[i].eq(ea[i])); }
            if choose_bool("perpendicular") {
                // a vector perpendicular to the axis: the cross product of the axis with an arbitrary one
                let b = ex3(&p._val);
                let e = cross3(ea, b);
                let pe = Mat3x1 { _val: [<$t>::from_ex(e[0]), <$t>::from_ex(e[1]), <$t>::from_ex(e[2])] };
                let r = ex3(&val("rotate_vector", call(|| q.rotate_vector(pe)))._val);
                let e = ex3(&pe._val);
                let k = cross3(n, e);
                for i in 0..3 { ensure("perpendicular vectors turn by the angle, right-handed", r[i].eq(e[i] * ex(th).cos() + k[i] * ex(th).sin())); }
            }
        });
        $us.u(&format!("quat/degrees/{}", tn), &["Q04"], &[&f("init_from_axis_angle_degree")], || {
            let a = v3::<$t>("axis");
            let d: $t = sym_scaled("angle", -400.0, 400.0);
            let ea = ex3(&a._val);
            assume_nonzero("axis", &ea);
            let q = qe(&val("init_from_axis_angle_degree", call(|| Q::init_from_axis_angle_degree((a, d)))));
            let len = dot3(ea, ea).sqrt();
            let n = [ea[0] / len, ea[1] / len, ea[2] / len];
            let half = ex(d) * pi() * (c(1.0) / c(360.0));
            // pi itself is a rounded constant in the code: agreement up to that rounding
            let tol = c(if <$t>::BITS == 32 { 1e-6 } else { 1e-12 }) * ex(d).abs();
            ensure("init_from_axis_angle_degree: scalar part of pi/180 times the angle", (q[3] - half.cos()).abs().le(tol));
            for i in 0..3 { lemma("unit axis component", (n[i] * n[i]).le(c(1.0))); }
            for i in 0..3 { lemma("unit axis component", n[i].le(c(1.0)) & n[i].ge(c(-1.0))); }
            for i in 0..3 { ensure("init_from_axis_angle_degree: vector part of pi/180 times the angle", (q[i] - n[i] * half.sin()).abs().le(tol)); }
        });
        $us.u(&format!("quat/to_axis_angle/{}", tn), &["Q04"], &[&f("to_axis_angle"), &f("init_from_axis_angle_radian")], || {
            let q = qq(sym_unit4::<$t>("q"));
            let e = qe(&q);
            lemma("scalar part of a unit quaternion", e[3].le(c(1.0)) & e[3].ge(c(-1.0)));
            let null = choose_bool("null rotation");
            let kk = c(1.0) - e[3] * e[3];
            if null {
                assume(kk.eq(c(0.0)));
                if !symbolic() { assume(dot3(qv(&q), qv(&q)).le(c(0.0))); }
            } else {
                assume(kk.ge(c(1.002e-12)));
                lemma("1 - w^2 has a root away from zero", kk.sqrt().gt(c(1.0005e-6)));
                lemma("not a null rotation", e[3].lt(c(1.0)) & e[3].gt(c(-1.0)));
                lemma("vector part", dot3(qv(&q), qv(&q)).eq(kk) & dot3(qv(&q), qv(&q)).gt(c(0.0)));
            }
            let (ax, th) = val("to_axis_angle", call(|| q.to_axis_angle()));
            if null {
                ensure("to_axis_angle: a null rotation has angle zero", ex(th).eq(c(0.0)));
            } else {
                let x = ex3(&ax._val);
                for i in 0..3 { ensure("to_axis_angle: axis is the normalized vector part", (x[i] * kk.sqrt()).eq(e[i])); }
                lemma("to_axis_angle: unit axis", dot3(x, x).eq(c(1.0)));
                ensure("to_axis_angle: angle in [0, 2 pi]", ex(th).ge(c(0.0)) & ex(th).le(c(2.0) * pi()));
                ensure("to_axis_angle: the half angle has the scalar part as cosine", (ex(th) * c(0.5)).cos().eq(e[3]));
                assume_nonzero("axis read back", &x);
                let b = val("init_from_axis_angle_radian", call(|| Q::init_from_axis_angle_radian((ax, th))));
                for i in 0..4 { ensure("to_axis_angle: rebuilds the quaternion", qe(&b)[i].eq(e[i])); }
            }
        });
        // ---- Q05
        $us.u(&format!("quat/plane/{}", tn), &["Q05"], &[&f("reflection_in_plane"), &f("parallel_component_of_plane"), &f("orthogonal_component_of_plane")], || {
            let nv = sym_unit3::<$t>("n");
            let q = qq([nv[0], nv[1], nv[2], <$t>::lit(0.0)]);
            let p = v3::<$t>("p");
            let (n, e) = (ex3(&nv), ex3(&p._val));
            let along = scale3(n, dot3(n, e));
            let rf = ex3(&val("reflection_in_plane", call(|| q.reflection_in_plane(p)))._val);
            let pa = ex3(&val("parallel_component_of_plane", call(|| q.parallel_component_of_plane(p)))._val);
            let or = ex3(&val("orthogonal_component_of_plane", call(|| q.orthogonal_component_of_plane(p)))._val);
            for i in 0..3 {
                ensure("reflection_in_plane: negates the normal component only", rf[i].eq(e[i] - c(2.0) * along[i]));
                ensure("parallel_component_of_plane: removes the normal component", pa[i].eq(e[i] - along[i]));
                ensure("orthogonal_component_of_plane: is the normal component", or[i].eq(along[i]));
                ensure("the two components add up", (pa[i] + or[i]).eq(e[i]));
            }
            ensure("parallel_component_of_plane: lies in the plane", dot3(pa, n).eq(c(0.0)));
        });
        // ---- Q06
        $us.u(&format!("quat/lerp/{}", tn), &["Q06"], &[&f("interpolate_linear")], || {
            let (a, b) = (qq(symn::<$t, 4>("start")), qq(symn::<$t, 4>("end")));
            let t: $t = sym_scaled("t", 0.0, 1.0);
            let r = qe(&val("interpolate_linear", call(|| Q::interpolate_linear(a, b, t))));
            let k = ex(t).min(c(1.0)).max(c(0.0));
            for i in 0..4 { ensure("interpolate_linear: start*(1-t) + end*t, t clamped", r[i].eq(qe(&a)[i] * (c(1.0) - k) + qe(&b)[i] * k)); }
        });
        $us.u(&format!("quat/slerp_near/{}", tn), &["Q06"], &[&f("interpolate_slerp")], || {
            let (a, b) = (qq(sym_unit4::<$t>("start")), qq(sym_unit4::<$t>("end")));
            let t: $t = sym_scaled("t", 0.0, 1.0);
            let (ea, eb) = (qe(&a), qe(&b));
            let co = dotn(&ea, &eb);
            let neg = choose_bool("opposite");
            if symbolic() { assume(if neg { co.lt(c(-0.9999001)) } else { co.gt(c(0.9999001)) }); }
            else { let d = f64::from_ex(co); assume(bx(if neg { d < -0.99992 } else { d > 0.99992 })); }
            let r = qe(&val("interpolate_slerp", call(|| Q::interpolate_slerp(a, b, t))));
            let k = ex(t).min(c(1.0)).max(c(0.0));
            for i in 0..4 {
                let to = if neg { -eb[i] } else { eb[i] };
                ensure("interpolate_slerp: nearly parallel is linear toward the nearer end", r[i].eq(ea[i] * (c(1.0) - k) + to * k));
            }
        });
        $us.u(&format!("quat/slerp_arc/{}", tn), &["Q06"], &[&f("interpolate_slerp")], || {
            let (a, b) = (qq(sym_unit4::<$t>("start")), qq(sym_unit4::<$t>("end")));
            let mut t: $t = sym_scaled("t", 0.0, 1.0);
            let (ea, eb) = (qe(&a), qe(&b));
            let d = dotn(&ea, &eb);
            let neg = choose_bool("opposite");
            // the clamped parameter
            let k = match choose("t range", 5) {
                0 => { assume(ex(t).lt(c(0.0))); c(0.0) }
                1 => { t = <$t>::lit(0.0); c(0.0) }
                2 => { assume(ex(t).gt(c(1.0))); c(1.0) }
                3 => { t = <$t>::lit(1.0); c(1.0) }
                _ => { assume(ex(t).gt(c(0.0)) & ex(t).lt(c(1.0))); ex(t) }
            };
            assume(if neg { d.lt(c(0.0)) & d.ge(c(-0.9998999)) } else { d.ge(c(0.0)) & d.le(c(0.9998999)) });
            let co = if neg { -d } else { d };
            let to = if neg { [-eb[0], -eb[1], -eb[2], -eb[3]] } else { eb };
            lemma("the ends are not parallel", (c(1.0) - d * d).gt(c(0.0)));
            lemma("the sine of the angle is positive", (c(1.0) - d * d).sqrt().gt(c(0.0)));
            let r = qe(&val("interpolate_slerp", call(|| Q::interpolate_slerp(a, b, t))));
            let om = co.acos();
            let S = (c(1.0) - d * d).sqrt();
            let (A, B) = ((c(1.0) - k) * om, k * om);
            let (sA, cA, sB, cB) = (A.sin(), A.cos(), B.sin(), B.cos());
            axiom("sin^2 + cos^2 = 1", (sA * sA + cA * cA).eq(c(1.0)));
            axiom("sin^2 + cos^2 = 1", (sB * sB + cB * cB).eq(c(1.0)));
            axiom("cos(a + b) = cos a cos b - sin a sin b", co.eq(cA * cB - sA * sB));
            axiom("sin(a + b) = sin a cos b + cos a sin b", S.eq(sA * cB + cA * sB));
            for i in 0..4 {
                lemma("interpolate_slerp: weights of the two ends", r[i].eq(ea[i] * (sA / S) + to[i] * (sB / S)));
            }
            // the same statement over names, so that the rest is algebra
            let (gs, gC, ga, gb, gca, gcb) = (ghost("S", S), ghost("C", co), ghost("sA", sA), ghost("sB", sB), ghost("cA", cA), ghost("cB", cB));
            let f = [(ga * ga + gca * gca).eq(c(1.0)), (gb * gb + gcb * gcb).eq(c(1.0)), gC.eq(gca * gcb - ga * gb), gs.eq(ga * gcb + gca * gb), gs.gt(c(0.0))];
            for x in f.iter() { lemma("angle facts", *x); }
            let (K0, K1) = (ghost("K0", sA / S), ghost("K1", sB / S));
            let w = [(K0 * gs).eq(ga), (K1 * gs).eq(gb)];
            for x in w.iter() { lemma("weights", *x); }
            let kk = [K0.eq(ga / gs), K1.eq(gb / gs)];
            lemma_from("weights, start", &[w[0], f[4]], kk[0]);
            lemma_from("weights, end", &[w[1], f[4]], kk[1]);
            let one = (K0 * K0 + K1 * K1 + c(2.0) * gC * K0 * K1).eq(c(1.0));
            lemma_from("unit weights", &[f[0], f[1], f[2], f[3], f[4], kk[0], kk[1]], one);
            let ang = (K0 + K1 * gC).eq(gcb);
            lemma_from("angle from the start", &[f[0], f[1], f[2], f[3], f[4], kk[0], kk[1]], ang);
            let ang2 = (K0 * gC + K1).eq(gca);
            lemma_from("angle from the end", &[f[0], f[1], f[2], f[3], f[4], kk[0], kk[1]], ang2);
            let gr: Vec<Ex> = (0..4).map(|i| ghost("r", r[i])).collect();
            let gt: Vec<Ex> = (0..4).map(|i| ghost("to", to[i])).collect();
            let mut fs = vec![];
            for i in 0..4 { let b = gr[i].eq(ea[i] * K0 + gt[i] * K1); lemma("interpolate_slerp: weights of the two ends", b); fs.push(b); }
            let un = [dotn(&ea, &ea).eq(c(1.0)), dotn(&gt, &gt).eq(c(1.0)), dotn(&ea, &gt).eq(gC)];
            for x in un.iter() { lemma("unit ends", *x); }
            let mut g1 = fs.clone(); g1.extend(un.iter()); 
            let (x, y, z) = (dotn(&gr, &gr).eq(K0 * K0 + K1 * K1 + c(2.0) * gC * K0 * K1), dotn(&ea, &gr).eq(K0 + K1 * gC), dotn(&gt, &gr).eq(K0 * gC + K1));
            lemma_from("length of the combination", &g1, x);
            lemma_from("cosine with the start", &g1, y);
            lemma_from("cosine with the end", &g1, z);
            ensure_from("interpolate_slerp: unit length", &[x, one], dotn(&gr, &gr).eq(c(1.0)));
            ensure_from("interpolate_slerp: angle t*omega from the start", &[y, ang], dotn(&ea, &gr).eq(gcb));
            ensure_from("interpolate_slerp: angle (1-t)*omega from the nearer end", &[z, ang2], dotn(&gt, &gr).eq(gca));
        });
        $us.u(&format!("quat/slerp_ends/{}", tn), &["Q06"], &[&f("interpolate_slerp")], || {
            let (a, b) = (qq(sym_unit4::<$t>("start")), qq(sym_unit4::<$t>("end")));
            let (ea, eb) = (qe(&a), qe(&b));
            let d = dotn(&ea, &eb);
            let neg = choose_bool("opposite");
            assume(if neg { d.lt(c(0.0)) } else { d.ge(c(0.0)) });
            let mut t: $t = sym_scaled("t", -1.0, 2.0);
            let end = choose_bool("at the end");
            if choose_bool("clamped") { assume(if end { ex(t).gt(c(1.0)) } else { ex(t).lt(c(0.0)) }); } else { t = <$t>::lit(if end { 1.0 } else { 0.0 }); }
            let r = qe(&val("interpolate_slerp", call(|| Q::interpolate_slerp(a, b, t))));
            for i in 0..4 {
                let want = if !end { ea[i] } else if neg { -eb[i] } else { eb[i] };
                ensure("interpolate_slerp: start at 0, nearer end at 1", r[i].eq(want));
            }
        });
        // ---- Q07
        let lnpow = |q: &Q| {
            let e = qe(q);
            let v = [e[0], e[1], e[2]];
            assume_nonzero("vector part", &v);
            let vv = dot3(v, v);
            let l2 = dotn(&e, &e);
            lemma("squared length", l2.gt(c(0.0)) & l2.gt(e[3] * e[3]));
            let l = l2.sqrt();
            lemma("length is positive", l.gt(c(0.0)));
            let (gl, gw) = (ghost("len", l), ghost("w", e[3]));
            lemma("scalar part below the length", (gl * gl).gt(gw * gw) & gl.gt(c(0.0)));
            lemma_from("scalar part below the length", &[(gl * gl).gt(gw * gw), gl.gt(c(0.0))], gw.lt(gl) & gw.gt(-gl));
            let gi = ghost("cosine", e[3] / l);
            lemma("cosine", (gi * gl).eq(gw));
            lemma_from("cosine in (-1, 1)", &[(gi * gl).eq(gw), gl.gt(c(0.0)), gw.lt(gl), gw.gt(-gl)], gi.lt(c(1.0)) & gi.gt(c(-1.0)));
            let cw = e[3] / l;
            lemma("cosine in (-1, 1)", cw.lt(c(1.0)) & cw.gt(c(-1.0)));
            lemma("squared sine", (c(1.0) - cw * cw).gt(c(0.0)));
            let gsn = ghost("sine", (c(1.0) - cw * cw).sqrt());
            let vl = vv.sqrt();
            // sine of the half angle = |v| / l
            lemma("sine", (gsn * gsn * l2).eq(vv) & gsn.ge(c(0.0)));
            let gv = ghost("vlen", vl);
            lemma("lengths", (gsn * gsn * gl * gl).eq(gv * gv) & gv.gt(c(0.0)));
            lemma_from("sine", &[(gsn * gsn * gl * gl).eq(gv * gv), gsn.ge(c(0.0)), gl.gt(c(0.0)), gv.gt(c(0.0))], (gsn * gl).eq(gv));
            let sn = (c(1.0) - cw * cw).sqrt();
            lemma("sine of the half angle", (sn * l).eq(vl));
            (e, v, vl, l, cw, sn)
        };
        $us.u(&format!("quat/ln/{}", tn), &["Q07"], &[&f("ln")], move || {
            let q = qq(symn::<$t, 4>("q"));
            let (e, v, vl, l, cw, sn) = lnpow(&q);
            let r = qe(&val("ln", call(|| q.ln())));
            let A = cw.acos();
            ensure("ln: scalar part is the log of the length", r[3].eq(l.ln()));
            for i in 0..3 { lemma("ln: vector part is the axis times the half angle", r[i].eq(v[i] / vl * A)); }
            // exponentiating: e^w (cos|u| + u/|u| sin|u|), with |u| the half angle
            let u = [r[0], r[1], r[2]];
            ensure("ln: vector part has the half angle as length", A.ge(c(0.0)) & dot3(u, u).eq(A * A));
            ensure("exp(ln q): scalar part", (r[3].exp() * A.cos()).eq(e[3]));
            for i in 0..3 { ensure("exp(ln q): vector part", (r[3].exp() * A.sin() * (v[i] / vl)).eq(v[i])); }
        });
        $us.u(&format!("quat/pow/{}", tn), &["Q07"], &[&f("pow")], move || {
            let q = qq(symn::<$t, 4>("q"));
            let (e, v, vl, l, cw, sn) = lnpow(&q);
            let A = cw.acos();
            match choose("law", 4) {
                0 => {
                    let t: $t = sym_scaled("t", -3.0, 3.0);
                    if !symbolic() { assume(ex(t).abs().lt(c(20.0))); }
                    let r = qe(&val("pow", call(|| q.pow(t))));
                    let k = (ex(t) * l.ln()).exp();
                    let B = ex(t) * A;
                    ensure("pow: scalar part", r[3].eq(k * B.cos()));
                    for i in 0..3 { ensure("pow: vector part keeps the axis, t times the half angle", r[i].eq(k * B.sin() * (v[i] / vl))); }
                    let (gk, gs, gc) = (ghost("k", k), ghost("sin", B.sin()), ghost("cos", B.cos()));
                    let gn: Vec<Ex> = (0..3).map(|i| ghost("n", v[i] / vl)).collect();
                    let gr: Vec<Ex> = (0..4).map(|i| ghost("r", r[i])).collect();
                    axiom("sin^2 + cos^2 = 1", (gs * gs + gc * gc).eq(c(1.0)));
                    let mut f = vec![(gs * gs + gc * gc).eq(c(1.0)), dotn(&gn, &gn).eq(c(1.0)), gr[3].eq(gk * gc)];
                    for i in 0..3 { f.push(gr[i].eq(gk * gs * gn[i])); }
                    for x in f.iter() { lemma("pow: parts", *x); }
                    ensure_from("pow: length is the length raised to t", &f, dotn(&gr, &gr).eq(gk * gk));
                }
                1 => {
                    let r = qe(&val("pow", call(|| q.pow(<$t>::lit(1.0)))));
                    for i in 0..4 { ensure("pow: first power is the quaternion", r[i].eq(e[i])); }
                }
                2 => {
                    let r = qe(&val("pow", call(|| q.pow(<$t>::lit(0.0)))));
                    for i in 0..4 { ensure("pow: zeroth power is the identity", r[i].eq(c(if i == 3 { 1.0 } else { 0.0 }))); }
                }
                _ => {
                    let (s, t): ($t, $t) = (sym_scaled("s", -3.0, 3.0), sym_scaled("t", -3.0, 3.0));
                    // larger powers round too much in the replay
                    if !symbolic() { assume(ex(s).abs().lt(c(20.0)) & ex(t).abs().lt(c(20.0))); }
                    let st = <$t>::from_ex(ex(s) + ex(t));
                    let a = val("pow", call(|| q.pow(s)));
                    let b = val("pow", call(|| q.pow(t)));
                    let ab = qe(&val("mul", call(|| a.mul(b))));
                    let r = qe(&val("pow", call(|| q.pow(st))));
                    let (x, y, z) = (ex(s) * A, ex(t) * A, ex(st) * A);
                    axiom("cos(a + b) = cos a cos b - sin a sin b", z.cos().eq(x.cos() * y.cos() - x.sin() * y.sin()));
                    axiom("sin(a + b) = sin a cos b + cos a sin b", z.sin().eq(x.sin() * y.cos() + x.cos() * y.sin()));
                    axiom("exp(a + b) = exp a exp b", (ex(st) * l.ln()).exp().eq((ex(s) * l.ln()).exp() * (ex(t) * l.ln()).exp()));
                    for i in 0..4 { ensure("pow: product of powers is the power of the sum", ab[i].eq(r[i])); }
                }
            }
        });
        // ---- Q08
        $us.u(&format!("quat/translation/{}", tn), &["Q08"], &[&f("init_from_translation"), &f("to_translation_matrix")], || {
            let v = v3::<$t>("v");
            let q = qe(&val("init_from_translation", call(|| Q::init_from_translation(v))));
            let e = ex3(&v._val);
            ensure("init_from_translation: half of the vector, zero scalar", (q[0] * c(2.0)).eq(e[0]) & (q[1] * c(2.0)).eq(e[1]) & (q[2] * c(2.0)).eq(e[2]) & q[3].eq(c(0.0)));
            let p = qq(symn::<$t, 4>("q"));
            let row = choose_bool("row_major");
            let m = val("to_translation_matrix", call(|| p.to_translation_matrix(row)));
            ensure("to_translation_matrix: has the requested layout", bx(m._is_row_major == row));
            let x = symn::<$t, 4>("p");
            for i in 0..4 {
                let mut s = at!(m, 4, i, 0) * ex(x[0]);
                for j in 1..4 { s = s + at!(m, 4, i, j) * ex(x[j]); }
                let want = if i < 3 { ex(x[i]) + ex(x[3]) * qe(&p)[i] } else { ex(x[3]) };
                ensure("to_translation_matrix: moves every homogeneous point by the vector part", s.eq(want));
            }
        });
        $us.u(&format!("quat/auto_w/{}", tn), &["Q08"], &[&f("init_from_vals_auto_w")], || {
            let v = symn::<$t, 3>("v");
            let e = exn(&v);
            assume(dotn(&e, &e).le(c(1.0)));
            let q = qe(&val("init_from_vals_auto_w", call(|| Q::init_from_vals_auto_w(v[0], v[1], v[2]))));
            ensure("init_from_vals_auto_w: keeps the vector part", eqn(&q[..3], &e));
            ensure("init_from_vals_auto_w: unit length", dotn(&q, &q).eq(c(1.0)));
            ensure("init_from_vals_auto_w: non-positive scalar", q[3].le(c(0.0)));
        });
        $us.u(&format!("dualquat/init/{}", tn), &["Q08"], &[&format!("<mazth::dualquat::Dual{}>::init", tn)], || {
            let (a, b) = (qq(symn::<$t, 4>("a")), qq(symn::<$t, 4>("b")));
            let d = val("init", call(|| DualQuat::<$t>::init(a, b)));
            ensure("init: keeps both parts", eqn(&qe(&d._rot), &qe(&a)) & eqn(&qe(&d._tra), &qe(&b)));
        });
    }};
}

pub fn units(us: &mut Units) {
    quat_units!(us, f32);
    quat_units!(us, f64);
}
