//! triangular prism: containment (S02), support (S10), segments (S08)
use super::*;
use bounds::data;
use contracts::NORMALIZE;
use mazth::i_shape::{IShape, ShapeType};
use mazth::i_vicinity::IVicinity;
use mazth::bound::AxisAlignedBBox;
use mazth::line::Line3;
use mazth::mat::Mat3x1;
use mazth::triprism::TriPrism;
use shapes::*;

/// a prism given by a corner v, the two sides d1, d2 of its base and its height; u is the unit normal of the base, m the length of d1 x d2
pub struct Pr { pub t: TriPrism, pub v: V3, pub d1: V3, pub d2: V3, pub h: Ex, pub u: V3, pub m: Ex, pub n: V3 }

fn f3(e: V3) -> [f64; 3] { [f64::from_ex(e[0]), f64::from_ex(e[1]), f64::from_ex(e[2])] }
fn comb(o: V3, k: &[(Ex, V3)]) -> V3 { let mut r = o; for (a, x) in k { r = add3(r, scale3(*x, *a)); } r }

/// every triangle has the corners v, v + d1, v + d2
pub fn frame() -> Pr {
    canonical();
    let (mut v, mut d1, mut d2): ([f64; 3], [f64; 3], [f64; 3]) = (symn("corner"), symn("side1"), symn("side2"));
    let mut h: f64 = positive("height");
    // concrete runs: every now and then a frame along the axes, on which all arithmetic is exact
    if !symbolic() && choose_bool("aligned") {
        let g = |x: f64| (x * 8.0).round() / 8.0;
        for i in 0..3 { v[i] = g(v[i]); d1[i] = g(d1[i]); d2[i] = g(d2[i]); }
        d1[1] = 0.0; d1[2] = 0.0; d2[2] = 0.0; h = g(h);
        assume(bx(h > 0.0));
    }
    let (ve, e1, e2) = (ex3(&v), ex3(&d1), ex3(&d2));
    let x = cross3(e1, e2);
    assume_nz("base", &x);
    let (b, c3) = (f3(add3(ve, e1)), f3(add3(ve, e2)));
    let base = [v[0], v[1], v[2], b[0], b[1], b[2], c3[0], c3[1], c3[2]];
    let t = val("TriPrism::init", call(|| TriPrism::init(&base, h)));
    let h = ex(h);
    if !symbolic() {
        let len = dot3(x, x).sqrt();
        let u = scale3(x, c(1.0) / len);
        return Pr { t, v: ve, d1: e1, d2: e2, h, u, m: len, n: scale3(u, h) };
    }
    // the same call the constructor makes: same argument, same result
    let u = [fresh_of("unit.x", &x), fresh_of("unit.y", &x), fresh_of("unit.z", &x)];
    let m = fresh_of("length", &x);
    let n = scale3(u, h);
    for i in 0..3 { ensure("prism: height vector", ex(t._normal_height._val[i]).eq(n[i])); }
    Pr { t, v: ve, d1: e1, d2: e2, h, u, m, n }
}
impl Pr {
    /// facts about the frame (u, d1, d2): proved once per path
    pub fn facts(&self) -> (Ex, Ex, Ex, Ex) {
        let (o1, o2, uu, dd) = (ghost("o1", dot3(self.d1, self.u)), ghost("o2", dot3(self.d2, self.u)), ghost("uu", dot3(self.u, self.u)), ghost("dd", dot3(cross3(self.d1, self.d2), self.u)));
        let z = c(0.0);
        let x = cross3(self.d1, self.d2);
        let mut f: Vec<Bx> = (0..3).map(|i| (self.u[i] * self.m).eq(x[i])).collect();
        lemma_from("prism: first side is orthogonal to the normal", &[f[0], f[1], f[2], o1.eq(dot3(self.d1, self.u))], (o1 * self.m).eq(z));
        lemma_from("prism: second side is orthogonal to the normal", &[f[0], f[1], f[2], o2.eq(dot3(self.d2, self.u))], (o2 * self.m).eq(z));
        lemma_from("prism: first side is orthogonal to the normal", &[(o1 * self.m).eq(z), self.m.gt(z)], o1.eq(z));
        lemma_from("prism: second side is orthogonal to the normal", &[(o2 * self.m).eq(z), self.m.gt(z)], o2.eq(z));
        lemma("prism: unit normal", uu.eq(c(1.0)));
        lemma_from("prism: twice the area of the base", &[f[0], f[1], f[2], dot3(self.u, self.u).eq(c(1.0)), dd.eq(dot3(x, self.u))], dd.eq(self.m));
        (o1, o2, uu, dd)
    }
    /// the five half spaces: a corner and an outward normal each
    pub fn half(&self) -> [(V3, V3); 5] {
        let (v1, v2) = (add3(self.v, self.d1), add3(self.v, self.d2));
        [
            (self.v, scale3(self.n, c(-1.0))),
            (add3(self.v, self.n), self.n),
            (self.v, cross3(self.d1, self.n)),
            (v1, cross3(sub3(self.d2, self.d1), self.n)),
            (v2, cross3(scale3(self.d2, c(-1.0)), self.n)),
        ]
    }
    /// the point with the given coordinates
    pub fn at(&self, k: V3) -> V3 { comb(self.v, &[(k[0], self.d1), (k[1], self.d2), (k[2], self.n)]) }
    /// signed depth of the point with coordinates k in the five half spaces: positive is outside
    pub fn depth(&self, k: V3) -> [Ex; 5] {
        // concrete runs: exact only if the point itself is
        let one = if symbolic() { c(1.0) } else { let x = self.at(k); let w = add3(x, self.n); c(1.0) + (w[0] - w[0]) + (w[1] - w[1]) + (w[2] - w[2]) };
        let k = if symbolic() { k } else { [k[0] * one, k[1] * one, k[2] * one] };
        [-k[2], k[2] - one, -k[1], k[0] + k[1] - one, -k[0]]
    }
    pub fn scale(&self) -> [Ex; 5] { let (e, g) = (self.h * self.h, self.h * self.m); [e, e, g, g, g] }
    pub fn inside(&self, k: V3) -> Bx { all(&self.depth(k).iter().map(|x| x.le(c(0.0))).collect::<Vec<_>>()) }
    /// relates the five tests of the point p with coordinates k to its depths
    pub fn tests(&self, g: (Ex, Ex, Ex, Ex), p: V3, k: V3) {
        let (o1, o2, uu, dd) = g;
        let (h, one, z) = (self.h, c(1.0), c(0.0));
        let (a, b, s) = (k[0], k[1], k[2]);
        let up = a * o1 + b * o2 + s * h * uu;
        // the same polynomials with the frame's products named
        let (na, nb, nc) = (ghost("na", a), ghost("nb", b), ghost("nc", s));
        let d = self.depth(k);
        let e = self.scale();
        let named = [-(h * up), h * up - h * h * uu, -(b * h * dd), (a + b - one) * h * dd, -(a * h * dd)];
        let hs = self.half();
        for j in 0..5 {
            let t = dot3(sub3(p, hs[j].0), hs[j].1);
            let f = [o1.eq(dot3(self.d1, self.u)), o2.eq(dot3(self.d2, self.u)), uu.eq(dot3(self.u, self.u)), dd.eq(dot3(cross3(self.d1, self.d2), self.u))];
            let gt = ghost("test", t);
            lemma_from("prism: half-space test in coordinates", &[f[0], f[1], f[2], f[3], gt.eq(t)], gt.eq(named[j]));
            lemma_from("prism: half-space test in coordinates", &[gt.eq(named[j]), o1.eq(z), o2.eq(z), uu.eq(one), dd.eq(self.m)], gt.eq(e[j] * d[j]));
            lemma_from("prism: half-space test in coordinates", &[gt.eq(t), gt.eq(e[j] * d[j])], t.eq(e[j] * d[j]));
            same_sign("prism: half-space test", t, e[j], d[j]);
        }
    }
    /// a point of the solid lies in the bounding box
    pub fn boxed(&self, bd: &([Ex; 3], [Ex; 3]), p: V3, k: V3) {
        let z = c(0.0);
        for i in 0..3 {
            for (side, sgn) in [(bd.0[i], 1.0), (bd.1[i], -1.0)] {
                let w = |x: Ex| if sgn > 0.0 { x - side } else { side - x };
                let vs = [self.v[i], self.v[i] + self.d1[i], self.v[i] + self.d2[i]];
                let mut near = vec![];
                for x in vs { for y in [x, x + self.n[i]] { near.push(ghost("w", w(y))); lemma("prism: a corner lies in the bounding box", w(y).ge(z)); } }
                let f: Vec<Bx> = near.iter().map(|x| x.ge(z)).collect();
                for x in &f { lemma("prism: a corner lies in the bounding box", *x); }
                let (ga, gb, gc) = (ghost("ka", k[0]), ghost("kb", k[1]), ghost("kc", k[2]));
                let one = c(1.0);
                let ins = ga.ge(z) & gb.ge(z) & (ga + gb).le(one) & gc.ge(z) & gc.le(one);
                let r0 = (one - ga - gb) * near[0] + ga * near[2] + gb * near[4];
                let r1 = (one - ga - gb) * near[1] + ga * near[3] + gb * near[5];
                lemma_from("prism: a point of the base lies in the bounding box", &[f[0], f[2], f[4]], implies(ins, r0.ge(z)));
                lemma_from("prism: a point of the far face lies in the bounding box", &[f[1], f[3], f[5]], implies(ins, r1.ge(z)));
                let (g0, g1) = (ghost("r0", r0), ghost("r1", r1));
                lemma("prism: a point of the base", implies(ins, g0.ge(z)) & implies(ins, g1.ge(z)));
                let r = (one - gc) * g0 + gc * g1;
                lemma_from("prism: a point of the solid lies in the bounding box", &[implies(ins, g0.ge(z)), implies(ins, g1.ge(z))], implies(ins, r.ge(z)));
                lemma("prism: a point of the solid lies in the bounding box", r.eq(w(p[i])));
                lemma("prism: a point of the solid lies in the bounding box", implies(self.inside(k), w(p[i]).ge(z)));
            }
        }
    }
}
fn coords(nm: &str, lo: f64, hi: f64) -> V3 {
    let k: Vec<Ex> = ["s", "t", "r"].iter().map(|x| ex(sym_scaled::<f64>(&format!("{}.{}", nm, x), lo, hi))).collect();
    [k[0], k[1], k[2]]
}

pub fn units(us: &mut Units) {
    let ti = init_of("triprism", "TriPrism");
    let g = shape_of("triprism", "TriPrism", "get_intersect");
    let gp = shape_of("point", "Point3", "get_intersect");
    // every point has coordinates in the frame of the prism
    us.u("prism/coordinates", &["S02", "S08"], &[&ti], || {
        use_contracts(&[NORMALIZE]);
        let p = frame();
        let q: [f64; 3] = symn("p");
        if !symbolic() { ensure("prism: frame", p.m.gt(c(0.0))); return; }
        let w = sub3(ex3(&q), p.v);
        let x = cross3(p.d1, p.d2);
        let xx = dot3(x, x);
        let k = [dot3(cross3(w, p.d2), x) / xx, dot3(cross3(p.d1, w), x) / xx, dot3(w, p.u) / p.h];
        lemma("prism: scale of the normal", (p.m * p.m).eq(xx));
        let r = p.at(k);
        for i in 0..3 { ensure("prism: every point has coordinates", r[i].eq(ex(q[i]))); }
    });
    us.merged();
    us.u("point/in/prism", &["S02", "S08"], &[&g, &gp, &ti], || {
        use_contracts(&[NORMALIZE]);
        let p = frame();
        let k = coords("p", -0.3, 1.3);
        let x = p.at(k);
        if symbolic() {
            let f = p.facts();
            p.tests(f, x, k);
            p.boxed(&data("prism", &p.t), x, k);
        }
        let r = ask(&p.t, &mk_point(f3(x)));
        exact("point in prism", &r, p.inside(k));
        if r.0 { ensure("point in prism: location is the point", eq3(loc(&r), x)); }
    });
    us.merged();
    us.u("support/prism", &["S10"], &[&shape_of("triprism", "TriPrism", "get_support"), &ti], || {
        canonical();
        // three corners and the offset of the far face; the constructor's corners are of this form (S01)
        let (v0, v1, v2, n): ([f64; 3], [f64; 3], [f64; 3], [f64; 3]) = (symn("corner0"), symn("corner1"), symn("corner2"), symn("offset"));
        let e = [ex3(&v0), ex3(&v1), ex3(&v2)];
        let ne = ex3(&n);
        let far: Vec<[f64; 3]> = e.iter().map(|x| f3(add3(*x, ne))).collect();
        let t = TriPrism { _tri_base: [m3(v0), m3(v1), m3(v2)], _tri_base2: [m3(far[0]), m3(far[1]), m3(far[2])], _normal_height: m3(n), ..Default::default() };
        let d = direction("direction");
        let de = ex3(&d);
        let vs = [e[0], e[1], e[2], add3(e[0], ne), add3(e[1], ne), add3(e[2], ne)];
        let dots: Vec<Ex> = (0..6).map(|i| if symbolic() { abbrev("dot", dot3(vs[i], de)) } else { dot3(vs[i], de) }).collect();
        let r = ev(&some("get_support", call(|| t.get_support(&m3(d)))));
        let rd = dot3(r, de);
        let mut is = eq3(r, vs[0]);
        for i in 1..6 { is = is | eq3(r, vs[i]); }
        ensure("prism: support point is a corner", is);
        for i in 0..6 { ensure("prism: no corner lies farther along the direction", dots[i].le(rd)); }
        if !symbolic() { return; }
        // any point of the solid is a weighted mean of the corners
        let (a, b, s) = (ex(sym::<f64>("p.s")), ex(sym::<f64>("p.t")), ex(sym::<f64>("p.r")));
        let (one, z) = (c(1.0), c(0.0));
        let ins = [a.ge(z), b.ge(z), (a + b).le(one), s.ge(z), s.le(one)];
        for x in &ins { assume(*x); }
        let p = comb(e[0], &[(a, sub3(e[1], e[0])), (b, sub3(e[2], e[0])), (s, ne)]);
        let gap: Vec<Ex> = (0..6).map(|i| ghost("gap", rd - dots[i])).collect();
        let pos: Vec<Bx> = gap.iter().map(|x| x.ge(z)).collect();
        for x in &pos { lemma("prism: no corner lies farther along the direction", *x); }
        let near = (one - a - b) * gap[0] + a * gap[1] + b * gap[2];
        let farf = (one - a - b) * gap[3] + a * gap[4] + b * gap[5];
        lemma_from("prism: no point of the base is farther", &[ins[0], ins[1], ins[2], pos[0], pos[1], pos[2]], near.ge(z));
        lemma_from("prism: no point of the far face is farther", &[ins[0], ins[1], ins[2], pos[3], pos[4], pos[5]], farf.ge(z));
        let (g, h) = (ghost("near", near), ghost("far", farf));
        lemma("prism: no point of either face is farther", g.ge(z) & h.ge(z));
        let mix = (one - s) * g + s * h;
        lemma_from("prism: no point is farther", &[g.ge(z), h.ge(z), ins[3], ins[4]], mix.ge(z));
        lemma("prism: distance along the direction is affine", mix.eq(rd - dot3(p, de)));
        ensure("prism: no point lies farther along the direction", dot3(p, de).le(rd));
    });
    segment(us);
}

fn segment(us: &mut Units) {
    let (ti, g, gl) = (init_of("triprism", "TriPrism"), shape_of("triprism", "TriPrism", "get_intersect"), shape_of("line", "Line3", "get_intersect"));
    us.u("prism/segment/point", &["S08", "S09"], &[&g, &gl, &ti], || {
        use_contracts(&[NORMALIZE]);
        let p = frame();
        let k = coords("p", -0.3, 1.3);
        let x = p.at(k);
        if symbolic() {
            let f = p.facts();
            p.tests(f, x, k);
            p.boxed(&data("prism", &p.t), x, k);
        }
        let q = f3(x);
        let r = ask(&p.t, &val("Line3::init", call(|| Line3::init(&q, &q))));
        exact("segment of zero length in prism", &r, p.inside(k));
        if r.0 { ensure("segment of zero length in prism: location is the point", eq3(loc(&r), x)); }
    });
    us.merged();
    // what the two units below leave out: the segment is the one given, and both bounding boxes contain their shapes
    us.u("prism/segment/bounds", &["S08"], &[&ti, &init_of("line", "Line3")], || {
        let (a, w): ([f64; 3], [f64; 3]) = (symn("a"), symn("along"));
        let (ae, we) = (ex3(&a), ex3(&w));
        let b = f3(add3(ae, we));
        let l = val("Line3::init", call(|| Line3::init(&a, &b)));
        ensure("segment: keeps its ends", eq3(ev(&l._a), ae) & eq3(ev(&l._b), ex3(&b)));
        if !symbolic() { return; }
        let t = ex(sym::<f64>("t"));
        let tt = [t.ge(c(0.0)), t.le(c(1.0))];
        assume(tt[0] & tt[1]);
        let bl = data("segment", &l);
        for i in 0..3 {
            let x = ghost("x", ae[i] + t * we[i]);
            let (al, ah, el, eh) = (ghost("al", ae[i] - bl.0[i]), ghost("ah", bl.1[i] - ae[i]), ghost("bl", ae[i] + we[i] - bl.0[i]), ghost("bh", bl.1[i] - ae[i] - we[i]));
            for y in [al, ah, el, eh] { lemma("segment: an end lies in the bounding box", y.ge(c(0.0))); }
            let (lo, hi) = ((c(1.0) - t) * al + t * el, (c(1.0) - t) * ah + t * eh);
            lemma_from("segment: a point lies in the bounding box", &[tt[0], tt[1], al.ge(c(0.0)), el.ge(c(0.0))], lo.ge(c(0.0)));
            lemma_from("segment: a point lies in the bounding box", &[tt[0], tt[1], ah.ge(c(0.0)), eh.ge(c(0.0))], hi.ge(c(0.0)));
            lemma("segment: a point lies in the bounding box", lo.eq(x - bl.0[i]) & hi.eq(bl.1[i] - x));
            lemma("segment: a point lies in the bounding box", bl.0[i].le(x) & x.le(bl.1[i]));
        }
    });
    us.merged();
    us.u("prism/segment/sound", &["S08"], &[&g, &gl, &ti], || {
        if !symbolic() { return concrete_segment(); }
        let s = Seg::new(None);
        let r = ask(&s.p.t, &s.line);
        if r.0 {
            let l = loc(&r);
            for j in 0..5 { ensure("segment in prism: location is in the prism", s.f(j, l).le(c(0.0))); }
            s.on(l);
        }
    });
    us.merged();
    us.u("prism/segment/complete", &["S08"], &[&g, &gl, &ti], || {
        if !symbolic() { return concrete_segment(); }
        let z = c(0.0);
        let case = choose("facet entered through", 6);
        let s = Seg::new(if case < 5 { Some(case as usize) } else { None });
        let t = ex(sym::<f64>("t"));
        assume(t.ge(z) & t.le(c(1.0)));
        for j in 0..5 { assume((s.c[j] + t * s.g[j]).le(z)); }
        // the point at t is in both boxes (prism/segment/bounds)
        for b in &s.boxes { for i in 0..3 { let x = s.a[i] + t * s.w[i]; assume(b[i].le(x) & x.le(b[3 + i])); } }
        if case == 5 {
            for j in 0..5 { assume(s.c[j].le(z)); }
        } else {
            let k = case as usize;
            assume(s.c[k].gt(z));
            for j in 0..5 { assume(implies(s.c[j].gt(z), (s.e[j] * s.g[j]).eq(-s.c[j]))); }
            for j in 0..5 { assume(implies(s.c[j].gt(z), s.e[j].le(s.e[k]))); }
            let (ck, gk, ek) = (s.c[k], s.g[k], s.e[k]);
            lemma_from("the facet is approached", &[ck.gt(z), (ck + t * gk).le(z), t.ge(z)], gk.lt(z) & t.gt(z));
            lemma_from("the facet is met", &[ck.gt(z), gk.lt(z), (ek * gk).eq(-ck)], ek.gt(z));
            lemma_from("the facet is met before the point", &[gk.lt(z), (ek * gk).eq(-ck), (ck + t * gk).le(z)], ek.le(t));
            for j in 0..5 {
                let (cj, gj, ej) = (s.c[j], s.g[j], s.e[j]);
                let at = cj + ek * gj;
                lemma_from("entry point: inside the facets the start is inside of", &[ek.gt(z), ek.le(t), (cj + t * gj).le(z)], implies(cj.le(z), at.le(z)));
                lemma_from("entry point: inside the other facets", &[t.gt(z), (cj + t * gj).le(z), implies(cj.gt(z), (ej * gj).eq(-cj)), implies(cj.gt(z), ej.le(ek))], implies(cj.gt(z), at.le(z)));
                lemma("entry point: in the prism", at.le(z));
            }
        }
        let r = ask1(&s.p.t, &s.line);
        let mut f = vec![t];
        f.extend(s.c.iter().chain(s.g.iter()).chain(s.e.iter()));
        focus(&f);
        ensure("segment in prism: reported whenever true", bx(r.0));
    });
    us.merged();
    us.sampled();
    // a point of a segment in the prism is preceded by an entry point: the start, or the last of the facets the start is outside of
    us.u("prism/segment/cases", &["S08"], &[&g], || {
        let (z, n) = (c(0.0), 5);
        let cs: Vec<Ex> = (0..n).map(|i| ex(sym::<f64>(&format!("c{}", i)))).collect();
        let es: Vec<Ex> = (0..n).map(|i| ex(sym::<f64>(&format!("e{}", i)))).collect();
        let mut cases = all(&cs.iter().map(|x| x.le(z)).collect::<Vec<_>>());
        for k in 0..n {
            cases = cases | (cs[k].gt(z) & all(&(0..n).map(|j| implies(cs[j].gt(z), es[j].le(es[k]))).collect::<Vec<_>>()));
        }
        ensure("some case of the completeness proof applies", cases);
    });
}

/// a segment a + t w against a prism, in terms of the five signed distances c + t g (up to positive factors)
struct Seg { ww: Ex, line: Line3, boxes: Vec<Vec<Ex>>, p: Pr, a: V3, w: V3, c: Vec<Ex>, g: Vec<Ex>, e: Vec<Ex>, hs: [(V3, V3); 5] }
impl Seg {
    fn new(entry: Option<usize>) -> Seg {
        use_contracts(&[NORMALIZE, contracts::RAY_PLANE, contracts::RAY_BOUND]);
        prune_locally();
        let mut p = frame();
        let (a, w) = (ex3(&symn::<f64, 3>("a")), ex3(&direction("along")));
        let hs = p.half();
        let z = c(0.0);
        // distances of the start, and their change along the segment, under a name of their own
        let cs: Vec<Ex> = (0..5).map(|j| abbrev("c", dot3(sub3(a, hs[j].0), hs[j].1))).collect();
        let gs: Vec<Ex> = (0..5).map(|j| abbrev("g", dot3(w, hs[j].1))).collect();
        let es: Vec<Ex> = (0..5).map(|j| ex(sym::<f64>(&format!("entry{}", j)))).collect();
        // the five normals are not zero
        let (h, z) = (p.h, c(0.0));
        p.facts();
        let x = cross3(p.d1, p.d2);
        let uu = ghost("uu", dot3(p.u, p.u));
        lemma("prism: unit normal", uu.eq(c(1.0)));
        for (j, e, o) in [(2, p.d1, p.d2), (3, sub3(p.d2, p.d1), p.d1), (4, scale3(p.d2, c(-1.0)), p.d1)] {
            let (xx, ee, oo, eo) = (ghost("xx", dot3(x, x)), ghost("ee", dot3(e, e)), ghost("oo", dot3(o, o)), ghost("eo", dot3(e, o)));
            lemma("prism: length of the base's normal", xx.gt(z));
            lemma("prism: length of a side", ee.ge(z) & oo.ge(z));
            lemma_from("prism: area of the base", &[xx.eq(dot3(x, x)), ee.eq(dot3(e, e)), oo.eq(dot3(o, o)), eo.eq(dot3(e, o))], xx.eq(ee * oo - eo * eo));
            lemma_from("prism: length of a side", &[xx.gt(z), ee.ge(z), oo.ge(z), xx.eq(ee * oo - eo * eo)], ee.gt(z));
            let (eu, nn) = (ghost("eu", dot3(e, p.u)), ghost("nn", dot3(hs[j].1, hs[j].1)));
            lemma("prism: a side is orthogonal to the normal", eu.eq(z));
            lemma_from("prism: length of the normal of a facet", &[nn.eq(dot3(hs[j].1, hs[j].1)), ee.eq(dot3(e, e)), eu.eq(dot3(e, p.u)), uu.eq(dot3(p.u, p.u))], nn.eq(h * h * (ee * uu - eu * eu)));
            lemma_from("prism: length of the normal of a facet", &[nn.eq(h * h * (ee * uu - eu * eu)), ee.gt(z), h.gt(z), uu.eq(c(1.0)), eu.eq(z)], nn.gt(z));
            lemma_from("prism: length of the normal of a facet", &[nn.gt(z), nn.eq(dot3(hs[j].1, hs[j].1))], dot3(hs[j].1, hs[j].1).gt(z));
        }
        // any bounding boxes
        let bs: Vec<[f64; 6]> = ["box0", "box1"].iter().map(|n| symn::<f64, 6>(n)).collect();
        let bb: Vec<AxisAlignedBBox> = bs.iter().map(|b| val("AxisAlignedBBox::init", call(|| AxisAlignedBBox::init(ShapeType::Rect, b)))).collect();
        let mut line = val("Line3::init", call(|| Line3::init(&[0.0; 3], &[1.0, 2.0, 3.0])));
        line._a = m3(f3(a));
        line._b = m3(f3(add3(a, w)));
        line._bound = bb[0].clone();
        p.t._bound = bb[1].clone();
        let boxes: Vec<Vec<Ex>> = bs.iter().map(|b| b.iter().map(|x| ex(*x)).collect()).collect();
        let ww = ghost("ww", dot3(w, w));
        lemma("along: squared length is positive", ww.gt(z));
        let s = Seg { ww, line, boxes, p, a, w, c: cs, g: gs, e: es, hs };
        s.named(c(1.0), None);
        let len = fresh_of("length", &w);
        let units: Vec<V3> = (0..5).map(|j| [fresh_of("unit.x", &s.hs[j].1), fresh_of("unit.y", &s.hs[j].1), fresh_of("unit.z", &s.hs[j].1)]).collect();
        let ms: Vec<Ex> = (0..5).map(|j| fresh_of("length", &s.hs[j].1)).collect();
        let uw = [fresh_of("unit.x", &w), fresh_of("unit.y", &w), fresh_of("unit.z", &w)];
        // the parameter at which the segment meets each facet; the names used in the argument about the facet entered through
        let ks: Vec<Ex> = (0..5).map(|j| if Some(j) == entry { s.e[j] } else { fresh("hit") }).collect();
        let met = fresh("t");
        let gn: V3 = entry.map(|j| s.hs[j].1).unwrap_or([z; 3]);
        let gn = [ghost("n", gn[0]), ghost("n", gn[1]), ghost("n", gn[2])];
        let (den, num) = entry.map(|j| (ghost("den", dot3(units[j], uw)), ghost("num", dot3(units[j], sub3(s.hs[j].0, a))))).unwrap_or((z, z));
        let me = Seg { line: s.line.clone(), boxes: vec![], p: Pr { t: s.p.t.clone(), ..s.p }, a, w, c: s.c.clone(), g: s.g.clone(), e: s.e.clone(), hs: s.hs, ww: s.ww };
        let asked = std::cell::RefCell::new([None; 5]);
        let hook: contracts::Cast = Box::new(move |pt, n, o, u| {
            if !surely(eq3(o, me.a)) || !surely(eq3(u, uw)) { give_up("the ray is not the one along the segment"); }
            let j = match (0..5).find(|j| surely(eq3(n, units[*j]))) { Some(j) => j, None => give_up("a plane that is no facet") };
            if !surely(eq3(pt, me.hs[j].0)) { give_up("the plane does not go through the expected corner"); }
            let (m, nn, k) = (ms[j], me.hs[j].1, ks[j]);
            for i in 0..3 { lemma("facet: unit normal", (n[i] * m).eq(nn[i]) & m.gt(z)); }
            let x = [me.a[0] + k * me.w[0], me.a[1] + k * me.w[1], me.a[2] + k * me.w[2]];
            if Some(j) == entry {
                // the ray meets this plane: n.u < 0 and n.(p - o) <= 0, so it is reported at o + t u with t n.u = n.(p - o)
                let f: Vec<Bx> = (0..3).map(|i| (n[i] * m).eq(gn[i])).chain((0..3).map(|i| (u[i] * len).eq(me.w[i]))).collect();
                for i in 0..3 {
                    lemma_from("facet: unit normal", &[(n[i] * m).eq(nn[i]), gn[i].eq(nn[i])], f[i]);
                    lemma("ray: unit direction", f[3 + i] & len.gt(z));
                }
                let g3: Vec<Bx> = (0..3).map(|i| gn[i].eq(nn[i])).collect();
                lemma_from("facet: change along the segment", &g3, dot3(gn, me.w).eq(me.g[j]));
                lemma_from("facet: distance of the start", &g3, dot3(gn, sub3(pt, o)).eq(-me.c[j]));
                let mut f1 = f.clone();
                f1.push(den.eq(dot3(n, u)));
                lemma_from("facet: change along the ray", &f1, (den * m * len).eq(dot3(gn, me.w)));
                let mut f2 = f.clone();
                f2.push(num.eq(dot3(n, sub3(pt, o))));
                lemma_from("facet: distance from the plane", &f2, (num * m).eq(dot3(gn, sub3(pt, o))));
                let pos = [m.gt(z), len.gt(z)];
                let (d1, d2) = ((den * m * len).eq(me.g[j]), (num * m).eq(-me.c[j]));
                lemma_from("facet: change along the ray", &[(den * m * len).eq(dot3(gn, me.w)), dot3(gn, me.w).eq(me.g[j])], d1);
                lemma_from("facet: change along the ray", &[(num * m).eq(dot3(gn, sub3(pt, o))), dot3(gn, sub3(pt, o)).eq(-me.c[j])], d2);
                lemma_from("facet: faces the ray", &[pos[0], pos[1], d1, me.g[j].lt(z)], den.lt(z));
                lemma_from("facet: ahead of the ray", &[pos[0], d2, me.c[j].gt(z)], num.lt(z));
                assume((met * den).eq(num) & met.ge(z));
                lemma_from("facet: met at the entry point", &[pos[0], pos[1], d1, d2, den.lt(z), (met * den).eq(num), (k * me.g[j]).eq(-me.c[j])], met.eq(k * len));
                for i in 0..3 { lemma_from("facet: met at the entry point", &[met.eq(k * len), (u[i] * len).eq(me.w[i])], (o[i] + met * u[i]).eq(me.a[i] + k * me.w[i])); }
            } else {
                // what is kept of the contract: if anything is reported, it lies on the ray (t = hit * |w|) and on the plane
                // (the same question gets the same answer)
                let hit = asked.borrow()[j].unwrap_or_else(|| choose("hit", 2) == 1);
                asked.borrow_mut()[j] = Some(hit);
                if !hit { return None; }
                assume(k.ge(z));
                assume(dot3(nn, sub3(x, pt)).eq(z));
                lemma_from("facet: reported on the facet", &[dot3(nn, sub3(x, pt)).eq(z)], (me.c[j] + k * me.g[j]).eq(z));
            }
            me.named(k, Some(x));
            Some(x)
        });
        contracts::CAST.with(|h| *h.borrow_mut() = Some(hook));
        s
    }
    fn f(&self, j: usize, x: V3) -> Ex { dot3(sub3(x, self.hs[j].0), self.hs[j].1) }
    /// writes the distances of a + k w as c + k g
    fn named(&self, k: Ex, x: Option<V3>) {
        let x = x.unwrap_or(add3(self.a, self.w));
        let ww = dot3(self.w, self.w);
        for j in 0..5 { rewrite("distance of a point of the segment", self.f(j, x), self.c[j] + k * self.g[j]); }
        let d = sub3(x, self.a);
        if surely(k.eq(c(1.0))) { return; }
        let (gw, z, one) = (self.ww, c(0.0), c(1.0));
        lemma_from("parameter of the segment", &[gw.gt(z), k.ge(z)], (gw * (k + one)).gt(z));
        lemma_from("parameter of the segment", &[gw.eq(ww), (gw * (k + one)).gt(z)], (ww * (k + one)).gt(z));
        same_sign("parameter of the segment", dot3(d, d) - ww, ww * (k + c(1.0)), k - c(1.0));
    }
    fn on(&self, l: V3) {
        let ww = dot3(self.w, self.w);
        let k = dot3(sub3(l, self.a), self.w) / ww;
        ensure("segment in prism: location is on the segment", any(&[eq3(l, self.a), eq3(l, add3(self.a, self.w)), k.ge(c(0.0)) & k.le(c(1.0)) & eq3(l, comb(self.a, &[(k, self.w)]))]));
    }
}
/// the same answer in both orders, for segments of positive length and any bounding boxes
pub fn order_segment() {
    let s = Seg::new(None);
    both("prism and segment", &s.p.t, &s.line);
}
fn give_up(m: &str) -> ! { panic!("{}", m) }

/// machine arithmetic: clear cases only
fn concrete_segment() {
    let p = frame();
    let (ka, mut kb) = (coords("a", -1.5, 2.5), coords("b", -1.5, 2.5));
    // short ones too
    if choose_bool("short") { for i in 0..3 { kb[i] = ka[i] + (kb[i] - ka[i]) * c(0.125); } }
    let (a, b) = (f3(p.at(ka)), f3(p.at(kb)));
    let f = |x: Ex| f64::from_ex(x);
    let size = a.iter().chain(b.iter()).fold(0.0f64, |m, x| m.max(x.abs())) + p.v.iter().chain(p.d1.iter()).chain(p.d2.iter()).chain(p.n.iter()).fold(0.0f64, |m, x| m.max(f(*x).abs()));
    let ok = f(p.m) > 1e-2 && f(p.h) > 1e-2 && size < 100.0;
    assume(bx(ok));
    let r = ask(&p.t, &val("Line3::init", call(|| Line3::init(&a, &b))));
    let (da, db) = (p.depth(ka), p.depth(kb));
    let (mut lo, mut hi, mut k) = (0.0f64, 1.0f64, 9);
    let eps = 1e-5;
    let mut clear_miss = false;
    for j in 0..5 {
        let (x, y) = (f(da[j]), f(db[j]));
        let g = y - x;
        if x > eps && y > eps { clear_miss = true; }
        if g.abs() < 1e-4 { if x.max(y) > -eps && x.min(y) < eps { assume(bx(false)); } if x > 0.0 { clear_miss = true; } continue; }
        let t = -x / g;
        if g < 0.0 { if t > lo { lo = t; k = j; } } else { hi = hi.min(t); }
    }
    if lo > hi + 1e-3 { clear_miss = true; }
    if clear_miss { ensure("segment in prism: reported only when true", bx(!r.0)); }
    else if hi > lo + 1e-3 {
        // clear of the other facets where it enters
        let mut ok = true;
        for j in 0..5 { if j != k { let y = f(da[j]) + lo * (f(db[j]) - f(da[j])); if y > -eps { ok = false; } } }
        if ok { ensure("segment in prism: reported whenever true", bx(r.0)); }
    }
    if r.0 {
        let l = loc(&r);
        let mut far = 0.0f64;
        for (v, n) in p.half().iter() { far = far.max(f(dot3(sub3(l, *v), *n)) / f(dot3(*n, *n)).sqrt()); }
        ensure("segment in prism: location is in the prism", bx(far < 1e-6));
        let w = sub3(ex3(&b), ex3(&a));
        let ww = f(dot3(w, w));
        let t = if ww > 0.0 { (f(dot3(sub3(l, ex3(&a)), w)) / ww).max(0.0).min(1.0) } else { 0.0 };
        let q = sub3(l, comb(ex3(&a), &[(c(t), w)]));
        ensure("segment in prism: location is on the segment", bx(f(dot3(q, q)).sqrt() < 1e-6));
    }
}
