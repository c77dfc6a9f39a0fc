//! S11: the support-function overlap query on two spheres, with a loop invariant
use super::*;
use contracts::NORMALIZE;
use mazth::i_shape::{IShape, ShapeType};
use mazth::mat::Mat3x1;
use mazth::sphere::Sphere;
use shapes::*;
use std::cell::RefCell;
use std::rc::Rc;

type M3 = Mat3x1<f64>;
type OnSupport = Box<dyn Fn(&mut Option<M3>, &M3)>;
type OnContains = Box<dyn Fn(bool, &mut Vec<M3>, &mut M3) -> bool>;
thread_local! {
    static SUPPORT: RefCell<Option<OnSupport>> = RefCell::new(None);
    static CONTAINS: RefCell<Option<OnContains>> = RefCell::new(None);
}
pub const AT_SUPPORT: &str = "mazth::intersect_gjk::support";
pub const AT_CONTAINS: &str = "mazth::intersect_gjk::contains_minkowski_origin";
#[export_name = "after:mazth::intersect_gjk::support"]
pub fn after_support(out: &mut Option<M3>, _a: &dyn IShape, _b: &dyn IShape, v: &M3) {
    SUPPORT.with(|h| if let Some(f) = &*h.borrow() { f(out, v) });
}
#[export_name = "after:mazth::intersect_gjk::contains_minkowski_origin"]
pub fn after_contains(r: bool, simplex: &mut Vec<M3>, d: &mut M3) -> bool {
    CONTAINS.with(|h| match &*h.borrow() { Some(f) => f(r, simplex, d), None => r })
}

fn f3(e: V3) -> [f64; 3] { [f64::from_ex(e[0]), f64::from_ex(e[1]), f64::from_ex(e[2])] }
fn g3(nm: &str, e: V3) -> V3 { [ghost(nm, e[0]), ghost(nm, e[1]), ghost(nm, e[2])] }
fn fr3(nm: &str) -> V3 { [fresh(nm), fresh(nm), fresh(nm)] }
fn eqs(a: V3, b: V3) -> Vec<Bx> { (0..3).map(|i| a[i].eq(b[i])).collect() }
fn cat(v: &[&[Bx]]) -> Vec<Bx> { v.iter().flat_map(|x| x.iter().cloned()).collect() }
fn sq(x: Ex) -> Ex { x * x }
fn neg3(a: V3) -> V3 { scale3(a, c(-1.0)) }

/// the Minkowski difference of two balls: the ball around c0 with radius rr
#[derive(Clone)]
struct Ball { ca: V3, cb: V3, c0: V3, ra: Ex, rb: Ex, rr: Ex, cc: Ex }
/// the latest support point: p = c0 + rr u, d = m u
#[derive(Clone)]
struct Sup { p: V3, u: V3, m: Ex, d: V3, pd: Ex }
/// what holds of the simplex (p0, p1) and the direction d whenever the loop starts another round
#[derive(Clone)]
struct Inv { p: [V3; 2], d: V3, first: bool }

impl Ball {
    fn defs(&self) -> Vec<Bx> { cat(&[&eqs(self.c0, sub3(self.ca, self.cb)), &[self.rr.eq(self.ra + self.rb), self.rr.gt(c(0.0))]]) }
    fn on(&self, p: V3) -> Bx { let q = sub3(p, self.c0); dot3(q, q).le(sq(self.rr)) }
    /// a support point of the difference: where it is, and what it means not to pass the origin
    fn support(&self, out: V3, v: V3) -> Sup {
        let z = c(0.0);
        let w = scale3(v, c(-1.0));
        let of = |e: V3| ([fresh_of("unit.x", &e), fresh_of("unit.y", &e), fresh_of("unit.z", &e)], fresh_of("length", &e));
        let ((u, m), (r, l)) = (of(v), of(w));
        // unit vectors of opposite vectors are opposite
        let (vu, vr): (Vec<Bx>, Vec<Bx>) = ((0..3).map(|i| (u[i] * m).eq(v[i])).collect(), (0..3).map(|i| (r[i] * l).eq(w[i])).collect());
        let (uu, rr) = (dot3(u, u).eq(c(1.0)), dot3(r, r).eq(c(1.0)));
        let (mm, ll) = (ghost("mm", dot3(v, v)), ghost("ll", dot3(v, v)));
        lemma_from("support: length of the direction", &cat(&[&vu, &[uu, mm.eq(dot3(v, v))]]), sq(m).eq(mm));
        lemma_from("support: length of the direction", &cat(&[&vr, &[rr, mm.eq(dot3(v, v))]]), sq(l).eq(mm));
        let _ = ll;
        lemma_from("support: same length both ways", &[sq(m).eq(mm), sq(l).eq(mm), m.gt(z), l.gt(z)], l.eq(m));
        for i in 0..3 { lemma_from("support: opposite unit vectors", &[vu[i], vr[i], l.eq(m), m.gt(z)], r[i].eq(-u[i])); }
        if surely(dot3(v, v).eq(c(1.0))) {
            lemma_from("support: a unit direction", &[sq(m).eq(mm), mm.eq(dot3(v, v)), m.gt(z)], m.eq(c(1.0)));
            for i in 0..3 { lemma_from("support: a unit direction", &[vu[i], m.eq(c(1.0))], u[i].eq(v[i])); }
        }
        let p = g3("p", out);
        for i in 0..3 { lemma_from("support: the farthest point of the difference", &cat(&[&self.defs(), &[p[i].eq(out[i]), r[i].eq(-u[i])]]), p[i].eq(self.c0[i] + self.rr * u[i])); }
        let at = self.at(p, u);
        lemma_from("support: on the boundary of the difference", &cat(&[&at, &[uu]]), dot3(sub3(p, self.c0), sub3(p, self.c0)).eq(sq(self.rr)));
        // not past the origin: the origin is not inside
        let (pd, cu) = (ghost("pd", dot3(p, v)), ghost("cu", dot3(self.c0, u)));
        lemma_from("support: distance along the direction", &cat(&[&at, &vu, &[uu, pd.eq(dot3(p, v)), cu.eq(dot3(self.c0, u))]]), pd.eq(m * (cu + self.rr)));
        lemma_pure("Cauchy-Schwarz", sq(dot3(self.c0, u)).le(dot3(self.c0, self.c0) * dot3(u, u)));
        lemma_from("support: Cauchy-Schwarz", &[uu, self.cc.eq(dot3(self.c0, self.c0)), cu.eq(dot3(self.c0, u)), sq(dot3(self.c0, u)).le(dot3(self.c0, self.c0) * dot3(u, u))], sq(cu).le(self.cc));
        let miss = pd.le(z);
        lemma_from("support: origin beyond the difference", &[m.gt(z), pd.eq(m * (cu + self.rr))], implies(miss, (cu + self.rr).le(z)));
        lemma_from("support: origin beyond the difference", &[self.rr.gt(z), sq(cu).le(self.cc), implies(miss, (cu + self.rr).le(z))], implies(miss, self.cc.ge(sq(self.rr))));
        Sup { p, u, m, d: v, pd }
    }
    fn at(&self, p: V3, u: V3) -> Vec<Bx> { (0..3).map(|i| p[i].eq(self.c0[i] + self.rr * u[i])).collect() }
    /// the invariant, about any two points and any direction: (text, claim)
    fn inv(&self, s: &Inv) -> Vec<Bx> {
        let z = c(0.0);
        let (b, cc) = (s.p[1], s.p[0]);
        let q = cross3(b, cc);
        let v = cross3(sub3(b, cc), q);
        let mut f = vec![self.on(b), self.on(cc), dot3(q, s.d).eq(z), dot3(q, self.c0).eq(z), dot3(q, q).gt(z)];
        if s.first { f.extend([dot3(v, s.d).gt(z), dot3(v, sub3(self.c0, b)).eq(z)]); } else { f.extend([dot3(s.d, b).eq(dot3(s.d, cc)), dot3(s.d, b).lt(z)]); }
        f
    }
    fn any_state(&self, first: bool) -> Inv {
        let s = Inv { p: [fr3("p0"), fr3("p1")], d: fr3("d"), first };
        for f in self.inv(&s) { assume(f); }
        let (d, z) = (s.d, c(0.0));
        lemma("gjk: the direction is not zero", nz(&d));
        s
    }
    /// first round: two opposite points; answers yes only if the origin is between them
    fn segment_yes(&self, a0: &Sup, a1: &Sup) {
        let (z, rr, c0) = (c(0.0), self.rr, self.c0);
        let (a, b) = (a1.p, a0.p);
        let (ab, ao) = (sub3(b, a), neg3(a));
        let n = cross3(cross3(ab, ao), ao);
        let s = ghost("s", dot3(n, n));
        lemma("segment: no direction towards the origin", s.eq(z));
        let g = g3("n", n);
        lemma_from("segment: no direction towards the origin", &cat(&[&eqs(g, n), &[s.eq(z), s.eq(dot3(n, n))]]), (sq(g[0]) + sq(g[1]) + sq(g[2])).eq(z));
        for i in 0..3 { lemma_from("segment: no direction towards the origin", &[(sq(g[0]) + sq(g[1]) + sq(g[2])).eq(z)], g[i].eq(z)); }
        let pos = self.ends(a0, a1);
        let x = c0[0];
        for i in 1..3 {
            // n_i = -2 rr c0_i (c0_x + rr)
            lemma_from("segment: normal", &cat(&[&eqs(g, n), &self.ends_at(a0, a1)]), g[i].eq(c(-2.0) * rr * c0[i] * (x + rr)));
            lemma_from("segment: the origin is on the axis", &[g[i].eq(c(-2.0) * rr * c0[i] * (x + rr)), g[i].eq(z), rr.gt(z), pos[1]], c0[i].eq(z));
        }
        lemma_from("segment: the origin is in the difference", &[c0[1].eq(z), c0[2].eq(z), self.cc.eq(dot3(c0, c0)), pos[0], pos[1], rr.gt(z)], self.cc.le(sq(rr)));
    }
    /// the first two points: c0 -+ rr along x, on either side of the origin
    fn ends(&self, a0: &Sup, a1: &Sup) -> [Bx; 2] {
        let z = c(0.0);
        let e = self.ends_at(a0, a1);
        for i in 0..3 {
            lemma_from("segment: first point", &[a0.p[i].eq(self.c0[i] + self.rr * a0.u[i]), a0.u[i].eq(a0.d[i])], e[i]);
            lemma_from("segment: second point", &[a1.p[i].eq(self.c0[i] + self.rr * a1.u[i]), a1.u[i].eq(a1.d[i])], e[3 + i]);
        }
        let pos = [(self.c0[0] - self.rr).lt(z), (self.c0[0] + self.rr).gt(z)];
        lemma("segment: the first point is behind the origin", a0.p[0].lt(z));
        lemma("segment: the second point is past the origin", a1.p[0].gt(z));
        lemma_from("segment: the first point is behind the origin", &[e[0], a0.p[0].lt(z)], pos[0]);
        lemma_from("segment: the second point is past the origin", &[e[3], a1.p[0].gt(z)], pos[1]);
        pos
    }
    fn ends_at(&self, a0: &Sup, a1: &Sup) -> Vec<Bx> {
        let x = [c(1.0), c(0.0), c(0.0)];
        cat(&[&eqs(a0.p, sub3(self.c0, scale3(x, self.rr))), &eqs(a1.p, add3(self.c0, scale3(x, self.rr)))])
    }
    fn segment_no(&self, a0: &Sup, a1: &Sup, s: &Inv) {
        let (z, rr, c0) = (c(0.0), self.rr, self.c0);
        let pos = self.ends(a0, a1);
        let at = self.ends_at(a0, a1);
        let (b, p0) = (a1.p, a0.p);
        for (p, k) in [(p0, 0), (b, 3)] {
            let q = sub3(p, c0);
            lemma_from("segment: on the boundary", &at[k..k + 3], dot3(q, q).eq(sq(rr)));
            lemma_from("segment: on the boundary", &[dot3(q, q).eq(sq(rr))], self.on(p));
        }
        // d = q x ao, q = b x p0
        let q = cross3(b, p0);
        let v = cross3(sub3(b, p0), q);
        let (gq, gd) = (g3("q", q), g3("d", s.d));
        let ao = neg3(b);
        let k = cross3(gq, ao);
        let fq = eqs(gq, q);
        for i in 0..3 { lemma_from("segment: direction towards the origin", &cat(&[&fq, &[gd[i].eq(s.d[i])]]), gd[i].eq(k[i])); }
        let dk = eqs(gd, k);
        let (qq, s2, bb) = (ghost("qq", dot3(gq, gq)), ghost("s", dot3(gd, gd)), ghost("bb", dot3(b, b)));
        lemma("segment: the direction is not zero", nz(&s.d));
        lemma_from("segment: the direction is not zero", &cat(&[&eqs(gd, s.d), &[nz(&s.d)]]), nz(&gd));
        lemma_from("segment: the direction is not zero", &[nz(&gd), s2.eq(dot3(gd, gd))], s2.gt(z));
        let qb = ghost("qb", dot3(gq, b));
        lemma_from("segment: plane through the origin", &cat(&[&fq, &[qb.eq(dot3(gq, b))]]), qb.eq(z));
        lemma_from("segment: length of the direction", &cat(&[&dk, &[s2.eq(dot3(gd, gd)), qq.eq(dot3(gq, gq)), bb.eq(dot3(b, b)), qb.eq(dot3(gq, b))]]), s2.eq(qq * bb - qb * qb));
        lemma("segment: length of the plane's normal", qq.ge(z));
        lemma_from("segment: length of the plane's normal", &[qq.ge(z), s2.gt(z), qb.eq(z), s2.eq(qq * bb - qb * qb)], qq.gt(z));
        let gv = g3("v", cross3(sub3(b, p0), gq));
        let vd = ghost("vd", dot3(gv, gd));
        // v.d = qq (b - p0).b = qq 2 rr b_x
        let eb = ghost("eb", dot3(sub3(b, p0), b));
        lemma_from("segment: along the axis", &cat(&[&at, &[eb.eq(dot3(sub3(b, p0), b))]]), eb.eq(c(2.0) * rr * b[0]));
        lemma_from("segment: along the axis", &[eb.eq(c(2.0) * rr * b[0]), rr.gt(z), b[0].gt(z)], eb.gt(z));
        let fv = eqs(gv, cross3(sub3(b, p0), gq));
        let q0 = ghost("q0", dot3(gq, p0));
        lemma_from("segment: plane through the origin", &cat(&[&fq, &[q0.eq(dot3(gq, p0))]]), q0.eq(z));
        lemma_from("segment: side of the origin", &cat(&[&fv, &dk, &[vd.eq(dot3(gv, gd)), qq.eq(dot3(gq, gq)), eb.eq(dot3(sub3(b, p0), b)), qb.eq(dot3(gq, b)), q0.eq(dot3(gq, p0))]]), vd.eq(qq * eb - (qb - q0) * qb));
        lemma_from("segment: side of the origin", &[vd.eq(qq * eb - (qb - q0) * qb), qb.eq(z), qq.gt(z), eb.gt(z)], vd.gt(z));
        let qd = ghost("qd", dot3(gq, gd));
        lemma_from("segment: the direction is in the plane", &cat(&[&dk, &[qd.eq(dot3(gq, gd))]]), qd.eq(z));
        let qc = ghost("qc", dot3(gq, c0));
        lemma_from("segment: the center is in the plane", &cat(&[&at, &[qc.eq(dot3(gq, c0)), qb.eq(dot3(gq, b)), q0.eq(dot3(gq, p0))]]), (c(2.0) * qc).eq(qb + q0));
        lemma_from("segment: the center is in the plane", &[(c(2.0) * qc).eq(qb + q0), qb.eq(z), q0.eq(z)], qc.eq(z));
        let vc = ghost("vc", dot3(gv, sub3(c0, b)));
        lemma_from("segment: the center is on the line", &cat(&[&at, &fv, &[vc.eq(dot3(gv, sub3(c0, b)))]]), vc.eq(z));
        let i = self.inv(s);
        lemma_from("gjk invariant", &cat(&[&eqs(gd, s.d), &fq, &[qd.eq(dot3(gq, gd)), qd.eq(z)]]), i[2]);
        lemma_from("gjk invariant", &cat(&[&fq, &[qc.eq(dot3(gq, c0)), qc.eq(z)]]), i[3]);
        lemma_from("gjk invariant", &cat(&[&fq, &[qq.eq(dot3(gq, gq)), qq.gt(z)]]), i[4]);
        for j in 0..3 { lemma_from("gjk invariant: normal", &cat(&[&fq, &[fv[j]]]), gv[j].eq(v[j])); }
        let gvv = eqs(gv, v);
        lemma_from("gjk invariant", &cat(&[&gvv, &eqs(gd, s.d), &[vd.eq(dot3(gv, gd)), vd.gt(z)]]), i[5]);
        lemma_from("gjk invariant", &cat(&[&gvv, &[vc.eq(dot3(gv, sub3(c0, b))), vc.eq(z)]]), i[6]);
    }
    /// a round of the loop: state s, new support point a
    fn round(&self, s: &Inv, a: &Sup) -> Tri {
        let z = c(0.0);
        let (b, p0, d, ap) = (s.p[1], s.p[0], s.d, a.p);
        let i = self.inv(s);
        let q = g3("q", cross3(b, p0));
        let fq = eqs(q, cross3(b, p0));
        let (qd, qc, qq, qa, qu) = (ghost("qd", dot3(q, d)), ghost("qc", dot3(q, self.c0)), ghost("qq", dot3(q, q)), ghost("qa", dot3(q, ap)), ghost("qu", dot3(q, a.u)));
        lemma_from("round: plane of the simplex", &cat(&[&fq, &[i[2], qd.eq(dot3(q, d))]]), qd.eq(z));
        lemma_from("round: plane of the simplex", &cat(&[&fq, &[i[3], qc.eq(dot3(q, self.c0))]]), qc.eq(z));
        lemma_from("round: plane of the simplex", &cat(&[&fq, &[i[4], qq.eq(dot3(q, q))]]), qq.gt(z));
        let um: Vec<Bx> = (0..3).map(|k| (a.u[k] * a.m).eq(d[k])).collect();
        let at = self.at(ap, a.u);
        lemma_from("round: the new point is in the plane", &cat(&[&um, &[qd.eq(dot3(q, d)), qu.eq(dot3(q, a.u))]]), (qu * a.m).eq(qd));
        lemma_from("round: the new point is in the plane", &[(qu * a.m).eq(qd), qd.eq(z), a.m.gt(z)], qu.eq(z));
        lemma_from("round: the new point is in the plane", &cat(&[&at, &[qa.eq(dot3(q, ap)), qc.eq(dot3(q, self.c0)), qu.eq(dot3(q, a.u))]]), qa.eq(qc + self.rr * qu));
        lemma_from("round: the new point is in the plane", &[qa.eq(qc + self.rr * qu), qc.eq(z), qu.eq(z)], qa.eq(z));
        // the triangle (a, b, p0)
        let t = g3("t", cross3(sub3(b, ap), sub3(p0, ap)));
        let ft = eqs(t, cross3(sub3(b, ap), sub3(p0, ap)));
        let (ta, tb, tc) = (ghost("ta", dot3(t, ap)), ghost("tb", dot3(t, b)), ghost("tc", dot3(t, p0)));
        for (x, p) in [(ta, ap), (tb, b), (tc, p0)] {
            lemma_from("round: plane of the triangle", &cat(&[&ft, &fq, &[x.eq(dot3(t, p)), qa.eq(dot3(q, ap))]]), x.eq(qa));
            lemma_from("round: plane of the triangle", &[x.eq(qa), qa.eq(z)], x.eq(z));
        }
        // the new point is on the origin's side of the old edge
        let v = g3("v", cross3(sub3(b, p0), q));
        let fv = eqs(v, cross3(sub3(b, p0), q));
        let (wa, vab, vd) = (ghost("wa", dot3(t, q)), ghost("vab", dot3(v, sub3(ap, b))), ghost("vd", dot3(v, d)));
        lemma_from("round: weight of the new point", &cat(&[&ft, &fq, &fv, &[wa.eq(dot3(t, q)), vab.eq(dot3(v, sub3(ap, b)))]]), wa.eq(vab));
        if s.first {
            let (vu, vc) = (ghost("vu", dot3(v, a.u)), ghost("vc", dot3(v, sub3(self.c0, b))));
            let vr = cross3(sub3(b, p0), cross3(b, p0));
            for k in 0..3 { lemma_from("round: normal of the old edge", &cat(&[&fq, &[fv[k]]]), v[k].eq(vr[k])); }
            let fr = eqs(v, vr);
            lemma_from("round: normal of the old edge", &cat(&[&fr, &[i[5], vd.eq(dot3(v, d))]]), vd.gt(z));
            lemma_from("round: normal of the old edge", &cat(&[&fr, &[i[6], vc.eq(dot3(v, sub3(self.c0, b)))]]), vc.eq(z));
            lemma_from("round: side of the new point", &cat(&[&um, &[vd.eq(dot3(v, d)), vu.eq(dot3(v, a.u))]]), (vu * a.m).eq(vd));
            lemma_from("round: side of the new point", &[(vu * a.m).eq(vd), vd.gt(z), a.m.gt(z)], vu.gt(z));
            lemma_from("round: side of the new point", &cat(&[&at, &[vab.eq(dot3(v, sub3(ap, b))), vc.eq(dot3(v, sub3(self.c0, b))), vu.eq(dot3(v, a.u))]]), vab.eq(vc + self.rr * vu));
            lemma_from("round: side of the new point", &[vab.eq(vc + self.rr * vu), vc.eq(z), vu.gt(z), self.rr.gt(z)], vab.gt(z));
        } else {
            let e = g3("e", sub3(b, p0));
            let fe = eqs(e, sub3(b, p0));
            let (de, dd, kap, da, vb) = (ghost("de", dot3(d, e)), ghost("dd", dot3(d, d)), ghost("kap", dot3(d, b)), ghost("da", dot3(d, ap)), ghost("vb", dot3(v, b)));
            lemma_from("round: direction orthogonal to the old edge", &cat(&[&fe, &[i[5], de.eq(dot3(d, e))]]), de.eq(z));
            lemma_from("round: the old edge is behind the origin", &[i[6], kap.eq(dot3(d, b))], kap.lt(z));
            lemma("round: the new point is past the origin", da.gt(z));
            lemma_from("round: the direction is not zero", &[kap.eq(dot3(d, b)), kap.lt(z)], nz(&d));
            lemma_from("round: the direction is not zero", &[nz(&d), dd.eq(dot3(d, d))], dd.gt(z));
            let ve = cross3(e, q);
            for k in 0..3 { lemma_from("round: normal of the old edge", &[fe[0], fe[1], fe[2], fv[k]], v[k].eq(ve[k])); }
            let fve = eqs(v, ve);
            // d x (d x v) = d (d.v) - v (d.d), d x v = e (d.q) - q (d.e)
            let rest = cross3(d, sub3(scale3(e, qd), scale3(q, de)));
            for k in 0..3 {
                lemma_from("round: normal of the old edge is along the direction", &cat(&[&fve, &[vd.eq(dot3(v, d)), dd.eq(dot3(d, d)), qd.eq(dot3(q, d)), de.eq(dot3(d, e))]]), (dd * v[k]).eq(vd * d[k] - rest[k]));
                lemma_from("round: normal of the old edge is along the direction", &[(dd * v[k]).eq(vd * d[k] - rest[k]), qd.eq(z), de.eq(z)], (dd * v[k]).eq(vd * d[k]));
            }
            let par: Vec<Bx> = (0..3).map(|k| (dd * v[k]).eq(vd * d[k])).collect();
            lemma_from("round: the origin's side of the old edge", &cat(&[&fv, &fq, &[vb.eq(dot3(v, b)), qq.eq(dot3(q, q))]]), vb.eq(-qq));
            lemma_from("round: the origin's side of the old edge", &cat(&[&par, &[vb.eq(dot3(v, b)), kap.eq(dot3(d, b))]]), (dd * vb).eq(vd * kap));
            lemma_from("round: the origin's side of the old edge", &[(dd * vb).eq(vd * kap), vb.eq(-qq), qq.gt(z), dd.gt(z), kap.lt(z)], vd.gt(z));
            lemma_from("round: side of the new point", &cat(&[&par, &[vab.eq(dot3(v, sub3(ap, b))), kap.eq(dot3(d, b)), da.eq(dot3(d, ap))]]), (dd * vab).eq(vd * (da - kap)));
            lemma_from("round: side of the new point", &[(dd * vab).eq(vd * (da - kap)), dd.gt(z), vd.gt(z), da.gt(z), kap.lt(z)], vab.gt(z));
        }
        lemma_from("round: weight of the new point is positive", &[wa.eq(vab), vab.gt(z)], wa.gt(z));
        Tri { t, ft, q, fq, qa, qc, qq, ta, tb, tc, wa }
    }
    fn triangle_yes(&self, s: &Inv, a: &Sup, tr: &Tri) {
        let z = c(0.0);
        let (b, p0, ap, t, q) = (s.p[1], s.p[0], a.p, tr.t, tr.q);
        let i = self.inv(s);
        let (bc, ca, ab) = (cross3(b, p0), cross3(p0, ap), cross3(ap, b));
        let traw = cross3(sub3(b, ap), sub3(p0, ap));
        // weights of the other two corners: what the code tested
        lemma("triangle: origin inside the first edge", dot3(traw, ab).ge(z));
        lemma("triangle: origin inside the second edge", dot3(traw, ca).ge(z));
        let (wb, wc, x) = (ghost("wb", dot3(t, ca)), ghost("wc", dot3(t, ab)), ghost("x", dot3(t, t)));
        lemma_from("triangle: weights", &cat(&[&tr.ft, &[wb.eq(dot3(t, ca)), dot3(traw, ca).ge(z)]]), wb.ge(z));
        lemma_from("triangle: weights", &cat(&[&tr.ft, &[wc.eq(dot3(t, ab)), dot3(traw, ab).ge(z)]]), wc.ge(z));
        lemma_from("triangle: weights", &cat(&[&tr.ft, &tr.fq, &[x.eq(dot3(t, t)), tr.wa.eq(dot3(t, q)), wb.eq(dot3(t, ca)), wc.eq(dot3(t, ab))]]), x.eq(tr.wa + wb + wc));
        lemma_from("triangle: weights", &[x.eq(tr.wa + wb + wc), tr.wa.gt(z), wb.ge(z), wc.ge(z)], x.gt(z));
        // weighted sum of the corners is the origin
        let mut sums = vec![];
        for k in 0..3 {
            let w = ghost("w", tr.wa * ap[k] + wb * b[k] + wc * p0[k]);
            lemma_from("triangle: the origin in terms of the corners", &cat(&[&tr.fq, &[w.eq(tr.wa * ap[k] + wb * b[k] + wc * p0[k]), tr.wa.eq(dot3(t, q)), wb.eq(dot3(t, ca)), wc.eq(dot3(t, ab)), tr.qa.eq(dot3(q, ap))]]), w.eq(tr.qa * t[k]));
            lemma_from("triangle: the origin in terms of the corners", &[w.eq(tr.qa * t[k]), tr.qa.eq(z)], w.eq(z));
            sums.push(w);
        }
        let far = |p: V3| { let r = sub3(p, self.c0); dot3(r, r) };
        let (na, nb, nc) = (ghost("na", far(ap)), ghost("nb", far(b)), ghost("nc", far(p0)));
        let (pa, pb, pc) = (ghost("pa", dot3(ap, ap)), ghost("pb", dot3(b, b)), ghost("pc", dot3(p0, p0)));
        let (r2, cc) = (sq(self.rr), self.cc);
        lemma_from("triangle: corners are in the difference", &[na.eq(far(ap)), far(ap).eq(r2)], na.le(r2));
        lemma_from("triangle: corners are in the difference", &[nb.eq(far(b)), i[0]], nb.le(r2));
        lemma_from("triangle: corners are in the difference", &[nc.eq(far(p0)), i[1]], nc.le(r2));
        for y in [(pa, ap), (pb, b), (pc, p0)] { lemma_from("triangle: squared lengths", &[y.0.eq(dot3(y.1, y.1))], y.0.ge(z)); }
        let m = self.c0[0] * sums[0] + self.c0[1] * sums[1] + self.c0[2] * sums[2];
        let ds: Vec<Bx> = (0..3).map(|k| sums[k].eq(tr.wa * ap[k] + wb * b[k] + wc * p0[k])).collect();
        let id = (tr.wa * na + wb * nb + wc * nc).eq(tr.wa * pa + wb * pb + wc * pc - c(2.0) * m + (tr.wa + wb + wc) * cc);
        lemma_from("triangle: mean squared distance", &cat(&[&ds, &[na.eq(far(ap)), nb.eq(far(b)), nc.eq(far(p0)), pa.eq(dot3(ap, ap)), pb.eq(dot3(b, b)), pc.eq(dot3(p0, p0)), cc.eq(dot3(self.c0, self.c0))]]), id);
        let id2 = (tr.wa * na + wb * nb + wc * nc).eq(tr.wa * pa + wb * pb + wc * pc + x * cc);
        lemma_from("triangle: mean squared distance", &[id, sums[0].eq(z), sums[1].eq(z), sums[2].eq(z), x.eq(tr.wa + wb + wc)], id2);
        let gr = ghost("r2", r2);
        for y in [(na, tr.wa), (nb, wb), (nc, wc)] {
            lemma_from("triangle: corners are in the difference", &[y.0.le(r2), gr.eq(r2)], y.0.le(gr));
            lemma_from("triangle: weighted distances", &[y.0.le(gr), y.1.ge(z)], (y.1 * y.0).le(y.1 * gr));
        }
        for y in [(pa, tr.wa), (pb, wb), (pc, wc)] { lemma_from("triangle: weighted lengths", &[y.0.ge(z), y.1.ge(z)], (y.1 * y.0).ge(z)); }
        lemma_from("triangle: the origin is in the difference", &[id2, x.eq(tr.wa + wb + wc), (tr.wa * na).le(tr.wa * gr), (wb * nb).le(wb * gr), (wc * nc).le(wc * gr), (tr.wa * pa).ge(z), (wb * pb).ge(z), (wc * pc).ge(z)], (x * cc).le(x * gr));
        lemma_from("triangle: the origin is in the difference", &[(x * cc).le(x * gr), x.gt(z)], cc.le(gr));
        lemma_from("triangle: the origin is in the difference", &[cc.le(gr), gr.eq(r2)], cc.le(r2));
    }
    /// the round ended with the simplex (o, a): b or p0 was dropped
    fn triangle_no(&self, s: &Inv, a: &Sup, tr: &Tri, n: &Inv) {
        let z = c(0.0);
        let (ap, t, q) = (a.p, tr.t, tr.q);
        let kept_b = surely(eq3(n.p[0], s.p[1]));
        let i = self.inv(n);
        if !(kept_b || surely(eq3(n.p[0], s.p[0]))) || !surely(eq3(n.p[1], ap)) {
            // not of the expected form: the invariant as it stands
            for f in i { lemma("gjk invariant", f); }
            return;
        }
        let o = n.p[0];
        let old = self.inv(s);
        lemma_from("gjk invariant", &[dot3(sub3(ap, self.c0), sub3(ap, self.c0)).eq(sq(self.rr))], i[0]);
        lemma_from("gjk invariant", &[old[if kept_b { 0 } else { 1 }]], i[1]);
        // d = (o - a) x t or t x (o - a)
        let d = g3("dn", n.d);
        let eo = sub3(o, ap);
        let raw = cross3(sub3(s.p[1], ap), sub3(s.p[0], ap));
        let (k, kr) = if kept_b { (cross3(eo, t), cross3(eo, raw)) } else { (cross3(t, eo), cross3(raw, eo)) };
        for j in 0..3 {
            lemma("round: new direction", n.d[j].eq(kr[j]));
            lemma_from("round: new direction", &cat(&[&tr.ft, &[d[j].eq(n.d[j]), n.d[j].eq(kr[j])]]), d[j].eq(k[j]));
        }
        let dk = eqs(d, k);
        let (r, to) = (g3("r", cross3(ap, o)), if kept_b { tr.tb } else { tr.tc });
        let fr = eqs(r, cross3(ap, o));
        let (rd, rc, r2, da, tr_) = (ghost("rd", dot3(r, d)), ghost("rc", dot3(r, self.c0)), ghost("rr", dot3(r, r)), ghost("da", dot3(d, ap)), ghost("tr", dot3(t, r)));
        let (aa, bb) = (ghost("aa", dot3(ap, eo)), ghost("bb", dot3(o, eo)));
        let sg = if kept_b { c(1.0) } else { c(-1.0) };
        lemma_from("round: the direction is in the plane", &cat(&[&fr, &dk, &[rd.eq(dot3(r, d)), aa.eq(dot3(ap, eo)), bb.eq(dot3(o, eo)), tr.ta.eq(dot3(t, ap)), to.eq(dot3(t, o))]]), rd.eq(sg * (aa * to - tr.ta * bb)));
        lemma_from("round: the direction is in the plane", &[rd.eq(sg * (aa * to - tr.ta * bb)), to.eq(z), tr.ta.eq(z)], rd.eq(z));
        // a, o, c0 are in the plane with normal q
        let qo = ghost("qo", dot3(q, o));
        lemma_from("round: plane of the simplex", &cat(&[&tr.fq, &[qo.eq(dot3(q, o))]]), qo.eq(z));
        let (oc, ca) = (cross3(o, self.c0), cross3(self.c0, ap));
        for j in 0..3 {
            lemma_from("round: the center is in the plane", &cat(&[&fr, &[rc.eq(dot3(r, self.c0)), tr.qa.eq(dot3(q, ap)), qo.eq(dot3(q, o)), tr.qc.eq(dot3(q, self.c0))]]), (rc * q[j]).eq(tr.qa * oc[j] + qo * ca[j] + tr.qc * r[j]));
            lemma_from("round: the center is in the plane", &[(rc * q[j]).eq(tr.qa * oc[j] + qo * ca[j] + tr.qc * r[j]), tr.qa.eq(z), qo.eq(z), tr.qc.eq(z)], (rc * q[j]).eq(z));
        }
        lemma_from("round: the center is in the plane", &[(rc * q[0]).eq(z), (rc * q[1]).eq(z), (rc * q[2]).eq(z), tr.qq.eq(dot3(q, q))], (rc * tr.qq).eq(z));
        lemma_from("round: the center is in the plane", &[(rc * tr.qq).eq(z), tr.qq.gt(z)], rc.eq(z));
        // the new edge is behind the origin
        lemma("round: the new edge is behind the origin", dot3(n.d, ap).lt(z));
        lemma_from("round: the new edge is behind the origin", &cat(&[&eqs(d, n.d), &[dot3(n.d, ap).lt(z), da.eq(dot3(d, ap))]]), da.lt(z));
        lemma_from("round: the new direction is orthogonal to the new edge", &dk, dot3(d, o).eq(dot3(d, ap)));
        lemma_from("round: length of the plane's normal", &cat(&[&dk, &fr, &[da.eq(dot3(d, ap)), tr_.eq(dot3(t, r))]]), da.eq(sg * tr_));
        lemma_from("round: length of the plane's normal", &[da.eq(sg * tr_), da.lt(z), tr_.eq(dot3(t, r))], nz(&r));
        lemma_from("round: length of the plane's normal", &[nz(&r), r2.eq(dot3(r, r))], r2.gt(z));
        lemma_from("gjk invariant", &cat(&[&fr, &eqs(d, n.d), &[rd.eq(dot3(r, d)), rd.eq(z)]]), i[2]);
        lemma_from("gjk invariant", &cat(&[&fr, &[rc.eq(dot3(r, self.c0)), rc.eq(z)]]), i[3]);
        lemma_from("gjk invariant", &cat(&[&fr, &[r2.eq(dot3(r, r)), r2.gt(z)]]), i[4]);
        lemma_from("gjk invariant", &cat(&[&eqs(d, n.d), &[dot3(d, o).eq(dot3(d, ap))]]), i[5]);
        ensure("gjk invariant", i[6]);
    }
}
/// triangle of the new point and the old edge: t its normal, q the normal of the plane of the old edge and the origin
struct Tri { t: V3, ft: Vec<Bx>, q: V3, fq: Vec<Bx>, qa: Ex, qc: Ex, qq: Ex, ta: Ex, tb: Ex, tc: Ex, wa: Ex }

pub fn units(us: &mut Units) {
    let q = "mazth::intersect_gjk::query_intersect";
    let g = shape_of("sphere", "Sphere", "get_support");
    us.u("gjk/spheres", &["S11"], &[q, AT_SUPPORT, AT_CONTAINS, "mazth::intersect_gjk::pass_minkowski_origin", &g], || {
        if !symbolic() { return concrete(1e-3); }
        use_contracts(&[NORMALIZE]);
        canonical();
        let (ra, rb) = (positive("a.radius"), positive("b.radius"));
        let ((a, ca), (b, cb)) = (mk_sphere("a", ra), mk_sphere("b", rb));
        let c0 = g3("c0", sub3(ca, cb));
        let (ra, rb) = (ex(ra), ex(rb));
        let rr = ghost("rr", ra + rb);
        lemma("spheres: sum of the radii", rr.gt(c(0.0)));
        let ball = Ball { ca, cb, c0, ra, rb, rr, cc: ghost("cc", dot3(c0, c0)) };
        let sups: Rc<RefCell<Vec<Sup>>> = Rc::new(RefCell::new(vec![]));
        let (b1, s1) = (ball.clone(), sups.clone());
        SUPPORT.with(|h| *h.borrow_mut() = Some(Box::new(move |out, v| {
            if let Some(o) = out {
                let s = b1.support(ev(o), ev(v));
                *out = Some(m3(f3(s.p)));
                s1.borrow_mut().push(s);
            }
        })));
        let state: RefCell<Option<Inv>> = RefCell::new(None);
        let (b1, s1) = (ball.clone(), sups.clone());
        CONTAINS.with(|h| *h.borrow_mut() = Some(Box::new(move |r, simplex, d| {
            let n = s1.borrow().len();
            let st = state.borrow().clone();
            let last = s1.borrow()[n - 1].clone();
            let tri = st.as_ref().map(|s| b1.round(s, &last));
            if r {
                match &st { None => b1.segment_yes(&s1.borrow()[n - 2], &last), Some(s) => b1.triangle_yes(s, &last, &tri.unwrap()) }
                return true;
            }
            ensure("gjk invariant: the simplex is an edge", bx(simplex.len() == 2));
            if simplex.len() != 2 { stop_path() }
            let new = Inv { p: [ev(&simplex[0]), ev(&simplex[1])], d: ev(d), first: st.is_none() };
            match &st { None => b1.segment_no(&s1.borrow()[n - 2], &last, &new), Some(s) => b1.triangle_no(s, &last, &tri.unwrap(), &new) }
            // the step from any state is done
            if let Some(s) = &st { if !s.first { stop_path() } }
            // go on from any state that satisfies the invariant
            let any = b1.any_state(st.is_none());
            simplex[0] = m3(f3(any.p[0]));
            simplex[1] = m3(f3(any.p[1]));
            *d = m3(f3(any.d));
            *state.borrow_mut() = Some(any);
            false
        })));
        let r = some("query_intersect", call(|| mazth::intersect_gjk::query_intersect(&a, &b)));
        let (cc, r2) = (ball.cc, sq(rr));
        if !r {
            let l = sups.borrow().last().unwrap().clone();
            let raw = dot3(l.p, l.d);
            lemma_from("spheres: the last support point is not past the origin", &[l.pd.eq(raw), raw.le(c(0.0))], l.pd.le(c(0.0)));
            lemma_from("spheres: the origin is not inside", &[l.pd.le(c(0.0)), implies(l.pd.le(c(0.0)), cc.ge(r2))], cc.ge(r2));
        }
        verdict(&ball, r, sub3(ca, cb));
    });
    us.sampled();
    us.cut(Cut { within: q.into(), at: AT_CONTAINS.into(), frozen: vec![g.clone(), shape_of("sphere", "Sphere", "get_type")], ..Default::default() });
    // a known finding: the iteration loses up to ten digits; see known_findings.txt
    us.u("gjk/near-touching", &[], &[], || if !symbolic() { concrete(1e-7) });
    us.u("gjk/refused", &["S11"], &[q], || {
        use_contracts(&[NORMALIZE]);
        let p: [f64; 3] = symn("p");
        let z = [1.0, 2.0, 3.0];
        let shapes: Vec<Box<dyn IShape>> = vec![
            Box::new(val("init", call(|| Sphere::init(&p, 1.0)))), Box::new(mk_point(p)), Box::new(val("init", call(|| mazth::rbox::RecBox::init(&p, 1.0)))),
            Box::new(val("init", call(|| mazth::ray::Ray3::init(&p, &z)))), Box::new(val("init", call(|| mazth::plane::Plane::init(&p, &z)))),
            Box::new(val("init", call(|| mazth::line::Line3::init(&p, &p)))), Box::new(mazth::triprism::TriPrism::default()),
        ];
        let n = shapes.len() as u32;
        let (i, j) = (choose("first", n) as usize, choose("second", n) as usize);
        if i == 0 && j == 0 { return; }
        ensure("overlap query: other shapes are refused", bx(call(|| mazth::intersect_gjk::query_intersect(&*shapes[i], &*shapes[j])).is_err()));
    });
}
fn verdict(b: &Ball, r: bool, d: V3) {
    let (cc, r2, z) = (b.cc, sq(b.rr), c(0.0));
    let raw = (dot3(d, d), sq(b.ra + b.rb));
    let f = cat(&[&b.defs(), &[cc.eq(dot3(b.c0, b.c0))]]);
    if r {
        lemma("spheres: the origin is in the difference", cc.le(r2));
        ensure_from("spheres: reported only if they share a point", &cat(&[&f, &[cc.le(r2)]]), raw.0.le(raw.1));
    } else {
        lemma("spheres: the origin is not inside", cc.ge(r2));
        ensure_from("spheres: denied only if they share no interior point", &cat(&[&f, &[cc.ge(r2)]]), raw.0.ge(raw.1));
    }
}
/// machine arithmetic, for gaps or overlaps of at least this share of the radii
fn concrete(margin: f64) {
    let (ra, rb) = (positive("a.radius"), positive("b.radius"));
    let ((a, ca), (b, cb)) = (mk_sphere("a", ra), mk_sphere("b", rb));
    let f = |x: Ex| f64::from_ex(x);
    let d = sub3(ca, cb);
    let (d2, r2) = (f(dot3(d, d)), (ra + rb) * (ra + rb));
    assume(bx(ra > 1e-3 && rb > 1e-3 && ra < 1e3 && rb < 1e3 && f(dot3(ca, ca)) < 1e6 && f(dot3(cb, cb)) < 1e6));
    assume(bx((d2.sqrt() - r2.sqrt()).abs() > margin * r2.sqrt()));
    let r = some("query_intersect", call(|| mazth::intersect_gjk::query_intersect(&a, &b)));
    if r { ensure("spheres: reported only if they share a point", bx(d2 <= r2)); } else { ensure("spheres: denied only if they share no interior point", bx(d2 >= r2)); }
}
