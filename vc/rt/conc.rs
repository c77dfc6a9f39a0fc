//! concrete evaluation of the same contracts (replay of counterexamples on the uninstrumented code)
use super::*;
use std::collections::{BTreeMap, HashMap};
use std::ops::*;
use std::panic;

pub fn symbolic() -> bool { false }

#[derive(Clone, Copy, Debug)]
pub struct Ex { pub v: f64, mag: f64, exact: bool, clean: bool }
/// 0 false, 1 unknown, 2 true up to rounding, 3 true
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bx(u8);
struct AbortPath;
struct Violated(String);

struct Eng {
    rng: u64,
    base: HashMap<String, f64>,
    base_choices: HashMap<String, u32>,
    mode: u32,
    vals: BTreeMap<String, f64>,
    drawn: Vec<f64>,
    choices: Vec<(String, u32)>,
    tol: f64,
    factor: f64,
    strict: bool,
    ensures: usize,
    unk: usize,
}
static mut ENG: Option<Eng> = None;
fn e() -> &'static mut Eng { unsafe { ENG.as_mut().unwrap() } }
fn rnd() -> u64 {
    let g = e();
    g.rng ^= g.rng << 13;
    g.rng ^= g.rng >> 7;
    g.rng ^= g.rng << 17;
    g.rng
}
fn below(n: u64) -> u64 { (rnd() >> 11) % n }
fn unif() -> f64 { (rnd() >> 11) as f64 / (1u64 << 53) as f64 }

/// clean: computed here from inputs only, so that mag accounts for all the rounding there is
fn mkc(v: f64, mag: f64, exact: bool, clean: bool) -> Ex { Ex { v, mag, exact, clean } }
fn mk(v: f64, mag: f64, exact: bool) -> Ex { mkc(v, mag, exact, exact) }
fn sum_exact(a: f64, b: f64) -> bool {
    let s = a + b;
    if !s.is_finite() { return false; }
    let bb = s - a;
    (a - (s - bb)) + (b - bb) == 0.0
}
fn mul_exact(a: f64, b: f64) -> bool {
    let p = a * b;
    if a == 0.0 || b == 0.0 { return true; }
    p.is_finite() && p.abs() > 1e-280 && a.mul_add(b, -p) == 0.0
}
impl Add for Ex { type Output = Ex; fn add(self, o: Ex) -> Ex { mkc(self.v + o.v, self.mag + o.mag, self.exact && o.exact && sum_exact(self.v, o.v), self.clean && o.clean) } }
impl Sub for Ex { type Output = Ex; fn sub(self, o: Ex) -> Ex { mkc(self.v - o.v, self.mag + o.mag, self.exact && o.exact && sum_exact(self.v, -o.v), self.clean && o.clean) } }
impl Mul for Ex { type Output = Ex; fn mul(self, o: Ex) -> Ex { mkc(self.v * o.v, self.mag * o.mag, self.exact && o.exact && mul_exact(self.v, o.v), self.clean && o.clean) } }
impl Div for Ex {
    type Output = Ex;
    fn div(self, o: Ex) -> Ex {
        let q = self.v / o.v;
        let amp = if o.v != 0.0 { o.mag / o.v.abs() } else { 1.0 };
        mkc(q, self.mag / o.v.abs() * amp, self.exact && o.exact && o.v != 0.0 && q.is_finite() && mul_exact(q, o.v) && q * o.v == self.v, self.clean && o.clean)
    }
}
impl Neg for Ex { type Output = Ex; fn neg(self) -> Ex { mkc(-self.v, self.mag, self.exact, self.clean) } }
impl Ex {
    fn tolabs(self, o: Ex) -> f64 { e().tol * (self.mag + o.mag) }
    /// results of cancellation carry the rounding error of the inputs' size
    fn floor() -> f64 { let g = e(); g.tol * 0.01 * g.drawn.iter().fold(1.0f64, |m, x| m.max(x.abs())) }
    pub fn lt(self, o: Ex) -> Bx {
        if self.v.is_nan() || o.v.is_nan() { return Bx(0); }
        if (self.exact && o.exact && e().strict) || self.v.is_infinite() || o.v.is_infinite() { return Bx(if self.v < o.v { 3 } else { 0 }); }
        let d = o.v - self.v;
        let t = if self.clean && o.clean { self.tolabs(o) } else { self.tolabs(o).max(Ex::floor()) };
        if d > t { Bx(3) } else if d < -t { Bx(0) } else if d == 0.0 && t == 0.0 { Bx(0) } else { Bx(1) }
    }
    pub fn gt(self, o: Ex) -> Bx { o.lt(self) }
    pub fn le(self, o: Ex) -> Bx { if self.v.is_nan() || o.v.is_nan() { Bx(0) } else { !o.lt(self) } }
    pub fn ge(self, o: Ex) -> Bx { o.le(self) }
    pub fn eq(self, o: Ex) -> Bx {
        if self.v.is_nan() || o.v.is_nan() { return Bx(0); }
        if self.v.is_infinite() || o.v.is_infinite() { return Bx(if self.v == o.v { 3 } else { 0 }); }
        if self.v == o.v { return Bx(if self.exact && o.exact { 3 } else { 2 }); }
        let d = (self.v - o.v).abs();
        if d <= self.tolabs(o) { Bx(2) } else if d <= Ex::floor() && !(self.clean && o.clean) { Bx(1) } else { Bx(0) }
    }
    pub fn ne(self, o: Ex) -> Bx { !self.eq(o) }
    pub fn sqrt(self) -> Ex {
        if self.v < 0.0 && self.v > -1e-9 * self.mag { return mkc(0.0, self.mag.sqrt(), false, self.clean); }
        let r = self.v.sqrt();
        let m = if r > 0.0 { (self.mag / r).max(r) } else { self.mag.sqrt() };
        mkc(r, m, self.exact && mul_exact(r, r) && r * r == self.v, self.clean)
    }
    pub fn abs(self) -> Ex { mkc(self.v.abs(), self.mag, self.exact, self.clean) }
    pub fn max(self, o: Ex) -> Ex { mkc(self.v.max(o.v), self.mag.max(o.mag), self.exact && o.exact, self.clean && o.clean) }
    pub fn min(self, o: Ex) -> Ex { mkc(self.v.min(o.v), self.mag.max(o.mag), self.exact && o.exact, self.clean && o.clean) }
    pub fn sin(self) -> Ex { mkc(self.v.sin(), 1.0 + self.mag, self.v == 0.0, self.clean) }
    pub fn cos(self) -> Ex { mkc(self.v.cos(), 1.0 + self.mag, self.v == 0.0, self.clean) }
    pub fn acos(self) -> Ex {
        // ill-conditioned near +-1
        let w = if self.v > 1.0 && self.v < 1.0 + 1e-9 { 1.0 } else if self.v < -1.0 && self.v > -1.0 - 1e-9 { -1.0 } else { self.v };
        let k = (1.0 - w * w).max(1e-14).sqrt();
        mk(w.acos(), 4.0 / k, false)
    }
    pub fn ln(self) -> Ex { mk(self.v.ln(), self.v.ln().abs() + 1.0, self.v == 1.0 && self.exact) }
    pub fn exp(self) -> Ex { mk(self.v.exp(), self.v.exp() * (1.0 + self.mag), self.v == 0.0 && self.exact) }
    pub fn is_nan(self) -> bool { self.v.is_nan() }
    pub fn is_finite(self) -> bool { self.v.is_finite() }
    pub fn is_pinf(self) -> bool { self.v == f64::INFINITY }
    pub fn is_ninf(self) -> bool { self.v == f64::NEG_INFINITY }
    pub fn sq(self) -> Ex { self * self }
    pub fn fin(self) -> Bx { bx(self.v.is_finite()) }
}
pub fn ite(c: Bx, a: Ex, b: Ex) -> Ex {
    if c.0 >= 2 { a } else if c.0 == 0 { b } else { mk(a.v, a.mag + b.mag + (a.v - b.v).abs() / e().tol, false) }
}
impl Not for Bx { type Output = Bx; fn not(self) -> Bx { Bx(match self.0 { 0 => 3, 3 => 0, _ => 1 }) } }
impl BitAnd for Bx { type Output = Bx; fn bitand(self, o: Bx) -> Bx { Bx(self.0.min(o.0)) } }
impl BitOr for Bx { type Output = Bx; fn bitor(self, o: Bx) -> Bx { Bx(self.0.max(o.0)) } }
pub fn tt() -> Bx { Bx(3) }
pub fn bx(b: bool) -> Bx { Bx(if b { 3 } else { 0 }) }
pub fn c(v: f64) -> Ex { mk(v, v.abs(), true) }
pub fn pi() -> Ex { mk(std::f64::consts::PI, 3.2, false) }
/// an input or a small whole number; anything else the program returned may carry rounding
fn given(v: f64) -> bool { !v.is_finite() || v == v.trunc() && v.abs() < 1e6 || drawn(v) }
fn drawn(v: f64) -> bool { e().drawn.iter().any(|x| x.abs() == v.abs()) }
/// what the program works on or returned; a whole number may as well be the rounded form of one that is not
fn seen(v: f64) -> Ex { Ex { v, mag: v.abs(), exact: given(v), clean: v != v.trunc() && drawn(v) } }
impl Num for f64 {
    const BITS: u32 = 64;
    fn to_ex(self) -> Ex { seen(self) }
    fn from_ex(x: Ex) -> f64 { x.v }
    fn lit(v: f64) -> f64 { v }
    fn tag() -> &'static str { "f64" }
}
impl Num for f32 {
    const BITS: u32 = 32;
    fn to_ex(self) -> Ex { let g = e(); g.tol = g.tol.max(2e-4 * g.factor.min(100.0)); seen(self as f64) }
    fn from_ex(x: Ex) -> f32 { x.v as f32 }
    fn lit(v: f64) -> f32 { v as f32 }
    fn tag() -> &'static str { "f32" }
}
fn gen(lo: Option<(f64, f64)>) -> f64 {
    match below(16) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 | 4 => (below(9) as f64) - 4.0,
        5 | 6 => ((below(33) as f64) - 16.0) / 4.0,
        7 if !e().drawn.is_empty() => { let n = e().drawn.len() as u64; let k = below(n) as usize; e().drawn[k] }
        8 if !e().drawn.is_empty() => { let n = e().drawn.len() as u64; let k = below(n) as usize; -e().drawn[k] }
        // later rounds, with a coarser tolerance, stay with moderate values
        9 => (unif() - 0.5) * 20.0 * 10f64.powi(below(if e().factor > 1.0 { 2 } else { 4 }) as i32),
        10 => (unif() - 0.5) * 10f64.powi(-(below(if e().factor > 1.0 { 4 } else { 10 }) as i32)),
        11 if lo.is_some() => { let (a, b) = lo.unwrap(); a + (b - a) * unif() }
        12 if lo.is_some() => { let (a, b) = lo.unwrap(); a + (b - a) * unif() }
        _ => (unif() - 0.5) * 8.0,
    }
}
fn draw(name: &str, lo: Option<(f64, f64)>, is32: bool) -> f64 {
    let g = e();
    if let Some(v) = g.vals.get(name) { return *v; }
    let base = g.base.get(name).cloned();
    let mut v = match (base, g.mode) {
        (Some(b), 0) => b,
        (Some(b), 1) => match below(8) {
            0 => b.round(),
            1 => (b * 4.0).round() / 4.0,
            2 => (b * 1024.0).round() / 1024.0,
            3 => b * (1.0 + (unif() - 0.5) * 0.1),
            4 => b + (unif() - 0.5) * 0.1,
            _ => b,
        },
        (Some(b), 2) => if below(3) == 0 { gen(lo) } else { b },
        (None, 0) => 0.0,
        _ => gen(lo),
    };
    if is32 { v = (v as f32) as f64; }
    let g = e();
    g.vals.insert(name.to_string(), v);
    g.drawn.push(v);
    v
}
pub fn sym_ex(name: &str) -> Ex { let v = draw(name, None, false); c(v) }
pub fn sym<T: Num>(name: &str) -> T { T::from_ex(c(draw(name, None, T::BITS == 32))) }
pub fn sym_scaled<T: Num>(name: &str, lo: f64, hi: f64) -> T { T::from_ex(c(draw(name, Some((lo, hi)), T::BITS == 32))) }
pub fn sym3<T: Num>(name: &str) -> [T; 3] { [sym(&format!("{}.0", name)), sym(&format!("{}.1", name)), sym(&format!("{}.2", name))] }
fn unit_n<T: Num>(name: &str, n: usize) -> Vec<T> {
    let names: Vec<String> = (0..n).map(|i| format!("{}.{}", name, i)).collect();
    let mut v: Vec<f64> = names.iter().map(|s| draw(s, None, T::BITS == 32)).collect();
    let l2: f64 = v.iter().map(|x| x * x).sum();
    if (l2 - 1.0).abs() > 1e-12 || T::BITS == 32 {
        if e().mode != 0 && below(4) == 0 {
            // exact small unit vectors
            let t: [[f64; 4]; 4] = [[1.0, 0.0, 0.0, 0.0], [0.6, 0.8, 0.0, 0.0], [2.0 / 3.0, 2.0 / 3.0, 1.0 / 3.0, 0.0], [0.5, 0.5, 0.5, 0.5]];
            let k = below(if n == 4 { 4 } else { 3 }) as usize;
            let rot = below(n as u64) as usize;
            for i in 0..n { v[(i + rot) % n] = t[k][i] * if below(2) == 0 { 1.0 } else { -1.0 }; }
        } else {
            let l = l2.sqrt();
            if !(l > 1e-6) { panic::resume_unwind(Box::new(AbortPath)); }
            for x in v.iter_mut() { *x /= l; }
        }
    }
    for i in 0..n {
        if T::BITS == 32 { v[i] = (v[i] as f32) as f64; }
        e().vals.insert(names[i].clone(), v[i]);
        e().drawn.push(v[i]);
    }
    v.iter().map(|x| T::from_ex(c(*x))).collect()
}
pub fn sym_unit3<T: Num>(name: &str) -> [T; 3] { let v = unit_n::<T>(name, 3); [v[0], v[1], v[2]] }
pub fn sym_unit4<T: Num>(name: &str) -> [T; 4] { let v = unit_n::<T>(name, 4); [v[0], v[1], v[2], v[3]] }
pub fn sym_ext<T: Num>(name: &str, with_nan: bool) -> T {
    match choose(&format!("kind:{}", name), if with_nan { 4 } else { 3 }) {
        0 => sym(name),
        1 => T::from_ex(mk(f64::INFINITY, f64::INFINITY, true)),
        2 => T::from_ex(mk(f64::NEG_INFINITY, f64::INFINITY, true)),
        _ => T::from_ex(mk(f64::NAN, 0.0, true)),
    }
}
pub fn fresh(_p: &str) -> Ex { panic::resume_unwind(Box::new(AbortPath)) }
pub fn fresh_of(_p: &str, _a: &[Ex]) -> Ex { panic::resume_unwind(Box::new(AbortPath)) }
pub fn abbrev(_p: &str, x: Ex) -> Ex { x }
pub fn rewrite(_n: &str, _a: Ex, _b: Ex) {}
pub fn alias(_a: Ex, _b: Ex) {}
pub fn canonical() {}
pub fn prune_locally() {}
pub fn focus(_: &[Ex]) {}
pub fn same_sign(_n: &str, _a: Ex, _f: Ex, _b: Ex) {}
pub fn ghost(_p: &str, x: Ex) -> Ex { x }
pub fn surely(b: Bx) -> bool { b.0 >= 2 }
pub fn choose(name: &str, n: u32) -> u32 {
    let g = e();
    let r = match (g.base_choices.get(name).cloned(), g.mode) {
        (Some(x), 0) | (Some(x), 1) => x,
        (Some(x), 2) => if below(4) == 0 { below(n as u64) as u32 } else { x },
        _ => below(n as u64) as u32,
    };
    e().choices.push((name.to_string(), r));
    r
}
pub fn choose_bool(name: &str) -> bool { choose(name, 2) == 1 }
pub fn assume(b: Bx) { if b.0 < 2 { panic::resume_unwind(Box::new(AbortPath)) } }
pub fn assume_checked(b: Bx) { assume(b) }
pub fn ensure(name: &str, b: Bx) {
    e().ensures += 1;
    if b.0 == 1 { e().unk += 1; }
    if b.0 == 0 { panic::resume_unwind(Box::new(Violated(name.to_string()))) }
}
pub fn ensure_from(name: &str, _f: &[Bx], b: Bx) { ensure(name, b) }
pub fn lemma(_name: &str, _b: Bx) {}
pub fn lemma_from(_name: &str, _f: &[Bx], _b: Bx) {}
pub fn lemma_pure(_name: &str, _b: Bx) {}
pub fn axiom(_name: &str, _b: Bx) {}
pub fn weaken_to(_k: &[Bx]) {}
pub fn split(b: Bx) -> bool { match b.0 { 0 => false, 1 => panic::resume_unwind(Box::new(AbortPath)), _ => true } }
pub fn use_contracts(_n: &[&str]) {}
pub fn stub_on(_n: &str) -> bool { false }
pub fn with_contract_off<R>(_n: &str, f: impl FnOnce() -> R) -> R { f() }
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<AbortPath>() || p.is::<Violated>() { panic::resume_unwind(p) }
            if let Some(s) = p.downcast_ref::<&str>() { return Err(s.to_string()); }
            if let Some(s) = p.downcast_ref::<String>() { return Err(s.clone()); }
            Err("panic".into())
        }
    }
}
pub fn stop_path() -> ! { panic::resume_unwind(Box::new(AbortPath)) }
pub fn give_up(_why: &str) -> ! { stop_path() }
pub fn note(_s: &str) {}

fn hex(v: f64) -> String { format!("{:016x}", v.to_bits()) }
/// vcconc search <unit> <basefile> <iterations> <seed> <seconds> <strict>
///   basefile lines: "v <hexbits> <name>" | "c <k> <name>"
/// vcconc replay <unit> <basefile>
pub fn run_main(units: Vec<Unit>) {
    let a: Vec<String> = std::env::args().collect();
    let what = a[1].as_str();
    if what == "list" { list_units(&units); return; }
    let u = units.iter().find(|u| u.name == a[2]).expect("unit");
    if std::env::var("VC_PANICS").is_err() { panic::set_hook(Box::new(|_| {})); }
    let (bv, bch) = read_base(&a[3]);
    let base: HashMap<String, f64> = bv.into_iter().collect();
    let bc: HashMap<String, u32> = bch.into_iter().collect();
    let factor = std::env::var("VC_TOL").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let has_base = !base.is_empty() || !bc.is_empty();
    let (n, seed, secs, strict) = if what == "search" { (a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6].parse::<f64>().unwrap(), a[7] == "1") } else { (1, 1, 1e9, true) };
    let t0 = std::time::Instant::now();
    let (mut evals, mut accepted) = (0u64, 0u64);
    let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for it in 0..n {
        if it % 64 == 0 && t0.elapsed().as_secs_f64() > secs { break; }
        let mode = if !has_base { 3 } else if it == 0 { 0 } else if it % 4 == 1 { 1 } else if it % 4 == 2 { 2 } else { 3 };
        unsafe { ENG = Some(Eng { rng, base: base.clone(), base_choices: bc.clone(), mode, vals: BTreeMap::new(), drawn: vec![], choices: vec![], tol: 1e-7 * factor, factor, strict, ensures: 0, unk: 0 }); }
        for _ in 0..3 { rnd(); }
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (u.run)()));
        rng = e().rng.wrapping_add(0x632BE59BD9B4E019) | 1;
        evals += 1;
        match r {
            Ok(()) => { if e().ensures > 0 { accepted += 1; } }
            Err(p) => if let Some(v) = p.downcast_ref::<Violated>() {
                let vals: Vec<String> = e().vals.iter().map(|(k, v)| format!("{}:[{},\"{}\"]", json_str(k), json_str(&format!("{:?}", v)), hex(*v))).collect();
                let ch: Vec<String> = e().choices.iter().map(|(k, v)| format!("[{},{}]", json_str(k), v)).collect();
                println!("{{\"violated\":{},\"values\":{{{}}},\"choices\":[{}],\"evals\":{},\"accepted\":{}}}", json_str(&v.0), vals.join(","), ch.join(","), evals, accepted);
                return;
            } else if let Some(_) = p.downcast_ref::<AbortPath>() {
                if e().ensures > 0 { accepted += 1; }
            } else {
                let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or("?".into());
                println!("{{\"harness_panic\":{}}}", json_str(&m));
                return;
            }
        }
    }
    println!("{{\"violated\":null,\"evals\":{},\"accepted\":{}}}", evals, accepted);
}
