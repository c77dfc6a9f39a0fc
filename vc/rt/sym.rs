//! symbolic engine
use super::*;
use std::collections::{HashMap, HashSet, BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::ops::*;
use std::panic;
use std::rc::Rc;

pub type Id = u32;
pub type Bid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum F {
    Sin, Cos, Acos, Asin, Atan, Atan2, Ln, Exp, Rnd32, Floor, Ceil, Trunc, Round, Cbrt, Tan0,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Node {
    Const(u64),
    Var(String),
    Add(Id, Id),
    Sub(Id, Id),
    Mul(Id, Id),
    Neg(Id),
    Inv(Id),
    Sqrt(Id),
    Fun(F, Id, Id),
    Ite(Bid, Id, Id),
    /// +inf if the first condition holds, -inf if the second does, else the value
    Mix(Bid, Bid, Id),
    Pi,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum BN {
    True,
    False,
    Lt(Id, Id),
    Eq(Id, Id),
    Not(Bid),
    And(Bid, Bid),
    Or(Bid, Bid),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Val {
    Fin(Id),
    PInf,
    NInf,
    NaN,
    /// infinite or finite depending on conditions; only comparisons and conditional terms see it, arithmetic forks first
    Mix(Id),
}
use Val::*;

struct Entry {
    remaining: Vec<u32>,
    taken: u32,
    label: Option<String>,
}
struct Obl {
    name: String,
    facts: Vec<Bid>,
    goal: Bid,
    choices: Vec<(String, u32)>,
    path: usize,
    axf: usize,
}
pub struct AbortPath(&'static str);

pub struct Eng {
    nodes: Vec<Node>,
    nmap: HashMap<Node, Id>,
    b: Vec<BN>,
    bmap: HashMap<BN, Bid>,
    vars: Vec<Option<Rc<Vec<Id>>>>,
    bvars: Vec<Option<Rc<Vec<Id>>>>,
    is32: HashSet<Id>,
    facts: Vec<Bid>,
    factset: HashSet<Bid>,
    trail: Vec<Entry>,
    pos: usize,
    obls: Vec<Obl>,
    oblset: HashSet<(Vec<Bid>, Bid, String)>,
    covers: Vec<Obl>,
    nfresh: u32,
    paths: usize,
    path_obl: usize,
    trivial: BTreeMap<String, usize>,
    feas_q: usize,
    feas_to: usize,
    feas_time: f64,
    feas_cache: HashMap<(Vec<Bid>, Bid), bool>,
    choices: Vec<(String, u32)>,
    stubs: HashSet<String>,
    used: BTreeSet<String>,
    undecided: Option<String>,
    solver: Option<Solver>,
    axioms_used: BTreeSet<String>,
    max_paths: usize,
    deadline: std::time::Instant,
    ensured: BTreeSet<String>,
    undecided_path: Option<String>,
    notes: BTreeSet<String>,
    ndec: usize,
    polys: HashMap<Id, Option<Rc<Poly>>>,
    alias: HashMap<Vec<(Vec<(Id, u32)>, (i128, i128))>, (Id, (i128, i128))>,
    defs: BTreeMap<Id, Id>,
    canon: bool,
    local: bool,
    focus: HashSet<Id>,
    sums: Vec<Sum>,
    signs: HashMap<Vec<(Vec<(Id, u32)>, (i128, i128))>, (Id, bool)>,
    fix: Option<Fix>,
    nums: HashMap<Id, (f64, f64)>,
}
/// recorded inputs and choices: one run of the contract in exact arithmetic
struct Fix { vals: HashMap<String, f64>, choices: Vec<(String, u32)>, used: HashSet<usize> }
type Mono = Vec<(Id, u32)>;
type Poly = BTreeMap<Mono, (i128, i128)>;
fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }
fn rnorm(n: i128, d: i128) -> Option<(i128, i128)> {
    let g = gcd(n, d);
    if g == 0 { return None; }
    let (n, d) = (n / g, d / g);
    Some(if d < 0 { (n.checked_neg()?, d.checked_neg()?) } else { (n, d) })
}
fn radd(a: (i128, i128), b: (i128, i128)) -> Option<(i128, i128)> {
    rnorm(a.0.checked_mul(b.1)?.checked_add(b.0.checked_mul(a.1)?)?, a.1.checked_mul(b.1)?)
}
fn rmul(a: (i128, i128), b: (i128, i128)) -> Option<(i128, i128)> { rnorm(a.0.checked_mul(b.0)?, a.1.checked_mul(b.1)?) }
fn rof(v: f64) -> Option<(i128, i128)> {
    if v == 0.0 { return Some((0, 1)); }
    let bits = v.abs().to_bits();
    let ex = ((bits >> 52) & 0x7ff) as i64;
    if ex == 0 { return None; }
    let mut m = ((bits & ((1u64 << 52) - 1)) | (1u64 << 52)) as i128;
    let mut p = ex - 1075;
    while m & 1 == 0 { m >>= 1; p += 1; }
    if p > 60 || p < -100 { return None; }
    let m = if v < 0.0 { -m } else { m };
    if p >= 0 { Some((m.checked_mul(1i128 << p)?, 1)) } else { Some((m, 1i128 << (-p))) }
}
fn to_f64(r: (i128, i128)) -> Option<f64> {
    if r.1 & (r.1 - 1) != 0 || r.0.abs() >= 1i128 << 53 { return None; }
    Some(r.0 as f64 / r.1 as f64)
}
fn padd(a: &Poly, b: &Poly, k: i128) -> Option<Poly> {
    let mut r = a.clone();
    for (m, c) in b {
        let c = rmul(*c, (k, 1))?;
        let n = match r.get(m) { Some(x) => radd(*x, c)?, None => c };
        if n.0 == 0 { r.remove(m); } else { r.insert(m.clone(), n); }
    }
    if r.len() > 1500 { None } else { Some(r) }
}
fn pmul(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.len() * b.len() > 20000 { return None; }
    let mut r: Poly = BTreeMap::new();
    for (m, c) in a {
        for (n, d) in b {
            let mut t: BTreeMap<Id, u32> = m.iter().cloned().collect();
            for (v, e) in n { *t.entry(*v).or_insert(0) += e; }
            let k: Mono = t.into_iter().collect();
            let c2 = rmul(*c, *d)?;
            let n2 = match r.get(&k) { Some(x) => radd(*x, c2)?, None => c2 };
            if n2.0 == 0 { r.remove(&k); } else { r.insert(k, n2); }
        }
    }
    if r.len() > 1500 { None } else { Some(r) }
}
/// divide by the last coefficient
fn pkey(p: &Poly) -> Option<(Vec<(Mono, (i128, i128))>, (i128, i128))> {
    let (_, l) = p.iter().next_back()?;
    let inv = rnorm(l.1, l.0)?;
    let mut v = vec![];
    for (m, c) in p { v.push((m.clone(), rmul(*c, inv)?)); }
    Some((v, *l))
}
struct Solver {
    child: std::process::Child,
    out: BufReader<std::process::ChildStdout>,
}
static mut ENG: Option<Eng> = None;
fn e() -> &'static mut Eng {
    unsafe { ENG.as_mut().expect("engine") }
}

fn two_sum_exact(a: f64, b: f64) -> Option<f64> {
    let s = a + b;
    if !s.is_finite() { return None; }
    let bb = s - a;
    let err = (a - (s - bb)) + (b - bb);
    if err == 0.0 { Some(s) } else { None }
}
fn mul_exact(a: f64, b: f64) -> Option<f64> {
    let p = a * b;
    if !p.is_finite() { return None; }
    if a == 0.0 || b == 0.0 { return Some(p); }
    if p == 0.0 || p.abs() < 1e-280 { return None; }
    if a.mul_add(b, -p) == 0.0 { Some(p) } else { None }
}

impl Eng {
    fn new() -> Eng {
        let mut g = Eng {
            nodes: vec![], nmap: HashMap::new(), b: vec![], bmap: HashMap::new(), vars: vec![], bvars: vec![],
            is32: HashSet::new(), facts: vec![], factset: HashSet::new(), trail: vec![], pos: 0, obls: vec![],
            oblset: HashSet::new(), covers: vec![], nfresh: 0, paths: 0, path_obl: 0, trivial: BTreeMap::new(), feas_q: 0, feas_to: 0,
            feas_time: 0.0, feas_cache: HashMap::new(), choices: vec![], stubs: HashSet::new(), used: BTreeSet::new(),
            undecided: None, solver: None, axioms_used: BTreeSet::new(), max_paths: 200000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600), ensured: BTreeSet::new(), undecided_path: None,
            notes: BTreeSet::new(), ndec: 0, polys: HashMap::new(), alias: HashMap::new(), defs: BTreeMap::new(), canon: false, local: false, focus: HashSet::new(), sums: vec![], signs: HashMap::new(), fix: None, nums: HashMap::new(),
        };
        g.mkb(BN::True);
        g.mkb(BN::False);
        g
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(i) = self.nmap.get(&n) { return *i; }
        let i = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.vars.push(None);
        self.nmap.insert(n, i);
        i
    }
    fn mkb(&mut self, n: BN) -> Bid {
        if let Some(i) = self.bmap.get(&n) { return *i; }
        let i = self.b.len() as Bid;
        self.b.push(n.clone());
        self.bvars.push(None);
        self.bmap.insert(n, i);
        i
    }
    fn k(&mut self, v: f64) -> Id {
        let v = if v == 0.0 { 0.0 } else { v };
        self.mk(Node::Const(v.to_bits()))
    }
    fn cv(&self, i: Id) -> Option<f64> {
        if let Node::Const(b) = self.nodes[i as usize] { Some(f64::from_bits(b)) } else { None }
    }
    /// canonical polynomial of a term over variables, square roots, inverses, ...; abbreviations are expanded
    fn poly(&mut self, i: Id) -> Option<Rc<Poly>> {
        if let Some(r) = self.polys.get(&i) { return r.clone(); }
        let var = |i: Id| { let mut p: Poly = BTreeMap::new(); p.insert(vec![(i, 1)], (1, 1)); Some(p) };
        let r: Option<Poly> = match self.nodes[i as usize].clone() {
            Node::Const(b) => rof(f64::from_bits(b)).map(|v| { let mut p: Poly = BTreeMap::new(); if v.0 != 0 { p.insert(vec![], v); } p }),
            Node::Var(_) => match self.defs.get(&i).cloned() { Some(d) => self.poly(d).map(|p| (*p).clone()), None => var(i) },
            Node::Add(a, b) => match (self.poly(a), self.poly(b)) { (Some(x), Some(y)) => padd(&x, &y, 1), _ => None },
            Node::Sub(a, b) => match (self.poly(a), self.poly(b)) { (Some(x), Some(y)) => padd(&x, &y, -1), _ => None },
            Node::Neg(a) => self.poly(a).and_then(|x| padd(&BTreeMap::new(), &x, -1)),
            Node::Mul(a, b) => match (self.poly(a), self.poly(b)) { (Some(x), Some(y)) => pmul(&x, &y), _ => None },
            _ => var(i),
        };
        let r = r.map(Rc::new);
        self.polys.insert(i, r.clone());
        r
    }
    /// the short form of a term whose polynomial has been given one
    fn short(&mut self, i: Id) -> Id {
        if self.alias.is_empty() && !self.canon { return i; }
        let p = match self.poly(i) { Some(p) => p, None => return i };
        if p.is_empty() { return self.k(0.0); }
        if p.len() == 1 && p.contains_key(&vec![]) { if let Some(v) = to_f64(p[&vec![]]) { return self.k(v); } }
        let (k, l) = match pkey(&p) { Some(x) => x, None => return i };
        if let Some((to, l2)) = self.alias.get(&k).cloned() {
            let f = match rnorm(l2.1, l2.0).and_then(|x| rmul(l, x)).and_then(to_f64) { Some(f) => f, None => return i };
            if to == i { return i; }
            if f == 1.0 { return to; }
            if let Node::Const(_) = self.nodes[to as usize] { let f = self.k(f); return self.mul(f, to); }
            if f == -1.0 { return match self.nodes[to as usize] { Node::Neg(x) => x, _ => self.mk(Node::Neg(to)) }; }
            let f = self.k(f);
            let (a, b) = if f <= to { (f, to) } else { (to, f) };
            return self.mk(Node::Mul(a, b));
        }
        if self.canon {
            if p.len() == 1 {
                let (m, f) = p.iter().next().unwrap();
                if m.len() == 1 && m[0].1 == 1 && *f == (1, 1) { return m[0].0; }
            }
            self.alias.insert(k, (i, l));
        }
        i
    }
    /// the atom "a < b" or "a = b" rewritten by the registered sign equivalences
    fn sign_atom(&mut self, a: Id, b: Id) -> Option<(Id, bool)> {
        if self.signs.is_empty() { return None; }
        let (x, y) = (self.poly(a)?, self.poly(b)?);
        let p = padd(&x, &y, -1)?;
        let (k, l) = pkey(&p)?;
        let (to, pos) = self.signs.get(&k).cloned()?;
        Some((to, (l.0 > 0) == pos))
    }
    fn set_sign(&mut self, from: Id, to: Id) {
        if let Some(p) = self.poly(from) { if let Some((k, l)) = pkey(&p) { self.signs.insert(k, (to, l.0 > 0)); } }
    }
    fn set_alias(&mut self, from: Id, to: Id) {
        if let Some(p) = self.poly(from) { if let Some((k, l)) = pkey(&p) { self.alias.insert(k, (to, l)); } }
    }
    fn add(&mut self, a: Id, b: Id) -> Id {
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => if let Some(s) = two_sum_exact(x, y) { return self.k(s); },
            (Some(x), _) if x == 0.0 => return b,
            (_, Some(y)) if y == 0.0 => return a,
            _ => {}
        }
        if let Node::Neg(y) = self.nodes[b as usize] { return self.sub(a, y); }
        if let Node::Neg(x) = self.nodes[a as usize] { return self.sub(b, x); }
        if let Node::Sub(x, y) = self.nodes[b as usize] { if y == a { return x; } }
        if let Node::Sub(x, y) = self.nodes[a as usize] { if y == b { return x; } }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let i = self.mk(Node::Add(a, b));
        self.short(i)
    }
    fn sub(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.k(0.0); }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => if let Some(s) = two_sum_exact(x, -y) { return self.k(s); },
            (Some(x), _) if x == 0.0 => return self.neg(b),
            (_, Some(y)) if y == 0.0 => return a,
            _ => {}
        }
        if let Node::Neg(y) = self.nodes[b as usize] { return self.add(a, y); }
        let i = self.mk(Node::Sub(a, b));
        self.short(i)
    }
    fn neg(&mut self, a: Id) -> Id {
        if let Some(x) = self.cv(a) { return self.k(-x); }
        match self.nodes[a as usize] {
            Node::Neg(x) => x,
            Node::Sub(x, y) => self.sub(y, x),
            _ => self.mk(Node::Neg(a)),
        }
    }
    fn mul(&mut self, a: Id, b: Id) -> Id {
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => if let Some(s) = mul_exact(x, y) { return self.k(s); },
            (Some(x), _) if x == 0.0 => return a,
            (_, Some(y)) if y == 0.0 => return b,
            (Some(x), _) if x == 1.0 => return b,
            (_, Some(y)) if y == 1.0 => return a,
            (Some(x), _) if x == -1.0 => return self.neg(b),
            (_, Some(y)) if y == -1.0 => return self.neg(a),
            _ => {}
        }
        if let (Node::Sqrt(x), true) = (&self.nodes[a as usize], a == b) { return *x; }
        if let (Node::Ite(_, x, y), true) = (&self.nodes[a as usize], a == b) {
            let (x, y) = (*x, *y);
            if let Node::Neg(n) = self.nodes[x as usize] { if n == y { return self.mul(y, y); } }
        }
        // constant * (constant * x)
        let (k0, o0) = if self.cv(a).is_some() { (self.cv(a), b) } else { (self.cv(b), a) };
        if let (Some(k), Node::Mul(x, y)) = (k0, self.nodes[o0 as usize].clone()) {
            let (k1, o1) = if self.cv(x).is_some() { (self.cv(x), y) } else { (self.cv(y), x) };
            if let Some(k1) = k1 { if let Some(p) = mul_exact(k, k1) { let p = self.k(p); return self.mul(p, o1); } }
        }
        let (na, a) = if let Node::Neg(x) = self.nodes[a as usize] { (true, x) } else { (false, a) };
        let (nb, b) = if let Node::Neg(x) = self.nodes[b as usize] { (true, x) } else { (false, b) };
        if na || nb {
            let m = self.mul(a, b);
            return if na != nb { self.neg(m) } else { m };
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let i = self.mk(Node::Mul(a, b));
        self.short(i)
    }
    fn inv(&mut self, a: Id) -> Id {
        if let Some(x) = self.cv(a) {
            let r = 1.0 / x;
            if r.is_finite() && x != 0.0 && mul_exact(r, x) == Some(1.0) { return self.k(r); }
        }
        match self.nodes[a as usize] {
            Node::Neg(x) => { let i = self.inv(x); self.neg(i) }
            _ => self.mk(Node::Inv(a)),
        }
    }
    fn div(&mut self, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0.0 {
                let q = x / y;
                if q.is_finite() && mul_exact(q, y) == Some(x) { return self.k(q); }
            }
        }
        let i = self.inv(b);
        self.mul(a, i)
    }
    fn sqrt(&mut self, a: Id) -> Id {
        if let Some(x) = self.cv(a) {
            if x >= 0.0 {
                let r = x.sqrt();
                if mul_exact(r, r) == Some(x) { return self.k(r); }
            }
        }
        self.mk(Node::Sqrt(a))
    }
    fn ite(&mut self, c: Bid, a: Id, b: Id) -> Id {
        match self.b[c as usize] {
            BN::True => a,
            BN::False => b,
            _ if a == b => a,
            BN::Not(n) => self.ite(n, b, a),
            _ => self.mk(Node::Ite(c, a, b)),
        }
    }
    fn fun(&mut self, f: F, a: Id, b: Id) -> Id {
        let na = self.nodes[a as usize].clone();
        match (f, &na) {
            (F::Cos, Node::Fun(F::Acos, x, _)) => return *x,
            (F::Sin, Node::Fun(F::Acos, x, _)) => {
                let x = *x;
                let m = self.mul(x, x);
                let o = self.k(1.0);
                let d = self.sub(o, m);
                return self.sqrt(d);
            }
            (F::Sin, Node::Fun(F::Asin, x, _)) => return *x,
            (F::Cos, Node::Fun(F::Atan2, y, x)) | (F::Sin, Node::Fun(F::Atan2, y, x)) => {
                let (x, y) = (*x, *y);
                let xx = self.mul(x, x);
                let yy = self.mul(y, y);
                let s = self.add(xx, yy);
                let r = self.sqrt(s);
                return if f == F::Cos { self.div(x, r) } else { self.div(y, r) };
            }
            (F::Cos, Node::Neg(x)) => return self.fun(F::Cos, *x, b),
            (F::Sin, Node::Neg(x)) => { let s = self.fun(F::Sin, *x, b); return self.neg(s); }
            (F::Exp, Node::Fun(F::Ln, x, _)) => return *x,
            (F::Ln, Node::Fun(F::Exp, x, _)) => return *x,
            (F::Cos, Node::Const(0)) | (F::Exp, Node::Const(0)) => return self.k(1.0),
            (F::Sin, Node::Const(0)) | (F::Atan, Node::Const(0)) | (F::Asin, Node::Const(0)) => return self.k(0.0),
            _ => {}
        }
        if let (F::Ln, Some(x)) = (f, self.cv(a)) { if x == 1.0 { return self.k(0.0); } }
        if let (F::Rnd32, Some(x)) = (f, self.cv(a)) { return self.k((x as f32) as f64); }
        if let (F::Acos, Some(x)) = (f, self.cv(a)) { if x == 1.0 { return self.k(0.0); } }
        if let (F::Floor | F::Ceil | F::Trunc | F::Round, Some(x)) = (f, self.cv(a)) {
            let r = match f { F::Floor => x.floor(), F::Ceil => x.ceil(), F::Trunc => x.trunc(), _ => x.round() };
            return self.k(r);
        }
        self.mk(Node::Fun(f, a, b))
    }
    fn lt(&mut self, a: Id, b: Id) -> Bid {
        if a == b { return 1; }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return if x < y { 0 } else { 1 }; }
        if let Some((to, pos)) = self.sign_atom(a, b) {
            let z = self.k(0.0);
            let (x, y) = if pos { (to, z) } else { (z, to) };
            if let (Some(x), Some(y)) = (self.cv(x), self.cv(y)) { return if x < y { 0 } else { 1 }; }
            return self.mkb(BN::Lt(x, y));
        }
        if let (Node::Sqrt(x), Node::Sqrt(y)) = (&self.nodes[a as usize], &self.nodes[b as usize]) { let (x, y) = (*x, *y); if self.canon { return self.lt(x, y); } }
        self.mkb(BN::Lt(a, b))
    }
    fn eq(&mut self, a: Id, b: Id) -> Bid {
        if a == b { return 0; }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return if x == y { 0 } else { 1 }; }
        let (a, b) = match self.sign_atom(a, b) { Some((to, _)) => (to, self.k(0.0)), None => (a, b) };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return if x == y { 0 } else { 1 }; }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mkb(BN::Eq(a, b))
    }
    fn not(&mut self, a: Bid) -> Bid {
        match self.b[a as usize] {
            BN::True => 1,
            BN::False => 0,
            BN::Not(x) => x,
            _ => self.mkb(BN::Not(a)),
        }
    }
    fn and(&mut self, a: Bid, b: Bid) -> Bid {
        if a == 1 || b == 1 { return 1; }
        if a == 0 { return b; }
        if b == 0 || a == b { return a; }
        if self.not(a) == b { return 1; }
        self.mkb(BN::And(a, b))
    }
    fn or(&mut self, a: Bid, b: Bid) -> Bid {
        if a == 0 || b == 0 { return 0; }
        if a == 1 { return b; }
        if b == 1 || a == b { return a; }
        if self.not(a) == b { return 0; }
        self.mkb(BN::Or(a, b))
    }
    fn nvars(&mut self, i: Id) -> Rc<Vec<Id>> {
        if let Some(v) = &self.vars[i as usize] { return v.clone(); }
        let n = self.nodes[i as usize].clone();
        let mut s: Vec<Id> = vec![];
        match n {
            Node::Const(_) | Node::Pi | Node::Mix(..) => {}
            Node::Var(_) => s.push(i),
            Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => {
                s.extend(self.nvars(a).iter());
                s.extend(self.nvars(b).iter());
            }
            Node::Neg(a) => s.extend(self.nvars(a).iter()),
            Node::Inv(a) | Node::Sqrt(a) => { s.push(i); s.extend(self.nvars(a).iter()) }
            Node::Fun(_, a, b) => {
                s.push(i);
                s.extend(self.nvars(a).iter());
                s.extend(self.nvars(b).iter());
            }
            Node::Ite(c, a, b) => {
                s.extend(self.bv(c).iter());
                s.extend(self.nvars(a).iter());
                s.extend(self.nvars(b).iter());
            }
        }
        s.sort();
        s.dedup();
        let r = Rc::new(s);
        self.vars[i as usize] = Some(r.clone());
        r
    }
    fn bv(&mut self, i: Bid) -> Rc<Vec<Id>> {
        if let Some(v) = &self.bvars[i as usize] { return v.clone(); }
        let mut s: Vec<Id> = vec![];
        match self.b[i as usize].clone() {
            BN::True | BN::False => {}
            BN::Lt(a, b) | BN::Eq(a, b) => {
                s.extend(self.nvars(a).iter());
                s.extend(self.nvars(b).iter());
            }
            BN::Not(a) => s.extend(self.bv(a).iter()),
            BN::And(a, b) | BN::Or(a, b) => {
                s.extend(self.bv(a).iter());
                s.extend(self.bv(b).iter());
            }
        }
        s.sort();
        s.dedup();
        let r = Rc::new(s);
        self.bvars[i as usize] = Some(r.clone());
        r
    }
    fn slice(&mut self, goal: Bid) -> Vec<Bid> {
        let facts = self.facts.clone();
        let mut vs: HashSet<Id> = self.bv(goal).iter().cloned().collect();
        let mut inn = vec![false; facts.len()];
        loop {
            let mut ch = false;
            for (i, f) in facts.iter().enumerate() {
                if inn[i] { continue; }
                let fv = self.bv(*f);
                if fv.iter().any(|x| vs.contains(x)) {
                    inn[i] = true;
                    ch = true;
                    vs.extend(fv.iter().cloned());
                }
            }
            if !ch { break; }
        }
        facts.iter().enumerate().filter(|(i, _)| inn[*i]).map(|(_, f)| *f).collect()
    }
    /// the facts over the variables of the goal only
    fn near(&mut self, goal: Bid) -> Vec<Bid> {
        let vs: HashSet<Id> = self.bv(goal).iter().cloned().collect();
        let facts = self.facts.clone();
        facts.into_iter().filter(|f| self.bv(*f).iter().all(|x| vs.contains(x))).collect()
    }
    fn push_fact(&mut self, b: Bid) {
        match self.b[b as usize].clone() {
            BN::True => {}
            BN::And(x, y) => { self.push_fact(x); self.push_fact(y); }
            BN::Not(x) => {
                if let BN::Or(p, q) = self.b[x as usize].clone() {
                    let (np, nq) = (self.not(p), self.not(q));
                    self.push_fact(np);
                    self.push_fact(nq);
                } else if self.factset.insert(b) { self.facts.push(b); }
            }
            _ => if self.factset.insert(b) { self.facts.push(b); }
        }
    }
    // --- SMT printing (feasibility only; the prover prints its own) ---
    fn smt(&mut self, facts: &[Bid]) -> String {
        let mut out = String::new();
        let mut dn: HashSet<Id> = HashSet::new();
        let mut db: HashSet<Bid> = HashSet::new();
        for f in facts { self.pb(*f, &mut out, &mut dn, &mut db); }
        for f in facts { let _ = writeln!(out, "(assert b{})", f); }
        out
    }
    fn pn(&mut self, i: Id, o: &mut String, dn: &mut HashSet<Id>, db: &mut HashSet<Bid>) {
        if !dn.insert(i) { return; }
        match self.nodes[i as usize].clone() {
            Node::Const(b) => { let _ = writeln!(o, "(define-fun n{} () Real {})", i, rat(f64::from_bits(b))); }
            Node::Pi => { let _ = writeln!(o, "(declare-const n{} Real)(assert (and (< 3.14159265358979 n{}) (< n{} 3.1415926535898)))", i, i, i); }
            Node::Mix(..) => unreachable!(),
            Node::Var(_) => { let _ = writeln!(o, "(declare-const n{} Real)", i); }
            Node::Add(a, b) => { self.pn(a, o, dn, db); self.pn(b, o, dn, db); let _ = writeln!(o, "(define-fun n{} () Real (+ n{} n{}))", i, a, b); }
            Node::Sub(a, b) => { self.pn(a, o, dn, db); self.pn(b, o, dn, db); let _ = writeln!(o, "(define-fun n{} () Real (- n{} n{}))", i, a, b); }
            Node::Mul(a, b) => { self.pn(a, o, dn, db); self.pn(b, o, dn, db); let _ = writeln!(o, "(define-fun n{} () Real (* n{} n{}))", i, a, b); }
            Node::Neg(a) => { self.pn(a, o, dn, db); let _ = writeln!(o, "(define-fun n{} () Real (- n{}))", i, a); }
            Node::Inv(a) => {
                self.pn(a, o, dn, db);
                if let Some(c) = self.cv(a) {
                    let _ = writeln!(o, "(define-fun n{} () Real (/ 1.0 {}))", i, rat(c));
                } else {
                    let _ = writeln!(o, "(declare-const n{} Real)(assert (= (* n{} n{}) 1.0))", i, i, a);
                }
            }
            Node::Sqrt(a) => { self.pn(a, o, dn, db); let _ = writeln!(o, "(declare-const n{} Real)(assert (and (>= n{} 0.0) (= (* n{} n{}) n{})))", i, i, i, i, a); }
            Node::Ite(c, a, b) => { self.pb(c, o, dn, db); self.pn(a, o, dn, db); self.pn(b, o, dn, db); let _ = writeln!(o, "(define-fun n{} () Real (ite b{} n{} n{}))", i, c, a, b); }
            Node::Fun(f, a, b) => {
                self.pn(a, o, dn, db);
                let _ = writeln!(o, "(declare-const n{} Real)", i);
                match f {
                    F::Sin | F::Cos => {
                        let _ = writeln!(o, "(assert (and (<= (- 1.0) n{}) (<= n{} 1.0)))", i, i);
                        let other = self.nmap.get(&Node::Fun(if f == F::Sin { F::Cos } else { F::Sin }, a, b)).cloned();
                        if let Some(x) = other { if dn.contains(&x) { let _ = writeln!(o, "(assert (= (+ (* n{} n{}) (* n{} n{})) 1.0))", i, i, x, x); } }
                    }
                    F::Acos => { let _ = writeln!(o, "(assert (and (<= 0.0 n{}) (<= n{} 3.1415926535898)))", i, i); }
                    F::Exp => { let _ = writeln!(o, "(assert (< 0.0 n{}))", i); }
                    _ => {}
                }
            }
        }
    }
    fn pb(&mut self, i: Bid, o: &mut String, dn: &mut HashSet<Id>, db: &mut HashSet<Bid>) {
        if !db.insert(i) { return; }
        match self.b[i as usize].clone() {
            BN::True => { let _ = writeln!(o, "(define-fun b{} () Bool true)", i); }
            BN::False => { let _ = writeln!(o, "(define-fun b{} () Bool false)", i); }
            BN::Lt(a, b) => { self.pn(a, o, dn, db); self.pn(b, o, dn, db); let _ = writeln!(o, "(define-fun b{} () Bool (< n{} n{}))", i, a, b); }
            BN::Eq(a, b) => { self.pn(a, o, dn, db); self.pn(b, o, dn, db); let _ = writeln!(o, "(define-fun b{} () Bool (= n{} n{}))", i, a, b); }
            BN::Not(a) => { self.pb(a, o, dn, db); let _ = writeln!(o, "(define-fun b{} () Bool (not b{}))", i, a); }
            BN::And(a, b) => { self.pb(a, o, dn, db); self.pb(b, o, dn, db); let _ = writeln!(o, "(define-fun b{} () Bool (and b{} b{}))", i, a, b); }
            BN::Or(a, b) => { self.pb(a, o, dn, db); self.pb(b, o, dn, db); let _ = writeln!(o, "(define-fun b{} () Bool (or b{} b{}))", i, a, b); }
        }
    }
    /// value and error bound, up to a factor, of a closed term; no bound: not known
    fn num(&mut self, i: Id) -> (f64, f64) {
        if let Some(r) = self.nums.get(&i) { return *r; }
        let r = match self.nodes[i as usize].clone() {
            Node::Const(b) => { let v = f64::from_bits(b); (v, v.abs()) }
            Node::Pi => (std::f64::consts::PI, 3.2),
            Node::Var(_) | Node::Mix(..) => (0.0, f64::INFINITY),
            Node::Add(a, b) => { let (x, y) = (self.num(a), self.num(b)); (x.0 + y.0, x.1 + y.1) }
            Node::Sub(a, b) => { let (x, y) = (self.num(a), self.num(b)); (x.0 - y.0, x.1 + y.1) }
            Node::Mul(a, b) => { let (x, y) = (self.num(a), self.num(b)); (x.0 * y.0, x.1 * y.1) }
            Node::Neg(a) => { let x = self.num(a); (-x.0, x.1) }
            Node::Inv(a) => { let x = self.num(a); if x.0.abs() > 1e-6 * x.1 { (1.0 / x.0, x.1 / (x.0 * x.0)) } else { (0.0, f64::INFINITY) } }
            Node::Sqrt(a) => { let x = self.num(a); if x.0 > 1e-6 * x.1 { (x.0.sqrt(), x.1 / x.0.sqrt()) } else { (0.0, f64::INFINITY) } }
            Node::Fun(F::Sin, a, _) => { let x = self.num(a); (x.0.sin(), 1.0 + x.1) }
            Node::Fun(F::Cos, a, _) => { let x = self.num(a); (x.0.cos(), 1.0 + x.1) }
            Node::Fun(F::Acos, a, _) => { let x = self.num(a); let w = 1.0 - x.0 * x.0; if w > 1e-6 * (1.0 + x.1) { (x.0.acos(), 4.0 + x.1 / w.sqrt()) } else { (0.0, f64::INFINITY) } }
            Node::Fun(F::Exp, a, _) => { let x = self.num(a); (x.0.exp(), x.0.exp() * (1.0 + x.1)) }
            Node::Fun(F::Ln, a, _) => { let x = self.num(a); if x.0 > 1e-6 * x.1 { (x.0.ln(), x.0.ln().abs() + x.1 / x.0) } else { (0.0, f64::INFINITY) } }
            Node::Fun(..) => (0.0, f64::INFINITY),
            Node::Ite(c, a, b) => match self.numb(c) { Some(true) => self.num(a), Some(false) => self.num(b), None => (0.0, f64::INFINITY) },
        };
        let r = if r.0.is_finite() && r.1 < 1e250 && (r.1 > 1e-250 || r.1 == 0.0) { r } else { (0.0, f64::INFINITY) };
        self.nums.insert(i, r);
        r
    }
    fn numb(&mut self, b: Bid) -> Option<bool> {
        match self.b[b as usize].clone() {
            BN::True => Some(true),
            BN::False => Some(false),
            BN::Not(x) => self.numb(x).map(|r| !r),
            BN::And(x, y) => match (self.numb(x), self.numb(y)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), r) => r, _ => None },
            BN::Or(x, y) => match (self.numb(x), self.numb(y)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), r) => r, _ => None },
            BN::Lt(x, y) | BN::Eq(x, y) => {
                let lt = if let BN::Lt(..) = self.b[b as usize] { true } else { false };
                let (p, q) = (self.num(x), self.num(y));
                let d = q.0 - p.0;
                if d.abs() > 1e-9 * (p.1 + q.1) { return Some(lt && d > 0.0); }
                let d = self.sub(y, x);
                let p = self.poly(d)?;
                let s = if p.is_empty() { 0 } else if p.len() == 1 { p.get(&vec![])?.0.signum() } else { return None };
                Some(if lt { s > 0 } else { s == 0 })
            }
        }
    }
    /// true unless the solver refutes facts ∧ b
    fn feasible(&mut self, b: Bid) -> bool {
        if b == 0 { return true; }
        if b == 1 { return false; }
        if self.fix.is_some() { return self.numb(b) != Some(false); }
        let mut fs = if self.local { self.near(b) } else { self.slice(b) };
        fs.sort();
        let key = (fs.clone(), b);
        if let Some(r) = self.feas_cache.get(&key) { return *r; }
        fs.push(b);
        let body = self.smt(&fs);
        self.feas_q += 1;
        let t = std::time::Instant::now();
        let to = std::env::var("VC_FEAS_MS").unwrap_or("600".into());
        let q = format!("(reset)(set-option :timeout {})\n{}(check-sat)\n(echo \"done\")\n", to, body);
        if self.solver.is_none() {
            let mut child = std::process::Command::new(std::env::var("VC_Z3").unwrap_or("z3-new".into()))
                .arg("-in").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped())
                .spawn().expect("z3");
            let out = BufReader::new(child.stdout.take().unwrap());
            self.solver = Some(Solver { child, out });
        }
        let s = self.solver.as_mut().unwrap();
        s.child.stdin.as_mut().unwrap().write_all(q.as_bytes()).unwrap();
        s.child.stdin.as_mut().unwrap().flush().unwrap();
        let mut res = String::new();
        loop {
            let mut l = String::new();
            if s.out.read_line(&mut l).unwrap() == 0 { panic!("solver died"); }
            let l = l.trim();
            if l == "done" { break; }
            if l.starts_with("(error") && !l.contains("timeout") && !l.contains("canceled") { eprintln!("solver: {}", l); eprintln!("{}", q); }
            res = l.to_string();
        }
        let dt = t.elapsed().as_secs_f64();
        self.feas_time += dt;
        if std::env::var("VC_TRACE").is_ok() { eprintln!("feas {} {:.2}s {} facts", res, dt, fs.len()); if dt > 0.4 { eprintln!("{}", q); } }
        let r = match res.as_str() { "unsat" => false, "sat" => true, _ => { self.feas_to += 1; true } };
        self.feas_cache.insert(key, r);
        r
    }
    fn branch(&mut self, opts: impl FnOnce(&mut Eng) -> Vec<u32>, label: Option<&str>) -> u32 {
        if self.pos < self.trail.len() {
            let t = self.trail[self.pos].taken;
            self.pos += 1;
            return t;
        }
        if std::time::Instant::now() > self.deadline { abort_unit("time budget of the symbolic execution exhausted"); }
        let mut o = opts(self);
        if o.is_empty() { abort("infeasible"); }
        o.reverse();
        let taken = o.pop().unwrap();
        self.trail.push(Entry { remaining: o, taken, label: label.map(|x| x.to_string()) });
        self.pos += 1;
        taken
    }
    fn known(&mut self, b: Bid) -> Option<bool> {
        if b == 0 { return Some(true); }
        if b == 1 { return Some(false); }
        if self.factset.contains(&b) { return Some(true); }
        if self.fix.is_some() { if let Some(r) = self.numb(b) { return Some(r); } }
        let n = self.not(b);
        if self.factset.contains(&n) { return Some(false); }
        // order consequences: a<b known  =>  not b<a, not a=b ; a=b known => not a<b
        match self.b[b as usize].clone() {
            BN::Lt(x, y) => {
                let r = self.lt(y, x);
                if self.factset.contains(&r) { return Some(false); }
                let q = self.eq(x, y);
                if self.factset.contains(&q) { return Some(false); }
            }
            BN::Eq(x, y) => {
                let r = self.lt(y, x);
                if self.factset.contains(&r) { return Some(false); }
                let r = self.lt(x, y);
                if self.factset.contains(&r) { return Some(false); }
            }
            _ => {}
        }
        None
    }
    pub fn decide(&mut self, b: Bid) -> bool {
        if let Some(r) = self.known(b) { return r; }
        let nb = self.not(b);
        let sub = !self.sums.is_empty();
        let r = self.branch(|g| {
            let mut v = vec![];
            if sub { return vec![1, 0]; }
            let f0 = g.feasible(nb);
            if !f0 { return vec![1]; }
            if g.feasible(b) { v.push(1); }
            v.push(0);
            v
        }, None);
        self.push_fact(if r == 1 { b } else { nb });
        r == 1
    }
}

fn abort(w: &'static str) -> ! {
    panic::resume_unwind(Box::new(AbortPath(w)))
}
fn abort_unit(w: &str) -> ! {
    let g = e();
    if g.undecided.is_none() { g.undecided = Some(w.to_string()); }
    abort("undecided")
}
fn unsupported(w: &str) -> ! {
    // the unit as a whole stays undecided
    abort_unit(&format!("unsupported operation: {}", w))
}

/// exact rational text of a finite double
pub fn rat(v: f64) -> String {
    if v == 0.0 { return "0.0".into(); }
    let s = v < 0.0;
    let a = v.abs();
    let bits = a.to_bits();
    let ex = ((bits >> 52) & 0x7ff) as i64;
    let mut m = bits & ((1u64 << 52) - 1);
    let mut p = if ex == 0 { -1074 } else { m |= 1u64 << 52; ex - 1075 };
    while m & 1 == 0 { m >>= 1; p += 1; }
    let t = if p >= 0 {
        format!("{}.0", big_mul_pow2(m, p as u32))
    } else {
        format!("(/ {}.0 {}.0)", m, big_mul_pow2(1, (-p) as u32))
    };
    if s { format!("(- {})", t) } else { t }
}
fn big_mul_pow2(m: u64, p: u32) -> String {
    let mut d: Vec<u32> = m.to_string().bytes().rev().map(|c| (c - b'0') as u32).collect();
    for _ in 0..p {
        let mut c = 0;
        for x in d.iter_mut() { let t = *x * 2 + c; *x = t % 10; c = t / 10; }
        if c > 0 { d.push(c); }
    }
    d.iter().rev().map(|x| (b'0' + *x as u8) as char).collect()
}

// ---------------------------------------------------------------- values <-> machine floats
const T64: u64 = 0x7FFD_0000_0000_0000;
const T32: u32 = 0x7FE0_0000;
fn resolve(v: Val) -> Val {
    if let Mix(i) = v {
        let (p, n, f) = parts(v);
        let _ = i;
        if e().decide(p) { return PInf; }
        if e().decide(n) { return NInf; }
        return Fin(f);
    }
    v
}
fn dec64(x: f64) -> Val { resolve(decx64(x)) }
fn dec32(x: f32) -> Val { resolve(decx32(x)) }
/// (is +inf, is -inf, value when finite)
fn parts(v: Val) -> (Bid, Bid, Id) {
    match v {
        PInf => (0, 1, e().k(0.0)),
        NInf => (1, 0, e().k(0.0)),
        Fin(i) => (1, 1, i),
        Mix(i) => match e().nodes[i as usize] { Node::Mix(p, n, f) => (p, n, f), _ => unreachable!() },
        NaN => unreachable!(),
    }
}
fn fin_or_mix(i: Id) -> Val {
    let mut i = i;
    // a conditional term whose condition has been decided on this path since it was formed
    while let Node::Ite(c, a, b) = e().nodes[i as usize] {
        match e().known(c) { Some(true) => i = a, Some(false) => i = b, None => break }
    }
    if let Node::Mix(..) = e().nodes[i as usize] { Mix(i) } else { Fin(i) }
}
/// is b settled on this path? the solver is asked only where a number is compared with a constant
fn settled(l: Bid, x: Id, y: Id) -> Option<bool> {
    let g = e();
    if let Some(r) = g.known(l) { return Some(r); }
    if g.sums.is_empty() && (matches!(g.nodes[x as usize], Node::Const(_)) || matches!(g.nodes[y as usize], Node::Const(_))) {
        let n = g.not(l);
        if !g.feasible(n) { return Some(true); }
        if !g.feasible(l) { return Some(false); }
    }
    None
}
fn decx64(x: f64) -> Val {
    let b = x.to_bits();
    if b >> 32 == (T64 >> 32) { return fin_or_mix(b as u32); }
    if b >> 48 == 0x7FFD || b >> 48 == 0xFFFD { unsupported("bit manipulation of a float"); }
    if x.is_nan() { return NaN; }
    if x == f64::INFINITY { return PInf; }
    if x == f64::NEG_INFINITY { return NInf; }
    Fin(e().k(x))
}
fn enc64(v: Val) -> f64 {
    match v {
        Fin(i) => match e().cv(i) { Some(c) => c, None => f64::from_bits(T64 | i as u64) },
        PInf => f64::INFINITY,
        NInf => f64::NEG_INFINITY,
        NaN => f64::NAN,
        Mix(i) => f64::from_bits(T64 | i as u64),
    }
}
fn decx32(x: f32) -> Val {
    let b = x.to_bits();
    if b & 0xFFE0_0000 == T32 { return fin_or_mix(b & 0x1F_FFFF); }
    if x.is_nan() { return NaN; }
    if x == f32::INFINITY { return PInf; }
    if x == f32::NEG_INFINITY { return NInf; }
    Fin(e().k(x as f64))
}
fn enc32(v: Val) -> f32 {
    match v {
        Fin(i) => {
            if let Some(c) = e().cv(i) { if (c as f32) as f64 == c { return c as f32; } }
            if i >= 1 << 21 { abort_unit("too many terms for f32 handles"); }
            e().is32.insert(i);
            f32::from_bits(T32 | i)
        }
        PInf => f32::INFINITY,
        NInf => f32::NEG_INFINITY,
        NaN => f32::NAN,
        Mix(i) => { if i >= 1 << 21 { abort_unit("too many terms for f32 handles"); } f32::from_bits(T32 | i) }
    }
}

// ---------------------------------------------------------------- extended arithmetic (forks)
#[derive(Clone, Copy, PartialEq)]
enum Sg { Neg, Zero, Pos }
fn sign_of(v: Val) -> Sg {
    match v {
        PInf => Sg::Pos,
        NInf => Sg::Neg,
        NaN | Mix(_) => unreachable!(),
        Fin(i) => {
            let g = e();
            let z = g.k(0.0);
            let q = g.eq(i, z);
            if g.decide(q) { return Sg::Zero; }
            let l = g.lt(i, z);
            if g.decide(l) { Sg::Neg } else { Sg::Pos }
        }
    }
}
fn inf(neg: bool) -> Val { if neg { NInf } else { PInf } }
fn vneg(a: Val) -> Val {
    match a { Mix(_) => unreachable!(), Fin(i) => Fin(e().neg(i)), PInf => NInf, NInf => PInf, NaN => NaN }
}
fn vadd(a: Val, b: Val) -> Val {
    match (a, b) {
        (NaN, _) | (_, NaN) => NaN,
        (Fin(x), Fin(y)) => Fin(e().add(x, y)),
        (PInf, NInf) | (NInf, PInf) => NaN,
        (Fin(_), i) | (i, _) => i,
    }
}
fn vsub(a: Val, b: Val) -> Val {
    match (a, b) {
        (Fin(x), Fin(y)) => Fin(e().sub(x, y)),
        _ => vadd(a, vneg(b)),
    }
}
fn vmul(a: Val, b: Val) -> Val {
    match (a, b) {
        (NaN, _) | (_, NaN) => NaN,
        (Fin(x), Fin(y)) => Fin(e().mul(x, y)),
        _ => {
            let (s, t) = (sign_of(a), sign_of(b));
            if s == Sg::Zero || t == Sg::Zero { NaN } else { inf((s == Sg::Neg) != (t == Sg::Neg)) }
        }
    }
}
fn vdiv(a: Val, b: Val, bneg0: Option<bool>) -> Val {
    match (a, b) {
        (NaN, _) | (_, NaN) => NaN,
        (Fin(x), Fin(y)) => {
            let g = e();
            let z = g.k(0.0);
            let q = g.eq(y, z);
            if g.decide(q) {
                let s = sign_of(a);
                if s == Sg::Zero { return NaN; }
                let zn = match bneg0 {
                    Some(n) => n,
                    None => {
                        // sign of a computed zero is not tracked: both results
                        e().notes.insert("division by a computed zero: both signs of the zero explored".into());
                        e().branch(|_| vec![0, 1], None) == 1
                    }
                };
                return inf((s == Sg::Neg) != zn);
            }
            let nq = g.not(q);
            g.push_fact(nq);
            Fin(g.div(x, y))
        }
        (Fin(_), _) => Fin(e().k(0.0)),
        (_, Fin(_)) => { let t = sign_of(b); let s = sign_of(a); if t == Sg::Zero { a } else { inf((s == Sg::Neg) != (t == Sg::Neg)) } }
        _ => NaN,
    }
}
fn vrem(a: Val, b: Val) -> Val {
    if let (Fin(x), Fin(y)) = (a, b) {
        if let (Some(p), Some(q)) = (e().cv(x), e().cv(y)) { let r = p % q; return if r.is_nan() { NaN } else { Fin(e().k(r)) }; }
    }
    unsupported("frem")
}
fn vsqrt(a: Val) -> Val {
    match a {
        NaN | NInf => NaN,
        Mix(_) => unreachable!(),
        PInf => PInf,
        Fin(x) => {
            let g = e();
            let z = g.k(0.0);
            let l = g.lt(x, z);
            if g.decide(l) { return NaN; }
            let nl = g.not(l);
            g.push_fact(nl);
            Fin(g.sqrt(x))
        }
    }
}
fn vabs(a: Val) -> Val {
    match a {
        NaN => NaN,
        Mix(_) => unreachable!(),
        PInf | NInf => PInf,
        Fin(x) => {
            let g = e();
            let z = g.k(0.0);
            let l = g.lt(x, z);
            match g.known(l) { Some(true) => return Fin(g.neg(x)), Some(false) => return a, _ => {} }
            let n = g.neg(x);
            Fin(g.ite(l, n, x))
        }
    }
}
fn vlt(a: Val, b: Val) -> Bid {
    match (a, b) {
        (NaN, _) | (_, NaN) => 1,
        (Mix(_), _) | (_, Mix(_)) => {
            let ((ap, an, af), (bp, bn, bf)) = (parts(a), parts(b));
            let l = e().lt(af, bf);
            let g = e();
            let (nap, nan, nbp, nbn) = (g.not(ap), g.not(an), g.not(bp), g.not(bn));
            let x = g.and(an, nbn);
            let y = g.and(nap, bp);
            let z = g.and(nap, nan);
            let w = g.and(nbp, nbn);
            let z = g.and(z, w);
            let z = g.and(z, l);
            let x = g.or(x, y);
            g.or(x, z)
        }
        (Fin(x), Fin(y)) => e().lt(x, y),
        (NInf, PInf) | (NInf, Fin(_)) | (Fin(_), PInf) => 0,
        _ => 1,
    }
}
fn veq(a: Val, b: Val) -> Bid {
    match (a, b) {
        (NaN, _) | (_, NaN) => 1,
        (Mix(_), _) | (_, Mix(_)) => { let (x, y) = (vlt(a, b), vlt(b, a)); let g = e(); let (x, y) = (g.not(x), g.not(y)); g.and(x, y) }
        (Fin(x), Fin(y)) => e().eq(x, y),
        (PInf, PInf) | (NInf, NInf) => 0,
        _ => 1,
    }
}
fn vle(a: Val, b: Val) -> Bid {
    if a == NaN || b == NaN { return 1; }
    let l = vlt(b, a);
    e().not(l)
}
fn vmin(a: Val, b: Val) -> Val {
    if a == NaN { return b; }
    if b == NaN { return a; }
    match (a, b) {
        (Fin(x), Fin(y)) => { let g = e(); let l = g.lt(y, x);
            match settled(l, x, y) { Some(true) => return b, Some(false) => return a, _ => {} }
            Fin(g.ite(l, y, x)) }
        _ => if vlt(b, a) == 0 { b } else { a },
    }
}
fn vmax(a: Val, b: Val) -> Val {
    if a == NaN { return b; }
    if b == NaN { return a; }
    match (a, b) {
        (Fin(x), Fin(y)) => { let g = e(); let l = g.lt(x, y);
            match settled(l, x, y) { Some(true) => return b, Some(false) => return a, _ => {} }
            Fin(g.ite(l, y, x)) }
        _ => if vlt(a, b) == 0 { b } else { a },
    }
}
fn vfun1(f: F, a: Val) -> Val {
    match (f, a) {
        (_, NaN) => NaN,
        (F::Exp, PInf) | (F::Ln, PInf) => PInf,
        (F::Exp, NInf) => Fin(e().k(0.0)),
        (F::Sin, _) | (F::Cos, _) | (F::Acos, _) | (F::Asin, _) | (F::Ln, _) if !matches!(a, Fin(_)) => NaN,
        (F::Floor, _) | (F::Ceil, _) | (F::Trunc, _) | (F::Round, _) if !matches!(a, Fin(_)) => a,
        (F::Acos, Fin(x)) | (F::Asin, Fin(x)) => {
            let g = e();
            let o = g.k(1.0);
            let m = g.k(-1.0);
            let l = g.lt(o, x);
            if g.decide(l) { return NaN; }
            let l2 = g.lt(x, m);
            if g.decide(l2) { return NaN; }
            let (n1, n2) = (g.not(l), g.not(l2));
            g.push_fact(n1);
            g.push_fact(n2);
            Fin(g.fun(f, x, 0))
        }
        (F::Ln, Fin(x)) => {
            let g = e();
            let z = g.k(0.0);
            let l = g.lt(x, z);
            if g.decide(l) { return NaN; }
            let q = g.eq(x, z);
            if g.decide(q) { return NInf; }
            let p = g.lt(z, x);
            g.push_fact(p);
            Fin(g.fun(f, x, 0))
        }
        (_, Fin(x)) => {
            Fin(e().fun(f, x, 0))
        }
        _ => unsupported("function of infinity"),
    }
}
fn vatan2(y: Val, x: Val) -> Val {
    if y == NaN || x == NaN { return NaN; }
    match (y, x) {
        (Fin(b), Fin(a)) => {
            let g = e();
            let z = g.k(0.0);
            let (q, r) = (g.eq(a, z), g.eq(b, z));
            if g.decide(r) && g.decide(q) { return Fin(g.k(0.0)); }
            // x^2+y^2 > 0
            let aa = g.mul(a, a); let bb = g.mul(b, b); let s = g.add(aa, bb);
            let p = g.lt(z, s); g.push_fact(p);
            let sq = g.sqrt(s); let p = g.lt(z, sq); g.push_fact(p);
            if let Node::Sqrt(_) = g.nodes[b as usize] {
                // an ordinate that is a square root is non-negative: the angle is acos(x / hypotenuse)
                let h = g.div(a, sq);
                return Fin(g.fun(F::Acos, h, 0));
            }
            Fin(g.fun(F::Atan2, b, a))
        }
        _ => unsupported("atan2 of infinity"),
    }
}
fn vpow(x: Val, t: Val) -> Val {
    if let Fin(ti) = t { if let Some(c) = e().cv(ti) { if c == c.trunc() && c.abs() <= 16.0 { return vpowi(x, c as i32); }
        if c == 0.5 { return vsqrt(x); } } }
    match (x, t) {
        (Fin(a), Fin(b)) => {
            let g = e();
            let z = g.k(0.0);
            let l = g.lt(a, z);
            if g.decide(l) { unsupported("powf of a negative base"); }
            let q = g.eq(a, z);
            if g.decide(q) {
                let tq = g.eq(b, z);
                if g.decide(tq) { return Fin(g.k(1.0)); }
                let tl = g.lt(b, z);
                if g.decide(tl) { return PInf; }
                return Fin(g.k(0.0));
            }
            let p = g.lt(z, a);
            g.push_fact(p);
            let ln = g.fun(F::Ln, a, 0);
            let m = g.mul(b, ln);
            Fin(g.fun(F::Exp, m, 0))
        }
        _ => unsupported("powf of infinity/NaN"),
    }
}
fn vpowi(x: Val, n: i32) -> Val {
    let mut r = Fin(e().k(1.0));
    for _ in 0..n.unsigned_abs() { r = vmul(r, x); }
    if n < 0 { vdiv(Fin(e().k(1.0)), r, None) } else { r }
}
fn vcopysign(a: Val, s: Val, native: Option<bool>) -> Val {
    let ab = vabs(a);
    let neg = match (native, s) {
        (Some(n), _) => n,
        (None, PInf) => false,
        (None, NInf) => true,
        (None, NaN) | (None, Mix(_)) => unsupported("copysign of NaN"),
        (None, Fin(_)) => match sign_of(s) { Sg::Neg => true, Sg::Pos => false, Sg::Zero => e().branch(|_| vec![0, 1], None) == 1 },
    };
    if neg { vneg(ab) } else { ab }
}
fn is_raw64(x: f64) -> bool { x.to_bits() >> 32 != (T64 >> 32) }
fn is_raw32(x: f32) -> bool { x.to_bits() & 0xFFE0_0000 != T32 }

macro_rules! entry {
    ($t:ty, $dec:ident, $decx:ident, $enc:ident, $raw:ident, $( $n:ident => $f:expr ),* ; un $( $n1:ident => $f1:expr ),* ; cmp $( $nc:ident => $fc:expr ),* ; ex $add:ident $mul:ident $div:ident $cps:ident $neg:ident $powi:ident) => {
        $( #[no_mangle] pub extern "C-unwind" fn $n(a: $t, b: $t) -> $t { let f: fn(Val, Val) -> Val = $f; $enc(f($dec(a), $dec(b))) } )*
        $( #[no_mangle] pub extern "C-unwind" fn $n1(a: $t) -> $t { let f: fn(Val) -> Val = $f1; $enc(f($dec(a))) } )*
        $( #[no_mangle] pub extern "C-unwind" fn $nc(a: $t, b: $t) -> bool { let f: fn(Val, Val) -> bool = $fc; f($decx(a), $decx(b)) } )*
        #[no_mangle] pub extern "C-unwind" fn $div(a: $t, b: $t) -> $t {
            let z = if $raw(b) && b == 0.0 { Some(b.is_sign_negative()) } else { None };
            $enc(vdiv($dec(a), $dec(b), z))
        }
        #[no_mangle] pub extern "C-unwind" fn $cps(a: $t, b: $t) -> $t {
            let z = if $raw(b) { Some(b.is_sign_negative()) } else { None };
            $enc(vcopysign($dec(a), $dec(b), z))
        }
        #[no_mangle] pub extern "C-unwind" fn $neg(a: $t) -> $t { if $raw(a) { return -a; } $enc(vneg($dec(a))) }
        #[no_mangle] pub extern "C-unwind" fn $powi(a: $t, n: i32) -> $t { $enc(vpowi($dec(a), n)) }
    };
}
fn nan2(a: Val, b: Val) -> bool { a == NaN || b == NaN }
fn dlt(a: Val, b: Val) -> bool { let c = vlt(a, b); e().decide(c) }
fn deq(a: Val, b: Val) -> bool { let c = veq(a, b); e().decide(c) }
fn dle(a: Val, b: Val) -> bool { let c = vle(a, b); e().decide(c) }
entry!(f64, dec64, decx64, enc64, is_raw64,
    __vc_fadd_f64 => vadd, __vc_fsub_f64 => vsub, __vc_fmul_f64 => vmul, __vc_frem_f64 => vrem,
    __vc_minnum_f64 => vmin, __vc_maxnum_f64 => vmax, __vc_pow_f64 => vpow, __vc_atan2_f64 => vatan2,
    __vc_hypot_f64 => |a, b| vsqrt(vadd(vmul(a, a), vmul(b, b))),
    __vc_fminimum_f64 => |a, b| if nan2(a, b) { NaN } else { vmin(a, b) }, __vc_fmaximum_f64 => |a, b| if nan2(a, b) { NaN } else { vmax(a, b) }
    ; un __vc_fabs_f64 => vabs, __vc_sqrt_f64 => vsqrt, __vc_sin_f64 => |a| vfun1(F::Sin, a), __vc_cos_f64 => |a| vfun1(F::Cos, a),
    __vc_acos_f64 => |a| vfun1(F::Acos, a), __vc_asin_f64 => |a| vfun1(F::Asin, a), __vc_atan_f64 => |a| vfun1(F::Atan, a),
    __vc_log_f64 => |a| vfun1(F::Ln, a), __vc_exp_f64 => |a| vfun1(F::Exp, a),
    __vc_floor_f64 => |a| vfun1(F::Floor, a), __vc_ceil_f64 => |a| vfun1(F::Ceil, a), __vc_trunc_f64 => |a| vfun1(F::Trunc, a), __vc_round_f64 => |a| vfun1(F::Round, a),
    __vc_tan_f64 => |a| vdiv(vfun1(F::Sin, a), vfun1(F::Cos, a), None)
    ; cmp __vc_olt_f64 => dlt, __vc_ogt_f64 => |a, b| dlt(b, a), __vc_ole_f64 => dle, __vc_oge_f64 => |a, b| dle(b, a), __vc_oeq_f64 => deq,
    __vc_one_f64 => |a, b| !nan2(a, b) && !deq(a, b), __vc_ord_f64 => |a, b| !nan2(a, b), __vc_uno_f64 => nan2,
    __vc_ult_f64 => |a, b| nan2(a, b) || dlt(a, b), __vc_ugt_f64 => |a, b| nan2(a, b) || dlt(b, a), __vc_ule_f64 => |a, b| nan2(a, b) || dle(a, b),
    __vc_uge_f64 => |a, b| nan2(a, b) || dle(b, a), __vc_ueq_f64 => |a, b| nan2(a, b) || deq(a, b), __vc_une_f64 => |a, b| !deq(a, b)
    ; ex x x __vc_fdiv_f64 __vc_copysign_f64 __vc_fneg_f64 __vc_powi_f64);
entry!(f32, dec32, decx32, enc32, is_raw32,
    __vc_fadd_f32 => vadd, __vc_fsub_f32 => vsub, __vc_fmul_f32 => vmul, __vc_frem_f32 => vrem,
    __vc_minnum_f32 => vmin, __vc_maxnum_f32 => vmax, __vc_pow_f32 => vpow, __vc_atan2_f32 => vatan2,
    __vc_hypot_f32 => |a, b| vsqrt(vadd(vmul(a, a), vmul(b, b))),
    __vc_fminimum_f32 => |a, b| if nan2(a, b) { NaN } else { vmin(a, b) }, __vc_fmaximum_f32 => |a, b| if nan2(a, b) { NaN } else { vmax(a, b) }
    ; un __vc_fabs_f32 => vabs, __vc_sqrt_f32 => vsqrt, __vc_sin_f32 => |a| vfun1(F::Sin, a), __vc_cos_f32 => |a| vfun1(F::Cos, a),
    __vc_acos_f32 => |a| vfun1(F::Acos, a), __vc_asin_f32 => |a| vfun1(F::Asin, a), __vc_atan_f32 => |a| vfun1(F::Atan, a),
    __vc_log_f32 => |a| vfun1(F::Ln, a), __vc_exp_f32 => |a| vfun1(F::Exp, a),
    __vc_floor_f32 => |a| vfun1(F::Floor, a), __vc_ceil_f32 => |a| vfun1(F::Ceil, a), __vc_trunc_f32 => |a| vfun1(F::Trunc, a), __vc_round_f32 => |a| vfun1(F::Round, a),
    __vc_tan_f32 => |a| vdiv(vfun1(F::Sin, a), vfun1(F::Cos, a), None)
    ; cmp __vc_olt_f32 => dlt, __vc_ogt_f32 => |a, b| dlt(b, a), __vc_ole_f32 => dle, __vc_oge_f32 => |a, b| dle(b, a), __vc_oeq_f32 => deq,
    __vc_one_f32 => |a, b| !nan2(a, b) && !deq(a, b), __vc_ord_f32 => |a, b| !nan2(a, b), __vc_uno_f32 => nan2,
    __vc_ult_f32 => |a, b| nan2(a, b) || dlt(a, b), __vc_ugt_f32 => |a, b| nan2(a, b) || dlt(b, a), __vc_ule_f32 => |a, b| nan2(a, b) || dle(a, b),
    __vc_uge_f32 => |a, b| nan2(a, b) || dle(b, a), __vc_ueq_f32 => |a, b| nan2(a, b) || deq(a, b), __vc_une_f32 => |a, b| !deq(a, b)
    ; ex x x __vc_fdiv_f32 __vc_copysign_f32 __vc_fneg_f32 __vc_powi_f32);
fn cge(a: Val, b: Val) -> Bid { vle(b, a) }
fn cnot(b: Bid) -> Bid { e().not(b) }
fn cun(a: Val, b: Val) -> Bid { if nan2(a, b) { 0 } else { 1 } }
macro_rules! conds { ($t:ty, $dec:ident, $( $n:ident => $f:expr ),*) => { $( #[no_mangle] pub extern "C-unwind" fn $n(a: $t, b: $t) -> u32 { let f: fn(Val, Val) -> Bid = $f; f($dec(a), $dec(b)) } )* } }
conds!(f64, decx64, __vc_colt_f64 => vlt, __vc_cogt_f64 => |a, b| vlt(b, a), __vc_cole_f64 => vle, __vc_coge_f64 => cge, __vc_coeq_f64 => veq,
    __vc_cone_f64 => |a, b| if nan2(a, b) { 1 } else { cnot(veq(a, b)) }, __vc_cord_f64 => |a, b| cnot(cun(a, b)), __vc_cuno_f64 => cun,
    __vc_cult_f64 => |a, b| cnot(cge(a, b)), __vc_cugt_f64 => |a, b| cnot(vle(a, b)), __vc_cule_f64 => |a, b| cnot(vlt(b, a)), __vc_cuge_f64 => |a, b| cnot(vlt(a, b)),
    __vc_cueq_f64 => |a, b| if nan2(a, b) { 0 } else { veq(a, b) }, __vc_cune_f64 => |a, b| cnot(veq(a, b)));
conds!(f32, decx32, __vc_colt_f32 => vlt, __vc_cogt_f32 => |a, b| vlt(b, a), __vc_cole_f32 => vle, __vc_coge_f32 => cge, __vc_coeq_f32 => veq,
    __vc_cone_f32 => |a, b| if nan2(a, b) { 1 } else { cnot(veq(a, b)) }, __vc_cord_f32 => |a, b| cnot(cun(a, b)), __vc_cuno_f32 => cun,
    __vc_cult_f32 => |a, b| cnot(cge(a, b)), __vc_cugt_f32 => |a, b| cnot(vle(a, b)), __vc_cule_f32 => |a, b| cnot(vlt(b, a)), __vc_cuge_f32 => |a, b| cnot(vlt(a, b)),
    __vc_cueq_f32 => |a, b| if nan2(a, b) { 0 } else { veq(a, b) }, __vc_cune_f32 => |a, b| cnot(veq(a, b)));
#[no_mangle]
pub extern "C-unwind" fn __vc_cand(a: u32, b: u32) -> u32 { e().and(a, b) }
#[no_mangle]
pub extern "C-unwind" fn __vc_cor(a: u32, b: u32) -> u32 { e().or(a, b) }
fn bite(c: Bid, a: Bid, b: Bid) -> Bid { let g = e(); let n = g.not(c); let x = g.and(c, a); let y = g.and(n, b); g.or(x, y) }
#[no_mangle]
pub extern "C-unwind" fn __vc_cxor(a: u32, b: u32) -> u32 { let n = cnot(b); bite(a, n, b) }
#[no_mangle]
pub extern "C-unwind" fn __vc_csel(c: u32, a: u32, b: u32) -> u32 { bite(c, a, b) }
fn vselect(c: Bid, a: Val, b: Val) -> Val {
    if a == b { return a; }
    match e().known(c) { Some(true) => return a, Some(false) => return b, _ => {} }
    match (a, b) {
        (Fin(x), Fin(y)) => Fin(e().ite(c, x, y)),
        (NaN, _) | (_, NaN) => if e().decide(c) { a } else { b },
        _ => {
            let ((ap, an, af), (bp, bn, bf)) = (parts(a), parts(b));
            let (p, n) = (bite(c, ap, bp), bite(c, an, bn));
            let f = if matches!(a, PInf | NInf) { bf } else if matches!(b, PInf | NInf) { af } else { e().ite(c, af, bf) };
            Mix(e().mk(Node::Mix(p, n, f)))
        }
    }
}
// --- summaries of calls that only answer yes or no (see tools/instrument.py, summaries) ---
struct Sum { trail: Vec<Entry>, pos: usize, nfacts: usize, yes: Bid, runs: usize }
/// a call being summarised was left by unwinding: the unit stays undecided
fn sums_left() {
    let g = e();
    if g.sums.is_empty() { return; }
    let t = g.sums.remove(0);
    g.trail = t.trail;
    g.pos = t.pos;
    g.sums.clear();
    if g.undecided.is_none() { g.undecided = Some("a call to be summarised did not return".into()); }
}
#[no_mangle]
pub extern "C-unwind" fn __vc_sum_begin() {
    let g = e();
    let t = std::mem::take(&mut g.trail);
    let s = Sum { trail: t, pos: g.pos, nfacts: g.facts.len(), yes: 1, runs: 0 };
    g.pos = 0;
    g.sums.push(s);
}
#[no_mangle]
pub extern "C-unwind" fn __vc_sum_copy(to: *mut u8, from: *const u8, n: usize) { unsafe { std::ptr::copy_nonoverlapping(from, to, n) } }
#[no_mangle]
pub extern "C-unwind" fn __vc_sum_next(r: bool) -> bool {
    let g = e();
    let n = g.sums.last().unwrap().nfacts;
    let fs: Vec<Bid> = g.facts.drain(n..).collect();
    for f in &fs { g.factset.remove(f); }
    if r {
        let mut k = 0;
        for f in &fs { k = g.and(k, *f); }
        let y = g.sums.last().unwrap().yes;
        let y = g.or(y, k);
        g.sums.last_mut().unwrap().yes = y;
    }
    let s = g.sums.last_mut().unwrap();
    s.runs += 1;
    if s.runs > 4096 { abort_unit("too many paths in a call to be summarised"); }
    g.pos = 0;
    while let Some(t) = g.trail.last_mut() {
        if let Some(n) = t.remaining.pop() { t.taken = n; return true; }
        g.trail.pop();
    }
    false
}
#[no_mangle]
pub extern "C-unwind" fn __vc_sum_end() -> bool {
    let g = e();
    let s = g.sums.pop().unwrap();
    g.trail = s.trail;
    g.pos = s.pos;
    g.decide(s.yes)
}
#[no_mangle]
pub extern "C-unwind" fn __vc_select_f64(c: u32, a: f64, b: f64) -> f64 { enc64(vselect(c, decx64(a), decx64(b))) }
#[no_mangle]
pub extern "C-unwind" fn __vc_select_f32(c: u32, a: f32, b: f32) -> f32 { enc32(vselect(c, decx32(a), decx32(b))) }
#[no_mangle]
pub extern "C-unwind" fn __vc_fma_f64(a: f64, b: f64, c: f64) -> f64 { enc64(vadd(vmul(dec64(a), dec64(b)), dec64(c))) }
#[no_mangle]
pub extern "C-unwind" fn __vc_fma_f32(a: f32, b: f32, c: f32) -> f32 { enc32(vadd(vmul(dec32(a), dec32(b)), dec32(c))) }
#[no_mangle]
pub extern "C-unwind" fn __vc_fpext(a: f32) -> f64 { enc64(dec32(a)) }
#[no_mangle]
pub extern "C-unwind" fn __vc_fptrunc(a: f64) -> f32 {
    if is_raw64(a) { return a as f32; }
    match dec64(a) {
        Fin(i) => {
            if e().is32.contains(&i) { return enc32(Fin(i)); }
            e().notes.insert("narrowing f64 -> f32 modelled as an uninterpreted rounding".into());
            let r = e().fun(F::Rnd32, i, 0);
            enc32(Fin(r))
        }
        v => enc32(v),
    }
}
#[no_mangle]
pub extern "C-unwind" fn __vc_tobits_f64(a: f64) -> u64 { if is_raw64(a) { a.to_bits() } else { unsupported("to_bits") } }
#[no_mangle]
pub extern "C-unwind" fn __vc_tobits_f32(a: f32) -> u32 { if is_raw32(a) { a.to_bits() } else { unsupported("to_bits") } }
#[no_mangle]
pub extern "C-unwind" fn __vc_toint_f64(a: f64) -> f64 { if is_raw64(a) { a } else { unsupported("float to integer conversion") } }
#[no_mangle]
pub extern "C-unwind" fn __vc_toint_f32(a: f32) -> f32 { if is_raw32(a) { a } else { unsupported("float to integer conversion") } }
#[no_mangle]
pub extern "C-unwind" fn __vc_unsupported_f64() -> f64 { unsupported("float intrinsic") }
#[no_mangle]
pub extern "C-unwind" fn __vc_unsupported_f32() -> f32 { unsupported("float intrinsic") }

// ---------------------------------------------------------------- specification terms
#[derive(Clone, Copy, Debug)]
pub struct Ex(pub Val);
#[derive(Clone, Copy, Debug)]
pub struct Bx(pub Bid);

fn spec_ext(op: &str) -> ! { panic!("specification arithmetic on an infinite/NaN value: {}", op) }
impl Add for Ex { type Output = Ex; fn add(self, o: Ex) -> Ex { Ex(vadd(self.0, o.0)) } }
impl Sub for Ex { type Output = Ex; fn sub(self, o: Ex) -> Ex { Ex(vsub(self.0, o.0)) } }
impl Mul for Ex {
    type Output = Ex;
    fn mul(self, o: Ex) -> Ex {
        match (self.0, o.0) {
            (Fin(a), Fin(b)) => Ex(Fin(e().mul(a, b))),
            _ => Ex(NaN),
        }
    }
}
impl Div for Ex {
    type Output = Ex;
    fn div(self, o: Ex) -> Ex {
        match (self.0, o.0) { (Fin(a), Fin(b)) => Ex(Fin(e().div(a, b))), _ => Ex(NaN) }
    }
}
impl Neg for Ex { type Output = Ex; fn neg(self) -> Ex { Ex(vneg(self.0)) } }
impl Ex {
    pub fn lt(self, o: Ex) -> Bx { Bx(vlt(self.0, o.0)) }
    pub fn gt(self, o: Ex) -> Bx { Bx(vlt(o.0, self.0)) }
    pub fn le(self, o: Ex) -> Bx { Bx(vle(self.0, o.0)) }
    pub fn ge(self, o: Ex) -> Bx { Bx(vle(o.0, self.0)) }
    pub fn eq(self, o: Ex) -> Bx { Bx(veq(self.0, o.0)) }
    pub fn ne(self, o: Ex) -> Bx { !self.eq(o) }
    pub fn sqrt(self) -> Ex { match self.0 { Fin(a) => Ex(Fin(e().sqrt(a))), _ => spec_ext("sqrt") } }
    pub fn abs(self) -> Ex { Ex(vabs(self.0)) }
    pub fn max(self, o: Ex) -> Ex { Ex(vmax(self.0, o.0)) }
    pub fn min(self, o: Ex) -> Ex { Ex(vmin(self.0, o.0)) }
    fn f1(self, f: F) -> Ex { match self.0 { Fin(a) => Ex(Fin(e().fun(f, a, 0))), _ => Ex(NaN) } }
    pub fn sin(self) -> Ex { self.f1(F::Sin) }
    pub fn cos(self) -> Ex { self.f1(F::Cos) }
    pub fn acos(self) -> Ex { self.f1(F::Acos) }
    pub fn ln(self) -> Ex { self.f1(F::Ln) }
    pub fn exp(self) -> Ex { self.f1(F::Exp) }
    pub fn is_nan(self) -> bool { self.0 == NaN }
    pub fn is_finite(self) -> bool { matches!(self.0, Fin(_)) }
    pub fn is_pinf(self) -> bool { self.0 == PInf }
    pub fn is_ninf(self) -> bool { self.0 == NInf }
    pub fn sq(self) -> Ex { self * self }
    pub fn fin(self) -> Bx { Bx(if self.is_finite() { 0 } else { 1 }) }
}
pub fn ite(c: Bx, a: Ex, b: Ex) -> Ex {
    match (c.0, a.0, b.0) {
        (0, _, _) => a,
        (1, _, _) => b,
        (c, Fin(x), Fin(y)) => Ex(Fin(e().ite(c, x, y))),
        _ => spec_ext("ite"),
    }
}
impl Not for Bx { type Output = Bx; fn not(self) -> Bx { Bx(e().not(self.0)) } }
impl BitAnd for Bx { type Output = Bx; fn bitand(self, o: Bx) -> Bx { Bx(e().and(self.0, o.0)) } }
impl BitOr for Bx { type Output = Bx; fn bitor(self, o: Bx) -> Bx { Bx(e().or(self.0, o.0)) } }
pub fn tt() -> Bx { Bx(0) }
pub fn bx(b: bool) -> Bx { Bx(if b { 0 } else { 1 }) }
pub fn c(v: f64) -> Ex { Ex(Fin(e().k(v))) }
pub fn pi() -> Ex { Ex(Fin(e().mk(Node::Pi))) }
impl Num for f64 {
    const BITS: u32 = 64;
    fn to_ex(self) -> Ex { Ex(dec64(self)) }
    fn from_ex(x: Ex) -> f64 { enc64(x.0) }
    fn lit(v: f64) -> f64 { v }
    fn tag() -> &'static str { "f64" }
}
impl Num for f32 {
    const BITS: u32 = 32;
    fn to_ex(self) -> Ex { Ex(dec32(self)) }
    fn from_ex(x: Ex) -> f32 { enc32(x.0) }
    fn lit(v: f64) -> f32 { v as f32 }
    fn tag() -> &'static str { "f32" }
}

// ---------------------------------------------------------------- contract API
/// false where inputs are fixed: the contract is then walked as in the replay build, with exact arithmetic
pub fn symbolic() -> bool { e().fix.is_none() }
pub fn sym_ex(name: &str) -> Ex {
    if let Some(v) = e().fix.as_ref().and_then(|f| f.vals.get(name).cloned()) { return c(v); }
    Ex(Fin(e().mk(Node::Var(name.to_string()))))
}
/// recorded components of a unit vector: made one exactly
fn unit_fixed<T: Num>(v: &mut [T]) -> bool {
    if e().fix.is_none() { return false; }
    let mut l2 = c(0.0);
    for x in v.iter() { l2 = l2 + ex(*x).sq(); }
    if e().numb(l2.eq(c(1.0)).0) == Some(true) { return true; }
    if e().numb(l2.gt(c(0.0)).0) != Some(true) { return false; }
    let l = l2.sqrt();
    for x in v.iter_mut() { *x = T::from_ex(ex(*x) / l); }
    true
}
/// an arbitrary finite value
pub fn sym<T: Num>(name: &str) -> T { T::from_ex(sym_ex(name)) }
pub fn sym3<T: Num>(name: &str) -> [T; 3] { [sym(&format!("{}.0", name)), sym(&format!("{}.1", name)), sym(&format!("{}.2", name))] }
/// a value with an intended scale; only the random search of the replay build uses the scale
pub fn sym_scaled<T: Num>(name: &str, _lo: f64, _hi: f64) -> T { sym(name) }
/// an arbitrary unit vector
pub fn sym_unit3<T: Num>(name: &str) -> [T; 3] {
    let mut v: [T; 3] = sym3(name);
    if unit_fixed(&mut v) { return v; }
    assume((ex(v[0]).sq() + ex(v[1]).sq() + ex(v[2]).sq()).eq(c(1.0)));
    v
}
pub fn sym_unit4<T: Num>(name: &str) -> [T; 4] {
    let mut v = [sym(&format!("{}.0", name)), sym(&format!("{}.1", name)), sym(&format!("{}.2", name)), sym(&format!("{}.3", name))];
    if unit_fixed(&mut v) { return v; }
    assume((ex(v[0]).sq() + ex(v[1]).sq() + ex(v[2]).sq() + ex(v[3]).sq()).eq(c(1.0)));
    v
}
/// a finite value, or one of the infinities / NaN
pub fn sym_ext<T: Num>(name: &str, with_nan: bool) -> T {
    match choose(&format!("kind:{}", name), if with_nan { 4 } else { 3 }) {
        0 => sym(name),
        1 => T::from_ex(Ex(PInf)),
        2 => T::from_ex(Ex(NInf)),
        _ => T::from_ex(Ex(NaN)),
    }
}
pub fn fresh(prefix: &str) -> Ex {
    let g = e();
    g.nfresh += 1;
    let n = format!("{}!{}", prefix, g.nfresh);
    sym_ex(&n)
}
/// a value that is a function of the given arguments (same arguments, same value)
pub fn fresh_of(prefix: &str, args: &[Ex]) -> Ex {
    let mut n = String::from(prefix);
    for a in args { if let Fin(i) = a.0 { let _ = write!(n, "_{}", i); } else { n.push_str("_ext"); } }
    n.push_str("!s");
    sym_ex(&n)
}
/// a name for a term: proofs from selected facts need not look inside it
pub fn ghost(prefix: &str, x: Ex) -> Ex {
    if !symbolic() { return x; }
    let v = fresh(prefix);
    e().push_fact(v.eq(x).0);
    v
}
/// a short name for a polynomial: from here on every term with that polynomial, up to a constant factor, is written with the name
pub fn abbrev(prefix: &str, x: Ex) -> Ex {
    if !symbolic() { return x; }
    let i = match x.0 { Fin(i) => i, _ => spec_ext("abbrev") };
    let g = e();
    if g.cv(i).is_some() { return x; }
    let v = g.mk(Node::Var(format!("{}!def{}", prefix, i)));
    g.defs.insert(v, i);
    g.set_alias(i, v);
    Ex(Fin(v))
}
/// prove that two terms are equal; from here on the first (up to a constant factor) is written as the second
pub fn rewrite(name: &str, from: Ex, to: Ex) {
    if !symbolic() { return; }
    lemma(name, from.eq(to));
    alias(from, to);
}
/// as rewrite, for an equation that already is a fact
pub fn alias(from: Ex, to: Ex) {
    if !symbolic() { return; }
    if e().known(from.eq(to).0) != Some(true) { ensure("alias: known equation", from.eq(to)); }
    if let (Fin(a), Fin(b)) = (from.0, to.0) { e().set_alias(a, b); }
}
/// from here on every term is written as the first term with the same polynomial, up to a constant factor
pub fn canonical() { e().canon = symbolic(); }
/// the variables of these terms are enough to refute the paths that cannot be: a hint for the prover, tried first
pub fn focus(xs: &[Ex]) {
    if !symbolic() { return; }
    let g = e();
    for x in xs { if let Fin(i) = x.0 { let v = g.nvars(i); g.focus.extend(v.iter().cloned()); } }
}
/// from here on a branch is pruned only when facts over its own variables refute it (fewer, quicker questions; more paths)
pub fn prune_locally() { e().local = true; }
/// from = factor * to with a positive factor: from here on comparisons of the first (in any form) with zero are made on the second
pub fn same_sign(name: &str, from: Ex, factor: Ex, to: Ex) {
    if !symbolic() { return; }
    if e().known(factor.gt(c(0.0)).0) != Some(true) { ensure(&format!("{}: positive factor", name), factor.gt(c(0.0))); }
    if e().known(from.eq(factor * to).0) != Some(true) { ensure(name, from.eq(factor * to)); }
    if let (Fin(a), Fin(b)) = (from.0, to.0) { e().set_sign(a, b); }
}
/// true when the condition is already known (never forks, never asks the solver)
pub fn surely(b: Bx) -> bool { e().known(b.0) == Some(true) }
pub fn choose(name: &str, n: u32) -> u32 {
    let g = e();
    if let Some(f) = g.fix.as_mut() {
        let k = f.choices.iter().enumerate().position(|(i, x)| x.0 == name && !f.used.contains(&i));
        if let Some(k) = k { f.used.insert(k); return f.choices[k].1; }
    }
    let r = g.branch(|_| (0..n).collect(), Some(name));
    g.choices.push((name.to_string(), r));
    r
}
pub fn choose_bool(name: &str) -> bool { choose(name, 2) == 1 }
pub fn assume(b: Bx) {
    if b.0 == 1 { abort("assume"); }
    if !symbolic() && e().numb(b.0) == Some(false) { abort("assume"); }
    e().push_fact(b.0);
}
/// keep exploring only if the assumption is consistent with the path
pub fn assume_checked(b: Bx) {
    if b.0 == 1 { abort("assume"); }
    let g = e();
    match g.known(b.0) { Some(true) => return, Some(false) => abort("assume"), None => {} }
    g.branch(|g| if g.feasible(b.0) { vec![0] } else { vec![] }, None);
    g.push_fact(b.0);
}
fn record(name: &str, goal: Bid, facts: Vec<Bid>) {
    let g = e();
    let (goal, facts) = if g.fix.is_some() { (match g.numb(goal) { Some(true) => 0, Some(false) => 1, None => goal }, g.facts.clone()) } else { (goal, facts) };
    g.ensured.insert(name.to_string());
    g.path_obl += 1;
    if goal == 0 { *g.trivial.entry(name.to_string()).or_insert(0) += 1; return; }
    let key = (facts.clone(), goal, name.to_string());
    if g.oblset.contains(&key) { return; }
    g.oblset.insert(key);
    let o = Obl { name: name.to_string(), facts, goal, choices: g.choices.clone(), path: g.paths, axf: 0 };
    g.obls.push(o);
}
/// proof obligation
pub fn ensure(name: &str, b: Bx) { let f = e().facts.clone(); record(name, b.0, f); }
pub fn ensure_from(name: &str, facts: &[Bx], b: Bx) { record(name, b.0, facts.iter().map(|x| x.0).collect()); }
/// prove, then use
pub fn lemma(name: &str, b: Bx) { if !symbolic() { return; } ensure(name, b); e().push_fact(b.0); }
/// prove from the selected facts only (each must already be known on the path), then use
pub fn lemma_from(name: &str, facts: &[Bx], b: Bx) {
    if !symbolic() { return; }
    for f in facts { if e().known(f.0) != Some(true) { ensure(&format!("{}: used fact", name), *f); } }
    ensure_from(name, facts, b);
    e().push_fact(b.0);
}
/// universally valid statement, proved without any fact, then used
pub fn lemma_pure(name: &str, b: Bx) { if !symbolic() { return; } ensure_from(name, &[], b); e().push_fact(b.0); }
/// trusted mathematical axiom instance
pub fn axiom(name: &str, b: Bx) { if !symbolic() { return; } e().axioms_used.insert(name.to_string()); e().push_fact(b.0); }
/// case split
pub fn split(b: Bx) -> bool { e().decide(b.0) }
/// drop the current path facts except the ones given (which must be on the path already)
pub fn weaken_to(keep: &[Bx]) {
    if !symbolic() { return; }
    for f in keep { if e().known(f.0) != Some(true) { ensure("weaken_to: kept fact", *f); } }
    let g = e();
    g.facts.clear();
    g.factset.clear();
    for f in keep { g.push_fact(f.0); }
}
pub fn use_contracts(names: &[&str]) { for n in names { e().stubs.insert(n.to_string()); } }
pub fn stub_on(name: &str) -> bool {
    if symbolic() && e().stubs.contains(name) { e().used.insert(name.to_string()); true } else { false }
}
pub fn with_contract_off<R>(name: &str, f: impl FnOnce() -> R) -> R {
    let had = e().stubs.remove(name);
    let r = f();
    if had { e().stubs.insert(name.to_string()); }
    r
}
/// run code under contract; a panic of that code is an outcome
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<AbortPath>() { panic::resume_unwind(p) }
            if !e().sums.is_empty() { sums_left(); abort("undecided"); }
            if let Some(s) = p.downcast_ref::<&str>() { return Err(s.to_string()); }
            if let Some(s) = p.downcast_ref::<String>() { return Err(s.clone()); }
            Err("panic".into())
        }
    }
}
pub fn stop_path() -> ! { abort("stop") }
/// the proof as set up does not fit this code: the unit stays undecided
pub fn give_up(why: &str) -> ! { abort_unit(why) }
pub fn note(s: &str) { e().notes.insert(s.to_string()); }
pub fn set_hint(_name: &str, _v: f64) {}

// ---------------------------------------------------------------- driver
pub fn run_main(units: Vec<Unit>) {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => { list_units(&units); }
        Some("unit") => {
            let u = units.iter().find(|u| u.name == args[2]).expect("no such unit");
            let out = run_unit(u, None, args.get(4).and_then(|s| s.parse().ok()).unwrap_or(600.0));
            std::fs::write(&args[3], out).unwrap();
        }
        // vcsym exact <unit> <out> <seconds> <basefile>: one recorded run, in exact arithmetic
        Some("exact") => {
            let u = units.iter().find(|u| u.name == args[2]).expect("no such unit");
            let (v, ch) = read_base(&args[5]);
            let f = Fix { vals: v.into_iter().collect(), choices: ch, used: HashSet::new() };
            let out = run_unit(u, Some(f), args[4].parse().unwrap());
            std::fs::write(&args[3], out).unwrap();
        }
        _ => panic!("usage"),
    }
}
fn run_unit(u: &Unit, fix: Option<Fix>, budget: f64) -> String {
    panic::set_hook(Box::new(|i| { if std::env::var("VC_PANICS").is_ok() { eprintln!("{}", i); } }));
    unsafe { ENG = Some(Eng::new()); }
    e().deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(budget);
    if fix.is_some() { e().max_paths = 3000; }
    e().fix = fix;
    let mut completed = 0;
    let mut harness_panic: Option<String> = None;
    loop {
        {
            let g = e();
            g.facts.clear();
            g.factset.clear();
            g.pos = 0;
            g.nfresh = 0;
            g.choices.clear();
            g.stubs.clear();
            g.alias.clear();
            g.signs.clear();
            g.canon = false;
            g.local = false;
            g.path_obl = 0;
            if let Some(f) = g.fix.as_mut() { f.used.clear(); }
            g.paths += 1;
            if g.paths > g.max_paths { g.undecided = Some("path budget exhausted".into()); break; }
        }
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (u.run)()));
        let g = e();
        sums_left();
        match r {
            Ok(()) => {
                completed += 1;
                if g.path_obl > 0 && g.covers.len() < 400 {
                    let o = Obl { name: "cover".into(), facts: g.facts.clone(), goal: 1, choices: g.choices.clone(), path: g.paths, axf: 0 };
                    g.covers.push(o);
                }
            }
            Err(p) => if let Some(a) = p.downcast_ref::<AbortPath>() {
                if a.0 == "stop" { completed += 1;
                    if g.path_obl > 0 && g.covers.len() < 400 {
                        let o = Obl { name: "cover".into(), facts: g.facts.clone(), goal: 1, choices: g.choices.clone(), path: g.paths, axf: 0 };
                        g.covers.push(o);
                    } }
            } else {
                let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or("?".into());
                harness_panic = Some(m.clone());
                g.undecided = Some(format!("uncaught panic: {}", m));
            },
        }
        if g.undecided.is_some() { break; }
        while let Some(t) = g.trail.last_mut() {
            if let Some(n) = t.remaining.pop() { t.taken = n; break; }
            g.trail.pop();
        }
        if g.trail.is_empty() { break; }
    }
    if let Some(s) = e().solver.as_mut() { let _ = s.child.kill(); let _ = s.child.wait(); }
    dump(u, completed)
}
fn dump(u: &Unit, completed: usize) -> String {
    let g = e();
    let mut o = String::new();
    let _ = write!(o, "{{\"unit\":{},\"paths\":{},\"completed\":{},\"feas_queries\":{},\"feas_timeouts\":{},\"feas_time\":{:.3},",
        json_str(&u.name), g.paths, completed, g.feas_q, g.feas_to, g.feas_time);
    let _ = write!(o, "\"undecided\":{},", g.undecided.as_ref().map(|s| json_str(s)).unwrap_or("null".into()));
    let strs = |s: &BTreeSet<String>| format!("[{}]", s.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"contracts_used\":{},\"axioms\":{},\"notes\":{},\"ensured\":{},", strs(&g.used), strs(&g.axioms_used), strs(&g.notes), strs(&g.ensured));
    let _ = write!(o, "\"focus\":[{}],", g.focus.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"defs\":{{{}}},", g.defs.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"trivial\":{{{}}},", g.trivial.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("\"nodes\":[");
    for (i, n) in g.nodes.iter().enumerate() {
        if i > 0 { o.push(','); }
        let _ = match n {
            Node::Const(b) => write!(o, "[\"c\",\"{:016x}\"]", b),
            Node::Pi => write!(o, "[\"pi\"]"),
            Node::Var(s) => write!(o, "[\"v\",{}]", json_str(s)),
            Node::Add(a, b) => write!(o, "[\"+\",{},{}]", a, b),
            Node::Sub(a, b) => write!(o, "[\"-\",{},{}]", a, b),
            Node::Mul(a, b) => write!(o, "[\"*\",{},{}]", a, b),
            Node::Neg(a) => write!(o, "[\"n\",{}]", a),
            Node::Inv(a) => write!(o, "[\"i\",{}]", a),
            Node::Sqrt(a) => write!(o, "[\"s\",{}]", a),
            Node::Fun(f, a, b) => write!(o, "[\"f\",\"{:?}\",{},{}]", f, a, if *f == F::Atan2 { *b } else { *a }),
            Node::Mix(..) => write!(o, "[\"pi\"]"),
            Node::Ite(c, a, b) => write!(o, "[\"?\",{},{},{}]", c, a, b),
        };
    }
    o.push_str("],\"bools\":[");
    for (i, n) in g.b.iter().enumerate() {
        if i > 0 { o.push(','); }
        let _ = match n {
            BN::True => write!(o, "[\"T\"]"),
            BN::False => write!(o, "[\"F\"]"),
            BN::Lt(a, b) => write!(o, "[\"<\",{},{}]", a, b),
            BN::Eq(a, b) => write!(o, "[\"=\",{},{}]", a, b),
            BN::Not(a) => write!(o, "[\"!\",{}]", a),
            BN::And(a, b) => write!(o, "[\"&\",{},{}]", a, b),
            BN::Or(a, b) => write!(o, "[\"|\",{},{}]", a, b),
        };
    }
    let obs = |v: &Vec<Obl>| v.iter().map(|x| format!("{{\"name\":{},\"facts\":{:?},\"goal\":{},\"path\":{},\"choices\":[{}]}}", json_str(&x.name), x.facts, x.goal, x.path,
        x.choices.iter().map(|(a, b)| format!("[{},{}]", json_str(a), b)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
    let _ = write!(o, "],\"covers\":[{}],\"obligations\":[{}]}}", obs(&g.covers), obs(&g.obls));
    o
}
