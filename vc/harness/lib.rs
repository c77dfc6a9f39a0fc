//! Contracts for mazth, one unit per function (or per property of a function), over the real code.
#![allow(non_snake_case, dead_code, unused)]
extern crate mazth;
extern crate vcrt;
use vcrt::*;

pub mod bounds;
pub mod contracts;
pub mod gjk;
pub mod mats;
pub mod prism;
pub mod quats;
pub mod shapes;
pub mod vecs;

pub struct Units(pub Vec<Unit>);
impl Units {
    pub fn u(&mut self, name: &str, props: &[&str], targets: &[&str], f: impl Fn() + 'static) {
        self.0.push(Unit {
            name: name.into(),
            props: props.iter().map(|s| s.to_string()).collect(),
            targets: targets.iter().map(|s| s.to_string()).collect(),
            bounded: None,
            merged: false,
            sampled: false,
            cuts: vec![],
            run: Box::new(f),
        });
    }
    pub fn merged(&mut self) {
        self.0.last_mut().unwrap().merged = true;
    }
    pub fn sampled(&mut self) {
        self.0.last_mut().unwrap().sampled = true;
    }
    pub fn cut(&mut self, c: Cut) {
        self.0.last_mut().unwrap().cuts.push(c);
    }
    pub fn bounded(&mut self, b: &str) {
        self.0.last_mut().unwrap().bounded = Some(b.into());
    }
}

pub fn symn<T: Num, const N: usize>(name: &str) -> [T; N] {
    let mut i = 0;
    [(); N].map(|_| {
        i += 1;
        sym(&format!("{}.{}", name, i - 1))
    })
}
pub fn exn<T: Num>(a: &[T]) -> Vec<Ex> {
    a.iter().map(|x| ex(*x)).collect()
}
pub fn dotn(a: &[Ex], b: &[Ex]) -> Ex {
    let mut s = a[0] * b[0];
    for i in 1..a.len() {
        s = s + a[i] * b[i];
    }
    s
}
pub fn eqn(a: &[Ex], b: &[Ex]) -> Bx {
    let mut r = bx(a.len() == b.len());
    for i in 0..a.len() {
        r = r & a[i].eq(b[i]);
    }
    r
}
/// the call must return Some
pub fn some<R>(name: &str, r: Result<Option<R>, String>) -> R {
    match r {
        Ok(Some(x)) => x,
        Ok(None) => {
            ensure(&format!("{}: yields a result", name), !tt());
            stop_path()
        }
        Err(m) => {
            ensure(&format!("{}: does not panic", name), !tt());
            stop_path()
        }
    }
}
/// the call must return
pub fn val<R>(name: &str, r: Result<R, String>) -> R {
    match r {
        Ok(x) => x,
        Err(m) => {
            ensure(&format!("{}: does not panic", name), !tt());
            stop_path()
        }
    }
}

pub fn nz(a: &[Ex]) -> Bx { any(&a.iter().map(|x| x.ne(c(0.0))).collect::<Vec<_>>()) }
/// assume a nonzero vector; its squared length is then positive
pub fn assume_nonzero(nm: &str, a: &[Ex]) {
    assume(nz(a));
    lemma(&format!("{}: squared length is positive", nm), dotn(a, a).gt(c(0.0)));
    lemma(&format!("{}: length is positive", nm), dotn(a, a).sqrt().gt(c(0.0)));
}
/// assume a nonzero vector; its squared length is then positive
pub fn assume_nz(nm: &str, a: &[Ex]) {
    assume(nz(a));
    lemma(&format!("{}: squared length is positive", nm), dotn(a, a).gt(c(0.0)));
}

pub fn all_units() -> Vec<Unit> {
    let mut us = Units(vec![]);
    vecs::units(&mut us);
    mats::units(&mut us);
    quats::units(&mut us);
    bounds::units(&mut us);
    shapes::units(&mut us);
    prism::units(&mut us);
    gjk::units(&mut us);
    us.0
}
pub fn main_entry() {
    run_main(all_units());
}
