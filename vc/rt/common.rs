use super::*;
use std::ops::*;

/// f32 and f64, seen uniformly by the contracts.
pub trait Num: Copy + 'static {
    const BITS: u32;
    fn to_ex(self) -> Ex;
    fn from_ex(e: Ex) -> Self;
    fn lit(v: f64) -> Self;
    fn tag() -> &'static str;
}

pub fn ex<T: Num>(x: T) -> Ex {
    x.to_ex()
}
pub fn sum(v: &[Ex]) -> Ex {
    let mut s = v[0];
    for x in &v[1..] {
        s = s + *x;
    }
    s
}
pub fn all(v: &[Bx]) -> Bx {
    let mut s = tt();
    for x in v {
        s = s & *x;
    }
    s
}
pub fn any(v: &[Bx]) -> Bx {
    let mut s = !tt();
    for x in v {
        s = s | *x;
    }
    s
}
pub fn implies(a: Bx, b: Bx) -> Bx {
    !a | b
}
pub fn iff(a: Bx, b: Bx) -> Bx {
    (a & b) | (!a & !b)
}
pub type V3 = [Ex; 3];
pub fn dot3(a: V3, b: V3) -> Ex {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross3(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn add3(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub3(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale3(a: V3, s: Ex) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn eq3(a: V3, b: V3) -> Bx {
    a[0].eq(b[0]) & a[1].eq(b[1]) & a[2].eq(b[2])
}
pub fn ex3<T: Num>(a: &[T]) -> V3 {
    [ex(a[0]), ex(a[1]), ex(a[2])]
}

/// a loop of `within` is cut at its call of `at`: what the invariant's hook does not forget must not differ between rounds
#[derive(Clone, Default)]
pub struct Cut {
    pub within: String,
    pub at: String,
    /// the hook forgets what the first parameter points to
    pub forgets_self: bool,
    /// `at` advances over a list, of which nothing else is seen
    pub list: bool,
    /// functions that show, by their signature, that the objects the loop hands out are not changed by it
    pub frozen: Vec<String>,
}
impl Cut {
    fn json(&self) -> String {
        format!("{{\"within\":{},\"at\":{},\"forgets_self\":{},\"list\":{},\"frozen\":[{}]}}", json_str(&self.within), json_str(&self.at), self.forgets_self, self.list,
            self.frozen.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","))
    }
}
pub struct Unit {
    pub name: String,
    pub props: Vec<String>,
    /// functions of /repo this unit puts under contract (demangled names)
    pub targets: Vec<String>,
    /// None: complete. Some(text): bounded stand-in, with its bound
    pub bounded: Option<String>,
    /// verified on the if-converted IR (min/max chains become conditional terms)
    pub merged: bool,
    /// also run on random inputs in machine arithmetic, whatever the proof says
    pub sampled: bool,
    /// where loops are cut by an invariant
    pub cuts: Vec<Cut>,
    pub run: Box<dyn Fn()>,
}
pub fn list_units(units: &[Unit]) {
    for u in units {
        let l = |v: &Vec<String>| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
        println!("{{\"name\":{},\"props\":{},\"targets\":{},\"merged\":{},\"sampled\":{},\"cuts\":[{}],\"bounded\":{}}}", json_str(&u.name), l(&u.props), l(&u.targets), u.merged, u.sampled,
            u.cuts.iter().map(|c| c.json()).collect::<Vec<_>>().join(","),
            u.bounded.as_ref().map(|s| json_str(s)).unwrap_or("null".into()));
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// recorded inputs and choices: lines "v <hexbits> <name>" and "c <k> <name>"
pub fn read_base(path: &str) -> (Vec<(String, f64)>, Vec<(String, u32)>) {
    let (mut vs, mut cs) = (vec![], vec![]);
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            let p: Vec<&str> = l.splitn(3, ' ').collect();
            if p.len() < 3 { continue; }
            if p[0] == "v" { vs.push((p[2].to_string(), f64::from_bits(u64::from_str_radix(p[1], 16).unwrap()))); }
            else { cs.push((p[2].to_string(), p[1].parse().unwrap())); }
        }
    }
    (vs, cs)
}
