//! Obligation bookkeeping of a check run.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};
use vmodel::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum By {
    /// equality of polynomial normal forms (exact, all field values, this shape)
    Normal,
    /// identity of the two terms at a uniformly random point (error < 2^-240), this shape
    Pit,
    /// complete evaluation over a finite domain / ground computation
    Ground,
    /// rank of the Jacobian at a random point of the path
    Rank,
    /// uniqueness propagation over the emitted constraints
    Det,
}
#[derive(Default)]
pub struct Obl {
    pub inst: usize,
    pub ok: usize,
    pub by: BTreeMap<String, usize>,
}
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    pub budget: Duration,
    pub obls: BTreeMap<String, Obl>,
    pub viol: Vec<Value>,
    pub notes: Vec<String>,
    pub paths: usize,
    pub conds: usize,
    pub samples: Vec<Value>,
    pub shape: String,
    pub shapes: Vec<String>,
    /// the proof system under check, where a property ranges over several
    pub system: String,
}
impl Ctx {
    pub fn deadline(&self) -> Instant {
        self.start + self.budget
    }
    pub fn late(&self) -> bool {
        Instant::now() > self.deadline()
    }
    /// deadline of a sub-exploration taking at most a fraction of the whole budget
    pub fn slice(&self, frac: f64) -> Instant {
        (Instant::now() + self.budget.mul_f64(frac)).min(self.deadline())
    }
    pub fn set_shape(&mut self, s: impl Into<String>) {
        self.shape = if self.system.is_empty() { s.into() } else { format!("{}: {}", self.system, s.into()) };
        if !self.shapes.contains(&self.shape) {
            self.shapes.push(self.shape.clone());
        }
    }
    /// record one instance of a named obligation.  `detail` is the failing input.
    pub fn ob(&mut self, name: &str, by: By, ok: bool, detail: impl FnOnce() -> String) -> bool {
        let shape = self.shape.clone();
        let full = if self.system.is_empty() { name.to_string() } else { format!("{}: {}", self.system, name) };
        let name = &full[..];
        let o = self.obls.entry(name.to_string()).or_default();
        o.inst += 1;
        *o.by.entry(format!("{:?}", by)).or_insert(0) += 1;
        if ok {
            o.ok += 1;
        } else {
            let nth = self.viol.iter().filter(|v| v["obligation"] == name).count();
            if nth < 3 {
                let d = detail();
                self.viol.push(json!({"obligation": name, "key": name, "shape": shape, "detail": d, "seed": self.seed}));
            }
        }
        ok
    }
    /// a failing instance with an explicit finding key
    pub fn keyed(&mut self, name: &str, key: &str, by: By, ok: bool, detail: impl FnOnce() -> String) -> bool {
        let n = self.viol.len();
        let r = self.ob(name, by, ok, detail);
        if self.viol.len() > n {
            self.viol[n]["key"] = json!(key);
        }
        r
    }
    /// two traced terms must be the same function of the inputs
    pub fn eq(&mut self, name: &str, got: &TFr, want: &TFr, asg: &Assign) -> bool {
        let by = if got.v == want.v {
            match exact_eq(&got.arg(), &want.arg(), 300) {
                Some(true) => By::Normal,
                _ => By::Pit,
            }
        } else {
            By::Pit
        };
        let (g, w) = (got.v, want.v);
        self.ob(name, by, g == w, || format!("got {} want {} at {}", g, w, show_point(asg)))
    }
    pub fn stats(&mut self, s: Stats) {
        self.paths += s.paths;
        self.conds += s.conds;
    }
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.notes.contains(&s) {
            self.notes.push(s);
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 6 {
            self.samples.push(v);
        }
    }
    pub fn json(&self) -> Value {
        json!({
            "property": self.prop, "seed": self.seed,
            "obligations": self.obls.iter().map(|(k, o)| json!({"name": k, "instances": o.inst, "discharged": o.ok, "by": o.by})).collect::<Vec<_>>(),
            "violations": self.viol, "notes": self.notes, "paths": self.paths, "conditions": self.conds,
            "samples": self.samples, "shapes": self.shapes,
            "wall_s": self.start.elapsed().as_secs_f64(),
        })
    }
}
/// the values of all input variables of the current run
pub fn show_point(asg: &Assign) -> String {
    let t = tape();
    let mut s = String::new();
    for v in t.vars.iter().filter(|v| v.kind == VarKind::Input).take(60) {
        let val = t.nodes[v.id as usize].val;
        s.push_str(&format!("{}={}{} ", v.name, val, if asg.contains_key(&v.name) { "*" } else { "" }));
    }
    s
}
