//! Shared pieces: number encoding of the traces, parameters, data, guarded calls.
use forust_ml::constraints::{Constraint, ConstraintMap};
use forust_ml::gradientbooster::{GrowPolicy, MissingNodeTreatment};
use forust_ml::metric::Metric;
use forust_ml::objective::ObjectiveType;
use forust_ml::sampler::SampleMethod;
use forust_ml::tree::Tree;
use forust_ml::{GradientBooster, Matrix};
use rand::rngs::StdRng;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;

/// A number of the trace: read as an IEEE double by the TLA+ side.
pub fn num(v: f64) -> Value {
    if v.is_nan() {
        json!("~NaN")
    } else if v == f64::INFINITY {
        json!("~inf")
    } else if v == f64::NEG_INFINITY {
        json!("~-inf")
    } else {
        json!(format!("~{:e}", v))
    }
}
pub fn n32(v: f32) -> Value {
    num(v as f64)
}
pub fn nums(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| num(*x)).collect())
}
pub fn int(v: usize) -> Value {
    json!(v.min(1 << 30))
}

#[derive(Clone)]
pub struct P {
    pub obj: &'static str,
    pub iters: usize,
    pub lr: f32,
    pub md: usize,
    pub ml: usize,
    pub l1: f32,
    pub l2: f32,
    pub gamma: f32,
    pub mds: f32,
    pub mlw: f32,
    pub base: f64,
    pub nbins: u16,
    pub parallel: bool,
    pub ams: bool,
    pub con: Vec<i8>,
    pub sm: &'static str,
    pub subsample: f32,
    pub top: f64,
    pub other: f64,
    pub cs: f64,
    pub seed: u64,
    pub missing: f64,
    pub cmb: bool,
    pub gp: &'static str,
    pub metric: Option<&'static str>,
    pub esr: Option<usize>,
    pub ibs: bool,
    pub term: Vec<usize>,
    pub mnt: &'static str,
    pub fcb: bool,
    pub log: usize,
}

impl Default for P {
    fn default() -> Self {
        P {
            obj: "LogLoss",
            iters: 10,
            lr: 0.3,
            md: 5,
            ml: usize::MAX,
            l1: 0.,
            l2: 1.,
            gamma: 0.,
            mds: 0.,
            mlw: 1.,
            base: 0.5,
            nbins: 256,
            parallel: true,
            ams: true,
            con: vec![],
            sm: "None",
            subsample: 1.,
            top: 0.1,
            other: 0.2,
            cs: 1.,
            seed: 0,
            missing: f64::NAN,
            cmb: false,
            gp: "DepthWise",
            metric: None,
            esr: None,
            ibs: true,
            term: vec![],
            mnt: "AssignToParent",
            fcb: false,
            log: 0,
        }
    }
}

pub fn obj_of(s: &str) -> ObjectiveType {
    match s {
        "LogLoss" => ObjectiveType::LogLoss,
        _ => ObjectiveType::SquaredLoss,
    }
}
pub fn metric_of(s: &str) -> Metric {
    match s {
        "AUC" => Metric::AUC,
        "LogLoss" => Metric::LogLoss,
        "RootMeanSquaredLogError" => Metric::RootMeanSquaredLogError,
        _ => Metric::RootMeanSquaredError,
    }
}
pub fn sm_of(s: &str) -> SampleMethod {
    match s {
        "None" => SampleMethod::None,
        "Random" => SampleMethod::Random,
        _ => SampleMethod::Goss,
    }
}
pub fn gp_of(s: &str) -> GrowPolicy {
    match s {
        "DepthWise" => GrowPolicy::DepthWise,
        _ => GrowPolicy::LossGuide,
    }
}
pub fn mnt_of(s: &str) -> MissingNodeTreatment {
    match s {
        "None" => MissingNodeTreatment::None,
        "AssignToParent" => MissingNodeTreatment::AssignToParent,
        "AverageLeafWeight" => MissingNodeTreatment::AverageLeafWeight,
        _ => MissingNodeTreatment::AverageNodeWeight,
    }
}

impl P {
    pub fn con_map(&self) -> Option<ConstraintMap> {
        if self.con.is_empty() {
            return None;
        }
        let mut m: HashMap<usize, Constraint> = HashMap::new();
        for (i, c) in self.con.iter().enumerate() {
            match c {
                1 => {
                    m.insert(i, Constraint::Positive);
                }
                -1 => {
                    m.insert(i, Constraint::Negative);
                }
                2 => {
                    m.insert(i, Constraint::Unconstrained);
                }
                _ => {}
            }
        }
        Some(m)
    }
    pub fn build(&self) -> Result<GradientBooster, String> {
        GradientBooster::new(
            obj_of(self.obj),
            self.iters,
            self.lr,
            self.md,
            self.ml,
            self.l1,
            self.l2,
            self.gamma,
            self.mds,
            self.mlw,
            self.base,
            self.nbins,
            self.parallel,
            self.ams,
            self.con_map(),
            self.subsample,
            self.top,
            self.other,
            self.cs,
            self.seed,
            self.missing,
            self.cmb,
            sm_of(self.sm),
            gp_of(self.gp),
            self.metric.map(metric_of),
            self.esr,
            self.ibs,
            self.term.iter().copied().collect::<HashSet<usize>>(),
            mnt_of(self.mnt),
            self.log,
            self.fcb,
        )
        .map_err(|e| e.to_string())
    }
    pub fn json(&self, ncols: usize) -> Value {
        let con: Vec<i64> = (0..ncols)
            .map(|i| match self.con.get(i) {
                Some(1) => 1,
                Some(-1) => -1,
                _ => 0,
            })
            .collect();
        json!({
            "obj": self.obj, "iters": int(self.iters), "lr": n32(self.lr), "md": int(self.md),
            "ml": int(self.ml), "l1": n32(self.l1), "l2": n32(self.l2), "gamma": n32(self.gamma),
            "mds": n32(self.mds), "mlw": n32(self.mlw), "base": num(self.base),
            "nbins": self.nbins, "parallel": self.parallel, "ams": self.ams, "con": con,
            "sm": self.sm, "subsample": n32(self.subsample), "top": num(self.top),
            "other": num(self.other), "cs": num(self.cs), "seed": int(self.seed as usize),
            "missing": num(self.missing), "cmb": self.cmb, "gp": self.gp,
            "metric": self.metric.unwrap_or("default"),
            "esr": self.esr.map(|v| v as i64).unwrap_or(-1),
            "ibs": self.ibs, "term": self.term, "mnt": self.mnt, "fcb": self.fcb
        })
    }
}

/// Column-major data set.
#[derive(Clone)]
pub struct D {
    pub rows: usize,
    pub cols: usize,
    pub x: Vec<f64>,
    pub y: Vec<f64>,
    pub w: Vec<f64>,
}
impl D {
    pub fn m(&self) -> Matrix<'_, f64> {
        Matrix::new(&self.x, self.rows, self.cols)
    }
    pub fn xjson(&self) -> Value {
        xjson(&self.x, self.rows, self.cols)
    }
    pub fn at(&self, r: usize, c: usize) -> f64 {
        self.x[c * self.rows + r]
    }
    pub fn take(&self, rows: &[usize]) -> D {
        let mut x = Vec::new();
        for c in 0..self.cols {
            for r in rows {
                x.push(self.at(*r, c));
            }
        }
        D {
            rows: rows.len(),
            cols: self.cols,
            x,
            y: rows.iter().map(|r| self.y[*r]).collect(),
            w: rows.iter().map(|r| self.w[*r]).collect(),
        }
    }
}
pub fn xjson(x: &[f64], rows: usize, cols: usize) -> Value {
    Value::Array((0..cols).map(|c| nums(&x[c * rows..(c + 1) * rows])).collect())
}

pub fn tree_json(t: &Tree) -> Value {
    Value::Array(
        t.nodes
            .iter()
            .map(|n| {
                json!({
                    "n": int(n.num), "w": n32(n.weight_value), "h": n32(n.hessian_sum), "d": int(n.depth),
                    "sv": num(n.split_value), "sf": int(n.split_feature), "sg": n32(n.split_gain),
                    "m": int(n.missing_node), "l": int(n.left_child), "r": int(n.right_child),
                    "leaf": n.is_leaf
                })
            })
            .collect(),
    )
}
pub fn trees_json(b: &GradientBooster) -> Value {
    Value::Array(b.trees.iter().map(tree_json).collect())
}

/// Outcome of a guarded call.
pub enum Out<T> {
    Ok(T),
    Panic(String),
    Timeout,
}
impl<T> Out<T> {
    pub fn st(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Panic(m) => format!("panic: {}", m.chars().take(200).collect::<String>()),
            Out::Timeout => "timeout".into(),
        }
    }
}

/// Run `f` on its own thread, catching panics and giving up after `secs`.
pub fn guarded<T: Send + 'static>(secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Out<T> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
                e.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into())
            });
            let _ = tx.send(r);
        })
        .unwrap();
    match rx.recv_timeout(Duration::from_secs(secs)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(m)) => Out::Panic(m),
        Err(_) => Out::Timeout,
    }
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn pick<T: Copy>(r: &mut StdRng, v: &[T]) -> T {
    v[r.gen_range(0..v.len())]
}
pub fn chance(r: &mut StdRng, p: f64) -> bool {
    r.gen_bool(p)
}
