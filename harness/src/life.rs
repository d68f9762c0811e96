//! Operation histories of one booster (TraceLife.tla), thread counts (TracePar.tla),
//! saving and loading (TraceSave.tla), validation (TraceGuard.tla).
use crate::boost;
use crate::gen::{self, Emph};
use crate::util::*;
use forust_ml::gradientbooster::ContributionsMethod;
use forust_ml::{GradientBooster, Matrix};
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Hash(u64, u64);
impl Hash {
    pub fn new() -> Self {
        Hash(0xcbf29ce484222325, 0x9e3779b97f4a7c15)
    }
    pub fn u(&mut self, v: u64) {
        for b in v.to_le_bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
            self.1 = (self.1.rotate_left(5) ^ b as u64).wrapping_mul(0x9ddfea08eb382d69);
        }
    }
    pub fn f(&mut self, v: f64) {
        self.u(if v.is_nan() { 0x7ff8000000000000 } else { v.to_bits() })
    }
    pub fn hex(&self) -> String {
        format!("{:016x}{:016x}", self.0, self.1)
    }
}
pub fn hash_f(v: &[f64]) -> String {
    let mut h = Hash::new();
    h.u(v.len() as u64);
    v.iter().for_each(|x| h.f(*x));
    h.hex()
}
pub fn hash_trees(b: &GradientBooster) -> String {
    let mut h = Hash::new();
    for t in &b.trees {
        h.u(t.nodes.len() as u64);
        for n in &t.nodes {
            for v in [n.num, n.depth, n.split_feature, n.missing_node, n.left_child, n.right_child, n.is_leaf as usize] {
                h.u(v as u64);
            }
            for v in [n.weight_value as f64, n.hessian_sum as f64, n.split_value, n.split_gain as f64] {
                h.f(v);
            }
        }
    }
    h.hex()
}
pub fn hash_hist(b: &GradientBooster) -> String {
    match &b.evaluation_history {
        None => "none".into(),
        Some(m) => {
            let mut h = Hash::new();
            h.u(m.rows as u64);
            h.u(m.cols as u64);
            for i in 0..m.rows {
                for j in 0..m.cols {
                    h.f(*m.get(i, j));
                }
            }
            h.hex()
        }
    }
}
/// As hash_hist, for comparison across JSON, which has neither NaN nor infinities.
fn stored_hist(b: &GradientBooster) -> String {
    match &b.evaluation_history {
        None => "none".into(),
        Some(m) => {
            let mut h = Hash::new();
            h.u(m.rows as u64);
            h.u(m.cols as u64);
            for i in 0..m.rows {
                for j in 0..m.cols {
                    let v = *m.get(i, j);
                    h.f(if v.is_finite() { v } else { f64::NAN });
                }
            }
            h.hex()
        }
    }
}
pub fn f64s(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{:e}", v)
    }
}
pub fn f32s(v: f32) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{:e}", v)
    }
}
fn js<T: Serialize>(v: &T) -> String {
    serde_json::to_string(v).unwrap_or_else(|e| e.to_string())
}
fn opt(v: Option<usize>) -> i64 {
    v.map(|x| x as i64).unwrap_or(-1)
}

/// Every parameter as a string, read from the public fields.
pub fn params(b: &GradientBooster) -> Map<String, Value> {
    let mut m = Map::new();
    let mut p = |k: &str, v: String| {
        m.insert(k.to_string(), Value::String(v));
    };
    p("objective_type", js(&b.objective_type));
    p("iterations", b.iterations.to_string());
    p("learning_rate", f32s(b.learning_rate));
    p("max_depth", b.max_depth.to_string());
    p("max_leaves", b.max_leaves.to_string());
    p("l1", f32s(b.l1));
    p("l2", f32s(b.l2));
    p("gamma", f32s(b.gamma));
    p("max_delta_step", f32s(b.max_delta_step));
    p("min_leaf_weight", f32s(b.min_leaf_weight));
    p("nbins", b.nbins.to_string());
    p("parallel", b.parallel.to_string());
    p("allow_missing_splits", b.allow_missing_splits.to_string());
    let con = match &b.monotone_constraints {
        None => "none".to_string(),
        Some(c) => {
            let mut v: Vec<(usize, String)> = c.iter().map(|(k, v)| (*k, js(v))).collect();
            v.sort();
            format!("{:?}", v)
        }
    };
    p("monotone_constraints", con);
    p("subsample", f32s(b.subsample));
    p("top_rate", f64s(b.top_rate));
    p("other_rate", f64s(b.other_rate));
    p("colsample_bytree", f64s(b.colsample_bytree));
    p("seed", b.seed.to_string());
    p("missing", f64s(b.missing));
    p("create_missing_branch", b.create_missing_branch.to_string());
    p("sample_method", js(&b.sample_method));
    p("grow_policy", js(&b.grow_policy));
    p("evaluation_metric", js(&b.evaluation_metric));
    p("early_stopping_rounds", opt(b.early_stopping_rounds).to_string());
    p("initialize_base_score", b.initialize_base_score.to_string());
    let mut t: Vec<usize> = b.terminate_missing_features.iter().copied().collect();
    t.sort();
    p("terminate_missing_features", format!("{:?}", t));
    p("missing_node_treatment", js(&b.missing_node_treatment));
    p("log_iterations", b.log_iterations.to_string());
    p("force_children_to_bound_parent", b.force_children_to_bound_parent.to_string());
    m
}

const KEYS: [&str; 4] = ["k0", "k1", "", "a \"quoted\"\nkey\\"];
fn metas(b: &GradientBooster) -> Value {
    let mut v = vec![];
    for k in KEYS {
        if let Some(x) = b.get_metadata(&k.to_string()) {
            v.push(json!([k, x]));
        }
    }
    Value::Array(v)
}

fn try_predict(b: &GradientBooster, d: &D) -> String {
    match catch_unwind(AssertUnwindSafe(|| b.predict(&d.m(), b.parallel))) {
        Ok(v) => hash_f(&v),
        Err(_) => "panic".into(),
    }
}

fn observe(b: &GradientBooster, probe: &D) -> Value {
    json!({"par": params(b), "base": f64s(b.base_score), "trees": hash_trees(b), "n": b.trees.len(), "hist": hash_hist(b),
           "best": opt(b.best_iteration), "pi": opt(b.prediction_iteration), "preds": try_predict(b, probe), "meta": metas(b)})
}

fn reference(p: &P, d: &D, ev: &[D], probe: &D) -> Value {
    let mut b = match p.build() {
        Ok(b) => b,
        Err(e) => return json!({"st": e}),
    };
    let e = if ev.is_empty() { None } else { Some(ev.iter().map(|e| (e.m(), e.y.as_slice(), e.w.as_slice())).collect()) };
    if let Err(e) = b.fit(&d.m(), &d.y, &d.w, e) {
        return json!({"st": e.to_string()});
    }
    let (base, trees, hist, n, best) = (f64s(b.base_score), hash_trees(&b), hash_hist(&b), b.trees.len(), opt(b.best_iteration));
    let mut preds = vec![];
    for k in 0..=n {
        b.prediction_iteration = Some(k);
        preds.push(try_predict(&b, probe));
    }
    json!({"st": "ok", "base": base, "basev": num(b.base_score), "trees": trees, "hist": hist, "n": n, "best": best, "preds": preds})
}

/// Change one parameter through its setter and in the mirror; returns the field's name.
fn set_some(r: &mut StdRng, b: GradientBooster, p: &mut P, which: Option<usize>) -> (GradientBooster, &'static str) {
    match which.unwrap_or_else(|| r.gen_range(0..24)) {
        0 => {
            p.obj = if p.obj == "LogLoss" { "SquaredLoss" } else { "LogLoss" };
            (b.set_objective_type(obj_of(p.obj)), "objective_type")
        }
        1 => {
            p.iters = match p.iters {
                2 => 3,
                3 => 0,
                _ => 2,
            };
            (b.set_iterations(p.iters), "iterations")
        }
        2 => {
            p.lr = pick(r, &[0.3, 1., 0.125]);
            (b.set_learning_rate(p.lr), "learning_rate")
        }
        3 => {
            p.md = pick(r, &[0, 1, 2, 3]);
            (b.set_max_depth(p.md), "max_depth")
        }
        4 => {
            p.ml = pick(r, &[2, 3, 5, usize::MAX]);
            (b.set_max_leaves(p.ml), "max_leaves")
        }
        5 => {
            p.nbins = pick(r, &[2, 4, 256]);
            (b.set_nbins(p.nbins), "nbins")
        }
        6 => {
            p.l1 = pick(r, &[0., 0.25, 0.5]);
            (b.set_l1(p.l1), "l1")
        }
        7 => {
            p.l2 = pick(r, &[1., 0.5, 3.]);
            (b.set_l2(p.l2), "l2")
        }
        8 => {
            p.gamma = pick(r, &[0., 0.0625, 0.75]);
            (b.set_gamma(p.gamma), "gamma")
        }
        9 => {
            p.mds = pick(r, &[0., 0.375, 1.5]);
            (b.set_max_delta_step(p.mds), "max_delta_step")
        }
        10 => {
            p.mlw = pick(r, &[0.25, 0.625, 1.]);
            (b.set_min_leaf_weight(p.mlw), "min_leaf_weight")
        }
        11 => {
            p.base = pick(r, &[0.5, -0.25, 0.875]);
            (b.set_base_score(p.base), "base_score")
        }
        12 => {
            p.ibs = !p.ibs;
            (b.set_initialize_base_score(p.ibs), "initialize_base_score")
        }
        13 => {
            p.parallel = !p.parallel;
            (b.set_parallel(p.parallel), "parallel")
        }
        14 => {
            p.ams = !p.ams;
            (b.set_allow_missing_splits(p.ams), "allow_missing_splits")
        }
        15 => {
            p.con = if chance(r, 0.3) { vec![] } else { (0..3).map(|_| pick(r, &[0, 1, -1, 2])).collect() };
            let m = p.con_map();
            (b.set_monotone_constraints(m), "monotone_constraints")
        }
        16 => {
            p.subsample = pick(r, &[0.5, 0.75, 1.]);
            (b.set_subsample(p.subsample), "subsample")
        }
        17 => {
            p.cs = pick(r, &[0.5, 0.75, 1.]);
            (b.set_colsample_bytree(p.cs), "colsample_bytree")
        }
        18 => {
            p.seed += 1;
            (b.set_seed(p.seed), "seed")
        }
        19 => {
            p.cmb = !p.cmb;
            (b.set_create_missing_branch(p.cmb), "create_missing_branch")
        }
        20 => {
            p.sm = pick(r, &["None", "Random", "Goss"]);
            (b.set_sample_method(sm_of(p.sm)), "sample_method")
        }
        21 => {
            p.metric = pick(r, &[None, Some("AUC"), Some("LogLoss"), Some("RootMeanSquaredError")]);
            (b.set_evaluation_metric(p.metric.map(metric_of)), "evaluation_metric")
        }
        22 => {
            p.esr = if p.esr.is_some() { None } else { Some(pick(r, &[1, 1, 2])) };
            (b.set_early_stopping_rounds(p.esr), "early_stopping_rounds")
        }
        _ => {
            p.term = (0..3).filter(|_| r.gen_bool(0.5)).collect();
            (b.set_terminate_missing_features(p.term.iter().copied().collect()), "terminate_missing_features")
        }
    }
}

/// Data for the histories: binary targets, missing values at the marker.
fn life_data(r: &mut StdRng, rows: usize, cols: usize, missing: f64) -> D {
    let mut x = vec![];
    for _ in 0..cols {
        let k = pick(r, &[0, 1, 3]);
        let mut c = gen::column(r, rows, k);
        for v in c.iter_mut() {
            if chance(r, 0.2) {
                *v = missing;
            }
        }
        x.extend(c);
    }
    let mut y: Vec<f64> = (0..rows).map(|_| chance(r, 0.5) as i32 as f64).collect();
    y[0] = 0.;
    y[1] = 1.;
    let w = if chance(r, 0.5) { vec![1.; rows] } else { (0..rows).map(|_| r.gen_range(1..4) as f64).collect() };
    D { rows, cols, x, y, w }
}

fn life_one(seed: u64, ops: &[String], dir: &str) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let mut p = P { iters: 2, md: 2, mlw: 0.25, ..Default::default() };
    p.missing = pick(&mut r, &[f64::NAN, -999.]);
    p.ibs = true;
    p.obj = pick(&mut r, &["LogLoss", "SquaredLoss"]);
    p.sm = pick(&mut r, &["None", "None", "Random", "Goss"]);
    p.subsample = 0.75;
    p.top = 0.25;
    p.other = 0.5;
    p.cs = pick(&mut r, &[1., 1., 0.75]);
    p.parallel = chance(&mut r, 0.3);
    p.mnt = pick(&mut r, &["None", "AssignToParent", "AverageLeafWeight", "AverageNodeWeight"]);
    p.gp = pick(&mut r, &["DepthWise", "LossGuide"]);
    let d0 = life_data(&mut r, 12, 3, p.missing);
    let d1 = life_data(&mut r, 10, 4, p.missing);
    let e0 = life_data(&mut r, 5, 3, p.missing);
    let e1 = life_data(&mut r, 6, 4, p.missing);
    let probe = life_data(&mut r, 8, 4, p.missing);
    let mut b = p.build().unwrap();
    let init = observe(&b, &probe);
    let mut steps = vec![];
    for op in ops {
        let mut step = Map::new();
        let mut op = op.as_str();
        if op == "badX" && p.missing.is_nan() {
            op = "badY";
        }
        let mut st = "ok".to_string();
        match op {
            "fit0" | "fit1e" | "fit0e" => {
                let (d, ev): (&D, Vec<D>) = match op {
                    "fit0" => (&d0, vec![]),
                    "fit1e" => (&d1, vec![e1.clone()]),
                    _ => (&d0, vec![d0.clone(), e0.clone()]),
                };
                let rf = reference(&p, d, &ev, &probe);
                let e = if ev.is_empty() { None } else { Some(ev.iter().map(|e| (e.m(), e.y.as_slice(), e.w.as_slice())).collect()) };
                st = match catch_unwind(AssertUnwindSafe(|| b.fit(&d.m(), &d.y, &d.w, e))) {
                    Ok(Ok(())) => "ok".into(),
                    Ok(Err(e)) => format!("error: {}", e),
                    Err(_) => "panic".into(),
                };
                if rf["st"] == "ok" {
                    let s = rf["basev"].as_str().unwrap();
                    p.base = match &s[1..] {
                        "NaN" => f64::NAN,
                        "inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        v => v.parse().unwrap(),
                    };
                }
                step.insert("ref".into(), rf);
            }
            "badY" | "badW" | "badE" | "badX" => {
                let mut d = if chance(&mut r, 0.5) { d0.clone() } else { d1.clone() };
                let mut e = if d.cols == 3 { e0.clone() } else { e1.clone() };
                let k = r.gen_range(0..d.rows);
                let mut with_eval = chance(&mut r, 0.5);
                match op {
                    "badY" => d.y[k] = f64::NAN,
                    "badW" => d.w[k] = pick(&mut r, &[f64::NAN, -1., -1e-300, f64::NEG_INFINITY]),
                    "badE" => {
                        with_eval = true;
                        let k = r.gen_range(0..e.rows);
                        if chance(&mut r, 0.5) {
                            e.y[k] = f64::NAN
                        } else {
                            e.w[k] = pick(&mut r, &[f64::NAN, -0.5])
                        }
                    }
                    _ => {
                        let c = r.gen_range(0..d.cols);
                        d.x[c * d.rows + k] = f64::NAN
                    }
                }
                let ev = if with_eval { Some(vec![(e.m(), e.y.as_slice(), e.w.as_slice())]) } else { None };
                st = match catch_unwind(AssertUnwindSafe(|| b.fit(&d.m(), &d.y, &d.w, ev))) {
                    Ok(Ok(())) => "ok".into(),
                    Ok(Err(e)) => format!("error: {}", e),
                    Err(_) => "panic".into(),
                };
            }
            "iters" | "cmb" | "ibs" | "esr" | "seed" | "set" => {
                let w = match op {
                    "iters" => Some(1),
                    "cmb" => Some(19),
                    "ibs" => Some(12),
                    "esr" => Some(22),
                    "seed" => Some(18),
                    _ => None,
                };
                let (nb, field) = set_some(&mut r, b, &mut p, w);
                b = nb;
                step.insert("field".into(), json!(field));
                let fresh = p.build().unwrap();
                let v = if field == "base_score" { json!(f64s(fresh.base_score)) } else { params(&fresh)[field].clone() };
                step.insert("value".into(), v);
                op = "set";
            }
            "pi1" => {
                // the library's setter takes the index of the last iteration to use
                if b.trees.is_empty() {
                    continue;
                }
                let i = r.gen_range(0..b.trees.len());
                b = b.set_prediction_iteration(Some(i));
                step.insert("pi".into(), json!(i + 1));
                op = "pi";
            }
            "pinone" => {
                b = b.set_prediction_iteration(None);
                step.insert("pi".into(), json!(-1));
                op = "pi";
            }
            "meta" => {
                let (k, v) = (pick(&mut r, &KEYS), pick(&mut r, &["v", "", "{\"a\": [1, null]}", "\u{1F600}\t\\"]));
                b.insert_metadata(k.to_string(), v.to_string());
                step.insert("key".into(), json!(k));
                step.insert("value".into(), json!(v));
            }
            "json" => match b.json_dump().and_then(|s| GradientBooster::from_json(&s)) {
                Ok(nb) => b = nb,
                Err(e) => st = format!("error: {}", e),
            },
            "file" => {
                let path = format!("{}/life-{}.json", dir, seed);
                match b.save_booster(&path).and_then(|_| GradientBooster::load_booster(&path)) {
                    Ok(nb) => b = nb,
                    Err(e) => st = format!("error: {}", e),
                }
                let _ = std::fs::remove_file(&path);
            }
            _ => unreachable!(),
        }
        let name = op;
        let op = match op {
            "json" | "file" => "reload",
            "fit0" | "fit1e" | "fit0e" => "fit",
            "badY" | "badW" | "badE" | "badX" => "bad",
            o => o,
        };
        step.insert("name".into(), json!(name));
        step.insert("op".into(), json!(op));
        step.insert("st".into(), json!(st));
        step.insert("obs".into(), observe(&b, &probe));
        steps.push(Value::Object(step));
    }
    json!({"st": "ok", "init": init, "steps": steps})
}

/// Replay operation sequences (one per line, separated by blanks) into the library.
pub fn run(seed: u64, ops: &str, out: &str) {
    let dir = std::env::current_dir().unwrap().to_string_lossy().to_string();
    let text = std::fs::read_to_string(ops).unwrap();
    let lines: Vec<Vec<String>> = text.lines().map(|l| l.split_whitespace().map(String::from).collect()).collect();
    let res = par_map(lines.len(), |i| {
        let (ops, dir) = (lines[i].clone(), dir.clone());
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        match guarded(60, move || life_one(s, &ops, &dir)) {
            Out::Ok(v) => v,
            o => json!({"st": o.st()}),
        }
    });
    write_lines(out, res);
}

pub fn write_lines(out: &str, v: Vec<Value>) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for x in v {
        writeln!(o, "{}", x).unwrap();
    }
}

/// A plain parallel map on threads of our own (the library's pool stays out of it).
pub fn par_map<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut all: Vec<(usize, T)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                s.spawn(|| {
                    let mut v = vec![];
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= n {
                            return v;
                        }
                        v.push((i, f(i)));
                    }
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    all.sort_by_key(|x| x.0);
    all.into_iter().map(|x| x.1).collect()
}

// ---------------------------------------------------------------- threads

fn par_digest(p: &P, d: &D, ev: &[D], probe: &D) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = p.build().unwrap();
        let e = if ev.is_empty() { None } else { Some(ev.iter().map(|e| (e.m(), e.y.as_slice(), e.w.as_slice())).collect()) };
        if let Err(e) = b.fit(&d.m(), &d.y, &d.w, e) {
            return json!({"st": e.to_string()});
        }
        let m: Matrix<f64> = probe.m();
        let mut methods: Vec<(&str, ContributionsMethod)> = vec![
            ("Weight", ContributionsMethod::Weight),
            ("Average", ContributionsMethod::Average),
            ("BranchDifference", ContributionsMethod::BranchDifference),
            ("MidpointDifference", ContributionsMethod::MidpointDifference),
            ("ModeDifference", ContributionsMethod::ModeDifference),
            ("Shapley", ContributionsMethod::Shapley),
        ];
        if p.obj == "LogLoss" {
            methods.push(("ProbabilityChange", ContributionsMethod::ProbabilityChange));
        }
        let mut c = Map::new();
        for (n, k) in methods {
            c.insert(n.into(), json!(hash_f(&b.predict_contributions(&m, k, p.parallel))));
        }
        let leaf: Vec<f64> = b.predict_leaf_indices(&m).iter().map(|v| *v as f64).collect();
        let pd: Vec<f64> = (0..d.cols).map(|f| b.value_partial_dependence(f, probe.at(0, f))).collect();
        let imp = b.calculate_feature_importance(forust_ml::gradientbooster::ImportanceMethod::Gain, true);
        let mut iv: Vec<(usize, f32)> = imp.into_iter().collect();
        iv.sort_by_key(|x| x.0);
        json!({"st": "ok", "trees": hash_trees(&b), "base": f64s(b.base_score), "hist": hash_hist(&b), "best": opt(b.best_iteration),
               "preds": hash_f(&b.predict(&m, p.parallel)), "leaf": hash_f(&leaf), "contribs": c, "pd": nums(&pd),
               "imp": hash_f(&iv.iter().flat_map(|(a, b)| [*a as f64, *b as f64]).collect::<Vec<_>>())})
    }));
    r.unwrap_or_else(|_| json!({"st": "panic"}))
}

fn par_one(s: u64, i: usize, pools: &[(usize, std::sync::Arc<rayon::ThreadPool>)]) -> Value {
    let mut r = StdRng::seed_from_u64(s);
    let e = pick(&mut r, &[Emph::General, Emph::Missing, Emph::Mono, Emph::Cols, Emph::Bins, Emph::Large, Emph::Order]);
    let e = match i % 25 {
        7 => Emph::Large,
        13 | 21 => Emph::Huge,
        _ => e,
    };
    let (mut d, mut p, _) = gen::case(&mut r, e, false);
    if i % 25 == 21 {
        // many columns: shuffled copies of the ones there are
        let c = r.gen_range(20..70);
        let keep = d.rows.min(900);
        d = d.take(&(0..keep).collect::<Vec<_>>());
        let mut x = vec![];
        for k in 0..c {
            let s = r.gen_range(0..keep);
            let col = k % d.cols;
            x.extend((0..keep).map(|j| d.at((j + s) % keep, col)));
        }
        d = D { cols: c, x, ..d };
        p.con = vec![];
        p.term = vec![];
    }
    if e == Emph::Huge {
        p.md = pick(&mut r, &[4, 6]);
        p.iters = 3;
    }
    let sampled = chance(&mut r, 0.5);
    if sampled {
        p.sm = pick(&mut r, &["Random", "Goss"]);
        p.subsample = 0.7;
        p.top = 0.2;
        p.other = 0.4;
        p.l2 = 1.;
        p.cs = pick(&mut r, &[1., 0.6]);
    } else if p.sm != "None" {
        p.sm = "None";
    }
    if e != Emph::Huge {
        p.iters = pick(&mut r, &[1, 2, 3, 6]);
    }
    p.esr = pick(&mut r, &[None, None, Some(1), Some(2)]);
    let ev = if chance(&mut r, 0.5) { vec![d.take(&(0..d.rows.min(7)).collect::<Vec<_>>())] } else { vec![] };
    let most = if e == Emph::Huge && d.cols < 20 { 3000 } else { 40 };
    let rows: Vec<usize> = (0..d.rows.min(most)).map(|_| r.gen_range(0..d.rows)).collect();
    let probe = d.take(&rows);
    let mut runs = vec![];
    for (n, pool) in pools {
        for par in [true, false] {
            if !par && *n != 2 {
                continue;
            }
            let mut q = p.clone();
            q.parallel = par;
            let v = pool.install(|| par_digest(&q, &d, &ev, &probe));
            runs.push(json!({"threads": n, "parallel": par, "seed": int(q.seed as usize), "d": v}));
        }
    }
    let mut q = p.clone();
    q.parallel = chance(&mut r, 0.5);
    q.seed = p.seed + 1 + r.gen_range(0..1000);
    let v = pools[1].1.install(|| par_digest(&q, &d, &ev, &probe));
    runs.push(json!({"threads": pools[1].0, "parallel": q.parallel, "seed": int(q.seed as usize), "d": v}));
    json!({"st": "ok", "seed": int(p.seed as usize), "sm": p.sm, "cs": num(p.cs), "runs": runs})
}

pub fn run_par(seed: u64, n: usize, out: &str) {
    let pools: Vec<(usize, std::sync::Arc<rayon::ThreadPool>)> = [1, 2, 3, 8, 5]
        .iter()
        .map(|k| (*k, std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(*k).build().unwrap())))
        .collect();
    let mut v = vec![];
    for i in 0..n {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let ps = pools.clone();
        v.push(match guarded(120, move || par_one(s, i, &ps)) {
            Out::Ok(v) => v,
            o => json!({"st": o.st()}),
        });
    }
    write_lines(out, v);
}

// ---------------------------------------------------------------- saving

/// Everything a booster holds, as strings.
fn whole(b: &GradientBooster) -> Value {
    let mut m = params(b);
    m.insert("base_score".into(), json!(f64s(b.base_score)));
    m.insert("trees".into(), json!(hash_trees(b)));
    m.insert("evaluation_history".into(), json!(stored_hist(b)));
    m.insert("best_iteration".into(), json!(opt(b.best_iteration).to_string()));
    m.insert("prediction_iteration".into(), json!(opt(b.prediction_iteration).to_string()));
    m.insert("metadata".into(), json!(metas(b).to_string()));
    Value::Object(m)
}

fn load(s: &str) -> (String, Value, Option<GradientBooster>) {
    match catch_unwind(AssertUnwindSafe(|| GradientBooster::from_json(s))) {
        Ok(Ok(b)) => ("ok".into(), whole(&b), Some(b)),
        Ok(Err(_)) => ("error".into(), json!({}), None),
        Err(_) => ("panic".into(), json!({}), None),
    }
}

pub fn special_case(r: &mut StdRng) -> (D, P, Vec<D>) {
    let (mut d, mut p, mut ev) = boost::boost_case(r);
    p.iters = pick(r, &[0, 1, 2, 3, 5]);
    match r.gen_range(0..13) {
        // metrics that are not a number
        0 => {
            p.metric = Some("AUC");
            p.obj = "LogLoss";
            for y in d.y.iter_mut() {
                *y = (*y > 0.) as i32 as f64;
            }
            let mut e = d.take(&(0..d.rows.min(3)).collect::<Vec<_>>());
            e.y.iter_mut().for_each(|y| *y = 1.);
            ev = vec![e];
            p.ibs = false;
        }
        1 => {
            p.metric = Some("RootMeanSquaredLogError");
            p.obj = "SquaredLoss";
            for y in d.y.iter_mut() {
                *y = -5. - y.abs();
            }
            let mut e = d.take(&(0..d.rows.min(3)).collect::<Vec<_>>());
            e.y.iter_mut().for_each(|y| *y = y.abs());
            ev = vec![e];
            p.base = -3.;
        }
        // numbers that need all their digits
        2 => {
            let (k, c) = (r.gen_range(0..d.cols), d.rows);
            for v in d.x[k * c..(k + 1) * c].iter_mut() {
                if v.is_finite() && *v != p.missing {
                    *v = *v / 3. + 1e-13;
                }
            }
        }
        3 => {
            let k = pick(r, &[1e-300, 1e300, 5e-324, -1e250]);
            for v in d.x.iter_mut() {
                if v.is_finite() && *v != p.missing {
                    *v = *v * k;
                    if !v.is_finite() {
                        *v = 1e305;
                    }
                }
            }
        }
        4 => p.base = pick(r, &[0.1 + 0.2, 1e-310, -1. / 3., -0.]),
        5 => {
            let (old, new) = (p.missing, pick(r, &[1e308, 0.1, -1. / 3.]));
            for v in d.x.iter_mut().chain(ev.iter_mut().flat_map(|e| e.x.iter_mut())) {
                if v.is_nan() || *v == old {
                    *v = new;
                }
            }
            p.missing = new;
        }
        6 => {
            p.l1 = 1. / 3.;
            p.lr = 0.7;
            p.subsample = 0.1;
            p.top = 1. / 3.;
            p.other = 0.7;
            p.cs = pick(r, &[1., 0.999999]);
        }
        // infinite feature values
        7 | 8 => {
            for v in d.x.iter_mut() {
                if !v.is_nan() && *v != p.missing && chance(r, 0.25) {
                    *v = pick(r, &[f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN]);
                }
            }
        }
        9 => {
            let (old, new) = (p.missing, pick(r, &[f64::INFINITY, f64::NEG_INFINITY]));
            for v in d.x.iter_mut().chain(ev.iter_mut().flat_map(|e| e.x.iter_mut())) {
                if v.is_nan() || *v == old || chance(r, 0.1) {
                    *v = new;
                }
            }
            p.missing = new;
        }
        // an infinite or undefined initial score
        10 => {
            p.obj = "LogLoss";
            p.ibs = true;
            let y = pick(r, &[0., 1.]);
            d.y.iter_mut().for_each(|v| *v = y);
            if chance(r, 0.3) {
                p.obj = "SquaredLoss";
                d.w.iter_mut().for_each(|v| *v = 0.);
            }
            ev = vec![];
        }
        11 => match r.gen_range(0..5) {
            0 => p.l1 = f32::INFINITY,
            1 => p.l2 = f32::INFINITY,
            2 => p.gamma = f32::INFINITY,
            3 => p.mds = f32::INFINITY,
            _ => p.mlw = f32::INFINITY,
        },
        _ => {}
    }
    p.con = if chance(r, 0.5) { (0..d.cols).map(|_| pick(r, &[0, 1, -1, 2])).collect() } else { vec![] };
    p.log = pick(r, &[0, 1, 7]);
    p.seed = pick(r, &[0, 1, 12345, 1 << 29]);
    (d, p, ev)
}

fn sorted(s: &str) -> String {
    // serde_json's map is ordered by key, so this is canonical up to the order of the set
    match serde_json::from_str::<Value>(s) {
        Ok(mut v) => {
            if let Some(t) = v.get_mut("terminate_missing_features").and_then(|t| t.as_array_mut()) {
                t.sort_by_key(|x| x.as_u64());
            }
            let mut h = Hash::new();
            v.to_string().bytes().for_each(|b| h.u(b as u64));
            h.hex()
        }
        Err(_) => "unparsable".into(),
    }
}

fn save_one(s: u64, i: usize, dir: &str) -> Value {
    let mut r = StdRng::seed_from_u64(s);
    let (d, p, ev) = special_case(&mut r);
    let mut b = match p.build() {
        Ok(b) => b,
        Err(e) => return json!({"st": e}),
    };
    if i % 10 != 3 {
        let e = if ev.is_empty() { None } else { Some(ev.iter().map(|e| (e.m(), e.y.as_slice(), e.w.as_slice())).collect()) };
        if let Err(e) = b.fit(&d.m(), &d.y, &d.w, e) {
            return json!({"st": e.to_string()});
        }
        if !b.trees.is_empty() && chance(&mut r, 0.3) {
            let k = r.gen_range(0..b.trees.len());
            b = b.set_prediction_iteration(Some(k));
        }
    }
    for k in KEYS {
        if chance(&mut r, 0.3) {
            b.insert_metadata(k.to_string(), pick(&mut r, &["", "x", "\"\\\n\u{0}\u{7f}é", "null", "[1]"]).to_string());
        }
    }
    let orig = whole(&b);
    let text = match b.json_dump() {
        Ok(t) => t,
        Err(e) => return json!({"st": e.to_string()}),
    };
    let pr = |b: &GradientBooster| try_predict(b, &d);
    let mut exps = vec![];
    let (st, got, nb) = load(&text);
    let (mut redump, mut preds) = ("none".to_string(), "none".to_string());
    if let Some(nb) = &nb {
        redump = nb.json_dump().map(|t| sorted(&t)).unwrap_or("error".into());
        preds = pr(nb);
    }
    exps.push(json!({"kind": "json", "st": st, "got": got, "dump": sorted(&text), "redump": redump, "preds0": pr(&b), "preds": preds}));
    // through a file
    let path = format!("{}/save-{}.json", dir, s);
    if chance(&mut r, 0.3) {
        // an older, longer file is in the way
        let _ = std::fs::write(&path, format!("{}{}", text, " junk ".repeat(50)));
    }
    let sv = b.save_booster(&path).is_ok();
    let (st, got, preds, redump) = match catch_unwind(AssertUnwindSafe(|| GradientBooster::load_booster(&path))) {
        Ok(Ok(nb)) => ("ok", whole(&nb), pr(&nb), nb.json_dump().map(|t| sorted(&t)).unwrap_or("error".into())),
        Ok(Err(_)) => ("error", json!({}), "none".into(), "none".into()),
        Err(_) => ("panic", json!({}), "none".into(), "none".into()),
    };
    exps.push(json!({"kind": "file", "st": if sv { st } else { "error" }, "got": got, "dump": sorted(&text), "redump": redump, "preds0": pr(&b), "preds": preds}));
    // damage
    let bytes = text.as_bytes().to_vec();
    let mut cutpoints: Vec<usize> = vec![0, 1, bytes.len() - 1, bytes.len() / 2];
    for _ in 0..6 {
        cutpoints.push(r.gen_range(0..bytes.len()));
    }
    for k in cutpoints {
        let _ = std::fs::write(&path, &bytes[..k]);
        let st = match catch_unwind(AssertUnwindSafe(|| GradientBooster::load_booster(&path))) {
            Ok(Ok(_)) => "ok",
            Ok(Err(_)) => "error",
            Err(_) => "panic",
        };
        exps.push(json!({"kind": "truncated", "at": k, "of": bytes.len(), "st": st}));
    }
    let _ = std::fs::remove_file(&path);
    for (what, path) in [("missing file", format!("{}/no-such-{}.json", dir, s)), ("directory", dir.to_string())] {
        let st = match catch_unwind(AssertUnwindSafe(|| GradientBooster::load_booster(&path))) {
            Ok(Ok(_)) => "ok",
            Ok(Err(_)) => "error",
            Err(_) => "panic",
        };
        exps.push(json!({"kind": "unreadable", "what": what, "st": st}));
    }
    let st = match catch_unwind(AssertUnwindSafe(|| b.save_booster(&format!("{}/no-such-dir/m.json", dir)))) {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "error",
        Err(_) => "panic",
    };
    exps.push(json!({"kind": "unwritable", "st": st}));
    // other things than a model; a model with a broken piece
    let junk = ["", "null", "[]", "{}", "{\"trees\": []}", "nan", "\u{feff}{}"];
    exps.push(json!({"kind": "unparsable", "st": load(pick(&mut r, &junk)).0}));
    exps.push(json!({"kind": "unparsable", "st": load(&format!("{}}}", text)).0}));
    // fields of later versions left out
    let v: Value = serde_json::from_str(&text).unwrap();
    let keys: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
    for k in keys {
        if i % 4 != 0 && !chance(&mut r, 0.15) {
            continue;
        }
        let mut m = v.as_object().unwrap().clone();
        m.remove(&k);
        let (st, got, _) = load(&Value::Object(m).to_string());
        exps.push(json!({"kind": "without", "field": k, "st": st, "got": got}));
    }
    json!({"st": "ok", "orig": orig, "exps": exps, "nodes": b.trees.iter().map(|t| t.nodes.len()).sum::<usize>()})
}

pub fn run_save(seed: u64, n: usize, out: &str) {
    let dir = std::env::current_dir().unwrap().to_string_lossy().to_string();
    let res = par_map(n, |i| {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let dir = dir.clone();
        match guarded(60, move || save_one(s, i, &dir)) {
            Out::Ok(v) => v,
            o => json!({"st": o.st()}),
        }
    });
    write_lines(out, res);
}

// ---------------------------------------------------------------- validation

fn specials(r: &mut StdRng) -> f64 {
    let a = r.gen::<f64>() * 2.;
    pick(
        r,
        &[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0., -0., -1., -1e-30, -1e-45, 1e-30, 1., 0.5, 2., 1e30, -1e30, a, -a, f64::MIN_POSITIVE],
    )
}

const FLOATS: [&str; 10] = [
    "learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample", "top_rate", "other_rate", "colsample_bytree",
];

fn guard_new(r: &mut StdRng) -> Value {
    let mut p = P { ..Default::default() };
    let mut vals: HashMap<&str, f64> = HashMap::new();
    let k = if chance(r, 0.8) { 1 } else { 2 };
    for _ in 0..k {
        let f = pick(r, &FLOATS);
        let v = specials(r);
        match f {
            "learning_rate" => p.lr = v as f32,
            "l1" => p.l1 = v as f32,
            "l2" => p.l2 = v as f32,
            "gamma" => p.gamma = v as f32,
            "max_delta_step" => p.mds = v as f32,
            "min_leaf_weight" => p.mlw = v as f32,
            "subsample" => p.subsample = v as f32,
            "top_rate" => p.top = v,
            "other_rate" => p.other = v,
            _ => p.cs = v,
        }
        vals.insert(f, v);
    }
    let mut m = Map::new();
    for (k, v) in [
        ("learning_rate", p.lr as f64), ("l1", p.l1 as f64), ("l2", p.l2 as f64), ("gamma", p.gamma as f64),
        ("max_delta_step", p.mds as f64), ("min_leaf_weight", p.mlw as f64), ("subsample", p.subsample as f64),
        ("top_rate", p.top), ("other_rate", p.other), ("colsample_bytree", p.cs),
    ] {
        m.insert(k.into(), num(v));
    }
    let (st, msg) = match catch_unwind(AssertUnwindSafe(|| p.build())) {
        Ok(Ok(_)) => ("ok", String::new()),
        Ok(Err(e)) => ("error", e),
        Err(_) => ("panic", String::new()),
    };
    // which parameter names does the message contain as a word?
    let named: Vec<&str> = FLOATS
        .iter()
        .copied()
        .filter(|f| msg.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == *f))
        .collect();
    json!({"kind": "new", "vals": m, "st": st, "named": named})
}

fn guard_fit(r: &mut StdRng) -> Value {
    let (mut d, mut p, mut ev) = boost::boost_case(r);
    p.iters = pick(r, &[1, 2]);
    if ev.is_empty() && chance(r, 0.4) {
        ev.push(d.clone());
    }
    let bads = if chance(r, 0.8) { 1 } else { 0 };
    for _ in 0..bads {
        let t = r.gen_range(0..=ev.len());
        let train = t == ev.len();
        let which = r.gen_range(0..3);
        let sp = pick(r, &[f64::NAN, f64::NAN, -1., -1e-300, f64::NEG_INFINITY, -0.]);
        let e: &mut D = if train { &mut d } else { &mut ev[t] };
        let k = pick(r, &[0, e.rows - 1, e.rows / 2]);
        match which {
            0 => e.y[k] = f64::NAN,
            1 => e.w[k] = sp,
            _ => {
                // a NaN feature of the training data (evaluation features are judged when routed)
                if train {
                    let c = r.gen_range(0..e.cols);
                    e.x[c * e.rows + k] = f64::NAN;
                } else {
                    e.w[k] = sp;
                }
            }
        }
    }
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut b = p.build().unwrap();
        let e = if ev.is_empty() { None } else { Some(ev.iter().map(|e| (e.m(), e.y.as_slice(), e.w.as_slice())).collect()) };
        b.fit(&d.m(), &d.y, &d.w, e).map_err(|e| e.to_string())
    }));
    let (st, msg) = match res {
        Ok(Ok(_)) => ("ok", String::new()),
        Ok(Err(e)) => ("error", e),
        Err(_) => ("panic", String::new()),
    };
    let evj: Vec<Value> = ev.iter().map(|e| json!({"y": nums(&e.y), "w": nums(&e.w)})).collect();
    json!({"kind": "fit", "st": st, "msg": msg, "y": nums(&d.y), "w": nums(&d.w), "x": nums(&d.x), "missing": num(p.missing), "evals": evj})
}

/// Finite data, valid parameters, however extreme: training returns.
fn guard_extreme(r: &mut StdRng) -> Value {
    let e = pick(r, &[Emph::Degenerate, Emph::Degenerate, Emph::General, Emph::Missing, Emph::Mono, Emph::Bins]);
    let (mut d, mut p, _) = gen::case(r, e, false);
    p.iters = pick(r, &[0, 1, 2, 5]);
    p.md = pick(r, &[0, 1, 3, 30, usize::MAX]);
    p.ml = pick(r, &[0, 1, 2, 3, 4, usize::MAX]);
    p.lr = pick(r, &[0., 1e-30, 1., 5., 1e10]);
    p.l1 = pick(r, &[0., 0., 1e-20, 1e20]);
    p.l2 = pick(r, &[0., 0., 1., 1e-30, 1e20]);
    p.gamma = pick(r, &[0., 0., 1e-30, 1e20]);
    p.mds = pick(r, &[0., 0., 1e-30, 1e20]);
    p.mlw = pick(r, &[0., 0., 1e-30, 1., 1e20]);
    p.nbins = pick(r, &[1, 1, 2, 3, 255, 256, 65535]);
    p.sm = pick(r, &["None", "None", "Random", "Goss"]);
    p.subsample = pick(r, &[0., 1e-9, 0.5, 1., 7.]);
    p.top = pick(r, &[0., 0.3, 0.99, 1., 1.5, 1e30]);
    p.other = pick(r, &[0., 0.3, 1., 3.]);
    p.cs = pick(r, &[0., 0.1, 0.5, 1., 2.]);
    p.ibs = chance(r, 0.5);
    p.base = pick(r, &[0., 0.5, -1e10, 1e30, 800., -800.]);
    p.esr = pick(r, &[None, Some(0), Some(1)]);
    p.seed = r.gen();
    p.term = pick(r, &[vec![], vec![0], vec![99]].iter().collect::<Vec<_>>()).clone();
    if chance(r, 0.3) {
        p.con = (0..d.cols).map(|_| pick(r, &[1, -1, 0])).collect();
    }
    p.fcb = chance(r, 0.4);
    match r.gen_range(0..6) {
        0 => d.w.iter_mut().for_each(|w| *w = 0.),
        1 => d.w.iter_mut().for_each(|w| *w = 1e30),
        2 => d.w.iter_mut().for_each(|w| *w = 1e-300),
        3 => d.y.iter_mut().for_each(|y| *y = 1.),
        4 => {
            if p.obj != "LogLoss" {
                d.y.iter_mut().for_each(|y| *y *= 1e30)
            }
        }
        _ => {}
    }
    if chance(r, 0.3) {
        let v = [f64::MAX, f64::MIN, 1e-320, -0., 0., 1.];
        for x in d.x.iter_mut() {
            if !x.is_nan() && *x != p.missing {
                *x = pick(r, &v);
            }
        }
    }
    let cfg = format!("{}", p.json(d.cols));
    let (x, y, w) = (xjson(&d.x, d.rows, d.cols), nums(&d.y), nums(&d.w));
    let with_eval = chance(r, 0.5);
    let out = guarded(30, move || {
        let mut b = p.build()?;
        let ev = if with_eval { Some(vec![(d.m(), d.y.as_slice(), d.w.as_slice())]) } else { None };
        b.fit(&d.m(), &d.y, &d.w, ev).map_err(|e| e.to_string())?;
        b.predict(&d.m(), true);
        b.predict_leaf_indices(&d.m());
        Ok::<(), String>(())
    });
    let st = match out {
        Out::Ok(Ok(())) => "ok".to_string(),
        Out::Ok(Err(e)) => format!("error: {}", e),
        o => o.st(),
    };
    json!({"kind": "extreme", "st": st, "cfg": cfg, "x": x, "y": y, "w": w})
}

/// As many distinct values as bin numbers, and a few more or less.
fn guard_wide(r: &mut StdRng) -> Value {
    let n = pick(r, &[65533usize, 65534, 65535, 65536, 65536, 65536, 65537]);
    let nbins = pick(r, &[65535u16, 65535, 65534]);
    let miss = chance(r, 0.5);
    let out = guarded(60, move || {
        let mut x: Vec<f64> = (0..n).map(|i| i as f64 * 0.5 - 7.).collect();
        if miss {
            x.push(f64::NAN);
        }
        let y: Vec<f64> = (0..x.len()).map(|i| ((i / 5000) % 2) as f64).collect();
        let p = P { iters: 1, nbins, md: 2, ..Default::default() };
        let mut b = p.build()?;
        let m = Matrix::new(&x, x.len(), 1);
        b.fit(&m, &y, &vec![1.; x.len()], None).map_err(|e| e.to_string())?;
        b.predict(&m, true);
        Ok::<(), String>(())
    });
    let st = match out {
        Out::Ok(Ok(())) => "ok".to_string(),
        Out::Ok(Err(e)) => format!("error: {}", e),
        o => o.st(),
    };
    json!({"kind": "extreme", "st": st, "distinct": n, "nbins": nbins, "missing row": miss})
}

/// A NaN under another missing marker must not be scored.
fn guard_score(r: &mut StdRng) -> Value {
    let (mut d, mut p, _) = gen::case(r, Emph::General, false);
    p.iters = pick(r, &[1, 2]);
    p.missing = -999.;
    for v in d.x.iter_mut() {
        if v.is_nan() {
            *v = -999.;
        }
    }
    let mut b = match p.build() {
        Ok(b) => b,
        Err(e) => return json!({"kind": "extreme", "st": e}),
    };
    if let Err(e) = b.fit(&d.m(), &d.y, &d.w, None) {
        return json!({"kind": "extreme", "st": e.to_string()});
    }
    let split: Vec<usize> = b.trees.iter().filter(|t| !t.nodes[0].is_leaf).map(|t| t.nodes[0].split_feature).collect();
    let mut q = d.take(&[0]);
    let mut what = vec![];
    if let Some(f) = split.first() {
        q.x[*f] = f64::NAN;
        let mut go = |k: &str, f: &dyn Fn() -> usize| {
            let ok = catch_unwind(AssertUnwindSafe(f)).is_ok();
            what.push(json!({"op": k, "st": if ok { "ok" } else { "refused" }}));
        };
        let par = chance(r, 0.5);
        go("predict", &|| b.predict(&q.m(), par).len());
        go("leaves", &|| b.predict_leaf_indices(&q.m()).len());
        for m in ["Weight", "Average", "BranchDifference", "MidpointDifference", "ModeDifference", "ProbabilityChange"] {
            go(m, &|| b.predict_contributions(&q.m(), crate::usage::method_of(m), par).len());
        }
    }
    json!({"kind": "score", "what": what})
}

pub fn run_guard(seed: u64, n: usize, out: &str) {
    let res = par_map(n, |i| {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let out = guarded(60, move || {
            let mut r = StdRng::seed_from_u64(s);
            match i % 4 {
                _ if i % 500 == 7 => guard_wide(&mut r),
                _ if i % 20 == 11 => guard_score(&mut r),
                0 => guard_new(&mut r),
                1 => guard_fit(&mut r),
                _ => guard_extreme(&mut r),
            }
        });
        match out {
            Out::Ok(v) => v,
            o => json!({"kind": "extreme", "st": o.st()}),
        }
    });
    write_lines(out, res);
}
