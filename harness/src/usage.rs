//! Traces of using a model, for TraceUse.tla.
use crate::gen::{self, Emph};
use crate::util::*;
use forust_ml::gradientbooster::{ContributionsMethod, ImportanceMethod};
use forust_ml::{GradientBooster, Matrix};
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::io::Write;

pub const METHODS: [&str; 7] = [
    "Weight", "Average", "BranchDifference", "MidpointDifference", "ModeDifference", "Shapley", "ProbabilityChange",
];
pub fn method_of(s: &str) -> ContributionsMethod {
    match s {
        "Weight" => ContributionsMethod::Weight,
        "Average" => ContributionsMethod::Average,
        "BranchDifference" => ContributionsMethod::BranchDifference,
        "MidpointDifference" => ContributionsMethod::MidpointDifference,
        "ModeDifference" => ContributionsMethod::ModeDifference,
        "Shapley" => ContributionsMethod::Shapley,
        _ => ContributionsMethod::ProbabilityChange,
    }
}
pub fn imp_of(s: &str) -> ImportanceMethod {
    match s {
        "Weight" => ImportanceMethod::Weight,
        "Gain" => ImportanceMethod::Gain,
        "Cover" => ImportanceMethod::Cover,
        "TotalGain" => ImportanceMethod::TotalGain,
        _ => ImportanceMethod::TotalCover,
    }
}

struct Syn<'a> {
    r: &'a mut StdRng,
    ternary: u8, // 0 imputed, 1 missing branches, 2 mixed
    pool: Vec<usize>, // features to split on
    maxd: usize,
    nodes: Vec<Value>,
}
impl Syn<'_> {
    fn leaf(&mut self, num: usize, d: usize, cover: u32) -> Value {
        let w = self.r.gen_range(-64..65) as f32 / 16.;
        json!({"num": num, "weight_value": w, "hessian_sum": cover as f32, "depth": d, "split_value": 0.0,
               "split_feature": 0, "split_gain": 0.0, "missing_node": 0, "left_child": 0, "right_child": 0, "is_leaf": true})
    }
    fn grow(&mut self, cover: u32) {
        let root = self.leaf(0, 0, cover);
        self.nodes.push(root);
        let mut todo = vec![(0usize, 0usize, cover)];
        let stump = self.r.gen_bool(0.05);
        while !todo.is_empty() {
            let k = self.r.gen_range(0..todo.len());
            let (id, d, c) = todo.swap_remove(k);
            let t = match self.ternary {
                0 => false,
                1 => true,
                _ => self.r.gen_bool(0.5),
            };
            if stump || d >= self.maxd || c < 3 || (d > 0 && self.r.gen_bool(0.25)) {
                continue;
            }
            let l = self.r.gen_range(1..c);
            let rest = c - l;
            let (rr, m) = if t {
                if rest < 2 {
                    (rest, if self.r.gen_bool(0.5) { 0 } else { 0 })
                } else if self.r.gen_bool(0.3) {
                    (rest, 0)
                } else {
                    let m = self.r.gen_range(1..rest);
                    (rest - m, m)
                }
            } else {
                (rest, 0)
            };
            let n = self.nodes.len();
            let perm = self.r.gen_bool(0.3);
            let (li, ri) = if perm { (n + 1, n) } else { (n, n + 1) };
            let (a, b) = if perm { (rr, l) } else { (l, rr) };
            let x = self.leaf(n, d + 1, a);
            let y = self.leaf(n + 1, d + 1, b);
            self.nodes.push(x);
            self.nodes.push(y);
            todo.push((n, d + 1, a));
            todo.push((n + 1, d + 1, b));
            let mi = if t {
                let z = self.leaf(n + 2, d + 1, m);
                self.nodes.push(z);
                todo.push((n + 2, d + 1, m));
                n + 2
            } else if self.r.gen_bool(0.5) {
                li
            } else {
                ri
            };
            let f = self.pool[self.r.gen_range(0..self.pool.len())];
            let v = pick(self.r, &[-1.5, 0., 0.25, 1., 3., 1e9, -1e-9]);
            let gain = self.r.gen_range(1..200) as f32 / 8.;
            let nd = &mut self.nodes[id];
            nd["is_leaf"] = json!(false);
            nd["split_feature"] = json!(f);
            nd["split_value"] = json!(v);
            nd["split_gain"] = json!(gain);
            nd["left_child"] = json!(li);
            nd["right_child"] = json!(ri);
            nd["missing_node"] = json!(mi);
        }
    }
}

/// A loaded model with arbitrary (but cover-consistent) trees.
fn synthetic(r: &mut StdRng) -> Result<(GradientBooster, D, P), String> {
    let cols = if chance(r, 0.015) { pick(r, &[65, 70, 260]) } else { r.gen_range(1..6) };
    let mut p = P { ..Default::default() };
    p.obj = pick(r, &["LogLoss", "SquaredLoss"]);
    p.missing = pick(r, &[f64::NAN, f64::NAN, -999., 0., f64::NAN, f64::NAN, f64::INFINITY]);
    p.base = pick(r, &[0., 0.5, -1.25, 3.]);
    p.parallel = chance(r, 0.5);
    p.cmb = chance(r, 0.5);
    let b = p.build()?;
    let mut j: Value = serde_json::from_str(&b.json_dump().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    // now and then many splits on few features
    let tall = chance(r, 0.04);
    // or more trees or nodes than a byte counts
    let (forest, bushy) = (chance(r, 0.006), chance(r, 0.006));
    let nt = if forest { r.gen_range(258..300) } else if tall { r.gen_range(20..60) } else { r.gen_range(1..5) };
    let ternary = r.gen_range(0..3);
    let few = if tall {
        cols.min(2)
    } else if chance(r, 0.3) { 1 + r.gen_range(0..cols) } else { cols };
    let mut pool: Vec<usize> = (0..few).collect();
    if cols > 6 {
        // late columns too, but few of them
        pool = (0..5).map(|_| r.gen_range(0..cols)).chain([cols - 1]).collect();
    }
    let mut trees = vec![];
    for _ in 0..nt {
        let cover = if bushy { r.gen_range(60000..100000) } else { r.gen_range(2..400) };
        let maxd = if bushy { 12 } else if forest { 2 } else { r.gen_range(1..6) };
        let mut s = Syn { r, ternary, pool: pool.clone(), maxd, nodes: vec![] };
        s.grow(cover);
        trees.push(json!({ "nodes": s.nodes }));
    }
    j["trees"] = Value::Array(trees);
    let b = GradientBooster::from_json(&j.to_string()).map_err(|e| e.to_string())?;
    let rows = 6;
    let mut x = vec![];
    for _ in 0..cols {
        for _ in 0..rows {
            let v = if chance(r, 0.25) { p.missing } else { pick(r, &[-2., -1.5, 0., 0.25, 0.5, 1., 2., 3., 5., 1e9, f64::INFINITY, f64::NEG_INFINITY]) };
            x.push(v);
        }
    }
    Ok((b, D { rows, cols, x, y: vec![0.; rows], w: vec![1.; rows] }, p))
}

fn fitted(r: &mut StdRng) -> Result<(GradientBooster, D, P), String> {
    let e = pick(r, &[Emph::General, Emph::Missing, Emph::Missing, Emph::Exact, Emph::Mono, Emph::Degenerate, Emph::Bins, Emph::Extreme]);
    let e = if chance(r, 0.01) { Emph::ManyCols } else { e };
    let (d, mut p, _) = gen::case(r, e, false);
    p.iters = r.gen_range(1..7);
    let mut b = p.build()?;
    b.fit(&d.m(), &d.y, &d.w, None).map_err(|e| e.to_string())?;
    Ok((b, d, p))
}

pub fn next_up(v: f64) -> f64 {
    if v == 0. {
        f64::from_bits(1)
    } else if v > 0. {
        f64::from_bits(v.to_bits() + 1)
    } else {
        f64::from_bits(v.to_bits() - 1)
    }
}
pub fn next_down(v: f64) -> f64 {
    -next_up(-v)
}

/// Values worth asking about, per feature.
pub fn values(b: &GradientBooster, d: &D, f: usize, missing: f64) -> Vec<f64> {
    let mut v: Vec<f64> = vec![missing, f64::INFINITY, f64::NEG_INFINITY, 0.];
    for t in &b.trees {
        for n in &t.nodes {
            if !n.is_leaf && n.split_feature == f {
                v.push(n.split_value);
                v.push(n.split_value);
                v.push(next_up(n.split_value));
                v.push(next_down(n.split_value));
            }
        }
    }
    for r in 0..d.rows.min(12) {
        v.push(d.at(r, f));
    }
    v.retain(|x| !x.is_nan() || missing.is_nan());
    v
}

/// Parse the text dump of a tree (the format shown by Tree's Display).
pub fn parse_text(s: &str) -> Option<Value> {
    let mut out = vec![];
    for line in s.lines() {
        if line.trim().is_empty() {
            continue;
        }
        let body = line.trim_start();
        let ind = line.len() - body.len();
        let (n, rest) = body.split_once(':')?;
        let n: usize = n.parse().ok()?;
        let d = if ind % 6 == 0 { ind / 6 } else { 999 };
        if let Some(r) = rest.strip_prefix("leaf=") {
            let (w, c) = r.split_once(",cover=")?;
            out.push(json!({"n": n, "d": d, "leaf": true, "w": n32(w.parse().ok()?), "h": n32(c.parse().ok()?),
                "sf": 0, "sv": num(0.), "sg": num(0.), "l": 0, "r": 0, "m": 0}));
        } else {
            let r = rest.strip_prefix('[')?;
            let (f, r) = r.split_once(" < ")?;
            let (v, r) = r.split_once("] yes=")?;
            let (l, r) = r.split_once(",no=")?;
            let (rr, r) = r.split_once(",missing=")?;
            let (m, r) = r.split_once(",gain=")?;
            let (g, c) = r.split_once(",cover=")?;
            out.push(json!({"n": n, "d": d, "leaf": false, "w": num(0.), "h": n32(c.parse().ok()?),
                "sf": f.parse::<usize>().ok()?, "sv": num(v.parse().ok()?), "sg": n32(g.parse().ok()?),
                "l": l.parse::<usize>().ok()?, "r": rr.parse::<usize>().ok()?, "m": m.parse::<usize>().ok()?}));
        }
    }
    Some(Value::Array(out))
}

fn f(v: &Value) -> f64 {
    match v.as_str() {
        Some(t) => t.parse().unwrap_or(f64::NAN),
        None => v.as_f64().unwrap_or(f64::NAN),
    }
}
/// The trees of a JSON dump.
pub fn parse_json(s: &str) -> Option<Value> {
    let j: Value = serde_json::from_str(s).ok()?;
    let mut ts = vec![];
    for t in j["trees"].as_array()? {
        let mut out = vec![];
        for n in t["nodes"].as_array()? {
            out.push(json!({"n": n["num"], "d": n["depth"], "leaf": n["is_leaf"],
                "w": n32(f(&n["weight_value"]) as f32), "h": n32(f(&n["hessian_sum"]) as f32),
                "sf": n["split_feature"], "sv": num(f(&n["split_value"])), "sg": n32(f(&n["split_gain"]) as f32),
                "l": n["left_child"], "r": n["right_child"], "m": n["missing_node"]}));
        }
        ts.push(Value::Array(out));
    }
    Some(Value::Array(ts))
}

pub fn mat(rows: &[Vec<f64>], cols: usize) -> Vec<f64> {
    let mut x = Vec::with_capacity(rows.len() * cols);
    for c in 0..cols {
        for r in rows {
            x.push(r[c]);
        }
    }
    x
}

fn record(mut b: GradientBooster, d: D, p: P, seed: u64) -> Value {
    let mut r = StdRng::seed_from_u64(seed ^ 0x5eed);
    let cols = d.cols;
    let nt = b.trees.len();
    let pi: i64 = if chance(&mut r, 0.5) { -1 } else { r.gen_range(0..=nt) as i64 };
    // the field is the number of trees; the builder method takes the last iteration's index
    if pi > 0 && chance(&mut r, 0.5) {
        b = b.set_prediction_iteration(Some(pi as usize - 1));
    } else if pi >= 0 {
        b.prediction_iteration = Some(pi as usize);
    }
    let vals: Vec<Vec<f64>> = (0..cols).map(|c| values(&b, &d, c, p.missing)).collect();
    let n = r.gen_range(1..12);
    let mut q: Vec<Vec<f64>> = Vec::new();
    for k in 0..n {
        q.push(if k < 3 && k < d.rows {
            (0..cols).map(|c| d.at(k, c)).collect()
        } else {
            (0..cols).map(|c| vals[c][r.gen_range(0..vals[c].len())]).collect()
        });
    }
    let x = mat(&q, cols);
    let m = Matrix::new(&x, n, cols);
    // predictions
    let mut preds = vec![
        json!({"how": "sequential", "v": nums(&b.predict(&m, false))}),
        json!({"how": "parallel", "v": nums(&b.predict(&m, true))}),
    ];
    let rev: Vec<Vec<f64>> = q.iter().rev().cloned().collect();
    let xr = mat(&rev, cols);
    let mut pr = b.predict(&Matrix::new(&xr, n, cols), chance(&mut r, 0.5));
    pr.reverse();
    preds.push(json!({"how": "rows reversed", "v": nums(&pr)}));
    let single: Vec<f64> = q.iter().map(|row| b.predict(&Matrix::new(row, 1, cols), true)[0]).collect();
    preds.push(json!({"how": "one row at a time", "v": nums(&single)}));
    // many copies of the rows: report the last one, and the first that is not like it
    let copies: usize = if chance(&mut r, 0.01) {
        66000 / n + 1
    } else if chance(&mut r, 0.3) {
        5000 / n
    } else {
        70
    };
    let big: Vec<Vec<f64>> = (0..copies).flat_map(|_| q.iter().cloned()).collect();
    let xb = mat(&big, cols);
    let mb = Matrix::new(&xb, big.len(), cols);
    for (how, par) in [("copy in a long batch", true), ("copy in a long sequential batch", false)] {
        let pb = b.predict(&mb, par);
        let last = &pb[(copies - 1) * n..];
        preds.push(json!({"how": how, "v": nums(last)}));
        if let Some(c) = pb.chunks(n).find(|c| c.iter().zip(last).any(|(a, b)| a.to_bits() != b.to_bits())) {
            preds.push(json!({"how": how, "v": nums(c)}));
        }
    }
    let dump = b.json_dump().unwrap_or_default();
    // contributions
    let mut contribs = vec![];
    for meth in METHODS {
        if meth == "ProbabilityChange" && p.obj != "LogLoss" {
            continue;
        }
        let par = chance(&mut r, 0.5);
        contribs.push(json!({"how": meth, "v": nums(&b.predict_contributions(&m, method_of(meth), par))}));
    }
    // one method on the long batch as well
    let meth = pick(&mut r, &METHODS);
    if (copies * n < 1000 || (copies * n < 6000 && nt < 20 && chance(&mut r, 0.1))) && !(meth == "ProbabilityChange" && p.obj != "LogLoss") {
        let cb = b.predict_contributions(&mb, method_of(meth), chance(&mut r, 0.5));
        contribs.push(json!({"how": meth, "v": nums(&cb[cb.len() - (n * (cols + 1)).min(cb.len())..])}));
    }
    // leaf indices come tree by tree
    let lb = b.predict_leaf_indices(&mb);
    let leavesb: Vec<usize> = lb.chunks(copies * n).flat_map(|t| t[t.len() - n.min(t.len())..].to_vec()).collect();
    // partial dependence
    let mut pd = vec![];
    for c in 0..cols {
        for k in 0..5 {
            let at = if k == 0 { p.missing } else { vals[c][r.gen_range(0..vals[c].len())] };
            pd.push(json!({"f": c, "at": num(at), "v": num(b.value_partial_dependence(c, at))}));
        }
    }
    let mut imp = vec![];
    for how in ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"] {
        for norm in [false, true] {
            let mut v: Vec<(usize, f32)> = b.calculate_feature_importance(imp_of(how), norm).into_iter().collect();
            v.sort_by_key(|e| e.0);
            let v: Vec<Value> = v.iter().map(|(f, x)| json!([f, n32(*x)])).collect();
            imp.push(json!({"how": how, "norm": norm, "v": v}));
        }
    }
    let text: Vec<Value> = b.trees.iter().map(|t| parse_text(&format!("{}", t)).unwrap_or(json!([]))).collect();
    let reps = vec![
        json!({"how": "text", "weights": false, "trees": text}),
        json!({"how": "json", "weights": true, "trees": parse_json(&dump).unwrap_or(json!([]))}),
    ];
    let mut stray = vec![];
    if !p.missing.is_nan() {
        for _ in 0..4 {
            let mut row: Vec<f64> = (0..cols).map(|c| vals[c][r.gen_range(0..vals[c].len())]).collect();
            for v in row.iter_mut() {
                if chance(&mut r, 0.4) {
                    *v = f64::NAN;
                }
            }
            let m = Matrix::new(&row, 1, cols);
            let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.predict(&m, false)[0]));
            stray.push(match o {
                Ok(v) => json!({"row": nums(&row), "st": "ok", "v": num(v)}),
                Err(_) => json!({"row": nums(&row), "st": "panic", "v": num(0.)}),
            });
        }
    }
    json!({
        "st": "ok", "cfg": p.json(cols), "base": num(b.base_score), "pi": pi, "trees": trees_json(&b),
        "x": xjson(&x, n, cols), "preds": preds, "leaves": b.predict_leaf_indices(&m), "leavesb": leavesb, "contribs": contribs,
        "pd": pd, "imp": imp, "reps": reps, "stray": stray
    })
}

pub fn run(seed: u64, n: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for i in 0..n {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let v = guarded(60, move || {
            let mut r = StdRng::seed_from_u64(s);
            let m = if i % 2 == 0 { fitted(&mut r) } else { synthetic(&mut r) };
            match m {
                Ok((b, d, p)) => record(b, d, p, s),
                Err(e) => json!({"st": format!("error: {}", e)}),
            }
        });
        let v = match v {
            Out::Ok(v) => v,
            o => json!({"st": o.st()}),
        };
        writeln!(o, "{}", v).unwrap();
    }
}
