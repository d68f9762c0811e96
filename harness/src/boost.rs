//! Fits with evaluation sets (TraceBoost.tla) and direct calls of metrics and objectives (TraceObj.tla).
use crate::gen::{self, Emph};
use crate::util::*;
use forust_ml::metric::{is_comparison_better, metric_callables};
use forust_ml::objective::{calc_init_callables, gradient_hessian_callables};
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::io::Write;

pub fn history(b: &forust_ml::GradientBooster) -> Value {
    match &b.evaluation_history {
        None => json!([]),
        Some(h) => Value::Array(
            (0..h.rows).map(|i| Value::Array((0..h.cols).map(|j| num(*h.get(i, j))).collect())).collect(),
        ),
    }
}

pub fn evals(r: &mut StdRng, d: &D, p: &P) -> Vec<D> {
    let n = pick(r, &[0, 1, 1, 1, 2, 2, 3]);
    let mut out = vec![];
    for _ in 0..n {
        let k = r.gen_range(1..12);
        let rows: Vec<usize> = (0..k).map(|_| r.gen_range(0..d.rows)).collect();
        let mut e = d.take(&rows);
        let binary = p.obj == "LogLoss" || matches!(p.metric, Some("AUC") | Some("LogLoss"));
        let mode = r.gen_range(0..6);
        for y in e.y.iter_mut() {
            let flip = match mode {
                0 => 0.5,
                1 => 1.0,
                2 => 0.2,
                _ => 0.,
            };
            if binary {
                if chance(r, flip) {
                    *y = 1. - *y;
                }
                if mode == 4 {
                    *y = 1.;
                }
            } else {
                if chance(r, flip) {
                    *y = -*y;
                }
                if p.metric != Some("RootMeanSquaredError") && chance(r, 0.9) {
                    *y = y.abs();
                }
            }
        }
        if chance(r, 0.4) {
            for w in e.w.iter_mut() {
                *w = pick(r, &[0., 1., 0.5, 3.]);
            }
        }
        out.push(e);
    }
    out
}

pub fn boost_case(r: &mut StdRng) -> (D, P, Vec<D>) {
    let e = pick(r, &[Emph::General, Emph::Missing, Emph::Exact, Emph::Mono, Emph::Cols]);
    let (mut d, mut p, _) = gen::case(r, e, false);
    p.iters = pick(r, &[0, 1, 2, 4, 8, 12, 20]);
    p.lr = pick(r, &[0.3, 1., 1., 1.5]);
    p.md = pick(r, &[1, 2, 3]);
    p.metric = pick(r, &[None, Some("AUC"), Some("AUC"), Some("LogLoss"), Some("RootMeanSquaredError"), Some("RootMeanSquaredLogError")]);
    if matches!(p.metric, Some("AUC") | Some("LogLoss")) && p.obj != "LogLoss" {
        for y in d.y.iter_mut() {
            *y = (*y > 0.) as i32 as f64;
        }
    }
    p.esr = pick(r, &[None, Some(0), Some(1), Some(1), Some(2), Some(3), Some(5), Some(100)]);
    p.log = pick(r, &[0, 0, 1, 2]);
    let ev = evals(r, &d, &p);
    (d, p, ev)
}

fn boost_one(s: u64) -> Value {
    let mut r = StdRng::seed_from_u64(s);
    let (d, p, ev) = boost_case(&mut r);
    let mut b = match p.build() {
        Ok(b) => b,
        Err(e) => return json!({"st": e}),
    };
    // sometimes the booster has a past
    if chance(&mut r, 0.2) {
        let _ = b.fit(&d.m(), &d.y, &d.w, Some(vec![(d.m(), &d.y, &d.w)]));
        b.base_score = p.base;
    }
    let ed = if ev.is_empty() && chance(&mut r, 0.5) {
        None
    } else {
        Some(ev.iter().map(|e| (e.m(), e.y.as_slice(), e.w.as_slice())).collect())
    };
    if let Err(e) = b.fit(&d.m(), &d.y, &d.w, ed) {
        return json!({"st": e.to_string()});
    }
    let e: Vec<Value> = ev.iter()
        .map(|e| json!({"x": e.xjson(), "y": nums(&e.y), "w": nums(&e.w), "pred": nums(&b.predict(&e.m(), true))}))
        .collect();
    json!({
        "st": "ok", "cfg": p.json(d.cols), "base": num(b.base_score), "trees": trees_json(&b), "evals": e,
        "hist": history(&b), "best": b.best_iteration.map(|v| v as i64).unwrap_or(-1),
        "pi": b.prediction_iteration.map(|v| v as i64).unwrap_or(-1)
    })
}

pub fn run(seed: u64, n: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for i in 0..n {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let v = match guarded(60, move || boost_one(s)) {
            Out::Ok(v) => v,
            o => json!({"st": o.st()}),
        };
        writeln!(o, "{}", v).unwrap();
    }
}

fn scores(r: &mut StdRng, n: usize) -> Vec<f64> {
    match r.gen_range(0..5) {
        0 => (0..n).map(|_| r.gen_range(-3..4) as f64 / 2.).collect(),
        1 => (0..n).map(|_| (r.gen::<f64>() - 0.5) * 8.).collect(),
        2 => (0..n).map(|_| (r.gen::<f64>() - 0.5) * 120.).collect(),
        3 => {
            let c = r.gen_range(-2..3) as f64;
            vec![c; n]
        }
        _ => (0..n).map(|_| pick(r, &[-0., 0., 1e-300, 36., 40., -40., 800., -800., 1., -1.])).collect(),
    }
}

fn obj_one(s: u64, i: usize) -> Value {
    let mut r = StdRng::seed_from_u64(s);
    let n = r.gen_range(1..if i % 10 == 0 { 40 } else { 14 });
    let w: Vec<f64> = match r.gen_range(0..4) {
        0 => vec![1.; n],
        1 => (0..n).map(|_| pick(&mut r, &[0., 1., 2., 0.5])).collect(),
        2 => (0..n).map(|_| r.gen::<f64>() * 3.).collect(),
        _ => (0..n).map(|_| pick(&mut r, &[0., 0., 1.])).collect(),
    };
    let ones = pick(&mut r, &[0.5, 0.5, 0.1, 0.9, 0., 1.]);
    let bin: Vec<f64> = (0..n).map(|_| chance(&mut r, ones) as i32 as f64).collect();
    let real: Vec<f64> = match r.gen_range(0..3) {
        0 => (0..n).map(|_| r.gen_range(0..9) as f64).collect(),
        1 => (0..n).map(|_| r.gen::<f64>() * 100.).collect(),
        _ => (0..n).map(|_| (r.gen::<f64>() - 0.4) * 20.).collect(),
    };
    match i % 4 {
        0 | 1 => {
            let name = pick(&mut r, &["AUC", "AUC", "LogLoss", "RootMeanSquaredError", "RootMeanSquaredLogError"]);
            let y = if name == "AUC" || name == "LogLoss" { bin } else { real };
            let s = scores(&mut r, n);
            let (f, max) = metric_callables(&metric_of(name));
            let mut k: Vec<usize> = (0..n).collect();
            gen::shuffle(&mut r, &mut k);
            let t = |v: &[f64]| k.iter().map(|i| v[*i]).collect::<Vec<f64>>();
            json!({"kind": "metric", "name": name, "y": nums(&y), "s": nums(&s), "w": nums(&w), "v": num(f(&y, &s, &w)),
                   "shuffled": num(f(&t(&y), &t(&s), &t(&w))), "max": max})
        }
        2 => {
            let obj = pick(&mut r, &["LogLoss", "SquaredLoss"]);
            let y = if obj == "LogLoss" { bin } else { real };
            let s = scores(&mut r, n);
            let (g, h) = gradient_hessian_callables(&obj_of(obj))(&y, &s, &w);
            let f = |v: &[f32]| Value::Array(v.iter().map(|x| n32(*x)).collect());
            json!({"kind": "obj", "obj": obj, "y": nums(&y), "s": nums(&s), "w": nums(&w), "g": f(&g), "h": f(&h),
                   "init": num(calc_init_callables(&obj_of(obj))(&y, &w))})
        }
        _ => {
            if chance(&mut r, 0.3) {
                let v = [f64::NAN, 0., -0., 1., 1.0000000000000002, -1., f64::INFINITY, f64::NEG_INFINITY];
                let (a, b, max) = (pick(&mut r, &v), pick(&mut r, &v), chance(&mut r, 0.5));
                return json!({"kind": "cmp", "a": num(a), "b": num(b), "max": max, "v": is_comparison_better(a, b, max)});
            }
            // a fit whose single tree is a lone root
            let mut p = P { ..Default::default() };
            p.obj = pick(&mut r, &["LogLoss", "SquaredLoss"]);
            let mut y = if p.obj == "LogLoss" { bin } else { real };
            let w: Vec<f64> = w.iter().map(|v| v + 0.25).collect();
            if p.obj == "LogLoss" && n > 1 {
                y[0] = 0.;
                y[1] = 1.;
            }
            p.ibs = chance(&mut r, 0.6) && (n > 1 || p.obj != "LogLoss");
            p.base = pick(&mut r, &[0.5, 0., -2., 3., 1e-5]);
            p.lr = 1.;
            p.md = 0;
            p.iters = 1;
            p.metric = if p.obj == "LogLoss" {
                pick(&mut r, &[None, Some("AUC"), Some("LogLoss"), Some("RootMeanSquaredError")])
            } else {
                pick(&mut r, &[None, Some("RootMeanSquaredError"), Some("RootMeanSquaredLogError")])
            };
            let x: Vec<f64> = (0..n).map(|i| i as f64).collect();
            let d = D { rows: n, cols: 1, x, y, w };
            let (mut st, mut base, mut t0, mut m) = ("ok".to_string(), 0., 0., 0.);
            match p.build() {
                Err(e) => st = e,
                Ok(mut b) => match b.fit(&d.m(), &d.y, &d.w, Some(vec![(d.m(), &d.y, &d.w)])) {
                    Err(e) => st = e.to_string(),
                    Ok(_) => {
                        base = b.base_score;
                        t0 = b.trees[0].nodes[0].weight_value as f64;
                        m = *b.evaluation_history.as_ref().unwrap().get(0, 0);
                    }
                },
            }
            json!({"kind": "fit", "st": st, "obj": p.obj, "ibs": p.ibs, "given": num(p.base), "base": num(base),
                   "tree0": num(t0), "m": num(m), "metric": p.metric.unwrap_or("default"), "y": nums(&d.y), "w": nums(&d.w)})
        }
    }
}

pub fn run_obj(seed: u64, n: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for i in 0..n {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let v = match guarded(60, move || obj_one(s, i)) {
            Out::Ok(v) => v,
            o => json!({"kind": "fit", "st": o.st()}),
        };
        writeln!(o, "{}", v).unwrap();
    }
}
