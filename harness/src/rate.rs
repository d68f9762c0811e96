//! Long training runs whose trees tell which rows and columns each of them was given (TraceRate.tla).
use crate::util::*;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::Write;

fn base() -> P {
    P {
        obj: "SquaredLoss",
        lr: 2f32.powi(-34),
        l2: 0.,
        mlw: 0.,
        base: 0.,
        ibs: false,
        missing: f64::NAN,
        ..P::default()
    }
}

/// Rows of weight 2^0, 2^1, ... and absolute gradients 1, 2, ... in some order; the cover of a root names its rows.
fn rows(r: &mut StdRng, goss: bool, trees: usize) -> (D, P, &'static str, Vec<usize>) {
    let n = if goss { pick(r, &[8, 16]) } else { r.gen_range(5..15) };
    let mut mag: Vec<usize> = (1..=n).collect();
    mag.shuffle(r);
    let w: Vec<f64> = (0..n).map(|i| 2f64.powi(i as i32)).collect();
    let y = (0..n).map(|i| mag[i] as f64 / w[i] * if chance(r, 0.5) { -1. } else { 1. }).collect();
    let x = (0..n).map(|i| (i % 3) as f64).collect();
    let mut p = P { iters: trees, md: pick(r, &[1, 2]), seed: r.gen_range(0..1000), ..base() };
    if goss {
        p.sm = "Goss";
        // scale factors that are powers of two
        let few = if n == 16 { 0.0625 } else { 0.125 };
        let (a, b) = pick(r, &[(0.5, few), (0.5, 0.25), (0.25, 0.375), (0.75, 0.125), (0.5, 0.125)]);
        p.top = a;
        p.other = b;
    } else {
        p.sm = "Random";
        p.subsample = pick(r, &[0.1, 0.25, 0.5, 0.7, 0.9]);
    }
    (D { rows: n, cols: 1, x, y, w }, p, if goss { "goss" } else { "rows" }, mag)
}

/// A full factorial design with additive effects: a tree of full depth splits on every column it may use.
fn cols(r: &mut StdRng, trees: usize) -> (D, P, &'static str, Vec<usize>) {
    let k = r.gen_range(2..6);
    let n = 1usize << k;
    let mut eff: Vec<f64> = (0..k).map(|i| 2f64.powi(i as i32)).collect();
    eff.shuffle(r);
    let mut x = vec![];
    for c in 0..k {
        for i in 0..n {
            x.push(((i >> c) & 1) as f64);
        }
    }
    let y = (0..n).map(|i| (0..k).map(|c| eff[c] * ((i >> c) & 1) as f64).sum()).collect();
    let take = r.gen_range(1..k) as f64;
    let cs = (take + pick(r, &[0., 0.3, 0.9])) / k as f64;
    let p = P {
        iters: trees,
        md: k,
        cs,
        parallel: chance(r, 0.5),
        gp: pick(r, &["DepthWise", "LossGuide"]),
        seed: r.gen_range(0..1000),
        ..base()
    };
    (D { rows: n, cols: k, x, y, w: vec![1.; n] }, p, "cols", vec![])
}

fn seen(d: &D, p: &P, kind: &str) -> Result<Value, String> {
    let mut b = p.build().map_err(|e| format!("error: {}", e))?;
    b.fit(&d.m(), &d.y, &d.w, None).map_err(|e| format!("error: {}", e))?;
    Ok(Value::Array(
        b.trees
            .iter()
            .map(|t| {
                if kind == "cols" {
                    let s: BTreeSet<usize> = t.nodes.iter().filter(|n| !n.is_leaf).map(|n| n.split_feature + 1).collect();
                    json!(s.into_iter().collect::<Vec<_>>())
                } else {
                    n32(t.nodes[0].hessian_sum)
                }
            })
            .collect(),
    ))
}

pub fn run(seed: u64, n: usize, trees: usize, out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for i in 0..n {
        let mut r = StdRng::seed_from_u64(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
        let (d, p, kind, mag) = match i % 3 {
            0 => rows(&mut r, false, trees),
            1 => rows(&mut r, true, trees),
            _ => cols(&mut r, trees),
        };
        let (d1, p1) = (d.clone(), p.clone());
        let o = guarded(120, move || {
            let mut p2 = p1.clone();
            p2.seed += 1;
            Ok::<_, String>((seen(&d1, &p1, kind)?, seen(&d1, &p2, kind)?))
        });
        let st = match &o {
            Out::Ok(Err(e)) => e.clone(),
            o => o.st(),
        };
        let (a, b) = match o {
            Out::Ok(Ok(v)) => v,
            _ => (json!([]), json!([])),
        };
        let v = json!({"st": st, "kind": kind, "cfg": p.json(d.cols), "n": d.rows, "k": d.cols, "mag": mag, "a": a, "b": b});
        writeln!(f, "{}", v).unwrap();
    }
}
