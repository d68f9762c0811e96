//! Complete sweeps of constrained features over fitted models, for TraceMono.tla.
use crate::gen::{self, Emph};
use crate::usage::{mat, next_down};
use crate::util::*;
use forust_ml::Matrix;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::io::Write;

fn one(s: u64, i: usize, cells: usize) -> Value {
    let mut r = StdRng::seed_from_u64(s);
    let e = if i % 2 == 0 { Emph::MonoDeep } else { Emph::Mono };
    let (mut d, mut p, _) = gen::case(&mut r, e, false);
    // few columns keep the grid complete
    let keep = d.cols.min(r.gen_range(1..4));
    d.x.truncate(keep * d.rows);
    d.cols = keep;
    p.con.truncate(keep);
    p.term.retain(|c| *c < keep);
    if p.con.iter().all(|c| *c != 1 && *c != -1) {
        p.con[0] = pick(&mut r, &[1, -1]);
    }
    p.iters = r.gen_range(1..4);
    p.cs = pick(&mut r, &[1., 1., 1., 0.7]);
    if p.mlw > 0.5 && chance(&mut r, 0.5) {
        p.mlw = 0.5;
    }
    if chance(&mut r, 0.75) {
        // a target that follows the constraints on average but interacts and fluctuates, so that
        // trees go deep and the bounds bind
        p.gamma = 0.;
        p.l1 = pick(&mut r, &[0., 0., 0., 0.25]);
        p.md = r.gen_range(2..7);
        p.mlw = if p.obj == "LogLoss" { 0.1 } else { 1. };
        if p.sm == "None" {
            d.rows = r.gen_range(15..60);
            d.x = vec![];
            for _ in 0..keep {
                let k = pick(&mut r, &[0, 1, 1, 2, 3, 5, 7]);
                let mut c = gen::column(&mut r, d.rows, k);
                let rate = pick(&mut r, &[0., 0., 0.2, 0.4]);
                for v in c.iter_mut() {
                    if chance(&mut r, rate) {
                        *v = p.missing;
                    }
                }
                d.x.extend(c);
            }
            d.w = (0..d.rows).map(|_| pick(&mut r, &[1., 1., 2., 0.5])).collect();
        }
        let noise = pick(&mut r, &[0.3, 1., 3.]);
        let mut score = vec![0f64; d.rows];
        for c in 0..keep {
            let mut col: Vec<f64> = (0..d.rows).map(|i| d.at(i, c)).collect();
            col.retain(|v| !v.is_nan() && *v != p.missing);
            col.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let sign = p.con[c] as f64;
            for i in 0..d.rows {
                let v = d.at(i, c);
                if v.is_nan() || v == p.missing {
                    score[i] += pick(&mut r, &[-1., 0., 1.]);
                } else {
                    let rank = col.partition_point(|u| *u < v) as f64 / col.len() as f64 - 0.5;
                    score[i] += if sign.abs() == 1. { sign * rank * 3. } else { (rank * 9.).sin() };
                    if c > 0 && rank > 0. {
                        score[i] *= -0.5;
                    }
                }
            }
        }
        d.y = score.iter().map(|v| {
            let t = v + noise * (r.gen::<f64>() - 0.5);
            if p.obj == "LogLoss" { (t > 0.) as i32 as f64 } else { t }
        }).collect();
        p.ibs = p.obj != "LogLoss" && p.ibs;
    }
    let cols = d.cols;
    let head = json!({"cfg": p.json(cols)});
    let mut b = match p.build() {
        Ok(b) => b,
        Err(e) => return json!({"st": e, "cfg": head["cfg"]}),
    };
    if let Err(e) = b.fit(&d.m(), &d.y, &d.w, None) {
        return json!({"st": e.to_string(), "cfg": head["cfg"]});
    }
    // every interval of every feature between thresholds, plus missing
    let mut grid: Vec<Vec<f64>> = vec![];
    for f in 0..cols {
        let mut t: Vec<f64> = b.trees.iter().flat_map(|t| t.nodes.iter())
            .filter(|n| !n.is_leaf && n.split_feature == f).map(|n| n.split_value)
            .filter(|v| *v != p.missing).collect();
        t.sort_by(|a, b| a.partial_cmp(b).unwrap());
        t.dedup();
        let mut g = vec![];
        if let Some(v) = t.first() {
            let mut u = next_down(*v);
            if u == p.missing {
                u = next_down(u);
            }
            g.push(u);
        } else {
            g.push(if p.missing == 0. { 1. } else { 0. });
        }
        // a threshold equal to the missing marker is met by larger values only
        for n in b.trees.iter().flat_map(|t| t.nodes.iter()) {
            if !n.is_leaf && n.split_feature == f && n.split_value == p.missing {
                t.push(crate::usage::next_up(p.missing));
            }
        }
        t.sort_by(|a, b| a.partial_cmp(b).unwrap());
        t.dedup();
        g.extend(t);
        grid.push(g);
    }
    let mut sweeps = vec![];
    let mut full = true;
    for f in 0..cols {
        if p.con[f] != 1 && p.con[f] != -1 {
            continue;
        }
        let others: Vec<usize> = (0..cols).filter(|c| *c != f).collect();
        let total: usize = others.iter().map(|c| grid[*c].len() + 1).product();
        let n = total.min((cells / grid[f].len()).max(1));
        full &= n == total;
        let mut rows: Vec<Vec<f64>> = vec![];
        for k in 0..n {
            let mut k = if n == total { k } else { r.gen_range(0..total) };
            let mut row = vec![0.; cols];
            for c in &others {
                let m = grid[*c].len() + 1;
                let j = k % m;
                k /= m;
                row[*c] = if j == 0 { p.missing } else { grid[*c][j - 1] };
            }
            for v in &grid[f] {
                let mut q = row.clone();
                q[f] = *v;
                rows.push(q);
            }
        }
        let x = mat(&rows, cols);
        let pr = b.predict(&Matrix::new(&x, rows.len(), cols), p.parallel);
        for (k, c) in pr.chunks(grid[f].len()).enumerate() {
            sweeps.push(json!({"f": f, "ctx": nums(&rows[k * grid[f].len()]), "v": nums(c)}));
        }
    }
    json!({
        "st": "ok", "cfg": head["cfg"], "base": num(b.base_score), "trees": trees_json(&b), "full": full,
        "grid": grid.iter().map(|g| nums(g)).collect::<Vec<_>>(), "sweeps": sweeps,
        "rows": int(d.rows)
    })
}

pub fn run(seed: u64, n: usize, cells: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for i in 0..n {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let v = match guarded(60, move || one(s, i, cells)) {
            Out::Ok(v) => v,
            o => json!({"st": o.st()}),
        };
        writeln!(o, "{}", v).unwrap();
    }
}
