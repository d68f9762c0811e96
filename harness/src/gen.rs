//! Random data sets and configurations.
use crate::util::*;
use rand::rngs::StdRng;
use rand::Rng;

/// What a generated case should emphasise.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Emph {
    General,
    Exact,     // small dyadic numbers: every sum exact in binary32
    Mono,      // monotone constraints
    MonoDeep,  // several constraints, deep trees
    Missing,   // lots of missing values, ternary trees
    Bins,      // more distinct values than bins
    Order,     // leaf limits and growth policies
    Sample,    // decodable row samples
    Cols,      // column sampling
    Zero,      // no minimum leaf weight, deep trees: splits down to rounding residue
    Wide,      // more than 256 distinct values and bins
    Heavy,     // a minimum leaf weight that missing rows decide about
    Huge,      // thousands of rows
    ManyCols,  // more columns than fit a machine word or a byte
    Extreme,   // the largest, smallest and infinite numbers as feature values
    Large,     // more rows than the vectorised lanes, several hundred
    Degenerate // single rows, constant or all-missing columns, zero weights
}

pub fn column(r: &mut StdRng, n: usize, kind: usize) -> Vec<f64> {
    match kind {
        0 => (0..n).map(|_| r.gen_range(0..4) as f64).collect(),
        1 => (0..n).map(|_| r.gen_range(-40..40) as f64 / 8.).collect(),
        2 => (0..n).map(|_| r.gen_range(0..2) as f64).collect(),
        3 => (0..n).map(|_| (r.gen::<f64>() - 0.3) * 100.).collect(),
        4 => {
            let c = r.gen_range(-3..3) as f64;
            vec![c; n]
        }
        5 => (0..n).map(|i| i as f64).collect(),
        6 => (0..n).map(|_| pick(r, &[-1e30, -1e-30, 0., 1e-300, 1., 1.0000000000000002, 1e15, 1e300])).collect(),
        7 => (0..n).map(|_| if r.gen_bool(0.8) { 0. } else { r.gen_range(1..30) as f64 }).collect(),
        8 => (0..n).map(|_| f64::NAN).collect(),
        10 => (0..n).map(|_| pick(r, &[f64::MIN, -1e308, -5e-324, 0., 5e-324, f64::MIN_POSITIVE, 9007199254740992., 9007199254740994., 1.7e308, f64::MAX])).collect(),
        11 => (0..n).map(|_| pick(r, &[f64::NEG_INFINITY, f64::MIN, -1., 0., 1., 3e9, 5e9])).collect(),
        12 => (0..n).map(|_| pick(r, &[-1., 0., 1., 3e9, f64::MAX, f64::INFINITY, f64::INFINITY])).collect(),
        _ => (0..n).map(|_| pick(r, &[-0.0, 0.0, -1.0, 1.0, 2.0])).collect(),
    }
}

/// (data, parameters, row sample decodable)
pub fn case(r: &mut StdRng, e: Emph, big: bool) -> (D, P, bool) {
    use Emph::*;
    let rows = match e {
        Degenerate => r.gen_range(1..8),
        Large => {
            if big {
                r.gen_range(200..1500)
            } else {
                r.gen_range(100..400)
            }
        }
        Huge => r.gen_range(1500..6000),
        Sample => r.gen_range(6..13),
        Wide => r.gen_range(280..620),
        Heavy => r.gen_range(5..11),
        ManyCols => r.gen_range(6..15),
        _ => r.gen_range(5..if big { 60 } else { 36 }),
    };
    let cols = match e {
        Cols => r.gen_range(2..6),
        Large | Huge => r.gen_range(1..4),
        Wide | Heavy => r.gen_range(1..3),
        ManyCols => pick(r, &[60, 66, 70, 130, 260, 300]),
        _ => r.gen_range(1..5),
    };
    let mut p = P { ..Default::default() };
    p.obj = if matches!(e, Exact | Sample | Heavy) { "SquaredLoss" } else { pick(r, &["LogLoss", "SquaredLoss"]) };
    p.iters = r.gen_range(1..4);
    p.missing = pick(r, &[f64::NAN, f64::NAN, f64::NAN, -999., 0.]);
    if e == Extreme && chance(r, 0.3) {
        p.missing = pick(r, &[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN]);
    }
    if e == Large || e == Wide || e == Huge {
        p.iters = r.gen_range(1..3);
    }
    let mrate = match e {
        Missing => pick(r, &[0.15, 0.4, 0.7]),
        Heavy => pick(r, &[0.3, 0.5]),
        _ => pick(r, &[0., 0., 0.1, 0.3]),
    };
    let mut x = Vec::new();
    let mut cs: Vec<Vec<f64>> = Vec::new();
    for _ in 0..cols {
        let kind = match e {
            Bins => pick(r, &[1, 3, 5, 7]),
            Degenerate => r.gen_range(0..10),
            Large | Huge => pick(r, &[0, 1, 3, 3, 5, 7]),
            Wide => pick(r, &[3, 5, 5]),
            Heavy => pick(r, &[0, 1, 5]),
            ManyCols => pick(r, &[0, 1, 2, 2, 4]),
            Extreme => pick(r, &[6, 10, 10, 11, 12, 0]),
            _ => pick(r, &[0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 9]),
        };
        let mut c = column(r, rows, kind);
        let rate = if chance(r, 0.3) { 0. } else { mrate };
        for v in c.iter_mut() {
            if v.is_nan() || r.gen_bool(rate) {
                *v = p.missing;
            }
        }
        cs.push(c);
    }
    // target: a few rules on the features plus noise
    let mut score = vec![0f64; rows];
    // of many columns only a few count
    let hot: Vec<usize> = (0..3).map(|_| r.gen_range(0..cols)).collect();
    for (ci, c) in cs.iter().enumerate() {
        let k = if e == ManyCols && !hot.contains(&ci) { 2 } else { r.gen_range(0..4) };
        let a = r.gen_range(-8..9) as f64 / 4.;
        let pivot = c[r.gen_range(0..rows)];
        for i in 0..rows {
            let miss = c[i].is_nan() || c[i] == p.missing;
            score[i] += match k {
                0 => a * ((!miss && c[i] < pivot) as i32 as f64),
                1 => a * (miss as i32 as f64),
                2 => 0.,
                _ => a * (if miss { 0.5 } else { (c[i] > pivot) as i32 as f64 + (c[i] > pivot * 1.5) as i32 as f64 }),
            };
        }
    }
    if e == Wide {
        // a step at any rank, high ones too
        let mut v: Vec<f64> = cs[0].iter().copied().filter(|v| !v.is_nan() && *v != p.missing).collect();
        v.sort_by(|a, b| a.total_cmp(b));
        let at = v[r.gen_range(v.len() / 3..v.len())];
        for i in 0..rows {
            score[i] += 4. * (cs[0][i] >= at) as i32 as f64;
        }
    }
    for s in score.iter_mut() {
        *s += r.gen_range(-8..9) as f64 / 8.;
    }
    let fine = !matches!(e, Exact | Sample | Heavy) && chance(r, 0.5);
    let y: Vec<f64> = score
        .iter()
        .map(|s| {
            if p.obj == "LogLoss" {
                if *s > 0. {
                    1.
                } else {
                    0.
                }
            } else if fine {
                s + r.gen::<f64>()
            } else {
                *s
            }
        })
        .collect();
    let wk = if e == Exact || e == Heavy { pick(r, &[0, 0, 1]) } else { pick(r, &[0, 0, 0, 1, 2, 3]) };
    let mut w: Vec<f64> = (0..rows)
        .map(|_| match wk {
            0 => 1.,
            1 => r.gen_range(1..5) as f64,
            2 => 0.05 + r.gen::<f64>() * 3.,
            _ => pick(r, &[0., 1., 2.]),
        })
        .collect();
    if w.iter().all(|v| *v == 0.) {
        w[0] = 1.;
    }
    // parameters
    p.lr = pick(r, &[0.3, 1., 0.1, 0.5]);
    p.md = pick(r, &[0, 1, 2, 3, 3, 4, 5]);
    p.ml = pick(r, &[usize::MAX, usize::MAX, 2, 3, 4, 6, 7]);
    p.l1 = pick(r, &[0., 0., 0., 0.25, 1.]);
    p.l2 = pick(r, &[1., 1., 0.5, 4., 0.]);
    p.gamma = pick(r, &[0., 0., 0., 0.125, 1.]);
    p.mds = pick(r, &[0., 0., 0., 0.25, 1.]);
    p.mlw = if p.obj == "LogLoss" { pick(r, &[0.25, 0.5, 1., 0.1, 0.]) } else { pick(r, &[1., 1., 2., 3., 0.5, 0.]) };
    p.base = pick(r, &[0.5, 0., -1., 0.25]);
    p.ibs = !matches!(e, Exact | Sample | Heavy) && chance(r, 0.4);
    if p.obj == "LogLoss" && p.ibs {
        // the log-odds of an all-zero or all-one target is infinite
        let s: f64 = y.iter().zip(&w).map(|(a, b)| a * b).sum();
        let t: f64 = w.iter().sum();
        if s <= 0. || s >= t {
            p.ibs = false;
        }
    }
    p.nbins = match e {
        Bins => pick(r, &[1, 2, 3, 4, 5, 8, 16]),
        Large | Huge => pick(r, &[10, 64, 256, 300]),
        Wide => pick(r, &[257, 300, 400, 1000]),
        _ => pick(r, &[256, 256, 4, 3, 300, 10]),
    };
    p.parallel = chance(r, 0.5);
    p.ams = chance(r, 0.6);
    p.cmb = match e {
        Missing => chance(r, 0.75),
        _ => chance(r, 0.35),
    };
    p.gp = if e == Order { pick(r, &["LossGuide", "LossGuide", "DepthWise"]) } else { pick(r, &["DepthWise", "LossGuide"]) };
    p.mnt = pick(r, &["None", "AssignToParent", "AverageLeafWeight", "AverageNodeWeight"]);
    p.term = (0..cols).filter(|_| r.gen_bool(0.25)).collect();
    p.fcb = p.cmb && chance(r, 0.3);
    p.seed = r.gen_range(0..1000);
    match e {
        Mono | MonoDeep => {
            p.con = (0..cols).map(|_| pick(r, &[1, -1, 0, 1, -1, 2])).collect();
            if e == MonoDeep {
                p.md = pick(r, &[4, 5, 6]);
                p.ml = usize::MAX;
                p.mds = 0.;
                p.mlw = if p.obj == "LogLoss" { 0.1 } else { 1. };
                p.lr = 1.;
            }
        }
        Order => {
            p.ml = pick(r, &[2, 3, 4, 5, 6, 7, 9]);
            p.md = pick(r, &[3, 4, 6, 8]);
            p.gamma = 0.;
            p.mlw = if p.obj == "LogLoss" { 0.1 } else { 1. };
            p.l1 = 0.;
        }
        Zero => {
            p.mlw = 0.;
            p.ml = usize::MAX;
            p.md = pick(r, &[3, 5, 7]);
            p.gamma = 0.;
            if chance(r, 0.4) {
                p.con = (0..cols).map(|_| pick(r, &[1, -1, 0])).collect();
            }
        }
        Cols => p.cs = pick(r, &[0.2, 0.34, 0.5, 0.51, 0.75, 0.99, 1.]),
        Large | Huge => {
            p.md = pick(r, &[2, 3]);
        }
        Wide => {
            p.md = pick(r, &[1, 2]);
            p.cmb = chance(r, 0.3);
        }
        Heavy => {
            p.mlw = pick(r, &[2., 3., 4.]);
            p.ams = chance(r, 0.8);
            p.cmb = chance(r, 0.2);
            p.gamma = 0.;
            p.l1 = 0.;
            p.md = pick(r, &[1, 2, 3]);
            p.iters = r.gen_range(1..3);
        }
        General => {
            if chance(r, 0.25) {
                p.con = (0..cols).map(|_| pick(r, &[1, -1, 0, 0])).collect();
            }
            if chance(r, 0.15) {
                p.cs = pick(r, &[0.5, 0.75]);
            }
        }
        _ => {}
    }
    if e == ManyCols {
        p.md = pick(r, &[1, 2, 3]);
        p.iters = r.gen_range(1..3);
        if chance(r, 0.3) {
            p.con = (0..cols).map(|_| pick(r, &[1, -1, 0, 0])).collect();
        }
    }
    if e == Degenerate {
        p.l2 = pick(r, &[1., 0.5]);
        p.nbins = pick(r, &[256, 1, 2]);
    }
    if p.l2 == 0. && (wk == 3 || e == Large || e == Wide || e == Huge) {
        p.l2 = 1.;
    }
    let mut dec = true;
    if e == Sample {
        // weights that make the sampled rows readable off the root cover
        p.ibs = false;
        if chance(r, 0.5) {
            p.sm = "Random";
            p.subsample = pick(r, &[0., 0.2, 0.5, 0.8, 1.]);
            let mut k: Vec<i32> = (0..rows as i32).collect();
            shuffle(r, &mut k);
            w = k.iter().map(|i| 2f64.powi(*i)).collect();
        } else {
            p.sm = "Goss";
            let four = rows <= 12;
            if four {
                p.top = 0.5;
                p.other = 0.25;
            }
            let mut k: Vec<i32> = (0..rows as i32).collect();
            shuffle(r, &mut k);
            w = k.iter().map(|i| 4f64.powi(*i)).collect();
        }
        p.l2 = 1.;
        p.mlw = pick(r, &[0., 1., 8.]);
        p.iters = r.gen_range(1..5);
    } else if (e == General || e == Mono || e == Missing || e == Large) && chance(r, 0.12) {
        p.sm = pick(r, &["Random", "Goss"]);
        p.subsample = pick(r, &[0.5, 0.8]);
        p.top = pick(r, &[0.2, 0.5]);
        p.other = pick(r, &[0.3, 0.4]);
        p.l2 = 1.;
        dec = false;
    }
    for c in &cs {
        x.extend_from_slice(c);
    }
    (D { rows, cols, x, y, w }, p, dec)
}

/// One column, targets increasing with it and nothing that stops growth: the tree must use every threshold there is.
pub fn steps(r: &mut StdRng) -> (D, P) {
    let distinct = r.gen_range(2..22usize);
    let rows = distinct + r.gen_range(0..14);
    let mut vals: Vec<f64> = vec![];
    let mut v = r.gen_range(-20..20) as f64 / 4.;
    for _ in 0..distinct {
        vals.push(v);
        v += pick(r, &[0.25, 1., 1e-9, 7.5, 1e6]);
    }
    let mut p = P { obj: "SquaredLoss", iters: 1, l2: 0., ibs: false, base: 0.5, md: 60, ..P::default() };
    p.missing = pick(r, &[f64::NAN, -999.]);
    p.mlw = pick(r, &[0., 0.5, 1.]);
    p.lr = pick(r, &[0.3, 1.]);
    p.gp = pick(r, &["DepthWise", "LossGuide"]);
    p.parallel = chance(r, 0.5);
    p.cmb = chance(r, 0.4);
    p.mnt = pick(r, &["None", "AssignToParent", "AverageNodeWeight"]);
    p.ams = chance(r, 0.5);
    let near = distinct as i64 + r.gen_range(-4..3);
    p.nbins = pick(r, &[near, near, 256, 3, 5]).max(1) as u16;
    let wk = r.gen_range(0..2);
    let (mut x, mut y, mut w) = (vec![], vec![], vec![]);
    for i in 0..rows {
        let k = if i < distinct { i } else { r.gen_range(0..distinct) };
        x.push(vals[k]);
        y.push(k as f64);
        w.push(if wk == 0 { 1. } else { r.gen_range(1..4) as f64 });
    }
    // rows without a value; their target fits in anywhere
    for _ in 0..pick(r, &[0, 0, 2]) {
        x.push(p.missing);
        y.push(r.gen_range(0..distinct) as f64);
        w.push(1.);
    }
    let mut ix: Vec<usize> = (0..x.len()).collect();
    shuffle(r, &mut ix);
    (D { rows: x.len(), cols: 1, x, y, w }.take(&ix), p)
}

pub fn shuffle<T>(r: &mut StdRng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.gen_range(0..=i);
        v.swap(i, j);
    }
}
