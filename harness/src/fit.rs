//! Training traces for TraceFit.tla.
use crate::gen::{self, Emph};
use crate::util::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde_json::{json, Value};
use std::io::Write;

pub fn mix(profile: &str) -> Vec<Emph> {
    use Emph::*;
    match profile {
        "cover" => vec![General, Missing, Bins, Zero, Exact, Degenerate, Cols, Zero, General, Missing, Sample],
        "best" => vec![Heavy, Heavy, Heavy, Heavy, General, Exact, Exact, Mono, Missing, Bins, Cols, Degenerate, Zero],
        "formula" => vec![General, Exact, Mono, Missing, Degenerate, MonoDeep, Zero],
        "limits" => vec![Order, Heavy, General, Missing, Degenerate, Exact, MonoDeep, Zero],
        "order" => vec![Order],
        "missing" => vec![Heavy, Missing, Missing, Exact, Degenerate, Zero],
        "sample" => vec![Sample, Sample, Sample, Cols, Exact],
        "bins" => vec![Bins, Bins, Degenerate, General],
        _ => vec![General],
    }
}

pub fn one(d: &D, p: &P, dec: bool) -> Value {
    let (d2, p2) = (d.clone(), p.clone());
    let r = guarded(60, move || {
        let mut b = p2.build().map_err(|e| format!("error: {}", e))?;
        b.fit(&d2.m(), &d2.y, &d2.w, None).map_err(|e| format!("error: {}", e))?;
        Ok::<_, String>((trees_json(&b), b.base_score))
    });
    let st = match &r {
        Out::Ok(Err(e)) => e.clone(),
        o => o.st(),
    };
    let (trees, base) = match r {
        Out::Ok(Ok(v)) => v,
        _ => (json!([]), 0.),
    };
    json!({
        "st": st, "dec": dec, "cfg": p.json(d.cols), "x": d.xjson(), "y": nums(&d.y), "w": nums(&d.w),
        "base": num(base), "trees": trees
    })
}

pub fn run(profile: &str, seed: u64, n: usize, big: bool, out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let m = mix(profile);
    for i in 0..n {
        let mut r = StdRng::seed_from_u64(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
        // now and then more rows than the small cases have
        let large = i % 29 == 28 && matches!(profile, "cover" | "formula" | "bins" | "best");
        let wide = i % 61 == 60 && matches!(profile, "cover" | "bins");
        let huge = i % 397 == 390 && !matches!(profile, "order" | "sample");
        let many = i % 83 == 70 && !matches!(profile, "order" | "bins");
        let extreme = i % 23 == 20 && !matches!(profile, "order" | "sample");
        let e = if many {
            Emph::ManyCols
        } else if extreme {
            Emph::Extreme
        } else if huge {
            Emph::Huge
        } else if large {
            Emph::Large
        } else if wide {
            Emph::Wide
        } else {
            m[i % m.len()]
        };
        let full = profile == "bins" && i % 5 == 4;
        let (d, p, dec) = if full {
            let (d, p) = gen::steps(&mut r);
            (d, p, true)
        } else {
            gen::case(&mut r, e, big)
        };
        let mut v = one(&d, &p, dec);
        v["full"] = json!(full);
        writeln!(f, "{}", v).unwrap();
    }
}
