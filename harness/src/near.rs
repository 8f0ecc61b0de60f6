//! Locality (C22): features that are near one another are near one another in an indexed file, whatever order they were
//! written in. Judged on the order of delivery alone.
use crate::gen::*;
use crate::lib_io::*;
use crate::rep::*;
use fcb_core::header_writer::HeaderWriterOptions;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::io::Cursor;
use std::sync::Arc;

struct Near {
    bytes: Arc<Vec<u8>>,
    /// places in the unit square, by number of the feature; None = far away from all others
    at: Vec<Option<[f64; 2]>>,
    kind: String,
    line: bool,
}

fn near_ds(r: &mut StdRng, n: usize) -> Result<Near, String> {
    let line = r.gen_bool(0.15);
    let kind = if line { *["grid", "jitter"].choose(r).unwrap() } else { *["grid", "jitter", "uniform", "holes"].choose(r).unwrap() };
    let given = *["rows", "columns", "shuffled", "snake"].choose(r).unwrap();
    // in grid cells
    let (w, hh) = if line {
        // along the x or the y axis
        if r.gen() { (n as f64, 1.0) } else { (1.0, n as f64) }
    } else {
        let w = ((n as f64).sqrt() * *[1.0, 1.0, 0.5, 2.0, 1.37].choose(r).unwrap()).round().max(2.0);
        (w, (n as f64 / w).round().max(2.0))
    };
    let mut at: Vec<[f64; 2]> = match kind {
        "uniform" => (0..n).map(|_| [r.gen::<f64>() * w, r.gen::<f64>() * hh]).collect(),
        k => {
            let mut v = vec![];
            for y in 0..hh as usize {
                for x in 0..w as usize {
                    if k == "holes" && r.gen_bool(0.3) {
                        continue;
                    }
                    let j = |r: &mut StdRng, many: f64| if k == "jitter" && many > 1.0 { r.gen_range(-0.4..0.4) } else { 0.0 };
                    v.push([x as f64 + 0.5 + j(r, w), y as f64 + 0.5 + j(r, hh)]);
                }
            }
            v
        }
    };
    match given {
        "rows" => at.sort_by(|a, b| (a[1] as i64).cmp(&(b[1] as i64)).then(a[0].total_cmp(&b[0]))),
        "columns" => at.sort_by(|a, b| (a[0] as i64).cmp(&(b[0] as i64)).then(a[1].total_cmp(&b[1]))),
        "snake" => at.sort_by(|a, b| (a[1] as i64).cmp(&(b[1] as i64)).then(if a[1] as i64 % 2 == 0 { a[0].total_cmp(&b[0]) } else { b[0].total_cmp(&a[0]) })),
        _ => at.shuffle(r),
    }
    // a cell is this many units of the integer grid, and this large in the world
    let unit = *[40i64, 1000, 12_345].choose(r).unwrap();
    let cell = *[0.01, 10.0, 300.0].choose(r).unwrap();
    let (cx, cy) = (cell, if r.gen_bool(0.7) { cell } else { cell * *[0.25, 0.5, 2.0, 4.0].choose(r).unwrap() });
    let scale = [cx / unit as f64, cy / unit as f64];
    let off = *[[0.0, 0.0], [84_000.125, 446_000.3], [-1e5, 3e5], [-1e6, -1e6]].choose(r).unwrap();
    let half = (unit as f64 * *[0.0, 0.2, 0.45, 1.2].choose(r).unwrap()) as i64;
    let mut place: Vec<Option<[f64; 2]>> = at.iter().map(|p| Some([p[0] / w, p[1] / hh])).collect();
    let mut corner: Vec<[i64; 2]> = at.iter().map(|p| [(p[0] * unit as f64) as i64, (p[1] * unit as f64) as i64]).collect();
    let far = !line && r.gen_bool(0.15);
    if far {
        // one lies far off, and all the others on a small part of the whole
        let k = r.gen_range(0..=place.len());
        place.insert(k, None);
        // (in the direction of a diagonal: the proportions of the whole stay as they are)
        let d: f64 = r.gen_range(2.0..20.0);
        let [dx, dy] = *[[d, d], [1.0 - d, d], [d, 1.0 - d], [1.0 - d, 1.0 - d]].choose(r).unwrap();
        corner.insert(k, [(w * unit as f64 * dx) as i64, (hh * unit as f64 * dy) as i64]);
    }
    let header_json = json!({"type":"CityJSON","version":"2.0","CityObjects":{},"vertices":[],
        "transform":{"scale":[scale[0],scale[1],0.001],"translate":[off[0],off[1],0.0]}});
    let feats_json: Vec<Value> = corner
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let id = format!("f{i}");
            json!({"type":"CityJSONFeature","id":id,"CityObjects":{id.clone():{"type":"Building"}},
                "vertices":[[c[0] - half, c[1] - half, 0], [c[0] + half, c[1] + half, 5]]})
        })
        .collect();
    let d = Dataset {
        header: parse_header(&header_json),
        header_json,
        feats: feats_json.iter().map(parse_feature).collect(),
        feats_json,
        schema: Default::default(),
        sem_schema: None,
        opts: HeaderWriterOptions { write_index: true, feature_count: corner.len() as u64, index_node_size: 16, attribute_indices: None, geographical_extent: None },
    };
    let kind = format!("{kind} {w}x{hh} given by {given}, cell {cx}x{cy}, offset {off:?}, half size {half}/{unit}{}", if far { ", one far off" } else { "" });
    Ok(Near { bytes: Arc::new(write_ds(&d)?), at: place, kind, line })
}

fn order_of(bytes: &Arc<Vec<u8>>, n: usize) -> Result<Vec<usize>, String> {
    let d = drain_seek(Cursor::new(&bytes[..]), &Sel::All);
    if let Some(e) = d.err {
        return Err(format!("reading everything: {e}"));
    }
    let mut seen = vec![false; n];
    let mut v = vec![];
    for f in &d.feats {
        let i: usize = f.id[1..].parse().map_err(|_| format!("unknown id {}", f.id))?;
        if i >= n || std::mem::replace(&mut seen[i], true) {
            return Err(format!("unexpected id {}", f.id));
        }
        v.push(i);
    }
    if v.len() != n {
        return Err(format!("{} of {n} features", v.len()));
    }
    Ok(v)
}

fn c22_case(r: &mut StdRng, rep: &mut Rep, n: usize) {
    let ds = match near_ds(r, n) {
        Ok(d) => d,
        Err(e) => return rep.violate("write", e),
    };
    let order = match order_of(&ds.bytes, ds.at.len()) {
        Ok(o) => o,
        Err(e) => return rep.violate("order", format!("{e}; {}", ds.kind)),
    };
    let seq: Vec<[f64; 2]> = order.iter().filter_map(|&i| ds.at[i]).collect();
    let n = seq.len();
    if ds.line {
        let step = seq.windows(2).map(|p| (p[0][0] - p[1][0]).abs() + (p[0][1] - p[1][1]).abs()).sum::<f64>() / (n - 1) as f64 * n as f64;
        rep.max("max_mean_step_line_permille", (step * 1000.0) as u64);
        if step > 2.5 {
            rep.violate("line", format!("the next feature is {step:.2} places away on average ({n} features); {}", ds.kind));
        }
        rep.inc("lines");
        return rep.eval(Some(h(&(&ds.bytes[..], n))));
    }
    let mean_gap = 1.0 / (n as f64).sqrt();
    // from one feature to the next
    let step = seq.windows(2).map(|p| (p[0][0] - p[1][0]).hypot(p[0][1] - p[1][1])).sum::<f64>() / (n - 1) as f64 / mean_gap;
    rep.max("max_mean_step_permille_of_spacing", (step * 1000.0) as u64);
    if step > 1.7 {
        rep.violate("step", format!("the next feature is {step:.2} times the mean spacing away on average ({n} features); {}", ds.kind));
    }
    // blocks of consecutive features, as nodes of the index cover them
    for m in [16usize, 64, 256] {
        if n < 4 * m {
            continue;
        }
        let (mut sum, mut long) = (0.0, [0.0; 2]);
        let blocks = seq.chunks_exact(m).len() as f64;
        for c in seq.chunks_exact(m) {
            let mut d = [0.0; 2];
            for (k, d) in d.iter_mut().enumerate() {
                *d = c.iter().map(|p| p[k]).fold(f64::MIN, f64::max) - c.iter().map(|p| p[k]).fold(f64::MAX, f64::min) + mean_gap;
            }
            sum += d[0] * d[1];
            (long[0], long[1]) = (long[0] + d[0], long[1] + d[1]);
        }
        // relative to a square of as many features
        let area = sum / blocks / (m as f64 / n as f64);
        let side = long[0].max(long[1]) / blocks / (m as f64 / n as f64).sqrt();
        rep.max(&format!("max_block_area_{m}_permille"), (area * 1000.0) as u64);
        rep.max(&format!("max_block_side_{m}_permille"), (side * 1000.0) as u64);
        if area > 4.5 || side > 2.6 {
            rep.violate("block", format!("blocks of {m} consecutive features cover {area:.2} times the area of as many, {side:.2} times the side ({n} features); {}", ds.kind));
        }
    }
    // a square is covered by few runs of consecutive features
    for k in [4.0f64, 8.0, 16.0] {
        let a = k * mean_gap;
        if a > 0.5 {
            continue;
        }
        let (mut runs, mut cnt) = (0u64, 0u64);
        const Q: usize = 40;
        for _ in 0..Q {
            let o = [r.gen::<f64>() * (1.0 - a), r.gen::<f64>() * (1.0 - a)];
            let inside = |p: &[f64; 2]| (0..2).all(|k| p[k] >= o[k] && p[k] <= o[k] + a);
            let mut prev = false;
            for p in &seq {
                let x = inside(p);
                runs += (x && !prev) as u64;
                cnt += x as u64;
                prev = x;
            }
        }
        let runs = runs as f64 / Q as f64;
        rep.max(&format!("max_runs_{k}_permille_of_side"), (runs / k * 1000.0) as u64);
        if runs > 2.0 * k + 1.0 {
            rep.violate("runs", format!("squares of {k}x{k} features ({:.1} on average) fall into {runs:.1} runs ({n} features); {}", cnt as f64 / Q as f64, ds.kind));
        }
        rep.add("squares", Q as u64);
        rep.add("selected", cnt);
    }
    rep.max("max_features", n as u64);
    rep.eval(Some(h(&(&ds.bytes[..], n))));
    rep.sample(|| json!({"dataset": ds.kind, "features": n, "step": step}));
}

pub fn c22(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "order", ctx.n(700, 12_000), |r, _, rep| {
        let n = r.gen_range(70..1500);
        c22_case(r, rep, n)
    });
    run_cases(ctx, rep, "many", ctx.n(32, 400), |r, _, rep| {
        let n = r.gen_range(4000..20_000);
        c22_case(r, rep, n)
    });
}
