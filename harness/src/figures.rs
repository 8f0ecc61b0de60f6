//! The statistics tool (C25): `stats` is run as a process on directories of datasets; its figures are compared with those
//! computed from the files by the monitor's own means.
use crate::cli::{run_bin, Scratch};
use crate::equiv::rich_data;
use crate::layout;
use crate::lib_io::write_ds;
use crate::rep::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

const WORDS: &[&str] = &["Delft", "delft", "NYC", "Zürich", "a", "Ab", "A b", "x.city", "東京", "v1.2", "Den_Haag", "den-haag", "0", "10", "9"];
/// column -> figure of one dataset
type Row = BTreeMap<&'static str, f64>;
const COLS: [(&str, &str); 13] = [
    ("fcb_size", "FCB Size"),
    ("jsonl_size", "JSONL Size"),
    ("compression", "Compression"),
    ("features", "Features"),
    ("city_objects", "City Objects"),
    ("vertices", "Vertices"),
    ("vertices_per_object", "Vertices/Object"),
    ("vertices_per_feature", "Vertices/Feature"),
    ("attributes", "Attributes"),
    ("semantic_attributes", "Semantic Attributes"),
    ("avg_fcb_feature_size", "Avg FCB Feat Size"),
    ("avg_jsonl_feature_size", "Avg JSONL Feat Size"),
    ("feature_compression", "Feature Compression"),
];
fn ratio(a: f64, b: f64) -> f64 {
    if b > 0.0 {
        a / b
    } else {
        0.0
    }
}

struct World {
    /// what must be reported
    rows: Vec<(String, Row)>,
    /// paths which cannot be analysed and must be named
    broken: Vec<PathBuf>,
    files: u64,
}

fn fill(r: &mut StdRng, dir: &Path, depth: usize, reached: bool, filter: &Option<Vec<String>>, w: &mut World) -> Result<(), String> {
    let mut used: Vec<String> = vec![];
    for _ in 0..r.gen_range(0..4) {
        let mut stem = WORDS.choose(r).unwrap().to_string();
        if r.gen_bool(0.4) {
            stem.push_str(&format!("{}{}", ["-", "_", " ", ""].choose(r).unwrap(), r.gen_range(0..30)));
        }
        if used.contains(&stem) {
            continue;
        }
        used.push(stem.clone());
        let (d, _, _) = rich_data(r, 25, 0);
        let mut b = write_ds(&d)?;
        let fcb = dir.join(format!("{stem}.fcb"));
        let (mut sound, mut alone) = (true, false);
        match r.gen_range(0..12) {
            0 => {
                b.truncate(r.gen_range(0..b.len()));
                sound = false;
            }
            1 => {
                b = b"not a file of this format at all, whatever its name is".to_vec();
                sound = false;
            }
            2 => alone = true,
            _ => {}
        }
        std::fs::write(&fcb, &b).unwrap();
        w.files += 1;
        // the text of a dataset need not be of the same data for its figures to be defined
        let eol = if r.gen_bool(0.3) { "\r\n" } else { "\n" };
        let mut lens = vec![];
        let mut text = d.header_json.to_string();
        let empty = r.gen_bool(0.05);
        for f in &d.feats_json {
            for _ in 0..if r.gen_bool(0.8) { 1 } else { r.gen_range(0..4) } {
                let l = f.to_string();
                lens.push(l.len());
                text.push_str(eol);
                text.push_str(&l);
            }
        }
        if r.gen_bool(0.8) {
            text.push_str(eol);
        }
        if empty {
            text.clear();
            lens.clear();
        }
        let (long, short) = (dir.join(format!("{stem}.city.jsonl")), dir.join(format!("{stem}.jsonl")));
        if alone {
            if r.gen() {
                std::fs::write(dir.join(format!("{stem}.json")), &text).unwrap();
            }
        } else if r.gen_bool(0.6) {
            std::fs::write(&long, &text).unwrap();
            if r.gen_bool(0.2) {
                // the first of two
                std::fs::write(&short, "{}\n{}\n{}\n").unwrap();
            }
        } else {
            std::fs::write(&short, &text).unwrap();
        }
        let chosen = reached && !alone && filter.as_ref().is_none_or(|f| f.iter().any(|p| stem.starts_with(p.as_str())));
        if !chosen {
            continue;
        }
        if !sound {
            w.broken.push(fcb);
            continue;
        }
        let p = layout::parse(&b)?;
        let n = d.feats_json.len() as f64;
        let objs: usize = d.feats_json.iter().map(|f| f["CityObjects"].as_object().unwrap().len()).sum();
        let verts: usize = d.feats_json.iter().map(|f| f["vertices"].as_array().unwrap().len()).sum();
        let (f, j) = (b.len() as f64, text.len() as f64);
        let af = ratio(p.feats.iter().map(|f| f.1 as f64).sum(), n);
        let aj = ratio(lens.iter().sum::<usize>() as f64, lens.len() as f64);
        let v = [f, j, ratio(j - f, j), n, objs as f64, verts as f64, ratio(verts as f64, objs as f64), ratio(verts as f64, n), d.schema.len() as f64, d.sem_schema.as_ref().map_or(0, |s| s.len()) as f64, af, aj, ratio(aj - af, aj)];
        w.rows.push((stem, COLS.iter().map(|c| c.0).zip(v).collect()));
    }
    for f in ["readme.txt", "a.FCB", ".fcb", "lonely.city.jsonl", "fcb"] {
        if r.gen_bool(0.15) {
            std::fs::write(dir.join(f), "nothing of interest\n").unwrap();
        }
    }
    if depth < 2 {
        for k in 0..r.gen_range(0..3) {
            // directories may have the names of datasets, of selected ones too
            let n = if r.gen_bool(0.5) { *WORDS.choose(r).unwrap() } else { ["sub", "b.d", "Ä"][k] };
            let sub = dir.join(n);
            if std::fs::create_dir(&sub).is_err() {
                continue;
            }
            // what lies in it counts only if asked for
            fill(r, &sub, depth + 1, reached && RECURSE.with(|x| x.get()), filter, w)?;
        }
    }
    Ok(())
}
thread_local! { static RECURSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// is `t` the number `v`, as far as its digits go (at least two after a point)?
fn shows(t: &str, v: f64) -> bool {
    let Ok(x) = t.parse::<f64>() else { return false };
    let dec = t.split_once('.').map_or(0, |p| p.1.len());
    x.is_finite() && (if v.fract() == 0.0 && dec == 0 { x == v } else { dec >= 2 && (x - v).abs() <= 0.5000001 * 10f64.powi(-(dec as i32)) + v.abs() * 1e-12 })
}
/// is `t` the size `v`?
fn shows_size(t: &str, v: f64) -> bool {
    let Some((n, u)) = t.split_once(' ') else { return false };
    let Some(k) = ["B", "KB", "MB", "GB"].iter().position(|x| *x == u) else { return false };
    let Ok(x) = n.parse::<f64>() else { return false };
    let unit = 1024f64.powi(k as i32);
    (x * unit - v).abs() <= if k == 0 { 1.0 } else { 0.005001 * unit + 1.0 } && (k == 0 || v >= unit - 1.0) && v < unit * 1024.0
}
fn cells(l: &str) -> Option<Vec<String>> {
    let l = l.trim();
    Some(l.strip_prefix('|')?.strip_suffix('|')?.split('|').map(|c| c.trim().to_string()).collect())
}

/// the rows the tool printed: city, and by column what stands there
fn reported(format: &str, out: &str) -> Result<Vec<(String, BTreeMap<String, Value>)>, String> {
    match format {
        "json" => {
            if out.trim().is_empty() {
                return Ok(vec![]);
            }
            let v: Vec<serde_json::Map<String, Value>> = serde_json::from_str(out).map_err(|e| format!("not JSON: {e}"))?;
            v.into_iter().map(|mut m| Ok((m.remove("city").and_then(|c| Some(c.as_str()?.to_string())).ok_or("no city")?, m.into_iter().collect()))).collect()
        }
        "csv" => {
            let mut l = out.lines();
            let Some(head) = l.next() else { return Ok(vec![]) };
            let head: Vec<&str> = head.split(',').collect();
            l.map(|l| {
                let c: Vec<&str> = l.split(',').collect();
                if c.len() != head.len() {
                    return Err(format!("{} cells under {} columns: {l:?}", c.len(), head.len()));
                }
                let mut m: BTreeMap<String, Value> = head.iter().zip(c).map(|(h, c)| (h.to_string(), json!(c))).collect();
                Ok((m.remove("city").ok_or("no city")?.as_str().unwrap().to_string(), m))
            })
            .collect()
        }
        _ => {
            let mut l = out.lines().filter_map(cells);
            let Some(head) = l.next() else { return Ok(vec![]) };
            l.map(|c| {
                if c.len() != head.len() {
                    return Err(format!("{} cells under {} columns", c.len(), head.len()));
                }
                let mut m: BTreeMap<String, Value> = head.iter().cloned().zip(c.into_iter().map(Value::from)).collect();
                Ok((m.remove("City").ok_or("no city")?.as_str().unwrap().to_string(), m))
            })
            .collect()
        }
    }
}

fn same(format: &str, want: &Row, got: &BTreeMap<String, Value>) -> Result<(), String> {
    for (k, t) in COLS {
        let v = want[k];
        let name = if format == "table" { t } else { k };
        let g = got.get(name).ok_or_else(|| format!("no {name}"))?;
        let good = match format {
            "json" => g.as_f64().is_some_and(|x| (x - v).abs() <= 1e-9 * v.abs().max(1.0)),
            "csv" => shows(g.as_str().unwrap(), v),
            _ => {
                let s = g.as_str().unwrap();
                if t.contains("Size") {
                    shows_size(s, v)
                } else if t.contains("Compression") {
                    s.strip_suffix('%').is_some_and(|s| shows(s, v * 100.0))
                } else {
                    shows(s, v)
                }
            }
        };
        if !good {
            return Err(format!("{name} is {g}, not {v}"));
        }
    }
    Ok(())
}

pub fn c25(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "figures", ctx.n(900, 20_000), |r, c, rep| {
        let s = Scratch::new();
        let dir = s.0.join("data");
        std::fs::create_dir(&dir).unwrap();
        let recurse = r.gen();
        RECURSE.with(|x| x.set(recurse));
        let filter: Option<Vec<String>> = r.gen_bool(0.35).then(|| (0..r.gen_range(1..4)).map(|_| WORDS.choose(r).unwrap().to_string()).collect());
        let mut w = World { rows: vec![], broken: vec![], files: 0 };
        if let Err(e) = fill(r, &dir, 0, true, &filter, &mut w) {
            return rep.violate("write", e);
        }
        let format = *["json", "csv", "table"].choose(r).unwrap();
        let mut args: Vec<String> = vec![];
        let mut cwd = s.0.clone();
        if r.gen_bool(0.2) {
            cwd = dir.clone();
        } else {
            args.extend([["-d", "--dir"].choose(r).unwrap().to_string(), if r.gen() { "data".into() } else { dir.to_str().unwrap().to_string() }]);
        }
        if recurse {
            args.push(["-r", "--recursive"].choose(r).unwrap().to_string());
        }
        if format != "table" || r.gen() {
            args.extend([["-f", "--format"].choose(r).unwrap().to_string(), format.to_string()]);
        }
        if let Some(f) = &filter {
            args.extend([["-c", "--cities"].choose(r).unwrap().to_string(), f.join(if r.gen() { "," } else { " , " })]);
        }
        let ran = run_bin("stats", &args, &cwd);
        let out = String::from_utf8_lossy(&ran.out).into_owned();
        let what = || format!("stats {args:?}: {}; stdout {:?}", ran.show(), out.chars().take(1500).collect::<String>());
        if !ran.ok() || ran.late {
            return rep.violate("failed", what());
        }
        for b in &w.broken {
            // (named as the tool met it, that is relative to where it was told to look)
            let n = b.file_name().unwrap().to_str().unwrap();
            if !ran.err.lines().chain(out.lines()).any(|l| l.contains(n) && l.to_lowercase().contains("error")) {
                rep.violate("broken_silent", format!("{n} is damaged and not named; {}", what()));
            }
        }
        match reported(format, &out) {
            Err(e) => rep.violate("form", format!("{e}; {}", what())),
            Ok(got) => {
                let names = |v: Vec<&String>| v.into_iter().cloned().collect::<Vec<_>>();
                let (g, mut x) = (names(got.iter().map(|g| &g.0).collect()), names(w.rows.iter().map(|g| &g.0).collect()));
                x.sort();
                if g != x {
                    rep.violate("rows", format!("rows {g:?} instead of {x:?}; {}", what()));
                } else {
                    let mut left = w.rows.clone();
                    for (c, m) in &got {
                        // the same name may occur in several directories
                        let mut why = String::new();
                        match left.iter().position(|(n, row)| n == c && same(format, row, m).map_err(|e| why = e).is_ok()) {
                            Some(i) => drop(left.remove(i)),
                            None => rep.violate("figures", format!("{c}: {why}; {}", what())),
                        }
                    }
                }
                rep.add("rows", got.len() as u64);
            }
        }
        rep.add("files", w.files);
        rep.add("damaged", w.broken.len() as u64);
        rep.inc(&format!("format_{format}"));
        rep.eval((!w.rows.is_empty()).then(|| h(&(c, format))));
        rep.sample(|| json!({"args": args, "rows": w.rows.len(), "damaged": w.broken.len(), "files": w.files}));
    });
    run_cases(ctx, rep, "refused", ctx.n(12, 60), |_, c, rep| {
        let s = Scratch::new();
        std::fs::write(s.file("plain"), "x").unwrap();
        let args: Vec<String> = [vec!["-d", "none"], vec!["-d", "plain"], vec!["-f", "xml"], vec!["--nonsense"]][c as usize % 4].iter().map(|s| s.to_string()).collect();
        let ran = run_bin("stats", &args, &s.0);
        if ran.code == Some(0) || ran.code.is_none() || ran.err.trim().is_empty() || ran.err.contains("panicked") {
            rep.violate("not_refused", format!("stats {args:?}: {}", ran.show()));
        }
        rep.inc("refused");
        rep.eval(Some(h(&args)));
    });
}
