//! Command-line tool monitor (C14): the `fcb` binary is run as a process; exit status, standard
//! streams and files are what is judged.
use crate::gen::*;
use crate::layout;
use crate::lib_io::*;
use crate::rep::*;
use crate::rt::*;
use crate::spatial::{next_down, next_up};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Cursor, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// a scratch directory which is removed again
pub struct Scratch(pub PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("fcbmon-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn file(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stdout {
    Captured,
    Full,
    /// the reading end of the pipe is gone
    Broken,
}

pub struct Ran {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
    pub late: bool,
}
impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> String {
        format!("exit {:?}, {} bytes on stdout, stderr {:?}", self.code, self.out.len(), self.err.chars().take(300).collect::<String>())
    }
}

fn fcb(args: &[String], stdin: Option<&[u8]>, mode: Stdout, cwd: &Path) -> Ran {
    run(std::env::var("FCB_BIN").expect("FCB_BIN").into(), args, stdin, mode, cwd)
}
/// another program of the library, built beside the tool
pub fn run_bin(name: &str, args: &[String], cwd: &Path) -> Ran {
    let exe = PathBuf::from(std::env::var("FCB_BIN").expect("FCB_BIN")).with_file_name(name);
    run(exe, args, None, Stdout::Captured, cwd)
}
fn run(exe: PathBuf, args: &[String], stdin: Option<&[u8]>, mode: Stdout, cwd: &Path) -> Ran {
    let mut c = Command::new(exe);
    c.args(args).current_dir(cwd).stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    match mode {
        Stdout::Captured => {
            c.stdout(Stdio::piped());
        }
        Stdout::Full => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full"));
        }
        Stdout::Broken => {
            let (r, w) = std::io::pipe().expect("pipe");
            drop(r);
            c.stdout(w);
        }
    }
    let mut p = c.spawn().expect("the program starts");
    drop(c);
    let stdin_data = stdin.map(|s| s.to_vec());
    let si = p.stdin.take();
    let so = p.stdout.take();
    let mut se = p.stderr.take().unwrap();
    let t0 = Instant::now();
    std::thread::scope(|s| {
        s.spawn(move || {
            if let (Some(mut i), Some(d)) = (si, stdin_data) {
                let _ = i.write_all(&d);
            }
        });
        let out = s.spawn(move || {
            let mut v = vec![];
            if let Some(mut o) = so {
                let _ = o.read_to_end(&mut v);
            }
            v
        });
        let err = s.spawn(move || {
            let mut v = vec![];
            let _ = se.read_to_end(&mut v);
            String::from_utf8_lossy(&v).into_owned()
        });
        let mut late = false;
        let st = loop {
            if let Some(st) = p.try_wait().expect("wait") {
                break st;
            }
            if t0.elapsed() > Duration::from_secs(100) {
                late = true;
                let _ = p.kill();
            }
            std::thread::sleep(Duration::from_micros(500));
        };
        Ran { code: st.code(), out: out.join().unwrap(), err: err.join().unwrap(), late }
    })
}

fn sv(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

/// JSON text of the lines, with the members in random order and either line ending
fn stream(r: &mut StdRng, header: &Value, feats: &[Value]) -> Vec<u8> {
    let eol = if r.gen_bool(0.2) { "\r\n" } else { "\n" };
    let mut s = header.to_string();
    for f in feats {
        s.push_str(eol);
        s.push_str(&f.to_string());
    }
    if r.gen_bool(0.8) {
        s.push_str(eol);
    }
    s.into_bytes()
}

/// attribute objects of a feature or header: (is semantic, object)
pub fn attr_objects<'a>(f: &'a mut Value, out: &mut Vec<(bool, &'a mut serde_json::Map<String, Value>)>) {
    fn surfaces<'a>(gs: Option<&'a mut Value>, out: &mut Vec<(bool, &'a mut serde_json::Map<String, Value>)>) {
        for g in gs.and_then(|g| g.as_array_mut()).into_iter().flatten() {
            let s = g.get_mut("semantics").and_then(|s| s.get_mut("surfaces")).and_then(|s| s.as_array_mut());
            out.extend(s.into_iter().flatten().filter_map(|s| s.as_object_mut()).map(|m| (true, m)));
        }
    }
    let Some(f) = f.as_object_mut() else { return };
    for (k, v) in f.iter_mut() {
        match k.as_str() {
            "CityObjects" => {
                for o in v.as_object_mut().into_iter().flat_map(|o| o.values_mut()).filter_map(|o| o.as_object_mut()) {
                    for (k, v) in o.iter_mut() {
                        if k == "attributes" {
                            out.extend(v.as_object_mut().map(|m| (false, m)));
                        } else if k == "geometry" {
                            surfaces(Some(v), out);
                        }
                    }
                }
            }
            "geometry-templates" => surfaces(v.get_mut("templates"), out),
            _ => {}
        }
    }
}

/// names of the attributes which have a non-integer number somewhere
pub fn float_names(feats: &[Value]) -> BTreeSet<(bool, String)> {
    let mut s = BTreeSet::new();
    for f in feats {
        let mut f = f.clone();
        let mut o = vec![];
        attr_objects(&mut f, &mut o);
        for (sem, m) in o {
            for (k, v) in m.iter() {
                if v.is_f64() {
                    s.insert((sem, k.clone()));
                }
            }
        }
    }
    s
}
/// an integer in a column that also holds fractions comes back as the same number
pub fn numerically(f: &mut Value, names: &BTreeSet<(bool, String)>) {
    let mut o = vec![];
    attr_objects(f, &mut o);
    for (sem, m) in o {
        for (k, v) in m.iter_mut() {
            if v.is_number() && !v.is_f64() && names.contains(&(sem, k.clone())) {
                // (an integer beyond 2^53 must not have gone through a double)
                if v.as_i64().is_some_and(|i| i.unsigned_abs() <= 1 << 53) {
                    *v = json!(v.as_f64().unwrap());
                }
            }
        }
    }
}

fn xyz(f: &cjseq::CityJSONFeature, t: &cjseq::Transform) -> Vec<[f64; 3]> {
    f.vertices.iter().map(|v| [0, 1, 2].map(|i| v[i] as f64 * t.scale[i] + t.translate[i])).collect()
}

/// Numbers which the JSON parser reads exactly as they are printed. (It may be off by one unit in the
/// last place otherwise; stage float_text has that.)
pub fn stabilise(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(stabilise),
        Value::Object(m) => m.values_mut().for_each(stabilise),
        Value::Number(n) if n.is_f64() => {
            for _ in 0..8 {
                let w: Value = serde_json::from_str(&v.to_string()).unwrap();
                if &w == v {
                    return;
                }
                *v = w;
            }
            *v = json!(0.5);
        }
        _ => {}
    }
}

/// null attributes are the same as absent ones
pub fn without_nulls(f: &mut Value) {
    let mut o = vec![];
    attr_objects(f, &mut o);
    for (_, m) in o {
        let nulls: Vec<String> = m.iter().filter(|(k, v)| v.is_null() && !["type", "parent", "children"].contains(&k.as_str())).map(|(k, _)| k.clone()).collect();
        for k in nulls {
            m.remove(&k);
        }
    }
}

struct Job {
    header: Value,
    feats: Vec<Value>,
    opts: Vec<String>,
    bbox: Option<[f64; 4]>,
    ge: bool,
    spatial: bool,
    indexed: BTreeSet<String>,
    judge_indexes: bool,
    bf: Option<u16>,
}

const KINDS: &[K] = &[K::Bool, K::ULong, K::Long, K::Double, K::Str, K::Date, K::Json];

fn job(r: &mut StdRng, n: usize) -> Job {
    let mut cfg = DsCfg { n, ..Default::default() };
    cfg.coord = *[10i64, 1000, 1_000_000, i32::MAX as i64].choose(r).unwrap();
    cfg.geom.maxlen = r.gen_range(1..4);
    cfg.geom.semantics = r.gen();
    cfg.geom.materials = r.gen_bool(0.3);
    cfg.geom.textures = r.gen_bool(0.3);
    cfg.feature_appearance = r.gen_bool(0.3);
    cfg.ext_types = true;
    cfg.geom.n_templates = if r.gen_bool(0.3) { 3 } else { 0 };
    if r.gen_bool(0.85) {
        cfg.attrs = random_attrs(r, KINDS);
    }
    if r.gen() {
        cfg.geom.sem_attrs = random_attrs(r, KINDS);
        cfg.geom.sem_attrs.retain(|(n, _)| !["type", "parent", "children"].contains(&n.as_str()));
    }
    cfg.attr_p = *[0.1, 0.5, 1.0].choose(r).unwrap();
    cfg.null_p = *[0.0, 0.1].choose(r).unwrap();
    let d = dataset(r, &cfg);
    let mut header = d.header_json.clone();
    if r.gen_bool(0.6) {
        let x = random_header(r, None);
        for k in ["version", "metadata", "appearance"] {
            if let Some(v) = x.get(k) {
                header[k] = v.clone();
            }
        }
        if header.get("geometry-templates").is_none() {
            if let Some(v) = x.get("geometry-templates") {
                header["geometry-templates"] = v.clone();
            }
        }
    }
    let mut feats = d.feats_json.clone();
    // attributes whose type differs from feature to feature
    if r.gen_bool(0.4) && !cfg.attrs.is_empty() {
        let (name, _) = cfg.attrs.choose(r).unwrap().clone();
        let pick: Vec<K> = (0..r.gen_range(1..3)).map(|_| *KINDS.choose(r).unwrap()).collect();
        for f in feats.iter_mut() {
            let mut o = vec![];
            attr_objects(f, &mut o);
            for (sem, m) in o {
                if !sem && r.gen_bool(0.4) {
                    let k = *pick.choose(r).unwrap();
                    m.insert(name.clone(), value_of(r, k));
                }
            }
        }
    }
    // the same for surfaces, those of templates included
    if r.gen_bool(0.4) && !cfg.geom.sem_attrs.is_empty() {
        let (name, _) = cfg.geom.sem_attrs.choose(r).unwrap().clone();
        let pick: Vec<K> = (0..r.gen_range(1..4)).map(|_| *KINDS.choose(r).unwrap()).collect();
        for f in feats.iter_mut().chain([&mut header]) {
            let mut o = vec![];
            attr_objects(f, &mut o);
            for (sem, m) in o {
                if sem && r.gen_bool(0.4) {
                    let k = *pick.choose(r).unwrap();
                    m.insert(name.clone(), value_of(r, k));
                }
            }
        }
    }
    stabilise(&mut header);
    feats.iter_mut().for_each(stabilise);
    Job { header, feats, opts: vec![], bbox: None, ge: true, spatial: true, indexed: BTreeSet::new(), judge_indexes: true, bf: None }
}

fn choose_options(r: &mut StdRng, j: &mut Job) {
    let t: cjseq::Transform = serde_json::from_value(j.header["transform"].clone()).unwrap();
    if r.gen_bool(0.4) {
        let vs: Vec<[f64; 3]> = j.feats.iter().flat_map(|f| xyz(&parse_feature(f), &t)).collect();
        let mut b = [0.0f64; 4];
        for (i, x) in b.iter_mut().enumerate() {
            *x = match vs.choose(r) {
                None => r.gen_range(-10.0..10.0),
                Some(v) => match r.gen_range(0..4) {
                    0 => v[i % 2],
                    1 => next_up(v[i % 2]),
                    2 => next_down(v[i % 2]),
                    _ => v[i % 2] + r.gen_range(-5.0..5.0),
                },
            };
        }
        for i in 0..2 {
            if b[i] > b[i + 2] {
                b.swap(i, i + 2);
            }
        }
        if b.iter().all(|x| x.is_finite()) {
            j.bbox = Some(b);
            let sp = if r.gen_bool(0.3) { " " } else { "" };
            let text = b.iter().map(|x| if r.gen() { format!("{x}") } else { format!("{x:e}") }).collect::<Vec<_>>().join(&format!(",{sp}"));
            match r.gen_range(0..3) {
                0 => j.opts.push(format!("--bbox={text}")),
                1 => j.opts.extend(["-b".into(), text]),
                _ => j.opts.extend(["--bbox".into(), text]),
            }
        }
    }
    match r.gen_range(0..4) {
        0 => {
            j.ge = false;
            j.opts.extend(sv(&["-g", "false"]));
        }
        1 => j.opts.extend(sv(&["--ge", "true"])),
        _ => {}
    }
    match r.gen_range(0..4) {
        0 => {
            j.spatial = false;
            j.opts.extend(sv(&["-s", "false"]));
        }
        1 => j.opts.extend(sv(&["--spatial-index", "true"])),
        _ => {}
    }
    if r.gen() {
        let bf = *[2u16, 3, 4, 16, 100, 256, 65535].choose(r).unwrap();
        j.bf = Some(bf);
        j.opts.extend(sv(&["--attr-branching-factor", &bf.to_string()]));
    }
}

/// attribute names of the kept features -> whether some value is not a plain one (array, object or of mixed types)
fn attr_names(feats: &[&Value]) -> BTreeMap<String, bool> {
    let mut k: BTreeMap<String, BTreeSet<&'static str>> = BTreeMap::new();
    for f in feats {
        let mut f = (*f).clone();
        let mut o = vec![];
        attr_objects(&mut f, &mut o);
        for (sem, m) in o {
            if sem {
                continue;
            }
            for (n, v) in m.iter() {
                let t = match v {
                    Value::Null => continue,
                    Value::Bool(_) => "bool",
                    Value::Number(x) if x.is_f64() => "float",
                    Value::Number(x) if x.as_u64().is_some_and(|x| x > i64::MAX as u64) => "huge",
                    Value::Number(x) if x.is_u64() => "uint",
                    Value::Number(_) => "int",
                    Value::String(s) => {
                        if chrono::DateTime::parse_from_rfc3339(s).is_ok() {
                            "date"
                        } else {
                            "text"
                        }
                    }
                    _ => "json",
                };
                k.entry(n.clone()).or_default().insert(t);
            }
        }
    }
    let plain = |t: &BTreeSet<&str>| match t.len() {
        1 => !t.contains("json"),
        2 => t.contains("uint") && (t.contains("int") || t.contains("huge")),
        _ => false,
    };
    k.into_iter().map(|(n, t)| (n, !plain(&t))).collect()
}

fn kept<'a>(j: &'a Job, t: &cjseq::Transform) -> Vec<&'a Value> {
    j.feats
        .iter()
        .filter(|f| match &j.bbox {
            None => true,
            Some(b) => xyz(&parse_feature(f), t).iter().any(|v| v[0] >= b[0] && v[0] <= b[2] && v[1] >= b[1] && v[1] <= b[3]),
        })
        .collect()
}

fn extent(feats: &[&Value], t: &cjseq::Transform) -> [f64; 6] {
    let mut e = [f64::INFINITY, f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    let mut any = false;
    for f in feats {
        for v in xyz(&parse_feature(f), t) {
            any = true;
            for i in 0..3 {
                e[i] = e[i].min(v[i]);
                e[i + 3] = e[i + 3].max(v[i]);
            }
        }
    }
    if any { e } else { [0.0; 6] }
}

/// runs one conversion there and back and judges everything that can be seen of it
fn there_and_back(r: &mut StdRng, c: u64, rep: &mut Rep, j: &Job) {
    let t: cjseq::Transform = serde_json::from_value(j.header["transform"].clone()).unwrap();
    let sc = Scratch::new();
    let text = stream(r, &j.header, &j.feats);
    let (inf, outf, backf) = (sc.file("in.city.jsonl"), sc.file("out.fcb"), sc.file("back.city.jsonl"));
    let by_stdin: bool = r.gen();
    let by_stdout = r.gen_bool(0.4);
    if !by_stdin {
        std::fs::write(&inf, &text).unwrap();
    }
    let mut args = sv(&["ser", "-i", if by_stdin { "-" } else { &inf }, "-o", if by_stdout { "-" } else { &outf }]);
    args.extend(j.opts.clone());
    let ran = fcb(&args, by_stdin.then_some(&text[..]), Stdout::Captured, &sc.0);
    rep.inc("processes");
    let shown = || args.join(" ");
    if ran.late {
        return rep.violate("ser:hang", shown());
    }
    if !ran.ok() {
        return rep.violate("ser:refused", format!("{}: {}", shown(), ran.show()));
    }
    let bytes = if by_stdout {
        ran.out
    } else {
        if !ran.out.is_empty() {
            rep.violate("ser:stdout", format!("{}: {:?}", shown(), String::from_utf8_lossy(&ran.out)));
        }
        match std::fs::read(&outf) {
            Ok(b) => b,
            Err(e) => return rep.violate("ser:no_output", format!("{}: {e}", shown())),
        }
    };
    let keep = kept(j, &t);
    // the file
    let p = match layout::parse(&bytes) {
        Ok(p) => p,
        Err(e) => return rep.violate("ser:malformed", format!("{}: {e}", shown())),
    };
    if p.features_count != keep.len() as u64 || p.feats.len() != keep.len() {
        rep.violate("ser:count", format!("{}: {} declared, {} present, {} expected", shown(), p.features_count, p.feats.len(), keep.len()));
    }
    if (p.node_size > 0) != j.spatial {
        rep.violate("ser:spatial_index", format!("{}: node size {}", shown(), p.node_size));
    }
    let col = |i: u16| p.columns.iter().find(|c| c.0 == i).map(|c| c.1.clone()).unwrap_or_default();
    let idx: BTreeSet<String> = p.attrs.iter().map(|a| col(a.col)).collect();
    if j.judge_indexes && idx != j.indexed {
        rep.violate("ser:attr_index", format!("{}: indexed {idx:?} want {:?}", shown(), j.indexed));
    }
    if let Some(bf) = j.bf {
        if let Some(a) = p.attrs.iter().find(|a| a.bf != bf as usize) {
            rep.violate("ser:branching", format!("{}: index of {} has {}", shown(), col(a.col), a.bf));
        }
    }
    let names: BTreeSet<String> = p.columns.iter().map(|c| c.1.clone()).collect();
    let want_names: BTreeSet<String> = attr_names(&keep).into_keys().collect();
    if names != want_names {
        rep.violate("ser:columns", format!("{}: columns {names:?} want {want_names:?}", shown()));
    }
    // a query through the index finds what is there
    if j.spatial && !keep.is_empty() {
        let e = extent(&keep, &t);
        if e.iter().all(|x| x.is_finite()) {
            let got = drain_seek(Cursor::new(&bytes), &Sel::Bbox(e[0], e[1], e[3], e[4]));
            if !got.ok() || got.feats.len() != keep.len() {
                rep.violate("ser:index_incomplete", format!("{}: {} of {} features found in the extent {e:?}: {}", shown(), got.feats.len(), keep.len(), got.problem()));
            }
        }
    }
    // back
    let (stdin2, stdout2): (bool, bool) = (r.gen(), r.gen());
    if !stdin2 {
        std::fs::write(&outf, &bytes).unwrap();
    }
    let args2 = sv(&["deser", "-i", if stdin2 { "-" } else { &outf }, "-o", if stdout2 { "-" } else { &backf }]);
    let ran = fcb(&args2, stdin2.then_some(&bytes[..]), Stdout::Captured, &sc.0);
    rep.inc("processes");
    if !ran.ok() {
        return rep.violate("deser:refused", format!("{} then {}: {}", shown(), args2.join(" "), ran.show()));
    }
    let back = if stdout2 {
        ran.out
    } else {
        if !ran.out.is_empty() {
            rep.violate("deser:stdout", format!("{:?}", String::from_utf8_lossy(&ran.out)));
        }
        match std::fs::read(&backf) {
            Ok(b) => b,
            Err(e) => return rep.violate("deser:no_output", e.to_string()),
        }
    };
    let Ok(back) = String::from_utf8(back) else { return rep.violate("deser:not_text", shown()) };
    let mut lines = back.lines();
    let head: cjseq::CityJSON = match serde_json::from_str(lines.next().unwrap_or("")) {
        Ok(h) => h,
        Err(e) => return rep.violate("deser:header", format!("{e}: {:?}", back.lines().next())),
    };
    let mut want = header_view(&parse_header(&j.header));
    if j.ge {
        want["metadata"]["geographicalExtent"] = json!(extent(&keep, &t));
    }
    let mut got_head = header_view(&head);
    if j.ge {
        // the text is exact, but our parser need not be
        let g: Option<[f64; 6]> = serde_json::from_value(got_head["metadata"]["geographicalExtent"].clone()).ok();
        let w = extent(&keep, &t);
        if g.is_some_and(|g| g.iter().zip(&w).all(|(a, b)| a == b || (a - b).abs() <= 4e-16 * a.abs().max(b.abs()))) {
            got_head["metadata"]["geographicalExtent"] = json!(w);
        }
    }
    let mut want_head = want;
    let mut got = vec![];
    for l in lines {
        match serde_json::from_str::<cjseq::CityJSONFeature>(l) {
            Ok(f) => got.push(canon(&f)),
            Err(e) => return rep.violate("deser:feature", format!("{}: {e}: {l:?}", shown())),
        }
    }
    let mut want: Vec<Value> = keep.iter().map(|f| canon(&parse_feature(f))).collect();
    let mut fl = float_names(&want);
    fl.extend(float_names(std::slice::from_ref(&want_head)));
    for f in want.iter_mut().chain(got.iter_mut()).chain([&mut want_head, &mut got_head]) {
        numerically(f, &fl);
        without_nulls(f);
    }
    if let Some((p, m)) = diff(&want_head, &got_head) {
        rep.violate(format!("header:{}", generalise(&p)), format!("{}: {p}: {m}", shown()));
    }
    compare_features(rep, &want, &got, "cli");
    // info
    if r.gen_bool(0.5) {
        std::fs::write(&outf, &bytes).unwrap();
        let ran = fcb(&sv(&["info", "-i", &outf]), None, Stdout::Captured, &sc.0);
        rep.inc("processes");
        rep.inc("infos_judged");
        if !ran.ok() {
            return rep.violate("info:refused", format!("{}: {}", shown(), ran.show()));
        }
        let o = String::from_utf8_lossy(&ran.out).into_owned();
        let mut must = vec![
            format!("Features count: {}\n", keep.len()),
            format!("Version: {}\n", j.header["version"].as_str().unwrap()),
            format!("File size: {} MB\n", bytes.len() >> 20),
            format!("attr_index: {:?}\n", p.attrs.iter().map(|a| col(a.col)).collect::<Vec<_>>()),
        ];
        let title = j.header.get("metadata").and_then(|m| m.get("title")).and_then(|t| t.as_str());
        if let Some(t) = title {
            must.push(format!("Title: {t}\n"));
        } else if o.contains("Title:") {
            rep.violate("info:title", o.clone());
        }
        let e: Option<[f64; 6]> = if j.ge {
            Some(extent(&keep, &t))
        } else {
            j.header.get("metadata").and_then(|m| m.get("geographicalExtent")).map(|v| serde_json::from_value(v.clone()).unwrap())
        };
        match e {
            Some(e) => {
                must.push(format!("Min: [{}, {}, {}]\n", e[0], e[1], e[2]));
                must.push(format!("Max: [{}, {}, {}]\n", e[3], e[4], e[5]));
            }
            None => {
                if o.contains("Geographical extent") {
                    rep.violate("info:extent", o.clone());
                }
            }
        }
        for m in must {
            if !o.contains(&m) {
                rep.violate(format!("info:{}", m.split(':').next().unwrap()), format!("{}: {m:?} not in {o:?}", shown()));
            }
        }
    }
    rep.add("features_written", keep.len() as u64);
    rep.add("features_filtered_out", (j.feats.len() - keep.len()) as u64);
    rep.inc(if by_stdin { "stdin_input" } else { "file_input" });
    rep.inc(if by_stdout { "stdout_output" } else { "file_output" });
    rep.eval(if keep.is_empty() { None } else { Some(h(&bytes)) });
    rep.sample(|| json!({"case": c, "args": args, "features": keep.len()}));
}

/// asks for attribute indexes in every way
fn choose_attr_indexes(r: &mut StdRng, j: &mut Job) {
    let t: cjseq::Transform = serde_json::from_value(j.header["transform"].clone()).unwrap();
    let keep = kept(j, &t);
    let names = attr_names(&keep);
    let single: Vec<String> = names.iter().filter(|(_, odd)| !**odd).map(|(n, _)| n.clone()).collect();
    match r.gen_range(0..3) {
        0 => {
            j.opts.extend(sv(&["-A", "true"]));
            // every column which can be indexed; what becomes of mixed types is judged by the round trip alone
            j.judge_indexes = !names.values().any(|odd| *odd);
            j.indexed = single.into_iter().collect();
        }
        1 => {
            let mut pick: Vec<String> = single.into_iter().filter(|n| !n.is_empty() && n.trim() == n && !n.contains(',')).collect();
            pick.shuffle(r);
            pick.truncate(r.gen_range(1..5));
            if pick.is_empty() {
                return;
            }
            j.indexed = pick.iter().cloned().collect();
            if r.gen_bool(0.2) {
                // one that is not there, is of no indexable type, or is named twice
                j.judge_indexes = false;
                let odd = names.iter().find(|(n, odd)| **odd && !n.is_empty() && n.trim() == n.as_str()).map(|(n, _)| n.clone());
                let n = [Some("no such attribute".to_string()), odd, Some(pick[0].clone())].choose(r).unwrap().clone();
                pick.extend(n);
            }
            let sep = *[",", ", ", " , "].choose(r).unwrap();
            j.opts.extend(["-a".into(), pick.join(sep)]);
        }
        _ => {}
    }
}

// -------------------------------------------------------------------------------- small decoders

fn cbor(b: &[u8], p: &mut usize) -> Result<Value, String> {
    let eof = || "end of data".to_string();
    let i = *b.get(*p).ok_or_else(eof)?;
    *p += 1;
    let (major, add) = (i >> 5, i & 31);
    let mut n = 0u64;
    if add >= 24 && add < 28 {
        let w = 1usize << (add - 24);
        for x in b.get(*p..*p + w).ok_or_else(eof)? {
            n = n << 8 | *x as u64;
        }
        *p += w;
    } else if add < 24 {
        n = add as u64;
    } else if add != 31 {
        return Err(format!("initial byte {i:#x}"));
    }
    let indefinite = add == 31;
    Ok(match major {
        0 => json!(n),
        1 => {
            let v = -1i128 - n as i128;
            i64::try_from(v).map(|v| json!(v)).map_err(|_| format!("{v} is no JSON integer"))?
        }
        3 if !indefinite => {
            let s = b.get(*p..*p + n as usize).ok_or_else(eof)?;
            *p += n as usize;
            json!(std::str::from_utf8(s).map_err(|e| e.to_string())?)
        }
        4 | 5 => {
            let mut a = vec![];
            let mut m = serde_json::Map::new();
            let mut k = 0;
            loop {
                if indefinite {
                    if b.get(*p) == Some(&0xff) {
                        *p += 1;
                        break;
                    }
                } else if k == n {
                    break;
                }
                k += 1;
                if major == 4 {
                    a.push(cbor(b, p)?);
                } else {
                    let key = cbor(b, p)?.as_str().ok_or("key is no text")?.to_string();
                    let v = cbor(b, p)?;
                    m.insert(key, v);
                }
            }
            if major == 4 { Value::Array(a) } else { Value::Object(m) }
        }
        7 => match add {
            20 => json!(false),
            21 => json!(true),
            22 => Value::Null,
            25 => {
                let (s, e, f) = (n >> 15 & 1, n >> 10 & 31, n & 1023);
                let x = if e == 31 { return Err("not finite".into()) } else if e == 0 { f as f64 * 2f64.powi(-24) } else { (1024 + f) as f64 * 2f64.powi(e as i32 - 25) };
                json!(if s == 1 { -x } else { x })
            }
            26 => json!(f32::from_bits(n as u32) as f64),
            27 => json!(f64::from_bits(n)),
            _ => return Err(format!("simple value {add}")),
        },
        _ => return Err(format!("major type {major}")),
    })
}

fn bson(b: &[u8], p: &mut usize, array: bool) -> Result<Value, String> {
    let eof = || "end of data".to_string();
    let start = *p;
    let take = |p: &mut usize, n: usize| -> Result<Vec<u8>, String> {
        let s = b.get(*p..*p + n).ok_or_else(eof)?;
        *p += n;
        Ok(s.to_vec())
    };
    let i32_ = |p: &mut usize| -> Result<i32, String> { Ok(i32::from_le_bytes(take(p, 4)?.try_into().unwrap())) };
    let len = i32_(p)? as usize;
    let mut m = serde_json::Map::new();
    let mut a = vec![];
    loop {
        let ty = take(p, 1)?[0];
        if ty == 0 {
            break;
        }
        let e = b[*p..].iter().position(|x| *x == 0).ok_or_else(eof)?;
        let key = String::from_utf8(take(p, e)?).map_err(|e| e.to_string())?;
        *p += 1;
        let v = match ty {
            1 => json!(f64::from_le_bytes(take(p, 8)?.try_into().unwrap())),
            2 => {
                let n = i32_(p)? as usize;
                let mut s = take(p, n)?;
                if s.pop() != Some(0) {
                    return Err("string without its end".into());
                }
                json!(String::from_utf8(s).map_err(|e| e.to_string())?)
            }
            3 => bson(b, p, false)?,
            4 => bson(b, p, true)?,
            8 => json!(take(p, 1)?[0] != 0),
            10 => Value::Null,
            16 => json!(i32_(p)?),
            18 => json!(i64::from_le_bytes(take(p, 8)?.try_into().unwrap())),
            _ => return Err(format!("element type {ty}")),
        };
        if array {
            if key != a.len().to_string() {
                return Err(format!("array element {key} is number {}", a.len()));
            }
            a.push(v);
        } else if m.insert(key.clone(), v).is_some() {
            return Err(format!("{key} twice"));
        }
    }
    if *p - start != len {
        return Err(format!("document says {len} bytes and has {}", *p - start));
    }
    Ok(if array { Value::Array(a) } else { Value::Object(m) })
}

fn has(v: &Value, f: &dyn Fn(&str, &Value) -> bool) -> bool {
    match v {
        Value::Array(a) => a.iter().any(|x| f("", x) || has(x, f)),
        Value::Object(m) => m.iter().any(|(k, x)| f(k, x) || has(x, f)),
        _ => false,
    }
}

fn codec(r: &mut StdRng, c: u64, rep: &mut Rep) {
    let sc = Scratch::new();
    let cmd = *["cbor", "bson"].choose(r).unwrap();
    let doc = if cmd == "cbor" && r.gen() {
        let a: Vec<Value> = (0..r.gen_range(0..6)).map(|_| any_json(r, 4)).collect();
        let f: Vec<f64> = (0..8).map(|_| finite(r)).collect();
        json!({"a": a, "floats": f, "ints": [0, 23, 24, 255, 256, 65535, 65536, u32::MAX, 1u64 << 32, u64::MAX, -1, -24, -25, -257, i64::MIN, r.gen::<i64>()]})
    } else {
        let n = r.gen_range(0..3);
        let j = job(r, n);
        let mut d = j.header.clone();
        let mut objs = serde_json::Map::new();
        let mut vs = vec![];
        for f in &j.feats {
            objs.extend(f["CityObjects"].as_object().unwrap().clone());
            vs = f["vertices"].as_array().unwrap().clone();
        }
        d["CityObjects"] = Value::Object(objs);
        d["vertices"] = json!(vs);
        d
    };
    let mut doc = doc;
    stabilise(&mut doc);
    let text = if r.gen() { doc.to_string() } else { serde_json::to_string_pretty(&doc).unwrap() };
    let (inf, outf) = (sc.file("in.json"), sc.file("out"));
    let (si, so): (bool, bool) = (r.gen(), r.gen());
    if !si {
        std::fs::write(&inf, &text).unwrap();
    }
    let ran = fcb(&sv(&[cmd, "-i", if si { "-" } else { &inf }, "-o", if so { "-" } else { &outf }]), si.then_some(text.as_bytes()), Stdout::Captured, &sc.0);
    rep.inc("processes");
    let want = if cmd == "cbor" {
        doc.clone()
    } else {
        serde_json::to_value(parse_header(&doc)).unwrap()
    };
    if !ran.ok() {
        // BSON has no such integers and no such names
        let cannot = cmd == "bson" && (has(&want, &|k, v| k.contains('\0') || v.as_u64().is_some_and(|x| x > i64::MAX as u64)));
        if !cannot {
            rep.violate(format!("{cmd}:refused"), ran.show());
        }
        rep.inc(&format!("{cmd}_refused"));
        return;
    }
    let out = if so {
        ran.out
    } else {
        if !ran.out.is_empty() {
            rep.violate(format!("{cmd}:stdout"), String::from_utf8_lossy(&ran.out));
        }
        std::fs::read(&outf).unwrap_or_default()
    };
    let mut p = 0;
    let got = if cmd == "cbor" { cbor(&out, &mut p) } else { bson(&out, &mut p, false) };
    match got {
        Err(e) => rep.violate(format!("{cmd}:malformed"), format!("{e} at byte {p} of {}", out.len())),
        Ok(_) if p != out.len() => rep.violate(format!("{cmd}:trailing"), format!("{} bytes after the document", out.len() - p)),
        Ok(g) => {
            if let Some((p, m)) = diff(&want, &g) {
                rep.violate(format!("{cmd}:{}", generalise(&p)), format!("{p}: {m}"));
            }
        }
    }
    rep.inc(&format!("{cmd}_documents"));
    rep.eval(Some(h(&out)));
    rep.sample(|| json!({"case": c, "command": cmd, "bytes": out.len()}));
}

// ------------------------------------------------------------------------------------- failures

fn failures(r: &mut StdRng, c: u64, rep: &mut Rep) {
    let sc = Scratch::new();
    let n = r.gen_range(1..6);
    let mut j = job(r, n);
    if r.gen() {
        choose_attr_indexes(r, &mut j);
    }
    let text = stream(r, &j.header, &j.feats);
    let (inf, outf) = (sc.file("in"), sc.file("out"));
    // a valid file to break
    let mut a = sv(&["ser", "-i", "-", "-o", "-"]);
    a.extend(j.opts.clone());
    let valid = fcb(&a, Some(&text), Stdout::Captured, &sc.0);
    if !valid.ok() {
        return rep.violate("ser:refused", format!("{}: {}", a.join(" "), valid.show()));
    }
    let file = valid.out;
    let cj = {
        let mut d = j.header.clone();
        d["CityObjects"] = json!({});
        d.to_string()
    };
    let mut mode = Stdout::Captured;
    let mut out = if r.gen() { "-".to_string() } else { outf.clone() };
    let mut input: Option<Vec<u8>> = None;
    let mut extra: Vec<String> = vec![];
    let cmd;
    let what = *[
        "no_input", "no_out_dir", "empty", "cut_text", "bad_feature_line", "bad_header_line", "bad_bbox", "bad_option", "full", "broken_pipe", "cut_fcb", "not_fcb", "bad_codec",
        "input_is_directory",
    ]
    .choose(r)
    .unwrap();
    let any = ["ser", "deser", "cbor", "bson"];
    let good = |cmd: &str| -> Vec<u8> {
        match cmd {
            "ser" => text.clone(),
            "deser" => file.clone(),
            _ => cj.clone().into_bytes(),
        }
    };
    let mut args_in = None;
    match what {
        "no_input" => {
            cmd = *["ser", "deser", "cbor", "bson", "info"].choose(r).unwrap();
            args_in = Some(sc.file("missing"));
        }
        "input_is_directory" => {
            cmd = *["ser", "deser", "cbor", "bson", "info"].choose(r).unwrap();
            args_in = Some(sc.0.to_str().unwrap().to_string());
        }
        "no_out_dir" => {
            cmd = *any.choose(r).unwrap();
            input = Some(good(cmd));
            out = sc.file("nowhere/out");
        }
        "empty" => {
            cmd = *["ser", "deser", "cbor", "bson", "info"].choose(r).unwrap();
            input = Some(vec![]);
        }
        "cut_text" => {
            cmd = "ser";
            // anywhere but at the end of a line
            let mut at = r.gen_range(1..text.len());
            let line_end = |at: usize| text[at..].first().is_none_or(|c| *c == b'\n' || *c == b'\r') || text[at - 1] == b'\n';
            while at > 1 && line_end(at) {
                at -= 1;
            }
            input = Some(text[..at].to_vec());
        }
        "bad_feature_line" => {
            cmd = "ser";
            let mut lines: Vec<String> = String::from_utf8(text.clone()).unwrap().lines().map(|l| l.to_string()).collect();
            let k = r.gen_range(1..lines.len());
            match r.gen_range(0..5) {
                0 => lines[k] = "not json".into(),
                1 => lines[k] = "[]".into(),
                2 => lines[k] = "{}".into(),
                3 => lines[k].push('}'),
                _ => lines[k] = lines[k].replacen("\"vertices\"", "\"vertizes\"", 1),
            }
            input = Some(lines.join("\n").into_bytes());
        }
        "bad_header_line" => {
            cmd = "ser";
            let mut lines: Vec<String> = String::from_utf8(text.clone()).unwrap().lines().map(|l| l.to_string()).collect();
            match r.gen_range(0..4) {
                0 => lines[0] = "".into(),
                1 => lines[0] = "{}".into(),
                2 => {
                    lines.remove(0);
                }
                _ => lines[0] = lines[0].replacen("\"transform\"", "\"transporm\"", 1),
            }
            input = Some(lines.join("\n").into_bytes());
        }
        "bad_bbox" => {
            cmd = "ser";
            input = Some(text.clone());
            let b = *["1,2,3", "1,2,3,4,5", "a,b,c,d", "", "5,0,1,1", "0,5,1,1", "1,2,3,", "1;2;3;4", "0 0 1 1", "0,0,1,1x"].choose(r).unwrap();
            extra = vec![format!("--bbox={b}")];
        }
        "bad_option" => {
            cmd = *any.choose(r).unwrap();
            input = Some(good(cmd));
            extra = match r.gen_range(0..4) {
                0 => sv(&["--attr-branching-factor", "65536"]),
                1 => sv(&["--attr-branching-factor", "x"]),
                2 => sv(&["-A", "maybe"]),
                _ => sv(&["--no-such-option"]),
            };
        }
        "full" | "broken_pipe" => {
            cmd = *["ser", "deser", "cbor", "bson", "info"].choose(r).unwrap();
            mode = if what == "full" { Stdout::Full } else { Stdout::Broken };
            input = Some(good(if cmd == "info" { "deser" } else { cmd }));
            out = if what == "full" && cmd != "info" && r.gen() { "/dev/full".into() } else { "-".into() };
        }
        "cut_fcb" => {
            cmd = "deser";
            let at = r.gen_range(0..file.len());
            input = Some(file[..at].to_vec());
        }
        "not_fcb" => {
            cmd = *["deser", "info"].choose(r).unwrap();
            input = Some(match r.gen_range(0..4) {
                0 => text.clone(),
                1 => {
                    let mut f = file.clone();
                    f[r.gen_range(0..3)] ^= 1 << r.gen_range(0..8);
                    f
                }
                2 => {
                    let mut f = file.clone();
                    f.splice(8..12, [0xff, 0xff, 0xff, 0x7f]);
                    f
                }
                _ => {
                    let hl = 12 + u32::from_le_bytes(file[8..12].try_into().unwrap()) as usize;
                    file[..r.gen_range(0..hl)].to_vec()
                }
            });
        }
        _ => {
            cmd = *["cbor", "bson"].choose(r).unwrap();
            let t = match r.gen_range(0..3) {
                0 => cj[..cj.len() - r.gen_range(1..3)].to_string(),
                1 => format!("{cj}}}"),
                _ => "nul".into(),
            };
            input = Some(t.into_bytes());
        }
    }
    let by_stdin = cmd != "info" && r.gen() && args_in.is_none();
    let arg = match &args_in {
        Some(a) => a.clone(),
        None if by_stdin => "-".into(),
        None => {
            std::fs::write(&inf, input.as_deref().unwrap_or(b"")).unwrap();
            inf.clone()
        }
    };
    let mut args = sv(&[cmd, "-i", &arg]);
    if cmd != "info" {
        args.extend(sv(&["-o", &out]));
    }
    args.extend(extra);
    let ran = fcb(&args, if by_stdin { input.as_deref() } else { None }, mode, &sc.0);
    rep.inc("processes");
    rep.inc(&format!("failure_{what}"));
    if ran.late {
        rep.violate(format!("hang:{cmd}:{what}"), args.join(" "));
    } else if ran.ok() {
        rep.violate(format!("unreported:{cmd}:{what}"), format!("{}: {}", args.join(" "), ran.show()));
    } else if ran.code.is_none() {
        rep.violate(format!("killed:{cmd}:{what}"), format!("{}: {}", args.join(" "), ran.show()));
    } else if ran.err.is_empty() {
        rep.violate(format!("silent:{cmd}:{what}"), args.join(" "));
    }
    if out == "-" && mode == Stdout::Captured && cmd != "info" {
        // what reached standard output before the failure is data, not the message
        let o = String::from_utf8_lossy(&ran.out);
        if let Some(l) = ran.err.lines().find(|l| l.len() > 8 && o.contains(*l)) {
            rep.violate("message_on_stdout", format!("{}: {l:?}", args.join(" ")));
        }
    }
    rep.eval(Some(h(&(args[0].clone(), what, input, mode as u8, out == "-"))));
    rep.sample(|| json!({"case": c, "failure": what, "command": cmd, "exit": ran.code, "stderr": ran.err.chars().take(120).collect::<String>()}));
}

pub fn c14(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "options", ctx.n(2500, 60_000), |r, c, rep| {
        let n = *[0usize, 1, 2, 3, 5, 8, 20].choose(r).unwrap();
        let mut j = job(r, n);
        choose_options(r, &mut j);
        choose_attr_indexes(r, &mut j);
        there_and_back(r, c, rep, &j);
    });
    // attributes that appear, or change their type, only far down the stream
    run_cases(ctx, rep, "long", ctx.n(12, 300), |r, c, rep| {
        let n = r.gen_range(900..2600);
        let late = r.gen_range(0..n);
        let cfg = DsCfg { n, max_objs: 1, max_geoms: 1, max_verts: 3, attrs: vec![("n".into(), K::ULong), ("s".into(), K::Str)], geom: GeomCfg { maxlen: 1, ..Default::default() }, ..Default::default() };
        let d = dataset(r, &cfg);
        let mut feats = d.feats_json.clone();
        let k = *KINDS.choose(r).unwrap();
        for (i, f) in feats.iter_mut().enumerate().skip(late) {
            if i == late || r.gen_bool(0.01) {
                let o = f["CityObjects"].as_object_mut().unwrap().values_mut().next().unwrap();
                o["attributes"]["late"] = value_of(r, k);
                if r.gen_bool(0.5) {
                    o["attributes"]["n"] = json!(*[-1.0, 1.5, 7.0].choose(r).unwrap() as f64);
                }
            }
        }
        let mut header = d.header_json;
        stabilise(&mut header);
        feats.iter_mut().for_each(stabilise);
        let mut j = Job { header, feats, opts: vec![], bbox: None, ge: true, spatial: true, indexed: BTreeSet::new(), judge_indexes: true, bf: None };
        choose_options(r, &mut j);
        choose_attr_indexes(r, &mut j);
        there_and_back(r, c, rep, &j);
    });
    run_cases(ctx, rep, "failures", ctx.n(2000, 40_000), failures);
    run_cases(ctx, rep, "codecs", ctx.n(1000, 20_000), codec);
    run_cases(ctx, rep, "float_text", 1, |r, _, rep| {
        let mut j = job(r, 1);
        j.header["transform"]["translate"] = json!([0.0, 0.0, 0.0]);
        j.header.as_object_mut().unwrap().remove("metadata");
        let x = "200813.19685868942";
        let text = stream(r, &j.header, &j.feats);
        let text = String::from_utf8(text).unwrap().replacen("\"translate\":[0.0,", &format!("\"translate\":[{x},"), 1);
        let sc = Scratch::new();
        let a = fcb(&sv(&["ser", "-i", "-", "-o", "-"]), Some(text.as_bytes()), Stdout::Captured, &sc.0);
        let b = fcb(&sv(&["deser", "-i", "-", "-o", "-"]), Some(&a.out), Stdout::Captured, &sc.0);
        if !a.ok() || !b.ok() || !text.contains(x) {
            rep.violate("float_text:run", format!("{} {}", a.show(), b.show()));
        } else if !String::from_utf8_lossy(&b.out).contains(&format!("[{x},")) {
            rep.violate(format!("number_text_rounded:{x}"), format!("a translate of {x} comes back as another number"));
        }
        rep.eval(Some(h(x)));
    });
    // degenerate branching factors: refused, or nothing lost
    run_cases(ctx, rep, "branching", ctx.n(60, 1000), |r, c, rep| {
        let n = r.gen_range(1..12);
        let mut j = job(r, n);
        choose_attr_indexes(r, &mut j);
        let bf = r.gen_range(0..2u16);
        j.opts.extend(sv(&["--attr-branching-factor", &bf.to_string()]));
        let mut a = sv(&["ser", "-i", "-", "-o", "-"]);
        a.extend(j.opts.clone());
        let text = stream(r, &j.header, &j.feats);
        let sc = Scratch::new();
        let ran = fcb(&a, Some(&text), Stdout::Captured, &sc.0);
        rep.inc("processes");
        if ran.ok() {
            rep.inc("degenerate_branching_accepted");
            let back = fcb(&sv(&["deser", "-i", "-", "-o", "-"]), Some(&ran.out), Stdout::Captured, &sc.0);
            let lines = String::from_utf8_lossy(&back.out).lines().count();
            if !back.ok() || lines != n + 1 {
                rep.violate("branching:lost", format!("{}: {lines} lines of {}: {}", a.join(" "), n + 1, back.show()));
            }
        } else if ran.late || ran.code.is_none() {
            rep.violate("branching:hang", a.join(" "));
        } else {
            rep.inc("degenerate_branching_refused");
        }
        rep.eval(Some(h(&(c, bf))));
    });
}
