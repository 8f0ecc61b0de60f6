//! Reader equivalence (C08), iterator contract (C11) and read faults (C12).
use crate::attrq::*;
use crate::gen::*;
use crate::lib_io::*;
use crate::rep::*;
use cjseq::CityJSONFeature;
use fallible_streaming_iterator::FallibleStreamingIterator;
use fcb_core::deserializer::to_cj_metadata;
use fcb_core::{FcbReader, HttpFcbReader};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::io::{self, Cursor};
use std::sync::Arc;

pub struct Rich {
    pub d: Dataset,
    pub bytes: Arc<Vec<u8>>,
    pub sels: Vec<Sel>,
    pub desc: String,
}

/// datasets with geometry, attributes, appearance and indexes, and selections which make sense on them
pub fn rich(r: &mut StdRng, max_n: usize, n_sel: usize) -> Result<Rich, String> {
    let (d, sels, desc) = rich_data(r, max_n, n_sel);
    let bytes = Arc::new(write_ds(&d)?);
    Ok(Rich { d, bytes, sels, desc })
}
/// the same, now and then with a spatial index of another node size than the writer's
pub fn rich_any(r: &mut StdRng, max_n: usize, n_sel: usize) -> Result<Rich, String> {
    let (mut d, sels, mut desc) = rich_data(r, max_n, n_sel);
    let k = (!d.feats.is_empty() && r.gen_bool(0.25)).then(|| *crate::layout::NODE_SIZES.choose(r).unwrap());
    let bytes = if let Some(k) = k {
        d.opts.write_index = false;
        let b = write_ds(&d)?;
        d.opts.write_index = true;
        let g = |m: &str| [d.header_json["transform"][m][0].as_f64().unwrap(), d.header_json["transform"][m][1].as_f64().unwrap()];
        desc = format!("{desc}, node size {k}");
        crate::layout::renode(&b, k, g("scale"), g("translate"))?
    } else {
        write_ds(&d)?
    };
    Ok(Rich { d, bytes: Arc::new(bytes), sels, desc })
}
/// the same without writing anything
pub fn rich_data(r: &mut StdRng, max_n: usize, n_sel: usize) -> (Dataset, Vec<Sel>, String) {
    let n = match r.gen_range(0..10) {
        0 => 0,
        1 => 1,
        2 => *[15usize, 16, 17, 18].choose(r).unwrap().min(&max_n),
        _ => r.gen_range(1..=max_n),
    };
    let kinds: Vec<K> = (0..r.gen_range(0..5)).map(|_| if r.gen_bool(0.1) { K::Json } else { *INDEXABLE.choose(r).unwrap() }).collect();
    let attrs: Vec<(String, K)> = kinds.iter().enumerate().map(|(i, k)| (format!("a{i}"), *k)).collect();
    let mut index_attrs: Vec<(String, Option<u16>)> = vec![];
    for (n, _) in &attrs {
        if r.gen_bool(0.7) {
            index_attrs.push((n.clone(), *[None, Some(2), Some(4), Some(16), Some(300)].choose(r).unwrap()));
        }
    }
    let heavy = r.gen_bool(0.15);
    let c = DsCfg {
        n,
        geom: GeomCfg {
            semantics: r.gen(),
            materials: r.gen(),
            textures: r.gen(),
            maxlen: if heavy { 6 } else { 2 },
            n_templates: if r.gen_bool(0.2) { 2 } else { 0 },
            sem_attrs: if r.gen_bool(0.3) { vec![("sa".into(), K::Str), ("sb".into(), K::Double)] } else { vec![] },
            ..Default::default()
        },
        max_verts: if heavy { 200 } else { 6 },
        max_objs: 2,
        max_geoms: 2,
        coord: *[50, 1_000_000].choose(r).unwrap(),
        attrs: attrs.clone(),
        write_index: r.gen_bool(0.85),
        index_attrs: index_attrs.clone(),
        feature_appearance: r.gen_bool(0.3),
        ext_types: r.gen_bool(0.2),
        ..Default::default()
    };
    let d = dataset(r, &c);
    let mut sels = vec![Sel::All];
    let tr = &d.header_json["transform"];
    let f = |v: &Value, i: usize| v[i].as_f64().unwrap();
    let real = |v: &Value| (f(v, 0) * f(&tr["scale"], 0) + f(&tr["translate"], 0), f(v, 1) * f(&tr["scale"], 1) + f(&tr["translate"], 1));
    let some_pt = |r: &mut StdRng| -> (f64, f64) {
        if d.feats_json.is_empty() {
            return (0.0, 0.0);
        }
        let f = d.feats_json.choose(r).unwrap();
        real(f["vertices"].as_array().unwrap().choose(r).unwrap())
    };
    for _ in 0..n_sel {
        let (a, b) = (some_pt(r), some_pt(r));
        let s = match r.gen_range(0..8) {
            0 => Sel::Point(a.0, a.1),
            1 => Sel::Nearest(a.0, a.1),
            2 => Sel::Bbox(-1e300, -1e300, 1e300, 1e300),
            3 => Sel::Bbox(a.0, a.1, a.0, a.1),
            4 | 5 => Sel::Bbox(a.0.min(b.0), a.1.min(b.1), a.0.max(b.0), a.1.max(b.1)),
            _ => {
                let mut q = vec![];
                for _ in 0..r.gen_range(1..3) {
                    let Some((name, _)) = index_attrs.choose(r) else { continue };
                    let k = attrs.iter().find(|a| &a.0 == name).unwrap().1;
                    let mut vals = vec![];
                    for f in &d.feats_json {
                        for o in f["CityObjects"].as_object().unwrap().values() {
                            if let Some(v) = o["attributes"].get(name) {
                                vals.push(v.clone());
                            }
                        }
                    }
                    let v = vals.choose(r).cloned().filter(|_| r.gen_bool(0.8)).unwrap_or_else(|| value_of(r, k));
                    if let Some(key) = key_of(k, &v) {
                        q.push((name.clone(), *OPS.choose(r).unwrap(), key));
                    }
                }
                if q.is_empty() {
                    continue;
                }
                Sel::Attr(q)
            }
        };
        sels.push(s);
    }
    let desc = format!("{n} features, attributes {attrs:?}, indexes {index_attrs:?}, spatial index {}", c.write_index);
    (d, sels, desc)
}

/// what the header says, member by member
pub fn header_of(h: fcb_core::Header) -> Value {
    let cols = |c: Option<flatbuffers::Vector<flatbuffers::ForwardsUOffset<fcb_core::Column>>>| {
        c.map(|c| c.iter().map(|c| json!([c.index(), c.name(), format!("{:?}", c.type_())])).collect::<Vec<_>>())
    };
    json!({
        "cj": to_cj_metadata(&h).map(|m| serde_json::to_value(m).unwrap()).unwrap_or_else(|e| json!(e.to_string())),
        "count": h.features_count(), "node": h.index_node_size(),
        "columns": cols(h.columns()), "sem": cols(h.semantic_columns()),
        "attr": h.attribute_index().map(|a| a.iter().map(|a| json!([a.index(), a.length(), a.branching_factor(), a.num_unique_items()])).collect::<Vec<_>>()),
    })
}

pub fn feats_json(d: &Drained) -> Vec<Value> {
    d.feats.iter().map(canon).collect()
}

/// first difference of two feature sequences
pub fn seq_diff(a: &[Value], b: &[Value]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if let Some((p, m)) = diff(x, y) {
            return Some(format!("feature {i} ({} / {}) differs at {p}: {m}", x["id"], y["id"]));
        }
    }
    (a.len() != b.len()).then(|| format!("{} against {} features", a.len(), b.len()))
}

pub fn c08(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "modes", ctx.n(4_800, 120_000), |r, _, rep| {
        let ds = match rich_any(r, 45, 7) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        // headers
        let hs = guard(|| {
            let a = FcbReader::open(Cursor::new(&ds.bytes[..])).map(|x| header_of(x.header())).map_err(|e| e.to_string());
            let b = block_on(async { HttpFcbReader::new(MockHttp::new(ds.bytes.clone()).buffered()).await.map(|x| header_of(x.header())).map_err(|e| e.to_string()) });
            (a, b)
        });
        match hs {
            Ok((Ok(a), Ok(b))) => {
                if let Some((p, m)) = diff(&a, &b) {
                    rep.violate("header", format!("headers differ at {p}: {m}"));
                }
            }
            o => rep.violate("header_error", format!("{o:?}")),
        }
        for sel in &ds.sels {
            let chunk = *[1usize, 2, 7, 64, 4096].choose(r).unwrap();
            let fr = || {
                let mut f = FaultReader::new(ds.bytes.clone());
                f.chunk = chunk;
                f
            };
            let m = MockHttp::new(ds.bytes.clone());
            let all = [
                ("seek", drain_seek(Cursor::new(&ds.bytes[..]), sel)),
                ("seq", drain_seq(&ds.bytes[..], sel)),
                ("http", drain_http(&m, sel)),
                ("seek_split", drain_seek(fr(), sel)),
                ("seq_split", drain_seq(fr(), sel)),
                ("seek_buffered", drain_seek(io::BufReader::with_capacity(r.gen_range(1..100), fr()), sel)),
            ];
            let first = &all[0].1;
            let want = feats_json(first);
            for (mode, d) in &all[1..] {
                if d.ok() != first.ok() || d.panic.is_some() {
                    // an empty dataset has no index to search: an error in every mode or nothing in every mode
                    rep.violate(format!("outcome:{mode}:{}", sel.name()), format!("{}: seek: {}; {mode}: {}; {}", sel.show(), first.problem(), d.problem(), ds.desc));
                    continue;
                }
                // announced counts agree as well ("not known" and 0 are the same for an empty result)
                if first.ok() && d.announced.unwrap_or(0) != first.announced.unwrap_or(0) {
                    rep.violate(format!("announced:{mode}:{}", sel.name()), format!("{}: {:?} against {:?}; {}", sel.show(), first.announced, d.announced, ds.desc));
                }
                if let Some(m) = seq_diff(&want, &feats_json(d)) {
                    rep.violate(format!("features:{mode}:{}", sel.name()), format!("{}: {m}; {}", sel.show(), ds.desc));
                }
            }
            if first.panic.is_some() {
                rep.violate(format!("outcome:seek:{}", sel.name()), format!("{}: {}", sel.show(), first.problem()));
            }
            rep.inc(&format!("sel_{}{}", sel.name(), if first.ok() { "" } else { "_error" }));
            rep.add("features_compared", want.len() as u64 * 5);
            rep.add("http_requests", m.log.lock().unwrap().len() as u64);
            rep.eval((!want.is_empty()).then(|| h(&(&ds.bytes[..], sel.show()))));
        }
        rep.sample(|| json!({"dataset": ds.desc, "bytes": ds.bytes.len(), "selections": ds.sels.iter().map(|s| s.show()).collect::<Vec<_>>()}));
    });
    // the reader's own HTTP client against a web server, and the readers that skip verification
    let srv = FileServer::start();
    run_cases(ctx, rep, "web", ctx.n(64, 1200), |r, c, rep| {
        let ds = match rich_any(r, 45, 3) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        let name = format!("{c}.fcb");
        let url = srv.serve(&name, ds.bytes.clone());
        for sel in &ds.sels {
            let first = drain_seek(Cursor::new(&ds.bytes[..]), sel);
            let want = feats_json(&first);
            // SAFETY: the file was just written by the library
            let all = [
                ("web", drain_http_by(HttpFcbReader::open(&url), sel)),
                ("seek_unchecked", drain_seek_by(|| unsafe { FcbReader::open_unchecked(Cursor::new(&ds.bytes[..])) }, sel)),
                ("seq_unchecked", drain_seq_by(|| unsafe { FcbReader::open_unchecked(&ds.bytes[..]) }, sel)),
            ];
            for (mode, d) in &all {
                if d.ok() != first.ok() || d.panic.is_some() {
                    rep.violate(format!("outcome:{mode}:{}", sel.name()), format!("{}: seek: {}; {mode}: {}; {}", sel.show(), first.problem(), d.problem(), ds.desc));
                } else if let Some(m) = seq_diff(&want, &feats_json(d)) {
                    rep.violate(format!("features:{mode}:{}", sel.name()), format!("{}: {m}; {}", sel.show(), ds.desc));
                }
            }
            rep.inc("web_selections");
            rep.eval((!want.is_empty()).then(|| h(&(&ds.bytes[..], sel.show(), "web"))));
        }
        // what each reader says about the file and about the feature it stands on
        let res = guard(|| -> Result<(), String> {
            let hd = header_of(FcbReader::open(Cursor::new(&ds.bytes[..])).map_err(|e| e.to_string())?.header());
            let cols = |c: Option<flatbuffers::Vector<flatbuffers::ForwardsUOffset<fcb_core::Column>>>| c.map(|c| c.iter().map(|c| (c.name().to_string(), c.index(), c.type_().0)).collect::<Vec<_>>());
            let rd = unsafe { FcbReader::open_unchecked(&ds.bytes[..]) }.map_err(|e| e.to_string())?;
            let schema = cols(rd.root_attr_schema());
            if schema != cols(rd.header().columns()) {
                return Err("schema of the reader".into());
            }
            let mut it = rd.select_all_seq().map_err(|e| e.to_string())?;
            if schema != cols(it.root_attr_schema()) || header_of(it.header()) != hd {
                return Err("schema or header of the sequential iterator".into());
            }
            let mut jt = FcbReader::open(Cursor::new(&ds.bytes[..])).and_then(|r| r.select_all()).map_err(|e| e.to_string())?;
            if schema != cols(jt.root_attr_schema()) || header_of(jt.header()) != hd {
                return Err("schema or header of the seekable iterator".into());
            }
            block_on(async {
                let rd = HttpFcbReader::open(&url).await.map_err(|e| e.to_string())?;
                if header_of(rd.header()) != hd {
                    return Err("header of the HTTP reader".to_string());
                }
                let mut kt = rd.select_all().await.map_err(|e| e.to_string())?;
                if header_of(kt.header()) != hd {
                    return Err("header of the HTTP iterator".to_string());
                }
                let mut total = 0;
                loop {
                    let a = it.next().map_err(|e| e.to_string())?.map(|f| (f.cur_feature().id().to_string(), f.cur_cj_feature().map(|f| canon(&f)).ok()));
                    let b = jt.next().map_err(|e| e.to_string())?.map(|f| {
                        total += f.cur_feature_len();
                        if f.get_current_feature().id() != f.cur_feature().id() {
                            return ("two current features".to_string(), None);
                        }
                        (f.cur_feature().id().to_string(), f.cur_cj_feature().map(|f| canon(&f)).ok())
                    });
                    let k = kt.next().await.map_err(|e| e.to_string())?.is_some();
                    let e = if k { Some((kt.cur_feature().feature().id().to_string(), kt.cur_cj_feature().map(|f| canon(&f)).ok())) } else { None };
                    if a != b || a != e {
                        return Err(format!("seq {a:?}, seek {b:?}, HTTP {e:?}"));
                    }
                    if a.is_none() {
                        break;
                    }
                    rep.inc("current_features_compared");
                }
                match crate::layout::parse(&ds.bytes) {
                    Ok(p) if total != ds.bytes.len() - p.feats_begin => Err(format!("the features are {} bytes and are said to be {total}", ds.bytes.len() - p.feats_begin)),
                    _ => Ok(()),
                }
            })
        });
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => rep.violate("current", e),
            Err(p) => rep.violate(format!("panic:{}", p.file()), format!("{}: {}", p.loc, p.msg)),
        }
        srv.withdraw(&name);
    });
    rep.add("range_requests_served", srv.ranges.load(std::sync::atomic::Ordering::Relaxed));
    // large features and large distances between selected features: request merging and buffer refills
    run_cases(ctx, rep, "large", ctx.n(36, 600), |r, _, rep| {
        let (bytes, sels) = match large_ds(r, 60) {
            Ok(x) => x,
            Err(e) => return rep.violate("write", e),
        };
        rep.max("max_file_bytes", bytes.len() as u64);
        for sel in &sels {
            let a = drain_seek(Cursor::new(&bytes[..]), sel);
            let b = drain_seq(&bytes[..], sel);
            let c = drain_http(&MockHttp::new(bytes.clone()), sel);
            let want = feats_json_of(&a);
            for (mode, d) in [("seek", &a), ("seq", &b), ("http", &c)] {
                if !d.ok() {
                    rep.violate(format!("outcome:{mode}:{}", sel.name()), format!("large features, {}: {}", sel.show(), d.problem()));
                } else if let Some(m) = seq_diff(&want, &feats_json_of(d)) {
                    rep.violate(format!("features:{mode}:{}", sel.name()), format!("large features, {}: {}", sel.show(), &m[..m.len().min(300)]));
                }
            }
            rep.inc("large_selections");
            rep.eval((!want.is_empty()).then(|| h(&(&want.len(), sel.show(), bytes.len()))));
        }
    });
}
/// few features, some of them larger than any buffer
fn large_ds(r: &mut StdRng, max: usize) -> Result<(Arc<Vec<u8>>, Vec<Sel>), String> {
    let n = r.gen_range(max / 8..max);
    let header_json = json!({"type":"CityJSON","version":"2.0","CityObjects":{},"vertices":[],
        "transform":{"scale":[1.0,1.0,1.0],"translate":[0.0,0.0,0.0]}});
    let cols = vec![("k".to_string(), K::UInt), ("blob".to_string(), K::Str)];
    let feats_json: Vec<Value> = (0..n)
        .map(|i| {
            let big = *[0usize, 10, 3000, 70_000, 300_000, 1_200_000].choose(r).unwrap();
            let fill = (b'a' + (i % 26) as u8) as char;
            let id = format!("f{i}");
            json!({"type":"CityJSONFeature","id":id,"CityObjects":{id.clone():{"type":"Building","attributes":{"k": i % 7, "blob": fill.to_string().repeat(big)}}},
                "vertices":[[r.gen_range(0..1000), r.gen_range(0..1000), 0]]})
        })
        .collect();
    let d = Dataset {
        header: parse_header(&header_json),
        header_json,
        feats: feats_json.iter().map(parse_feature).collect(),
        feats_json,
        schema: schema_of(&cols, r),
        sem_schema: None,
        opts: fcb_core::header_writer::HeaderWriterOptions {
            write_index: true,
            feature_count: n as u64,
            index_node_size: 16,
            attribute_indices: Some(vec![("k".into(), None)]),
            geographical_extent: None,
        },
    };
    let bytes = Arc::new(write_ds(&d)?);
    let mut sels = vec![Sel::All, Sel::Attr(vec![("k".into(), *OPS.choose(r).unwrap(), fcb_core::KeyType::UInt32(r.gen_range(0..7)))])];
    for _ in 0..3 {
        let (x, y, w) = (r.gen_range(0.0..1000.0), r.gen_range(0.0..1000.0), r.gen_range(0.0..600.0));
        sels.push(Sel::Bbox(x - w, y - w, x + w, y + w));
    }
    Ok((bytes, sels))
}
fn feats_json_of(d: &Drained) -> Vec<Value> {
    feats_json(d)
}

// ---------------------------------------------------------------------------------------------
// C11

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Next,
    Cur,
    Hint,
    Count,
    Header,
}

/// The online monitor of the iterator contract: fed with every call made and every answer seen.
struct IterMonitor<'a> {
    want: &'a [CityJSONFeature],
    want_json: &'a [Value],
    /// features delivered so far
    at: usize,
    ended: bool,
    bad: Vec<(String, String)>,
    log: Vec<String>,
    announced: Option<Option<usize>>,
}
impl IterMonitor<'_> {
    fn bad(&mut self, what: &str, m: String) {
        if self.bad.len() < 3 {
            self.bad.push((what.into(), format!("{m}; history {:?}", &self.log[self.log.len().saturating_sub(12)..])));
        }
    }
    fn next(&mut self, got: Result<bool, String>) {
        self.log.push(format!("next={got:?}"));
        match got {
            Err(e) => self.bad("error", format!("error after {} of {} features: {e}", self.at, self.want.len())),
            Ok(true) => {
                if self.ended {
                    self.bad("after_end", "a feature after the end was reported".into());
                }
                self.at += 1;
                if self.at > self.want.len() {
                    self.bad("too_many", format!("more than {} features", self.want.len()));
                }
            }
            Ok(false) => {
                if !self.ended && self.at != self.want.len() {
                    self.bad("too_few", format!("ended after {} of {} features", self.at, self.want.len()));
                }
                self.ended = true;
            }
        }
    }
    fn cur(&mut self, got: Result<CityJSONFeature, String>) {
        if self.at == 0 || self.at > self.want.len() {
            return;
        }
        self.log.push("cur".into());
        match got {
            Err(e) => self.bad("cur_error", e),
            Ok(f) => {
                if let Some((p, m)) = diff(&self.want_json[self.at - 1], &canon(&f)) {
                    self.bad("cur", format!("current feature {} differs at {p}: {m}", self.at - 1));
                }
            }
        }
    }
    fn hint(&mut self, lo: usize, hi: Option<usize>) {
        self.log.push(format!("hint={lo},{hi:?}"));
        let left = self.want.len().saturating_sub(self.at);
        if lo > left || hi.is_some_and(|h| h < left) {
            self.bad("size_hint", format!("size hint {lo}..{hi:?} with {left} features left"));
        }
    }
    fn count(&mut self, got: Option<usize>) {
        self.log.push(format!("count={got:?}"));
        if let Some(a) = self.announced {
            if a != got {
                self.bad("count_changes", format!("announced count {a:?} became {got:?}"));
            }
        }
        self.announced = Some(got);
        // None: not known
        if got.is_some_and(|g| g != self.want.len()) {
            self.bad("count", format!("announced {got:?}, selected {}", self.want.len()));
        }
    }
}

fn plan_steps(r: &mut StdRng, n: usize) -> Vec<Step> {
    let mut v = vec![];
    let full = r.gen_bool(0.75);
    let stop = if full { n + r.gen_range(1..5) } else { r.gen_range(0..=n) };
    let mut k = 0;
    while k < stop {
        match r.gen_range(0..9) {
            0 => v.push(Step::Hint),
            1 => v.push(Step::Count),
            2 => v.push(Step::Header),
            3 | 4 => v.push(Step::Cur),
            _ => {
                v.push(Step::Next);
                k += 1;
            }
        }
    }
    v.push(Step::Hint);
    v.push(Step::Count);
    v
}

macro_rules! drive {
    ($it:expr, $steps:expr, $mon:expr) => {{
        let mut it = $it;
        for s in $steps {
            match s {
                Step::Next => {
                    let r = it.next().map(|x| x.is_some()).map_err(|e| e.to_string());
                    $mon.next(r);
                }
                // what "current" is before the first and after the last advance is not specified
                Step::Cur => {
                    if $mon.at > 0 && !$mon.ended {
                        let (a, b) = (it.cur_cj_feature(), it.cur_cj_feature());
                        let id = it.cur_feature().id().to_string();
                        if a.as_ref().ok().map(|f| f.id.clone()) != Some(id) {
                            $mon.bad("cur_feature", "cur_feature and cur_cj_feature disagree".into());
                        }
                        $mon.cur(a.map_err(|e| e.to_string()));
                        $mon.cur(b.map_err(|e| e.to_string()));
                        if it.get().is_none() {
                            $mon.bad("get", "get() gives nothing right after a feature was delivered".into());
                        }
                    }
                    if $mon.ended && it.get().is_some() {
                        $mon.bad("get", "get() gives a feature after the end".into());
                    }
                }
                Step::Hint => {
                    let (lo, hi) = it.size_hint();
                    $mon.hint(lo, hi);
                }
                Step::Count => $mon.count(it.features_count()),
                Step::Header => {
                    let _ = it.header().features_count();
                }
            }
        }
    }};
}

pub fn c11(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "histories", ctx.n(7_500, 200_000), |r, _, rep| {
        match rich_any(r, 30, 5) {
            Ok(d) => c11_case(r, rep, &d.bytes, d.d.feats.len(), &d.sels, &d.desc),
            Err(e) => rep.violate("write", e),
        }
    });
    // counts beyond the widths of narrow counters
    run_cases(ctx, rep, "many", ctx.n(16, 400), |r, _, rep| {
        let n = crate::spatial::pick_many(r);
        let d = match crate::spatial::spatial_ds(r, n) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        rep.max("max_features", n as u64);
        let sels = [Sel::All, Sel::Bbox(-1e300, -1e300, 1e300, 1e300), Sel::Nearest(0.0, 0.0)];
        c11_case(r, rep, &d.bytes, n, &sels, &format!("{n} light features, node size {}", d.node_size))
    });
}
fn c11_case(r: &mut StdRng, rep: &mut Rep, bytes: &Arc<Vec<u8>>, n: usize, sels: &[Sel], desc: &str) {
        for sel in sels {
            let base = drain_seek(Cursor::new(&bytes[..]), sel);
            if base.panic.is_some() {
                rep.violate("panic", base.problem());
                continue;
            }
            if base.err.is_some() {
                rep.inc("not_answerable");
                continue;
            }
            let want_json = feats_json(&base);
            // exactly once
            if !matches!(sel, Sel::All) {
                let mut ids = base.ids();
                ids.sort();
                ids.dedup();
                if ids.len() != base.feats.len() {
                    rep.violate(format!("twice:{}", sel.name()), format!("{} delivers a feature twice; {}", sel.show(), desc));
                }
            } else if base.feats.len() != n {
                rep.violate("scan_count", format!("scan delivers {} of {} features", base.feats.len(), n));
            }
            for mode in ["seek", "seq", "http"] {
                // a history, then the same selection on the re-opened file
                for round in 0..2 {
                    let steps = plan_steps(r, base.feats.len());
                    let mut mon = IterMonitor { want: &base.feats, want_json: &want_json, at: 0, ended: false, bad: vec![], log: vec![], announced: None };
                    let res = guard(|| -> Result<(), String> {
                        match mode {
                            "seek" => {
                                let rd = FcbReader::open(Cursor::new(&bytes[..])).map_err(|e| e.to_string())?;
                                let it = match sel {
                                    Sel::All => rd.select_all(),
                                    Sel::Attr(q) => rd.select_attr_query(q.clone()),
                                    s => rd.select_query(s.spatial().unwrap()),
                                }
                                .map_err(|e| e.to_string())?;
                                drive!(it, &steps, mon);
                            }
                            "seq" => {
                                let rd = FcbReader::open(&bytes[..]).map_err(|e| e.to_string())?;
                                let it = match sel {
                                    Sel::All => rd.select_all_seq(),
                                    Sel::Attr(q) => rd.select_attr_query_seq(q.clone()),
                                    s => rd.select_query_seq(s.spatial().unwrap()),
                                }
                                .map_err(|e| e.to_string())?;
                                drive!(it, &steps, mon);
                            }
                            _ => block_on(async {
                                let rd = HttpFcbReader::new(MockHttp::new(bytes.clone()).buffered()).await.map_err(|e| e.to_string())?;
                                let mut it = match sel {
                                    Sel::All => rd.select_all().await,
                                    Sel::Attr(q) => rd.select_attr_query(q).await,
                                    s => rd.select_query(s.spatial().unwrap()).await,
                                }
                                .map_err(|e| e.to_string())?;
                                for s in &steps {
                                    match s {
                                        Step::Next => {
                                            let r = it.next().await.map(|x| x.is_some()).map_err(|e| e.to_string());
                                            mon.next(r);
                                        }
                                        Step::Cur => {
                                            if mon.at > 0 && !mon.ended {
                                                let (a, b) = (it.cur_cj_feature(), it.cur_feature().cj_feature());
                                                mon.cur(a.map_err(|e| e.to_string()));
                                                mon.cur(b.map_err(|e| e.to_string()));
                                            }
                                        }
                                        Step::Hint => {}
                                        Step::Count => mon.count(it.features_count()),
                                        Step::Header => {
                                            let _ = it.header().features_count();
                                        }
                                    }
                                }
                                Ok::<(), String>(())
                            })?,
                        }
                        Ok(())
                    });
                    match res {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => mon.bad("open", e),
                        Err(p) => mon.bad("panic", format!("{}: {}", p.loc, p.msg)),
                    }
                    for (what, m) in &mon.bad {
                        rep.violate(format!("{what}:{mode}:{}", sel.name()), format!("{}: {m}; {}", sel.show(), desc));
                    }
                    rep.add("calls_monitored", mon.log.len() as u64);
                    rep.inc(if mon.ended { "histories_to_the_end" } else { "histories_dropped_early" });
                    rep.eval((!base.feats.is_empty()).then(|| h(&(&mon.log, mode, round, base.feats.len()))));
                }
            }
        }
}

// ---------------------------------------------------------------------------------------------
// C12

/// `d`: what a reader on a faulty input delivered; `want`: the right answer
fn judge(rep: &mut Rep, d: &Drained, want: &[Value], must_succeed: bool, tag: &str, ctx: impl Fn() -> String) {
    let got = feats_json(d);
    if d.panic.is_some() {
        return rep.violate(format!("panic:{tag}"), format!("{}: {}", ctx(), d.problem()));
    }
    for (i, g) in got.iter().enumerate() {
        match want.get(i) {
            None => return rep.violate(format!("extra:{tag}"), format!("{}: delivered more than the {} features", ctx(), want.len())),
            Some(w) => {
                if let Some((p, m)) = diff(w, g) {
                    return rep.violate(format!("altered:{tag}"), format!("{}: feature {i} altered at {p}: {m}", ctx()));
                }
            }
        }
    }
    if d.err.is_none() && got.len() < want.len() {
        return rep.violate(format!("silent_loss:{tag}"), format!("{}: ended without error after {} of {} features", ctx(), got.len(), want.len()));
    }
    if must_succeed && d.err.is_some() {
        return rep.violate(format!("spurious:{tag}"), format!("{}: {}", ctx(), d.problem()));
    }
    rep.inc(if d.err.is_some() { "outcome_error" } else { "outcome_complete" });
}

/// every request fails or comes back short, once or often; the caller gives up or reads on
fn http_faults(r: &mut StdRng, rep: &mut Rep, bytes: &Arc<Vec<u8>>, sel: &Sel, want: &[Value], desc: &str, thorough: bool) {
    let kind_desc = |m: &str, f: &str| format!("{m} reader, {}, {f}; {desc}", sel.show());
    // HTTP: every request fails or comes back short
    let m = MockHttp::new(bytes.clone());
    let d = drain_http(&m, sel);
    judge(rep, &d, &want, true, "none:http", || kind_desc("http", "no fault"));
    let reqs: Vec<Req> = m.log.lock().unwrap().clone();
    for n in 0..reqs.len() as u64 {
        let got = reqs[n as usize].got;
        let mut faults = vec![HFault::Fail(n), HFault::Short(n, 0)];
        for _ in 0..if thorough { 12 } else { 3 } {
            faults.push(HFault::Short(n, r.gen_range(0..got.max(1))));
        }
        for fault in faults {
            let d = drain_http(&MockHttp::with_fault(bytes.clone(), fault.clone()), sel);
            judge(rep, &d, &want, false, &format!("http:{}", sel.name()), || kind_desc("http", &format!("{fault:?} of {} requests", reqs.len())));
            rep.inc("faults_http");
            rep.eval(Some(h(&(&bytes[..], sel.show(), "http", format!("{fault:?}")))));
        }
        // the caller carries on after the error: reading must go on where the error was reported
        let short = HFault::Short(n, r.gen_range(0..got.max(1)));
        let flaky = HFault::Unstable { seed: r.gen(), permille: r.gen_range(50..600), from: n };
        for fault in [HFault::Fail(n), short, flaky] {
            let m = MockHttp::with_fault(bytes.clone(), fault.clone());
            let Some((finished, errs, feats)) = http_persistent(&m, sel) else { continue };
            let got: Vec<Value> = feats.iter().map(canon).collect();
            let cut = if finished { want.len() } else { got.len().min(want.len()) };
            if let Some(x) = seq_diff(&want[..cut], &got) {
                rep.violate(format!("after_error:http:{}", sel.name()), kind_desc("http", &format!("{fault:?}, {errs} errors reported, reading on: {x}")));
            }
            rep.add("errors_read_past", errs as u64);
            rep.eval((errs > 0).then(|| h(&(&bytes[..], sel.show(), "http on", format!("{fault:?}")))));
            rep.inc("continued_after_error");
        }
    }
}

pub fn c12(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "faults", ctx.n(1_200, 20_000), |r, _, rep| {
        let max = if r.gen_bool(0.8) { 8 } else { 40 };
        let ds = match rich_any(r, max, 4) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        let kinds = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::ConnectionReset, io::ErrorKind::TimedOut];
        for sel in &ds.sels {
            let base = drain_seek(Cursor::new(&ds.bytes[..]), sel);
            if !base.ok() {
                rep.inc("not_answerable");
                continue;
            }
            let want = feats_json(&base);
            let kind_desc = |m: &str, f: &str| format!("{m} reader, {}, {f}; {}", sel.show(), ds.desc);
            for mode in ["seek", "seq"] {
                let run = |f: FaultReader| if mode == "seek" { drain_seek(f, sel) } else { drain_seq(f, sel) };
                // how many operations a healthy run takes
                let f = FaultReader::new(ds.bytes.clone());
                let st = f.stats.clone();
                let d = run(f);
                judge(rep, &d, &want, true, &format!("none:{mode}"), || kind_desc(mode, "no fault"));
                let ops = { let s = st.lock().unwrap(); s.reads + s.seeks };
                rep.max("max_operations", ops);
                // every operation (or a sample of them) fails
                let budget = if ctx.thorough { 200 } else { 24 };
                for i in 0..ops.min(budget) {
                    let n = if ops <= budget { i } else { r.gen_range(0..ops) };
                    let k = *kinds.choose(r).unwrap();
                    let mut f = FaultReader::new(ds.bytes.clone());
                    f.fail_at = Some((n, k));
                    let st = f.stats.clone();
                    let d = run(f);
                    let hit = st.lock().unwrap().failed;
                    judge(rep, &d, &want, !hit, &format!("fail:{mode}:{}", sel.name()), || kind_desc(mode, &format!("operation {n} of {ops} fails with {k:?}")));
                    if hit && d.err.is_none() {
                        rep.inc("fault_tolerated");
                    }
                    rep.inc("faults_operation_fails");
                    rep.eval(hit.then(|| h(&(&ds.bytes[..], sel.show(), mode, "op", n, k as u8))));
                }
                // the file ends early
                for i in 0..budget {
                    let n = if i == 0 { ds.bytes.len() as u64 - 1 } else { r.gen_range(0..ds.bytes.len() as u64) };
                    let mut f = FaultReader::new(ds.bytes.clone());
                    f.eof_at_byte = Some(n);
                    if r.gen_bool(0.3) {
                        f.chunk = r.gen_range(1..50);
                    }
                    let d = run(f);
                    judge(rep, &d, &want, false, &format!("truncated:{mode}:{}", sel.name()), || kind_desc(mode, &format!("file ends after {n} of {} bytes", ds.bytes.len())));
                    rep.inc("faults_truncated");
                    rep.eval(Some(h(&(&ds.bytes[..], sel.show(), mode, "eof", n))));
                }
                // short reads and interruptions alone change nothing
                for (chunk, intr) in [(1, 0), (3, 2), (usize::MAX, 3), (r.gen_range(1..100), r.gen_range(2..9))] {
                    let mut f = FaultReader::new(ds.bytes.clone());
                    f.chunk = chunk;
                    f.interrupt_every = if mode == "seek" { 0 } else { intr };
                    if mode == "seek" && intr > 0 {
                        // only reads are retried by convention, so interrupt those alone
                        let st = f.stats.clone();
                        let d = drain_seek(IntrReads { f, every: intr, n: 0 }, sel);
                        rep.add("interruptions", st.lock().unwrap().interrupts);
                        judge(rep, &d, &want, true, &format!("short:{mode}:{}", sel.name()), || kind_desc(mode, &format!("reads of at most {chunk} bytes, interrupted every {intr}")));
                        continue;
                    }
                    let st = f.stats.clone();
                    let d = run(f);
                    rep.add("interruptions", st.lock().unwrap().interrupts);
                    judge(rep, &d, &want, true, &format!("short:{mode}:{}", sel.name()), || kind_desc(mode, &format!("reads of at most {chunk} bytes, interrupted every {intr}")));
                    rep.inc("faults_short_reads");
                    rep.eval(Some(h(&(&ds.bytes[..], sel.show(), mode, "short", chunk, intr))));
                }
            }
            let thorough = ctx.thorough;
            http_faults(r, rep, &ds.bytes, sel, &want, &ds.desc, thorough);
        }
        rep.sample(|| json!({"dataset": ds.desc, "bytes": ds.bytes.len(), "selections": ds.sels.iter().map(|s| s.show()).collect::<Vec<_>>()}));
    });
    c12_given_up(ctx, rep);
    // large features: every feature needs requests and reads of its own
    run_cases(ctx, rep, "large", ctx.n(24, 300), |r, _, rep| {
        let (bytes, sels) = match large_ds(r, 16) {
            Ok(x) => x,
            Err(e) => return rep.violate("write", e),
        };
        for sel in &sels {
            let base = drain_seek(Cursor::new(&bytes[..]), sel);
            let want = feats_json(&base);
            http_faults(r, rep, &bytes, sel, &want, "large features", ctx.thorough);
            for _ in 0..4 {
                let n = r.gen_range(0..bytes.len());
                for (mode, d) in [("seek", drain_seek(Cursor::new(&bytes[..n]), sel)), ("seq", drain_seq(&bytes[..n], sel))] {
                    judge(rep, &d, &want, false, &format!("truncated:{mode}:{}", sel.name()), || format!("{mode}, {}, large features, file cut to {n} of {}", sel.show(), bytes.len()));
                    rep.eval(Some(h(&(&bytes[..], sel.show(), mode, n))));
                    rep.inc("faults_truncated");
                }
            }
        }
    });
    // a small file cut at every byte
    run_cases(ctx, rep, "every_cut", ctx.n(30, 400), |r, _, rep| {
        let Ok(ds) = rich_any(r, 3, 2) else { return };
        if ds.bytes.len() > 20_000 {
            return;
        }
        for sel in &ds.sels {
            let base = drain_seek(Cursor::new(&ds.bytes[..]), sel);
            if !base.ok() {
                continue;
            }
            let want = feats_json(&base);
            for n in 0..ds.bytes.len() {
                let cut = &ds.bytes[..n];
                for (mode, d) in [("seek", drain_seek(Cursor::new(cut), sel)), ("seq", drain_seq(cut, sel))] {
                    judge(rep, &d, &want, false, &format!("truncated:{mode}:{}", sel.name()), || format!("{mode}, {}, file cut to {n} of {} bytes; {}", sel.show(), ds.bytes.len(), ds.desc));
                    rep.eval(Some(h(&(&ds.bytes[..], sel.show(), mode, n))));
                    rep.inc("faults_truncated");
                }
                if n % 16 == 0 {
                    let d = drain_http(&MockHttp::new(Arc::new(cut.to_vec())), sel);
                    judge(rep, &d, &want, false, &format!("truncated:http:{}", sel.name()), || format!("http, {}, file cut to {n} of {} bytes; {}", sel.show(), ds.bytes.len(), ds.desc));
                }
            }
        }
    });
}

/// reads are interrupted, seeks are not
struct IntrReads {
    f: FaultReader,
    every: u64,
    n: u64,
}
impl io::Read for IntrReads {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n % self.every == 0 {
            self.f.stats.lock().unwrap().interrupts += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "injected EINTR"));
        }
        self.f.read(b)
    }
}
impl io::Seek for IntrReads {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.f.seek(p)
    }
}

/// Drains over HTTP, calling next() again after an error (at most three times).
/// Returns (the selection could be opened, errors seen, features).
/// reads on after errors, up to a hundred times: (came to an end, errors, features), unless opening or selecting failed
fn http_persistent(m: &MockHttp, sel: &Sel) -> Option<(bool, usize, Vec<CityJSONFeature>)> {
    let mut feats = vec![];
    let mut errs = 0;
    let ok = guard(|| {
        block_on(async {
            let Ok(rd) = HttpFcbReader::new(m.buffered()).await else { return None };
            let it = match sel {
                Sel::All => rd.select_all().await,
                Sel::Attr(q) => rd.select_attr_query(q).await,
                s => rd.select_query(s.spatial().unwrap()).await,
            };
            let Ok(mut it) = it else { return None };
            loop {
                match it.next().await {
                    Ok(Some(b)) => {
                        if let Ok(f) = b.cj_feature() {
                            feats.push(f);
                        }
                    }
                    Ok(None) => return Some(true),
                    Err(_) => {
                        errs += 1;
                        if errs > 100 {
                            return Some(false);
                        }
                    }
                }
            }
        })
    })
    .unwrap_or(Some(true))?;
    Some((ok, errs, feats))
}

/// Each step has the time of some polls and is given up after that, and tried again: (ended, given up, features)
fn http_impatient(m: &MockHttp, sel: &Sel, patience: &mut dyn FnMut() -> usize) -> Result<(usize, Vec<CityJSONFeature>), String> {
    use std::future::Future;
    use std::task::Poll;
    let mut feats = vec![];
    let mut given_up = 0;
    guard(|| {
        block_on(async {
            let rd = HttpFcbReader::new(m.buffered()).await.map_err(|e| format!("open: {e}"))?;
            let it = match sel {
                Sel::All => rd.select_all().await,
                Sel::Attr(q) => rd.select_attr_query(q).await,
                s => rd.select_query(s.spatial().unwrap()).await,
            };
            let mut it = it.map_err(|e| format!("select: {e}"))?;
            loop {
                let mut left = patience();
                let got = {
                    let mut f = Box::pin(it.next());
                    std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
                        Poll::Ready(x) => Poll::Ready(Some(x.map(|o| o.map(|b| b.cj_feature())))),
                        Poll::Pending if left == 0 => Poll::Ready(None),
                        Poll::Pending => {
                            left -= 1;
                            Poll::Pending
                        }
                    })
                    .await
                };
                match got {
                    None => given_up += 1,
                    Some(Ok(None)) => return Ok(()),
                    Some(Ok(Some(f))) => feats.push(f.map_err(|e| format!("decode: {e}"))?),
                    Some(Err(e)) => return Err(format!("next: {e}")),
                }
                if given_up > 100_000 {
                    return Err("no progress".into());
                }
            }
        })
    })
    .map_err(|p| format!("panic {} {}", p.loc, p.msg))??;
    Ok((given_up, feats))
}

fn c12_given_up(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "given_up", ctx.n(1_500, 6_000), |r, case, rep| {
        let (bytes, sels) = if case % 12 == 0 {
            match large_ds(r, 12) {
                Ok(x) => x,
                Err(e) => return rep.violate("write", e),
            }
        } else {
            match rich_any(r, 30, 4) {
                Ok(d) => (d.bytes, d.sels),
                Err(e) => return rep.violate("write", e),
            }
        };
        for sel in &sels {
            let m = MockHttp::new(Arc::new(bytes.to_vec()));
            let base = drain_http(&m, sel);
            if !base.ok() {
                rep.inc("not_answerable");
                continue;
            }
            let want = feats_json(&base);
            let bias = r.gen_range(0.1..0.9);
            let m = MockHttp::new(Arc::new(bytes.to_vec()));
            let got = http_impatient(&m, sel, &mut || if r.gen_bool(bias) { 0 } else { r.gen_range(0..12) });
            match got {
                Err(e) => rep.violate(format!("given_up:{}", sel.name()), format!("steps that are given up and tried again, {}: {e}", sel.show())),
                Ok((n, feats)) => {
                    let got: Vec<Value> = feats.iter().map(canon).collect();
                    if let Some(x) = seq_diff(&want, &got) {
                        rep.violate(format!("given_up:{}", sel.name()), format!("{n} steps were given up and tried again, {}: {x}", sel.show()));
                    }
                    rep.add("steps_given_up", n as u64);
                    rep.eval((n > 0).then(|| h(&(&bytes[..], sel.show(), "given up", n))));
                }
            }
        }
    });
}
