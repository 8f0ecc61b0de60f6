//! The browser reader (C26): its own sources, with stand-ins for the browser around them.
use crate::equiv::*;
use crate::gen::*;
use crate::lib_io::*;
use crate::rep::*;
use cjseq::CityJSONFeature;
use fcb_core::static_btree::{FixedStringKey, Key, KeyType};
use fcb_core::fb::header_generated::ColumnType;
use fcb_core::Operator;
use fcb_wasm::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use standin::{Answer, Array, Date, JsValue, Object, Reflect};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// fetch n is not answered
    Unreachable(u64),
    /// fetch n is answered with this status
    Status(u64, u16),
    /// fetch n brings only k bytes
    Short(u64, usize),
    /// the body of fetch n breaks off
    Broken(u64),
}
pub struct Site {
    pub url: String,
    pub log: Arc<Mutex<Vec<String>>>,
}
impl Drop for Site {
    fn drop(&mut self) {
        standin::unserve(&self.url);
    }
}
static NEXT: AtomicU64 = AtomicU64::new(0);
pub fn site(data: Arc<Vec<u8>>, fault: Fault) -> Site {
    let url = format!("http://site{}.invalid/x.fcb", NEXT.fetch_add(1, Ordering::Relaxed));
    let log = Arc::new(Mutex::new(vec![]));
    let l = log.clone();
    standin::serve(
        &url,
        Arc::new(move |range: Option<&str>| {
            let n = {
                let mut l = l.lock().unwrap();
                l.push(range.unwrap_or("").to_string());
                l.len() as u64 - 1
            };
            let mut a = answer(&data, range);
            match fault {
                Fault::Unreachable(k) if k == n => return Err("TypeError: Failed to fetch".into()),
                Fault::Status(k, s) if k == n => a = Answer { status: s, headers: vec![], body: Ok(b"<html>sorry</html>".repeat(400)) },
                Fault::Short(k, m) if k == n => {
                    if let Ok(b) = &mut a.body {
                        b.truncate(m)
                    }
                }
                Fault::Broken(k) if k == n => a.body = Err("TypeError: network error".into()),
                _ => {}
            }
            Ok(a)
        }),
    );
    Site { url, log }
}
/// bytes asked for since request `from`; every range must begin within the file and not after its end
fn asked_of(s: &Site, from: usize, len: u64) -> Result<u64, String> {
    let mut sum = 0;
    for v in s.log.lock().unwrap().iter().skip(from) {
        let r = v.strip_prefix("bytes=").and_then(|v| v.split_once('-')).and_then(|(a, b)| Some((a.parse::<u64>().ok()?, b.parse::<u64>().ok()?)));
        match r {
            Some((a, b)) if a <= b && a < len => sum += b.min(len - 1) + 1 - a,
            _ => return Err(format!("asked for {v:?} of {len} bytes")),
        }
    }
    Ok(sum)
}
fn answer(data: &[u8], range: Option<&str>) -> Answer {
    let len = data.len() as u64;
    let head = |s: u16, b: Vec<u8>| Answer { status: s, headers: vec![("content-length".into(), b.len().to_string())], body: Ok(b) };
    let Some(r) = range else { return head(200, data.to_vec()) };
    let r = r.strip_prefix("bytes=").and_then(|s| s.split_once('-')).and_then(|(b, e)| Some((b.parse::<u64>().ok()?, e.parse::<u64>().ok()?)));
    match r {
        Some((b, e)) if b <= e && b < len => head(206, data[b as usize..=e.min(len - 1) as usize].to_vec()),
        Some((b, e)) if b <= e => head(416, vec![]),
        // not a range: the header is ignored, as HTTP prescribes
        _ => head(200, data.to_vec()),
    }
}

fn obj(m: &[(&str, JsValue)]) -> JsValue {
    let o = Object::new();
    for (k, v) in m {
        Reflect::set(&o, &JsValue::from_str(k), v).unwrap();
    }
    o.into()
}
fn arr(m: Vec<JsValue>) -> JsValue {
    let a = Array::new();
    for v in &m {
        a.push(v);
    }
    a.into()
}
fn n(x: f64) -> JsValue {
    JsValue::from_f64(x)
}
/// the query as a page would put it, if it can
pub fn js_spatial(s: &Sel) -> Option<JsValue> {
    let t = |s: &str| ("type", JsValue::from_str(s));
    Some(match s {
        Sel::Bbox(a, b, c, d) => obj(&[t("bbox"), ("minX", n(*a)), ("minY", n(*b)), ("maxX", n(*c)), ("maxY", n(*d))]),
        Sel::Point(x, y) => obj(&[t("pointIntersects"), ("x", n(*x)), ("y", n(*y))]),
        Sel::Nearest(x, y) => obj(&[t("pointNearest"), ("x", n(*x)), ("y", n(*y))]),
        _ => return None,
    })
}
fn bytes(k: &impl Key) -> Vec<u8> {
    let mut b = vec![];
    k.write_to(&mut b).unwrap();
    b
}
pub fn js_key(k: &KeyType) -> Option<JsValue> {
    let whole = |x: f64, exact: bool| (exact && x.abs() <= 9007199254740991.0).then(|| n(x));
    // a key cut within a character is no text; one which is full may stand for a longer text
    let text = |b: &[u8]| {
        let s = std::str::from_utf8(&b[..b.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1)]).ok()?;
        Some(JsValue::from_str(&if s.len() == 50 { format!("{s} and so on") } else { s.to_string() }))
    };
    Some(match k {
        KeyType::Int8(v) => n(*v as f64),
        KeyType::UInt8(v) => n(*v as f64),
        KeyType::Int16(v) => n(*v as f64),
        KeyType::UInt16(v) => n(*v as f64),
        KeyType::Int32(v) => n(*v as f64),
        KeyType::UInt32(v) => n(*v as f64),
        KeyType::Int64(v) => whole(*v as f64, true)?,
        KeyType::UInt64(v) => whole(*v as f64, true)?,
        KeyType::Float32(v) => n(v.into_inner() as f64),
        KeyType::Float64(v) => n(v.into_inner()),
        KeyType::Bool(b) => JsValue::from_bool(*b),
        KeyType::StringKey20(s) => text(&bytes(s))?,
        KeyType::StringKey50(s) => text(&bytes(s))?,
        KeyType::StringKey100(s) => text(&bytes(s))?,
        KeyType::DateTime(t) => {
            // a Date has whole milliseconds
            if t.timestamp_subsec_nanos() % 1_000_000 != 0 {
                return None;
            }
            Date::at(t.timestamp_millis() as f64)
        }
    })
}
fn op_name(o: &Operator) -> &'static str {
    match o {
        Operator::Eq => "Eq",
        Operator::Ne => "Ne",
        Operator::Gt => "Gt",
        Operator::Ge => "Ge",
        Operator::Lt => "Lt",
        Operator::Le => "Le",
    }
}
pub fn js_attr(q: &fcb_core::AttrQuery) -> Option<JsValue> {
    let mut v = vec![];
    for (f, o, k) in q {
        v.push(arr(vec![JsValue::from_str(f), JsValue::from_str(op_name(o)), js_key(k)?]));
    }
    Some(arr(v))
}

#[derive(Default, Debug)]
pub struct Got {
    pub feats: Vec<Value>,
    pub announced: Option<usize>,
    pub err: Option<String>,
    pub panic: Option<String>,
    /// the feature the iterator stands on is another one than the one it just gave
    pub current: Option<String>,
    /// errors reported on the way
    pub retried: u64,
}
impl Got {
    fn ok(&self) -> bool {
        self.err.is_none() && self.panic.is_none()
    }
    fn problem(&self) -> String {
        match (&self.panic, &self.err) {
            (Some(p), _) => format!("panic {p}"),
            (_, Some(e)) => format!("error {e}"),
            _ => "ok".into(),
        }
    }
}
fn canon_js(v: &JsValue) -> Result<Value, String> {
    let f: CityJSONFeature = serde_json::from_value(v.json()).map_err(|e| format!("not a feature: {e}"))?;
    Ok(canon(&f))
}
pub enum Ask {
    All,
    Spatial(JsValue),
    Attr(JsValue),
}
pub fn ask(s: &Sel) -> Option<Ask> {
    Some(match s {
        Sel::All => Ask::All,
        Sel::Attr(q) => Ask::Attr(js_attr(q)?),
        s => Ask::Spatial(js_spatial(s)?),
    })
}
pub fn drain(url: &str, a: &Ask, after: usize) -> Got {
    drain_on(url, a, after, false)
}
/// with `retry`, an error of `next` is counted and asked about once more
pub fn drain_on(url: &str, a: &Ask, after: usize, retry: bool) -> Got {
    let mut g = Got::default();
    let txt = |e: JsValue| e.as_string().unwrap_or_else(|| format!("an error which is no text: {e:?}"));
    let res = guard(|| {
        block_on(async {
            let rd = HttpFcbReader::new(url.to_string()).await.map_err(|e| format!("open: {}", txt(e)))?;
            let mut it = match a {
                Ask::All => rd.select_all().await,
                Ask::Spatial(q) => rd.select_spatial(&WasmSpatialQuery::new(q).map_err(|e| format!("query: {}", txt(e)))?).await,
                Ask::Attr(q) => rd.select_attr_query(&WasmAttrQuery::new(q).map_err(|e| format!("query: {}", txt(e)))?).await,
            }
            .map_err(|e| format!("select: {}", txt(e)))?;
            g.announced = it.features_count();
            let mut ended = 0;
            loop {
                let x = match it.next().await {
                    Err(e) if retry && g.retried < 5 => {
                        let _ = txt(e);
                        g.retried += 1;
                        continue;
                    }
                    x => x.map_err(|e| format!("next: {}", txt(e)))?,
                };
                match x {
                    Some(f) => {
                        let v = canon_js(&f)?;
                        let c = canon_js(&it.cur_cj_feature().map_err(|e| format!("current: {}", txt(e)))?)?;
                        if v != c {
                            g.current = Some(format!("gave {} and stands on {}", v["id"], c["id"]));
                        }
                        if ended > 0 {
                            return Err("a feature after the end".to_string());
                        }
                        g.feats.push(v);
                        if g.feats.len() > 200_000 {
                            return Err("endless iteration".into());
                        }
                    }
                    None if ended >= after => return Ok(()),
                    None => ended += 1,
                }
            }
        })
    });
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => g.err = Some(e),
        Err(p) => g.panic = Some(format!("{}: {}", p.loc, p.msg)),
    }
    g
}

pub fn c26(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "browser", ctx.n(1_200, 30_000), |r, _, rep| {
        let ds = match rich_any(r, 45, 6) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        let s = site(ds.bytes.clone(), Fault::None);
        // header
        let hs = guard(|| {
            let a = fcb_core::FcbReader::open(std::io::Cursor::new(&ds.bytes[..])).map(|x| header_of(x.header())["cj"].clone()).map_err(|e| e.to_string());
            let b = block_on(async {
                let rd = HttpFcbReader::new(s.url.clone()).await.map_err(|e| format!("{e:?}"))?;
                let v = rd.cityjson().map_err(|e| format!("{e:?}"))?.json();
                let m = rd.meta().map_err(|e| format!("{e:?}"))?.json();
                let it = rd.select_all().await.map_err(|e| format!("{e:?}"))?;
                let w = it.header().map_err(|e| format!("{e:?}"))?.json();
                Ok::<_, String>((v, w, m))
            });
            (a, b)
        });
        match hs {
            Ok((Ok(a), Ok((b, c, m)))) => {
                for (what, b) in [("reader", &b), ("iterator", &c)] {
                    if let Some((p, m)) = diff(&a, b) {
                        rep.violate("header", format!("headers differ at {p}: {m} ({what})"));
                    }
                }
                if m["featureCount"] != json!(ds.d.feats.len()) {
                    rep.violate("meta", format!("{m} for {} features", ds.d.feats.len()));
                }
            }
            o => rep.violate("header_error", format!("{o:?}")),
        }
        for sel in &ds.sels {
            let Some(a) = ask(sel) else {
                rep.inc("not_sayable_in_js");
                continue;
            };
            let native = drain_http(&MockHttp::new(ds.bytes.clone()), sel);
            let before = s.log.lock().unwrap().len();
            let got = drain(&s.url, &a, 2);
            rep.add("fetches", (s.log.lock().unwrap().len() - before) as u64);
            if let Err(e) = asked_of(&s, before, ds.bytes.len() as u64) {
                rep.violate("range", format!("{}: {e}; {}", sel.show(), ds.desc));
            }
            let mut want = feats_json(&native);
            let mut have = got.feats.clone();
            if got.ok() != native.ok() || got.panic.is_some() {
                rep.violate(format!("outcome:{}", sel.name()), format!("{}: native: {}; browser: {}; {}", sel.show(), native.problem(), got.problem(), ds.desc));
                continue;
            }
            if let Some(c) = &got.current {
                rep.violate("current", c.clone());
            }
            if native.ok() && native.announced.unwrap_or(0) != got.announced.unwrap_or(0) {
                rep.violate(format!("announced:{}", sel.name()), format!("{}: {:?} against {:?}; {}", sel.show(), native.announced, got.announced, ds.desc));
            }
            if matches!(sel, Sel::Attr(_)) {
                want.sort_by_key(|v| v.to_string());
                have.sort_by_key(|v| v.to_string());
            }
            if let Some(m) = seq_diff(&want, &have) {
                rep.violate(format!("features:{}", sel.name()), format!("{}: {m}; {}", sel.show(), ds.desc));
            }
            rep.inc(&format!("sel_{}{}", sel.name(), if native.ok() { "" } else { "_error" }));
            rep.add("features_compared", want.len() as u64);
            rep.eval((!want.is_empty()).then(|| h(&(&ds.bytes[..], sel.show()))));
        }
        // a number no value of the column can equal is refused, or at least not answered with a feature
        for (name, _) in ds.d.opts.attribute_indices.iter().flatten() {
            let Some(&(_, t)) = ds.d.schema.get(name) else { continue };
            let wrong: &[f64] = match t {
                ColumnType::Byte => &[0.5, 128.0, -129.0, 256.0, f64::NAN, 1e300],
                ColumnType::UByte => &[0.5, -1.0, 256.0, f64::NAN, f64::INFINITY],
                ColumnType::Short => &[1.5, 32768.0, 65536.0, f64::NAN],
                ColumnType::UShort => &[1.5, -1.0, 65536.0, f64::NAN],
                ColumnType::Int => &[-0.25, 2147483648.0, 4294967296.0, f64::NAN],
                ColumnType::UInt => &[-1.0, 4294967296.0, f64::NEG_INFINITY],
                ColumnType::Long => &[0.5, 9223372036854775808.0, -1e19, f64::NAN],
                ColumnType::ULong => &[0.5, -1.0, 18446744073709551616.0, f64::NAN],
                _ => continue,
            };
            let x = *wrong.choose(r).unwrap();
            let got = drain(&s.url, &Ask::Attr(arr(vec![arr(vec![JsValue::from_str(name), JsValue::from_str("Eq"), n(x)])])), 0);
            if got.panic.is_some() || !got.feats.is_empty() {
                rep.violate("foreign_number", format!("{name} ({t:?}) Eq {x}: {} features, {}", got.feats.len(), got.problem()));
            }
            rep.inc("foreign_numbers");
        }
        rep.sample(|| json!({"dataset": ds.desc, "bytes": ds.bytes.len(), "selections": ds.sels.iter().map(|s| s.show()).collect::<Vec<_>>()}));
    });
    // what is selected lies far apart in a large file
    let mut wr = ctx.rng("far_data", 0);
    let w = match guard(|| crate::http::wide(&mut wr, 60, 6000)) {
        Ok(Ok(w)) => w,
        o => {
            rep.stage = "far".into();
            return rep.violate("write", format!("{:?}", o.err().map(|p| p.msg)));
        }
    };
    rep.max("max_file_bytes", w.bytes.len() as u64);
    run_cases(ctx, rep, "far", ctx.n(400, 10_000), |r, _, rep| {
        let m = (w.side * 10) as f64;
        let (x, y, k) = (r.gen_range(-5.0..m), r.gen_range(-5.0..m), r.gen_range(0..w.n as u32));
        let sel = match r.gen_range(0..7) {
            0 => Sel::Bbox(x, -5.0, x + 1.0, m),
            1 => Sel::Bbox(-5.0, y, m, y + 1.0),
            2 => Sel::Bbox(x, y, x + 150.0, y + 150.0),
            3 => Sel::Nearest(x, y),
            4 => Sel::Attr(vec![("k".into(), Operator::Ge, KeyType::UInt32(k)), ("k".into(), Operator::Lt, KeyType::UInt32(k.saturating_add(30)))]),
            5 => Sel::Attr(vec![("s".into(), Operator::Lt, KeyType::StringKey50(FixedStringKey::from_str(&format!("name-{:07}", k % 50))))]),
            _ => Sel::Attr(vec![("c".into(), Operator::Eq, KeyType::Int32(r.gen_range(0..5))), ("k".into(), Operator::Lt, KeyType::UInt32(k % 100))]),
        };
        let s = site(w.bytes.clone(), Fault::None);
        let Some(a) = ask(&sel) else { return };
        let mock = MockHttp::new(w.bytes.clone());
        let native = drain_http(&mock, &sel);
        let total = || s.log.lock().unwrap().len() as u64;
        let got = drain(&s.url, &a, r.gen_range(0..3));
        let asked = total();
        // what it asked for of the file, against what the native reader asked for
        let len = w.bytes.len() as u64;
        let theirs: u64 = mock.log.lock().unwrap().iter().map(|q| (q.end.min(len - 1) + 1).saturating_sub(q.begin)).sum();
        let mine = match asked_of(&s, 0, len) {
            Ok(n) => n,
            Err(e) => return rep.violate("range", format!("{}: {e}", sel.show())),
        };
        if mine > theirs * 2 + 65_536 {
            rep.violate("asks_more", format!("{}: asks for {mine} bytes where the native reader asks for {theirs}, of {len}", sel.show()));
        }
        rep.max(&format!("max_permille_{}", sel.name()), mine * 1000 / theirs.max(1));
        rep.max(&format!("max_extra_{}", sel.name()), mine.saturating_sub(theirs));
        let (mut x, mut y) = (feats_json(&native), got.feats.clone());
        if matches!(sel, Sel::Attr(_)) {
            x.sort_by_key(|v| v.to_string());
            y.sort_by_key(|v| v.to_string());
        }
        if !got.ok() || !native.ok() || got.announced != native.announced {
            rep.violate("far_outcome", format!("{}: native: {}, {:?}; browser: {}, {:?}", sel.show(), native.problem(), native.announced, got.problem(), got.announced));
        } else if let Some(m) = seq_diff(&x, &y) {
            rep.violate(format!("far:{}", sel.name()), format!("{}: {m}", sel.show()));
        }
        // a fault anywhere between the batches
        let fault = if r.gen() { Fault::Unreachable(r.gen_range(0..asked)) } else { Fault::Short(r.gen_range(0..asked), r.gen_range(0..5000)) };
        let t = site(w.bytes.clone(), fault.clone());
        let again = drain_on(&t.url, &a, 0, true);
        if let Some(p) = &again.panic {
            rep.violate("fault_panic", format!("{fault:?} of {asked}, {}: {p}", sel.show()));
        } else if again.err.is_none() {
            if let Some(m) = seq_diff(&got.feats, &again.feats) {
                rep.violate("fault_hidden", format!("{fault:?} of {asked}, {}: {m} (errors reported on the way: {})", sel.show(), again.retried));
            }
        }
        rep.add("far_fetches", asked);
        rep.max("max_fetches", asked);
        rep.add("features_compared", x.len() as u64);
        rep.eval((!x.is_empty()).then(|| h(&("far", sel.show()))));
    });
    // a fetch which fails, is refused, comes back short or breaks off
    run_cases(ctx, rep, "faults", ctx.n(300, 8_000), |r, _, rep| {
        let ds = match rich_any(r, 45, 3) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        for sel in &ds.sels {
            let Some(a) = ask(sel) else { continue };
            let s = site(ds.bytes.clone(), Fault::None);
            let clean = drain(&s.url, &a, 0);
            if !clean.ok() {
                continue;
            }
            let total = s.log.lock().unwrap().len() as u64;
            for k in 0..total.min(12) {
                let fault = match r.gen_range(0..5) {
                    0 => Fault::Unreachable(k),
                    1 => Fault::Status(k, *[404u16, 416, 500, 503, 429, 301].choose(r).unwrap()),
                    2 => Fault::Broken(k),
                    3 => Fault::Short(k, *[0usize, 1, 3, 4, 5, 40].choose(r).unwrap()),
                    _ => Fault::Short(k, r.gen_range(0..3000)),
                };
                let s = site(ds.bytes.clone(), fault.clone());
                let got = drain_on(&s.url, &a, 0, true);
                if let Some(p) = &got.panic {
                    rep.violate("fault_panic", format!("{fault:?} of {total}, {}: {p}", sel.show()));
                } else if got.err.is_none() {
                    // also when an error was reported on the way: nothing is passed over
                    if let Some(m) = seq_diff(&clean.feats, &got.feats) {
                        rep.violate("fault_hidden", format!("{fault:?} of {total}, {}: {m} (errors reported on the way: {})", sel.show(), got.retried));
                    }
                    rep.inc("survived");
                } else {
                    rep.inc("reported");
                }
                rep.add("reported_and_retried", got.retried);
                rep.eval(Some(h(&(&ds.bytes[..], sel.show(), k, format!("{fault:?}")))));
            }
        }
    });
    // files which are damaged
    run_cases(ctx, rep, "damaged", ctx.n(2_000, 60_000), |r, _, rep| {
        let ds = match rich_any(r, 20, 3) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        let mut b = (*ds.bytes).clone();
        let hl = 12 + u32::from_le_bytes(b[8..12].try_into().unwrap()) as usize;
        match r.gen_range(0..4) {
            0 => b.truncate(r.gen_range(0..b.len())),
            1 => b.truncate(hl + r.gen_range(0..=(b.len() - hl).min(600))),
            2 => {
                for _ in 0..r.gen_range(1..4) {
                    let i = r.gen_range(8..hl);
                    b[i] = *[0u8, 1, 0x7f, 0xff, r.gen()].choose(r).unwrap();
                }
            }
            _ => {
                for _ in 0..r.gen_range(1..6) {
                    let i = r.gen_range(hl..b.len().max(hl + 1)).min(b.len() - 1);
                    b[i] = *[0u8, 1, 0x7f, 0xff, r.gen()].choose(r).unwrap();
                }
            }
        }
        let b = Arc::new(b);
        for sel in &ds.sels {
            let Some(a) = ask(sel) else { continue };
            let native = drain_http(&MockHttp::new(b.clone()), sel);
            let s = site(b.clone(), Fault::None);
            let got = drain(&s.url, &a, 1);
            if let Some(p) = &got.panic {
                rep.violate("damaged_panic", format!("{}: {p}; native: {}", sel.show(), native.problem()));
            } else if got.ok() && native.ok() {
                let (mut x, mut y) = (feats_json(&native), got.feats.clone());
                x.iter_mut().chain(&mut y).for_each(bare);
                x.sort_by_key(|v| v.to_string());
                y.sort_by_key(|v| v.to_string());
                if let Some(m) = seq_diff(&x, &y) {
                    rep.violate("damaged_differs", format!("{}: {m}", sel.show()));
                }
                rep.inc("damaged_readable");
            } else if native.ok() && got.err.as_ref().is_some_and(|e| e.starts_with("not a feature: invalid type: null")) {
                // numbers which are none, as damage makes them: lost between the stand-ins and here
                rep.inc("damaged_no_number");
            } else if got.ok() && native.problem().contains("key type mismatch") {
                // the damage changed the type of a column, and a page says numbers without type
                rep.inc("damaged_key_type");
            } else if got.ok() != native.ok() && native.panic.is_none() {
                rep.violate("damaged_outcome", format!("{}: native: {}; browser: {}", sel.show(), native.problem(), got.problem()));
            } else {
                rep.inc("damaged_refused");
            }
            rep.eval(Some(h(&(&b[..], sel.show()))));
        }
    });
    // what a page may ask: what is meant is kept, what means nothing is refused
    run_cases(ctx, rep, "asked", ctx.n(4_000, 100_000), |r, c, rep| {
        let res = guard(|| if r.gen() { asked_spatial(r) } else { asked_attr(r) });
        match res {
            Ok(Ok(k)) => {
                rep.inc(k);
                rep.eval(Some(h(&(c, k))));
            }
            Ok(Err(m)) => rep.violate(format!("asked:{}", m.split(':').next().unwrap()), m),
            Err(p) => rep.violate("asked_panic", format!("{}: {}", p.loc, p.msg)),
        }
    });
    // what was read, put together to one CityJSON object, or to OBJ
    run_cases(ctx, rep, "merge", ctx.n(1_500, 40_000), |r, _, rep| {
        let c = DsCfg {
            n: r.gen_range(1..8),
            geom: GeomCfg { semantics: r.gen(), maxlen: 3, ..Default::default() },
            max_verts: 12,
            max_objs: 3,
            max_geoms: 3,
            coord: *[5, 1000].choose(r).unwrap(),
            attrs: vec![("a".into(), K::Str), ("b".into(), K::Int)],
            write_index: true,
            index_attrs: vec![],
            ..Default::default()
        };
        let mut d = dataset(r, &c);
        // an object is known by its name in the whole
        for (i, f) in d.feats_json.iter_mut().enumerate() {
            *f = renamed(f, &format!("{i}:"));
        }
        let res = guard(|| merged(&d.header_json, &d.feats_json, rep));
        match res {
            Ok(Ok(())) => rep.eval(Some(h(&(d.feats_json.iter().map(|f| f.to_string()).collect::<Vec<_>>())))),
            Ok(Err(m)) => rep.violate(format!("merge:{}", m.split(':').next().unwrap()), m),
            Err(p) => rep.violate("merge_panic", format!("{}: {}", p.loc, p.msg)),
        }
    });
}

/// without members that are null, which a number that is none becomes
fn bare(v: &mut Value) {
    match v {
        Value::Object(o) => {
            o.retain(|_, x| !x.is_null());
            o.values_mut().for_each(bare);
        }
        Value::Array(a) => a.iter_mut().for_each(bare),
        _ => {}
    }
}
/// the feature with a prefix before each of its object names
fn renamed(f: &Value, pre: &str) -> Value {
    let mut g = f.clone();
    g["id"] = json!(format!("{pre}{}", f["id"].as_str().unwrap()));
    let mut objs = serde_json::Map::new();
    for (k, o) in f["CityObjects"].as_object().unwrap() {
        let mut o = o.clone();
        for m in ["parents", "children"] {
            if let Some(l) = o.get_mut(m).and_then(|l| l.as_array_mut()) {
                for x in l {
                    *x = json!(format!("{pre}{}", x.as_str().unwrap()));
                }
            }
        }
        objs.insert(format!("{pre}{k}"), o);
    }
    g["CityObjects"] = Value::Object(objs);
    g
}
/// the boundaries with the places the indexes stand for, as f64
fn places(b: &Value, vs: &[Value], t: &Value) -> Value {
    match b {
        Value::Array(a) => Value::Array(a.iter().map(|x| places(x, vs, t)).collect()),
        x => {
            let v = &vs[x.as_u64().unwrap() as usize];
            json!([0, 1, 2].map(|i| v[i].as_f64().unwrap() * t["scale"][i].as_f64().unwrap() + t["translate"][i].as_f64().unwrap()))
        }
    }
}
fn near(a: &Value, b: &Value, tol: f64) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| near(x, y, tol)),
        (x, y) => (x.as_f64().unwrap() - y.as_f64().unwrap()).abs() <= tol,
    }
}
fn merged(head: &Value, feats: &[Value], rep: &mut Rep) -> Result<(), String> {
    let err = |e: JsValue| format!("error:{e:?}");
    let list = arr(feats.iter().map(JsValue::from_json).collect());
    let cj = util::cjseq_to_cj_wasm(JsValue::from_json(head), list).map_err(err)?;
    let m = cj.json();
    let vs = m["vertices"].as_array().ok_or("vertices:none")?;
    let objs = m["CityObjects"].as_object().ok_or("objects:none")?;
    let expect: usize = feats.iter().map(|f| f["CityObjects"].as_object().unwrap().len()).sum();
    if objs.len() != expect {
        return Err(format!("objects:{expect} objects became {}", objs.len()));
    }
    let biggest = |t: &Value| (0..3).map(|i| t["translate"][i].as_f64().unwrap().abs()).fold(0.0, f64::max);
    let tol = 1e-9 * (1.0 + biggest(&m["transform"]) + biggest(&head["transform"]) + (0..3).map(|i| head["transform"]["scale"][i].as_f64().unwrap().abs()).fold(0.0, f64::max) * 2000.0);
    for f in feats {
        let fv = f["vertices"].as_array().unwrap();
        for (k, o) in f["CityObjects"].as_object().unwrap() {
            let p = objs.get(k).ok_or_else(|| format!("objects:{k} is missing"))?;
            for mem in ["type", "attributes", "parents", "children"] {
                if o.get(mem).unwrap_or(&Value::Null) != p.get(mem).unwrap_or(&Value::Null) {
                    return Err(format!("{mem}:{} of {k} became {}", o[mem], p[mem]));
                }
            }
            let none = vec![];
            let (og, pg) = (o["geometry"].as_array().unwrap_or(&none), p["geometry"].as_array().unwrap_or(&none));
            if og.len() != pg.len() {
                return Err(format!("geometries:{} of {k} became {}", og.len(), pg.len()));
            }
            for (x, y) in og.iter().zip(pg) {
                if x["type"] != y["type"] || x.get("lod") != y.get("lod") || x.get("semantics").unwrap_or(&Value::Null)["values"] != y.get("semantics").unwrap_or(&Value::Null)["values"] {
                    return Err(format!("geometry:{x} became {y}"));
                }
                let (a, b) = (places(&x["boundaries"], fv, &head["transform"]), places(&y["boundaries"], vs, &m["transform"]));
                if !near(&a, &b, tol) {
                    return Err(format!("places:{a} became {b} (tolerance {tol})"));
                }
                rep.inc("geometries_merged");
            }
        }
    }
    // OBJ: of the list and of the whole
    let mut all = vec![JsValue::from_json(head)];
    all.extend(feats.iter().map(JsValue::from_json));
    let lines = |s: String| {
        let mut l: Vec<String> = s.lines().map(|l| l.to_string()).collect();
        l.sort();
        l
    };
    let a = lines(convert_cityjson_to_obj(&arr(all)).map_err(err)?);
    let b = lines(convert_cityjson_to_obj(&cj).map_err(err)?);
    if a != b {
        return Err(format!("obj:{} lines of the list, {} of the whole", a.len(), b.len()));
    }
    let nv = a.iter().filter(|l| l.starts_with("v ")).count();
    if nv != vs.len() {
        return Err(format!("obj:{nv} vertices for {}", vs.len()));
    }
    for f in a.iter().filter(|l| l.starts_with("f ")) {
        let at: Vec<usize> = f[2..].split_whitespace().filter_map(|t| t.split('/').next()?.parse().ok()).collect();
        if at.is_empty() || at.len() != f[2..].split_whitespace().count() || at.iter().any(|i| !(1..=nv).contains(i)) {
            return Err(format!("obj:face {f:?} of {nv} vertices"));
        }
        rep.inc("faces");
    }
    rep.add("obj_lines", a.len() as u64);
    // what is no CityJSON is refused
    for bad in [arr(vec![]), JsValue::Null, JsValue::from_str("{}"), arr(vec![JsValue::from_json(&feats[0])]), arr(vec![JsValue::from_json(head), JsValue::from_json(head)])] {
        if convert_cityjson_to_obj(&bad).is_ok() {
            return Err(format!("obj:made of {}", bad.json()));
        }
    }
    if util::cjseq_to_cj_wasm(JsValue::from_json(&feats[0]), arr(vec![])).is_ok() || util::cjseq_to_cj_wasm(JsValue::from_json(head), arr(vec![JsValue::from_json(head)])).is_ok() {
        return Err("refused:what is no CityJSON was merged".into());
    }
    Ok(())
}

fn num(r: &mut StdRng) -> f64 {
    *[0.0, -0.0, 1.0, -1.5, 1e300, -1e300, f64::INFINITY, f64::NAN, 5e-324, 85000.123, r.gen_range(-1e6..1e6)].choose(r).unwrap()
}
fn same(a: Option<f64>, b: f64) -> bool {
    a.is_some_and(|a| a.to_bits() == b.to_bits())
}
fn junk(r: &mut StdRng) -> JsValue {
    match r.gen_range(0..7) {
        0 => JsValue::Undefined,
        1 => JsValue::Null,
        2 => JsValue::from_str(["", "1", "bbox", "NaN"].choose(r).unwrap()),
        3 => JsValue::from_bool(r.gen()),
        4 => arr(vec![n(1.0)]),
        5 => obj(&[("x", n(1.0))]),
        _ => Date::at(0.0),
    }
}
fn asked_spatial(r: &mut StdRng) -> Result<&'static str, String> {
    let s = match r.gen_range(0..3) {
        0 => Sel::Bbox(num(r), num(r), num(r), num(r)),
        1 => Sel::Point(num(r), num(r)),
        _ => Sel::Nearest(num(r), num(r)),
    };
    let mut v = js_spatial(&s).unwrap();
    let JsValue::Obj(o) = &v else { unreachable!() };
    let broken = r.gen_bool(0.5);
    if broken {
        let mut o = o.lock().unwrap();
        let i = r.gen_range(0..o.len());
        match r.gen_range(0..3) {
            0 => {
                o.remove(i);
            }
            1 if o[i].0 == "type" => o[i].1 = JsValue::from_str(["bboxes", "BBOX", "", "point", "nearest"].choose(r).unwrap()),
            1 => o[i].0 = o[i].0.to_uppercase() + "_",
            _ => {
                let mut j = junk(r);
                if o[i].0 == "type" && matches!(&j, JsValue::Str(s) if s == "bbox") {
                    j = JsValue::Null;
                }
                o[i].1 = j;
            }
        }
    }
    if r.gen_bool(0.3) {
        // members nobody asked for, and any order
        let mut o = o.lock().unwrap();
        o.push(("more".into(), JsValue::Null));
        o.shuffle(r);
    }
    let whole_junk = broken && r.gen_bool(0.1);
    if whole_junk {
        v = loop {
            let j = junk(r);
            if !matches!(j, JsValue::Obj(_)) {
                break j;
            }
        };
    }
    let what = v.json();
    match WasmSpatialQuery::new(&v) {
        Err(e) if broken => e.as_string().map(|_| "refused").ok_or_else(|| format!("error:{e:?} is no text")),
        Err(e) => Err(format!("refused:{what} is refused: {e:?}")),
        Ok(_) if broken => Err(format!("taken:{what} is taken for a query")),
        Ok(q) => {
            let t = WasmSpatialQuery::new(&q.to_js()).map_err(|e| format!("to_js:{what} is given back as what is refused: {e:?}"))?;
            for q in [&q, &t] {
                let kind = q.query_type();
                let ok = match s {
                    Sel::Bbox(a, b, c, d) => kind == "bbox" && same(q.min_x(), a) && same(q.min_y(), b) && same(q.max_x(), c) && same(q.max_y(), d) && q.x().is_none() && q.y().is_none(),
                    Sel::Point(x, y) => kind == "pointIntersects" && same(q.x(), x) && same(q.y(), y) && q.min_x().is_none() && q.min_y().is_none() && q.max_x().is_none() && q.max_y().is_none(),
                    Sel::Nearest(x, y) => kind == "pointNearest" && same(q.x(), x) && same(q.y(), y) && q.min_x().is_none() && q.min_y().is_none() && q.max_x().is_none() && q.max_y().is_none(),
                    _ => unreachable!(),
                };
                if !ok {
                    return Err(format!("kept:{what} became {}", q.to_js().json()));
                }
            }
            Ok("kept")
        }
    }
}
fn asked_attr(r: &mut StdRng) -> Result<&'static str, String> {
    let mut want = vec![];
    let mut tuples = vec![];
    let mut broken = false;
    for _ in 0..r.gen_range(0..4) {
        let f = word(r);
        let o = op_name([Operator::Eq, Operator::Ne, Operator::Gt, Operator::Ge, Operator::Lt, Operator::Le].choose(r).unwrap());
        let (v, back) = match r.gen_range(0..4) {
            0 => {
                let x = num(r);
                (n(x), n(x))
            }
            1 => {
                let s: String = word(r).chars().take(12).collect();
                let s = if s.len() > 50 || s.contains('\0') { "x".to_string() } else { s };
                (JsValue::from_str(&s), JsValue::from_str(&s))
            }
            2 => {
                let b = r.gen();
                (JsValue::from_bool(b), JsValue::from_bool(b))
            }
            _ => {
                let ms = *[0.0, 1.0, -1.0, 999.0, -999.0, -1500.0, 1577836800000.0, 253402300799999.0, -62135596800000.0, r.gen_range(-4_000_000_000_000i64..4_000_000_000_000) as f64].choose(r).unwrap();
                (Date::at(ms), Date::at(ms))
            }
        };
        let mut t = vec![JsValue::from_str(&f), JsValue::from_str(o), v];
        if r.gen_bool(0.15) {
            broken = true;
            match r.gen_range(0..5) {
                0 => t.truncate(r.gen_range(0..3)),
                1 => t[0] = [JsValue::Null, n(1.0), JsValue::Undefined][r.gen_range(0..3)].clone(),
                2 => t[1] = [JsValue::from_str("eq"), JsValue::from_str("=="), JsValue::from_str(""), n(1.0), JsValue::Undefined][r.gen_range(0..5)].clone(),
                3 => t[2] = [JsValue::Null, JsValue::Undefined, arr(vec![]), obj(&[])][r.gen_range(0..4)].clone(),
                _ => t[2] = Date::at(f64::NAN),
            }
        }
        want.push((f, o, back));
        tuples.push(arr(t));
    }
    let v = arr(tuples);
    let what = v.json();
    match WasmAttrQuery::new(&v) {
        Err(e) if broken => e.as_string().map(|_| "refused").ok_or_else(|| format!("error:{e:?} is no text")),
        Err(e) => Err(format!("refused:{what} is refused: {e:?}")),
        Ok(_) if broken => Err(format!("taken:{what} is taken for a query")),
        Ok(q) => {
            let inner = Array::from(&q.inner());
            if inner.length() as usize != want.len() {
                return Err(format!("kept:{what} became {}", q.inner().json()));
            }
            for (i, (f, o, v)) in want.iter().enumerate() {
                let t = Array::from(&inner.get(i as u32));
                let got = t.get(2);
                let ok = match v {
                    JsValue::Num(x) => same(got.as_f64(), *x),
                    JsValue::Date(ms) => got.as_string().and_then(|s| chrono::DateTime::parse_from_rfc3339(&s).ok()).is_some_and(|d| d.timestamp_millis() as f64 == *ms && d.timestamp_subsec_nanos() % 1_000_000 == 0),
                    v => v.json() == got.json(),
                };
                if t.length() != 3 || t.get(0).as_string().as_deref() != Some(f) || t.get(1).as_string().as_deref() != Some(o) || !ok {
                    return Err(format!("kept:{what} became {}", q.inner().json()));
                }
            }
            Ok("kept")
        }
    }
}
