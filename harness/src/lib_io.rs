//! Instrumented inputs/outputs and convenience drivers around the library's entry points.
use crate::gen::Dataset;
use crate::rep::guard;
use async_trait::async_trait;
use bytes::Bytes;
use cjseq::CityJSONFeature;
use fcb_core::{AttrQuery, FcbReader, FcbWriter, HttpFcbReader, SpatialQuery};
use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, HttpError};
use serde_json::Value;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

pub fn write_ds(d: &Dataset) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    write_ds_to(d, &mut out)?;
    Ok(out)
}
pub fn write_ds_to(d: &Dataset, out: impl Write) -> Result<(), String> {
    let r = guard(|| -> std::result::Result<(), String> {
        // what equals the default is left out half of the time
        let brief = d.feats.len() % 2 == 0;
        let plain = d.opts.write_index && d.opts.index_node_size == 16 && d.opts.attribute_indices.is_none() && d.opts.geographical_extent.is_none();
        let opts = (!(brief && plain)).then(|| d.opts.clone());
        let schema = (!(brief && d.schema.is_empty())).then(|| d.schema.clone());
        let mut w = FcbWriter::new(d.header.clone(), opts, schema, d.sem_schema.clone())
            .map_err(|e| format!("new: {e}"))?;
        for f in &d.feats {
            w.add_feature(f).map_err(|e| format!("add_feature: {e}"))?;
        }
        w.write(out).map_err(|e| format!("write: {e}"))
    });
    match r {
        Ok(x) => x,
        Err(p) => Err(format!("PANIC {}: {}", p.loc, p.msg)),
    }
}

#[derive(Clone)]
pub enum Sel {
    All,
    Bbox(f64, f64, f64, f64),
    Point(f64, f64),
    Nearest(f64, f64),
    Attr(AttrQuery),
}
impl Sel {
    pub fn spatial(&self) -> Option<SpatialQuery> {
        match self {
            Sel::Bbox(a, b, c, d) => Some(SpatialQuery::BBox(*a, *b, *c, *d)),
            Sel::Point(x, y) => Some(SpatialQuery::PointIntersects(*x, *y)),
            Sel::Nearest(x, y) => Some(SpatialQuery::PointNearest(*x, *y)),
            _ => None,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Sel::All => "all",
            Sel::Bbox(..) => "bbox",
            Sel::Point(..) => "point",
            Sel::Nearest(..) => "nearest",
            Sel::Attr(..) => "attr",
        }
    }
    pub fn show(&self) -> String {
        match self {
            Sel::Attr(q) => format!("attr {q:?}"),
            Sel::All => "all".into(),
            Sel::Bbox(a, b, c, d) => format!("bbox {a:?},{b:?},{c:?},{d:?}"),
            Sel::Point(x, y) => format!("point {x:?},{y:?}"),
            Sel::Nearest(x, y) => format!("nearest {x:?},{y:?}"),
        }
    }
}

/// Result of draining a reader.
#[derive(Debug, Clone, Default)]
pub struct Drained {
    pub feats: Vec<CityJSONFeature>,
    pub announced: Option<usize>,
    pub err: Option<String>,
    pub panic: Option<String>,
    /// what is wrong with the feature which is the current one after the iteration has ended
    pub current: Option<String>,
}
impl Drained {
    pub fn ids(&self) -> Vec<String> {
        self.feats.iter().map(|f| f.id.clone()).collect()
    }
    pub fn ok(&self) -> bool {
        self.err.is_none() && self.panic.is_none()
    }
    pub fn problem(&self) -> String {
        match (&self.panic, &self.err) {
            (Some(p), _) => format!("panic {p}"),
            (_, Some(e)) => format!("error {e}"),
            _ => "ok".into(),
        }
    }
}

pub fn drain_seek<R: Read + Seek>(r: R, sel: &Sel) -> Drained {
    drain_seek_by(|| FcbReader::open(r), sel)
}
pub fn drain_seek_by<R: Read + Seek>(open: impl FnOnce() -> fcb_core::error::Result<FcbReader<R>>, sel: &Sel) -> Drained {
    let mut d = Drained::default();
    let res = guard(|| -> std::result::Result<(), String> {
        let rd = open().map_err(|e| format!("open: {e}"))?;
        let mut it = match sel {
            Sel::All => rd.select_all(),
            Sel::Attr(q) => rd.select_attr_query(q.clone()),
            s => rd.select_query(s.spatial().unwrap()),
        }
        .map_err(|e| format!("select: {e}"))?;
        d.announced = it.features_count();
        loop {
            let e = match it.next() {
                Ok(Some(f)) => {
                    d.feats.push(f.cur_cj_feature().map_err(|e| format!("decode: {e}"))?);
                    cap(&d)?;
                    continue;
                }
                Ok(None) => None,
                Err(e) => Some(format!("next: {e}")),
            };
            d.current = unverified(|| it.cur_feature()._tab.buf());
            return e.map_or(Ok(()), Err);
        }
    });
    fin(&mut d, res);
    d
}
pub fn drain_seq<R: Read>(r: R, sel: &Sel) -> Drained {
    drain_seq_by(|| FcbReader::open(r), sel)
}
pub fn drain_seq_by<R: Read>(open: impl FnOnce() -> fcb_core::error::Result<FcbReader<R>>, sel: &Sel) -> Drained {
    let mut d = Drained::default();
    let res = guard(|| -> std::result::Result<(), String> {
        let rd = open().map_err(|e| format!("open: {e}"))?;
        let mut it = match sel {
            Sel::All => rd.select_all_seq(),
            Sel::Attr(q) => rd.select_attr_query_seq(q.clone()),
            s => rd.select_query_seq(s.spatial().unwrap()),
        }
        .map_err(|e| format!("select: {e}"))?;
        d.announced = it.features_count();
        loop {
            let e = match it.next() {
                Ok(Some(f)) => {
                    d.feats.push(f.cur_cj_feature().map_err(|e| format!("decode: {e}"))?);
                    cap(&d)?;
                    continue;
                }
                Ok(None) => None,
                Err(e) => Some(format!("next: {e}")),
            };
            d.current = unverified(|| it.cur_feature()._tab.buf());
            return e.map_or(Ok(()), Err);
        }
    });
    fin(&mut d, res);
    d
}
/// A reader has no current feature (and says so by a panic), or one which has been verified.
fn unverified<'a>(current: impl FnOnce() -> &'a [u8]) -> Option<String> {
    let bytes = guard(current).ok()?;
    fcb_core::fb::size_prefixed_root_as_city_feature(bytes).err().map(|e| format!("{e}"))
}
/// an iteration that never ends is reported instead of followed
fn cap(d: &Drained) -> Result<(), String> {
    if d.feats.len() > 200_000 {
        return Err("endless iteration: more than 200000 features".into());
    }
    Ok(())
}
fn fin(d: &mut Drained, res: Result<std::result::Result<(), String>, crate::rep::Panicked>) {
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => d.err = Some(e),
        Err(p) => d.panic = Some(format!("{}: {}", p.loc, p.msg)),
    }
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
}
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    RT.with(|rt| rt.block_on(f))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Eof {
    /// clamp the range to the resource, as RFC 9110 prescribes; error when start >= length (416)
    Rfc,
}
#[derive(Clone, Debug, PartialEq)]
pub enum HFault {
    None,
    /// request number n fails
    Fail(u64),
    /// request number n returns only k bytes
    Short(u64, usize),
    /// after the first requests, each request fails or comes back short with some probability (per 1000)
    Unstable { seed: u64, permille: u64, from: u64 },
}
#[derive(Clone, Debug)]
pub struct Req {
    pub begin: u64,
    pub end: u64,
    pub raw: String,
    pub got: usize,
}
#[derive(Clone)]
pub struct MockHttp {
    pub data: Arc<Vec<u8>>,
    pub log: Arc<Mutex<Vec<Req>>>,
    pub fault: HFault,
}
impl MockHttp {
    pub fn new(data: Arc<Vec<u8>>) -> Self {
        MockHttp { data, log: Arc::new(Mutex::new(vec![])), fault: HFault::None }
    }
    pub fn with_fault(data: Arc<Vec<u8>>, fault: HFault) -> Self {
        MockHttp { data, log: Arc::new(Mutex::new(vec![])), fault }
    }
    pub fn buffered(&self) -> AsyncBufferedHttpRangeClient<MockHttp> {
        AsyncBufferedHttpRangeClient::with(self.clone(), "http://mock.invalid/x.fcb")
    }
}
#[async_trait]
impl AsyncHttpRangeClient for MockHttp {
    async fn get_range(&self, _url: &str, range: &str) -> http_range_client::Result<Bytes> {
        let idx;
        let r = range.strip_prefix("bytes=").and_then(|s| s.split_once('-'));
        let (b, e) = match r {
            Some((b, e)) => (b.parse::<u64>().unwrap_or(u64::MAX), e.parse::<u64>().unwrap_or(u64::MAX)),
            None => (u64::MAX, 0),
        };
        let len = self.data.len() as u64;
        let mut out: Option<Bytes> = if b <= e && b < len {
            let e2 = e.min(len - 1);
            Some(Bytes::copy_from_slice(&self.data[b as usize..=e2 as usize]))
        } else {
            None
        };
        {
            let mut l = self.log.lock().unwrap();
            idx = l.len() as u64;
            match self.fault {
                HFault::Fail(n) if n == idx => out = None,
                HFault::Short(n, k) if n == idx => {
                    if let Some(o) = &mut out {
                        let k = k.min(o.len());
                        *o = o.slice(0..k);
                    }
                }
                HFault::Unstable { seed, permille, from } if idx >= from => {
                    let x = crate::rep::h(&(seed, idx));
                    if x % 1000 < permille {
                        out = match (out, x >> 20 & 1) {
                            (Some(o), 1) => Some(o.slice(0..(x >> 24) as usize % o.len())),
                            _ => None,
                        };
                    }
                }
                _ => {}
            }
            l.push(Req { begin: b, end: e, raw: range.to_string(), got: out.as_ref().map(|o| o.len()).unwrap_or(0) });
        }
        // give other tasks of the runtime a chance to run in between
        tokio::task::yield_now().await;
        out.ok_or_else(|| HttpError::HttpError("416 or injected".into()))
    }
    async fn head_response_header(&self, _url: &str, _h: &str) -> http_range_client::Result<Option<String>> {
        Ok(None)
    }
}

pub fn drain_http(m: &MockHttp, sel: &Sel) -> Drained {
    drain_http_by(HttpFcbReader::new(m.buffered()), sel)
}
pub fn drain_http_by<T: AsyncHttpRangeClient + Send + Sync>(open: impl std::future::Future<Output = fcb_core::error::Result<HttpFcbReader<T>>>, sel: &Sel) -> Drained {
    let mut d = Drained::default();
    let res = guard(|| {
        block_on(async {
            let rd = open.await.map_err(|e| format!("open: {e}"))?;
            let mut it = match sel {
                Sel::All => rd.select_all().await,
                Sel::Attr(q) => rd.select_attr_query(q).await,
                s => rd.select_query(s.spatial().unwrap()).await,
            }
            .map_err(|e| format!("select: {e}"))?;
            d.announced = it.features_count();
            loop {
                let e = match it.next().await {
                    Ok(Some(f)) => {
                        d.feats.push(f.cj_feature().map_err(|e| format!("decode: {e}"))?);
                        cap(&d)?;
                        continue;
                    }
                    Ok(None) => None,
                    Err(e) => Some(format!("next: {e}")),
                };
                d.current = unverified(|| it.cur_feature().feature()._tab.buf());
                return e.map_or(Ok(()), Err);
            }
        })
    });
    fin(&mut d, res);
    d
}

/// A reader that serves at most `max` bytes per call (or a random amount), can fail, be interrupted or
/// hit end-of-file early at given operation indices, and counts what was asked of it.
pub struct FaultReader {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    pub ops: u64,
    pub chunk: usize,
    pub interrupt_every: u64,
    pub fail_at: Option<(u64, io::ErrorKind)>,
    pub eof_at_byte: Option<u64>,
    pub stats: Arc<Mutex<IoStats>>,
    pub op_limit: u64,
}
#[derive(Default, Debug, Clone)]
pub struct IoStats {
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    pub interrupts: u64,
    pub failed: bool,
    pub eof_hit: bool,
    pub limit_hit: bool,
}
impl FaultReader {
    pub fn new(data: Arc<Vec<u8>>) -> Self {
        FaultReader {
            data,
            pos: 0,
            ops: 0,
            chunk: usize::MAX,
            interrupt_every: 0,
            fail_at: None,
            eof_at_byte: None,
            stats: Default::default(),
            op_limit: u64::MAX,
        }
    }
}
impl Read for FaultReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut st = self.stats.lock().unwrap();
        let op = self.ops;
        self.ops += 1;
        if op > self.op_limit {
            st.limit_hit = true;
            return Err(io::Error::new(io::ErrorKind::Other, "operation budget exhausted"));
        }
        if let Some((n, k)) = self.fail_at {
            if op == n {
                st.failed = true;
                return Err(io::Error::new(k, "injected"));
            }
        }
        if self.interrupt_every > 0 && op % self.interrupt_every == 0 {
            st.interrupts += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "injected EINTR"));
        }
        st.reads += 1;
        let end = self.eof_at_byte.unwrap_or(u64::MAX).min(self.data.len() as u64);
        let avail = end.saturating_sub(self.pos);
        if avail == 0 && !buf.is_empty() && self.eof_at_byte.is_some() {
            st.eof_hit = true;
        }
        let n = (buf.len().min(self.chunk) as u64).min(avail) as usize;
        let at = self.pos.min(end) as usize;
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        st.bytes += n as u64;
        Ok(n)
    }
}
impl Seek for FaultReader {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut st = self.stats.lock().unwrap();
        let op = self.ops;
        self.ops += 1;
        if op > self.op_limit {
            st.limit_hit = true;
            return Err(io::Error::new(io::ErrorKind::Other, "operation budget exhausted"));
        }
        if let Some((n, k)) = self.fail_at {
            if op == n {
                st.failed = true;
                return Err(io::Error::new(k, "injected"));
            }
        }
        st.seeks += 1;
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "bad seek"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

/// canonical JSON of a feature for comparison: absent and empty members are identified where CityJSON does
pub fn canon(f: &CityJSONFeature) -> Value {
    serde_json::to_value(f).unwrap()
}

/// first difference between two JSON values, as (generalised path, details)
pub fn diff(a: &Value, b: &Value) -> Option<(String, String)> {
    fn go(a: &Value, b: &Value, path: &mut String) -> Option<(String, String)> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    let l = path.len();
                    path.push('/');
                    path.push_str(k);
                    match y.get(k) {
                        Some(w) => {
                            if let Some(d) = go(v, w, path) {
                                return Some(d);
                            }
                        }
                        None => return Some((path.clone(), format!("missing on the right; left = {v}"))),
                    }
                    path.truncate(l);
                }
                for (k, v) in y {
                    if !x.contains_key(k) {
                        return Some((format!("{path}/{k}"), format!("only on the right = {v}")));
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    let l = path.len();
                    path.push_str(&format!("[{i}]"));
                    if let Some(d) = go(v, w, path) {
                        return Some(d);
                    }
                    path.truncate(l);
                }
                if x.len() != y.len() {
                    return Some((path.clone(), format!("array length {} vs {}: {a} vs {b}", x.len(), y.len())));
                }
                None
            }
            _ => {
                if same_scalar(a, b) {
                    None
                } else {
                    Some((path.clone(), format!("{a} vs {b}")))
                }
            }
        }
    }
    let mut p = String::new();
    go(a, b, &mut p)
}
fn same_scalar(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x.is_f64() != y.is_f64() {
                return false;
            }
            if x.is_f64() {
                x.as_f64().unwrap().to_bits() == y.as_f64().unwrap().to_bits()
            } else {
                x == y
            }
        }
        _ => a == b,
    }
}

/// a web server on the loopback interface which serves files by path and answers range requests
pub struct FileServer {
    pub port: u16,
    files: Arc<Mutex<std::collections::HashMap<String, Arc<Vec<u8>>>>>,
    pub ranges: Arc<std::sync::atomic::AtomicU64>,
}
impl FileServer {
    pub fn start() -> FileServer {
        use std::io::{BufRead, BufReader};
        use std::sync::atomic::{AtomicU64, Ordering};
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = l.local_addr().unwrap().port();
        let files: Arc<Mutex<std::collections::HashMap<String, Arc<Vec<u8>>>>> = Default::default();
        let ranges = Arc::new(AtomicU64::new(0));
        let (fc, rc) = (files.clone(), ranges.clone());
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let (fc, rc) = (fc.clone(), rc.clone());
                std::thread::spawn(move || {
                    let _ = c.set_nodelay(true);
                    let mut r = BufReader::new(c.try_clone().unwrap());
                    let mut c = c;
                    // connections are kept open for further requests
                    loop {
                        let mut lines: Vec<String> = vec![];
                        loop {
                            let mut line = String::new();
                            match r.read_line(&mut line) {
                                Ok(n) if n > 2 => lines.push(line.trim_end().to_string()),
                                Ok(2) if !lines.is_empty() => break,
                                _ => return,
                            }
                        }
                        let path = lines[0].split(' ').nth(1).unwrap_or("").to_string();
                        let range = lines.iter().find_map(|l| l.to_ascii_lowercase().strip_prefix("range:").map(|s| s.trim().to_string()));
                        let data = fc.lock().unwrap().get(&path).cloned();
                        let (status, body, extra): (&str, &[u8], String) = match (&data, range.as_deref().and_then(|s| s.strip_prefix("bytes=")).and_then(|s| s.split_once('-'))) {
                            (None, _) => ("404 Not Found", b"", String::new()),
                            (Some(d), None) => ("200 OK", &d[..], String::new()),
                            (Some(d), Some((b, e))) => match (b.parse::<usize>(), e.parse::<usize>()) {
                                (Ok(b), Ok(e)) if b <= e && b < d.len() => {
                                    rc.fetch_add(1, Ordering::Relaxed);
                                    let e = e.min(d.len() - 1);
                                    ("206 Partial Content", &d[b..=e], format!("Content-Range: bytes {b}-{e}/{}\r\n", d.len()))
                                }
                                _ => ("416 Range Not Satisfiable", b"", format!("Content-Range: bytes */{}\r\n", d.len())),
                            },
                        };
                        let mut out = format!("HTTP/1.1 {status}\r\nContent-Length: {}\r\n{extra}\r\n", body.len()).into_bytes();
                        out.extend_from_slice(body);
                        if c.write_all(&out).is_err() {
                            return;
                        }
                    }
                });
            }
        });
        FileServer { port, files, ranges }
    }
    pub fn serve(&self, name: &str, data: Arc<Vec<u8>>) -> String {
        self.files.lock().unwrap().insert(format!("/{name}"), data);
        format!("http://127.0.0.1:{}/{name}", self.port)
    }
    pub fn withdraw(&self, name: &str) {
        self.files.lock().unwrap().remove(&format!("/{name}"));
    }
}
