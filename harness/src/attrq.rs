//! Key codecs (C15), the static B+tree as a sorted multimap (C07) and attribute queries (C06).
use crate::gen::*;
use crate::lib_io::*;
use crate::rep::*;
use chrono::{DateTime, TimeZone, Utc};
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::static_btree::{
    FixedStringKey, Float, HttpIndex, HttpMultiIndex, Key, KeyType, MemoryIndex, MemoryMultiIndex, MultiIndex, Operator, PayloadEntry,
    QueryCondition, SearchIndex, StreamIndex, StreamMultiIndex, Stree,
};
use fcb_core::{AttrQuery, Entry};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Map, Value};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Cursor, Seek, SeekFrom, Write};
use std::ops::Bound;
use std::sync::Arc;

/// A key type together with the plain value it stands for.
pub trait GenKey: Key + std::fmt::Debug + Send + Sync + 'static {
    type Src: Clone + std::fmt::Debug;
    const NAME: &'static str;
    const WIDTH: usize;
    /// `small`: from a handful of values, so that duplicates and equal probes abound
    fn src(r: &mut StdRng, small: bool) -> Self::Src;
    fn key(s: &Self::Src) -> Self;
    /// natural order of the values, which the key order must agree with
    fn cmp_src(a: &Self::Src, b: &Self::Src) -> Ordering;
    /// may the value be compared with the declared minimum and maximum? (NaN may not)
    fn bounded(_: &Self::Src) -> bool {
        true
    }
    /// the value the key must show after decoding
    fn shows(&self, s: &Self::Src) -> bool;
}
macro_rules! int_key {
    ($($t:ty),*) => {$(
        impl GenKey for $t {
            type Src = $t;
            const NAME: &'static str = stringify!($t);
            const WIDTH: usize = std::mem::size_of::<$t>();
            fn src(r: &mut StdRng, small: bool) -> $t {
                match r.gen_range(0..8) {
                    0 => *[<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX - 1, <$t>::MIN + 1, (0 as $t).wrapping_sub(1), <$t>::MAX / 2 + 1].choose(r).unwrap(),
                    _ if small => r.gen_range(0..40) as $t,
                    _ => r.gen(),
                }
            }
            fn key(s: &$t) -> $t { *s }
            fn cmp_src(a: &$t, b: &$t) -> Ordering { a.cmp(b) }
            fn shows(&self, s: &$t) -> bool { self == s }
        })*};
}
int_key!(i8, u8, i16, u16, i32, u32, i64, u64);
impl GenKey for bool {
    type Src = bool;
    const NAME: &'static str = "bool";
    const WIDTH: usize = 1;
    fn src(r: &mut StdRng, _: bool) -> bool {
        r.gen()
    }
    fn key(s: &bool) -> bool {
        *s
    }
    fn cmp_src(a: &bool, b: &bool) -> Ordering {
        a.cmp(b)
    }
    fn shows(&self, s: &bool) -> bool {
        self == s
    }
}
macro_rules! float_key {
    ($t:ty, $n:expr) => {
        impl GenKey for Float<$t> {
            type Src = $t;
            const NAME: &'static str = $n;
            const WIDTH: usize = std::mem::size_of::<$t>();
            fn src(r: &mut StdRng, small: bool) -> $t {
                match r.gen_range(0..8) {
                    0 => *[0.0, -0.0, <$t>::MAX, <$t>::MIN, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::MIN_POSITIVE, <$t>::EPSILON].choose(r).unwrap(),
                    _ if small => r.gen_range(-20..20) as $t / 2.0,
                    _ => <$t>::from_bits(r.gen()),
                }
            }
            fn key(s: &$t) -> Self {
                Float(*s)
            }
            fn cmp_src(a: &$t, b: &$t) -> Ordering {
                // the total order of the key type: NaN equals itself and follows everything
                match (a.is_nan(), b.is_nan()) {
                    (true, true) => Ordering::Equal,
                    (true, false) => Ordering::Greater,
                    (false, true) => Ordering::Less,
                    _ => a.partial_cmp(b).unwrap(),
                }
            }
            fn bounded(s: &$t) -> bool {
                !s.is_nan()
            }
            fn shows(&self, s: &$t) -> bool {
                self.0.to_bits() == s.to_bits() || (self.0.is_nan() && s.is_nan())
            }
        }
    };
}
float_key!(f32, "f32");
float_key!(f64, "f64");
impl GenKey for DateTime<Utc> {
    type Src = (i64, u32);
    const NAME: &'static str = "datetime";
    const WIDTH: usize = 12;
    fn src(r: &mut StdRng, small: bool) -> (i64, u32) {
        const LO: i64 = -8_334_601_228_800;
        const HI: i64 = 8_210_266_876_799;
        match r.gen_range(0..8) {
            0 => *[(0, 0), (-1, 999_999_999), (LO, 0), (HI, 999_999_999), (253_402_300_799, 0), (-62_135_596_800, 0), (1, 1)].choose(r).unwrap(),
            _ if small => (r.gen_range(-20..20), *[0, 0, 0, 500_000_000].choose(r).unwrap()),
            1 | 2 => (r.gen_range(LO..HI), r.gen_range(0..1_000_000_000)),
            _ => (r.gen_range(-3_000_000_000..5_000_000_000), r.gen_range(0..1_000_000_000)),
        }
    }
    fn key(s: &(i64, u32)) -> Self {
        Utc.timestamp_opt(s.0, s.1).single().expect("date in range")
    }
    fn cmp_src(a: &(i64, u32), b: &(i64, u32)) -> Ordering {
        a.cmp(b)
    }
    fn shows(&self, s: &(i64, u32)) -> bool {
        self.timestamp() == s.0 && self.timestamp_subsec_nanos() == s.1
    }
}
impl<const N: usize> GenKey for FixedStringKey<N> {
    type Src = String;
    const NAME: &'static str = match N {
        20 => "str20",
        50 => "str50",
        _ => "str100",
    };
    const WIDTH: usize = N;
    fn src(r: &mut StdRng, small: bool) -> String {
        if small {
            return match r.gen_range(0..12) {
                0 => String::new(),
                1 => "k".repeat(r.gen_range(1..N + 10)),
                _ => format!("k{}", r.gen_range(0..40)),
            };
        }
        let n = match r.gen_range(0..8) {
            0 => N - 1,
            1 => N,
            2 => N + 1,
            3 => r.gen_range(0..3 * N),
            _ => r.gen_range(0..12),
        };
        let mut s = String::new();
        while s.len() < n {
            s.push(*['a', 'b', 'z', 'A', ' ', '~', '\u{1}', 'é', '語', '🏠', '\u{10ffff}'].choose(r).unwrap());
        }
        s
    }
    fn key(s: &String) -> Self {
        FixedStringKey::from_str(s)
    }
    /// the format keeps the first N bytes
    fn cmp_src(a: &String, b: &String) -> Ordering {
        a.as_bytes()[..a.len().min(N)].cmp(&b.as_bytes()[..b.len().min(N)])
    }
    fn shows(&self, s: &String) -> bool {
        self.to_string_lossy() == String::from_utf8_lossy(&s.as_bytes()[..s.len().min(N)])
    }
}

/// accepts `room` bytes, then fails
struct Sink {
    room: usize,
    got: Vec<u8>,
    one: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.room - self.got.len()).min(if self.one { 1 } else { usize::MAX });
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink full"));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn key_case<K: GenKey>(r: &mut StdRng, rep: &mut Rep) {
    let t = K::NAME;
    let mut srcs: Vec<K::Src> = (0..6).map(|i| K::src(r, i % 2 == 0)).collect();
    let again = srcs[0].clone();
    srcs.push(again);
    let mut keys = Vec::new();
    if K::SERIALIZED_SIZE != K::WIDTH {
        rep.violate(format!("width:{t}"), format!("{t}: declared width {} instead of {}", K::SERIALIZED_SIZE, K::WIDTH));
    }
    for s in &srcs {
        let k = K::key(s);
        let mut out = Vec::new();
        let n = match k.write_to(&mut out) {
            Ok(n) => n,
            Err(e) => {
                rep.violate(format!("write:{t}"), format!("{t}: writing {s:?} fails: {e}"));
                continue;
            }
        };
        if n != K::WIDTH || out.len() != K::WIDTH {
            rep.violate(format!("width:{t}"), format!("{t}: {s:?} wrote {} bytes, reported {n}, declared {}", out.len(), K::WIDTH));
            continue;
        }
        // bytes after the key must not matter nor be consumed
        let mut more = out.clone();
        more.extend((0..r.gen_range(0..9)).map(|_| r.gen::<u8>()));
        let mut c = Cursor::new(&more[..]);
        let d1 = K::read_from(&mut c);
        let used = c.position() as usize;
        let d2 = K::from_bytes(&more);
        for (how, d) in [("read_from", d1), ("from_bytes", d2)] {
            match d {
                Ok(d) => {
                    if d != k || d.cmp(&k) != Ordering::Equal || !d.shows(s) {
                        rep.violate(format!("roundtrip:{t}"), format!("{t} {how}: {s:?} came back as {d:?}"));
                    }
                    if how == "read_from" {
                        keys.push((s.clone(), d));
                    }
                }
                Err(e) => rep.violate(format!("roundtrip:{t}"), format!("{t} {how}: {s:?} cannot be decoded: {e}")),
            }
        }
        if used != K::WIDTH {
            rep.violate(format!("consumed:{t}"), format!("{t}: read_from consumed {used} of {} bytes", K::WIDTH));
        }
        // too few bytes
        let cut = r.gen_range(0..K::WIDTH);
        for (how, res) in [
            ("read_from", guard(|| K::read_from(&mut &out[..cut]).is_err())),
            ("from_bytes", guard(|| K::from_bytes(&out[..cut]).is_err())),
        ] {
            match res {
                Ok(true) => {}
                Ok(false) => rep.violate(format!("short_input:{t}"), format!("{t} {how}: accepted {cut} of {} bytes", K::WIDTH)),
                Err(p) => rep.violate(format!("short_input_panic:{t}"), format!("{t} {how}: {cut} of {} bytes: panic {}", K::WIDTH, p.msg)),
            }
        }
        // an output which fails or splits writes
        let mut sink = Sink { room: cut, got: vec![], one: r.gen() };
        if k.write_to(&mut sink).is_ok() {
            rep.violate(format!("write_fault:{t}"), format!("{t}: write_to reported success although only {cut} bytes fitted"));
        }
        let mut sink = Sink { room: usize::MAX, got: vec![], one: true };
        if k.write_to(&mut sink).is_err() || sink.got != out {
            rep.violate(format!("write_split:{t}"), format!("{t}: {s:?} written byte by byte gives {:?} instead of {out:?}", sink.got));
        }
        if K::bounded(s) && (k < K::min_value() || k > K::max_value()) {
            rep.violate(format!("bound:{t}"), format!("{t}: {s:?} lies outside {:?}..{:?}", K::min_value(), K::max_value()));
        }
        // entries: key followed by offset
        let off = *[0, 1, u64::MAX, r.gen(), r.gen_range(0..1000)].choose(r).unwrap();
        let e = Entry::new(k.clone(), off);
        let mut eb = Vec::new();
        let en = e.write_to(&mut eb).unwrap_or(0);
        if en != eb.len() || eb.len() != Entry::<K>::SERIALIZED_SIZE || eb.len() != K::WIDTH + 8 || eb[..K::WIDTH] != out[..] || eb[K::WIDTH..] != off.to_le_bytes() {
            rep.violate(format!("entry_bytes:{t}"), format!("{t}: entry ({s:?}, {off}) is {eb:?}, reported {en}"));
        }
        for (how, d) in [("from_reader", Entry::<K>::from_reader(&mut &eb[..])), ("from_bytes", Entry::<K>::from_bytes(&eb))] {
            match d {
                Ok(d) if d.key == k && d.offset == off => {}
                o => rep.violate(format!("entry_roundtrip:{t}"), format!("{t} {how}: entry ({s:?}, {off}) came back as {o:?}")),
            }
        }
        let ecut = r.gen_range(0..eb.len());
        match guard(|| Entry::<K>::from_bytes(&eb[..ecut]).is_err() && Entry::<K>::from_reader(&mut &eb[..ecut]).is_err()) {
            Ok(true) => {}
            o => rep.violate(format!("entry_short:{t}"), format!("{t}: entry of {} bytes cut to {ecut}: {o:?}", eb.len())),
        }
        rep.inc(&format!("keys_{t}"));
        rep.eval(Some(h(&(t, &out))));
    }
    for (sa, a) in &keys {
        for (sb, b) in &keys {
            let want = K::cmp_src(sa, sb);
            rep.inc("order_comparisons");
            if a.cmp(b) != want || a.partial_cmp(b) != Some(want) || (a == b) != (want == Ordering::Equal) {
                rep.violate(format!("order:{t}"), format!("{t}: {sa:?} vs {sb:?} compare as {:?}, values as {want:?}", a.cmp(b)));
            }
            let (ea, eb) = (Entry::new(a.clone(), 5), Entry::new(b.clone(), 2));
            if ea.cmp(&eb) != want {
                rep.violate(format!("entry_order:{t}"), format!("{t}: entries of {sa:?} and {sb:?} compare as {:?}", ea.cmp(&eb)));
            }
        }
    }
}

macro_rules! each_key {
    ($sel:expr, $f:ident, $($a:expr),*) => {
        match $sel {
            0 => $f::<i8>($($a),*), 1 => $f::<u8>($($a),*), 2 => $f::<i16>($($a),*), 3 => $f::<u16>($($a),*),
            4 => $f::<i32>($($a),*), 5 => $f::<u32>($($a),*), 6 => $f::<i64>($($a),*), 7 => $f::<u64>($($a),*),
            8 => $f::<bool>($($a),*), 9 => $f::<Float<f32>>($($a),*), 10 => $f::<Float<f64>>($($a),*),
            11 => $f::<DateTime<Utc>>($($a),*), 12 => $f::<FixedStringKey<20>>($($a),*),
            13 => $f::<FixedStringKey<50>>($($a),*), _ => $f::<FixedStringKey<100>>($($a),*),
        }
    };
}

pub fn c15(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "keys", ctx.n(1_200_000, 12_000_000), |r, c, rep| {
        each_key!(c % 15, key_case, r, rep);
        if c % 10 == 0 {
            payload_case(r, rep);
        }
    });
    // one-byte types: every value and every pair
    run_cases(ctx, rep, "all_bytes", 1, |_, _, rep| {
        for b in 0..=255u8 {
            let (i, u) = (i8::from_bytes(&[b]), u8::from_bytes(&[b]));
            if i.as_ref().ok() != Some(&(b as i8)) || u.as_ref().ok() != Some(&b) {
                rep.violate("roundtrip:byte", format!("byte {b} decodes as {i:?} / {u:?}"));
            }
        }
        for v in i16::MIN..=i16::MAX {
            let mut o = Vec::new();
            let _ = v.write_to(&mut o);
            if i16::from_bytes(&o).ok() != Some(v) {
                rep.violate("roundtrip:i16", format!("{v}"));
            }
        }
        rep.add("exhaustive_small_values", 256 + 65536);
    });
}

fn payload_case(r: &mut StdRng, rep: &mut Rep) {
    let mut p = PayloadEntry::new();
    let offs: Vec<u64> = (0..r.gen_range(0..20)).map(|_| r.gen()).collect();
    for o in &offs {
        p.add_offset(*o);
    }
    let b = p.serialize();
    if b.len() != p.serialized_size() || b.len() != 4 + 8 * offs.len() {
        rep.violate("payload_size", format!("{} bytes, announced {}", b.len(), p.serialized_size()));
    }
    let mut more = b.clone();
    more.extend((0..r.gen_range(0..9)).map(|_| r.gen::<u8>()));
    match PayloadEntry::deserialize(&mut Cursor::new(&more)) {
        Ok((d, _)) if d.offsets == offs && d.count as usize == offs.len() => {}
        o => rep.violate("payload_roundtrip", format!("{offs:?} came back as {o:?}")),
    }
    let cut = r.gen_range(0..b.len());
    match guard(|| PayloadEntry::deserialize(&mut Cursor::new(&b[..cut])).is_err()) {
        Ok(true) => {}
        o => rep.violate("payload_short", format!("{} bytes cut to {cut}: {o:?}", b.len())),
    }
    rep.inc("payload_entries");
}

// ---------------------------------------------------------------------------------------------
// C07

struct Forms<K: GenKey> {
    mem: MemoryIndex<K>,
    re: MemoryIndex<K>,
    bytes: Arc<Vec<u8>>,
    begin: usize,
    feature_begin: usize,
    stream: StreamIndex<K>,
    http: HttpIndex<K>,
}
const FORMS: [&str; 4] = ["memory", "reloaded", "stream", "http"];

enum Ask<K> {
    Exact(K),
    Range(Option<K>, Option<K>),
    Between(Bound<K>, Bound<K>),
}

fn run_form<K: GenKey>(f: &Forms<K>, form: &str, a: &Ask<K>) -> Result<Vec<u64>, String> {
    let client = || {
        let m = MockHttp::new(f.bytes.clone());
        m.buffered()
    };
    let got = guard(|| -> Result<Vec<u64>, String> {
        let mem = |ix: &MemoryIndex<K>| match a {
            Ask::Exact(k) => ix.find_exact(k.clone()),
            Ask::Range(x, y) => ix.find_range(x.clone(), y.clone()),
            Ask::Between(x, y) => ix.find_between(x.clone(), y.clone()),
        };
        match form {
            "memory" => mem(&f.mem).map_err(|e| e.to_string()),
            "reloaded" => mem(&f.re).map_err(|e| e.to_string()),
            "stream" => {
                let mut c = Cursor::new(&f.bytes[..]);
                c.seek(SeekFrom::Start(f.begin as u64)).unwrap();
                match a {
                    Ask::Exact(k) => f.stream.find_exact_with_reader(&mut c, k.clone()),
                    Ask::Range(x, y) => f.stream.find_range_with_reader(&mut c, x.clone(), y.clone()),
                    Ask::Between(x, y) => f.stream.find_between_with_reader(&mut c, x.clone(), y.clone()),
                }
                .map_err(|e| e.to_string())
            }
            _ => block_on(async {
                let mut c = client();
                let r = match a {
                    Ask::Exact(k) => f.http.find_exact(&mut c, k.clone()).await,
                    Ask::Range(x, y) => f.http.find_range(&mut c, x.clone(), y.clone()).await,
                    Ask::Between(x, y) => f.http.find_between(&mut c, x.clone(), y.clone()).await,
                };
                r.map(|v| v.iter().map(|i| (i.range.start() as u64).wrapping_sub(f.feature_begin as u64)).collect()).map_err(|e| e.to_string())
            }),
        }
    });
    match got {
        Ok(r) => r,
        Err(p) => Err(format!("PANIC {}: {}", p.loc, p.msg)),
    }
}

/// one index, many questions, four forms
fn tree_case<K: GenKey>(r: &mut StdRng, rep: &mut Rep, thorough: bool, many: bool) {
    let t = K::NAME;
    let bf: u16 = match r.gen_range(0..12) {
        0 => 2,
        1 => 3,
        2 => 4,
        3 => 5,
        4 => 16,
        5 => 17,
        6 => 256,
        7 => 65535,
        _ if many => *[63u16, 64, 127, 128, 255, 256, 257, 1024, 4096, 32767, 32768].choose(r).unwrap(),
        _ => r.gen_range(2..40),
    };
    let n = match r.gen_range(0..10) {
        0..=2 if many => *[4095usize, 4096, 4097, 32_767, 32_769, 65_535, 65_536, 65_537, 70_000].choose(r).unwrap(),
        _ if many => r.gen_range(1000..20_000),
        0 => 1,
        1 => 2,
        2 => bf.min(300) as usize,
        3 => (bf.min(300) as usize).saturating_sub(1).max(1),
        4 => bf.min(300) as usize + 1,
        5 => (bf.min(17) as usize).pow(2) + r.gen_range(0..3),
        6 if thorough => r.gen_range(400..3000),
        _ => r.gen_range(1..200),
    };
    let small = r.gen_bool(0.6);
    let dup = r.gen_bool(0.5);
    let mut srcs: Vec<K::Src> = Vec::new();
    while srcs.len() < n {
        let s = if dup && !srcs.is_empty() && r.gen_bool(0.4) { srcs.choose(r).unwrap().clone() } else { K::src(r, small) };
        if K::bounded(&s) {
            srcs.push(s);
        }
    }
    let offs: Vec<u64> = (0..n).map(|i| if r.gen_bool(0.05) { r.gen_range(0..1u64 << 40) } else { i as u64 * 8 }).collect();
    let entries: Vec<Entry<K>> = srcs.iter().zip(&offs).map(|(s, o)| Entry::new(K::key(s), *o)).collect();
    // model: the sorted multimap
    let mut model: BTreeMap<K, Vec<u64>> = BTreeMap::new();
    for e in &entries {
        model.entry(e.key.clone()).or_default().push(e.offset);
    }
    let uniq: Vec<K> = model.keys().cloned().collect();
    let built = guard(|| -> Result<Forms<K>, String> {
        let mem = MemoryIndex::<K>::build(&entries, bf).map_err(|e| format!("build: {e}"))?;
        let mut ser = Vec::new();
        let w = mem.serialize(&mut ser).map_err(|e| format!("serialize: {e}"))?;
        if w != ser.len() {
            return Err(format!("serialize reported {w} bytes, wrote {}", ser.len()));
        }
        let re = MemoryIndex::<K>::from_buf(&ser[..], mem.num_items(), bf).map_err(|e| format!("from_buf: {e}"))?;
        let begin = 37usize;
        let mut file = vec![0xEEu8; begin];
        file.extend_from_slice(&ser);
        let feature_begin = file.len() + 7 * (n % 2);
        file.extend_from_slice(&[0xDD; 50]);
        let stream = StreamIndex::<K>::new(mem.num_items(), bf, begin as u64, ser.len() as u64);
        let http = HttpIndex::<K>::new(mem.num_items(), bf, begin, feature_begin, 1 << 18);
        Ok(Forms { mem, re, bytes: Arc::new(file), begin, feature_begin, stream, http })
    });
    let f = match built {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return rep.violate(format!("build:{t}"), format!("{t} bf={bf} n={n}: {e}")),
        Err(p) => return rep.violate("build_panic", format!("{t} bf={bf} n={n} unique={}: panic {}: {}", uniq.len(), p.loc, p.msg)),
    };
    if f.mem.num_items() != uniq.len() {
        rep.violate("num_items", format!("{t}: {} unique keys, index says {}", uniq.len(), f.mem.num_items()));
    }
    let expected_size = {
        let want_payload: usize = model.values().filter(|v| v.len() > 1).map(|v| 4 + 8 * v.len()).sum();
        if f.mem.payload_size() != want_payload {
            rep.violate("payload_size", format!("{t}: payload of {} bytes instead of {want_payload}", f.mem.payload_size()));
        }
        Stree::<K>::index_size(uniq.len(), bf, f.mem.payload_size())
    };
    if f.bytes.len() - f.begin - 50 != expected_size {
        rep.violate("index_size", format!("{t} bf={bf} unique={}: announced {expected_size} bytes, serialized {}", uniq.len(), f.bytes.len() - f.begin - 50));
    }
    rep.max("max_entries", n as u64);
    // the tree loaded node by node over HTTP (nodes only: meant for indexes without duplicates)
    let loaded = if model.values().all(|v| v.len() == 1) {
        let res = guard(|| block_on(async { Stree::<K>::from_http(&mut MockHttp::new(f.bytes.clone()).buffered(), f.begin, uniq.len(), bf).await }));
        match res {
            Ok(Ok(t)) => Some(t),
            o => {
                rep.violate("from_http", format!("{t} bf={bf} unique={}: {:?}", uniq.len(), o.map(|r| r.map(|_| ()))));
                None
            }
        }
    } else {
        None
    };
    let nq = if thorough { 30 } else { 14 };
    for _ in 0..nq {
        let probe = |r: &mut StdRng| -> K {
            if r.gen_bool(0.6) {
                return uniq.choose(r).unwrap().clone();
            }
            match r.gen_range(0..8) {
                0 => K::min_value(),
                1 => K::max_value(),
                _ => loop {
                    let s = K::src(r, small);
                    if K::bounded(&s) {
                        break K::key(&s);
                    }
                },
            }
        };
        let bound = |r: &mut StdRng, k: K| match r.gen_range(0..3) {
            0 => Bound::Included(k),
            1 => Bound::Excluded(k),
            _ => Bound::Unbounded,
        };
        let ask = match r.gen_range(0..3) {
            0 => Ask::Exact(probe(r)),
            1 => match r.gen_range(0..4) {
                0 => Ask::Range(Some(probe(r)), None),
                1 => Ask::Range(None, Some(probe(r))),
                _ => {
                    let (mut a, mut b) = (probe(r), probe(r));
                    if a > b && r.gen_bool(0.8) {
                        std::mem::swap(&mut a, &mut b);
                    }
                    Ask::Range(Some(a), Some(b))
                }
            },
            _ => {
                let (mut a, mut b) = (probe(r), probe(r));
                if a > b && r.gen_bool(0.8) {
                    std::mem::swap(&mut a, &mut b);
                }
                Ask::Between(bound(r, a), bound(r, b))
            }
        };
        let within = |k: &K, lo: &Bound<K>, hi: &Bound<K>| {
            (match lo {
                Bound::Included(x) => k >= x,
                Bound::Excluded(x) => k > x,
                Bound::Unbounded => true,
            }) && (match hi {
                Bound::Included(x) => k <= x,
                Bound::Excluded(x) => k < x,
                Bound::Unbounded => true,
            })
        };
        let inc = |k: &Option<K>| k.clone().map(Bound::Included).unwrap_or(Bound::Unbounded);
        let (lo, hi, kind) = match &ask {
            Ask::Exact(k) => (Bound::Included(k.clone()), Bound::Included(k.clone()), "exact"),
            Ask::Range(a, b) => (inc(a), inc(b), "range"),
            Ask::Between(a, b) => (a.clone(), b.clone(), "between"),
        };
        let collect = |skip: Option<&K>| {
            let mut v: Vec<u64> = model.iter().filter(|(k, _)| within(k, &lo, &hi) && Some(*k) != skip).flat_map(|(_, v)| v.iter().copied()).collect();
            v.sort();
            v
        };
        let want = collect(None);
        // the format's range search loses the upper bound when it is the first key of a node: known finding
        let up = match (&ask, &hi) {
            (Ask::Range(_, Some(_)), Bound::Included(k)) => Some(k.clone()),
            (Ask::Range(_, None), _) => Some(K::max_value()),
            _ => None,
        };
        let alt = up.and_then(|k| {
            let i = uniq.binary_search(&k).ok()?;
            if i > 0 && i % (bf as usize - 1) == 0 {
                Some(collect(Some(&k)))
            } else {
                None
            }
        });
        for form in FORMS {
            match run_form(&f, form, &ask) {
                Ok(mut got) => {
                    got.sort();
                    if got != want {
                        if alt.as_ref() == Some(&got) {
                            rep.inc("separator_upper_bound_lost");
                        } else {
                            rep.violate(
                                format!("{kind}:{form}"),
                                format!("{t} bf={bf} n={n} unique={}: {kind} {lo:?}..{hi:?} in {form}: got {} values {:?}, want {} {:?}", uniq.len(), got.len(), &got[..got.len().min(20)], want.len(), &want[..want.len().min(20)]),
                            );
                        }
                    }
                }
                Err(e) => rep.violate(format!("{kind}_error:{form}"), format!("{t} bf={bf} n={n} unique={}: {kind} {lo:?}..{hi:?} in {form}: {e}", uniq.len())),
            }
        }
        if let (Some(l), false) = (&loaded, matches!(ask, Ask::Range(..))) {
            let res = guard(|| match &ask {
                Ask::Exact(k) => l.find_exact(k.clone()),
                _ => l.find_between(lo.clone(), hi.clone()),
            });
            let got = res.map(|r| r.map(|v| {
                let mut v: Vec<u64> = v.iter().map(|i| i.offset as u64).collect();
                v.sort();
                v
            }));
            match got {
                Ok(Ok(g)) if g == want => rep.inc("answers_of_http_loaded_tree"),
                o => rep.violate(format!("{kind}:http_loaded"), format!("{t} bf={bf} unique={}: {kind} {lo:?}..{hi:?}: got {o:?}, want {want:?}", uniq.len())),
            }
        }
        rep.inc(&format!("q_{kind}"));
        rep.add("values_returned", want.len() as u64);
        let nontrivial = uniq.len() >= bf as usize && !want.is_empty() && want.len() < n || model.values().any(|v| v.len() > 1) && want.len() > 1;
        rep.eval(nontrivial.then(|| h(&(t, bf, n, kind, format!("{lo:?}{hi:?}"), &want))));
    }
}

/// several indexes over the same values, asked together
struct Multi {
    mem: MemoryMultiIndex,
    re: MemoryMultiIndex,
    stream: StreamMultiIndex,
    http: HttpMultiIndex<MockHttp>,
    file: Vec<u8>,
}
const MULTI_BEGIN: usize = 21;

/// adds an index of one key type to all the forms; gives conditions on it with the values they select
macro_rules! multi_part {
    ($m:expr, $r:expr, $n:expr, $field:expr, $fb:expr, $t:ty, $var:path, $add:ident) => {{
        let (small, bf) = ($r.gen_bool(0.8), *[2u16, 3, 4, 16, 300].choose($r).unwrap());
        let mut entries: Vec<Entry<$t>> = vec![];
        for i in 0..$n as u64 {
            for _ in 0..*[0usize, 1, 1, 1, 1, 2].choose($r).unwrap() {
                let s = <$t as GenKey>::src($r, small);
                if <$t as GenKey>::bounded(&s) {
                    entries.push(Entry::new(<$t as GenKey>::key(&s), i * 8));
                }
            }
        }
        while entries.is_empty() {
            let s = <$t as GenKey>::src($r, small);
            if <$t as GenKey>::bounded(&s) {
                entries.push(Entry::new(<$t as GenKey>::key(&s), 0));
            }
        }
        let ix = MemoryIndex::<$t>::build(&entries, bf).map_err(|e| e.to_string())?;
        let mut ser = vec![];
        ix.serialize(&mut ser).map_err(|e| e.to_string())?;
        let begin = $m.file.len();
        $m.file.extend_from_slice(&ser);
        let uniq = ix.num_items();
        $m.re.$add($field.clone(), MemoryIndex::<$t>::from_buf(&ser[..], uniq, bf).map_err(|e| e.to_string())?);
        $m.mem.add_index($field.clone(), ix);
        $m.stream.$add($field.clone(), StreamIndex::<$t>::new(uniq, bf, begin as u64, ser.len() as u64), ser.len() as u64);
        $m.http.add_index($field.clone(), HttpIndex::<$t>::new(uniq, bf, begin, $fb, 1 << 18));
        let mut conds: Vec<(QueryCondition, BTreeSet<u64>)> = vec![];
        for _ in 0..4 {
            let k = entries.choose($r).unwrap().key.clone();
            let op = *[Operator::Eq, Operator::Ne, Operator::Lt, Operator::Le, Operator::Gt, Operator::Ge].choose($r).unwrap();
            let sel = entries.iter().filter(|e| match op {
                Operator::Eq => e.key == k,
                Operator::Ne => e.key != k,
                Operator::Lt => e.key < k,
                Operator::Le => e.key <= k,
                Operator::Gt => e.key > k,
                Operator::Ge => e.key >= k,
            });
            conds.push((QueryCondition { field: $field.clone(), operator: op, key: $var(k.clone()) }, sel.map(|e| e.offset).collect()));
        }
        conds
    }};
}

fn multi_case(r: &mut StdRng, rep: &mut Rep) -> Result<(), String> {
    let n = *[1usize, 5, 20, 60, 200].choose(r).unwrap();
    let fb = if n > 20 { 1 << 20 } else { 1 << 17 };
    let mut m = Multi { mem: MemoryMultiIndex::new(), re: MemoryMultiIndex::new(), stream: StreamMultiIndex::new(), http: HttpMultiIndex::new(), file: vec![0xEE; MULTI_BEGIN] };
    let mut conds = vec![];
    let nf = r.gen_range(1..6);
    for i in 0..nf {
        let field = format!("{}{i}", ["", "f", "é "].choose(r).unwrap());
        conds.extend(match r.gen_range(0..15) {
            0 => multi_part!(m, r, n, field, fb, i8, KeyType::Int8, add_i8_index),
            1 => multi_part!(m, r, n, field, fb, u8, KeyType::UInt8, add_u8_index),
            2 => multi_part!(m, r, n, field, fb, i16, KeyType::Int16, add_i16_index),
            3 => multi_part!(m, r, n, field, fb, u16, KeyType::UInt16, add_u16_index),
            4 => multi_part!(m, r, n, field, fb, i32, KeyType::Int32, add_i32_index),
            5 => multi_part!(m, r, n, field, fb, u32, KeyType::UInt32, add_u32_index),
            6 => multi_part!(m, r, n, field, fb, i64, KeyType::Int64, add_i64_index),
            7 => multi_part!(m, r, n, field, fb, u64, KeyType::UInt64, add_u64_index),
            8 => multi_part!(m, r, n, field, fb, bool, KeyType::Bool, add_bool_index),
            9 => multi_part!(m, r, n, field, fb, Float<f32>, KeyType::Float32, add_f32_index),
            10 => multi_part!(m, r, n, field, fb, Float<f64>, KeyType::Float64, add_f64_index),
            11 => multi_part!(m, r, n, field, fb, DateTime<Utc>, KeyType::DateTime, add_datetime_index),
            12 => multi_part!(m, r, n, field, fb, FixedStringKey<20>, KeyType::StringKey20, add_string_index20),
            13 => multi_part!(m, r, n, field, fb, FixedStringKey<50>, KeyType::StringKey50, add_string_index50),
            _ => multi_part!(m, r, n, field, fb, FixedStringKey<100>, KeyType::StringKey100, add_string_index100),
        });
    }
    // the features follow
    m.file.resize(fb + 64, 0xDD);
    let file = Arc::new(std::mem::take(&mut m.file));
    // one input and one connection for all questions, or new ones for each
    let reuse = r.gen_bool(0.5);
    let mut input = Cursor::new(&file[..]);
    input.set_position(MULTI_BEGIN as u64);
    let mut client = MockHttp::new(file.clone()).buffered();
    for _ in 0..6 {
        if !reuse {
            input.set_position(MULTI_BEGIN as u64);
            client = MockHttp::new(file.clone()).buffered();
        }
        let mut want: Option<BTreeSet<u64>> = None;
        let mut q: Vec<QueryCondition> = vec![];
        for _ in 0..r.gen_range(1..5) {
            let (c, set) = conds.choose(r).unwrap().clone();
            want = Some(match want {
                None => set,
                Some(w) => w.intersection(&set).copied().collect(),
            });
            q.push(c);
        }
        let want = want.unwrap();
        // a condition which no index answers is an error, whatever the others select
        let bad = r.gen_bool(0.1);
        if bad {
            let c = QueryCondition { field: "no such index".into(), operator: Operator::Eq, key: KeyType::Int32(1) };
            q.insert(r.gen_range(0..=q.len()), c);
        }
        let show = || format!("{n} values, {nf} indexes, {:?}", q.iter().map(|c| (&c.field, c.operator, &c.key)).collect::<Vec<_>>());
        let asked: [(&str, Result<Result<Vec<u64>, String>, _>); 4] = [
            ("memory", guard(|| m.mem.query(&q).map_err(|e| e.to_string()))),
            ("reloaded", guard(|| m.re.query(&q).map_err(|e| e.to_string()))),
            ("stream", guard(|| m.stream.query(&mut input, &q).map_err(|e| e.to_string()))),
            ("http", guard(|| block_on(async {
                m.http.query(&mut client, &q).await.map(|v| v.iter().map(|i| i.range.start() as u64 - fb as u64).collect()).map_err(|e| e.to_string())
            }))),
        ];
        if matches!(asked[2].1, Ok(Ok(_))) && input.position() != MULTI_BEGIN as u64 {
            rep.violate("multi_position", format!("the input stands at {} after the query, not where the indexes begin; {}", input.position(), show()));
            input.set_position(MULTI_BEGIN as u64);
        }
        rep.add("multi_reused", reuse as u64);
        for (form, got) in asked {
            match got {
                Ok(Ok(v)) if !bad => {
                    let v: BTreeSet<u64> = v.into_iter().collect();
                    if v != want {
                        rep.violate(format!("multi:{form}"), format!("{form}, {}: got {v:?}, want {want:?}", show()));
                    }
                }
                Ok(Err(_)) if bad => rep.inc("multi_unknown_field_refused"),
                o => rep.violate(format!("multi_outcome:{form}"), format!("{form}, {}: {o:?}", show())),
            }
        }
        rep.inc("q_multi");
        rep.eval((!bad && want.len() > 0 && want.len() < n).then(|| h(&(&file[..], show()))));
    }
    Ok(())
}

pub fn c07(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "multi", ctx.n(12_000, 600_000), |r, _, rep| {
        if let Err(e) = multi_case(r, rep) {
            rep.violate("multi_build", e);
        }
    });
    let th = ctx.thorough;
    run_cases(ctx, rep, "tree", ctx.n(240_000, 3_000_000), |r, c, rep| {
        each_key!(c % 15, tree_case, r, rep, th, false);
    });
    // tens of thousands of keys or of values of one key
    run_cases(ctx, rep, "many", ctx.n(1_350, 12_000), |r, c, rep| {
        each_key!(c % 15, tree_case, r, rep, th, true);
    });
    // every size of a small integer tree with every exact key and every range, memory and stream
    run_cases(ctx, rep, "small_trees", ctx.n(60, 400), |r, c, rep| {
        let n = 1 + (c as i32);
        let bf: u16 = *[2u16, 3, 4, 5, 7, 16].choose(r).unwrap();
        let entries: Vec<Entry<i32>> = (0..n).map(|i| Entry::new(2 * i, i as u64)).collect();
        let mem = MemoryIndex::<i32>::build(&entries, bf).unwrap();
        for k in -1..=2 * n {
            let got = mem.find_exact(k).map(|v| v.len()).unwrap_or(99);
            let want = (k >= 0 && k < 2 * n && k % 2 == 0) as usize;
            if got != want {
                rep.violate("exact:memory", format!("keys 0,2..{}, bf {bf}: exact {k} finds {got}", 2 * n - 2));
            }
            let got = mem.find_between(Bound::Excluded(k), Bound::Unbounded).map(|v| v.len()).unwrap_or(usize::MAX);
            let want = (0..n).filter(|i| 2 * i > k).count();
            if got != want {
                rep.violate("between:memory", format!("keys 0,2..{}, bf {bf}: >{k} finds {got} instead of {want}", 2 * n - 2));
            }
            rep.inc("small_tree_lookups");
        }
    });
    // the known limitation of the documented range search, observed on one fixed input
    run_cases(ctx, rep, "known", 1, |_, _, rep| {
        let entries: Vec<Entry<i32>> = (0..19).map(|i| Entry::new(i, i as u64)).collect();
        let mem = MemoryIndex::<i32>::build(&entries, 4).unwrap();
        // nodes loaded over HTTP come without the payload section, where duplicates are kept
        let dups: Vec<Entry<i32>> = vec![Entry::new(1, 8), Entry::new(1, 16), Entry::new(2, 24)];
        let ix = MemoryIndex::<i32>::build(&dups, 4).unwrap();
        let mut ser = Vec::new();
        ix.serialize(&mut ser).unwrap();
        let t = block_on(async { Stree::<i32>::from_http(&mut MockHttp::new(Arc::new(ser)).buffered(), 0, 2, 4).await });
        match t.map(|t| t.find_exact(1).map(|v| v.iter().map(|i| i.offset).collect::<Vec<_>>())) {
            Ok(Ok(v)) if v == [8, 16] => {}
            Ok(Ok(v)) if v.len() == 1 && v[0] >= 1 << 63 => {
                rep.violate("from_http_without_payload", "keys 1, 1, 2: Stree::from_http answers 1 with a payload reference instead of the two values")
            }
            o => rep.violate("from_http_duplicates", format!("keys 1, 1, 2 loaded over HTTP: find_exact(1) gives {o:?}")),
        }
        let got = mem.find_range(Some(0), Some(18)).map(|v| v.len()).unwrap_or(0);
        if got == 18 {
            rep.violate("range_loses_separator_upper_bound", "keys 0..=18, branching factor 4: find_range(0, 18) does not return 18");
        } else if got != 19 {
            rep.violate("range:memory", format!("keys 0..=18, branching factor 4: find_range(0, 18) returns {got} of 19"));
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C06

/// value of an indexed column as the index sees it
#[derive(Clone, Debug, PartialEq)]
pub enum Iv {
    B(bool),
    I(i128),
    F(f64),
    S(Vec<u8>),
    D(i64, u32),
}
impl Iv {
    pub fn cmp(&self, o: &Iv) -> Ordering {
        match (self, o) {
            (Iv::B(a), Iv::B(b)) => a.cmp(b),
            (Iv::I(a), Iv::I(b)) => a.cmp(b),
            (Iv::F(a), Iv::F(b)) => a.partial_cmp(b).unwrap(),
            (Iv::S(a), Iv::S(b)) => a.cmp(b),
            (Iv::D(a, x), Iv::D(b, y)) => (a, x).cmp(&(b, y)),
            _ => panic!("mixed index values"),
        }
    }
}
pub fn iv_of(k: K, v: &Value) -> Option<Iv> {
    Some(match k {
        K::Bool => Iv::B(v.as_bool()?),
        K::Double => Iv::F(v.as_f64()?),
        K::Float => Iv::F(v.as_f64()? as f32 as f64),
        K::Str => {
            let mut b = v.as_str()?.as_bytes().to_vec();
            b.resize(50, 0);
            Iv::S(b)
        }
        K::Date => {
            let d = DateTime::parse_from_rfc3339(v.as_str()?).ok()?;
            Iv::D(d.timestamp(), d.timestamp_subsec_nanos())
        }
        K::Json | K::Bin => return None,
        _ => Iv::I(v.as_i64().map(|x| x as i128).or(v.as_u64().map(|x| x as i128))?),
    })
}
/// the query key a user would pass for `v`
pub fn key_of(k: K, v: &Value) -> Option<KeyType> {
    let i = || v.as_i64().map(|x| x as i128).or(v.as_u64().map(|x| x as i128));
    Some(match k {
        K::Bool => KeyType::Bool(v.as_bool()?),
        K::ULong => KeyType::UInt64(i()? as u64),
        K::Long => KeyType::Int64(i()? as i64),
        K::Double => KeyType::Float64(Float(v.as_f64()?)),
        K::Float => KeyType::Float32(Float(v.as_f64()? as f32)),
        K::Str => KeyType::StringKey50(FixedStringKey::from_str(v.as_str()?)),
        K::Date => KeyType::DateTime(DateTime::parse_from_rfc3339(v.as_str()?).ok()?.to_utc()),
        K::Int => KeyType::Int32(i()? as i32),
        K::UInt => KeyType::UInt32(i()? as u32),
        K::Byte => KeyType::Int8(i()? as i8),
        K::UByte => KeyType::UInt8(i()? as u8),
        K::Short => KeyType::Int16(i()? as i16),
        K::UShort => KeyType::UInt16(i()? as u16),
        K::Json | K::Bin => return None,
    })
}
pub const INDEXABLE: [K; 13] = [
    K::Bool, K::ULong, K::Long, K::Double, K::Str, K::Date, K::Int, K::UInt, K::Float, K::Byte, K::UByte, K::Short, K::UShort,
];
pub const OPS: [Operator; 6] = [Operator::Eq, Operator::Ne, Operator::Gt, Operator::Lt, Operator::Ge, Operator::Le];

/// a value out of a small domain, so that equal values and equal probes abound
pub fn small_value(r: &mut StdRng, k: K, dom: i64) -> Value {
    let i = r.gen_range(0..dom.max(1));
    match k {
        K::Bool => json!(i % 2 == 0),
        K::Double | K::Float => json!((i - dom / 2) as f64 / 4.0),
        K::Str => json!(if i == 0 { String::new() } else { format!("{}{}", "v".repeat((i % 60) as usize), i) }),
        K::Date => json!(format!("2020-01-{:02}T00:00:{:02}{}", 1 + i % 28, i % 60, if i % 3 == 0 { "Z" } else { "+01:00" })),
        K::Long | K::Int | K::Short | K::Byte => json!(i % 200 - 100),
        _ => json!(i % 200),
    }
}

pub struct AttrDs {
    pub bytes: Arc<Vec<u8>>,
    /// per feature, per column: the indexed values of its objects
    pub vals: Vec<Vec<Vec<Iv>>>,
    pub cols: Vec<(String, K)>,
    pub indexed: Vec<bool>,
    pub raw: Vec<Vec<Value>>,
    pub n: usize,
    pub desc: String,
}
/// light features whose attributes matter
pub fn attr_ds(r: &mut StdRng, n: usize) -> Result<AttrDs, String> {
    let nc = r.gen_range(1..7usize);
    let cols: Vec<(String, K)> = (0..nc).map(|i| (format!("{}{i}", ["a", "ä ", "", "x.y"].choose(r).unwrap()), *INDEXABLE.choose(r).unwrap())).collect();
    let mut dom: Vec<i64> = cols.iter().map(|_| *[1i64, 2, 5, 40, 300, 0].choose(r).unwrap()).collect();
    let mut pres: Vec<f64> = cols.iter().map(|_| *[1.0, 0.9, 0.5, 0.05].choose(r).unwrap()).collect();
    // one value that more features share than 16 bits can count
    let shared = n > 1 << 16;
    if shared {
        (dom[0], pres[0]) = (1, 1.0);
    }
    let mut vals = vec![];
    let mut raw: Vec<Vec<Value>> = vec![vec![]; nc];
    let mut feats = vec![];
    let spread = r.gen_range(1..5000i64);
    for i in 0..n {
        let id = format!("f{i}");
        let mut objs = Map::new();
        let mut fv: Vec<Vec<Iv>> = vec![vec![]; nc];
        let no = if r.gen_bool(0.2) { r.gen_range(2..4) } else { 1 };
        for j in 0..no {
            let mut o = json!({"type": if j == 0 {"Building"} else {"BuildingPart"}});
            let mut a = Map::new();
            for (c, (name, k)) in cols.iter().enumerate() {
                if r.gen_bool(pres[c]) {
                    let v = if dom[c] > 0 { small_value(r, *k, dom[c]) } else { value_of(r, *k) };
                    if let Some(iv) = iv_of(*k, &v) {
                        fv[c].push(iv);
                    }
                    raw[c].push(v.clone());
                    a.insert(name.clone(), v);
                } else if r.gen_bool(0.1) {
                    a.insert(name.clone(), Value::Null);
                }
            }
            // an attribute the dataset's schema does not know
            if r.gen_bool(0.05) {
                a.insert("unknown column".into(), json!("x"));
            }
            if !a.is_empty() || r.gen() {
                o["attributes"] = Value::Object(a);
            }
            objs.insert(if j == 0 { id.clone() } else { format!("{id}-{j}") }, o);
        }
        feats.push(json!({"type":"CityJSONFeature","id":id,"CityObjects":objs,
            "vertices":[[r.gen_range(0..spread), r.gen_range(0..spread), 0]]}));
        vals.push(fv);
    }
    let indexed: Vec<bool> = (0..nc).map(|c| r.gen_bool(0.85) || shared && c == 0).collect();
    let mut ix: Vec<(String, Option<u16>)> = cols
        .iter()
        .zip(&indexed)
        .filter(|(_, i)| **i)
        .map(|((n, _), _)| (n.clone(), *[None, Some(2), Some(3), Some(4), Some(16), Some(17), Some(256), Some(65535)].choose(r).unwrap()))
        .collect();
    ix.shuffle(r);
    let write_index = r.gen_bool(0.7);
    let ns: Option<u16> = (!write_index && r.gen_bool(0.7)).then(|| *crate::layout::NODE_SIZES.choose(r).unwrap());
    let header_json = json!({"type":"CityJSON","version":"2.0","CityObjects":{},"vertices":[],
        "transform":{"scale":[0.5,0.5,0.5],"translate":[0.0,0.0,0.0]}});
    let d = Dataset {
        header: parse_header(&header_json),
        header_json,
        feats: feats.iter().map(parse_feature).collect(),
        feats_json: feats,
        schema: schema_of(&cols, r),
        sem_schema: None,
        opts: HeaderWriterOptions {
            write_index,
            feature_count: n as u64,
            index_node_size: 16,
            attribute_indices: Some(ix.clone()),
            geographical_extent: None,
        },
    };
    let mut bytes = write_ds(&d)?;
    if let Some(k) = ns {
        bytes = crate::layout::renode(&bytes, k, [0.5, 0.5], [0.0, 0.0])?;
    }
    Ok(AttrDs { bytes: Arc::new(bytes), vals, desc: format!("{n} features, columns {cols:?}, indexes {ix:?}, spatial index {write_index} {ns:?}"), cols, indexed, raw, n })
}
pub fn sat(v: &Iv, op: Operator, k: &Iv) -> bool {
    let c = v.cmp(k);
    match op {
        Operator::Eq => c == Ordering::Equal,
        Operator::Ne => c != Ordering::Equal,
        Operator::Gt => c == Ordering::Greater,
        Operator::Lt => c == Ordering::Less,
        Operator::Ge => c != Ordering::Less,
        Operator::Le => c != Ordering::Greater,
    }
}
pub struct AttrAsk {
    pub q: AttrQuery,
    pub conds: Vec<(usize, Operator, Iv)>,
}
impl AttrDs {
    pub fn usable(&self) -> Vec<usize> {
        (0..self.cols.len()).filter(|c| self.indexed[*c] && self.vals.iter().any(|f| !f[*c].is_empty())).collect()
    }
    pub fn ask(&self, r: &mut StdRng, usable: &[usize]) -> AttrAsk {
        let mut a = AttrAsk { q: vec![], conds: vec![] };
        for _ in 0..*[1, 1, 1, 2, 2, 3, 4].choose(r).unwrap() {
            let c = *usable.choose(r).unwrap();
            let (name, k) = &self.cols[c];
            let v = loop {
                let v = match r.gen_range(0..5) {
                    0 => small_value(r, *k, 300),
                    1 => value_of(r, *k),
                    _ => self.raw[c].choose(r).unwrap().clone(),
                };
                if key_of(*k, &v).is_some() {
                    break v;
                }
            };
            let op = *OPS.choose(r).unwrap();
            a.q.push((name.clone(), op, key_of(*k, &v).unwrap()));
            a.conds.push((c, op, iv_of(*k, &v).unwrap()));
        }
        a
    }
    /// indices of the features which satisfy every condition
    pub fn answer(&self, a: &AttrAsk) -> Vec<usize> {
        (0..self.n).filter(|i| a.conds.iter().all(|(c, op, k)| self.vals[*i][*c].iter().any(|v| sat(v, *op, k)))).collect()
    }
}
fn op_name(o: Operator) -> &'static str {
    match o {
        Operator::Eq => "eq",
        Operator::Ne => "ne",
        Operator::Gt => "gt",
        Operator::Lt => "lt",
        Operator::Ge => "ge",
        Operator::Le => "le",
    }
}

pub fn c06(ctx: &Ctx, rep: &mut Rep) {
    let th = ctx.thorough;
    run_cases(ctx, rep, "query", ctx.n(42_000, 500_000), |r, _, rep| {
        let n = match r.gen_range(0..10) {
            0 => r.gen_range(1..4),
            1 => *[15usize, 16, 17, 255, 256, 257].choose(r).unwrap(),
            2 if th => r.gen_range(300..1500),
            _ => r.gen_range(2..180),
        };
        c06_case(r, rep, n, if th { 12 } else { 6 })
    });
    run_cases(ctx, rep, "many", ctx.n(96, 1200), |r, _, rep| {
        let n = crate::spatial::pick_many(r).min(40_000);
        c06_case(r, rep, n, 4)
    });
    run_cases(ctx, rep, "huge", ctx.n(8, 100), |r, _, rep| {
        let n = (1 << 16) + r.gen_range(1..3000);
        c06_case(r, rep, n, 6)
    });
}
fn c06_case(r: &mut StdRng, rep: &mut Rep, n: usize, queries: usize) {
        let ds = match attr_ds(r, n) {
            Ok(d) => d,
            Err(e) => return rep.violate(format!("write:{}", crate::rt::generalise(&e)), e),
        };
        rep.max("max_features", n as u64);
        let usable = ds.usable();
        // an attribute without an index, or not known at all, cannot be answered: an error or the empty set
        for (name, k) in ds.cols.iter().enumerate().filter(|(c, _)| !usable.contains(c)).map(|(_, x)| (x.0.clone(), x.1)).chain([("no such".to_string(), K::Int)]).take(2) {
            let Some(key) = key_of(k, &small_value(r, k, 5)) else { continue };
            let mut q = vec![(name.clone(), *[Operator::Eq, Operator::Ne, Operator::Lt, Operator::Le, Operator::Gt, Operator::Ge].choose(r).unwrap(), key)];
            if !usable.is_empty() && r.gen() {
                // next to conditions that can be answered
                q.extend(ds.ask(r, &usable).q);
                let l = q.len();
                q.swap(0, r.gen_range(0..l));
            }
            let sel = Sel::Attr(q);
            for (mode, d) in crate::spatial::three(&ds.bytes, &sel) {
                if d.panic.is_some() || d.err.is_none() {
                    rep.violate(format!("unindexed:{mode}"), format!("query of {name:?} without index: {} with {} features; {}", d.problem(), d.feats.len(), ds.desc));
                }
                rep.inc("unindexed_queries");
            }
        }
        // a key of another type than the column's has no place in its order
        if let Some(&c) = usable.choose(r) {
            let (name, k) = &ds.cols[c];
            let other = *INDEXABLE.choose(r).unwrap();
            if other != *k {
                if let Some(key) = key_of(other, &small_value(r, other, 5)) {
                    let sel = Sel::Attr(vec![(name.clone(), *[Operator::Eq, Operator::Ne, Operator::Lt, Operator::Le, Operator::Gt, Operator::Ge].choose(r).unwrap(), key)]);
                    for (mode, d) in crate::spatial::three(&ds.bytes, &sel) {
                        if d.panic.is_some() || d.err.is_none() {
                            rep.violate(format!("mistyped:{mode}"), format!("{} on a {k:?} column: {} with {} features; {}", sel.show(), d.problem(), d.feats.len(), ds.desc));
                        }
                        rep.inc("mistyped_queries");
                    }
                }
            }
        }
        if usable.is_empty() {
            rep.inc("datasets_without_usable_index");
            return;
        }
        for _ in 0..queries {
            let a = ds.ask(r, &usable);
            let want: Vec<usize> = ds.answer(&a);
            let want_ids: BTreeSet<String> = want.iter().map(|i| format!("f{i}")).collect();
            let sel = Sel::Attr(a.q.clone());
            for (mode, d) in crate::spatial::three(&ds.bytes, &sel) {
                if !d.ok() {
                    rep.violate(format!("error:{mode}:{}", crate::rt::generalise(&d.problem())), format!("{}: {}; {}", sel.show(), d.problem(), ds.desc));
                    continue;
                }
                let got = d.ids();
                let set: BTreeSet<String> = got.iter().cloned().collect();
                if set != want_ids || got.len() != set.len() {
                    let miss: Vec<_> = want_ids.difference(&set).take(5).collect();
                    let extra: Vec<_> = set.difference(&want_ids).take(5).collect();
                    let ops: BTreeSet<&str> = a.q.iter().map(|c| op_name(c.1)).collect();
                    let what = if got.len() != set.len() { "duplicate" } else if !miss.is_empty() { "missing" } else { "extra" };
                    rep.violate(
                        format!("{what}:{mode}:{}", ops.iter().cloned().collect::<Vec<_>>().join("+")),
                        format!("{}: got {} features, want {}; missing {miss:?}, extra {extra:?}; {}", sel.show(), got.len(), want.len(), ds.desc),
                    );
                }
            }
            for (c, op, _) in &a.conds {
                rep.inc(&format!("op_{}", op_name(*op)));
                rep.inc(&format!("type_{:?}", ds.cols[*c].1));
            }
            rep.add("features_returned", want.len() as u64);
            rep.inc(&format!("conditions_{}", a.conds.len()));
            rep.eval((!want.is_empty() && want.len() < n).then(|| h(&(sel.show(), &want, n))));
            rep.sample(|| json!({"query": sel.show(), "features": n, "answer": want.len()}));
        }
}
