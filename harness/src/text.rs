//! Reading CityJSON text (C24): what the readers of CityJSON and CityJSONSeq text make of any input, from any source.
use crate::cli::Scratch;
use crate::equiv::rich_data;
use crate::rep::*;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::{read_cityjson, read_cityjson_from_reader, CJType, CJTypeKind};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::io::{self, BufReader, ErrorKind, Read};

/// gives the bytes in pieces, with interruptions, and fails for good at one place
struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    piece: usize,
    intr: bool,
    armed: bool,
    fail: Option<(usize, ErrorKind)>,
    failed: &'a std::cell::Cell<bool>,
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.intr && !self.armed {
            self.armed = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.armed = false;
        let end = match self.fail {
            Some((at, k)) if self.pos >= at => {
                self.failed.set(true);
                return Err(k.into());
            }
            Some((at, _)) => at,
            None => self.data.len(),
        };
        let n = buf.len().min(self.piece).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// what the text says; None: it is not readable
enum Says {
    Normal(Value),
    Seq(Value, Vec<Value>),
}
fn says(text: &[u8], seq: bool) -> Option<Says> {
    std::str::from_utf8(text).ok()?;
    let v = |x: &CityJSON| serde_json::to_value(x).unwrap();
    if !seq {
        return serde_json::from_slice::<CityJSON>(text).ok().map(|c| Says::Normal(v(&c)));
    }
    let mut lines: Vec<&[u8]> = text.split(|b| *b == b'\n').collect();
    if lines.last().is_some_and(|l| l.is_empty()) {
        lines.pop();
    }
    let (first, rest) = lines.split_first()?;
    let c = serde_json::from_slice::<CityJSON>(first).ok()?;
    let f: Option<Vec<Value>> = rest.iter().map(|l| Some(serde_json::to_value(serde_json::from_slice::<CityJSONFeature>(l).ok()?).unwrap())).collect();
    Some(Says::Seq(v(&c), f?))
}

/// JSON text of a value in one of its many forms
fn print(r: &mut StdRng, v: &Value, lines: bool) -> String {
    let mut s = if !lines && r.gen_bool(0.7) { serde_json::to_string_pretty(v).unwrap() } else { v.to_string() };
    if r.gen_bool(0.3) {
        // every character beyond ASCII written as its number
        let mut o = String::new();
        for ch in s.chars() {
            if ch.is_ascii() {
                o.push(ch)
            } else {
                let mut b = [0u16; 2];
                for u in ch.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
        }
        s = o;
    }
    if lines && r.gen_bool(0.2) {
        s = format!("{}{s}{}", [" ", "\t", "  "].choose(r).unwrap(), ["", " ", "\t"].choose(r).unwrap());
    }
    s
}

fn c24_case(r: &mut StdRng, rep: &mut Rep) {
    let max = *[0, 1, 3, 12].choose(r).unwrap();
    let (d, _, _) = rich_data(r, max.max(1), 0);
    let seq = r.gen_bool(0.7);
    let eol = if r.gen_bool(0.3) { "\r\n" } else { "\n" };
    let mut blank = false;
    let mut text: Vec<u8> = if seq {
        let mut l = vec![print(r, &d.header_json, true)];
        for f in &d.feats_json {
            l.push(print(r, f, true));
        }
        match r.gen_range(0..12) {
            0 => {
                // a line with nothing in it
                let at = r.gen_range(0..=l.len());
                for _ in 0..r.gen_range(1..4) {
                    l.insert(at, ["", " ", "\t"].choose(r).unwrap().to_string());
                }
                blank = true;
            }
            1 => {
                let at = r.gen_range(0..=l.len());
                l.insert(at, ["null", "[]", "{}", "1", "\"x\"", "{\"type\":\"CityJSONFeature\"}", "//", "\u{feff}{}"].choose(r).unwrap().to_string());
            }
            2 if l.len() > 1 => {
                // a line broken in two, two lines in one
                let at = r.gen_range(0..l.len());
                if r.gen() {
                    let mut k = r.gen_range(0..=l[at].len());
                    while !l[at].is_char_boundary(k) {
                        k -= 1;
                    }
                    let t = l[at].split_off(k);
                    l.insert(at + 1, t);
                } else if at + 1 < l.len() {
                    let t = l.remove(at + 1);
                    l[at].push_str(&t);
                }
            }
            3 if l.len() > 1 => l.rotate_left(1),
            _ => {}
        }
        let mut s = l.join(eol);
        if r.gen_bool(0.7) {
            s.push_str(eol);
        }
        s.into_bytes()
    } else {
        let mut v = d.header_json.clone();
        v["CityObjects"] = d.feats_json.first().map(|f| f["CityObjects"].clone()).unwrap_or(json!({}));
        v["vertices"] = d.feats_json.first().map(|f| f["vertices"].clone()).unwrap_or(json!([]));
        let mut s = print(r, &v, false).replace('\n', eol);
        if r.gen_bool(0.3) {
            s.insert_str(0, eol);
        }
        if r.gen_bool(0.6) {
            s.push_str(eol);
        }
        s.into_bytes()
    };
    // damage
    let mut damage = "none";
    match r.gen_range(0..10) {
        0 => {
            damage = "cut";
            text.truncate(r.gen_range(0..=text.len()));
        }
        1 if !text.is_empty() => {
            damage = "byte";
            let k = r.gen_range(0..text.len());
            text[k] = *[0u8, 0xff, 0xc3, b'\n', b'"', b'}', b'9'].choose(r).unwrap();
        }
        2 if r.gen_bool(0.3) => {
            damage = "tail";
            text.extend_from_slice([&b"x"[..], b"{", b"\n\xff", b"\0", b"\n{}"].choose(r).unwrap());
        }
        _ => {}
    }
    let fail = r.gen_bool(0.25).then(|| {
        let at = match r.gen_range(0..3) {
            0 => text.len(),
            1 => text.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + r.gen_range(0..2)).collect::<Vec<_>>().choose(r).copied().unwrap_or(0),
            _ => r.gen_range(0..=text.len()),
        };
        (at, *[ErrorKind::ConnectionReset, ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::BrokenPipe].choose(r).unwrap())
    });
    let failed = std::cell::Cell::new(false);
    let kind = || if seq { CJTypeKind::Seq } else { CJTypeKind::Normal };
    let by_path = fail.is_none() && r.gen_bool(0.3);
    let form = if by_path { "path" } else { "reader" };
    let (piece, cap, intr) = (*[1usize, 3, 100, 5000, usize::MAX].choose(r).unwrap(), *[1usize, 7, 64, 8192, 1 << 20].choose(r).unwrap(), r.gen_bool(0.2));
    let got = guard(|| {
        if by_path {
            let s = Scratch::new();
            let p = s.file(["a.city.jsonl", "ä ö.json", "-", "x"].choose(r).unwrap());
            std::fs::write(&p, &text).unwrap();
            read_cityjson(&p, kind())
        } else {
            read_cityjson_from_reader(BufReader::with_capacity(cap, Source { data: &text, pos: 0, piece, intr, armed: false, fail, failed: &failed }), kind())
        }
    });
    let what = || format!("{form}, {}, pieces of {piece}, buffer {cap}, damage {damage}, failing at {fail:?} of {} bytes: {:?}", if seq { "sequence" } else { "document" }, text.len(), String::from_utf8_lossy(&text[..text.len().min(600)]));
    let want = if fail.is_some() { None } else { says(&text, seq) };
    rep.inc(&format!("{form}_{}", if fail.is_some() { "fault" } else if want.is_some() { "readable" } else { "unreadable" }));
    if fail.is_some() && !failed.get() {
        // given up on a bad line before the fault
        rep.inc("fault_not_reached");
    }
    match (got, want) {
        (Err(p), _) => rep.violate("panic", format!("{} at {}; {}", p.msg, p.loc, what())),
        (Ok(Err(_)), None) => rep.inc("refused"),
        (Ok(Err(e)), Some(_)) => rep.violate("refused", format!("{e}; {}", what())),
        (Ok(Ok(CJType::Normal(c))), Some(Says::Normal(w))) => {
            if serde_json::to_value(&c).unwrap() != w {
                rep.violate("document", what());
            }
        }
        (Ok(Ok(CJType::Seq(s))), Some(Says::Seq(w, fs))) => {
            if serde_json::to_value(&s.cj).unwrap() != w {
                rep.violate("header", what());
            }
            let g: Vec<Value> = s.features.iter().map(|f| serde_json::to_value(f).unwrap()).collect();
            rep.add("features", g.len() as u64);
            if g != fs {
                rep.violate("features", format!("{} features instead of {}, or other ones; {}", g.len(), fs.len(), what()));
            }
        }
        (Ok(Ok(CJType::Seq(s))), None) if blank && fail.is_none() => {
            // skipping lines without content is as good as refusing them
            let t: Vec<u8> = text.split(|b| *b == b'\n').filter(|l| !l.iter().all(|b| b.is_ascii_whitespace())).flat_map(|l| [l, b"\n"].concat()).collect();
            let same = match says(&t, true) {
                Some(Says::Seq(w, fs)) => serde_json::to_value(&s.cj).unwrap() == w && s.features.iter().map(|f| serde_json::to_value(f).unwrap()).collect::<Vec<_>>() == fs,
                _ => false,
            };
            if !same {
                rep.violate("blank", what());
            }
        }
        (Ok(Ok(c)), None) => {
            let n = match c {
                CJType::Seq(s) => format!("{} features", s.features.len()),
                CJType::Normal(_) => "a document".into(),
            };
            rep.violate(if fail.is_some() { "fault_lost" } else { "accepted" }, format!("{n} delivered; {}", what()));
        }
        (Ok(Ok(_)), Some(_)) => rep.violate("kind", what()),
    }
    rep.inc(&format!("damage_{damage}"));
    rep.eval(Some(h(&(&text, seq, form, fail.map(|f| f.0)))));
    rep.sample(|| json!({"form": form, "sequence": seq, "bytes": text.len(), "fails_at": fail.map(|f| f.0), "damage": damage}));
}

pub fn c24(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "text", ctx.n(12_000, 400_000), |r, _, rep| c24_case(r, rep));
    run_cases(ctx, rep, "absent", ctx.n(40, 200), |r, c, rep| {
        let s = Scratch::new();
        let (what, p) = match c % 4 {
            0 => ("missing file", s.file("none.city.jsonl")),
            1 => ("directory", s.0.to_str().unwrap().to_string()),
            2 => ("empty name", String::new()),
            _ => {
                let p = s.file("empty");
                std::fs::write(&p, "").unwrap();
                ("empty file", p)
            }
        };
        let kind = if r.gen() { CJTypeKind::Seq } else { CJTypeKind::Normal };
        match guard(|| read_cityjson(&p, kind)) {
            Err(e) => rep.violate("panic", format!("{what}: {} at {}", e.msg, e.loc)),
            Ok(Ok(_)) => rep.violate("absent", format!("{what}: read as if it held something")),
            Ok(Err(_)) => rep.inc("absent_refused"),
        }
        rep.eval(Some(h(&(what, c % 8))));
    });
}
