//! Independence of concurrent readers and writers (C19): interleaved and parallel executions are
//! compared, actor by actor, with what every actor produces alone.
use crate::equiv::{header_of, rich_any, Rich};
use crate::cli::Scratch;
use crate::lib_io::*;
use crate::rep::*;
use fallible_streaming_iterator::FallibleStreamingIterator;
use fcb_core::{FcbReader, FcbWriter, HttpFcbReader};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs::File;
use std::future::Future;
use std::io::{BufReader, Cursor, Read, Seek};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;
use std::task::{Context, Poll, Waker};

/// what an actor produced: one entry per visible event
type Seen = Vec<Value>;

/// what an actor is to do
#[derive(Clone, Debug)]
struct Plan {
    data: usize,
    kind: Kind,
    /// gives up after so many steps
    drop_after: usize,
}
#[derive(Clone, Debug, PartialEq)]
enum Kind {
    /// selection number, over a file on disk or in memory, whole or cut short
    Seek { sel: usize, disk: bool, cut: usize },
    Seq { sel: usize, disk: bool, cut: usize },
    Http { sel: usize },
    Write { disk: bool },
}
impl Kind {
    fn name(&self) -> &'static str {
        match self {
            Kind::Seek { .. } => "seek",
            Kind::Seq { .. } => "seq",
            Kind::Http { .. } => "http",
            Kind::Write { .. } => "write",
        }
    }
}

/// an actor moves one step at a time; true = finished
type Actor<'a> = Box<dyn FnMut(&mut Seen) -> bool + 'a>;

trait In: Read + Seek {}
impl<T: Read + Seek> In for T {}

struct World {
    data: Vec<Rich>,
    paths: Vec<std::path::PathBuf>,
    dir: Scratch,
}
static UNIQUE: AtomicU64 = AtomicU64::new(0);

fn input(w: &World, data: usize, disk: bool, cut: usize) -> Box<dyn In> {
    let d = &w.data[data].bytes;
    if cut > 0 {
        let n = d.len().saturating_sub(cut);
        return Box::new(Cursor::new(d[..n].to_vec()));
    }
    if disk {
        Box::new(BufReader::new(File::open(&w.paths[data]).expect("scratch file")))
    } else {
        Box::new(Cursor::new(d.to_vec()))
    }
}

macro_rules! local_reader {
    ($w:expr, $p:expr, $sel:expr, $disk:expr, $cut:expr, $all:ident, $attr:ident, $query:ident) => {{
        let (w, sel) = ($w, &$w.data[$p.data].sels[$sel]);
        let mut rd = None;
        let mut it = None;
        let mut src = Some(input(w, $p.data, $disk, $cut));
        Box::new(move |s: &mut Seen| -> bool {
            if let Some(i) = src.take() {
                match FcbReader::open(i) {
                    Ok(r) => {
                        s.push(header_of(r.header()));
                        rd = Some(r);
                        return false;
                    }
                    Err(e) => {
                        s.push(json!(format!("open: {e}")));
                        return true;
                    }
                }
            }
            if let Some(r) = rd.take() {
                let i = match sel {
                    Sel::All => r.$all(),
                    Sel::Attr(q) => r.$attr(q.clone()),
                    x => r.$query(x.spatial().unwrap()),
                };
                match i {
                    Ok(i) => {
                        s.push(json!(i.features_count()));
                        it = Some(i);
                        return false;
                    }
                    Err(e) => {
                        s.push(json!(format!("select: {e}")));
                        return true;
                    }
                }
            }
            match it.as_mut().unwrap().next() {
                Ok(Some(f)) => {
                    s.push(match f.cur_cj_feature() {
                        Ok(f) => canon(&f),
                        Err(e) => json!(format!("decode: {e}")),
                    });
                    s.len() > 5000
                }
                Ok(None) => {
                    s.push(json!("end"));
                    true
                }
                Err(e) => {
                    s.push(json!(format!("next: {e}")));
                    true
                }
            }
        }) as Actor
    }};
}

fn actor<'a>(w: &'a World, p: &Plan) -> Actor<'a> {
    let p = p.clone();
    match p.kind {
        Kind::Seek { sel, disk, cut } => local_reader!(w, p, sel, disk, cut, select_all, select_attr_query, select_query),
        Kind::Seq { sel, disk, cut } => local_reader!(w, p, sel, disk, cut, select_all_seq, select_attr_query_seq, select_query_seq),
        Kind::Http { sel } => {
            let m = MockHttp::new(w.data[p.data].bytes.clone());
            let sel = &w.data[p.data].sels[sel];
            let out: Rc<RefCell<Seen>> = Default::default();
            let o = out.clone();
            let mut fut: Pin<Box<dyn Future<Output = ()> + 'a>> = Box::pin(async move {
                let put = |v: Value| o.borrow_mut().push(v);
                let r = match HttpFcbReader::new(m.buffered()).await {
                    Ok(r) => r,
                    Err(e) => return put(json!(format!("open: {e}"))),
                };
                put(header_of(r.header()));
                let it = match sel {
                    Sel::All => r.select_all().await,
                    Sel::Attr(q) => r.select_attr_query(q).await,
                    x => r.select_query(x.spatial().unwrap()).await,
                };
                let mut it = match it {
                    Ok(it) => it,
                    Err(e) => return put(json!(format!("select: {e}"))),
                };
                put(json!(it.features_count()));
                loop {
                    match it.next().await {
                        Ok(Some(f)) => put(match f.cj_feature() {
                            Ok(f) => canon(&f),
                            Err(e) => json!(format!("decode: {e}")),
                        }),
                        Ok(None) => return put(json!("end")),
                        Err(e) => return put(json!(format!("next: {e}"))),
                    }
                }
            });
            Box::new(move |s| {
                let done = fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) != Poll::Pending;
                s.append(&mut out.borrow_mut());
                done
            })
        }
        Kind::Write { disk } => {
            let d = &w.data[p.data].d;
            let mut wr = None;
            let mut next = 0;
            let path = w.dir.0.join(format!("w{}", UNIQUE.fetch_add(1, Ordering::Relaxed)));
            Box::new(move |s| {
                if next == 0 {
                    let schema = if d.schema.is_empty() { None } else { Some(d.schema.clone()) };
                    match FcbWriter::new(d.header.clone(), Some(d.opts.clone()), schema, d.sem_schema.clone()) {
                        Ok(x) => wr = Some(x),
                        Err(e) => {
                            s.push(json!(format!("new: {e}")));
                            return true;
                        }
                    }
                    next = 1;
                    return false;
                }
                if next <= d.feats.len() {
                    if let Err(e) = wr.as_mut().unwrap().add_feature(&d.feats[next - 1]) {
                        s.push(json!(format!("add {next}: {e}")));
                        return true;
                    }
                    next += 1;
                    return false;
                }
                let mut bytes = vec![];
                let r = if disk {
                    let f = File::create(&path).expect("scratch file");
                    let r = wr.take().unwrap().write(std::io::BufWriter::new(f));
                    bytes = std::fs::read(&path).unwrap();
                    let _ = std::fs::remove_file(&path);
                    r
                } else {
                    wr.take().unwrap().write(&mut bytes)
                };
                s.push(match r {
                    Ok(()) => json!([bytes.len(), h(&bytes).to_string()]),
                    Err(e) => json!(format!("write: {e}")),
                });
                true
            })
        }
    }
}

fn alone(w: &World, p: &Plan) -> Seen {
    let mut a = actor(w, p);
    let mut s = vec![];
    for i in 0.. {
        if i == p.drop_after || a(&mut s) {
            break;
        }
    }
    s
}

fn plan(r: &mut StdRng, w: &World) -> Plan {
    let data = r.gen_range(0..w.data.len());
    let sel = r.gen_range(0..w.data[data].sels.len());
    let cut = if r.gen_bool(0.1) { r.gen_range(1..=w.data[data].bytes.len()) } else { 0 };
    let disk = r.gen();
    let kind = match r.gen_range(0..7) {
        0 | 1 => Kind::Seek { sel, disk, cut },
        2 | 3 => Kind::Seq { sel, disk, cut },
        4 | 5 => Kind::Http { sel },
        _ => Kind::Write { disk },
    };
    Plan { data, kind, drop_after: if r.gen_bool(0.1) { r.gen_range(0..8) } else { usize::MAX } }
}

fn world(r: &mut StdRng, max_n: usize) -> Result<World, String> {
    let dir = Scratch::new();
    let mut data = vec![];
    let mut paths = vec![];
    for i in 0..r.gen_range(1..4) {
        let x = rich_any(r, max_n, 6)?;
        let p = dir.0.join(format!("in{i}.fcb"));
        std::fs::write(&p, &x.bytes[..]).map_err(|e| e.to_string())?;
        paths.push(p);
        data.push(x);
    }
    Ok(World { data, paths, dir })
}

/// runs the actors of one thread in random order; returns (global time, actor) of each step
fn interleave<'a>(w: &'a World, plans: &[Plan], r: &mut StdRng, clock: &AtomicU64, yields: bool) -> (Vec<Seen>, Vec<(u64, usize)>) {
    let mut acts: Vec<Option<Actor<'a>>> = plans.iter().map(|p| Some(actor(w, p))).collect();
    let mut seen: Vec<Seen> = plans.iter().map(|_| vec![]).collect();
    let mut steps = vec![0usize; plans.len()];
    let mut log = vec![];
    let mut live: Vec<usize> = (0..plans.len()).collect();
    while !live.is_empty() {
        let k = r.gen_range(0..live.len());
        // several steps of one actor, or one
        for _ in 0..*[1, 1, 1, 2, 5].choose(r).unwrap() {
            let i = live[k];
            let dropped = steps[i] == plans[i].drop_after;
            log.push((clock.fetch_add(1, Ordering::Relaxed), i));
            if dropped || acts[i].as_mut().unwrap()(&mut seen[i]) {
                acts[i] = None;
                live.remove(k);
                break;
            }
            steps[i] += 1;
        }
        if yields {
            match r.gen_range(0..12) {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(std::time::Duration::from_micros(r.gen_range(1..60))),
                _ => {}
            }
        }
    }
    (seen, log)
}

fn judge(rep: &mut Rep, w: &World, p: &Plan, want: &Seen, got: &Seen, how: &str) {
    rep.inc(&format!("actors_{}", p.kind.name()));
    rep.add("events_compared", got.len() as u64);
    if want == got {
        return;
    }
    let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let short = |v: Option<&Value>| v.map(|v| v.to_string().chars().take(200).collect::<String>());
    rep.violate(
        format!("{how}:{}", p.kind.name()),
        format!("{p:?} on {}: event {at}: alone {:?}, together {:?}", w.data[p.data].desc, short(want.get(at)), short(got.get(at))),
    );
}

pub fn c19(ctx: &Ctx, rep: &mut Rep) {
    c19_sized(ctx, rep, 30, ctx.n(4000, 120_000), ctx.n(3000, 90_000));
}

/// the same with tiny datasets, for Miri
pub fn c19_small(ctx: &Ctx, rep: &mut Rep) {
    let shard: u64 = std::env::var("FCBMON_SHARD").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let ctx = &Ctx { seed: ctx.seed + 1000 * shard, only: ctx.only.clone(), ..ctx.clone() };
    c19_sized(ctx, rep, 3, ctx.n(1, 4), ctx.n(2, 10));
}

fn c19_sized(ctx: &Ctx, rep: &mut Rep, max_n: usize, one: u64, many: u64) {
    // several readers and writers of one thread, step by step
    run_cases(ctx, rep, "interleaved", one, |r, c, rep| {
        let w = match world(r, max_n) {
            Ok(w) => w,
            Err(e) => return rep.violate("world", e),
        };
        let plans: Vec<Plan> = (0..r.gen_range(2..8)).map(|_| plan(r, &w)).collect();
        let res = guard(|| {
            let want: Vec<Seen> = plans.iter().map(|p| alone(&w, p)).collect();
            let (seen, log) = interleave(&w, &plans, r, &AtomicU64::new(0), false);
            (want, seen, log)
        });
        let (want, seen, log) = match res {
            Ok(x) => x,
            Err(p) => return rep.violate(format!("panic:{}", p.file()), format!("{}: {}", p.loc, p.msg)),
        };
        for (p, (a, b)) in plans.iter().zip(want.iter().zip(&seen)) {
            judge(rep, &w, p, a, b, "interleaved");
        }
        let order: Vec<usize> = log.iter().map(|l| l.1).collect();
        rep.add("steps", order.len() as u64);
        rep.add("switches", order.windows(2).filter(|x| x[0] != x[1]).count() as u64);
        rep.eval(Some(h(&(order, c))));
    });
    // the same from several threads at once
    run_cases(ctx, rep, "threads", many, |r, c, rep| {
        let w = match world(r, max_n) {
            Ok(w) => w,
            Err(e) => return rep.violate("world", e),
        };
        let nt = r.gen_range(2..7);
        let same = r.gen_bool(0.3).then(|| plan(r, &w));
        let plans: Vec<Vec<Plan>> = (0..nt).map(|_| (0..r.gen_range(1..4)).map(|_| same.clone().unwrap_or_else(|| plan(r, &w))).collect()).collect();
        let res = guard(|| plans.iter().map(|ps| ps.iter().map(|p| alone(&w, p)).collect::<Vec<_>>()).collect::<Vec<_>>());
        let want = match res {
            Ok(x) => x,
            Err(p) => return rep.violate(format!("panic:{}", p.file()), format!("{}: {}", p.loc, p.msg)),
        };
        let seeds: Vec<u64> = (0..nt).map(|_| r.gen()).collect();
        let clock = AtomicU64::new(0);
        let gate = Barrier::new(nt);
        let busy = AtomicUsize::new(0);
        let most = AtomicUsize::new(0);
        let wr = &w;
        let results: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = plans
                .iter()
                .zip(&seeds)
                .map(|(ps, seed)| {
                    let (clock, gate, busy, most) = (&clock, &gate, &busy, &most);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            let mut r = StdRng::seed_from_u64(*seed);
                            gate.wait();
                            most.fetch_max(busy.fetch_add(1, Ordering::Relaxed) + 1, Ordering::Relaxed);
                            let x = guard(|| interleave(wr, ps, &mut r, clock, true));
                            busy.fetch_sub(1, Ordering::Relaxed);
                            x
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut order = vec![];
        for (t, (x, (ps, want))) in results.into_iter().zip(plans.iter().zip(&want)).enumerate() {
            match x {
                Err(p) => rep.violate(format!("threads_panic:{}", p.file()), format!("{}: {}", p.loc, p.msg)),
                Ok((seen, log)) => {
                    for (p, (a, b)) in ps.iter().zip(want.iter().zip(&seen)) {
                        judge(rep, &w, p, a, b, "threads");
                    }
                    order.extend(log.into_iter().map(|(time, a)| (time, t, a)));
                }
            }
        }
        order.sort();
        let order: Vec<(usize, usize)> = order.into_iter().map(|(_, t, a)| (t, a)).collect();
        rep.add("steps", order.len() as u64);
        rep.add("thread_switches", order.windows(2).filter(|x| x[0].0 != x[1].0).count() as u64);
        rep.max("max_threads_at_work", most.load(Ordering::Relaxed) as u64);
        rep.eval(Some(h(&(&order, c))));
        rep.sample(|| {
            let kinds: Vec<Vec<&str>> = plans.iter().map(|p| p.iter().map(|p| p.kind.name()).collect()).collect();
            let first: Vec<String> = order.iter().take(40).map(|(t, a)| format!("{t}.{a}")).collect();
            json!({"case": c, "threads": kinds, "order": first.join(" ")})
        });
    });
}
