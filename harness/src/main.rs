mod attrq;
#[cfg(feature = "browser")]
mod browser;
mod cli;
mod conc;
mod equiv;
mod figures;
mod gen;
mod hostile;
mod http;
mod layout;
mod lib_io;
mod odd;
mod rep;
mod rt;
mod spatial;
mod near;
mod text;
mod thrift;

use rep::*;
#[global_allocator]
static METER: hostile::Meter = hostile::Meter;

use serde_json::{json, Value};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    install_panic_hook();
    let only = get("--stage").and_then(|s| Some((s, get("--case")?.parse().ok()?)));
    let ctx = Ctx {
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        stage: get("--stage").filter(|_| get("--case").is_none()),
        only,
        threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    install_watchdog(get("--out"), get("--case-limit").and_then(|s| s.parse().ok()).unwrap_or(150));
    let mut rep = Rep::default();
    match id.as_str() {
        "emit" => {
            let u = |k: &str| get(k).and_then(|s| s.parse().ok()).unwrap_or(0u64);
            return layout::emit(&ctx, u("--from"), u("--to"));
        }
        "emit-fat" => return layout::emit_fat(&ctx, get("--case").and_then(|s| s.parse().ok()).unwrap_or(0)),
        "C10" => hostile::c10(&ctx, &mut rep),
        "C10small" => hostile::c10_small(&ctx, &mut rep),
        "C14" => cli::c14(&ctx, &mut rep),
        "C20" => thrift::c20(&ctx, &mut rep),
        "C21" => thrift::c21(&ctx, &mut rep),
        "C22" => near::c22(&ctx, &mut rep),
        "C23" => odd::c23(&ctx, &mut rep),
        "C25" => figures::c25(&ctx, &mut rep),
        #[cfg(feature = "browser")]
        "C26" => browser::c26(&ctx, &mut rep),
        "C24" => text::c24(&ctx, &mut rep),
        "C19" => conc::c19(&ctx, &mut rep),
        "C19small" => conc::c19_small(&ctx, &mut rep),
        "C17" => http::c17(&ctx, &mut rep),
        "C09" => layout::c09(&ctx, &mut rep),
        "C13" => layout::c13(&ctx, &mut rep),
        "noop" => {}
        "probe" => rt::probe(&mut rep),
        "C06" => attrq::c06(&ctx, &mut rep),
        "C08" => equiv::c08(&ctx, &mut rep),
        "C11" => equiv::c11(&ctx, &mut rep),
        "C12" => equiv::c12(&ctx, &mut rep),
        "C07" => attrq::c07(&ctx, &mut rep),
        "C15" => attrq::c15(&ctx, &mut rep),
        "C04" => spatial::c04(&ctx, &mut rep),
        "C05" => spatial::c05(&ctx, &mut rep),
        "C16" => spatial::c16(&ctx, &mut rep),
        "C03" => rt::c03(&ctx, &mut rep),
        "C18" => rt::c18(&ctx, &mut rep),
        "C02" => rt::c02(&ctx, &mut rep),
        "C01" => rt::c01(&ctx, &mut rep),
        _ => {
            eprintln!("unknown check {id}");
            std::process::exit(3);
        }
    }
    let out: Value = json!(rep.to_json());
    let s = serde_json::to_string_pretty(&out).unwrap();
    match get("--out") {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => eprintln!("{s}"),
    }
}
