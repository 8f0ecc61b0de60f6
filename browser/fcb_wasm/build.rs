//! Takes the browser reader's sources from the working tree and adapts their surroundings only: the target
//! they are guarded by, the Send-ness async-trait asks for there, and the names of the crates standing in.
use std::{env, fs, path::Path};
fn main() {
    println!("cargo:rustc-check-cfg=cfg(standin_browser)");
    println!("cargo:rustc-cfg=standin_browser");
    let src = Path::new(&env::var("CARGO_MANIFEST_DIR").unwrap()).join("../../.build/ws/wasm/src");
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed={}", src.display());
    for e in fs::read_dir(&src).unwrap() {
        let p = e.unwrap().path();
        if p.extension().is_none_or(|x| x != "rs") {
            continue;
        }
        println!("cargo:rerun-if-changed={}", p.display());
        let text = fs::read_to_string(&p)
            .unwrap()
            .replace("target_arch = \"wasm32\"", "standin_browser")
            .replace("async_trait(?Send)", "async_trait")
            .replace("\nmod util;", "\npub mod util;");
        fs::write(Path::new(&out).join(p.file_name().unwrap()), text).unwrap();
    }
}
