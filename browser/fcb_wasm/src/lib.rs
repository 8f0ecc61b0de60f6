#![allow(warnings)]
extern crate standin as wasm_bindgen;
extern crate standin as js_sys;
extern crate standin as serde_wasm_bindgen;
extern crate standin as console_log;
extern crate standin as gloo_net;
extern crate standin as console_error_panic_hook;
include!(concat!(env!("OUT_DIR"), "/lib.rs"));
