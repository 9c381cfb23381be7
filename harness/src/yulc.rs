//! Batch front end over the real compiler: reads a JSON list of jobs, compiles each one with
//! Yul2IRContext::emit (what the yul2wasm binary calls) and leaves the emitted LLVM IR and wasm.
#![allow(dead_code, unused_imports)]
#[path = "yul2ir/mod.rs"]
mod yul2ir;
use inkwell::context::Context;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yul2ir::config::Yul2IROptions;
use yul2ir::context::Yul2IRContext;
use yul2ir::yul_instruction::YulLowLevelValueType;

fn flag(j: &Value, k: &str) -> bool { j.get(k).and_then(|v| v.as_bool()).unwrap_or(false) }

fn run(j: &Value) -> Result<Value, String> {
    let src = std::fs::read_to_string(j["yul"].as_str().unwrap()).map_err(|e| e.to_string())?;
    let src = yul2ir::utils::remove_comments(&src);
    let obj = yul2ir::yul::ObjectParser::new().parse(&src).map_err(|e| format!("parse: {}", e))?;
    if flag(j, "ast_only") { return Ok(json!({"ok": true, "ast": format!("{:?}", obj)})); }
    let mut opts = Yul2IROptions {
        verbose: true,
        use_llvm_toolchain: false,
        opt_level: j.get("opt_level").and_then(|v| v.as_str()).unwrap_or("none").parse()?,
        disable_all_optimizers: flag(j, "disable_all_optimizers"),
        enable_all_optimizers: flag(j, "enable_all_optimizers"),
        minify_wasm_size: flag(j, "minify_wasm_size"),
        no_binaryen_optimize: true,
        no_inline: flag(j, "no_inline"),
        debug_mode: flag(j, "debug_mode"),
        ignore_unknown_linker_library: flag(j, "ignore_unknown_linker_library"),
        enable_storage_load_store_little_endian: flag(j, "little_endian_storage"),
        output_dir: j["dir"].as_str().unwrap().to_string(),
        main_contract_name: obj.name.clone(),
        ..Default::default()
    };
    if let Some(m) = j.get("main").and_then(|v| v.as_str()) { opts.main_contract_name = m.to_string(); }
    if let Some(m) = j.get("symbols").and_then(|v| v.as_object()) {
        for (k, v) in m { opts.symbol2addr.insert(k.clone(), v.as_str().unwrap().to_string()); }
    }
    let main = opts.main_contract_name.clone();
    let cx = Context::create();
    let mut c = Yul2IRContext::new_with_object(&cx, &opts, obj);
    if j.get("ret").and_then(|v| v.as_str()) == Some("bytes32") { c.default_ret_type = YulLowLevelValueType::Bytes32Pointer; }
    let base = j["base"].as_str().unwrap();
    let wasm = c.emit(base).map_err(|e| e.to_string())?;
    let wp = format!("{}/{}.wasm", opts.output_dir, base);
    std::fs::write(&wp, &wasm).map_err(|e| e.to_string())?;
    Ok(json!({"ok": true, "ll": format!("{}/{}_{}.out.ll", opts.output_dir, main, base), "wasm": wp}))
}

fn main() {
    let jobs: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let out: Vec<Value> = jobs.iter().map(|j| match catch_unwind(AssertUnwindSafe(|| run(j))) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"ok": false, "error": e}),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
            json!({"ok": false, "panic": true, "error": m})
        }
    }).collect();
    std::fs::write(std::env::args().nth(2).unwrap(), serde_json::to_string(&out).unwrap()).unwrap();
}
