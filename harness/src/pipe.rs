//! Driving the pipeline's step handlers directly.
use crate::ops::*;
use dataflow_rs::engine::message::{Change, Message};
use dataflow_rs::engine::{AsyncFunctionHandler, FunctionConfig};
use serde_json::Value;
use std::collections::HashMap;
use std::sync::Arc;
thread_local! { static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap(); /// the handlers as the library registers them, by operation
    static H: HashMap<String, Box<dyn AsyncFunctionHandler + Send + Sync>> = mx_message::register_mx_functions().into_iter().map(|(n, h)| (n.trim_end_matches("_mx").to_string(), h)).collect(); static DL: Arc<datalogic_rs::DataLogic> = Arc::new(datalogic_rs::DataLogic::new()); }
pub const OPS: [&str; 4] = ["parse", "publish", "validate", "generate"];
pub fn custom(op: &str, input: Value) -> FunctionConfig { FunctionConfig::Custom { name: format!("{op}_mx"), input } }
pub fn st(src: &str, tgt: &str) -> Value { serde_json::json!({"source": src, "target": tgt}) }
/// Err(panic message) or the handler's result
pub fn step_cfg(m: &mut Message, op: &str, cfg: &FunctionConfig) -> Result<Result<(usize, Vec<Change>), String>, String> {
    let dl = DL.with(Arc::clone);
    guard(|| RT.with(|rt| H.with(|h| rt.block_on(h[op].execute(m, cfg, dl))).map_err(|e| e.to_string())))
}
pub fn step(m: &mut Message, op: &str, src: &str, tgt: &str) -> Result<Result<(usize, Vec<Change>), String>, String> { step_cfg(m, op, &custom(op, st(src, tgt))) }
/// a message with the given payload
pub fn msg(payload: Value) -> Message { Message::new(Arc::new(payload)) }
