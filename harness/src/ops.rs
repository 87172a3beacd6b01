//! Uniform access to the public root types of the crate (serde + Validate), with panics turned into data.
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
use std::any::Any;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex, OnceLock, atomic::{AtomicU64, Ordering::Relaxed}};
use std::time::Instant;
pub trait Obj {
    fn json(&self) -> Result<String, String>;
    fn xml(&self) -> Result<String, String>;
    fn check(&self, path: &str, c: &ParserConfig, e: &mut ErrorCollector);
    fn same(&self, o: &dyn Obj) -> bool;
    fn any(&self) -> &dyn Any;
}
impl<T> Obj for T where T: serde::Serialize + PartialEq + Validate + 'static {
    fn json(&self) -> Result<String, String> { serde_json::to_string(self).map_err(|e| e.to_string()) }
    fn xml(&self) -> Result<String, String> { quick_xml::se::to_string(self).map_err(|e| e.to_string()) }
    fn check(&self, p: &str, c: &ParserConfig, e: &mut ErrorCollector) { self.validate(p, c, e) }
    fn same(&self, o: &dyn Obj) -> bool { o.any().downcast_ref::<T>().is_some_and(|o| o == self) }
    fn any(&self) -> &dyn Any { self }
}
pub type Res = Result<Box<dyn Obj>, String>;
pub struct Root { pub module: &'static str, pub ty: &'static str, pub from_json: fn(&str) -> Res, pub from_xml: fn(&str) -> Res }
pub fn fj<T: serde::de::DeserializeOwned + Obj + 'static>(v: &str) -> Res { serde_json::from_str::<T>(v).map(|x| Box::new(x) as Box<dyn Obj>).map_err(|e| e.to_string()) }
pub fn fx<T: serde::de::DeserializeOwned + Obj + 'static>(v: &str) -> Res { quick_xml::de::from_str::<T>(v).map(|x| Box::new(x) as Box<dyn Obj>).map_err(|e| e.to_string()) }
#[macro_export]
macro_rules! root { ($m:expr, $t:expr, $ty:ty) => { Root { module: $m, ty: $t, from_json: fj::<$ty>, from_xml: fx::<$ty> } } }
pub fn root(m: &str) -> &'static Root { crate::roots::ROOTS.iter().find(|r| r.module == m).unwrap_or_else(|| panic!("no root {m}")) }
/// when the call each thread is in began (0: none), in ms of the process
static CALLS: Mutex<Vec<Arc<AtomicU64>>> = Mutex::new(vec![]);
static T0: OnceLock<Instant> = OnceLock::new();
fn now() -> u64 { T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1 }
thread_local!(static CALL: Arc<AtomicU64> = { let a = Arc::new(AtomicU64::new(0)); CALLS.lock().unwrap().push(a.clone()); a });
/// Err(message) if f panics
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let c = CALL.with(Arc::clone);
    let outer = c.load(Relaxed);
    if outer == 0 { c.store(now(), Relaxed) }
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()));
    c.store(outer, Relaxed);
    r
}
/// ends the process when a call has not returned after LIMIT seconds (any takes less than one)
pub fn watch(limit: u64) {
    now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let t = now();
        if CALLS.lock().unwrap().iter().any(|c| { let b = c.load(Relaxed); b != 0 && t > b + limit * 1000 }) { eprintln!("a call has not returned within {limit} s"); std::process::exit(77) }
    });
}
