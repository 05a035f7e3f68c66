pub use prometheus_client as prometheus;
pub use prometheus_client::registry::Registry;
use std::sync::{Arc, Mutex, OnceLock};
#[derive(Clone)]
pub struct SharedRegistry(Arc<Mutex<Registry>>);
impl SharedRegistry {
    pub fn new(r: Registry, _moniker: Option<String>) -> Self { Self(Arc::new(Mutex::new(r))) }
    pub fn global() -> &'static Self {
        static R: OnceLock<SharedRegistry> = OnceLock::new();
        R.get_or_init(|| SharedRegistry(Arc::new(Mutex::new(Registry::default()))))
    }
    pub fn with_moniker(&self, _m: impl AsRef<str>) -> Self { self.clone() }
    pub fn write<A>(&self, f: impl FnOnce(&mut Registry) -> A) -> A { f(&mut self.0.lock().unwrap()) }
    pub fn with_prefix<A>(&self, p: impl AsRef<str>, f: impl FnOnce(&mut Registry) -> A) -> A { let mut g = self.0.lock().unwrap(); f(g.sub_registry_with_prefix(p)) }
}
pub fn export<W: std::fmt::Write>(_w: &mut W) {}
#[derive(Clone, Debug, Default)]
pub struct Metrics {}
impl Metrics { pub fn new() -> Self { Metrics {} } pub fn register(_r: &SharedRegistry) -> Self { Metrics {} } }
