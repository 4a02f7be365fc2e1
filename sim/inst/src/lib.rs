//! Concrete instances of the generic single-flight caches, compiled with the same edge
//! instrumentation as the crates under test (generic code is instantiated here).
use ruby_fast_lsp::single_flight::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

pub struct Val {
    pub prod: u64,
    pub key: usize,
    pub weight: u64,
}
pub type Fut = Pin<Box<dyn Future<Output = Result<Val, String>> + Send>>;
pub type Producer = Box<dyn FnOnce() -> Fut + Send>;

#[derive(Clone)]
pub enum Cache {
    U(SingleFlightCache<usize, Val>),
    B(BoundedSingleFlightCache<usize, Val>),
}
impl Cache {
    pub fn unbounded() -> Self {
        Cache::U(SingleFlightCache::default())
    }
    pub fn bounded(e: usize, w: u64) -> Self {
        Cache::B(BoundedSingleFlightCache::new(e, w, |v: &Val| v.weight))
    }
    pub fn ephemeral() -> Self {
        Cache::B(BoundedSingleFlightCache::ephemeral(|v: &Val| v.weight))
    }
    pub async fn get(&self, key: usize, p: Producer) -> Result<Arc<Val>, String> {
        match self {
            Cache::U(c) => c.get_or_try_init(key, p).await,
            Cache::B(c) => c.get_or_try_init(key, p).await,
        }
    }
    pub fn retained(&self) -> Option<(usize, u64)> {
        match self {
            Cache::U(_) => None,
            Cache::B(c) => Some((c.len(), c.retained_weight())),
        }
    }
}

#[derive(Clone)]
pub struct Blocking(BlockingBoundedSingleFlightCache<usize, Val, String>);
impl Blocking {
    pub fn new(e: usize, w: u64) -> Self {
        Blocking(BlockingBoundedSingleFlightCache::new(e, w, |v: &Val| v.weight))
    }
    pub fn get(&self, key: usize, p: &mut dyn FnMut() -> Result<Val, String>) -> Result<Arc<Val>, String> {
        self.0.get_or_try_init(key, || p())
    }
    pub fn retained(&self) -> (usize, u64) {
        (self.0.len(), self.0.retained_weight())
    }
}

/// The real `main` of the server binary.
#[allow(dead_code)]
pub mod server_main {
    include!("/repo/src/main.rs");
    /// Run it; the process's exit code.
    pub fn run() -> i32 {
        match main() {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("Error: {e:?}");
                1
            }
        }
    }
}
