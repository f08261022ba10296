//! What the browser crate uses of wasm-futures-executor, for native builds: each task gets a
//! thread, which uses the storage the pool was made with.
use futures::future::LocalBoxFuture;
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;
use wasm_bindgen::JsValue;

#[derive(Clone)]
pub struct ThreadPool {
    storage: web_sys::Storage,
    threads: Arc<Mutex<Vec<JoinHandle<()>>>>,
}
impl ThreadPool {
    pub async fn new(_size: usize) -> Result<Self, JsValue> {
        Ok(Self::with(web_sys::Storage::current()))
    }
    pub fn with(storage: web_sys::Storage) -> Self {
        ThreadPool { storage, threads: Default::default() }
    }
    pub fn spawn_lazy<F>(&self, f: F)
    where
        F: FnOnce() -> LocalBoxFuture<'static, ()> + Send + 'static,
    {
        let s = self.storage.clone();
        let h = std::thread::spawn(move || {
            s.enter();
            futures::executor::block_on(f());
        });
        self.threads.lock().unwrap().push(h);
    }
    /// wait until all tasks have ended; false if one panicked
    pub fn join(&self) -> bool {
        let v: Vec<_> = std::mem::take(&mut *self.threads.lock().unwrap());
        v.into_iter().fold(true, |ok, h| h.join().is_ok() && ok)
    }
}
