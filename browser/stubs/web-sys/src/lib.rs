//! What the browser crate uses of web-sys, for native builds: the cache storage of one origin,
//! kept in memory, with failures and crashes on demand.
//!
//! Every operation of the cache API is atomic (as in a browser), happens at once, and is counted.
use js_sys::{ArrayBuffer, Promise};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use url::Url;
use wasm_bindgen::JsValue;

/// entries in the order of their insertion; urls are absolute
type Entries = Vec<(String, Arc<Vec<u8>>)>;

#[derive(Default)]
pub struct Origin {
    caches: HashMap<String, Arc<Mutex<Entries>>>,
    /// operations so far
    pub ops: u64,
    /// those of them that change something
    pub changes: u64,
    /// this operation, and as many after it, fail
    pub fail: Option<(u64, u64)>,
    /// nothing works any more from this operation on
    pub crash: Option<u64>,
    pub log: Vec<String>,
}

/// the storage of an origin, which outlives the programs that use it
#[derive(Clone, Default)]
pub struct Storage(pub Arc<Mutex<Origin>>);

impl Storage {
    pub fn new() -> Self {
        Self::default()
    }
    /// the number of operations so far
    pub fn ops(&self) -> u64 {
        self.0.lock().unwrap().ops
    }
    pub fn fail(&self, at: Option<(u64, u64)>) {
        self.0.lock().unwrap().fail = at;
    }
    pub fn crash(&self, at: Option<u64>) {
        self.0.lock().unwrap().crash = at;
    }
    /// a copy of its state
    pub fn snapshot(&self) -> Storage {
        let o = self.0.lock().unwrap();
        let caches = o.caches.iter().map(|(k, v)| (k.clone(), Arc::new(Mutex::new(v.lock().unwrap().clone())))).collect();
        Storage(Arc::new(Mutex::new(Origin { caches, ..Default::default() })))
    }
    /// all entries, for display
    pub fn dump(&self) -> Vec<String> {
        let o = self.0.lock().unwrap();
        let mut r: Vec<String> = o.caches.iter().flat_map(|(c, e)| e.lock().unwrap().iter().map(|(u, d)| format!("{} {} {}", c, u, d.len())).collect::<Vec<_>>()).collect();
        r.sort();
        r
    }
    pub fn entries(&self) -> usize {
        self.0.lock().unwrap().caches.values().map(|e| e.lock().unwrap().len()).sum()
    }
    /// make it the storage of the current thread
    pub fn enter(&self) {
        CURRENT.with(|c| *c.borrow_mut() = Some(self.clone()));
    }
    pub fn current() -> Self {
        CURRENT.with(|c| c.borrow().clone()).expect("no storage for this thread")
    }
    fn op(&self, what: impl FnOnce() -> String) -> Result<(), JsValue> {
        let mut o = self.0.lock().unwrap();
        let k = o.ops;
        o.ops += 1;
        if o.crash.is_some_and(|c| k >= c) {
            return Err("InvalidStateError: gone".into());
        }
        if o.fail.is_some_and(|(f, n)| k >= f && k - f < n) {
            return Err("QuotaExceededError".into());
        }
        if o.log.len() < 1000 {
            o.log.push(what());
        }
        Ok(())
    }
}

thread_local! {
    static CURRENT: RefCell<Option<Storage>> = const { RefCell::new(None) };
}

const ORIGIN: &str = "http://localhost:8080";

fn resolve(s: &str) -> Result<Url, JsValue> {
    let mut u = Url::parse(ORIGIN).unwrap().join(s).map_err(|e| JsValue::from(format!("TypeError: {}", e)))?;
    u.set_fragment(None);
    if u.scheme() != "http" && u.scheme() != "https" {
        return Err("TypeError: scheme".into());
    }
    Ok(u)
}

pub struct WorkerLocation;
impl WorkerLocation {
    pub fn origin(&self) -> String {
        ORIGIN.into()
    }
}

pub struct DedicatedWorkerGlobalScope(Storage);
impl From<JsValue> for DedicatedWorkerGlobalScope {
    fn from(_: JsValue) -> Self {
        Self(Storage::current())
    }
}
impl DedicatedWorkerGlobalScope {
    pub fn caches(&self) -> Result<CacheStorage, JsValue> {
        Ok(CacheStorage(self.0.clone()))
    }
    pub fn location(&self) -> WorkerLocation {
        WorkerLocation
    }
}

pub struct CacheStorage(Storage);
impl CacheStorage {
    pub fn open(&self, name: &str) -> Promise {
        Promise::settled(self.0.op(|| format!("open {}", name)).map(|_| {
            let e = self.0 .0.lock().unwrap().caches.entry(name.into()).or_default().clone();
            JsValue::obj(Cache { storage: self.0.clone(), entries: e, name: name.into() })
        }))
    }
    pub fn has(&self, name: &str) -> Promise {
        Promise::settled(self.0.op(|| format!("has {}", name)).map(|_| JsValue::Bool(self.0 .0.lock().unwrap().caches.contains_key(name))))
    }
    /// a cache that is deleted goes on for those who have it
    pub fn delete(&self, name: &str) -> Promise {
        Promise::settled(self.0.op(|| format!("delete cache {}", name)).map(|_| JsValue::Bool(self.0 .0.lock().unwrap().caches.remove(name).is_some())))
    }
}

#[derive(Default)]
pub struct CacheQueryOptions {
    search: bool,
}
impl CacheQueryOptions {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self { search: false }
    }
    pub fn ignore_method(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn ignore_vary(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn ignore_search(&mut self, v: bool) -> &mut Self {
        self.search = v;
        self
    }
}

#[derive(Clone)]
pub struct Cache {
    storage: Storage,
    entries: Arc<Mutex<Entries>>,
    name: String,
}
impl std::fmt::Debug for Cache {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Cache({})", self.name)
    }
}
impl From<JsValue> for Cache {
    fn from(v: JsValue) -> Self {
        v.get::<Cache>().expect("TypeError: not a Cache")
    }
}
fn matches(entry: &str, url: &Url, ignore_search: bool) -> bool {
    if !ignore_search {
        return entry == url.as_str();
    }
    let mut a = Url::parse(entry).unwrap();
    let mut b = url.clone();
    a.set_query(None);
    b.set_query(None);
    a == b
}
impl Cache {
    fn run(&self, what: impl FnOnce() -> String, f: impl FnOnce(&mut Entries) -> Result<JsValue, JsValue>) -> Promise {
        Promise::settled(self.storage.op(what).and_then(|_| f(&mut self.entries.lock().unwrap())))
    }
    pub fn keys(&self) -> Promise {
        self.run(|| "keys".into(), |e| Ok(JsValue::obj(e.iter().map(|(u, _)| JsValue::obj(Request { url: u.clone() })).collect::<Vec<_>>())))
    }
    pub fn match_with_str(&self, s: &str) -> Promise {
        self.run(
            || format!("match {}", s),
            |e| {
                let u = resolve(s)?;
                Ok(e.iter().find(|(x, _)| matches(x, &u, false)).map_or(JsValue::Undefined, |(_, d)| JsValue::obj(Response { data: Some(d.clone()) })))
            },
        )
    }
    pub fn put_with_str(&self, s: &str, r: &Response) -> Promise {
        let d = r.data.clone();
        self.run(
            || format!("put {}", s),
            |e| {
                let u = resolve(s)?;
                let d = d.ok_or_else(|| JsValue::from("TypeError: body"))?;
                e.retain(|(x, _)| !matches(x, &u, false));
                e.push((u.into(), d));
                Ok(JsValue::Undefined)
            },
        )
    }
    fn del(&self, s: &str, ignore_search: bool) -> Promise {
        self.run(
            || format!("delete {} {}", s, ignore_search),
            |e| {
                let u = resolve(s)?;
                let n = e.len();
                e.retain(|(x, _)| !matches(x, &u, ignore_search));
                Ok(JsValue::Bool(e.len() < n))
            },
        )
    }
    pub fn match_with_request(&self, r: &Request) -> Promise {
        self.match_with_str(&r.url)
    }
    pub fn put_with_request(&self, r: &Request, x: &Response) -> Promise {
        self.put_with_str(&r.url, x)
    }
    pub fn delete_with_request(&self, r: &Request) -> Promise {
        self.del(&r.url, false)
    }
    pub fn delete_with_request_and_options(&self, r: &Request, o: &CacheQueryOptions) -> Promise {
        self.del(&r.url, o.search)
    }
    pub fn keys_with_str(&self, s: &str) -> Promise {
        self.keys_with_str_and_options(s, &CacheQueryOptions::new())
    }
    pub fn keys_with_str_and_options(&self, s: &str, o: &CacheQueryOptions) -> Promise {
        self.run(
            || format!("keys {}", s),
            |e| {
                let u = resolve(s)?;
                Ok(JsValue::obj(e.iter().filter(|(x, _)| matches(x, &u, o.search)).map(|(u, _)| JsValue::obj(Request { url: u.clone() })).collect::<Vec<_>>()))
            },
        )
    }
    pub fn delete_with_str(&self, s: &str) -> Promise {
        self.del(s, false)
    }
    pub fn delete_with_str_and_options(&self, s: &str, o: &CacheQueryOptions) -> Promise {
        self.del(s, o.search)
    }
}

#[derive(Clone)]
pub struct Request {
    url: String,
}
impl From<JsValue> for Request {
    fn from(v: JsValue) -> Self {
        v.get::<Request>().expect("TypeError: not a Request")
    }
}
impl Request {
    pub fn new_with_str(s: &str) -> Result<Request, JsValue> {
        Ok(Request { url: resolve(s)?.into() })
    }
    pub fn url(&self) -> String {
        self.url.clone()
    }
}

#[derive(Clone)]
pub struct Response {
    data: Option<Arc<Vec<u8>>>,
}
impl From<JsValue> for Response {
    /// the cast is not checked: methods called on undefined throw
    fn from(v: JsValue) -> Self {
        v.get::<Response>().unwrap_or(Response { data: None })
    }
}
impl Response {
    pub fn new_with_opt_u8_array(body: Option<&mut [u8]>) -> Result<Response, JsValue> {
        Ok(Response { data: Some(Arc::new(body.map(|b| b.to_vec()).unwrap_or_default())) })
    }
    pub fn new_with_opt_str(body: Option<&str>) -> Result<Response, JsValue> {
        Ok(Response { data: Some(Arc::new(body.unwrap_or("").into())) })
    }
    pub fn ok(&self) -> bool {
        true
    }
    pub fn status(&self) -> u16 {
        200
    }
    fn body(&self) -> Result<Arc<Vec<u8>>, JsValue> {
        self.data.clone().ok_or_else(|| "TypeError: undefined".into())
    }
    pub fn array_buffer(&self) -> Result<Promise, JsValue> {
        let d = self.body()?;
        Ok(Promise::settled(Ok(JsValue::obj(ArrayBuffer(d)))))
    }
    pub fn blob(&self) -> Result<Promise, JsValue> {
        let d = self.body()?;
        Ok(Promise::settled(Ok(JsValue::obj(Blob { data: d }))))
    }
}

#[derive(Clone)]
pub struct Blob {
    data: Arc<Vec<u8>>,
}
impl From<JsValue> for Blob {
    fn from(v: JsValue) -> Self {
        v.get::<Blob>().expect("TypeError: not a Blob")
    }
}
impl Blob {
    pub fn size(&self) -> f64 {
        self.data.len() as f64
    }
    pub fn slice_with_i32(&self, start: i32) -> Result<Blob, JsValue> {
        Ok(Blob { data: Arc::new(js_sys::js_slice(&self.data, start as i64, self.data.len() as i64)) })
    }
    pub fn slice_with_i32_and_i32(&self, start: i32, end: i32) -> Result<Blob, JsValue> {
        Ok(Blob { data: Arc::new(js_sys::js_slice(&self.data, start as i64, end as i64)) })
    }
    pub fn slice_with_f64_and_f64(&self, start: f64, end: f64) -> Result<Blob, JsValue> {
        Ok(Blob { data: Arc::new(js_sys::js_slice(&self.data, start as i64, end as i64)) })
    }
    pub fn array_buffer(&self) -> Promise {
        Promise::settled(Ok(JsValue::obj(ArrayBuffer(self.data.clone()))))
    }
}
