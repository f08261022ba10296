//! What the browser crate uses of js-sys, for native builds.
use std::sync::Arc;
use wasm_bindgen::JsValue;

/// a promise that is settled already
pub struct Promise(Result<JsValue, JsValue>);
impl Promise {
    pub fn settled(r: Result<JsValue, JsValue>) -> Self {
        Promise(r)
    }
    pub fn result(self) -> Result<JsValue, JsValue> {
        self.0
    }
}

#[derive(Clone, Debug)]
pub struct Object;
impl From<Object> for JsValue {
    fn from(_: Object) -> Self {
        JsValue::obj(())
    }
}
pub fn global() -> Object {
    Object
}

pub struct Date;
impl Date {
    pub fn now() -> f64 {
        std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64() * 1000.0
    }
}

#[allow(clippy::upper_case_acronyms)]
pub struct JSON;
pub struct JsString(String);
impl From<JsString> for String {
    fn from(s: JsString) -> Self {
        s.0
    }
}
impl JSON {
    pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> {
        Ok(JsString(format!("{:?}", v)))
    }
    pub fn parse(s: &str) -> Result<JsValue, JsValue> {
        Ok(JsValue::from(s))
    }
}

pub struct Array(Vec<JsValue>);
impl Array {
    pub fn from(v: &JsValue) -> Self {
        Array(v.get::<Vec<JsValue>>().unwrap_or_default())
    }
    pub fn iter(&self) -> impl Iterator<Item = JsValue> + '_ {
        self.0.iter().cloned()
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.clone()
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, x) in self.0.iter().enumerate() {
            f(x.clone(), i as u32, Array(self.0.clone()));
        }
    }
}
impl From<JsValue> for Array {
    fn from(v: JsValue) -> Self {
        Array::from(&v)
    }
}

fn index(i: i64, len: usize) -> usize {
    if i < 0 {
        (len as i64 + i).max(0) as usize
    } else {
        (i as usize).min(len)
    }
}
/// slice as in JavaScript: negative ends count from the end, all is clamped
pub fn js_slice(d: &[u8], start: i64, end: i64) -> Vec<u8> {
    let (s, e) = (index(start, d.len()), index(end, d.len()));
    d[s..e.max(s)].to_vec()
}

#[derive(Clone, Debug)]
pub struct ArrayBuffer(pub Arc<Vec<u8>>);
impl From<JsValue> for ArrayBuffer {
    fn from(v: JsValue) -> Self {
        v.get::<ArrayBuffer>().expect("TypeError: not an ArrayBuffer")
    }
}
impl ArrayBuffer {
    pub fn byte_length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn slice(&self, start: u32) -> ArrayBuffer {
        ArrayBuffer(Arc::new(js_slice(&self.0, start as i64, self.0.len() as i64)))
    }
    pub fn slice_with_end(&self, start: u32, end: u32) -> ArrayBuffer {
        ArrayBuffer(Arc::new(js_slice(&self.0, start as i64, end as i64)))
    }
}

impl From<&[u8]> for Uint8Array {
    fn from(d: &[u8]) -> Self {
        Uint8Array(Arc::new(d.to_vec()))
    }
}

#[derive(Clone, Debug)]
pub struct Uint8Array(Arc<Vec<u8>>);
impl Uint8Array {
    pub fn new(a: &ArrayBuffer) -> Self {
        Uint8Array(a.0.clone())
    }
    pub fn new_with_length(n: u32) -> Self {
        Uint8Array(Arc::new(vec![0; n as usize]))
    }
    pub fn new_with_byte_offset(a: &ArrayBuffer, start: u32) -> Self {
        Uint8Array(Arc::new(a.0[start as usize..].to_vec()))
    }
    pub fn new_with_byte_offset_and_length(a: &ArrayBuffer, start: u32, len: u32) -> Self {
        Uint8Array(Arc::new(a.0[start as usize..][..len as usize].to_vec()))
    }
    pub fn get_index(&self, i: u32) -> u8 {
        self.0.get(i as usize).copied().unwrap_or(0)
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn byte_length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn subarray(&self, start: u32, end: u32) -> Self {
        Uint8Array(Arc::new(js_slice(&self.0, start as i64, end as i64)))
    }
    pub fn slice(&self, start: u32, end: u32) -> Self {
        self.subarray(start, end)
    }
    pub fn copy_to(&self, dst: &mut [u8]) {
        assert_eq!(dst.len(), self.0.len(), "Uint8Array::copy_to with a slice of another length");
        dst.copy_from_slice(&self.0);
    }
}
