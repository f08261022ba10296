//! What the browser crate uses of wasm-bindgen-futures, for native builds.
use std::{future::Future, pin::Pin, task::{Context, Poll}};
use wasm_bindgen::JsValue;

pub struct JsFuture(Option<js_sys::Promise>);
impl From<js_sys::Promise> for JsFuture {
    fn from(p: js_sys::Promise) -> Self {
        JsFuture(Some(p))
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        Poll::Ready(self.0.take().expect("polled again").result())
    }
}
