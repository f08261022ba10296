//! What the browser crate uses of sqlite-vfs, for native builds.
use std::ffi::CStr;

pub type VfsError = i32;
pub type VfsResult<T> = Result<T, VfsError>;
pub const SQLITE_IOERR: i32 = 10;

#[derive(Debug, Clone, Default)]
pub struct OpenOptions;

pub trait File {
    fn read(&mut self, start: u64, buf: &mut [u8]) -> VfsResult<usize>;
    fn write(&mut self, start: u64, buf: &[u8]) -> VfsResult<usize>;
    fn sync(&mut self) -> VfsResult<()>;
    fn file_size(&self) -> VfsResult<u64>;
    fn truncate(&mut self, size: u64) -> VfsResult<()>;
}
pub trait Vfs {
    type File;
    fn open(&mut self, path: &CStr, opts: OpenOptions) -> VfsResult<Self::File>;
    fn delete(&mut self, path: &CStr) -> VfsResult<()>;
    fn exists(&mut self, path: &CStr) -> VfsResult<bool>;
}
/// there is no database here
pub fn register<V: Vfs>(_name: &str, _vfs: V) -> Result<(), std::io::Error> {
    Err(std::io::ErrorKind::Unsupported.into())
}
