//! So that the browser crate compiles natively; there is no database here.
pub struct OpenFlags;
impl OpenFlags {
    pub const SQLITE_OPEN_READ_WRITE: OpenFlags = OpenFlags;
    pub const SQLITE_OPEN_CREATE: OpenFlags = OpenFlags;
    pub const SQLITE_OPEN_NO_MUTEX: OpenFlags = OpenFlags;
}
impl std::ops::BitOr for OpenFlags {
    type Output = OpenFlags;
    fn bitor(self, _: OpenFlags) -> OpenFlags {
        self
    }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no database")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub struct Row;
impl Row {
    pub fn get<T>(&self, _: usize) -> Result<T> {
        Err(Error)
    }
}
pub struct Connection;
impl Connection {
    pub fn open_with_flags_and_vfs(_: &str, _: OpenFlags, _: &str) -> Result<Self> {
        Err(Error)
    }
    pub fn execute_batch(&self, _: &str) -> Result<()> {
        Err(Error)
    }
    pub fn execute(&self, _: &str, _: [u8; 0]) -> Result<usize> {
        Err(Error)
    }
    pub fn query_row<T>(&self, _: &str, _: [u8; 0], _: impl FnOnce(&Row) -> Result<T>) -> Result<T> {
        Err(Error)
    }
    pub fn cache_flush(&self) -> Result<()> {
        Err(Error)
    }
}
