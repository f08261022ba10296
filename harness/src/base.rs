//! Generators, models and process-wide machinery; nothing here depends on radixdb.
pub mod alloc;
pub mod codec;
pub mod gen;
pub mod model;
pub mod sys;
pub mod tape;
