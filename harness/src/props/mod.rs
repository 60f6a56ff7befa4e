pub mod bytes;
pub mod compress;
pub mod extreme;
pub mod graph;
pub mod matrix;
pub mod pool;
pub mod capi;
pub mod threads;
