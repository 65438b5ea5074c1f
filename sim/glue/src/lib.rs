pub mod exec;
pub mod model;
pub mod scalar;
pub mod spec;
