pub mod defs;
pub mod src;
