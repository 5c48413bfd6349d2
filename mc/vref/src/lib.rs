//! Reference models and exploration drivers. Independent of the code under test: no dependency on it.
pub mod evid;
pub mod expr;
pub mod gen;
pub mod interp;
pub mod par;
