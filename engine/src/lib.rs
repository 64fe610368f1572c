//! Shared parts of the generated-input checks: problem families, reference
//! methods, small linear algebra and the case runner.
pub mod la;
pub mod refs;
pub mod runner;
pub mod spec;
pub mod sys;
