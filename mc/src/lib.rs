//! Exhaustive exploration engine: index spaces and breadth-first state spaces over the real code,
//! run in a supervised worker process (panics, crashes, hangs and runaway memory are all turned into
//! replayable verdicts), plus element types that observe ownership.
pub mod deep;
pub mod elem;
pub mod engine;
pub mod gen;
pub mod huge;
pub mod iters;
pub mod lp;
pub mod radix;
pub mod seqs;
pub mod sets;
pub mod types;
pub use engine::*;
