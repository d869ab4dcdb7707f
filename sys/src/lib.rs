pub mod alg;
pub mod ip;
pub mod sched;
pub mod exec;
pub mod pt;
