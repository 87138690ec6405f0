pub mod cli;
pub mod client;
pub mod explore;
pub mod idl;
pub mod model;
pub mod programs;
pub mod scn;
pub mod setup;
pub mod subst;
pub mod svm;
