pub mod alloc;
pub mod interpose;
pub mod proc;
pub mod rng;
pub mod sched;
pub mod vfs;
