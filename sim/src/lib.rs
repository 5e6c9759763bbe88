//! Deterministic simulation toolkit; see /verif/DESIGN.md.
pub mod alloc;
pub mod ctx;
pub mod disk;
pub mod driver;
pub mod plan;
pub mod prng;
pub mod sched;
pub mod shm;
pub use ctx::Ctx;
pub use driver::{in_child, main, Tier, World};
pub use plan::{gen_schedule, Op, Plan, Schedule};
pub use prng::{hash_bytes, mix, Prng};
