mod fields;
mod pack;
mod par;
mod prf;
#[path = "../../common/rng.rs"]
mod rng;
mod rs;
mod store;

#[global_allocator]
static A: sim::alloc::Limited = sim::alloc::Limited;

fn main() {
    sim::main(&[&rs::U01, &rs::U02, &pack::U03, &store::U04, &par::U05, &par::U06, &prf::X01])
}
