mod adversary;
mod batch;
mod bind;
#[allow(dead_code)]
#[path = "../../w-crypto/src/util.rs"]
mod carry;
mod circ;
mod relation;
#[path = "../../common/rng.rs"]
mod rng;
mod prove;
mod store;
mod sys;

#[global_allocator]
static A: sim::alloc::Limited = sim::alloc::Limited;

fn main() {
    sim::main(&[&relation::R01, &prove::Z01, &adversary::Z02, &batch::Z03, &store::Z04, &prove::Z05, &bind::Z06])
}
