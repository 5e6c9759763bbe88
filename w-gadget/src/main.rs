mod bits;
mod curves;
mod hashes;
mod kit;
mod lattice;
#[path = "../../common/rng.rs"]
mod rng;
mod trees;
mod verifier;
mod world;

#[global_allocator]
static A: sim::alloc::Limited = sim::alloc::Limited;

fn main() {
    sim::main(&[&world::G01, &world::G02, &world::G03, &world::G04, &world::G05, &world::G06])
}
