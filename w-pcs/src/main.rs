mod params;
mod proofs;
#[path = "../../common/rng.rs"]
mod rng;
mod threads;
mod util;

#[global_allocator]
static A: sim::alloc::Limited = sim::alloc::Limited;

fn main() {
    sim::main(&[&threads::K01, &proofs::K02, &proofs::K03, &params::K04])
}
