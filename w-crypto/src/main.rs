mod aead;
mod elgamal;
mod hash;
#[path = "../../common/rng.rs"]
mod rng;
mod schemes;
mod sign;
mod util;
mod vrf;

#[global_allocator]
static A: sim::alloc::Limited = sim::alloc::Limited;

fn main() {
    sim::main(&[
        &sign::S01,
        &sign::S02,
        &sign::S03,
        &vrf::V01,
        &elgamal::E01,
        &aead::A01,
        &hash::H01,
        &hash::H02,
    ])
}
