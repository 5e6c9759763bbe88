mod durable;
mod kinds;
mod proofs;
mod replica;
mod util;

#[global_allocator]
static A: sim::alloc::Limited = sim::alloc::Limited;

fn main() {
    sim::main(&[
        &replica::M01,
        &replica::M02,
        &proofs::M03,
        &proofs::M04,
        &durable::M05,
        &durable::M06,
        &durable::M07,
    ])
}
