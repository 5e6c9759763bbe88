use crate::kit::{alike, judge, lies};
use crate::{bits, curves, hashes, trees, verifier};
use ark_ed_on_bls12_377::EdwardsConfig as E377;
use ark_ed_on_bls12_381::EdwardsConfig as E381;
use ark_ed_on_bn254::EdwardsConfig as E254;
use curves::Bander;
use sim::{gen_schedule, Ctx, Op, Plan, Prng, Schedule, Tier, World};

fn alone() {
    let p = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().expect("pool");
    std::mem::forget(p);
}

fn cfg(r: &mut Prng, kinds: usize, threads: u64) -> Vec<u64> {
    vec![r.below(kinds as u64), r.below(4), r.next(), r.next(), r.next(), 0, threads]
}

fn gen(r: &mut Prng, kinds: usize, tier: Tier) -> Plan {
    let threads = if r.chance(1, 12) { r.range(2, 4) } else { 0 };
    let n = if tier == Tier::Thorough { r.range(4, 60) } else { r.range(4, 30) };
    Plan {
        cfg: cfg(r, kinds, threads),
        ops: lies(r, n),
        sched: if threads > 0 { gen_schedule(r, 22) } else { Schedule::quiet() },
    }
}

macro_rules! on_curve {
    ($i:expr, $f:ident, $name:expr, $make:ident, $k:expr, $plan:expr, $ctx:expr) => {{
        let sh = $plan.c(2);
        match $i {
            0 => $f($name, &|v| $make::<E254>($k, sh, v), $plan, $ctx),
            1 => $f($name, &|v| $make::<E381>($k, sh, v), $plan, $ctx),
            2 => $f($name, &|v| $make::<E377>($k, sh, v), $plan, $ctx),
            _ => $f($name, &|v| $make::<Bander>($k, sh, v), $plan, $ctx),
        }
    }};
}

macro_rules! on_field {
    ($i:expr, $f:ident, $name:expr, $make:ident, $k:expr, $plan:expr, $ctx:expr) => {{
        let sh = $plan.c(2);
        match $i {
            0 => $f($name, &|v| $make::<ark_bn254::Fr>($k, sh, v), $plan, $ctx),
            1 => $f($name, &|v| $make::<ark_bls12_381::Fr>($k, sh, v), $plan, $ctx),
            2 => $f($name, &|v| $make::<ark_bls12_377::Fr>($k, sh, v), $plan, $ctx),
            _ => $f($name, &|v| $make::<ark_bls12_377::Fq>($k, sh, v), $plan, $ctx),
        }
    }};
}

fn hash_kind<P>(k: &str, sh: u64, v: u64) -> Result<crate::kit::Made<P::BaseField>, jf_relation::CircuitError>
where
    P: ark_ec::twisted_edwards::TECurveConfig,
    P::BaseField: jf_rescue::RescueParameter,
{
    hashes::make::<P>(k, sh, v)
}

fn exec_hash(plan: &Plan, ctx: &mut Ctx, only_shape: bool) {
    let k = hashes::KINDS[plan.c(0) as usize % hashes::KINDS.len()];
    if only_shape {
        on_curve!(plan.c(1), alike, k, hash_kind, k, plan, ctx)
    } else {
        on_curve!(plan.c(1), judge, k, hash_kind, k, plan, ctx)
    }
}

fn exec_tree(plan: &Plan, ctx: &mut Ctx, only_shape: bool) {
    use trees::make;
    let k = trees::KINDS[plan.c(0) as usize % trees::KINDS.len()];
    if only_shape {
        on_field!(plan.c(1), alike, k, make, k, plan, ctx)
    } else {
        on_field!(plan.c(1), judge, k, make, k, plan, ctx)
    }
}

fn exec_curve(plan: &Plan, ctx: &mut Ctx, only_shape: bool) {
    let k = curves::kind(plan.c(0));
    let sh = plan.c(2);
    use ark_bls12_377::{Fq as Q377, Fr as R377};
    use ark_bn254::{Fq as Q254, Fr as R254};
    macro_rules! run {
        ($f:ident) => {
            if curves::TE.contains(&k) {
                use curves::make_te as make;
                on_curve!(if k == "glv" { 3 } else { plan.c(1) }, $f, k, make, k, plan, ctx)
            } else if curves::EMU.contains(&k) {
                match plan.c(1) {
                    0 | 1 => $f(k, &|v| curves::make_emu::<Q254, R254>(k, sh, v), plan, ctx),
                    _ => $f(k, &|v| curves::make_emu::<Q377, R254>(k, sh, v), plan, ctx),
                }
            } else if k == "te_add" || k == "te_gate" {
                $f(k, &|v| curves::make_te_add(k == "te_gate", sh, v), plan, ctx)
            } else if curves::PT.contains(&k) {
                use curves::make_pt as make;
                on_curve!(plan.c(1), $f, k, make, k, plan, ctx)
            } else if k == "sw_gate" {
                match plan.c(1) {
                    0 | 1 => $f(k, &|v| curves::make_sw_gate::<Q254, R254>(sh, v), plan, ctx),
                    _ => $f(k, &|v| curves::make_sw_gate::<Q377, R254>(sh, v), plan, ctx),
                }
            } else if curves::SW.contains(&k) {
                match plan.c(1) {
                    0 | 1 => $f(k, &|v| curves::make_sw::<ark_bn254::g1::Config, Q254, R254>(k, sh, v), plan, ctx),
                    _ => $f(k, &|v| curves::make_sw::<ark_bls12_377::g1::Config, Q377, R254>(k, sh, v), plan, ctx),
                }
            } else {
                // hashing is only offered for one field
                match if k == "m_sponge" || k == "m_keyed" { 2 } else { plan.c(1) } {
                    0 => $f(k, &|v| curves::make_mod::<R254, Q377>(k, sh, v), plan, ctx),
                    1 => $f(k, &|v| curves::make_mod::<ark_bls12_381::Fr, Q377>(k, sh, v), plan, ctx),
                    _ => $f(k, &|v| curves::make_mod::<R377, Q377>(k, sh, v), plan, ctx),
                }
            }
        };
    }
    if only_shape {
        run!(alike)
    } else {
        run!(judge)
    }
}

fn exec_bits(plan: &Plan, ctx: &mut Ctx, only_shape: bool) {
    let k = bits::KINDS[(plan.c(0) >> 3) as usize % bits::KINDS.len()];
    let sh = plan.c(2);
    macro_rules! on {
        ($t:ty) => {
            if only_shape {
                alike(k, &|v| bits::make::<$t>(k, sh, v), plan, ctx)
            } else {
                judge(k, &|v| bits::make::<$t>(k, sh, v), plan, ctx)
            }
        };
    }
    match plan.c(0) % 8 {
        0 | 1 => on!(bits::P14),
        2 => on!(bits::P64),
        3 => on!(ark_bls12_377::Fq),
        4 => on!(ark_bls12_377::Fr),
        5 => on!(ark_bls12_381::Fr),
        _ => on!(ark_bn254::Fr),
    }
}

macro_rules! world {
    ($n:ident, $id:literal, $kinds:expr, $exec:expr, $quick:expr, $rule:literal, $real:expr) => {
        pub struct $n;
        impl World for $n {
            fn property(&self) -> &'static str {
                $id
            }
            fn budget(&self, tier: Tier) -> (u64, u64) {
                match tier {
                    Tier::Quick => (60_000, $quick),
                    Tier::Thorough => (20_000_000, 500),
                }
            }
            fn step_cap(&self) -> u64 {
                20_000_000_000
            }
            fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
                gen(r, $kinds, tier)
            }
            fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
                if plan.c(6) == 0 {
                    alone();
                }
                $exec(plan, ctx, false)
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn real(&self) -> &'static [&'static str] {
                $real
            }
            fn stubs(&self) -> &'static [&'static str] {
                STUBS
            }
        }
    };
}

const STUBS: &[&str] = &["dyn-clone: own implementation of the two functions used"];

world!(G01, "G01", hashes::KINDS.len(), exec_hash, 30,
    "a circuit of one primitive is built on random values and must hold exactly when the native library says so; a \
     lying prover then presents altered, exchanged and forward-repaired witnesses, and whatever the circuit accepts must \
     be true of the native functions",
    &["jf-rescue, jf-elgamal, jf-signature circuits and native functions", "jf-relation: circuit builder", "rayon"]);
world!(G02, "G02", trees::KINDS.len(), exec_tree, 30,
    "a tree circuit is built from a true or false claim and must answer as the native verifier does; a lying prover then \
     presents altered, exchanged and forward-repaired witnesses, and whatever the circuit accepts must be true of the \
     contents of the tree with that commitment",
    &["jf-merkle-tree circuits and native trees", "jf-rescue", "jf-relation: circuit builder"]);
world!(G03, "G03", 1 << 20, exec_curve, 50,
    "a circuit of one curve, big-field or modular operation is built on random values and must hold with the native \
     result; a lying prover then presents altered, exchanged and forward-repaired witnesses, and whatever the circuit \
     accepts must be true of the native operation",
    &["jf-relation: circuit builder and gadgets", "jf-rescue: hash over another field", "ark-ec, ark-ff", "rayon"]);
world!(G05, "G05", 1 << 20, exec_bits, 40,
    "a circuit that reads field elements as numbers is built on random and extreme values and must hold exactly when \
     integers say so; a lying prover then presents altered, exchanged, forward-repaired witnesses and numbers written \
     with the field's order added, and whatever the circuit accepts must be true of the integers",
    &["jf-relation: circuit builder and gadgets", "ark-ff", "rayon"]);

pub struct G06;
impl World for G06 {
    fn property(&self) -> &'static str {
        "G06"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (60_000, 45),
            Tier::Thorough => (20_000_000, 600),
        }
    }
    fn step_cap(&self) -> u64 {
        200_000_000_000
    }
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let mut ops: Vec<Op> = (0..r.range(2, 6)).map(|_| Op::new("hint", &[r.next(), 0])).collect();
        ops.extend(lies(r, if tier == Tier::Thorough { 12 } else { 6 }));
        r.shuffle(&mut ops);
        Plan { cfg: cfg(r, 1, 0), ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        alone();
        let sh = plan.c(2);
        judge("verifier", &|v| verifier::make(sh, v), plan, ctx)
    }
    fn rule(&self) -> &'static str {
        "a circuit that verifies proofs is built on random keys, proofs and inputs and must hold with the group elements \
         the native verifier computes; a lying prover then makes single scalar operations give wrong results while the \
         circuit is built, or presents altered and exchanged witnesses, and whatever the circuit accepts for the same \
         keys, proof and inputs must be those elements"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-plonk: verifier circuit and native verifier", "jf-relation: circuit builder and gadgets", "jf-rescue", "ark-ec, ark-ff"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["dyn-clone: own implementation of the two functions used", "scalar field: the real one behind a seam that counts and falsifies operations", "pairing: never computed"]
    }
}

pub struct G04;
impl World for G04 {
    fn property(&self) -> &'static str {
        "G04"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (60_000, 30),
            Tier::Thorough => (20_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        20_000_000_000
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let mut c = cfg(r, 1 << 20, 0);
        c[5] = if r.chance(1, 150) { 4 } else { *r.pick(&[0, 0, 1, 2, 2, 2, 3]) };
        let ops = (0..r.below(3)).map(|_| Op::new("again", &[r.next()])).collect();
        Plan { cfg: c, ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        alone();
        match plan.c(5) {
            0 => exec_hash(plan, ctx, true),
            1 => exec_tree(plan, ctx, true),
            3 => exec_bits(plan, ctx, true),
            4 => alike("verifier", &|v| verifier::make(plan.c(2), v), plan, ctx),
            _ => exec_curve(plan, ctx, true),
        }
    }
    fn rule(&self) -> &'static str {
        "the same circuit is built by several parties from different values; everything preprocessing uses (numbers of \
         gates, variables and inputs, selectors, wiring, tables) must be the same for all of them"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-relation, jf-rescue, jf-merkle-tree, jf-elgamal, jf-signature, jf-plonk circuits"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}
