//! U03: byte strings packed into field elements, stored, padded, damaged, unpacked.
use crate::fields::*;
use ark_ff::{Field, PrimeField};
use jf_utils::{bytes_from_field_elements, bytes_to_field_elements};
use sim::{
    disk::{damage, IoFaults, SimFile, SimReader, SimWriter},
    *,
};

pub struct U03;

fn content(len: usize, pat: u64, seed: u64) -> Vec<u8> {
    let mut r = Prng::new(seed);
    match pat % 7 {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => {
            let mut v = r.bytes(len);
            let z = r.below(len as u64 + 1) as usize;
            v[len - z..].fill(0);
            v
        },
        3 => {
            let mut v = vec![0; len];
            if let Some(x) = v.last_mut() {
                *x = 1 + r.below(255) as u8;
            }
            v
        },
        4 => (0..len).map(|_| *r.pick(&[0u8, 1, 0x7f, 0x80, 0xfe, 0xff])).collect(),
        _ => r.bytes(len),
    }
}

fn pads(op: &Op) -> usize {
    if op.arg(1) % 8 == 0 {
        op.usize(1) % 500
    } else {
        op.usize(0) % 9
    }
}

fn exec<F: Field>(plan: &Plan, ctx: &mut Ctx) {
    let pb = ((F::BasePrimeField::MODULUS_BIT_SIZE - 1) / 8) as usize;
    let unit = pb * F::extension_degree() as usize;
    let mut last: Option<(Vec<u8>, Vec<F>)> = None;
    let mut files: Vec<(SimFile, Vec<u8>, Vec<F>)> = vec![];
    for op in &plan.ops {
        match op.k.as_str() {
            "pack" => {
                // length: multiples of the element and base-element size, plus/minus one
                let len = match op.arg(0) % 64 {
                    // longer than two bytes can count
                    4 => 65_500 + op.usize(1) % 100,
                    5 => 2 * unit * op.usize(1) % 100_000,
                    x => match x % 4 {
                    0 => op.usize(1) % 600,
                    1 => (unit * (op.usize(1) % 6) + op.usize(2) % 3).saturating_sub(1),
                    2 => (pb * (op.usize(1) % 40) + op.usize(2) % 3).saturating_sub(1),
                    _ => op.usize(1) % 40,
                    },
                };
                let b = content(len, op.arg(3), op.arg(4));
                let Some(e) = ctx.must("pack", || bytes_to_field_elements::<_, F>(b.clone())) else { return };
                ctx.event("pack", &b);
                ctx.state(mix(&[len as u64, op.arg(3) % 7, plan.c(0)]));
                let Some(back) = ctx.must("unpack", || bytes_from_field_elements::<_, F>(e.clone())) else { return };
                ctx.check(back == b, "pack:not-inverted", || {
                    format!("{} bytes {b:02x?} came back as {} bytes {back:02x?}", b.len(), back.len())
                });
                let e2 = ctx.must("pack", || bytes_to_field_elements::<_, F>(&b[..])).unwrap_or_default();
                ctx.check(e2 == e, "pack:not-a-function", || "two packings of the same bytes differ".into());
                if let Some((pb, pe)) = &last {
                    if *pb != b {
                        ctx.check(*pe != e, "pack:collision", || {
                            format!("{pb:02x?} and {b:02x?} pack to the same elements")
                        });
                    }
                }
                last = Some((b.clone(), e.clone()));
                files.push((SimFile::default(), b, e));
            },
            // a sibling string: shorter, longer, zero-extended
            "sibling" => {
                if let Some((b, e)) = last.clone() {
                    let mut c = b.clone();
                    match op.arg(0) % 4 {
                        0 => c.push(0),
                        1 => {
                            c.pop();
                        },
                        2 => c.extend(vec![0; 1 + op.usize(1) % (2 * unit)]),
                        _ => {
                            if !c.is_empty() {
                                let i = op.usize(1) % c.len();
                                c[i] ^= 1 << (op.arg(2) % 8);
                            }
                        },
                    }
                    if c != b {
                        let Some(f) = ctx.must("pack", || bytes_to_field_elements::<_, F>(c.clone())) else { return };
                        ctx.check(f != e, "pack:collision", || {
                            format!("{b:02x?} and {c:02x?} pack to the same elements")
                        });
                        let Some(back) = ctx.must("unpack", || bytes_from_field_elements::<_, F>(f)) else { return };
                        ctx.check(back == c, "pack:not-inverted", || {
                            format!("{} bytes {c:02x?} came back as {back:02x?}", c.len())
                        });
                    }
                }
            },
            "pad" => {
                if let Some((b, e)) = last.clone() {
                    if b.is_empty() {
                        continue; // nothing to pad: the empty string packs to no elements
                    }
                    let mut f = e.clone();
                    f.extend(vec![F::zero(); pads(op)]);
                    ctx.fault("padding_appended");
                    let Some(back) = ctx.must("unpack padded", || bytes_from_field_elements::<_, F>(f)) else { return };
                    ctx.check(back == b, "pack:padding-changes-bytes", || {
                        format!("{b:02x?} with {} zero elements appended came back as {back:02x?}", pads(op))
                    });
                }
            },
            "store" => {
                if let Some((f, _, e)) = files.last_mut() {
                    let mut w = SimWriter::new(IoFaults {
                        seed: op.arg(0),
                        short: true,
                        interrupt: true,
                        ..Default::default()
                    });
                    ark_serialize::CanonicalSerialize::serialize_compressed(&*e, &mut w).unwrap();
                    ctx.io(&w.count);
                    f.write_all(&w.data);
                    if op.arg(1) & 1 == 1 {
                        f.sync();
                    }
                }
            },
            "crash" => {
                for (f, ..) in files.iter_mut() {
                    let k = f.crash(op.arg(0), op.arg(1));
                    ctx.fault(k);
                }
                last = None;
            },
            "rot" => {
                if let Some((f, ..)) = files.last_mut() {
                    if f.durable.len() > 8 {
                        // the vector's length prefix belongs to the storage format
                        let mut body = f.durable.split_off(8);
                        let n = body.len();
                        let k = damage(&mut body, op.arg(0), op.arg(1));
                        body.resize(n, 0);
                        f.durable.extend(body);
                        f.volatile = f.durable.clone();
                        ctx.fault(k);
                    }
                }
            },
            "load" => {
                if files.is_empty() {
                    continue;
                }
                let i = op.usize(0) % files.len();
                let (f, b, e) = &files[i];
                let rd = SimReader::new(
                    f.durable.clone(),
                    IoFaults { seed: op.arg(1), short: true, interrupt: true, ..Default::default() },
                );
                let v: Result<Vec<F>, _> =
                    ark_serialize::CanonicalDeserialize::deserialize_compressed(rd);
                if let Ok(v) = v {
                    let intact = v == *e;
                    unpack_any(ctx, &v, unit, intact.then_some(b));
                }
            },
            "garbage" => {
                let mut r = Prng::new(op.arg(1));
                let v: Vec<F> = (0..op.usize(0) % 12).map(|_| elem(&mut r, 9)).collect();
                ctx.fault("arbitrary_elements");
                unpack_any(ctx, &v, unit, None);
            },
            "damage" => {
                if let Some((_, e)) = &last {
                    let mut v = e.clone();
                    let mut r = Prng::new(op.arg(1));
                    let n = v.len();
                    if n > 0 {
                        match op.arg(0) % 4 {
                            0 => v[0] = elem(&mut r, 9),
                            1 => {
                                let i = r.below(n as u64) as usize;
                                v[i] = elem(&mut r, 9);
                            },
                            2 => v.truncate(r.below(n as u64) as usize),
                            _ => v[0] += F::from(1 + r.below(1 << 20)),
                        }
                    }
                    ctx.fault("elements_altered");
                    unpack_any(ctx, &v, unit, None);
                }
            },
            _ => {},
        }
    }
}

fn unpack_any<F: Field>(ctx: &mut Ctx, v: &[F], unit: usize, want: Option<&Vec<u8>>) {
    let Some(out) = ctx.must("unpack", || bytes_from_field_elements::<_, F>(v.to_vec())) else { return };
    ctx.event("unpack", &out);
    let cap = unit * v.len().saturating_sub(1);
    ctx.check(out.len() <= cap, "unpack:more-bytes-than-elements", || {
        format!("{} elements unpacked to {} bytes, at most {cap} fit", v.len(), out.len())
    });
    let twice = ctx.must("unpack", || bytes_from_field_elements::<_, F>(v)).unwrap_or_default();
    ctx.check(twice == out, "unpack:not-a-function", || "two unpackings differ".into());
    if let Some(b) = want {
        ctx.check(out == *b, "pack:not-inverted", || {
            format!("{} stored bytes came back as {} bytes {out:02x?}", b.len(), out.len())
        });
    }
}

impl World for U03 {
    fn property(&self) -> &'static str {
        "U03"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (150_000, 25) } else { (3_000_000, 240) }
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let names = ["pack", "pack", "sibling", "pad", "store", "crash", "rot", "load", "garbage", "damage"];
        let mut ops = vec![Op::new("pack", &[r.below(64), r.below(4096), r.below(3), r.below(7), r.next() >> 32])];
        for _ in 0..r.range(1, 14) {
            ops.push(Op::new(
                names[r.below(10) as usize],
                &[r.below(64), r.below(4096), r.below(64), r.below(7), r.next() >> 32],
            ));
        }
        Plan { cfg: vec![r.below(12)], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        match p.c(0) {
            0 => exec::<ark_bn254::Fr>(p, ctx),
            1 => exec::<ark_bls12_381::Fr>(p, ctx),
            2 => exec::<ark_bls12_381::Fq>(p, ctx),
            3 => exec::<ark_bls12_377::Fr>(p, ctx),
            4 => exec::<ark_bn254::Fq2>(p, ctx),
            5 => exec::<ark_bn254::Fq12>(p, ctx),
            6 => exec::<ark_ed_on_bn254::Fr>(p, ctx),
            7 => exec::<M127>(p, ctx),
            8 => exec::<M107>(p, ctx),
            9 => exec::<K256>(p, ctx),
            10 => exec::<P65>(p, ctx),
            _ => exec::<ark_bls12_381::Fq6>(p, ctx),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = a seeded sequence of pack, store, crash, rot, load, pad and damage operations over one of twelve fields; lengths are biased to multiples of the chunk size; non-trivial = at least one fault or state; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-utils byte/field packing", "ark-ff fields", "ark-serialize"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["storage (simulated files)"]
    }
}
