//! U01, U02: dispersal of erasure-coded data to nodes over a faulty network.
use crate::fields::*;
use ark_ff::{FftField, Field};
use ark_poly::{EvaluationDomain, Radix2EvaluationDomain};
use jf_utils::reed_solomon_code::*;
use sim::{disk::SimFile, *};

pub struct U01;
pub struct U02;

const REAL: &[&str] = &["jf-utils erasure code", "ark-poly domains", "ark-ff fields"];
const STUB: &[&str] = &["network (simulated message queue)", "node storage (simulated files)"];

fn sizes(r: &mut Prng, tier: Tier) -> (u64, u64) {
    let max = if tier == Tier::Quick { 20 } else { 48 };
    match r.below(600) {
        // many data elements
        0..=9 => (r.range(40, if tier == Tier::Quick { 90 } else { 260 }), r.size(max)),
        // few data elements, many shares (counts beyond one and two bytes)
        10..=29 => (r.range(1, 5), r.range(240, 1100)),
        30 => (r.range(1, 2), r.range(65_500, 65_600)),
        // nothing to protect
        31..=34 => (0, r.size(6).max(1)),
        _ => (r.size(max).max(1), r.size(max)),
    }
}

fn gen_common(r: &mut Prng, tier: Tier) -> Vec<u64> {
    let (k, par) = sizes(r, tier);
    // field, k, parity, points (0 integers, 1 roots of unity), data pattern, data seed,
    // domain variant (1 larger, 2 coset)
    vec![r.below(7), k, par, r.below(2), r.below(8), r.next(), r.below(4)]
}

fn data<F: Field>(plan: &Plan) -> Vec<F> {
    let k = plan.c(1) as usize;
    let mut r = Prng::new(plan.c(5));
    let pat = plan.c(4);
    (0..k)
        .map(|i| match pat {
            0..=3 => elem(&mut r, pat),
            4 => elem(&mut r, 9),
            5 => {
                // sparse: mostly zero, last element zero
                if i + 1 < k && r.chance(1, 4) {
                    elem(&mut r, 7)
                } else {
                    F::zero()
                }
            },
            _ => elem(&mut r, 7),
        })
        .collect()
}

/// A stored share: position and canonical bytes of the value.
struct Shares<F: Field> {
    data: Vec<F>,
    pts: Vec<F>,
    vals: Vec<F>,
}

fn encode_int<F: Field>(plan: &Plan, ctx: &mut Ctx) -> Shares<F> {
    let d = data::<F>(plan);
    let par = plan.c(2) as usize;
    let vals: Vec<F> = if plan.c(5) & 1 == 0 {
        ctx.must("erasure encode", || reed_solomon_erasure_encode(d.iter(), par).collect())
    } else {
        ctx.must("erasure encode", || reed_solomon_erasure_encode(d.clone(), par).collect())
    }
    .unwrap_or_default();
    let n = d.len() + par;
    ctx.check(vals.len() == n, "encode:share-count", || {
        format!("{} data elements and parity {par} gave {} shares", d.len(), vals.len())
    });
    let pts = (1..=n as u64).map(F::from).collect();
    Shares { data: d, pts, vals }
}

fn encode_rou<F: FftField>(plan: &Plan) -> (Shares<F>, Radix2EvaluationDomain<F>) {
    let d = data::<F>(plan);
    let n = d.len() + plan.c(2) as usize;
    // sometimes a larger domain than needed, sometimes a coset
    let more = if plan.c(6) & 1 == 1 { n * 3 } else { n };
    let mut dom = Radix2EvaluationDomain::<F>::new(more.max(1)).expect("domain");
    if plan.c(6) & 2 == 2 {
        dom = dom.get_coset(F::from(2 + plan.c(5) % 1000)).expect("coset");
    }
    let vals = dom.fft(&d);
    let pts = dom.elements().collect();
    (Shares { data: d, pts, vals }, dom)
}

enum Mode<'a, F: FftField> {
    Int,
    Rou(&'a Radix2EvaluationDomain<F>),
}

fn decode<F: Field>(ctx: &mut Ctx, s: &[(F, F)], k: usize, by_ref: bool) -> Option<Result<Vec<F>, String>> {
    ctx.must("erasure decode", || {
        if by_ref {
            reed_solomon_erasure_decode(s.iter(), k)
        } else {
            reed_solomon_erasure_decode(s.iter().map(|(a, b)| (a, b)), k)
        }
        .map_err(|e| e.to_string())
    })
}
fn decode_rou<F: FftField>(
    ctx: &mut Ctx,
    s: &[(usize, F)],
    k: usize,
    d: &Radix2EvaluationDomain<F>,
    by_ref: bool,
) -> Option<Result<Vec<F>, String>> {
    ctx.must("erasure decode (roots of unity)", || {
        if by_ref {
            reed_solomon_erasure_decode_rou(s.iter(), k, d)
        } else {
            reed_solomon_erasure_decode_rou(s.to_vec(), k, d)
        }
        .map_err(|e| e.to_string())
    })
}

struct Node<F> {
    file: SimFile,
    share: Option<(usize, F)>,
}

/// Message: (position, value bytes).
fn run_dispersal<F: Field>(
    plan: &Plan,
    ctx: &mut Ctx,
    sh: &Shares<F>,
    mut dec: impl FnMut(&mut Ctx, &[usize], &[F], usize) -> Option<Result<Vec<F>, String>>,
) {
    let n = sh.vals.len();
    let k = sh.data.len();
    let mut nodes: Vec<Node<F>> =
        (0..n).map(|_| Node { file: SimFile::default(), share: None }).collect();
    let load = |b: &[u8]| -> Option<(usize, F)> {
        if b.len() < 8 {
            return None;
        }
        let i = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        F::deserialize_compressed(&b[8..]).ok().map(|v| (i, v))
    };
    // initial dispersal: every node receives and durably stores its share
    for (i, nd) in nodes.iter_mut().enumerate() {
        let mut m = (i as u64).to_le_bytes().to_vec();
        m.extend(bytes_of(&sh.vals[i]));
        nd.file.write_all(&m);
        nd.share = load(&m);
        if i < k {
            nd.file.sync(); // at least k nodes acknowledged
        }
    }
    let mut inflight: Vec<(usize, F)> = vec![];
    let mut got: Vec<(usize, F)> = vec![];
    let mut attempt = |ctx: &mut Ctx, got: &[(usize, F)]| {
        let idx: Vec<usize> = got.iter().map(|x| x.0).collect();
        let val: Vec<F> = got.iter().map(|x| x.1).collect();
        if got.len() < k || got.is_empty() {
            return;
        }
        if let Some(r) = dec(ctx, &idx, &val, k) {
            match r {
                Ok(v) => {
                    ctx.event("decoded", &bytes_of(&v));
                    ctx.check(v == sh.data, "recovery:wrong-data", || {
                        format!(
                            "k={k} n={n}: decoding the shares at positions {idx:?} gave other data than was encoded"
                        )
                    });
                },
                Err(e) => {
                    ctx.violate(
                        "recovery:refused",
                        format!("k={k} n={n}: decoding distinct shares at {idx:?} failed: {e}"),
                    );
                },
            }
        }
        ctx.state(hash_bytes(k as u64, &idx.iter().map(|x| *x as u8).collect::<Vec<_>>()));
    };
    for op in &plan.ops {
        match op.k.as_str() {
            "crash" => {
                let i = op.usize(0) % n;
                let others = nodes.iter().enumerate().filter(|(j, x)| *j != i && x.share.is_some()).count();
                if others < k && nodes[i].file.durable != nodes[i].file.volatile {
                    continue; // stay within the tolerated loss
                }
                let f = nodes[i].file.crash(op.arg(1), op.arg(2));
                nodes[i].share = load(&nodes[i].file.durable).filter(|s| s.0 == i && s.1 == sh.vals[i]);
                ctx.fault(f);
            },
            "lose_node" => {
                let i = op.usize(0) % n;
                // stay within the tolerated loss
                let alive = nodes.iter().filter(|x| x.share.is_some()).count();
                if nodes[i].share.is_some() && alive > k {
                    nodes[i].share = None;
                    nodes[i].file = SimFile::default();
                    ctx.fault("node_lost");
                }
            },
            "send" => {
                let i = op.usize(0) % n;
                if let Some(s) = nodes[i].share {
                    inflight.push(s);
                    ctx.event("send", &(i as u64).to_le_bytes());
                }
            },
            "dup" => {
                if !inflight.is_empty() {
                    let s = inflight[op.usize(0) % inflight.len()];
                    inflight.push(s);
                    ctx.fault("msg_duplicated");
                }
            },
            "drop" => {
                if !inflight.is_empty() {
                    let i = op.usize(0) % inflight.len();
                    inflight.swap_remove(i);
                    ctx.fault("msg_lost");
                }
            },
            "deliver" => {
                if !inflight.is_empty() {
                    let i = op.usize(0) % inflight.len();
                    if i > 0 {
                        ctx.fault("msg_reordered");
                    }
                    let s = inflight.remove(i);
                    if !got.iter().any(|g| g.0 == s.0) {
                        got.push(s);
                    }
                }
            },
            "collector_crash" => {
                got.clear();
                ctx.fault("collector_restart");
            },
            "decode" => attempt(ctx, &got),
            _ => {},
        }
    }
    // heal: every surviving node's share reaches the collector, in a seeded order
    let mut rest: Vec<(usize, F)> = nodes.iter().filter_map(|x| x.share).collect();
    let mut r = Prng::new(plan.c(5) ^ 5);
    r.shuffle(&mut rest);
    let have: std::collections::BTreeSet<usize> = got.iter().map(|g| g.0).collect();
    got.extend(rest.into_iter().filter(|s| !have.contains(&s.0)));
    if r.chance(1, 2) {
        // the shares that arrived last are used first
        got.reverse();
    }
    if r.chance(1, 4) {
        got.sort_by_key(|g| std::cmp::Reverse(g.0));
    }
    ctx.check(got.len() >= k, "harness:too-few-survivors", || "world bug".into());
    attempt(ctx, &got);
    got.truncate(k);
    attempt(ctx, &got);
    // late copies and corrupted late shares come after k good ones
    for _ in 0..r.range(1, 4) {
        let p = match r.below(3) {
            0 if k > 0 => got[r.below(got.len() as u64) as usize].0,
            _ => r.below(n as u64) as usize,
        };
        let mut v = sh.vals[p];
        if r.chance(1, 2) {
            v = elem(&mut r, 9);
            ctx.fault("late_share_corrupted");
        } else {
            ctx.fault("msg_duplicated");
        }
        got.push((p, v));
    }
    attempt(ctx, &got);
}

fn exec01<F: FftField>(plan: &Plan, ctx: &mut Ctx) {
    let by_ref = plan.c(5) & 2 == 0;
    if plan.c(3) == 0 {
        let sh = encode_int::<F>(plan, ctx);
        run_dispersal(plan, ctx, &sh, |ctx, idx, val, k| {
            let s: Vec<(F, F)> = idx.iter().zip(val).map(|(&i, &v)| (sh.pts[i], v)).collect();
            decode(ctx, &s, k, by_ref)
        });
    } else {
        let (sh, dom) = encode_rou::<F>(plan);
        run_dispersal(plan, ctx, &sh, |ctx, idx, val, k| {
            let s: Vec<(usize, F)> = idx.iter().copied().zip(val.iter().copied()).collect();
            let r = decode_rou(ctx, &s, k, &dom, by_ref);
            // the general decoder over explicit points must agree
            let g: Vec<(F, F)> = idx.iter().zip(val).map(|(&i, &v)| (sh.pts[i], v)).collect();
            if let (Some(Ok(a)), Some(Ok(b))) = (&r, decode(ctx, &g, k, by_ref)) {
                ctx.check(*a == b, "recovery:decoders-disagree", || {
                    format!("k={k}: index decoder and point decoder differ at {idx:?}")
                });
            }
            r
        });
    }
}

fn exec01_ext<F: Field>(plan: &Plan, ctx: &mut Ctx) {
    let sh = encode_int::<F>(plan, ctx);
    run_dispersal(plan, ctx, &sh, |ctx, idx, val, k| {
        let s: Vec<(F, F)> = idx.iter().zip(val).map(|(&i, &v)| (sh.pts[i], v)).collect();
        decode(ctx, &s, k, true)
    });
}

impl World for U01 {
    fn property(&self) -> &'static str {
        "U01"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (40_000, 25) } else { (2_000_000, 240) }
    }
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let cfg = gen_common(r, tier);
        let n = cfg[1] + cfg[2];
        let mut ops = vec![];
        let w = [r.below(4), r.below(4), r.below(4), r.below(4), 4 + r.below(6), 4 + r.below(6), r.below(2)];
        let names = ["crash", "lose_node", "dup", "drop", "send", "deliver", "decode"];
        let tot: u64 = w.iter().sum();
        let len = r.range(0, 3 * n.min(60) + 8);
        for _ in 0..len {
            let mut x = r.below(tot);
            let mut i = 0;
            while x >= w[i] {
                x -= w[i];
                i += 1;
            }
            let node = match r.below(4) {
                0 => n.saturating_sub(1 + r.below(6)),
                _ => r.below(n.max(1)),
            };
            ops.push(Op::new(names[i], &[node, r.below(4), r.below(1 << 20)]));
        }
        if r.chance(1, 4) && !ops.is_empty() {
            let at = r.below(ops.len() as u64) as usize;
            ops.insert(at, Op::new("collector_crash", &[]));
        }
        Plan { cfg, ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        match p.c(0) {
            0 => exec01::<ark_bn254::Fr>(p, ctx),
            1 => exec01::<ark_bls12_381::Fr>(p, ctx),
            2 => exec01::<ark_bls12_377::Fr>(p, ctx),
            3 => exec01::<Goldilocks>(p, ctx),
            4 => exec01_ext::<ark_bn254::Fq2>(p, ctx),
            5 => exec01_ext::<M107>(p, ctx),
            _ => exec01_ext::<ark_bls12_381::Fq6>(p, ctx),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one dispersal: seeded data, field, k and n, then a seeded sequence of sends, losses, duplicates, reorderings, node crashes and losses within the tolerance; non-trivial = at least one fault or one decode of k or more shares; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUB
    }
}

fn exec02<F: FftField>(plan: &Plan, ctx: &mut Ctx) {
    let rou = plan.c(3) == 1;
    let (sh, dom) = if rou {
        let (s, d) = encode_rou::<F>(plan);
        (s, Some(d))
    } else {
        (encode_int::<F>(plan, ctx), None)
    };
    let m = match &dom {
        Some(d) => Mode::Rou(d),
        None => Mode::Int,
    };
    bad_sets(plan, ctx, &sh, m)
}

fn bad_sets<F: FftField>(plan: &Plan, ctx: &mut Ctx, sh: &Shares<F>, mode: Mode<F>) {
    let n = sh.vals.len();
    let k = sh.data.len();
    let by_ref = plan.c(5) & 2 == 0;
    for (opi, op) in plan.ops.iter().enumerate() {
        let mut r = Prng::new(op.arg(2));
        // what the collector ended up with, in arrival order
        let mut order: Vec<usize> = (0..n).collect();
        if op.arg(2) != 0 {
            r.shuffle(&mut order);
        }
        let mut s: Vec<(usize, F)> = order.iter().map(|&i| (i, sh.vals[i])).collect();
        let mut want = k;
        let why;
        match op.k.as_str() {
            "too_few" => {
                s.truncate(op.usize(0) % k);
                if op.arg(1) & 1 == 1 && !s.is_empty() {
                    // duplicates cannot make up for missing shares... unless they fill the
                    // count, which is the repeated-position case below
                    let d = s[0];
                    if s.len() + 1 < k {
                        s.push(d);
                    }
                }
                ctx.fault("msg_lost");
                why = "fewer shares than data elements";
            },
            "ask_too_much" => {
                want = match op.arg(1) % 4 {
                    0 => n + 1,
                    1 => n + 1 + op.usize(0) % 1000,
                    2 => usize::MAX,
                    _ => usize::MAX - 1 - op.usize(0) % 1000,
                };
                why = "more elements requested than shares exist";
            },
            "repeat" => {
                if k < 2 {
                    continue;
                }
                s.truncate(k.max(op.usize(1) % (n + 1)));
                let i = op.usize(0) % k;
                let mut j = op.usize(1) % k;
                if i == j {
                    j = (i + 1) % k;
                }
                s[j].0 = s[i].0;
                if op.arg(2) & 1 == 0 {
                    s[j].1 = s[i].1; // exact duplicate
                }
                ctx.fault("msg_duplicated");
                why = "a position occurs twice among the first shares";
            },
            "out_of_range" => {
                let Mode::Rou(d) = &mode else { continue };
                let at = op.usize(0) % s.len();
                let off = match op.arg(1) % 5 {
                    0 => d.size(),
                    1 => d.size() + 1 + op.usize(0) % 50,
                    2 => usize::MAX,
                    3 => d.size() * 2,
                    _ => usize::MAX - d.size() + 1,
                };
                s[at].0 = off;
                ctx.fault("msg_corrupted_index");
                why = "a position outside the domain";
            },
            "nothing" => {
                s.clear();
                ctx.fault("msg_lost");
                why = "no shares at all";
            },
            _ => continue,
        }
        let res = match &mode {
            Mode::Int => {
                let g: Vec<(F, F)> = s.iter().map(|&(i, v)| (sh.pts[i], v)).collect();
                decode(ctx, &g, want, by_ref)
            },
            Mode::Rou(d) => decode_rou(ctx, &s, want, d, by_ref),
        };
        ctx.state(mix(&[k as u64, n as u64, op.arg(0), hash_bytes(0, op.k.as_bytes())]));
        if let Some(r) = res {
            ctx.event(&op.k, &[r.is_ok() as u8]);
            ctx.check(r.is_err(), &format!("inadequate-shares-accepted:{}", op.k), || {
                format!(
                    "op {opi}: {why}: k={want}, positions {:?} decoded without error",
                    s.iter().map(|x| x.0).collect::<Vec<_>>()
                )
            });
        }
    }
}

impl World for U02 {
    fn property(&self) -> &'static str {
        "U02"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (80_000, 20) } else { (2_000_000, 180) }
    }
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let mut cfg = gen_common(r, tier);
        cfg[0] = r.below(5);
        cfg[1] = cfg[1].max(1);
        let names = ["too_few", "repeat", "out_of_range", "ask_too_much", "nothing"];
        let ops = (0..r.range(1, 12))
            .map(|_| {
                Op::new(names[r.below(5) as usize], &[r.below(4096), r.below(4096), r.next() % (1 << 32)])
            })
            .collect();
        Plan { cfg, ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        match p.c(0) {
            0 => exec02::<ark_bn254::Fr>(p, ctx),
            1 => exec02::<ark_bls12_381::Fr>(p, ctx),
            2 => exec02::<ark_bls12_377::Fr>(p, ctx),
            3 => exec02::<Goldilocks>(p, ctx),
            _ => exec02::<ark_bn254::Fr>(p, ctx),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = one dispersal followed by a seeded sequence of inadequate share sets left behind by losses, duplicates and corrupted positions; non-trivial = at least one decode attempt; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUB
    }
}
