//! U04: canonical encodings over faulty storage.
use crate::fields::*;
use ark_bls12_381::{Fr, G1Affine, G2Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_serialize::{
    CanonicalDeserialize, CanonicalSerialize, Compress, SerializationError, Valid, Validate,
};
use jf_utils::{canonical, deserialize_canonical_bytes, to_bytes, CanonicalBytes};
use serde::{Deserialize, Serialize};
use sim::{
    disk::{damage, IoFaults, SimFile, SimReader, SimWriter},
    *,
};
use tagged_base64::TaggedBase64;

pub struct U04;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Record {
    #[serde(with = "canonical")]
    a: Fr,
    #[serde(with = "canonical")]
    b: Vec<Fr>,
    #[serde(with = "canonical")]
    p: G1Affine,
    #[serde(with = "canonical")]
    q: Vec<G2Affine>,
    note: String,
}

#[derive(Clone, Debug, PartialEq, CanonicalSerialize, CanonicalDeserialize, Serialize, Deserialize)]
#[serde(from = "CanonicalBytes", into = "CanonicalBytes")]
struct Wrapped {
    a: Fr,
    v: Vec<Fr>,
    p: G1Affine,
}
deserialize_canonical_bytes!(Wrapped);

/// A value whose own encoder fails on demand, after some bytes.
#[derive(Clone, Debug, PartialEq)]
struct Fragile(bool, u8);
impl CanonicalSerialize for Fragile {
    fn serialize_with_mode<W: ark_serialize::Write>(
        &self,
        mut w: W,
        _: Compress,
    ) -> Result<(), SerializationError> {
        for i in 0..self.1 {
            w.write_all(&[i])?;
        }
        if self.0 {
            return Err(SerializationError::InvalidData);
        }
        w.write_all(&[255])?;
        Ok(())
    }
    fn serialized_size(&self, _: Compress) -> usize {
        1 + self.1 as usize
    }
}
impl Valid for Fragile {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for Fragile {
    fn deserialize_with_mode<R: ark_serialize::Read>(
        mut r: R,
        _: Compress,
        _: Validate,
    ) -> Result<Self, SerializationError> {
        let (mut b, mut n) = ([0], 0);
        loop {
            r.read_exact(&mut b)?;
            if b[0] == 255 {
                return Ok(Fragile(false, n));
            }
            n += 1;
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct FragileRec {
    #[serde(with = "canonical")]
    f: Fragile,
}

fn record(r: &mut Prng) -> Record {
    let n = r.size(9);
    let g = G1Affine::generator();
    let h = G2Affine::generator();
    Record {
        a: elem(r, 9),
        b: (0..n).map(|_| elem(r, 9)).collect(),
        p: (g * elem::<Fr>(r, 9)).into_affine(),
        q: (0..r.below(3)).map(|_| (h * elem::<Fr>(r, 9)).into_affine()).collect(),
        note: "x".repeat(r.below(4) as usize),
    }
}

fn exec(plan: &Plan, ctx: &mut Ctx) {
    let mut cur = record(&mut Prng::new(plan.c(0)));
    // (file, format, what was written, bytes as written)
    let mut file = SimFile::default();
    let mut fmt = 0u64;
    let mut written: Option<(Record, Vec<u8>)> = None;
    for op in &plan.ops {
        match op.k.as_str() {
            "change" => cur = record(&mut Prng::new(op.arg(0))),
            "save" => {
                fmt = op.arg(0) % 2;
                let f = IoFaults {
                    seed: op.arg(1),
                    short: op.arg(2) & 1 == 1,
                    interrupt: op.arg(2) & 2 == 2,
                    fail_at: (op.arg(2) & 12 == 12).then_some(op.arg(3) % 2000),
                    fail_kind: op.arg(4) % 3,
                };
                let mut w = SimWriter::new(f);
                let r = ctx.must("save", || {
                    if fmt == 0 {
                        serde_json::to_writer(&mut w, &cur).map_err(|e| e.to_string())
                    } else {
                        bincode::serialize_into(&mut w, &cur).map_err(|e| e.to_string())
                    }
                });
                ctx.io(&w.count);
                let Some(r) = r else { return };
                ctx.check(r.is_err() == (w.count.failed > 0), "save:error-not-reported", || {
                    format!("storage failed {} times, save returned {r:?}", w.count.failed)
                });
                file.write_all(&w.data);
                if r.is_ok() {
                    if op.arg(5) & 1 == 0 {
                        file.sync();
                    }
                    written = Some((cur.clone(), w.data.clone()));
                } else {
                    written = None;
                }
                ctx.event("saved", &w.data);
            },
            "crash" => {
                let k = file.crash(op.arg(0), op.arg(1));
                ctx.fault(k);
            },
            "rot" => {
                let k = damage(&mut file.durable, op.arg(0), op.arg(1));
                file.volatile = file.durable.clone();
                ctx.fault(k);
            },
            "retag" => {
                // another type's tag on a perfectly good payload
                let a: Fr = cur.a;
                let tag = ["FIELX", "FIELDS", "", "field", "TX", "FIEL", "XFIELD", "SIG", "FIELD-FIELD", "F"][op.usize(0) % 10];
                let t = TaggedBase64::new(tag, &bytes_of(&a)).unwrap();
                let (js, bin) = (serde_json::to_vec(&t).unwrap(), bincode::serialize(&t).unwrap());
                ctx.fault("wrong_tag");
                #[derive(Deserialize, Debug)]
                #[serde(transparent)]
                struct One(#[serde(with = "canonical")] Fr);
                let x = ctx.must("load mis-tagged", || serde_json::from_slice::<One>(&js).is_ok());
                let y = ctx.must("load mis-tagged", || bincode::deserialize::<One>(&bin).is_ok());
                ctx.check(x == Some(false) && y == Some(false), "load:wrong-tag-accepted", || {
                    format!("a value tagged {tag:?} was loaded")
                });
                // payload variants under the right tag: the loaded value is what the payload says
                let mut b = bytes_of(&a);
                let k = damage(&mut b, op.arg(1), op.arg(2));
                ctx.fault(k);
                let t = TaggedBase64::new("FIELD", &b).unwrap();
                let js = serde_json::to_vec(&t).unwrap();
                if let Some(Ok(One(v))) = ctx.must("load altered", || serde_json::from_slice::<One>(&js)) {
                    let vb = bytes_of(&v);
                    ctx.check(b.starts_with(&vb), "load:value-differs-from-payload", || {
                        format!("payload {b:02x?} was loaded as {vb:02x?}")
                    });
                }
            },
            "load" => {
                let f = IoFaults {
                    seed: op.arg(1),
                    short: op.arg(2) & 1 == 1,
                    interrupt: op.arg(2) & 2 == 2,
                    fail_at: (op.arg(2) & 12 == 12).then_some(op.arg(3) % 2000),
                    fail_kind: 0,
                };
                let mut rd = SimReader::new(file.durable.clone(), f);
                let r = ctx.must("load", || {
                    if fmt == 0 {
                        serde_json::from_reader::<_, Record>(&mut rd).map_err(|e| e.to_string())
                    } else {
                        bincode::deserialize_from::<_, Record>(&mut rd).map_err(|e| e.to_string())
                    }
                });
                ctx.io(&rd.count);
                let Some(r) = r else { return };
                ctx.event("load", &[r.is_ok() as u8]);
                match &r {
                    Ok(v) => {
                        ctx.state(hash_bytes(2, &serde_json::to_vec(v).unwrap_or_default()));
                        // well-formed: it can be saved and loaded again
                        let again = ctx.must("reload", || {
                            serde_json::to_vec(v).ok().and_then(|b| serde_json::from_slice::<Record>(&b).ok())
                        });
                        ctx.check(again.flatten().as_ref() == Some(v), "load:malformed-value", || {
                            format!("a loaded value does not survive saving and loading: {v:?}")
                        });
                    },
                    Err(_) => {},
                }
                if let Some((v, bytes)) = &written {
                    if *bytes == file.durable && rd.count.failed == 0 {
                        ctx.check(r.as_ref().ok() == Some(v), "load:intact-value-lost", || {
                            format!("all bytes survived but loading gave {r:?} instead of {v:?}")
                        });
                    }
                }
            },
            "bytes" => {
                let w = Wrapped { a: cur.a, v: cur.b.clone(), p: cur.p };
                let direct = bytes_of(&w);
                let Some(cb) = ctx.must("canonical bytes", || CanonicalBytes::from(w.clone())) else { return };
                ctx.check(cb.0 == direct, "bytes:wrapper-differs", || "wrapper bytes differ from the canonical bytes".into());
                let Some(tb) = ctx.must("to_bytes", || to_bytes!(&w)) else { return };
                ctx.check(tb.ok().as_ref() == Some(&direct), "bytes:macro-differs", || "macro bytes differ from the canonical bytes".into());
                let Some(back) = ctx.must("from canonical bytes", || Wrapped::from(cb)) else { return };
                ctx.check(back == w, "bytes:not-inverted", || format!("{w:?} came back as {back:?}"));
                let mut wr = SimWriter::new(IoFaults { seed: op.arg(0), short: true, interrupt: true, ..Default::default() });
                let r = ctx.must("save wrapped", || serde_json::to_writer(&mut wr, &w).is_ok());
                ctx.io(&wr.count);
                let rd = SimReader::new(wr.data.clone(), IoFaults { seed: op.arg(1), short: true, interrupt: true, ..Default::default() });
                let back = ctx.must("load wrapped", || serde_json::from_reader::<_, Wrapped>(rd).ok());
                ctx.check(r == Some(true) && back == Some(Some(w.clone())), "bytes:storage-round-trip", || {
                    format!("{w:?} came back as {back:?}")
                });
                let bin = bincode::serialize(&w).ok().and_then(|b| bincode::deserialize::<Wrapped>(&b).ok());
                ctx.check(bin.as_ref() == Some(&w), "bytes:storage-round-trip", || format!("{w:?} came back as {bin:?}"));
            },
            "fragile" => {
                let bad = op.arg(0) & 1 == 1;
                if bad {
                    ctx.fault("encoder_error");
                }
                let x = FragileRec { f: Fragile(bad, (op.arg(0) >> 1) as u8 % 40) };
                let Some(r) = ctx.must("save failing value", || serde_json::to_vec(&x).is_ok()) else { return };
                ctx.check(r != bad, "save:error-not-reported", || format!("encoder failed={bad}, save ok={r}"));
                let Some(r) = ctx.must("to_bytes failing value", || to_bytes!(&x.f).is_ok()) else { return };
                ctx.check(r != bad, "save:error-not-reported", || format!("encoder failed={bad}, bytes ok={r}"));
            },
            _ => {},
        }
    }
}

impl World for U04 {
    fn property(&self) -> &'static str {
        "U04"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (30_000, 20) } else { (2_000_000, 200) }
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let names = ["change", "save", "save", "crash", "rot", "retag", "load", "load", "bytes", "fragile"];
        let ops = (0..r.range(2, 14))
            .map(|_| {
                let a: Vec<u64> = (0..6).map(|_| r.below(1 << 16)).collect();
                Op::new(names[r.below(10) as usize], &a)
            })
            .collect();
        Plan { cfg: vec![r.below(1 << 32)], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        exec(p, ctx)
    }
    fn rule(&self) -> &'static str {
        "one run = a seeded sequence of saves, loads, crashes and bit rot of records in JSON and bincode over a faulty disk, plus mis-tagged and altered payloads; non-trivial = at least one fault; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-utils serializers", "serde_json", "bincode", "tagged-base64", "ark-serialize"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["storage (simulated files)"]
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
}
