//! Field elements, and carrying values between simulated parties.
use ark_ff::PrimeField;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use serde::{de::DeserializeOwned, Serialize};
use sim::{
    disk::{damage, IoFaults, SimFile, SimReader, SimWriter},
    *,
};
use std::{
    fmt::{Debug, Display},
    str::FromStr,
};

/// A field element, biased to the edges of the field.
pub fn elem<F: PrimeField>(r: &mut Prng) -> F {
    match r.below(8) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::from(1 + r.below(3)),
        3 => F::from(r.next()),
        4 => F::from(r.below(5)),
        _ => F::from_le_bytes_mod_order(&r.bytes(96)),
    }
}
pub fn elems<F: PrimeField>(r: &mut Prng, n: usize) -> Vec<F> {
    (0..n).map(|_| elem(r)).collect()
}
pub fn by<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).unwrap();
    v
}
pub fn e2s<T, E: Debug>(x: Result<T, E>) -> Result<T, String> {
    x.map_err(|e| format!("{e:?}"))
}

/// Makes the calling thread its own pool, for worlds about values only.
pub fn alone() {
    let p = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().expect("pool");
    std::mem::forget(p);
}

/// What a carrier does to a value: a format, I/O behaviour and a fault.
#[derive(Clone, Copy)]
pub struct Trip {
    pub fmt: u64,
    pub io: u64,
    pub seed: u64,
    /// 0-3 none, 4 write fails, 5 read fails, 6 damage, 7 crash before sync
    pub fault: u64,
    /// The third-party encoder of booleans does not retry an interrupted write.
    pub bools: bool,
}
impl Trip {
    pub fn new(a: u64, fault: u64) -> Self {
        Self { fmt: a & 7, io: (a >> 3) & 3, seed: mix(&[a, 77]), fault, bools: false }
    }
    pub fn honest(a: u64) -> Self {
        Self::new(a, 0)
    }
    fn faults(&self, fail: bool, size: usize) -> IoFaults {
        IoFaults {
            seed: self.seed,
            short: self.io & 1 == 1,
            interrupt: self.io & 2 == 2,
            fail_at: fail.then(|| mix(&[self.seed, 1]) % (size as u64).max(1)),
            fail_kind: self.seed % 3,
        }
    }
}

/// What arrived.
pub enum Got<T> {
    Whole(T),
    /// Changed on the way; decoded or refused.
    Damaged(Result<T, String>),
    /// The carrier reported an error, as it should.
    Failed,
}

pub trait Canon: CanonicalSerialize + CanonicalDeserialize + PartialEq {}
impl<T: CanonicalSerialize + CanonicalDeserialize + PartialEq> Canon for T {}
pub trait Enc: Canon + Serialize + DeserializeOwned + Clone {}
impl<T: Canon + Serialize + DeserializeOwned + Clone> Enc for T {}

type Write1<'a, T> = &'a dyn Fn(&T, &mut SimWriter) -> Result<(), String>;
type Read1<'a, T> = &'a dyn Fn(&mut SimReader) -> Result<T, String>;

/// Writes, loses or damages, reads back.
pub fn trip<T>(
    ctx: &mut Ctx,
    t: Trip,
    what: &str,
    x: &T,
    size: Option<usize>,
    write: Write1<T>,
    read: Read1<T>,
) -> Option<Got<T>> {
    let mut w = SimWriter::new(t.faults(false, 0));
    let ok = ctx.must("encode", || write(x, &mut w))?;
    ctx.io(&w.count);
    ctx.event(what, &w.data);
    if t.bools && ok.as_ref().is_err_and(|e| e.contains("EINTR")) {
        ctx.mark("interrupted write reported");
        return Some(Got::Failed);
    }
    if !ctx.check(ok.is_ok(), &format!("encode:{what}"), || format!("encoding {what} failed: {ok:?}")) {
        return None;
    }
    if let Some(n) = size {
        ctx.check(w.data.len() == n, &format!("size:{what}"), || {
            format!("{what}: {} bytes written, {n} announced", w.data.len())
        });
    }
    let len = w.data.len();
    if t.fault == 4 {
        let mut w = SimWriter::new(t.faults(true, len));
        let ok = ctx.must("encode", || write(x, &mut w))?;
        ctx.io(&w.count);
        ctx.check(ok.is_err() || len == 0, "lost-write-error", || format!("writing {what} to a failed disk succeeded"));
        return Some(Got::Failed);
    }
    let mut file = SimFile::default();
    file.write_all(&w.data);
    match t.fault {
        6 => ctx.fault(damage(&mut file.volatile, t.seed >> 8, t.seed)),
        7 => {
            let k = file.crash(t.seed >> 8, t.seed);
            ctx.fault(k)
        },
        _ => {
            file.sync();
            let k = file.crash(0, t.seed);
            ctx.fault(k)
        },
    }
    let whole = file.volatile == w.data;
    let mut rd = SimReader::new(file.volatile, t.faults(t.fault == 5, len));
    let y = ctx.must("decode", || read(&mut rd))?;
    ctx.io(&rd.count);
    if rd.count.failed > 0 {
        ctx.check(y.is_err(), "lost-read-error", || format!("{what} read from a failing disk"));
        return Some(Got::Failed);
    }
    if !whole {
        return Some(Got::Damaged(y));
    }
    match y {
        Ok(y) => Some(Got::Whole(y)),
        Err(e) => {
            ctx.violate(&format!("reload:{what}"), format!("{what} cannot be read back: {e}"));
            None
        },
    }
}

/// Canonical form, compressed or not.
pub fn carry_canon<T: CanonicalSerialize + CanonicalDeserialize>(
    ctx: &mut Ctx,
    t: Trip,
    what: &str,
    x: &T,
) -> Option<Got<T>> {
    let c = if t.fmt & 1 == 1 { Compress::Yes } else { Compress::No };
    trip(
        ctx,
        t,
        what,
        x,
        Some(x.serialized_size(c)),
        &|x, w| e2s(x.serialize_with_mode(w, c)),
        &|r| e2s(T::deserialize_with_mode(r, c, Validate::Yes)),
    )
}
/// JSON or bincode.
pub fn carry_serde<T: Serialize + DeserializeOwned>(ctx: &mut Ctx, t: Trip, what: &str, x: &T) -> Option<Got<T>> {
    if t.fmt & 1 == 1 {
        trip(ctx, t, what, x, None, &|x, w| e2s(serde_json::to_writer(w, x)), &|r| e2s(serde_json::from_reader(r)))
    } else {
        trip(ctx, t, what, x, None, &|x, w| e2s(bincode::serialize_into(w, x)), &|r| e2s(bincode::deserialize_from(r)))
    }
}
/// Any of canonical, serde and printed forms.
pub fn carry<T: Enc + Display + FromStr>(ctx: &mut Ctx, t: Trip, what: &str, x: &T) -> Option<Got<T>>
where
    <T as FromStr>::Err: Debug,
{
    match t.fmt {
        0..=3 => carry_canon(ctx, t, what, x),
        4 | 5 => carry_serde(ctx, t, what, x),
        _ => trip(
            ctx,
            t,
            what,
            x,
            None,
            &|x, w| e2s(std::io::Write::write_all(w, x.to_string().as_bytes())),
            &|r| {
                let mut s = String::new();
                e2s(std::io::Read::read_to_string(r, &mut s))?;
                e2s(T::from_str(&s))
            },
        ),
    }
}
/// Honest carriers deliver what was sent.
pub fn same<T: PartialEq>(ctx: &mut Ctx, what: &str, x: &T, g: Option<Got<T>>) -> Option<T> {
    match g? {
        Got::Whole(y) => {
            ctx.check(&y == x, &format!("reload:{what}"), || format!("{what} changed while carried"));
            Some(y)
        },
        _ => None,
    }
}
