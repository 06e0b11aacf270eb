//! C01 round trip, C02 layout, C03 hostile bytes, C04 rejection.

use crate::conv::*;
use crate::gen;
use crate::guard::Guarded;
use crate::layout::Enc;
use crate::model::*;
use crate::rng::Rng;
use crate::stats::{hex, short, Ctx};
use crate::{alloc, Prop};
use fuel_tx::{Create, Input, InstructionResult, Mint, Output, Receipt, Script, StorageSlot, Transaction, TxPointer, UtxoId, Witness};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::fmt::Debug;
use std::io::{self, Read, Write};

/// A wire type together with its model and its reference encoder.
pub trait Wire: SizedBytes + Read + Write + SerializableVec + Deserializable + Clone + PartialEq + Debug {
    const NAME: &'static str;
    type M: Clone + PartialEq + Debug;
    fn arb(r: &mut Rng) -> Self::M;
    fn real(m: &Self::M) -> Self;
    fn model(&self) -> Self::M;
    fn enc(m: &Self::M) -> Enc;
    fn blank() -> Self;
    fn variant(_m: &Self::M) -> &'static str {
        Self::NAME
    }
    /// Some(v') when the wire format is known to carry v as v' (listed finding), with its key.
    fn known_loss(&self) -> Option<(&'static str, Self)> {
        None
    }
}

fn e<F: FnOnce(&mut Enc)>(f: F) -> Enc {
    let mut x = Enc::new();
    f(&mut x);
    x
}

macro_rules! wire {
    ($t:ty, $name:literal, $m:ty, $arb:expr, $real:expr, $model:expr, $enc:expr, $var:expr) => {
        impl Wire for $t {
            const NAME: &'static str = $name;
            type M = $m;
            fn arb(r: &mut Rng) -> $m {
                ($arb)(r)
            }
            fn real(m: &$m) -> Self {
                ($real)(m)
            }
            fn model(&self) -> $m {
                ($model)(self)
            }
            fn enc(m: &$m) -> Enc {
                e(|x| ($enc)(x, m))
            }
            fn blank() -> Self {
                Default::default()
            }
            fn variant(m: &$m) -> &'static str {
                ($var)(m)
            }
        }
    };
}

wire!(Transaction, "Transaction", Tx, gen::arb_tx, r_tx, m_tx, enc_tx, |m: &Tx| m.kind());
wire!(
    Script,
    "Script",
    MScript,
    |r: &mut Rng| match gen::arb_tx_kind(r, 0) {
        Tx::Script(s) => s,
        _ => unreachable!(),
    },
    r_script,
    m_script,
    |x: &mut Enc, m: &MScript| enc_tx(x, &Tx::Script(m.clone())),
    |_: &MScript| "Script"
);
wire!(
    Create,
    "Create",
    MCreate,
    |r: &mut Rng| match gen::arb_tx_kind(r, 1) {
        Tx::Create(s) => s,
        _ => unreachable!(),
    },
    r_create,
    m_create,
    |x: &mut Enc, m: &MCreate| enc_tx(x, &Tx::Create(m.clone())),
    |_: &MCreate| "Create"
);
wire!(
    Mint,
    "Mint",
    MMint,
    |r: &mut Rng| match gen::arb_tx_kind(r, 2) {
        Tx::Mint(s) => s,
        _ => unreachable!(),
    },
    r_mint,
    m_mint,
    |x: &mut Enc, m: &MMint| enc_tx(x, &Tx::Mint(m.clone())),
    |_: &MMint| "Mint"
);
wire!(Input, "Input", In, gen::arb_in, r_in, m_in, enc_in, |m: &In| m.kind());
wire!(Output, "Output", Out, gen::arb_out, r_out, m_out, enc_out, |m: &Out| m.kind());
wire!(
    Witness,
    "Witness",
    Vec<u8>,
    gen::big_bytes,
    |m: &Vec<u8>| Witness::from(m.clone()),
    |w: &Witness| w.as_vec().clone(),
    |x: &mut Enc, m: &Vec<u8>| enc_wit(x, m),
    |_: &Vec<u8>| "Witness"
);
wire!(StorageSlot, "StorageSlot", Slot, gen::slot, r_slot, m_slot, enc_slot, |_: &Slot| "StorageSlot");
wire!(UtxoId, "UtxoId", Utxo, gen::utxo, r_utxo, m_utxo, enc_utxo, |_: &Utxo| "UtxoId");
wire!(TxPointer, "TxPointer", Txp, gen::txp, r_txp, m_txp, enc_txp, |_: &Txp| "TxPointer");

fn receipt_enc(x: &mut Enc, m: &Rc) {
    enc_receipt(x, m);
    // these two kinds reserve room for the id, pc and is they do not have
    if matches!(m, Rc::ScriptResult { .. } | Rc::MessageOut { .. }) {
        x.raw("reserved", &[0u8; 48]);
    }
}
impl Wire for Receipt {
    const NAME: &'static str = "Receipt";
    type M = Rc;
    fn arb(r: &mut Rng) -> Rc {
        gen::arb_receipt(r)
    }
    fn real(m: &Rc) -> Self {
        r_receipt(m)
    }
    fn model(&self) -> Rc {
        m_receipt(self)
    }
    fn enc(m: &Rc) -> Enc {
        e(|x| receipt_enc(x, m))
    }
    fn blank() -> Self {
        Receipt::ret(Default::default(), 0, 0, 0)
    }
    fn variant(m: &Rc) -> &'static str {
        m.kind()
    }
    fn known_loss(&self) -> Option<(&'static str, Self)> {
        let mut v = self.clone();
        if let Receipt::Panic { reason, .. } = &mut v {
            let carried = InstructionResult::from(u64::from(*reason));
            if carried != *reason {
                *reason = carried;
                return Some(("panic-instruction", v));
            }
        }
        None
    }
}

/// Run a generic function over one of the wire types.
macro_rules! dispatch {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            0 | 1 => $f::<Transaction>($($a),*),
            2 => $f::<Script>($($a),*),
            3 => $f::<Create>($($a),*),
            4 => $f::<Mint>($($a),*),
            5 => $f::<Input>($($a),*),
            6 => $f::<Output>($($a),*),
            7 => $f::<Witness>($($a),*),
            8 => $f::<StorageSlot>($($a),*),
            9 => $f::<UtxoId>($($a),*),
            10 => $f::<TxPointer>($($a),*),
            _ => $f::<Receipt>($($a),*),
        }
    };
}

// ---------------------------------------------------------------- C01 / C16 round trip

pub fn round_trip<T: Wire>(cx: &mut Ctx, r: &mut Rng, m: &T::M) {
    let name = T::variant(m);
    cx.hit(format!("rt.{}.{}", T::NAME, name));
    let v = T::real(m);
    let mut v1 = v.clone();
    let size = v.serialized_size();
    let bytes = v1.to_bytes();
    cx.ck(bytes.len() == size, || format!("{name}: to_bytes gave {} bytes, serialized_size says {size}", bytes.len()));
    cx.ck(v1.model() == *m, || format!("{name}: encoding changed the value to {}", short(&v1)));
    cx.shape(crate::rng::fnv(&bytes));
    match T::from_bytes(&bytes) {
        Ok(d) => {
            cx.ck(d.model() == *m, || format!("{name}: from_bytes(to_bytes(v)) has other fields: {} instead of {}", short(&d.model()), short(m)));
            cx.ck(d == v, || format!("{name}: from_bytes(to_bytes(v)) != v although the fields agree"));
            cx.ck(d.serialized_size() == size, || format!("{name}: decoded value reports size {} instead of {size}", d.serialized_size()));
        }
        Err(x) => cx.fail(format!("{name}: own encoding rejected: {x}; bytes {}", hex(&bytes[..bytes.len().min(400)]))),
    }
    // into a destination that already holds something, with bytes after the encoding
    let tail = match r.below(4) {
        0 => vec![0u8; 1 + r.idx(40)],
        1 => vec![0xffu8; 1 + r.idx(40)],
        2 => bytes.clone(),
        _ => {
            let n = r.idx(64);
            r.bytes(n)
        }
    };
    let mut dirty = if r.chance(1, 2) { T::real(&T::arb(r)) } else { T::blank() };
    // at any address
    let at = r.idx(8);
    let mut long = vec![0xa5; at];
    long.extend_from_slice(&bytes);
    long.extend_from_slice(&tail);
    let long = &long[at..];
    cx.hit(if long.as_ptr() as usize % 8 == 0 { "read from a word address" } else { "read from an odd address" });
    match dirty.write(long) {
        Ok(n) => {
            cx.ck(n == bytes.len(), || format!("{name}: decoding {} bytes plus a tail of {} consumed {n}", bytes.len(), tail.len()));
            cx.ck(dirty.model() == *m, || format!("{name}: bytes after the encoding (or the old value) changed the result: {}", short(&dirty.model())));
            cx.ck(dirty == v, || format!("{name}: decoded over another value: not equal"));
        }
        Err(x) => cx.fail(format!("{name}: own encoding plus tail rejected: {x}")),
    }
    cx.sample(|| format!("{} of {} bytes, tail {} bytes: {}", name, bytes.len(), tail.len(), hex(&bytes[..bytes.len().min(120)])));
}

fn rt_any<T: Wire>(cx: &mut Ctx, r: &mut Rng) {
    let m = T::arb(r);
    round_trip::<T>(cx, r, &m);
}

/// a list longer than any 16-bit count
fn tall(r: &mut Rng) -> Tx {
    let n = 65_530 + r.idx(12) + if r.chance(1, 4) { 65_536 } else { 0 };
    let k = r.below(5);
    let mut t = gen::arb_tx_kind(r, if k == 4 { 1 } else { [0, 1, 0, 2, 0][k as usize] });
    crate::m_misc::trim(&mut t, 3, 40);
    let seed = r.b32();
    let cell = |i: usize| {
        let mut b = seed;
        b[..8].copy_from_slice(&(i as u64).to_be_bytes());
        b
    };
    match (&mut t, k) {
        (Tx::Create(c), 4) => c.slots = (0..n).map(|i| Slot { key: cell(i), val: cell(i + 1) }).collect(),
        (t, 0) => *t.wits_mut().expect("wits") = (0..n).map(|i| vec![i as u8; i % 3]).collect(),
        (t, 2) => {
            *t.ins_mut().expect("ins") = (0..n)
                .map(|i| In::Contract { utxo: Utxo { tx: cell(i), idx: i as u8 }, broot: seed, sroot: seed, txp: Txp { height: i as u32, index: i as u16 }, cid: cell(i) })
                .collect()
        }
        (t, _) => *t.outs_mut() = (0..n).map(|i| Out::Coin { to: cell(i), amount: i as u64, asset: seed }).collect(),
    }
    t
}

fn c01(cx: &mut Ctx, r: &mut Rng) {
    if cx.index % 3001 == 17 {
        let t = tall(r);
        cx.hit("lists longer than 16-bit counts");
        let real = r_tx(&t);
        let bytes = real.clone().to_bytes();
        cx.eq("size of a long encoding", bytes.len(), real.serialized_size());
        match Transaction::from_bytes(&bytes) {
            Ok(d) => {
                cx.ck(d == real && m_tx(&d) == t, || format!("{} with {} slots or elements decodes to another value", t.kind(), t.wits().len().max(t.ins().len()).max(t.outs().len())));
            }
            Err(e) => cx.fail(format!("long encoding rejected: {e}")),
        }
        return;
    }
    // twelve draws per case; every kind of input and output is visited in turn
    let k = [0, 0, 2, 3, 4, 0, 7, 8, 9, 10][r.idx(10)];
    dispatch!(k, rt_any, cx, r);
    let ki = cx.index % 5;
    let m = gen::arb_in_kind(r, ki);
    round_trip::<Input>(cx, r, &m);
    let ko = cx.index % 6;
    let m = gen::arb_out_kind(r, ko);
    round_trip::<Output>(cx, r, &m);

    // the reporting decoder, and the wrapped type against the concrete one
    let t = gen::arb_tx(r);
    let real = r_tx(&t);
    let bytes = real.clone().to_bytes();
    let mut long = bytes.clone();
    let extra = r.idx(50);
    long.extend(r.bytes(extra));
    match Transaction::try_from_bytes(&long) {
        Ok((n, d)) => {
            cx.ck(n == bytes.len(), || format!("try_from_bytes consumed {n} of an encoding of {}", bytes.len()));
            cx.ck(m_tx(&d) == t, || format!("try_from_bytes gave {}", short(&d)));
            cx.ck(d == real, || "try_from_bytes: not equal".into());
        }
        Err(x) => cx.fail(format!("try_from_bytes rejected a valid encoding: {x}")),
    }
    let concrete = match &t {
        Tx::Script(s) => r_script(s).to_bytes(),
        Tx::Create(s) => r_create(s).to_bytes(),
        Tx::Mint(s) => r_mint(s).to_bytes(),
    };
    cx.ck(concrete == bytes, || format!("{}: the wrapped transaction encodes differently from the bare one", t.kind()));
    let other = match &t {
        Tx::Script(_) => Script::from_bytes(&long).map(|x| m_tx(&x.into())),
        Tx::Create(_) => Create::from_bytes(&long).map(|x| m_tx(&x.into())),
        Tx::Mint(_) => Mint::from_bytes(&long).map(|x| m_tx(&x.into())),
    };
    match other {
        Ok(x) => {
            cx.ck(x == t, || format!("{}: concrete decoder gave {}", t.kind(), short(&x)));
        }
        Err(x) => cx.fail(format!("{}: concrete decoder rejected: {x}", t.kind())),
    }

    // several transactions back to back
    if cx.index % 16 == 0 {
        let n = 2 + r.idx(4);
        let ts: Vec<Tx> = (0..n).map(|_| gen::arb_tx(r)).collect();
        let mut stream = Vec::new();
        for t in &ts {
            stream.extend(r_tx(t).to_bytes());
        }
        let mut at = 0;
        for t in &ts {
            match stream.get(at..).map(Transaction::try_from_bytes) {
                Some(Ok((n, d))) => {
                    cx.ck(m_tx(&d) == *t, || "a transaction in a stream decoded wrongly".into());
                    at += n;
                }
                Some(Err(x)) => {
                    cx.fail(format!("a transaction in a stream was rejected: {x}"));
                    break;
                }
                None => break,
            }
        }
        cx.ck(at == stream.len(), || format!("stream of {n} transactions: consumed {at} of {}", stream.len()));
        cx.hit("rt.stream");
    }
    // very many elements
    if cx.index % 512 == 7 {
        let t = gen::huge(r);
        round_trip::<Transaction>(cx, r, &t);
        cx.hit("rt.huge_counts");
    }
}

// ---------------------------------------------------------------- C02 layout

pub fn layout_of<T: Wire>(cx: &mut Ctx, r: &mut Rng, m: &T::M) {
    let name = T::variant(m);
    cx.hit(format!("layout.{}.{}", T::NAME, name));
    let want = T::enc(m);
    let v = T::real(m);
    let size = v.serialized_size();
    cx.eq(&format!("{name}: serialized_size"), size, want.buf.len());
    let got = v.clone().to_bytes();
    diff(cx, name, "to_bytes", &got, &want);
    // into a caller's buffer that held other bytes and is longer than needed
    let extra = match r.below(3) {
        0 => 0,
        1 => 1 + r.idx(8),
        _ => r.idx(100),
    };
    // at any address
    let at = r.idx(8);
    let fill = r.bytes(at + size + extra);
    let mut whole = fill.clone();
    let buf = &mut whole[at..];
    let fill = &fill[at..];
    cx.hit(if buf.as_ptr() as usize % 8 == 0 { "written to a word address" } else { "written to an odd address" });
    let mut v2 = v.clone();
    match v2.read(buf) {
        Ok(n) => {
            cx.ck(n == size, || format!("{name}: encoding into a buffer reported {n}, size is {size}"));
            diff(cx, name, "read into a used buffer", &buf[..size], &want);
            cx.ck(buf[size..] == fill[size..], || format!("{name}: encoding wrote past its {size} bytes"));
        }
        Err(x) => cx.fail(format!("{name}: encoding into {} bytes failed: {x}", buf.len())),
    }
    // and over the complement: no byte may be left to chance
    let mut buf: Vec<u8> = fill.iter().map(|b| !b).collect();
    if v2.read(&mut buf).is_ok() {
        diff(cx, name, "read into the complement", &buf[..size], &want);
        cx.ck(buf[size..].iter().zip(&fill[size..]).all(|(a, b)| *a == !*b), || format!("{name}: encoding wrote past its {size} bytes"));
    }
    cx.add("bytes_compared", 3 * size as u64);
    cx.shape(crate::rng::fnv(&want.buf));
    cx.sample(|| format!("{} {} bytes: {}", name, size, hex(&got[..got.len().min(120)])));
}

fn diff(cx: &mut Ctx, name: &str, what: &str, got: &[u8], want: &Enc) {
    cx.ck(got == &want.buf[..], || {
        let k = got.iter().zip(&want.buf).position(|(a, b)| a != b).unwrap_or(got.len().min(want.buf.len()));
        let f = want.spans.iter().filter(|s| s.off <= k && k < s.off + s.len.max(1)).last().map(|s| s.path.clone()).unwrap_or("padding".into());
        format!("{name}: {what} differs from the layout at byte {k} ({f}); lengths {} and {}", got.len(), want.buf.len())
    });
}

fn layout_any<T: Wire>(cx: &mut Ctx, r: &mut Rng) {
    let m = T::arb(r);
    layout_of::<T>(cx, r, &m);
}

fn c02(cx: &mut Ctx, r: &mut Rng) {
    let k = [0, 0, 2, 3, 4, 0, 7, 8, 9, 10][r.idx(10)];
    dispatch!(k, layout_any, cx, r);
    let m = gen::arb_in_kind(r, cx.index % 5);
    layout_of::<Input>(cx, r, &m);
    let m = gen::arb_out_kind(r, cx.index % 6);
    layout_of::<Output>(cx, r, &m);
    if cx.index % 4096 == 77 {
        let m = gen::huge(r);
        layout_of::<Transaction>(cx, r, &m);
        cx.hit("layout.huge_counts");
    }
}

// ---------------------------------------------------------------- C03 hostile bytes

const ALLOC_PER_BYTE: u64 = 1024;
const ALLOC_BASE: u64 = 1 << 20;

fn attack<T: Wire>(cx: &mut Ctx, g: &mut Guarded, b: &[u8]) -> bool {
    let copy = if b.len() <= g.cap() { g.load(b) } else { b };
    let (res, total, largest) = alloc::measured(|| {
        let mut v = T::blank();
        v.write(copy).map(|n| (n, v))
    });
    cx.add("decoded", 1);
    let limit = ALLOC_PER_BYTE * b.len() as u64 + ALLOC_BASE;
    cx.ck(total <= limit, || {
        format!("{}: decoding {} bytes requested {total} bytes of memory (largest request {largest}): {}", T::NAME, b.len(), hex(&b[..b.len().min(300)]))
    });
    match res {
        Err(_) => {
            cx.hit("rejected");
            let again = T::from_bytes(copy);
            cx.ck(again.is_err(), || format!("{}: write rejects what from_bytes accepts", T::NAME));
            false
        }
        Ok((n, v)) => {
            cx.hit("accepted");
            cx.hit(format!("accepted.{}", T::NAME));
            cx.ck(n <= b.len(), || format!("{}: consumed {n} of {} bytes", T::NAME, b.len()));
            // the same bytes over another value
            let mut used = T::real(&T::arb(&mut Rng::new(crate::rng::fnv(b))));
            match used.write(copy) {
                Ok(k) => {
                    cx.hit("decoded_over_another");
                    cx.ck(k == n && used.model() == v.model() && used == v, || {
                        format!("{}: over another value the same bytes gave {} ({k} bytes) instead of {} ({n}): {}", T::NAME, short(&used), short(&v), hex(&b[..b.len().min(300)]))
                    });
                }
                Err(x) => cx.fail(format!("{}: accepted bytes are rejected over another value: {x}: {}", T::NAME, hex(&b[..b.len().min(300)]))),
            }
            let mut w = v.clone();
            let (enc, _, _) = alloc::measured(|| w.to_bytes());
            cx.ck(enc.len() <= n, || format!("{}: consumed {n} bytes but the value encodes to {}: {}", T::NAME, enc.len(), hex(&b[..b.len().min(300)])));
            let copy = if enc.len() <= g.cap() { g.load(&enc) } else { &enc[..] };
            match T::from_bytes(copy) {
                Ok(x) => {
                    if let Some((key, lossy)) = v.known_loss() {
                        if x == lossy && x.model() == lossy.model() {
                            cx.known(key);
                            return true;
                        }
                    }
                    cx.ck(x.model() == v.model() && x == v, || format!("{}: re-encoded value decodes to another: {} then {}", T::NAME, short(&v), short(&x)));
                }
                Err(x) => cx.fail(format!("{}: re-encoding of an accepted value is rejected: {x}; input {}", T::NAME, hex(&b[..b.len().min(300)]))),
            }
            true
        }
    }
}

fn seed_bytes<T: Wire>(r: &mut Rng) -> Enc {
    T::enc(&T::arb(r))
}

pub fn hostile_word(r: &mut Rng, old: u64, rest: u64) -> u64 {
    match r.below(16) {
        0 => 0,
        1 => old.wrapping_add(1),
        2 => old.wrapping_sub(1),
        3 => rest,
        4 => rest.wrapping_add(1 + r.below(9)),
        5 => rest.saturating_sub(r.below(16)),
        6 => u64::MAX - r.below(18),
        7 => (1 << 63) - 1 + r.below(9),
        8 => (1u64 << r.range(8, 63)) - r.below(3),
        9 => (u64::MAX / 8) - r.below(4),
        10 => 0x1_0000 * r.below(300) + r.below(3),
        11 => (1 << 32) + r.below(4),
        12 => isize::MAX as u64 - r.below(300),
        13 => r.below(16),
        14 => rest / 8 + r.below(3),
        _ => r.word(),
    }
}

fn is_word(p: &str) -> bool {
    p.ends_with("len") || p.ends_with("kind") || p.ends_with("index") || p.ends_with("height") || p.ends_with("length")
}

pub fn mutate(r: &mut Rng, x: &Enc) -> Vec<u8> {
    let mut b = x.buf.clone();
    let words: Vec<_> = x.spans.iter().filter(|s| s.len == 8 && is_word(&s.path)).collect();
    let n = 1 + r.idx(4);
    for _ in 0..n {
        match r.below(10) {
            0..=4 if !words.is_empty() => {
                let s = words[r.idx(words.len())];
                if s.off + 8 <= b.len() {
                    let old = u64::from_be_bytes(b[s.off..s.off + 8].try_into().unwrap_or([0; 8]));
                    let w = hostile_word(r, old, (b.len() - s.off - 8) as u64);
                    b[s.off..s.off + 8].copy_from_slice(&w.to_be_bytes());
                }
            }
            5 if !b.is_empty() => {
                let i = r.idx(b.len());
                b[i] ^= 1 << r.idx(8);
            }
            6 if !b.is_empty() => {
                let i = r.idx(b.len() / 8 + 1) * 8;
                if i + 8 <= b.len() {
                    let w = hostile_word(r, 0, b.len() as u64);
                    b[i..i + 8].copy_from_slice(&w.to_be_bytes());
                }
            }
            7 => {
                let n = if b.is_empty() { 0 } else { r.idx(b.len()) };
                if r.chance(1, 3) {
                    b.truncate(n)
                } else {
                    let k = r.idx(24);
                    let t = r.bytes(k);
                    b.extend(t)
                }
            }
            8 if b.len() >= 16 => {
                let i = r.idx(b.len() / 8) * 8;
                let k = (1 + r.idx(6)) * 8;
                let e = (i + k).min(b.len());
                if r.chance(1, 2) {
                    b.drain(i..e);
                } else {
                    let t = b[i..e].to_vec();
                    let at = r.idx(b.len() / 8) * 8;
                    for (j, c) in t.into_iter().enumerate() {
                        b.insert(at + j, c)
                    }
                }
            }
            _ => {}
        }
    }
    b
}

fn c03(cx: &mut Ctx, r: &mut Rng) {
    thread_local! {
        static G: std::cell::RefCell<Guarded> = std::cell::RefCell::new(Guarded::new(if cfg!(miri) { 1 << 14 } else { 1 << 20 }));
    }
    G.with(|g| {
        let g = &mut *g.borrow_mut();
        let rounds = if cfg!(miri) { 2 } else { 6 };
        for _ in 0..rounds {
            let k = r.idx(14);
            let x = dispatch!(k, seed_bytes, r);
            let b = match r.below(12) {
                0 => {
                    let n = gen::blen(r);
                    r.bytes(n)
                }
                1 => {
                    // plausible header: small words
                    let n = 8 * r.idx(40);
                    let mut b = Vec::new();
                    while b.len() < n {
                        let w = if r.chance(1, 6) { hostile_word(r, 0, (n - b.len()) as u64) } else { r.below(6) };
                        b.extend_from_slice(&w.to_be_bytes());
                    }
                    b
                }
                2 => x.buf.clone(),
                _ => mutate(r, &x),
            };
            let ok = dispatch!(k, attack, cx, g, &b);
            if ok {
                cx.shape(crate::rng::fnv(&b));
            }
            // the same bytes given to another decoder
            let k2 = r.idx(14);
            dispatch!(k2, attack, cx, g, &b);
            cx.sample(|| format!("decoder {k} and {k2} given {} bytes: {}", b.len(), hex(&b[..b.len().min(160)])));
        }
        // directed: one hostile word at each length, count and discriminant in turn
        let k = r.idx(14);
        let x = dispatch!(k, seed_bytes, r);
        if x.buf.len() < 6000 {
            let words: Vec<_> = x.spans.iter().filter(|s| s.len == 8 && is_word(&s.path)).cloned().collect();
            let step = 1 + words.len() / 24;
            let mut i = r.idx(step);
            while i < words.len() {
                let s = &words[i];
                let mut b = x.buf.clone();
                let old = u64::from_be_bytes(b[s.off..s.off + 8].try_into().unwrap_or([0; 8]));
                let w = hostile_word(r, old, (b.len() - s.off - 8) as u64);
                b[s.off..s.off + 8].copy_from_slice(&w.to_be_bytes());
                dispatch!(k, attack, cx, g, &b);
                cx.hit("directed");
                i += step;
            }
        }
    });
}

// ---------------------------------------------------------------- C04 rejection

fn must_reject<T: Wire>(cx: &mut Ctx, b: &[u8], why: &dyn Fn() -> String) {
    let mut v = T::blank();
    let got = v.write(b);
    cx.ck(got.is_err(), || format!("{}: accepted {} (consumed {:?}): {}", T::NAME, why(), got, hex(&b[..b.len().min(300)])));
}

fn word_at(b: &[u8], off: usize) -> u64 {
    b[off..off + 8].iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// smallest encoding of one element of a counted list
fn min_elem(path: &str) -> usize {
    match path {
        "inputs_len" => 100,
        "outputs_len" => 48,
        "slots_len" => 64,
        _ => 8,
    }
}

pub fn reject_one<T: Wire>(cx: &mut Ctx, r: &mut Rng, m: &T::M) {
    let name = T::variant(m);
    let x = T::enc(m);
    let mut v = T::real(m);
    let bytes = v.to_bytes();
    cx.hit(format!("reject.{}.{}", T::NAME, name));
    cx.shape(crate::rng::fnv(&bytes));
    // every strict prefix (all of them unless the value is big)
    let dense = bytes.len() <= 1500;
    let mut n = 0;
    while n < bytes.len() {
        must_reject::<T>(cx, &bytes[..n], &|| format!("the first {n} of {} bytes of a {name}", bytes.len()));
        cx.hit("prefixes");
        n += if dense { 1 } else { 1 + r.idx(bytes.len() / 300) };
    }
    if !dense {
        for d in 1..=24.min(bytes.len()) {
            let n = bytes.len() - d;
            must_reject::<T>(cx, &bytes[..n], &|| format!("the first {n} of {} bytes of a {name}", bytes.len()));
        }
    }
    // truncations right at and around field boundaries
    for s in x.spans.iter().take(200) {
        for n in [s.off, s.off + s.len] {
            if n < bytes.len() {
                must_reject::<T>(cx, &bytes[..n], &|| format!("a {name} cut at {}", s.path));
            }
        }
    }
    // bad words
    if x.buf == bytes {
        let step = 1 + x.spans.len() / 60;
        let first = r.idx(step);
        for s in x.spans.iter().skip(first).step_by(step) {
            bad_word::<T>(cx, r, name, &bytes, &s.path, s.off, s.len);
        }
        // never skip the header words
        for s in x.spans.iter().filter(|s| !s.path.contains('[')).take(40) {
            bad_word::<T>(cx, r, name, &bytes, &s.path, s.off, s.len);
        }
    }
    // short destination buffers
    let size = v.serialized_size();
    let mut sizes: Vec<usize> = (0..size.min(40)).collect();
    for _ in 0..10 {
        if size > 0 {
            sizes.push(r.idx(size))
        }
    }
    for d in 1..=9 {
        sizes.push(size.saturating_sub(d))
    }
    for s in sizes {
        if s >= size {
            continue;
        }
        let mut buf = vec![0u8; s];
        let got = v.read(&mut buf);
        cx.ck(got.is_err(), || format!("{name}: encoding {size} bytes into a buffer of {s} returned {got:?}"));
        cx.hit("short_buffers");
    }
    cx.sample(|| format!("{name}: {} bytes, {} fields", bytes.len(), x.spans.len()));
}

#[allow(clippy::too_many_arguments)]
fn bad_word<T: Wire>(cx: &mut Ctx, r: &mut Rng, name: &str, bytes: &[u8], path: &str, off: usize, len: usize) {
    if len != 8 {
        return;
    }
    let leaf = path.rsplit('.').next().unwrap_or(path);
    let rest = bytes.len() - off - 8;
    let vals: Vec<u64> = match leaf {
        "kind" => {
            let known: u64 = if T::NAME == "Receipt" {
                11
            } else if path.starts_with("output[") || T::NAME == "Output" {
                6
            } else {
                3
            };
            let mut v = vec![known, known + 1, known + r.below(250), 0x100, 0x100 + r.below(known), 1 << 32, (1 << 32) + r.below(known), u64::MAX, r.u64() | (1 << 40), 1 << 63, (1 << r.range(5, 63)) | r.below(known)];
            if !path.contains('[') && matches!(T::NAME, "Script" | "Create" | "Mint") {
                let own = match T::NAME {
                    "Script" => 0,
                    "Create" => 1,
                    _ => 2,
                };
                v.extend((0..3).filter(|k| *k != own));
                cx.hit("foreign_kind");
            }
            cx.hit("bad_kind");
            v
        }
        "height" => {
            cx.hit("bad_height");
            vec![1 << 32, (1 << 32) + 5, u64::MAX, r.u64() | (1 << 50), (r.below(1 << 20) + 1) << 32, 1 << r.range(32, 63), (1 << r.range(32, 63)) | r.below(1 << 32), (1 << r.range(32, 63)) | word_at(bytes, off)]
        }
        "index" if path.ends_with("txp.index") => {
            cx.hit("bad_tx_index");
            vec![1 << 16, (1 << 16) + 5, 1 << 32, u64::MAX, r.u64() | (1 << 50), (r.below(1 << 20) + 1) << 16, 1 << r.range(16, 63), (1 << r.range(16, 63)) | r.below(1 << 16), (1 << r.range(16, 63)) | word_at(bytes, off)]
        }
        "inputs_len" | "outputs_len" | "witnesses_len" | "slots_len" => {
            cx.hit("bad_count");
            let m = (rest / min_elem(leaf)) as u64 + 1;
            vec![m, m + 1, m + r.below(300), 0x1_0000 * (1 + r.below(40)) + m, 1 << 20, 1 << 32, (1 << 32) + m, 1 << 56, 1 << 63, u64::MAX, u64::MAX / 8]
                .into_iter()
                .filter(|c| *c >= m)
                .collect()
        }
        "script_len" | "script_data_len" | "predicate_len" | "predicate_data_len" | "data_len" | "len" if !(T::NAME == "Receipt" && leaf == "len") => {
            cx.hit("bad_len");
            let m = rest as u64 + 1;
            vec![m, m + r.below(20), m + (1 << 16), m + (1 << 32), 1 << 40, 1 << 63, u64::MAX, u64::MAX - r.below(9), (u64::MAX >> 1) - r.below(9), usize::MAX as u64 - 7]
                .into_iter()
                .filter(|c| *c >= m)
                .collect()
        }
        _ => return,
    };
    for w in vals {
        let mut b = bytes.to_vec();
        b[off..off + 8].copy_from_slice(&w.to_be_bytes());
        must_reject::<T>(cx, &b, &|| format!("a {name} whose {path} is {w:#x} with {rest} bytes following"));
    }
}

fn reject_any<T: Wire>(cx: &mut Ctx, r: &mut Rng) {
    let m = T::arb(r);
    reject_one::<T>(cx, r, &m);
}

fn c04(cx: &mut Ctx, r: &mut Rng) {
    let k = [0, 0, 2, 3, 4, 0, 7, 8, 9, 10, 11][r.idx(11)];
    dispatch!(k, reject_any, cx, r);
    let m = gen::arb_in_kind(r, cx.index % 5);
    reject_one::<Input>(cx, r, &m);
    let m = gen::arb_out_kind(r, cx.index % 6);
    reject_one::<Output>(cx, r, &m);
    let m = gen::arb_receipt_kind(r, cx.index % 11);
    reject_one::<Receipt>(cx, r, &m);
    // try_from_bytes is another door
    let t = gen::arb_tx(r);
    let b = r_tx(&t).to_bytes();
    for _ in 0..6 {
        let n = r.idx(b.len());
        let got: io::Result<_> = Transaction::try_from_bytes(&b[..n]);
        cx.ck(got.is_err(), || format!("try_from_bytes accepted {n} of {} bytes", b.len()));
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 60_000,
            thorough: 3_600_000,
            run: c01,
            req: &[("read from an odd address", 10_000), 
                ("rt.Transaction.script", 500),
                ("rt.Transaction.create", 500),
                ("rt.Transaction.mint", 200),
                ("rt.Script.Script", 300),
                ("rt.Create.Create", 300),
                ("rt.Mint.Mint", 300),
                ("rt.Input.CoinSigned", 500),
                ("rt.Input.CoinPredicate", 500),
                ("rt.Input.Contract", 500),
                ("rt.Input.MessageSigned", 500),
                ("rt.Input.MessagePredicate", 500),
                ("rt.Output.Coin", 500),
                ("rt.Output.Contract", 500),
                ("rt.Output.Message", 500),
                ("rt.Output.Change", 500),
                ("rt.Output.Variable", 500),
                ("rt.Output.ContractCreated", 500),
                ("rt.Witness.Witness", 300),
                ("rt.StorageSlot.StorageSlot", 300),
                ("rt.UtxoId.UtxoId", 300),
                ("rt.TxPointer.TxPointer", 300),
                ("rt.stream", 100),
                ("rt.huge_counts", 10),
            ],
            rule: "each case draws values of the wire types from a seeded generator (boundary words, lengths around word multiples, 0..300 elements, now and then 66000), builds them through the public constructors, encodes, decodes with and without trailing bytes and into used destinations, and compares field by field with the generated model; distinct = distinct encodings",
            assume: &["predicate inputs have a non-empty predicate (the wire format cannot express an empty one)"],
        },
        Prop {
            id: "C02",
            quick: 60_000,
            thorough: 3_600_000,
            run: c02,
            req: &[("written to an odd address", 10_000), 
                ("layout.Transaction.script", 500),
                ("layout.Transaction.create", 500),
                ("layout.Transaction.mint", 200),
                ("layout.Input.CoinSigned", 500),
                ("layout.Input.CoinPredicate", 500),
                ("layout.Input.Contract", 500),
                ("layout.Input.MessageSigned", 500),
                ("layout.Input.MessagePredicate", 500),
                ("layout.Output.Coin", 500),
                ("layout.Output.ContractCreated", 500),
                ("layout.Witness.Witness", 300),
                ("layout.StorageSlot.StorageSlot", 300),
                ("layout.UtxoId.UtxoId", 300),
                ("layout.TxPointer.TxPointer", 300),
            ],
            rule: "each case encodes generated values and compares every byte with an independent reference encoder written from the published layout, into a fresh vector and into two caller buffers with complementary old contents; distinct = distinct reference encodings",
            assume: &["the reference encoder states the published layout correctly"],
        },
        Prop {
            id: "C03",
            quick: 500_000,
            thorough: 30_000_000,
            run: c03,
            req: &[("decoded", 300_000), ("accepted", 20_000), ("rejected", 100_000), ("directed", 50_000), ("accepted.Transaction", 500), ("accepted.Receipt", 500), ("accepted.Input", 300), ("decoded_over_another", 20_000)],
            rule: "each case feeds random, structured and mutated byte strings (hostile lengths, counts, discriminants, splices, truncations) to the eleven decoders, from a buffer that ends at an inaccessible page, with the allocator counting; distinct = distinct byte strings that were accepted and re-encoded",
            assume: &["'proportional' is read as at most 1024 bytes requested per input byte plus 1 MiB"],
        },
        Prop {
            id: "C04",
            quick: 50_000,
            thorough: 3_000_000,
            run: c04,
            req: &[("prefixes", 300_000), ("bad_kind", 5_000), ("foreign_kind", 200), ("bad_height", 1_000), ("bad_tx_index", 1_000), ("bad_count", 2_000), ("bad_len", 3_000), ("short_buffers", 100_000)],
            rule: "each case takes valid encodings of every wire type and feeds every strict prefix, and at every discriminant, height, index, count and length word a value the format forbids, to the decoder, and encodes into every too-short buffer; distinct = distinct base encodings",
            assume: &["a count is called unsatisfiable when the remaining bytes are fewer than that many smallest elements"],
        },
    ]
}
