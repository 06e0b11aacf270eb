//! C24: results depend only on the arguments.
//!
//! One case is a small world of related subjects and a list of operations on them. The same
//! operations are evaluated several times: in order, shuffled with repetitions, one alone, and
//! from several threads at once on shared references. Each evaluation runs in its own forked
//! process, so that every history starts from a library that has computed nothing yet
//! (VMON_NOFORK=1 keeps everything in one process, for ThreadSanitizer).

use crate::by_any;
use crate::conv::*;
use crate::ex::Ex;
use crate::gen;
use crate::keys::{self, Key};
use crate::m_check::Meta;
use crate::m_id::secret;
use crate::m_misc::{trim, Kind};
use crate::model::*;
use crate::mutate;
use crate::rng::{fnv, Rng};
use crate::stats::{short, Ctx};
use crate::Prop;
use fuel_tx::field::{Inputs, Outputs};
use fuel_tx::{
    Buildable, Cacheable, Checkable, Checked, CheckedTransaction, ConsensusParameters, Contract, Create, Executable, Input, IntoChecked, Mint, Output, Receipt, Script, StorageSlot, Transaction, TransactionBuilder,
    TransactionFee, TxPointer, UniqueIdentifier, UtxoId, Witness,
};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

// ---------------------------------------------------------------- Send and Sync, observed

/// `Probe::<T>::SEND` without making the build depend on it.
struct Probe<T>(std::marker::PhantomData<T>);
trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Fallback for Probe<T> {}
struct ProbeSend<T>(std::marker::PhantomData<T>);
impl<T> Fallback for ProbeSend<T> {}
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
macro_rules! shareable {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), ProbeSend::<$t>::SEND, Probe::<$t>::SYNC)),*] };
}
const SHAREABLE: &[(&str, bool, bool)] = shareable!(
    Script,
    Create,
    Mint,
    Transaction,
    Input,
    Output,
    Witness,
    StorageSlot,
    UtxoId,
    TxPointer,
    Receipt,
    ConsensusParameters,
    TransactionFee,
    Contract,
    Checked<Script>,
    Checked<Create>,
    Checked<Mint>,
    Checked<Transaction>,
    CheckedTransaction,
    fuel_tx::CheckError,
    fuel_tx::ScriptExecutionResult,
    fuel_tx::TransactionRepr,
    TransactionBuilder<Script>,
    TransactionBuilder<Create>,
    TransactionBuilder<Mint>,
);

// ---------------------------------------------------------------- the world

enum Real {
    S(Script),
    C(Create),
    M(Mint),
}
enum Sub {
    Tx { m: Tx, h: u64, p: ConsensusParameters, key: Key },
    Receipt(Rc),
    Bytes(Vec<u8>),
    Text(String),
    Code(Vec<u8>, B32, Vec<Slot>),
    Msg { sender: B32, rcpt: B32, nonce: u64, amount: u64, data: Vec<u8> },
}
/// A subject as the library sees it, shared among the threads.
enum Live {
    Tx { plain: Real, cached: Real },
    Receipt(Receipt),
    Other,
}

/// The threads get references whatever the types say: Send and Sync are checked separately.
struct Shared<'a>(&'a [Live], &'a [Sub]);
unsafe impl Sync for Shared<'_> {}
unsafe impl Send for Shared<'_> {}

const TX_OPS: usize = 13;
fn ops_of(s: &Sub) -> usize {
    match s {
        Sub::Tx { .. } => TX_OPS,
        Sub::Receipt(_) => 3,
        Sub::Bytes(_) => 4,
        Sub::Text(_) => 2,
        Sub::Code(..) => 4,
        Sub::Msg { .. } => 2,
    }
}

fn real(m: &Tx) -> Real {
    match m {
        Tx::Script(s) => Real::S(r_script(s)),
        Tx::Create(s) => Real::C(r_create(s)),
        Tx::Mint(s) => Real::M(r_mint(s)),
    }
}
fn cached(m: &Tx) -> Real {
    match real(m) {
        Real::S(mut t) => {
            t.precompute();
            Real::S(t)
        }
        Real::C(mut t) => {
            t.precompute();
            Real::C(t)
        }
        Real::M(mut t) => {
            t.precompute();
            Real::M(t)
        }
    }
}
fn live(s: &Sub) -> Live {
    match s {
        Sub::Tx { m, .. } => Live::Tx { plain: real(m), cached: cached(m) },
        Sub::Receipt(r) => Live::Receipt(r_receipt(r)),
        _ => Live::Other,
    }
}

macro_rules! each {
    ($x:expr, $t:ident => $e:expr) => {
        match $x {
            Real::S($t) => $e,
            Real::C($t) => $e,
            Real::M($t) => $e,
        }
    };
}

fn answers<T: Kind>(t: &T, h: u64, p: &ConsensusParameters) -> String {
    t.answers(h, p).into_iter().map(|(a, b)| format!("{a}={b}\n")).collect()
}
fn money<T: Ex>(t: &T, h: u64, p: &ConsensusParameters) -> String
where
    T::Metadata: Meta,
{
    let a = t.clone().into_checked_basic(h, p).map(|c| c.metadata().parts());
    let b = t.clone().into_checked(h, p).map(|c| (c.metadata().parts(), c.checks().bits()));
    let f = TransactionFee::checked_from_tx(p, t);
    format!("{a:?} {b:?} {f:?} {:?}", refunds(t, p))
}
fn refunds<T: fuel_tx::Chargeable>(t: &T, p: &ConsensusParameters) -> Vec<Option<u64>> {
    [0, 1, 1000, u64::MAX].iter().map(|g| TransactionFee::gas_refund_value(p, *g, t.price())).collect()
}
fn signed<T: Ex>(t: &T, k: &Key) -> String {
    let mut s = t.clone();
    s.sign_inputs(&secret(k));
    format!("{:?}", s.to_bytes())
}
fn parts(ins: &[Input], outs: &[Output], id: &fuel_tx::Bytes32) -> String {
    let mut o = String::new();
    for i in ins {
        o += &format!(
            "{:?}|{}|{:?}|{:?}|{:?}|{:?}|{:?}|{:?}|{:?}|{:?}\n",
            i.clone().to_bytes(),
            i.serialized_size(),
            i.amount(),
            i.asset_id(),
            i.message_id(),
            i.predicate_offset(),
            i.input_predicate().map(Input::predicate_owner),
            i.utxo_id().map(|u| format!("{u:x}")),
            i.sender(),
            i.witness_index()
        );
    }
    for (k, x) in outs.iter().enumerate() {
        o += &format!("{:?}|{}|{:?}|{:?}|{:?}\n", x.clone().to_bytes(), x.serialized_size(), x.amount(), x.asset_id(), Output::message_nonce(id, k as u64));
    }
    o
}
fn decode<T: Deserializable + Ex2>(b: &[u8]) -> String {
    match T::from_bytes(b) {
        Ok(t) => format!("{}", short_hash(&t.show())),
        Err(e) => format!("error {e:?}"),
    }
}
fn short_hash(s: &str) -> String {
    format!("{}:{:016x}", s.len(), fnv(s.as_bytes()))
}
trait Ex2 {
    fn show(&self) -> String;
}
impl<T: std::fmt::Debug> Ex2 for T {
    fn show(&self) -> String {
        format!("{self:?}")
    }
}

fn built(m: &Tx, k: &Key, h: u64, p: &ConsensusParameters) -> String {
    fn feed<T: Buildable>(b: &mut TransactionBuilder<T>, m: &Tx, k: &Key) {
        b.gas_price(m.gas_price()).gas_limit(m.gas_limit()).maturity(m.maturity());
        for i in m.ins() {
            if i.authority() == Some(k.owner) {
                match i {
                    In::CoinSigned { utxo, amount, asset, txp, maturity, .. } => {
                        b.add_unsigned_coin_input(secret(k), r_utxo(utxo), *amount, (*asset).into(), r_txp(txp), *maturity);
                        continue;
                    }
                    In::MsgSigned { sender, amount, nonce, data, .. } => {
                        b.add_unsigned_message_input(secret(k), (*sender).into(), *nonce, *amount, data.clone());
                        continue;
                    }
                    _ => {}
                }
            }
            b.add_input(r_in(i));
        }
        for o in m.outs() {
            b.add_output(r_out(o));
        }
    }
    match m {
        Tx::Script(s) => {
            let mut b = TransactionBuilder::script(s.script.clone(), s.data.clone());
            feed(&mut b, m, k);
            let mut t = b.finalize();
            format!("{:?} {:?} {:?}", t.id(), t.check(h, p), t.to_bytes())
        }
        Tx::Create(c) => {
            let code = c.wits.get(c.bytecode_wit as usize).cloned().unwrap_or_default();
            let mut b = TransactionBuilder::create(Witness::from(code), c.salt.into(), c.slots.iter().map(r_slot).collect());
            feed(&mut b, m, k);
            let mut t = b.finalize();
            format!("{:?} {:?} {:?}", t.id(), t.check(h, p), t.to_bytes())
        }
        Tx::Mint(x) => {
            let mut b = TransactionBuilder::mint(x.txp.height, x.txp.index);
            for o in &x.outs {
                b.add_output(r_out(o));
            }
            let mut t = b.finalize();
            format!("{:?} {:?} {:?}", t.id(), t.check(h, p), t.to_bytes())
        }
    }
}

fn tx_op(k: usize, plain: &Real, cache: &Real, m: &Tx, h: u64, p: &ConsensusParameters, key: &Key) -> String {
    match k {
        0 => each!(plain, t => answers(t, h, p)),
        1 => each!(cache, t => answers(t, h, p)),
        2 => each!(plain, t => format!("{:?} {}", t.id(), t.serialized_size())),
        3 => each!(plain, t => format!("{:?} {:?}", t.check_without_signatures(h, p), t.check_signatures())),
        4 => match plain {
            Real::S(t) => money(t, h, p),
            Real::C(t) => money(t, h, p),
            Real::M(t) => format!("{:?}", t.clone().into_checked(h, p).map(|c| c.checks().bits())),
        },
        5 => match plain {
            Real::S(t) => signed(t, key),
            Real::C(t) => signed(t, key),
            Real::M(_) => String::new(),
        },
        6 => {
            let b = m.encode();
            format!("{} {}", decode::<Transaction>(&b), by_any_decode(m, &b))
        }
        7 => {
            let t: Transaction = each!(plain, t => t.clone().into());
            let j = serde_json::to_string(&t).unwrap_or_default();
            let back: Option<Transaction> = serde_json::from_str(&j).ok();
            format!("{} {} {:?} {}", short_hash(&j), back == Some(t.clone()), t.clone().into_checked(h, p).map(|c| c.checks().bits()), short_hash(&t.show()))
        }
        8 => match plain {
            Real::S(t) => {
                let mut t = t.clone();
                t.prepare_init_script();
                let a = t.to_bytes();
                t.prepare_init_predicate();
                format!("{a:?} {:?} {:?}", t.to_bytes(), t.id())
            }
            Real::C(t) => {
                let mut t = t.clone();
                t.prepare_init_predicate();
                format!("{:?} {:?}", t.to_bytes(), t.id())
            }
            Real::M(_) => String::new(),
        },
        9 => match plain {
            Real::S(t) => parts(t.inputs(), t.outputs(), &t.id()),
            Real::C(t) => parts(t.inputs(), t.outputs(), &t.id()),
            Real::M(t) => parts(&[], t.outputs(), &t.id()),
        },
        10 => each!(plain, t => {
            let mut x = t.clone();
            x.precompute();
            format!("{:?} {}", x.id(), x.is_computed())
        }),
        11 => built(m, key, h, p),
        // from nothing: the value is made, asked and dropped by this very call
        _ => each!(&real(m), t => answers(t, h, p)),
    }
}
fn by_any_decode(m: &Tx, b: &[u8]) -> String {
    fn go<T: Kind>(b: &[u8]) -> String {
        decode::<T>(b)
    }
    by_any!(m, go(b))
}

fn one_op(s: &Sub, l: &Live, k: usize) -> String {
    match (s, l) {
        (Sub::Tx { m, h, p, key }, Live::Tx { plain, cached }) => tx_op(k, plain, cached, m, *h, p, key),
        (Sub::Receipt(m), Live::Receipt(r)) => match k {
            0 => format!("{:?} {}", r.clone().to_bytes(), r.serialized_size()),
            1 => decode::<Receipt>(&encode(|e| enc_receipt(e, m))),
            _ => format!("{:?} {}", r, serde_json::to_string(r).unwrap_or_default()),
        },
        (Sub::Bytes(b), _) => match k {
            0 => decode::<Transaction>(b),
            1 => decode::<Receipt>(b),
            2 => decode::<Input>(b),
            _ => decode::<Output>(b),
        },
        (Sub::Text(t), _) => match k {
            0 => format!("{:?}", t.parse::<UtxoId>().map(|u| (u, format!("{u:x} {u:X}")))),
            _ => format!("{:?}", t.parse::<TxPointer>().map(|u| (u, format!("{u:x} {u:X}")))),
        },
        (Sub::Code(c, salt, slots), _) => {
            let v: Vec<StorageSlot> = slots.iter().map(r_slot).collect();
            match k {
                0 => format!("{:?} {:?}", Contract::root_from_code(c), Contract::initial_state_root(v.iter())),
                2 => {
                    // the code as a predicate: its owner, and owners that are almost it
                    let owner = Input::predicate_owner(c);
                    let mut near = [owner, owner, owner];
                    near[1].as_mut()[salt[0] as usize % 32] ^= 1 + salt[1] / 2;
                    near[2].as_mut()[31] ^= 1 << (salt[2] % 8);
                    format!("{owner:?} {:?}", near.map(|o| Input::is_predicate_owner_valid(&o, c)))
                }
                3 => {
                    // values drawn from a generator of our own
                    use rand::Rng as _;
                    let seed = u64::from_be_bytes(salt[..8].try_into().unwrap());
                    let mut g = crate::m_value::Given { seed, at: 0 };
                    let u: [UtxoId; 2] = [g.gen(), g.gen()];
                    let (p, w, s): (TxPointer, Witness, StorageSlot) = (g.gen(), g.gen(), g.gen());
                    format!("{u:?} {p:?} {w:?} {s:?} {} {:?}", g.at, v.iter().map(fuel_types::Bytes64::from).collect::<Vec<_>>())
                }
                _ => {
                    let c = Contract::from(c.clone());
                    format!("{:?}", c.id(&(*salt).into(), &c.root(), &Contract::initial_state_root(v.iter())))
                }
            }
        }
        (Sub::Msg { sender, rcpt, nonce, amount, data }, _) => match k {
            0 => format!("{:?}", Input::compute_message_id(&(*sender).into(), &(*rcpt).into(), *nonce, *amount, data)),
            _ => format!("{:?} {:?}", Output::message_id(&(*sender).into(), &(*rcpt).into(), &fuel_tx::Bytes32::from(*sender), *amount, data), Output::message_nonce(&fuel_tx::Bytes32::from(*rcpt), *nonce % 256)),
        },
        _ => String::new(),
    }
}

/// What one evaluation gave: digest and the beginning of the text.
type Ans = (u64, String);
fn eval(s: &Sub, l: &Live, k: usize) -> Ans {
    let t = match catch_unwind(AssertUnwindSafe(|| one_op(s, l, k))) {
        Ok(t) => t,
        Err(_) => "panicked".into(),
    };
    let mut n = t.len().min(160);
    while !t.is_char_boundary(n) {
        n -= 1
    }
    (fnv(t.as_bytes()), t[..n].to_string())
}

// ---------------------------------------------------------------- processes

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

type Log = Vec<(u32, Ans)>;

/// Run `f` in a fresh process (or right here) and bring back its log.
fn apart<F: FnOnce() -> (Log, Vec<u64>)>(f: F) -> Result<(Log, Vec<u64>), String> {
    if std::env::var_os("VMON_NOFORK").is_some() {
        return Ok(f());
    }
    let (mut rx, mut tx) = std::io::pipe().map_err(|e| e.to_string())?;
    let pid = unsafe { fork() };
    if pid < 0 {
        return Err("fork failed".into());
    }
    if pid == 0 {
        drop(rx);
        let code = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(log) => {
                let b = serde_json::to_vec(&log).unwrap_or_default();
                if tx.write_all(&b).is_ok() {
                    0
                } else {
                    3
                }
            }
            Err(_) => 3,
        };
        drop(tx);
        unsafe { _exit(code) }
    }
    drop(tx);
    let mut b = Vec::new();
    let got = rx.read_to_end(&mut b);
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    if st & 0x7f != 0 {
        return Err(format!("signal {}", st & 0x7f));
    }
    if st >> 8 != 0 || got.is_err() {
        return Err(format!("exit {}", st >> 8));
    }
    serde_json::from_slice(&b).map_err(|e| format!("log: {e}"))
}

// ---------------------------------------------------------------- the case

struct World {
    subs: Vec<Sub>,
    /// (subject, operation)
    ops: Vec<(usize, usize)>,
}

fn near(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut x = b.to_vec();
    if x.is_empty() {
        x.push(1);
    } else {
        let i = r.idx(x.len());
        x[i] ^= 1 << r.below(8);
    }
    x
}

fn world(r: &mut Rng) -> World {
    let mut subs = Vec::new();
    // transactions: one and a few that differ from it in one place, or only in the context
    let v = if r.chance(3, 5) {
        let signed = r.chance(1, 2);
        gen::valid(r, &gen::Opts { kind: None, signed, max_inputs: 4 })
    } else {
        let mut tx = gen::arb_tx(r);
        trim(&mut tx, 5, 120);
        let h = r.word();
        let params = gen::arb_params(r);
        gen::Valid { tx, height: h, params, keys: vec![] }
    };
    let mut m = v.tx;
    trim(&mut m, 8, 400);
    let key = v.keys.first().cloned().unwrap_or_else(|| r.pick(keys::pool()).clone());
    subs.push(Sub::Tx { m: m.clone(), h: v.height, p: v.params, key: key.clone() });
    for _ in 0..1 + r.idx(3) {
        let (mut x, mut h, mut p, mut k) = (m.clone(), v.height, v.params, key.clone());
        match r.below(6) {
            0 => h = r.word(),
            1 => p = gen::arb_params(r),
            2 => {
                p.max_inputs = r.below(6);
                p.max_script_length = r.below(100);
            }
            3 => k = r.pick(keys::pool()).clone(),
            _ => {
                for _ in 0..1 + r.idx(2) {
                    mutate::change(r, &mut x);
                }
                trim(&mut x, 9, 420);
            }
        }
        subs.push(Sub::Tx { m: x, h, p, key: k });
    }
    if r.chance(1, 2) {
        let mut x = gen::arb_tx(r);
        trim(&mut x, 5, 120);
        subs.push(Sub::Tx { m: x, h: v.height, p: v.params, key });
    }
    if r.chance(1, 2) {
        let a = gen::arb_receipt(r);
        subs.push(Sub::Receipt(a));
        let b = gen::arb_receipt(r);
        subs.push(Sub::Receipt(b));
    }
    if r.chance(1, 2) {
        let b = if r.chance(1, 2) { m.encode() } else { encode(|e| enc_receipt(e, &gen::arb_receipt(r))) };
        let c = near(r, &b);
        subs.push(Sub::Bytes(b));
        subs.push(Sub::Bytes(c));
    }
    if r.chance(1, 3) {
        let t = match r.below(3) {
            0 => format!("0x{}{:02x}", crate::stats::hex(&r.b32()), r.below(256)),
            1 => format!("{:08x}{:04x}", r.u64() as u32, r.u64() as u16),
            _ => "zz".into(),
        };
        subs.push(Sub::Text(t.clone()));
        let n = near(r, t.as_bytes());
        if let Ok(t) = String::from_utf8(n) {
            subs.push(Sub::Text(t));
        }
    }
    if r.chance(1, 2) {
        // two codes of one length, two slot sets of one size
        let n = r.idx(400);
        let c = r.bytes(n);
        let d = near(r, &c);
        let s: Vec<Slot> = (0..r.idx(4)).map(|_| gen::slot(r)).collect();
        let mut t = s.clone();
        if let Some(x) = t.first_mut() {
            *x = gen::slot(r)
        }
        let salt = r.b32();
        subs.push(Sub::Code(c.clone(), salt, s.clone()));
        subs.push(Sub::Code(d, salt, s));
        let salt2 = r.b32();
        subs.push(Sub::Code(c, if r.chance(1, 2) { salt } else { salt2 }, t));
    }
    if r.chance(1, 2) {
        let (sender, rcpt, nonce, amount, n) = (r.b32(), r.b32(), r.word(), r.word(), r.idx(40));
        let data = r.bytes(n);
        subs.push(Sub::Msg { sender, rcpt, nonce, amount, data: data.clone() });
        match r.below(3) {
            0 => subs.push(Sub::Msg { sender, rcpt, nonce, amount: r.word(), data }),
            1 => subs.push(Sub::Msg { sender, rcpt, nonce: r.word(), amount, data }),
            _ => {
                let d = near(r, &data);
                subs.push(Sub::Msg { sender, rcpt, nonce, amount, data: d })
            }
        }
    }
    let mut ops = Vec::new();
    for (i, s) in subs.iter().enumerate() {
        for k in 0..ops_of(s) {
            ops.push((i, k));
        }
    }
    World { subs, ops }
}

fn sequence(w: &World, order: &[usize]) -> (Log, Vec<u64>) {
    let lives: Vec<Live> = w.subs.iter().map(live).collect();
    let log = order.iter().map(|o| (*o as u32, eval(&w.subs[w.ops[*o].0], &lives[w.ops[*o].0], w.ops[*o].1))).collect();
    (log, vec![])
}

fn alone(w: &World, o: usize) -> (Log, Vec<u64>) {
    let (s, k) = w.ops[o];
    let l = live(&w.subs[s]);
    (vec![(o as u32, eval(&w.subs[s], &l, k))], vec![])
}

/// A long life first: many other worlds come and go (their values at addresses that are used again), and each
/// operation then runs on a value that lives only as long as the operation.
fn after_a_long_life(w: &World, order: &[usize], seed: u64, worlds: usize) -> (Log, Vec<u64>) {
    let mut r = Rng::new(seed);
    let mut done = 0u64;
    for _ in 0..worlds {
        let o = world(&mut r);
        let lives: Vec<Live> = o.subs.iter().map(live).collect();
        for _ in 0..o.ops.len() {
            let (s, k) = o.ops[r.idx(o.ops.len())];
            eval(&o.subs[s], &lives[s], k);
            done += 1;
        }
    }
    let log = order
        .iter()
        .map(|o| {
            let (s, k) = w.ops[*o];
            let l = live(&w.subs[s]);
            (*o as u32, eval(&w.subs[s], &l, k))
        })
        .collect();
    (log, vec![done])
}

/// Changes that checksums and cheap fingerprints overlook: two bytes swapped, two words swapped, one bit in two
/// places, one byte somewhere, the order reversed.
fn sly(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut x = b.to_vec();
    if x.len() < 2 {
        return near(r, b);
    }
    let (i, j) = (r.idx(x.len()), r.idx(x.len()));
    match r.below(7) {
        0 => x.swap(i, j),
        1 if x.len() >= 16 => {
            let (i, j) = (i / 8 * 8, j / 8 * 8);
            if i.max(j) + 8 <= x.len() {
                for k in 0..8 {
                    x.swap(i + k, j + k)
                }
            }
        }
        2 => {
            let bit = 1 << r.below(8);
            x[i] ^= bit;
            x[j] ^= bit;
        }
        3 => {
            x[i] = x[i].wrapping_add(1);
            x[j] = x[j].wrapping_sub(1);
        }
        4 => x.reverse(),
        5 => x[i] = r.u64() as u8,
        _ => {
            for y in x[i.min(j)..].iter_mut().take(8) {
                *y = r.u64() as u8
            }
        }
    }
    x
}
fn sly32(r: &mut Rng, b: &B32) -> B32 {
    let mut o = [0; 32];
    o.copy_from_slice(&sly(r, b));
    o
}

/// Many relatives of one kind: (subject, operation) pairs for a history dense in calls of few functions.
fn clan(r: &mut Rng) -> (&'static str, World) {
    let n = [300, 1000, 4000][r.idx(3)];
    let mut subs = Vec::new();
    let kind = r.below(7);
    let label = match kind {
        0 | 1 => {
            let len = [8, 9, 32, 64, 200][r.idx(5)];
            let mut c = r.bytes(len);
            let salt = r.b32();
            for _ in 0..n {
                c = if r.chance(1, 3) { sly(r, &c) } else { r.bytes(len) };
                let s = if r.chance(1, 4) { vec![gen::slot(r)] } else { vec![] };
                let salt = sly32(r, &salt);
                subs.push(Sub::Code(c.clone(), salt, s));
            }
            "codes"
        }
        2 => {
            let (mut sender, mut rcpt, mut nonce, mut amount, mut data) = (r.b32(), r.b32(), r.u64(), r.u64(), r.bytes(24));
            for _ in 0..n {
                match r.below(6) {
                    0 => sender = sly32(r, &sender),
                    1 => rcpt = sly32(r, &rcpt),
                    2 => nonce = r.u64(),
                    3 => amount = r.u64(),
                    4 => data = sly(r, &data),
                    _ => (sender, rcpt) = (rcpt, sender),
                }
                subs.push(Sub::Msg { sender, rcpt, nonce, amount, data: data.clone() });
            }
            "messages"
        }
        3 => {
            for _ in 0..n {
                subs.push(Sub::Text(match r.below(3) {
                    0 => format!("0x{}{:02x}", crate::stats::hex(&r.b32()), r.below(256)),
                    1 => format!("{:08x}{:04x}", r.u64() as u32, r.u64() as u16),
                    _ => format!("{:02x}", r.below(256)),
                }));
            }
            "texts"
        }
        4 => {
            let mut b = vec![];
            for i in 0..n / 2 {
                if i % 100 == 0 {
                    let mut m = gen::arb_tx(r);
                    trim(&mut m, 3, 60);
                    b = m.encode();
                }
                let c = near(r, &b);
                subs.push(Sub::Bytes(c));
            }
            "byte strings"
        }
        5 => {
            for _ in 0..n {
                let a = gen::arb_receipt(r);
                subs.push(Sub::Receipt(a));
            }
            "receipts"
        }
        _ => {
            // generations of one transaction
            let mut v = gen::valid(r, &gen::Opts { kind: None, signed: true, max_inputs: 3 });
            let key = v.keys.first().cloned().unwrap_or_else(|| r.pick(keys::pool()).clone());
            trim(&mut v.tx, 4, 120);
            let mut m = v.tx.clone();
            for i in 0..n / 10 {
                if i % 20 == 0 {
                    m = v.tx.clone();
                }
                mutate::change(r, &mut m);
                trim(&mut m, 5, 120);
                subs.push(Sub::Tx { m: m.clone(), h: v.height, p: v.params, key: key.clone() });
            }
            "transactions"
        }
    };
    // one operation for all, or any of them
    let one = r.chance(1, 2).then(|| r.idx(TX_OPS));
    let ops = (0..subs.len())
        .map(|s| {
            let k = ops_of(&subs[s]);
            (s, one.map(|o| o % k).unwrap_or_else(|| r.idx(k)))
        })
        .collect();
    (label, World { subs, ops })
}

fn fleeting(w: &World, order: &[usize]) -> (Log, Vec<u64>) {
    let log = order
        .iter()
        .map(|o| {
            let (s, k) = w.ops[*o];
            (*o as u32, (eval(&w.subs[s], &live(&w.subs[s]), k).0, String::new()))
        })
        .collect();
    (log, vec![])
}

/// The same long series of calls forwards and backwards, each in a fresh process.
fn dense(cx: &mut Ctx, r: &mut Rng) {
    let (label, w) = clan(r);
    let n = w.ops.len();
    let forward: Vec<usize> = (0..n).collect();
    let mut back = forward.clone();
    back.reverse();
    if r.chance(1, 4) {
        r.shuffle(&mut back);
    }
    let mut logs = Vec::new();
    for order in [&forward, &back] {
        match apart(|| fleeting(&w, order)) {
            Ok((log, _)) => logs.push(log),
            Err(e) if e.starts_with("signal") => return cx.fail(format!("the process evaluating a long series on {label} died: {e}")),
            Err(e) => panic!("long series: {e}"),
        }
    }
    let mut b = logs.pop().unwrap_or_default();
    b.sort_by_key(|x| x.0);
    for (x, y) in logs[0].iter().zip(&b) {
        cx.ck(x == y, || {
            let (s, k) = w.ops[x.0 as usize];
            let one = apart(|| alone(&w, x.0 as usize)).ok().map(|l| l.0[0].1.clone());
            format!("{}, one of {n} such calls: differs between the series forwards and in another order; alone: {:?}, call {k} on subject {s}", name(&w, x.0), one.map(|a| short(&a.1)))
        });
    }
    cx.hit(format!("long series on {label}"));
    cx.add("calls_in_long_series", 2 * n as u64);
}

fn pause(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(std::time::Duration::from_micros(r.below(60))),
        2..=4 => {
            for _ in 0..r.below(400) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

/// `n` threads, each with its own order over shared subjects; tickets record the interleaving.
/// With `own`, each thread makes its own values first, so that nothing is warmed up beforehand.
fn threads(w: &World, orders: Vec<Vec<usize>>, seed: u64, own: bool) -> (Log, Vec<u64>) {
    let lives: Vec<Live> = if own { vec![] } else { w.subs.iter().map(live).collect() };
    let sh = Shared(&lives, &w.subs);
    let n = orders.len();
    let ticket = AtomicU64::new(0);
    let gate = Barrier::new(n);
    let mut log = Log::new();
    let mut when: Vec<(u64, u64)> = Vec::new();
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for (t, order) in orders.into_iter().enumerate() {
            let (sh, ticket, gate, ops) = (&sh, &ticket, &gate, &w.ops);
            hs.push(sc.spawn(move || {
                let mut r = Rng::new(seed ^ t as u64);
                let mut mine = Log::new();
                let mut at = Vec::new();
                gate.wait();
                let owned: Vec<Live> = if own { sh.1.iter().map(live).collect() } else { vec![] };
                let lives: &[Live] = if own { &owned } else { sh.0 };
                for o in order {
                    pause(&mut r);
                    let (s, k) = ops[o];
                    let a = ticket.fetch_add(1, Ordering::Relaxed);
                    let x = eval(&sh.1[s], &lives[s], k);
                    let b = ticket.fetch_add(1, Ordering::Relaxed);
                    mine.push((o as u32, x));
                    at.push((a, t as u64 * 2));
                    at.push((b, t as u64 * 2 + 1));
                }
                (mine, at)
            }));
        }
        for h in hs {
            let (mine, at) = h.join().expect("thread");
            log.extend(mine);
            when.extend(at);
        }
    });
    when.sort();
    // begin and end events: how many operations ran while another one was under way
    let mut open = 0u64;
    let mut overlapped = 0;
    for (_, e) in &when {
        if e % 2 == 0 {
            if open > 0 {
                overlapped += 1
            }
            open += 1
        } else {
            open -= 1
        }
    }
    let trace: Vec<u8> = when.iter().map(|x| x.1 as u8).collect();
    (log, vec![fnv(&trace), overlapped])
}

fn name(w: &World, o: u32) -> String {
    let (s, k) = w.ops[o as usize];
    let what = match &w.subs[s] {
        Sub::Tx { m, .. } => format!("{} {}", m.kind(), ["queries", "queries, cached", "id and size", "check", "money", "sign", "decode", "enum, JSON", "prepare", "components", "precompute", "build", "queries from nothing"][k]),
        Sub::Receipt(_) => format!("receipt {}", ["encode", "decode", "show"][k]),
        Sub::Bytes(_) => format!("decode bytes as {}", ["transaction", "receipt", "input", "output"][k]),
        Sub::Text(_) => "parse text".into(),
        Sub::Code(..) => format!("contract {}", ["roots", "id", "as a predicate", "drawn from its salt"][k]),
        Sub::Msg { .. } => "message ids".into(),
    };
    format!("operation {o} ({what} of subject {s})")
}

fn c24(cx: &mut Ctx, r: &mut Rng) {
    if cx.index < 8 {
        assert!(!Probe::<std::cell::Cell<u8>>::SYNC && !ProbeSend::<std::rc::Rc<u8>>::SEND);
        for (t, send, sync) in SHAREABLE {
            cx.ck(*send && *sync, || format!("{t} cannot be shared among threads: Send {send}, Sync {sync}"));
            cx.hit("shareable_types");
        }
    }
    if std::env::var_os("VMON_NOFORK").is_none() && cx.index % 16 == 9 {
        return dense(cx, r);
    }
    let w = world(r);
    let n = w.ops.len();
    let mut first: BTreeMap<u32, Ans> = BTreeMap::new();
    let compare = |cx: &mut Ctx, how: &str, got: Result<(Log, Vec<u64>), String>, first: &mut BTreeMap<u32, Ans>| -> Vec<u64> {
        let (log, extra) = match got {
            Ok(x) => x,
            Err(e) if e.starts_with("signal") => {
                cx.fail(format!("the process evaluating {how} died: {e}"));
                return vec![];
            }
            Err(e) if e == "exit 66" => {
                cx.fail(format!("ThreadSanitizer reports a data race {how}"));
                return vec![];
            }
            Err(e) => panic!("{how}: {e}"),
        };
        cx.hit(format!("histories {how}"));
        for (o, a) in log {
            cx.add("evaluations", 1);
            match first.get(&o) {
                None => {
                    first.insert(o, a);
                }
                Some(b) => {
                    cx.ck(&a == b, || format!("{} gives another result {how}: {} against {}", name(&w, o), short(&a.1), short(&b.1)));
                }
            }
        }
        extra
    };
    // every operation once, in order
    let forward: Vec<usize> = (0..n).collect();
    let got = apart(|| sequence(&w, &forward));
    compare(cx, "in order", got, &mut first);
    let tsan = std::env::var_os("VMON_TSAN").is_some();
    // another order, with repetitions
    let mut other: Vec<usize> = (0..n).rev().collect();
    if r.chance(3, 4) {
        r.shuffle(&mut other);
    }
    for _ in 0..n / 2 {
        other.push(r.idx(n));
    }
    if !tsan {
        let got = apart(|| sequence(&w, &other));
        compare(cx, "in another order", got, &mut first);
    }
    if !tsan && r.chance(1, 8) {
        let worlds = [0, 1, 3, 10, 40][r.idx(5)];
        let seed = r.u64();
        let got = apart(|| after_a_long_life(&w, &other, seed, worlds));
        if let [done] = compare(cx, "after a long life", got, &mut first)[..] {
            cx.add("operations_of_other_worlds", done);
        }
    }
    // some alone
    for _ in 0..if tsan {
        0
    } else if cx.thorough {
        8
    } else {
        3
    } {
        let o = r.idx(n);
        let got = apart(|| alone(&w, o));
        compare(cx, "alone", got, &mut first);
    }
    // from threads: broad, or hammering a few operations
    let k = 2 + r.idx(3);
    let few: Vec<usize> = if r.chance(1, 2) {
        forward.clone()
    } else {
        // the same operation on related subjects
        let op = w.ops[r.idx(n)].1;
        let mut v: Vec<usize> = (0..n).filter(|o| w.ops[*o].1 == op).collect();
        r.shuffle(&mut v);
        v.truncate(5);
        cx.hit("hammered");
        v
    };
    let orders: Vec<Vec<usize>> = (0..k)
        .map(|_| {
            let mut v = few.clone();
            while v.len() < n {
                v.extend(few.clone());
            }
            v.truncate(n.max(few.len()));
            r.shuffle(&mut v);
            v
        })
        .collect();
    let seed = r.u64();
    let own = r.chance(1, 3);
    if own {
        cx.hit("threads with their own values");
    }
    let got = apart(|| threads(&w, orders, seed, own));
    let extra = compare(cx, "from threads", got, &mut first);
    if let [trace, overlapped] = extra[..] {
        cx.shape(trace);
        cx.add("operations_begun_while_another_ran", overlapped);
    }
    cx.add("operations", n as u64);
    for (s, _) in &w.ops {
        match &w.subs[*s] {
            Sub::Tx { m, .. } => cx.hit(format!("on {}", m.kind())),
            Sub::Receipt(_) => cx.hit("on receipts"),
            Sub::Bytes(_) => cx.hit("on raw bytes"),
            Sub::Text(_) => cx.hit("on text"),
            Sub::Code(..) => cx.hit("on contracts"),
            Sub::Msg { .. } => cx.hit("on messages"),
        }
    }
    let panics = first.values().filter(|a| a.1 == "panicked").count();
    if panics > 0 {
        cx.add("operations_that_panic_everywhere", panics as u64);
    }
    cx.sample(|| format!("{} subjects, {} operations, {} threads", w.subs.len(), n, k));
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        quick: 2_500,
        thorough: 150_000,
        run: c24,
        req: &[("shareable_types", 20), ("histories in order", 1_000), ("histories in another order", 1_000), ("histories alone", 1_000), ("histories after a long life", 150), ("operations_of_other_worlds", 20_000), ("histories from threads", 1_000), ("operations_begun_while_another_ran", 5_000), ("hammered", 300), ("calls_in_long_series", 100_000), ("long series on codes", 10), ("long series on messages", 5), ("long series on transactions", 5)],
        rule: "each operation's full result is the same in a fresh process that runs everything in order, one that runs it shuffled with repetitions, one that runs only it, one that runs it on short-lived values after up to 40 other worlds have come and gone, one that makes a series of up to 4000 calls on related arguments in another order, and one where 2-4 threads run it on shared references; all public value types are Send and Sync",
        assume: &["the comparison is between digests (64-bit) of the complete printed results"],
    }]
}
