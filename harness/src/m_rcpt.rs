//! C16 receipts, C26 message ids, nonces and digests.

use crate::conv::*;
use crate::gen;
use crate::m_codec::{layout_of, round_trip, Wire};
use crate::model::*;
use crate::rng::Rng;
use crate::stats::{hex, Ctx};
use crate::Prop;
use fuel_tx::field::Inputs;
use fuel_tx::{Address, Bytes32, Executable, Input, InstructionResult, MessageId, Output, Receipt, Script, ScriptExecutionResult};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What every accessor must answer, from the model.
#[derive(Default, Debug, PartialEq, Clone)]
struct Acc {
    id: Option<B32>,
    pc: Option<u64>,
    is: Option<u64>,
    to: Option<B32>,
    to_address: Option<B32>,
    amount: Option<u64>,
    asset: Option<B32>,
    gas: Option<u64>,
    p1: Option<u64>,
    p2: Option<u64>,
    val: Option<u64>,
    ptr: Option<u64>,
    len: Option<u64>,
    empty: Option<bool>,
    digest: Option<B32>,
    data: Option<Vec<u8>>,
    reason: Option<u64>,
    ra: Option<u64>,
    rb: Option<u64>,
    rc: Option<u64>,
    rd: Option<u64>,
    result: Option<u64>,
    gas_used: Option<u64>,
    mid: Option<B32>,
    sender: Option<B32>,
    rcpt: Option<B32>,
    nonce: Option<B32>,
    cid: Option<B32>,
}

fn want(r: &Rc) -> Acc {
    let d = Acc::default();
    match r.clone() {
        Rc::Call { id, to, amount, asset, gas, p1, p2, pc, is } => {
            Acc { id: Some(id), to: Some(to), amount: Some(amount), asset: Some(asset), gas: Some(gas), p1: Some(p1), p2: Some(p2), pc: Some(pc), is: Some(is), ..d }
        }
        Rc::Return { id, val, pc, is } => Acc { id: Some(id), val: Some(val), pc: Some(pc), is: Some(is), ..d },
        Rc::ReturnData { id, ptr, len, digest, data, pc, is } => {
            Acc { id: Some(id), ptr: Some(ptr), len: Some(len), empty: Some(len == 0), digest: Some(digest), data: Some(data), pc: Some(pc), is: Some(is), ..d }
        }
        Rc::Panic { id, reason, instr, pc, is, cid } => Acc { id: Some(id), reason: Some(reason_word(reason, instr)), pc: Some(pc), is: Some(is), cid, ..d },
        Rc::Revert { id, ra, pc, is } => Acc { id: Some(id), ra: Some(ra), pc: Some(pc), is: Some(is), ..d },
        Rc::Log { id, ra, rb, rc, rd, pc, is } => Acc { id: Some(id), ra: Some(ra), rb: Some(rb), rc: Some(rc), rd: Some(rd), pc: Some(pc), is: Some(is), ..d },
        Rc::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => Acc {
            id: Some(id),
            ra: Some(ra),
            rb: Some(rb),
            ptr: Some(ptr),
            len: Some(len),
            empty: Some(len == 0),
            digest: Some(digest),
            data: Some(data),
            pc: Some(pc),
            is: Some(is),
            ..d
        },
        Rc::Transfer { id, to, amount, asset, pc, is } => Acc { id: Some(id), to: Some(to), amount: Some(amount), asset: Some(asset), pc: Some(pc), is: Some(is), ..d },
        Rc::TransferOut { id, to, amount, asset, pc, is } => Acc { id: Some(id), to_address: Some(to), amount: Some(amount), asset: Some(asset), pc: Some(pc), is: Some(is), ..d },
        Rc::ScriptResult { result, gas_used } => Acc { result: Some(result), gas_used: Some(gas_used), ..d },
        Rc::MessageOut { mid, sender, rcpt, amount, nonce, len, digest, data } => Acc {
            mid: Some(mid),
            sender: Some(sender),
            rcpt: Some(rcpt),
            amount: Some(amount),
            nonce: Some(nonce),
            len: Some(len),
            empty: Some(len == 0),
            digest: Some(digest),
            data: Some(data),
            ..d
        },
    }
}

fn got(r: &Receipt) -> Acc {
    Acc {
        id: r.id().map(|x| **x),
        pc: r.pc(),
        is: r.is(),
        to: r.to().map(|x| **x),
        to_address: r.to_address().map(|x| **x),
        amount: r.amount(),
        asset: r.asset_id().map(|x| **x),
        gas: r.gas(),
        p1: r.param1(),
        p2: r.param2(),
        val: r.val(),
        ptr: r.ptr(),
        len: r.len(),
        empty: r.is_empty(),
        digest: r.digest().map(|x| **x),
        data: r.data().map(|x| x.to_vec()),
        reason: r.reason().map(u64::from),
        ra: r.ra(),
        rb: r.rb(),
        rc: r.rc(),
        rd: r.rd(),
        result: r.result().map(result_word),
        gas_used: r.gas_used(),
        mid: r.message_id().map(|x| **x),
        sender: r.sender().map(|x| **x),
        rcpt: r.recipient().map(|x| **x),
        nonce: r.nonce().map(|x| **x),
        cid: r.contract_id().map(|x| **x),
    }
}

fn padded(n: usize) -> u64 {
    ((n + 7) / 8 * 8) as u64
}

fn c16(cx: &mut Ctx, r: &mut Rng) {
    let k = cx.index % 11;
    let mut m = gen::arb_receipt_kind(r, k);
    // the short constructors
    let short = r.chance(1, 3);
    if short {
        match &mut m {
            Rc::ReturnData { len, data, .. } | Rc::LogData { len, data, .. } | Rc::MessageOut { len, data, .. } => *len = padded(data.len()),
            _ => {}
        }
    }
    let v = match (&m, short) {
        (Rc::ReturnData { id, ptr, digest, data, pc, is, .. }, true) => Receipt::return_data((*id).into(), *ptr, (*digest).into(), data.clone(), *pc, *is),
        (Rc::LogData { id, ra, rb, ptr, digest, data, pc, is, .. }, true) => Receipt::log_data((*id).into(), *ra, *rb, *ptr, (*digest).into(), data.clone(), *pc, *is),
        (Rc::MessageOut { mid, sender, rcpt, amount, nonce, digest, data, .. }, true) => {
            Receipt::message_out((*mid).into(), (*sender).into(), (*rcpt).into(), *amount, (*nonce).into(), (*digest).into(), data.clone())
        }
        _ => r_receipt(&m),
    };
    cx.eq("receipt fields as constructed", m_receipt(&v), m.clone());
    cx.eq("receipt accessors", got(&v), want(&m));
    cx.hit(format!("accessors.{}", m.kind()));
    layout_of::<Receipt>(cx, r, &m);
    round_trip::<Receipt>(cx, r, &m);
    cx.eq("size of the built receipt", v.serialized_size(), Receipt::enc(&m).buf.len());

    // the panic contract id: kept by the value, invisible to encoding and equality
    let c = r.b32();
    let w = v.clone().with_panic_contract_id(Some(c.into()));
    cx.eq("with_panic_contract_id changed what the receipt is equal to", w == v, true);
    cx.eq("hash with panic contract id", hash_of(&w), hash_of(&v));
    cx.eq("encoding with panic contract id", w.clone().to_bytes(), v.clone().to_bytes());
    let mut wm = want(&m);
    if let Rc::Panic { .. } = m {
        wm.cid = Some(c);
        cx.hit("panic_contract_id");
        if let Ok(d) = Receipt::from_bytes(&w.clone().to_bytes()) {
            cx.eq("decoded panic contract id", d.contract_id().is_none(), true);
        }
        let back = w.clone().with_panic_contract_id(None);
        cx.eq("cleared panic contract id", got(&back), want(&m));
    }
    cx.eq("accessors with panic contract id", got(&w), wm);

    // equality tells receipts apart exactly when their fields differ
    let other = if r.chance(1, 2) { gen::arb_receipt_kind(r, k) } else { tweak(r, &m) };
    let o = r_receipt(&other);
    cx.eq("receipt equality", o == v, other == m);
    cx.eq("receipt equality (other way)", v == o, other == m);
    if other == m {
        cx.eq("hash of equal receipts", hash_of(&o), hash_of(&v));
    } else {
        cx.hit("unequal_pairs");
    }

    // result codes
    let code = match r.below(3) {
        0 => r.below(5),
        _ => r.word(),
    };
    let res = ScriptExecutionResult::from(code);
    cx.eq("script result code", u64::from(res), code);
    cx.eq("script result kind", result_word(&res), code);
    cx.eq(
        "script result variant",
        match res {
            ScriptExecutionResult::Success => 0,
            ScriptExecutionResult::Revert => 1,
            ScriptExecutionResult::Panic => 2,
            ScriptExecutionResult::GenericFailure(_) => 3,
        },
        code.min(3),
    );

    // listed finding: instructions with bits their opcode does not use
    if cx.index % 13 == 0 {
        let raw = r.u64() as u32;
        let reason = 1 + r.below(255) as u8;
        let orig = Receipt::panic(r.b32().into(), InstructionResult::from(reason_word(reason, raw)), r.word(), r.word());
        let bytes = orig.clone().to_bytes();
        if let Ok(d) = Receipt::from_bytes(&bytes) {
            match orig.known_loss() {
                Some((key, lossy)) if d == lossy => cx.known(key),
                Some(_) => cx.fail("a panic receipt with unused instruction bits decodes to neither itself nor its normal form"),
                None => {
                    cx.eq("panic receipt with a normal instruction", d, orig);
                }
            }
        } else {
            cx.fail("own panic receipt encoding rejected");
        }
    }
}

/// the same receipt with one field changed (or not at all)
fn tweak(r: &mut Rng, m: &Rc) -> Rc {
    let mut o = m.clone();
    let n = r.below(10);
    let w = |x: &mut u64, r: &mut Rng| *x ^= 1 << r.below(64);
    let b = |x: &mut B32, r: &mut Rng| x[r.idx(32)] ^= 1 << r.below(8);
    match &mut o {
        Rc::Call { id, to, amount, asset, gas, p1, p2, pc, is } => match n {
            0 => b(id, r),
            1 => b(to, r),
            2 => w(amount, r),
            3 => b(asset, r),
            4 => w(gas, r),
            5 => w(p1, r),
            6 => w(p2, r),
            7 => w(pc, r),
            8 => w(is, r),
            _ => {}
        },
        Rc::Return { id, val, pc, is } | Rc::Revert { id, ra: val, pc, is } => match n % 5 {
            0 => b(id, r),
            1 => w(val, r),
            2 => w(pc, r),
            3 => w(is, r),
            _ => {}
        },
        Rc::ReturnData { id, ptr, len, digest, data, pc, is } => match n {
            0 => b(id, r),
            1 => w(ptr, r),
            2 => w(len, r),
            3 => b(digest, r),
            4 => data.push(0),
            5 => w(pc, r),
            6 => w(is, r),
            7 => {
                data.pop();
            }
            _ => {}
        },
        Rc::Panic { id, reason, instr, pc, is, .. } => match n % 6 {
            0 => b(id, r),
            1 => {
                *reason = 1 + r.below(255) as u8;
            }
            2 => {
                if *reason != 0 {
                    *instr = gen::normal_instr(r.u64() as u32)
                }
            }
            3 => w(pc, r),
            4 => w(is, r),
            _ => {}
        },
        Rc::Log { id, ra, rb, rc, rd, pc, is } => match n {
            0 => b(id, r),
            1 => w(ra, r),
            2 => w(rb, r),
            3 => w(rc, r),
            4 => w(rd, r),
            5 => w(pc, r),
            6 => w(is, r),
            _ => {}
        },
        Rc::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => match n {
            0 => b(id, r),
            1 => w(ra, r),
            2 => w(rb, r),
            3 => w(ptr, r),
            4 => w(len, r),
            5 => b(digest, r),
            6 => data.push(0),
            7 => w(pc, r),
            8 => w(is, r),
            _ => {}
        },
        Rc::Transfer { id, to, amount, asset, pc, is } | Rc::TransferOut { id, to, amount, asset, pc, is } => match n % 7 {
            0 => b(id, r),
            1 => b(to, r),
            2 => w(amount, r),
            3 => b(asset, r),
            4 => w(pc, r),
            5 => w(is, r),
            _ => {}
        },
        Rc::ScriptResult { result, gas_used } => match n % 3 {
            0 => w(result, r),
            1 => w(gas_used, r),
            _ => {}
        },
        Rc::MessageOut { mid, sender, rcpt, amount, nonce, len, digest, data } => match n {
            0 => b(mid, r),
            1 => b(sender, r),
            2 => b(rcpt, r),
            3 => w(amount, r),
            4 => b(nonce, r),
            5 => w(len, r),
            6 => b(digest, r),
            7 => data.push(0),
            _ => {}
        },
    }
    o
}

// ---------------------------------------------------------------- C26

fn c26(cx: &mut Ctx, r: &mut Rng) {
    let (sender, rcpt, amount, nonce) = (r.b32(), r.b32(), r.word(), r.word());
    let data = gen::big_bytes(r);
    let (s, t) = (Address::from(sender), Address::from(rcpt));
    let want_in = sha(&[&sender, &rcpt, &nonce.to_be_bytes(), &amount.to_be_bytes(), &data]);
    cx.eq("Input::compute_message_id", *Input::compute_message_id(&s, &t, nonce, amount, &data), want_in);
    if data.len() < 4096 {
        // the same data at another address
        let at = r.idx(8);
        let mut long = vec![0x5a; at];
        long.extend_from_slice(&data);
        long.push(1);
        cx.eq("Input::compute_message_id of a slice", *Input::compute_message_id(&s, &t, nonce, amount, &long[at..at + data.len()]), want_in);
    }
    cx.shape(crate::rng::fnv(&want_in));
    cx.hit(format!("data_len_mod8.{}", data.len() % 8));

    let n32 = r.b32();
    let want_out = sha(&[&sender, &rcpt, &n32, &amount.to_be_bytes(), &data]);
    cx.eq("Output::message_id", *Output::message_id(&s, &t, &Bytes32::from(n32), amount, &data), want_out);
    let txid = r.b32();
    let idx = r.below(256);
    let want_nonce = sha(&[&txid, &[idx as u8]]);
    cx.eq("Output::message_nonce", *Output::message_nonce(&Bytes32::from(txid), idx), want_nonce);
    let want_digest = sha(&[&data]);
    cx.eq("Output::message_digest", *Output::message_digest(&data), want_digest);

    // asked right afterwards, neighbours have their own answers
    if data.len() < 5000 {
        let (mut s2, mut r2, mut n2, mut a2, mut d2, mut m2) = (sender, rcpt, nonce, amount, data.clone(), n32);
        match r.below(6) {
            0 => s2[r.idx(32)] ^= 1 << r.below(8),
            1 => r2[r.idx(32)] ^= 1 << r.below(8),
            2 => {
                n2 ^= 1 << r.below(64);
                m2[r.idx(32)] ^= 1 << r.below(8)
            }
            3 => a2 ^= 1 << r.below(64),
            4 if !d2.is_empty() => {
                let k = r.idx(d2.len());
                d2[k] ^= 1 << r.below(8)
            }
            _ => d2.push(0),
        }
        let (sa, ra) = (Address::from(s2), Address::from(r2));
        let near_in = sha(&[&s2, &r2, &n2.to_be_bytes(), &a2.to_be_bytes(), &d2]);
        let near_out = sha(&[&s2, &r2, &m2, &a2.to_be_bytes(), &d2]);
        cx.eq("input message id of a neighbour", *Input::compute_message_id(&sa, &ra, n2, a2, &d2), near_in);
        cx.eq("output message id of a neighbour", *Output::message_id(&sa, &ra, &Bytes32::from(m2), a2, &d2), near_out);
        cx.eq("digest of a neighbour", *Output::message_digest(&d2), sha(&[&d2]));
        cx.eq("input message id once more", *Input::compute_message_id(&s, &t, nonce, amount, &data), want_in);
        cx.eq("output message id once more", *Output::message_id(&s, &t, &Bytes32::from(n32), amount, &data), want_out);
        cx.eq("nonce of the next output", *Output::message_nonce(&Bytes32::from(txid), (idx + 1) % 256), sha(&[&txid, &[((idx + 1) % 256) as u8]]));
    }

    let rc = Receipt::message_out_from_tx_output(&Bytes32::from(txid), idx, s, t, amount, data.clone());
    let want_mid = sha(&[&sender, &rcpt, &want_nonce, &amount.to_be_bytes(), &data]);
    let want_rc = Rc::MessageOut { mid: want_mid, sender, rcpt, amount, nonce: want_nonce, len: padded(data.len()), digest: want_digest, data: data.clone() };
    cx.eq("message_out_from_tx_output", m_receipt(&rc), want_rc);
    cx.hit("receipts");

    // an unsigned message input carries the matching id, whatever the transaction held
    let base = gen::arb_exec(r);
    let mut have = base.ins().to_vec();
    macro_rules! add {
        ($tx:expr) => {{
            let mut tx = $tx;
            tx.add_unsigned_message_input(s, t, nonce, amount, data.clone());
            m_ins(tx.inputs())
        }};
    }
    if base.wits().len() < 255 {
        let ins = match &base {
            Tx::Script(x) => add!(r_script(x)),
            Tx::Create(x) => add!(r_create(x)),
            Tx::Mint(_) => vec![],
        };
        have.push(In::MsgSigned { mid: want_in, sender, rcpt, amount, nonce, wit: base.wits().len() as u8, data: data.clone() });
        cx.eq("inputs after add_unsigned_message_input", ins, have);
        cx.hit("unsigned_inputs");
    }
    // and so do the inputs a check looks at
    let built = Input::message_signed(MessageId::from(want_in), s, t, amount, nonce, 0, data.clone());
    cx.eq("message id of a built input", built.message_id().map(|m| **m), Some(want_in));
    let _: Script = Script::default();
    cx.sample(|| format!("sender {} recipient {} nonce {nonce} amount {amount} data {} bytes -> {}", hex(&sender), hex(&rcpt), data.len(), hex(&want_in)));
}

pub fn m_ins(v: &[Input]) -> Vec<In> {
    v.iter().map(m_in).collect()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            quick: 500_000,
            thorough: 30_000_000,
            run: c16,
            req: &[
                ("accessors.Call", 500),
                ("accessors.Return", 500),
                ("accessors.ReturnData", 500),
                ("accessors.Panic", 500),
                ("accessors.Revert", 500),
                ("accessors.Log", 500),
                ("accessors.LogData", 500),
                ("accessors.Transfer", 500),
                ("accessors.TransferOut", 500),
                ("accessors.ScriptResult", 500),
                ("accessors.MessageOut", 500),
                ("panic_contract_id", 500),
                ("unequal_pairs", 5_000),
            ],
            rule: "each case builds one receipt of a fixed kind in turn, with boundary words and data lengths, compares all 28 accessors, the bytes (into used buffers too), the round trip and equality with an independent model; distinct = distinct encodings",
            assume: &["a panic's instruction carries no bits its opcode does not use (KNOWN_FINDINGS, panic-instruction)", "GenericFailure holds a code of at least 3"],
        },
        Prop {
            id: "C26",
            quick: 400_000,
            thorough: 24_000_000,
            run: c26,
            req: &[("receipts", 5_000), ("unsigned_inputs", 5_000)],
            rule: "each case computes message ids, nonces, digests, receipts and inputs for generated parties, amounts and data and compares them with SHA-256 computed directly by another implementation; distinct = distinct message ids",
            assume: &["output indices are below 256", "fewer than 256 witnesses when an unsigned message input is added"],
        },
    ]
}
