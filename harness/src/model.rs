//! Independent data model of fuel transactions and receipts and the *reference* wire encoding,
//! written from the layout (fuel-specs tx_format), not from the crate's code.

use crate::layout::Enc;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};

pub type B32 = [u8; 32];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Utxo {
    pub tx: B32,
    pub idx: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Txp {
    pub height: u32,
    pub index: u16,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum In {
    CoinSigned { utxo: Utxo, owner: B32, amount: u64, asset: B32, txp: Txp, wit: u8, maturity: u64 },
    CoinPred { utxo: Utxo, owner: B32, amount: u64, asset: B32, txp: Txp, maturity: u64, pred: Vec<u8>, pdata: Vec<u8> },
    Contract { utxo: Utxo, broot: B32, sroot: B32, txp: Txp, cid: B32 },
    MsgSigned { mid: B32, sender: B32, rcpt: B32, amount: u64, nonce: u64, wit: u8, data: Vec<u8> },
    MsgPred { mid: B32, sender: B32, rcpt: B32, amount: u64, nonce: u64, data: Vec<u8>, pred: Vec<u8>, pdata: Vec<u8> },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Out {
    Coin { to: B32, amount: u64, asset: B32 },
    Contract { idx: u8, broot: B32, sroot: B32 },
    Msg { rcpt: B32, amount: u64 },
    Change { to: B32, amount: u64, asset: B32 },
    Variable { to: B32, amount: u64, asset: B32 },
    Created { cid: B32, sroot: B32 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Slot {
    pub key: B32,
    pub val: B32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MScript {
    pub gas_price: u64,
    pub gas_limit: u64,
    pub maturity: u64,
    pub receipts_root: B32,
    pub script: Vec<u8>,
    pub data: Vec<u8>,
    pub ins: Vec<In>,
    pub outs: Vec<Out>,
    pub wits: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MCreate {
    pub gas_price: u64,
    pub gas_limit: u64,
    pub maturity: u64,
    pub bytecode_len: u64,
    pub bytecode_wit: u8,
    pub salt: B32,
    pub slots: Vec<Slot>,
    pub ins: Vec<In>,
    pub outs: Vec<Out>,
    pub wits: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MMint {
    pub txp: Txp,
    pub outs: Vec<Out>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Tx {
    Script(MScript),
    Create(MCreate),
    Mint(MMint),
}

pub fn sha(parts: &[&[u8]]) -> B32 {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub const ZERO: B32 = [0u8; 32];

// ---------------------------------------------------------------- encoding

pub fn enc_utxo(e: &mut Enc, u: &Utxo) {
    e.b32("utxo.tx_id", &u.tx);
    e.word("utxo.output_index", u.idx as u64);
}
pub fn enc_txp(e: &mut Enc, t: &Txp) {
    e.word("txp.height", t.height as u64);
    e.word("txp.index", t.index as u64);
}

pub fn enc_in(e: &mut Enc, i: &In) {
    match i {
        In::CoinSigned { utxo, owner, amount, asset, txp, wit, maturity } => {
            e.word("kind", 0);
            enc_coin(e, utxo, owner, *amount, asset, txp, *wit as u64, *maturity, &[], &[]);
        }
        In::CoinPred { utxo, owner, amount, asset, txp, maturity, pred, pdata } => {
            e.word("kind", 0);
            enc_coin(e, utxo, owner, *amount, asset, txp, 0, *maturity, pred, pdata);
        }
        In::Contract { utxo, broot, sroot, txp, cid } => {
            e.word("kind", 1);
            e.group("utxo_id", |e| enc_utxo(e, utxo));
            e.b32("balance_root", broot);
            e.b32("state_root", sroot);
            e.group("tx_pointer", |e| enc_txp(e, txp));
            e.b32("contract_id", cid);
        }
        In::MsgSigned { mid, sender, rcpt, amount, nonce, wit, data } => {
            e.word("kind", 2);
            enc_msg(e, mid, sender, rcpt, *amount, *nonce, *wit as u64, data, &[], &[]);
        }
        In::MsgPred { mid, sender, rcpt, amount, nonce, data, pred, pdata } => {
            e.word("kind", 2);
            enc_msg(e, mid, sender, rcpt, *amount, *nonce, 0, data, pred, pdata);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn enc_coin(e: &mut Enc, utxo: &Utxo, owner: &B32, amount: u64, asset: &B32, txp: &Txp, wit: u64, maturity: u64, pred: &[u8], pdata: &[u8]) {
    e.group("utxo_id", |e| enc_utxo(e, utxo));
    e.b32("owner", owner);
    e.word("amount", amount);
    e.b32("asset_id", asset);
    e.group("tx_pointer", |e| enc_txp(e, txp));
    e.word("witness_index", wit);
    e.word("maturity", maturity);
    e.word("predicate_len", pred.len() as u64);
    e.word("predicate_data_len", pdata.len() as u64);
    e.raw("predicate", pred);
    e.raw("predicate_data", pdata);
}

#[allow(clippy::too_many_arguments)]
fn enc_msg(e: &mut Enc, mid: &B32, sender: &B32, rcpt: &B32, amount: u64, nonce: u64, wit: u64, data: &[u8], pred: &[u8], pdata: &[u8]) {
    e.b32("message_id", mid);
    e.b32("sender", sender);
    e.b32("recipient", rcpt);
    e.word("amount", amount);
    e.word("nonce", nonce);
    e.word("witness_index", wit);
    e.word("data_len", data.len() as u64);
    e.word("predicate_len", pred.len() as u64);
    e.word("predicate_data_len", pdata.len() as u64);
    e.raw("data", data);
    e.raw("predicate", pred);
    e.raw("predicate_data", pdata);
}

pub fn enc_out(e: &mut Enc, o: &Out) {
    match o {
        Out::Coin { to, amount, asset } => enc_ccv(e, 0, to, *amount, asset),
        Out::Contract { idx, broot, sroot } => {
            e.word("kind", 1);
            e.word("input_index", *idx as u64);
            e.b32("balance_root", broot);
            e.b32("state_root", sroot);
        }
        Out::Msg { rcpt, amount } => {
            e.word("kind", 2);
            e.b32("recipient", rcpt);
            e.word("amount", *amount);
        }
        Out::Change { to, amount, asset } => enc_ccv(e, 3, to, *amount, asset),
        Out::Variable { to, amount, asset } => enc_ccv(e, 4, to, *amount, asset),
        Out::Created { cid, sroot } => {
            e.word("kind", 5);
            e.b32("contract_id", cid);
            e.b32("state_root", sroot);
        }
    }
}

fn enc_ccv(e: &mut Enc, kind: u64, to: &B32, amount: u64, asset: &B32) {
    e.word("kind", kind);
    e.b32("to", to);
    e.word("amount", amount);
    e.b32("asset_id", asset);
}

pub fn enc_wit(e: &mut Enc, w: &[u8]) {
    e.word("len", w.len() as u64);
    e.raw("data", w);
}

pub fn enc_slot(e: &mut Enc, s: &Slot) {
    e.b32("key", &s.key);
    e.b32("value", &s.val);
}

pub fn enc_tx(e: &mut Enc, t: &Tx) {
    match t {
        Tx::Script(s) => {
            e.word("kind", 0);
            e.word("gas_price", s.gas_price);
            e.word("gas_limit", s.gas_limit);
            e.word("maturity", s.maturity);
            e.word("script_len", s.script.len() as u64);
            e.word("script_data_len", s.data.len() as u64);
            e.word("inputs_len", s.ins.len() as u64);
            e.word("outputs_len", s.outs.len() as u64);
            e.word("witnesses_len", s.wits.len() as u64);
            e.b32("receipts_root", &s.receipts_root);
            e.raw("script", &s.script);
            e.raw("script_data", &s.data);
            enc_tail(e, &s.ins, &s.outs, &s.wits);
        }
        Tx::Create(c) => {
            e.word("kind", 1);
            e.word("gas_price", c.gas_price);
            e.word("gas_limit", c.gas_limit);
            e.word("maturity", c.maturity);
            e.word("bytecode_length", c.bytecode_len);
            e.word("bytecode_witness_index", c.bytecode_wit as u64);
            e.word("slots_len", c.slots.len() as u64);
            e.word("inputs_len", c.ins.len() as u64);
            e.word("outputs_len", c.outs.len() as u64);
            e.word("witnesses_len", c.wits.len() as u64);
            e.b32("salt", &c.salt);
            e.mark("slots");
            for (i, s) in c.slots.iter().enumerate() {
                e.item("slot", i, |e| enc_slot(e, s));
            }
            enc_tail(e, &c.ins, &c.outs, &c.wits);
        }
        Tx::Mint(m) => {
            e.word("kind", 2);
            e.group("tx_pointer", |e| enc_txp(e, &m.txp));
            e.word("outputs_len", m.outs.len() as u64);
            e.mark("outputs");
            for (i, o) in m.outs.iter().enumerate() {
                e.item("output", i, |e| enc_out(e, o));
            }
        }
    }
}

fn enc_tail(e: &mut Enc, ins: &[In], outs: &[Out], wits: &[Vec<u8>]) {
    e.mark("inputs");
    for (i, x) in ins.iter().enumerate() {
        e.item("input", i, |e| enc_in(e, x));
    }
    e.mark("outputs");
    for (i, x) in outs.iter().enumerate() {
        e.item("output", i, |e| enc_out(e, x));
    }
    e.mark("witnesses");
    for (i, x) in wits.iter().enumerate() {
        e.item("witness", i, |e| enc_wit(e, x));
    }
}

pub fn encode<F: FnOnce(&mut Enc)>(f: F) -> Vec<u8> {
    let mut e = Enc::new();
    f(&mut e);
    e.buf
}

// ---------------------------------------------------------------- model helpers

impl In {
    pub fn is_coin(&self) -> bool {
        matches!(self, In::CoinSigned { .. } | In::CoinPred { .. })
    }
    pub fn asset(&self) -> Option<B32> {
        match self {
            In::CoinSigned { asset, .. } | In::CoinPred { asset, .. } => Some(*asset),
            In::MsgSigned { .. } | In::MsgPred { .. } => Some(ZERO),
            In::Contract { .. } => None,
        }
    }
    pub fn amount(&self) -> Option<u64> {
        match self {
            In::CoinSigned { amount, .. } | In::CoinPred { amount, .. } | In::MsgSigned { amount, .. } | In::MsgPred { amount, .. } => Some(*amount),
            In::Contract { .. } => None,
        }
    }
    pub fn pred(&self) -> Option<&Vec<u8>> {
        match self {
            In::CoinPred { pred, .. } | In::MsgPred { pred, .. } => Some(pred),
            _ => None,
        }
    }
    pub fn pdata(&self) -> Option<&Vec<u8>> {
        match self {
            In::CoinPred { pdata, .. } | In::MsgPred { pdata, .. } => Some(pdata),
            _ => None,
        }
    }
    pub fn wit(&self) -> Option<u8> {
        match self {
            In::CoinSigned { wit, .. } | In::MsgSigned { wit, .. } => Some(*wit),
            _ => None,
        }
    }
    pub fn set_wit(&mut self, w: u8) {
        match self {
            In::CoinSigned { wit, .. } | In::MsgSigned { wit, .. } => *wit = w,
            _ => {}
        }
    }
    /// owner for coins, recipient for messages
    pub fn authority(&self) -> Option<B32> {
        match self {
            In::CoinSigned { owner, .. } | In::CoinPred { owner, .. } => Some(*owner),
            In::MsgSigned { rcpt, .. } | In::MsgPred { rcpt, .. } => Some(*rcpt),
            In::Contract { .. } => None,
        }
    }
    pub fn set_authority(&mut self, a: B32) {
        match self {
            In::CoinSigned { owner, .. } | In::CoinPred { owner, .. } => *owner = a,
            In::MsgSigned { rcpt, .. } | In::MsgPred { rcpt, .. } => *rcpt = a,
            In::Contract { .. } => {}
        }
    }
    /// zero the fields that may change after signing
    pub fn strip(&mut self) {
        let z = Txp { height: 0, index: 0 };
        match self {
            In::CoinSigned { txp, .. } | In::CoinPred { txp, .. } => *txp = z,
            In::Contract { utxo, broot, sroot, txp, .. } => {
                *utxo = Utxo { tx: ZERO, idx: 0 };
                *broot = ZERO;
                *sroot = ZERO;
                *txp = z;
            }
            _ => {}
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            In::CoinSigned { .. } => "CoinSigned",
            In::CoinPred { .. } => "CoinPredicate",
            In::Contract { .. } => "Contract",
            In::MsgSigned { .. } => "MessageSigned",
            In::MsgPred { .. } => "MessagePredicate",
        }
    }
}

impl Out {
    pub fn strip(&mut self) {
        match self {
            Out::Contract { broot, sroot, .. } => {
                *broot = ZERO;
                *sroot = ZERO;
            }
            Out::Msg { .. } | Out::Change { .. } | Out::Variable { .. } => self.strip_script(),
            _ => {}
        }
    }
    /// what script preparation zeroes
    pub fn strip_script(&mut self) {
        match self {
            Out::Msg { rcpt, amount } => {
                *rcpt = ZERO;
                *amount = 0;
            }
            Out::Change { amount, .. } => *amount = 0,
            Out::Variable { to, amount, asset } => {
                *to = ZERO;
                *amount = 0;
                *asset = ZERO;
            }
            _ => {}
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Coin { .. } => "Coin",
            Out::Contract { .. } => "Contract",
            Out::Msg { .. } => "Message",
            Out::Change { .. } => "Change",
            Out::Variable { .. } => "Variable",
            Out::Created { .. } => "ContractCreated",
        }
    }
}

impl Tx {
    pub fn encode(&self) -> Vec<u8> {
        encode(|e| enc_tx(e, self))
    }
    pub fn layout(&self) -> Enc {
        let mut e = Enc::new();
        enc_tx(&mut e, self);
        e
    }
    pub fn ins(&self) -> &[In] {
        match self {
            Tx::Script(s) => &s.ins,
            Tx::Create(c) => &c.ins,
            Tx::Mint(_) => &[],
        }
    }
    pub fn ins_mut(&mut self) -> Option<&mut Vec<In>> {
        match self {
            Tx::Script(s) => Some(&mut s.ins),
            Tx::Create(c) => Some(&mut c.ins),
            Tx::Mint(_) => None,
        }
    }
    pub fn outs(&self) -> &[Out] {
        match self {
            Tx::Script(s) => &s.outs,
            Tx::Create(c) => &c.outs,
            Tx::Mint(m) => &m.outs,
        }
    }
    pub fn outs_mut(&mut self) -> &mut Vec<Out> {
        match self {
            Tx::Script(s) => &mut s.outs,
            Tx::Create(c) => &mut c.outs,
            Tx::Mint(m) => &mut m.outs,
        }
    }
    pub fn wits(&self) -> &[Vec<u8>] {
        match self {
            Tx::Script(s) => &s.wits,
            Tx::Create(c) => &c.wits,
            Tx::Mint(_) => &[],
        }
    }
    pub fn wits_mut(&mut self) -> Option<&mut Vec<Vec<u8>>> {
        match self {
            Tx::Script(s) => Some(&mut s.wits),
            Tx::Create(c) => Some(&mut c.wits),
            Tx::Mint(_) => None,
        }
    }
    pub fn gas_price(&self) -> u64 {
        match self {
            Tx::Script(s) => s.gas_price,
            Tx::Create(s) => s.gas_price,
            Tx::Mint(_) => 0,
        }
    }
    pub fn gas_limit(&self) -> u64 {
        match self {
            Tx::Script(s) => s.gas_limit,
            Tx::Create(s) => s.gas_limit,
            Tx::Mint(_) => 0,
        }
    }
    pub fn maturity(&self) -> u64 {
        match self {
            Tx::Script(s) => s.maturity,
            Tx::Create(s) => s.maturity,
            Tx::Mint(_) => 0,
        }
    }
    pub fn set_common(&mut self, price: Option<u64>, limit: Option<u64>, mat: Option<u64>) {
        let (p, l, m) = match self {
            Tx::Script(s) => (&mut s.gas_price, &mut s.gas_limit, &mut s.maturity),
            Tx::Create(s) => (&mut s.gas_price, &mut s.gas_limit, &mut s.maturity),
            Tx::Mint(_) => return,
        };
        if let Some(x) = price {
            *p = x
        }
        if let Some(x) = limit {
            *l = x
        }
        if let Some(x) = mat {
            *m = x
        }
    }
    /// canonical signing form: what the id hashes
    pub fn signing_form(&self) -> Tx {
        let mut t = self.clone();
        match &mut t {
            Tx::Mint(_) => return t,
            Tx::Script(s) => {
                s.receipts_root = ZERO;
                s.wits.clear();
            }
            Tx::Create(c) => c.wits.clear(),
        }
        if let Some(i) = t.ins_mut() {
            i.iter_mut().for_each(In::strip)
        }
        t.outs_mut().iter_mut().for_each(Out::strip);
        t
    }
    pub fn id(&self) -> B32 {
        sha(&[&self.signing_form().encode()])
    }
    /// bytes excluding witnesses
    pub fn metered(&self) -> usize {
        let mut t = self.clone();
        if let Some(w) = t.wits_mut() {
            w.clear()
        }
        t.encode().len()
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Tx::Script(_) => "script",
            Tx::Create(_) => "create",
            Tx::Mint(_) => "mint",
        }
    }
}

pub fn message_id_in(sender: &B32, rcpt: &B32, nonce: u64, amount: u64, data: &[u8]) -> B32 {
    sha(&[sender, rcpt, &nonce.to_be_bytes(), &amount.to_be_bytes(), data])
}

// ---------------------------------------------------------------- Merkle references

/// RFC 6962 style tree over the given leaves.
pub fn binary_root(leaves: &[&[u8]]) -> B32 {
    match leaves.len() {
        0 => sha(&[&[]]),
        1 => sha(&[&[0u8], leaves[0]]),
        n => {
            let mut k = 1;
            while k * 2 < n {
                k *= 2;
            }
            let l = binary_root(&leaves[..k]);
            let r = binary_root(&leaves[k..]);
            sha(&[&[1u8], &l, &r])
        }
    }
}

pub fn code_root(code: &[u8]) -> B32 {
    let mut padded = code.to_vec();
    while padded.len() % 8 != 0 {
        padded.push(0);
    }
    let leaves: Vec<&[u8]> = padded.chunks(8).collect();
    binary_root(&leaves)
}

/// Sparse Merkle tree, computed top-down over the key set (single-leaf subtrees collapse).
pub fn sparse_root(slots: &[(B32, Vec<u8>)]) -> B32 {
    // last write wins
    let mut m = std::collections::BTreeMap::new();
    for (k, v) in slots {
        m.insert(*k, v.clone());
    }
    let v: Vec<(B32, Vec<u8>)> = m.into_iter().collect();
    fn go(v: &[(B32, Vec<u8>)], depth: usize) -> B32 {
        match v.len() {
            0 => ZERO,
            1 => sha(&[&[0u8], &v[0].0, &sha(&[&v[0].1])]),
            _ => {
                let split = v.partition_point(|(k, _)| (k[depth / 8] >> (7 - depth % 8)) & 1 == 0);
                let l = go(&v[..split], depth + 1);
                let r = go(&v[split..], depth + 1);
                sha(&[&[1u8], &l, &r])
            }
        }
    }
    go(&v, 0)
}

pub fn contract_id(salt: &B32, root: &B32, state_root: &B32) -> B32 {
    sha(&[&[0x46, 0x55, 0x45, 0x4C], salt, root, state_root])
}

// ---------------------------------------------------------------- receipts

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rc {
    Call { id: B32, to: B32, amount: u64, asset: B32, gas: u64, p1: u64, p2: u64, pc: u64, is: u64 },
    Return { id: B32, val: u64, pc: u64, is: u64 },
    ReturnData { id: B32, ptr: u64, len: u64, digest: B32, data: Vec<u8>, pc: u64, is: u64 },
    Panic { id: B32, reason: u8, instr: u32, pc: u64, is: u64, cid: Option<B32> },
    Revert { id: B32, ra: u64, pc: u64, is: u64 },
    Log { id: B32, ra: u64, rb: u64, rc: u64, rd: u64, pc: u64, is: u64 },
    LogData { id: B32, ra: u64, rb: u64, ptr: u64, len: u64, digest: B32, data: Vec<u8>, pc: u64, is: u64 },
    Transfer { id: B32, to: B32, amount: u64, asset: B32, pc: u64, is: u64 },
    TransferOut { id: B32, to: B32, amount: u64, asset: B32, pc: u64, is: u64 },
    ScriptResult { result: u64, gas_used: u64 },
    MessageOut { mid: B32, sender: B32, rcpt: B32, amount: u64, nonce: B32, len: u64, digest: B32, data: Vec<u8> },
}

/// Reference encoding of a receipt's content (without the fixed trailing padding some kinds have).
pub fn enc_receipt(e: &mut Enc, r: &Rc) {
    match r {
        Rc::Call { id, to, amount, asset, gas, p1, p2, pc, is } => {
            e.word("kind", 0);
            e.b32("id", id);
            e.b32("to", to);
            e.word("amount", *amount);
            e.b32("asset", asset);
            e.word("gas", *gas);
            e.word("param1", *p1);
            e.word("param2", *p2);
            e.word("pc", *pc);
            e.word("is", *is);
        }
        Rc::Return { id, val, pc, is } => {
            e.word("kind", 1);
            e.b32("id", id);
            e.word("val", *val);
            e.word("pc", *pc);
            e.word("is", *is);
        }
        Rc::ReturnData { id, ptr, len, digest, data, pc, is } => {
            e.word("kind", 2);
            e.b32("id", id);
            e.word("ptr", *ptr);
            e.word("len", *len);
            e.b32("digest", digest);
            e.word("data_len", data.len() as u64);
            e.raw("data", data);
            e.word("pc", *pc);
            e.word("is", *is);
        }
        Rc::Panic { id, reason, instr, pc, is, .. } => {
            e.word("kind", 3);
            e.b32("id", id);
            e.word("reason", ((*reason as u64) << 56) | ((*instr as u64) << 24));
            e.word("pc", *pc);
            e.word("is", *is);
        }
        Rc::Revert { id, ra, pc, is } => {
            e.word("kind", 4);
            e.b32("id", id);
            e.word("ra", *ra);
            e.word("pc", *pc);
            e.word("is", *is);
        }
        Rc::Log { id, ra, rb, rc, rd, pc, is } => {
            e.word("kind", 5);
            e.b32("id", id);
            e.word("ra", *ra);
            e.word("rb", *rb);
            e.word("rc", *rc);
            e.word("rd", *rd);
            e.word("pc", *pc);
            e.word("is", *is);
        }
        Rc::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => {
            e.word("kind", 6);
            e.b32("id", id);
            e.word("ra", *ra);
            e.word("rb", *rb);
            e.word("ptr", *ptr);
            e.word("len", *len);
            e.b32("digest", digest);
            e.word("data_len", data.len() as u64);
            e.raw("data", data);
            e.word("pc", *pc);
            e.word("is", *is);
        }
        Rc::Transfer { id, to, amount, asset, pc, is } => {
            e.word("kind", 7);
            e.b32("id", id);
            e.b32("to", to);
            e.word("amount", *amount);
            e.b32("asset", asset);
            e.word("pc", *pc);
            e.word("is", *is);
        }
        Rc::TransferOut { id, to, amount, asset, pc, is } => {
            e.word("kind", 8);
            e.b32("id", id);
            e.b32("to", to);
            e.word("amount", *amount);
            e.b32("asset", asset);
            e.word("pc", *pc);
            e.word("is", *is);
        }
        Rc::ScriptResult { result, gas_used } => {
            e.word("kind", 9);
            e.word("result", *result);
            e.word("gas_used", *gas_used);
        }
        Rc::MessageOut { mid, sender, rcpt, amount, nonce, len, digest, data } => {
            e.word("kind", 10);
            e.b32("message_id", mid);
            e.b32("sender", sender);
            e.b32("recipient", rcpt);
            e.word("amount", *amount);
            e.b32("nonce", nonce);
            e.word("len", *len);
            e.b32("digest", digest);
            e.word("data_len", data.len() as u64);
            e.raw("data", data);
        }
    }
}

impl Rc {
    pub fn kind(&self) -> &'static str {
        match self {
            Rc::Call { .. } => "Call",
            Rc::Return { .. } => "Return",
            Rc::ReturnData { .. } => "ReturnData",
            Rc::Panic { .. } => "Panic",
            Rc::Revert { .. } => "Revert",
            Rc::Log { .. } => "Log",
            Rc::LogData { .. } => "LogData",
            Rc::Transfer { .. } => "Transfer",
            Rc::TransferOut { .. } => "TransferOut",
            Rc::ScriptResult { .. } => "ScriptResult",
            Rc::MessageOut { .. } => "MessageOut",
        }
    }
}
