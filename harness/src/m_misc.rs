//! C14 offsets, C15 cached metadata, C17 contract roots and ids, C20 preparation, C22 parameters, C25 queries.

use crate::by_kind;
use crate::conv::*;
use crate::ex::{hash_of, Ex};
use crate::gen;
use crate::keys;
use crate::m_check::{become_create, become_mint, become_script};
use crate::m_text::{arb_fields, params_fields, params_of, PARAM_DEFAULTS};
use crate::model::*;
use crate::mutate;
use crate::rng::Rng;
use crate::stats::{hex, short, Ctx};
use crate::Prop;
use fuel_tx::field::{BytecodeLength, BytecodeWitnessIndex, Inputs, Outputs, ReceiptsRoot, Salt as SaltF, Script as ScriptF, ScriptData, StorageSlots, TxPointer as TxPointerF, Witnesses};
use fuel_tx::{
    Address, Cacheable, Checkable, ConsensusParameters, Contract, Create, Input, InputRepr, Mint, OutputRepr, Script, StorageSlot,
    Transaction, TransactionFee, TransactionRepr, UniqueIdentifier, Witness,
};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::collections::BTreeMap;

/// keep lists and byte strings short
pub fn trim(m: &mut Tx, elems: usize, len: usize) {
    if let Some(v) = m.ins_mut() {
        v.truncate(elems);
        for i in v {
            match i {
                In::CoinPred { pred, pdata, .. } => {
                    pred.truncate(len);
                    pdata.truncate(len)
                }
                In::MsgSigned { data, .. } => data.truncate(len),
                In::MsgPred { pred, pdata, data, .. } => {
                    pred.truncate(len);
                    pdata.truncate(len);
                    data.truncate(len)
                }
                _ => {}
            }
        }
    }
    m.outs_mut().truncate(elems);
    if let Some(v) = m.wits_mut() {
        v.truncate(elems);
        v.iter_mut().for_each(|w| w.truncate(len));
    }
    match m {
        Tx::Script(s) => {
            s.script.truncate(len);
            s.data.truncate(len)
        }
        Tx::Create(c) => c.slots.truncate(elems),
        Tx::Mint(_) => {}
    }
}

/// a transaction that may also contain predicate inputs with an empty predicate
fn any_tx(r: &mut Rng) -> Tx {
    let mut m = gen::arb_tx(r);
    if r.chance(1, 10) {
        if let Some(v) = m.ins_mut() {
            for i in v {
                if let In::CoinPred { pred, .. } | In::MsgPred { pred, .. } = i {
                    if r.chance(1, 2) {
                        pred.clear()
                    }
                }
            }
        }
    }
    m
}

// ---------------------------------------------------------------- every observable answer

/// All answers a transaction gives, as (query, answer) pairs.
type Answers = Vec<(String, String)>;

macro_rules! put {
    ($v:expr, $k:expr, $x:expr) => {
        $v.push(($k.to_string(), format!("{:?}", $x)))
    };
}

fn probe_at(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if n <= 12 { (0..n).collect() } else { (0..6).chain(n - 6..n).collect() };
    if n > 12 {
        v.extend([n / 2, 127, 128, 129, 254, 255, 256, 257].into_iter().filter(|i| *i < n));
    }
    v.extend([n, n + 1, n + 7, usize::MAX]);
    v
}

fn common<T: Inputs + Outputs + Witnesses>(v: &mut Answers, t: &T) {
    put!(v, "inputs_offset", t.inputs_offset());
    put!(v, "outputs_offset", t.outputs_offset());
    put!(v, "witnesses_offset", t.witnesses_offset());
    for i in probe_at(t.inputs().len()) {
        put!(v, format!("inputs_offset_at({i})"), t.inputs_offset_at(i));
        put!(v, format!("inputs_predicate_offset_at({i})"), t.inputs_predicate_offset_at(i));
    }
    for i in probe_at(t.outputs().len()) {
        put!(v, format!("outputs_offset_at({i})"), t.outputs_offset_at(i));
    }
    for i in probe_at(t.witnesses().len()) {
        put!(v, format!("witnesses_offset_at({i})"), t.witnesses_offset_at(i));
    }
}

fn exec_answers<T: Ex>(v: &mut Answers, t: &T, h: u64, p: &ConsensusParameters) {
    put!(v, "id", t.id());
    put!(v, "serialized_size", t.serialized_size());
    put!(v, "metered_bytes_size", t.metered_bytes_size());
    put!(v, "gas_price", t.price());
    put!(v, "gas_limit", t.limit());
    put!(v, "fee", TransactionFee::checked_from_tx(p, t));
    put!(v, "check_without_signatures", t.check_without_signatures(h, p));
    put!(v, "check_signatures", t.check_signatures());
    put!(v, "check", t.check(h, p));
    put!(v, "into_checked_basic", t.clone().into_checked_basic(h, p).map(|c| c.transaction().id()));
    put!(v, "input_asset_ids", t.input_asset_ids().collect::<Vec<_>>());
    put!(v, "input_asset_ids_unique", t.input_asset_ids_unique().collect::<Vec<_>>());
    put!(v, "input_contracts", t.input_contracts().collect::<Vec<_>>());
    put!(v, "check_predicate_owners", t.check_predicate_owners());
    put!(v, "to_bytes", hex(&t.clone().to_bytes()));
    put!(v, "json", serde_json::to_string(t).ok());
    put!(v, "binary", bincode::serialize(t).ok());
    put!(v, "hash", hash_of(t));
    common(v, t);
}

pub trait Kind: Clone + Default + PartialEq + std::fmt::Debug + Cacheable + std::hash::Hash + SerializableVec + Deserializable + SizedBytes + UniqueIdentifier + Into<Transaction> + serde::Serialize + serde::de::DeserializeOwned {
    fn real(m: &Tx) -> Self;
    fn become_(&mut self, m: &Tx);
    fn answers(&self, h: u64, p: &ConsensusParameters) -> Answers;
    fn io_write(&mut self, b: &[u8]) -> std::io::Result<usize>;
    fn from_tx(t: Transaction) -> Option<Self>;
}
impl Kind for Script {
    fn real(m: &Tx) -> Self {
        Ex::real(m)
    }
    fn become_(&mut self, m: &Tx) {
        match m {
            Tx::Script(m) => become_script(self, m),
            _ => panic!("kind"),
        }
    }
    fn answers(&self, h: u64, p: &ConsensusParameters) -> Answers {
        let mut v = vec![];
        exec_answers(&mut v, self, h, p);
        put!(v, "script_offset", self.script_offset());
        put!(v, "script_data_offset", self.script_data_offset());
        put!(v, "receipts_root_offset", self.receipts_root_offset());
        v
    }
    fn io_write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        std::io::Write::write(self, b)
    }
    fn from_tx(t: Transaction) -> Option<Self> {
        t.as_script().cloned()
    }
}
impl Kind for Create {
    fn real(m: &Tx) -> Self {
        Ex::real(m)
    }
    fn become_(&mut self, m: &Tx) {
        match m {
            Tx::Create(m) => become_create(self, m),
            _ => panic!("kind"),
        }
    }
    fn answers(&self, h: u64, p: &ConsensusParameters) -> Answers {
        let mut v = vec![];
        exec_answers(&mut v, self, h, p);
        put!(v, "storage_slots_offset", self.storage_slots_offset());
        for i in probe_at(self.storage_slots().len()) {
            put!(v, format!("storage_slots_offset_at({i})"), self.storage_slots_offset_at(i));
        }
        put!(v, "contract", Contract::try_from(self).map(|c| hex(c.as_ref())));
        v
    }
    fn io_write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        std::io::Write::write(self, b)
    }
    fn from_tx(t: Transaction) -> Option<Self> {
        t.as_create().cloned()
    }
}
impl Kind for Mint {
    fn real(m: &Tx) -> Self {
        match m {
            Tx::Mint(m) => r_mint(m),
            _ => panic!("kind"),
        }
    }
    fn become_(&mut self, m: &Tx) {
        match m {
            Tx::Mint(m) => become_mint(self, m),
            _ => panic!("kind"),
        }
    }
    fn answers(&self, h: u64, p: &ConsensusParameters) -> Answers {
        let mut v = vec![];
        put!(v, "id", self.id());
        put!(v, "serialized_size", self.serialized_size());
        put!(v, "check_without_signatures", self.check_without_signatures(h, p));
        put!(v, "check_signatures", self.check_signatures());
        put!(v, "to_bytes", hex(&self.clone().to_bytes()));
        put!(v, "json", serde_json::to_string(self).ok());
        put!(v, "binary", bincode::serialize(self).ok());
        put!(v, "hash", hash_of(self));
        put!(v, "tx_pointer_offset", self.tx_pointer_offset());
        put!(v, "outputs_offset", self.outputs_offset());
        for i in probe_at(self.outputs().len()) {
            put!(v, format!("outputs_offset_at({i})"), self.outputs_offset_at(i));
        }
        v
    }
    fn io_write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        std::io::Write::write(self, b)
    }
    fn from_tx(t: Transaction) -> Option<Self> {
        t.as_mint().cloned()
    }
}

/// run `$f::<Kind>` by the kind of the model
#[macro_export]
macro_rules! by_any {
    ($t:expr, $f:ident ( $($a:expr),* )) => {
        match $t {
            $crate::model::Tx::Script(_) => $f::<fuel_tx::Script>($($a),*),
            $crate::model::Tx::Create(_) => $f::<fuel_tx::Create>($($a),*),
            $crate::model::Tx::Mint(_) => $f::<fuel_tx::Mint>($($a),*),
        }
    };
}

fn differ(a: &Answers, b: &Answers) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} answers against {}", a.len(), b.len()));
    }
    a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| format!("{}: {} against {}", x.0, short(&x.1), short(&y.1)))
}

// ---------------------------------------------------------------- C14

struct Where<'a> {
    l: &'a crate::layout::Enc,
    index: BTreeMap<&'a str, usize>,
}
impl<'a> Where<'a> {
    fn new(l: &'a crate::layout::Enc) -> Self {
        // the first span of a name wins
        let mut index = BTreeMap::new();
        for (i, s) in l.spans.iter().enumerate() {
            index.entry(s.path.as_str()).or_insert(i);
        }
        Where { l, index }
    }
    fn off(&self, p: &str) -> Option<usize> {
        self.index.get(p).map(|i| self.l.spans[*i].off)
    }
    fn len(&self, p: &str) -> Option<usize> {
        self.index.get(p).map(|i| self.l.spans[*i].len)
    }
}

fn at(cx: &mut Ctx, w: &Where, what: &str, got: usize, path: &str) {
    match w.off(path) {
        Some(o) => {
            cx.eq(what, got, o);
        }
        None => panic!("no span {path}"),
    }
    cx.hit("field_offsets");
}

fn elements(cx: &mut Ctx, w: &Where, what: &str, name: &str, n: usize, f: &dyn Fn(usize) -> Option<usize>) {
    for i in probe_at(n) {
        let want = if i < n { w.off(&format!("{name}[{i}]")) } else { None };
        cx.eq(&format!("{what}({i}) of {n}"), f(i), want);
        cx.hit(if i < n { "element_offsets" } else { "past_the_end" });
    }
}

/// The sites the offsets point at must also hold the very bytes of the real encoding.
fn tail<T: Inputs + Outputs + Witnesses>(cx: &mut Ctx, w: &Where, bytes: &[u8], t: &T, m: &Tx) {
    at(cx, w, "inputs_offset", t.inputs_offset(), "inputs");
    at(cx, w, "outputs_offset", t.outputs_offset(), "outputs");
    at(cx, w, "witnesses_offset", t.witnesses_offset(), "witnesses");
    elements(cx, w, "inputs_offset_at", "input", m.ins().len(), &|i| t.inputs_offset_at(i));
    elements(cx, w, "outputs_offset_at", "output", m.outs().len(), &|i| t.outputs_offset_at(i));
    elements(cx, w, "witnesses_offset_at", "witness", m.wits().len(), &|i| t.witnesses_offset_at(i));
    for i in probe_at(m.ins().len()) {
        let want = m.ins().get(i).and_then(|x| {
            let p = x.pred()?;
            Some((w.off(&format!("input[{i}].predicate"))?, (p.len() + 7) / 8 * 8))
        });
        let got = t.inputs_predicate_offset_at(i);
        cx.eq(&format!("inputs_predicate_offset_at({i})"), got, want);
        if let (Some((o, n)), Some(p)) = (got, m.ins().get(i).and_then(|x| x.pred())) {
            cx.ck(n >= p.len() && bytes.get(o..o + p.len()) == Some(&p[..]), || format!("no predicate at the reported offset {o} of input {i}"));
            cx.hit("predicate_offsets");
        }
    }
    for (i, x) in t.inputs().iter().enumerate() {
        if let Some(o) = t.inputs_offset_at(i) {
            let e = x.clone().to_bytes();
            cx.ck(bytes.get(o..o + e.len()) == Some(&e[..]), || format!("input {i} is not at its offset {o}"));
        }
    }
    for (i, x) in t.outputs().iter().enumerate() {
        if let Some(o) = t.outputs_offset_at(i) {
            let e = x.clone().to_bytes();
            cx.ck(bytes.get(o..o + e.len()) == Some(&e[..]), || format!("output {i} is not at its offset {o}"));
        }
    }
    for (i, x) in t.witnesses().iter().enumerate() {
        if let Some(o) = t.witnesses_offset_at(i) {
            let e = x.clone().to_bytes();
            cx.ck(bytes.get(o..o + e.len()) == Some(&e[..]), || format!("witness {i} is not at its offset {o}"));
        }
    }
}

fn head<T: Ex>(cx: &mut Ctx, w: &Where, t: &T) {
    at(cx, w, "gas_price_offset", t.gas_price_offset(), "gas_price");
    at(cx, w, "gas_limit_offset", t.gas_limit_offset(), "gas_limit");
    at(cx, w, "maturity_offset", t.maturity_offset(), "maturity");
    at(cx, w, "gas_price_offset_static", T::gas_price_offset_static(), "gas_price");
    at(cx, w, "gas_limit_offset_static", T::gas_limit_offset_static(), "gas_limit");
    at(cx, w, "maturity_offset_static", T::maturity_offset_static(), "maturity");
}

fn offsets_script(cx: &mut Ctx, w: &Where, t: &Script, m: &Tx) {
    head(cx, w, t);
    at(cx, w, "receipts_root_offset", t.receipts_root_offset(), "receipts_root");
    at(cx, w, "receipts_root_offset_static", Script::receipts_root_offset_static(), "receipts_root");
    at(cx, w, "script_offset", t.script_offset(), "script");
    at(cx, w, "script_offset_static", Script::script_offset_static(), "script");
    at(cx, w, "script_data_offset", t.script_data_offset(), "script_data");
    tail(cx, w, &w.l.buf, t, m);
}
fn offsets_create(cx: &mut Ctx, w: &Where, t: &Create, m: &Tx) {
    head(cx, w, t);
    at(cx, w, "bytecode_length_offset", t.bytecode_length_offset(), "bytecode_length");
    at(cx, w, "bytecode_length_offset_static", Create::bytecode_length_offset_static(), "bytecode_length");
    at(cx, w, "bytecode_witness_index_offset", t.bytecode_witness_index_offset(), "bytecode_witness_index");
    at(cx, w, "bytecode_witness_index_offset_static", Create::bytecode_witness_index_offset_static(), "bytecode_witness_index");
    at(cx, w, "salt_offset", t.salt_offset(), "salt");
    at(cx, w, "salt_offset_static", Create::salt_offset_static(), "salt");
    at(cx, w, "storage_slots_offset", t.storage_slots_offset(), "slots");
    at(cx, w, "storage_slots_offset_static", Create::storage_slots_offset_static(), "slots");
    let n = match m {
        Tx::Create(c) => c.slots.len(),
        _ => 0,
    };
    elements(cx, w, "storage_slots_offset_at", "slot", n, &|i| t.storage_slots_offset_at(i));
    tail(cx, w, &w.l.buf, t, m);
}
fn offsets_mint(cx: &mut Ctx, w: &Where, t: &Mint, m: &Tx) {
    at(cx, w, "tx_pointer_offset", t.tx_pointer_offset(), "tx_pointer");
    at(cx, w, "tx_pointer_static", Mint::tx_pointer_static(), "tx_pointer");
    at(cx, w, "outputs_offset", t.outputs_offset(), "outputs");
    elements(cx, w, "outputs_offset_at", "output", m.outs().len(), &|i| t.outputs_offset_at(i));
}

fn repr_off(cx: &mut Ctx, w: &Where, what: &str, got: Option<usize>, want: Option<&str>) {
    let want = want.map(|p| w.off(p).unwrap_or_else(|| panic!("no span {p}")));
    cx.eq(what, got, want);
    cx.hit("element_field_offsets");
}

fn in_offsets(cx: &mut Ctx, mi: &In) {
    let x = r_in(mi);
    let mut l = crate::layout::Enc::new();
    enc_in(&mut l, mi);
    let w = Where::new(&l);
    let k = mi.kind();
    let coin = mi.is_coin();
    let contract = matches!(mi, In::Contract { .. });
    let msg = !coin && !contract;
    let s = |c: bool, p: &'static str| if c { Some(p) } else { None };
    let by_kind = if coin {
        InputRepr::Coin
    } else if contract {
        InputRepr::Contract
    } else {
        InputRepr::Message
    };
    cx.ck(x.repr() == by_kind && InputRepr::from(&x) == by_kind && InputRepr::from_input(&x) == by_kind, || format!("representation of {k}"));
    let r = x.repr();
    cx.eq("representation from its number", InputRepr::try_from(r.clone() as u64).ok(), Some(r.clone()));
    repr_off(cx, &w, &format!("{k}.utxo_id_offset"), r.utxo_id_offset(), s(coin || contract, "utxo_id"));
    repr_off(cx, &w, &format!("{k}.owner_offset"), r.owner_offset(), s(coin, "owner"));
    repr_off(cx, &w, &format!("{k}.asset_id_offset"), r.asset_id_offset(), s(coin, "asset_id"));
    repr_off(cx, &w, &format!("{k}.data_offset"), r.data_offset(), s(msg, "data"));
    repr_off(cx, &w, &format!("{k}.coin_predicate_offset"), r.coin_predicate_offset(), s(coin, "predicate"));
    repr_off(cx, &w, &format!("{k}.contract_balance_root_offset"), r.contract_balance_root_offset(), s(contract, "balance_root"));
    repr_off(cx, &w, &format!("{k}.contract_state_root_offset"), r.contract_state_root_offset(), s(contract, "state_root"));
    repr_off(cx, &w, &format!("{k}.contract_id_offset"), r.contract_id_offset(), s(contract, "contract_id"));
    repr_off(cx, &w, &format!("{k}.message_id_offset"), r.message_id_offset(), s(msg, "message_id"));
    repr_off(cx, &w, &format!("{k}.message_sender_offset"), r.message_sender_offset(), s(msg, "sender"));
    repr_off(cx, &w, &format!("{k}.message_recipient_offset"), r.message_recipient_offset(), s(msg, "recipient"));
    repr_off(cx, &w, &format!("{k}.tx_pointer_offset"), r.tx_pointer_offset(), s(coin || contract, "tx_pointer"));
    let pred = mi.pred().is_some();
    repr_off(cx, &w, &format!("{k}.predicate_offset"), x.predicate_offset(), s(pred, "predicate"));
    repr_off(cx, &w, &format!("{k}.predicate_data_offset"), x.predicate_data_offset(), s(pred, "predicate_data"));
    let lens = |p: &str| if contract { None } else { Some(w.len(p).expect("span")) };
    cx.eq(&format!("{k}.predicate_len"), x.predicate_len(), lens("predicate"));
    cx.eq(&format!("{k}.predicate_data_len"), x.predicate_data_len(), lens("predicate_data"));
    if coin {
        repr_off(cx, &w, "Input::coin_predicate_offset", Some(Input::coin_predicate_offset()), Some("predicate"));
    }
    if msg {
        repr_off(cx, &w, "Input::message_data_offset", Some(Input::message_data_offset()), Some("data"));
    }
    cx.eq(&format!("{k}: size"), x.serialized_size(), l.buf.len());
}

fn out_offsets(cx: &mut Ctx, mo: &Out) {
    let x = r_out(mo);
    let mut l = crate::layout::Enc::new();
    enc_out(&mut l, mo);
    let w = Where::new(&l);
    let k = mo.kind();
    let ccv = matches!(mo, Out::Coin { .. } | Out::Change { .. } | Out::Variable { .. });
    let contract = matches!(mo, Out::Contract { .. });
    let created = matches!(mo, Out::Created { .. });
    let s = |c: bool, p: &'static str| if c { Some(p) } else { None };
    let want = match mo {
        Out::Coin { .. } => OutputRepr::Coin,
        Out::Contract { .. } => OutputRepr::Contract,
        Out::Msg { .. } => OutputRepr::Message,
        Out::Change { .. } => OutputRepr::Change,
        Out::Variable { .. } => OutputRepr::Variable,
        Out::Created { .. } => OutputRepr::ContractCreated,
    };
    let r = x.repr();
    cx.ck(r == want && OutputRepr::from(&x) == want && OutputRepr::from(&mut x.clone()) == want && OutputRepr::from_output(&x) == want, || format!("representation of {k}"));
    cx.eq("representation from its number", OutputRepr::try_from(r.clone() as u64).ok(), Some(r.clone()));
    repr_off(cx, &w, &format!("{k}.to_offset"), r.to_offset(), s(ccv, "to"));
    repr_off(cx, &w, &format!("{k}.asset_id_offset"), r.asset_id_offset(), s(ccv, "asset_id"));
    repr_off(cx, &w, &format!("{k}.contract_balance_root_offset"), r.contract_balance_root_offset(), s(contract, "balance_root"));
    repr_off(cx, &w, &format!("{k}.contract_state_root_offset"), r.contract_state_root_offset(), s(contract, "state_root"));
    repr_off(cx, &w, &format!("{k}.contract_created_state_root_offset"), r.contract_created_state_root_offset(), s(created, "state_root"));
    repr_off(cx, &w, &format!("{k}.contract_id_offset"), r.contract_id_offset(), s(created, "contract_id"));
    repr_off(cx, &w, &format!("{k}.recipient_offset"), r.recipient_offset(), s(matches!(mo, Out::Msg { .. }), "recipient"));
    cx.eq(&format!("{k}: size"), x.serialized_size(), l.buf.len());
}

fn c14(cx: &mut Ctx, r: &mut Rng) {
    let mut m = any_tx(r);
    if r.chance(1, 300) {
        gen::crowd(r, &mut m);
        cx.hit("many_elements");
    }
    cx.shape(gen::shape(&m));
    cx.sample(|| gen::describe(&m));
    let l = m.layout();
    let w = Where::new(&l);
    match &m {
        Tx::Script(x) => {
            let mut t = r_script(x);
            cx.ck(t.clone().to_bytes() == l.buf, || "encoding differs from the reference".into());
            offsets_script(cx, &w, &t, &m);
            t.precompute();
            offsets_script(cx, &w, &t, &m);
            cx.eq("fixed size", fuel_tx::consts::TRANSACTION_SCRIPT_FIXED_SIZE, w.off("script").unwrap_or(0));
        }
        Tx::Create(x) => {
            let mut t = r_create(x);
            cx.ck(t.clone().to_bytes() == l.buf, || "encoding differs from the reference".into());
            offsets_create(cx, &w, &t, &m);
            t.precompute();
            offsets_create(cx, &w, &t, &m);
            cx.eq("fixed size", fuel_tx::consts::TRANSACTION_CREATE_FIXED_SIZE, w.off("slots").unwrap_or(0));
        }
        Tx::Mint(x) => {
            let mut t = r_mint(x);
            cx.ck(t.clone().to_bytes() == l.buf, || "encoding differs from the reference".into());
            offsets_mint(cx, &w, &t, &m);
            t.precompute();
            offsets_mint(cx, &w, &t, &m);
            cx.eq("fixed size", fuel_tx::consts::TRANSACTION_MINT_FIXED_SIZE, w.off("outputs").unwrap_or(0));
        }
    }
    for k in 0..5 {
        let mut mi = gen::arb_in_kind(r, k);
        if r.chance(1, 8) {
            if let In::CoinPred { pred, .. } | In::MsgPred { pred, .. } = &mut mi {
                pred.clear()
            }
        }
        in_offsets(cx, &mi);
    }
    for k in 0..6 {
        let mo = gen::arb_out_kind(r, k);
        out_offsets(cx, &mo);
    }
}

// ---------------------------------------------------------------- C15

fn cached<T: Kind>(cx: &mut Ctx, r: &mut Rng, m: &Tx, h: u64, p: &ConsensusParameters) {
    let t = T::real(m);
    cx.ck(!t.is_computed(), || "a constructed transaction claims to have cached data".into());
    let plain = t.answers(h, p);
    let mut c = t.clone();
    c.precompute();
    cx.ck(c.is_computed(), || "precompute left no cached data".into());
    let fast = c.answers(h, p);
    if let Some(d) = differ(&fast, &plain) {
        cx.fail(format!("cached differs from uncached: {d}"));
    }
    cx.add("oracle_checks", plain.len() as u64);
    cx.hit("answer_sets");
    cx.ck(c == t && t == c && hash_of(&c) == hash_of(&t), || "cached and uncached are not equal".into());
    // clones keep it
    let d = c.clone();
    cx.ck(d.is_computed() && d == c, || "a clone lost the cached data".into());
    if let Some(x) = differ(&d.answers(h, p), &plain) {
        cx.fail(format!("clone of a cached transaction: {x}"));
    }
    let e = t.clone();
    cx.ck(!e.is_computed(), || "a clone gained cached data".into());
    // recomputing again changes nothing
    let mut d2 = c.clone();
    d2.precompute();
    if let Some(x) = differ(&d2.answers(h, p), &plain) {
        cx.fail(format!("recomputing: {x}"));
    }
    // the encoding is not touched by asking for it
    let bytes = c.to_bytes();
    cx.ck(bytes == m.encode(), || "cached encoding differs from the reference".into());
    cx.ck(c.is_computed(), || "encoding dropped the cached data".into());
    // modification and recomputation, several times over
    let mut cur = m.clone();
    for _ in 0..1 + r.idx(4) {
        for _ in 0..1 + r.idx(3) {
            mutate::change(r, &mut cur);
        }
        c.become_(&cur);
        c.precompute();
        let fresh = T::real(&cur);
        if let Some(x) = differ(&c.answers(h, p), &fresh.answers(h, p)) {
            cx.fail(format!("recomputed after modification: {x}"));
        }
        cx.ck(c == fresh, || "recomputed transaction is not equal to a fresh one".into());
        cx.hit("recomputed");
    }
    // cloning over another value leaves nothing of it
    for source_cached in [false, true] {
        let mut source = T::real(&cur);
        if source_cached {
            source.precompute();
        }
        let mut dest = match r.below(4) {
            0 => T::default(),
            1 => c.clone(),
            _ => {
                let mut stale = T::real(m);
                stale.precompute();
                stale
            }
        };
        dest.clone_from(&source);
        cx.ck(dest.is_computed() == source_cached && dest == source, || "cloning over another value differs from the source".into());
        if let Some(x) = differ(&dest.answers(h, p), &T::real(&cur).answers(h, p)) {
            cx.fail(format!("cloned over another value: {x}"));
        }
        cx.hit("cloned_over");
    }
    // decoding never takes cached data over
    let fresh = T::real(&cur);
    let wire = fresh.clone().to_bytes();
    let want = fresh.answers(h, p);
    // an empty predicate does not survive the wire
    if cur.ins().iter().all(|i| i.pred().map(|p| !p.is_empty()).unwrap_or(true)) {
        let mut dests = vec![("a cached destination", c.clone()), ("a blank destination", T::default())];
        let mut other = T::real(m);
        other.precompute();
        dests.push(("another cached destination", other));
        for (name, mut dest) in dests {
            match dest.io_write(&wire) {
                Ok(_) => {
                    cx.ck(!dest.is_computed(), || format!("decoding into {name} left cached data"));
                    if let Some(x) = differ(&dest.answers(h, p), &want) {
                        cx.fail(format!("decoded into {name}: {x}"));
                    }
                    dest.precompute();
                    if let Some(x) = differ(&dest.answers(h, p), &want) {
                        cx.fail(format!("decoded into {name}, then recomputed: {x}"));
                    }
                    cx.hit("decoded_into");
                }
                Err(e) => cx.fail(format!("decoding into {name}: {e}")),
            }
        }
        match T::from_bytes(&wire) {
            Ok(x) => {
                cx.ck(!x.is_computed() && x == fresh, || "from_bytes carried cached data".into());
            }
            Err(e) => cx.fail(format!("from_bytes: {e}")),
        }
        // the same through the enum
        let mut e: Transaction = c.clone().into();
        cx.ck(e.is_computed(), || "wrapping lost the cached data".into());
        match std::io::Write::write(&mut e, &wire) {
            Ok(_) => {
                cx.ck(!e.is_computed(), || "decoding into a cached enum left cached data".into());
                e.precompute();
                cx.ck(e.is_computed(), || "precompute on the enum left none".into());
                cx.eq("id of the decoded enum", *e.id(), cur.id());
                if let Some(x) = T::from_tx(e).map(|x| differ(&x.answers(h, p), &want)) {
                    if let Some(x) = x {
                        cx.fail(format!("through the enum: {x}"))
                    }
                } else {
                    cx.fail("the enum decoded to another kind".to_string())
                }
            }
            Err(x) => cx.fail(format!("decoding into a cached enum: {x}")),
        }
        // a refused decode must not leave a half-written value that claims the cache of the old one
        let mut dest = c.clone();
        let cut = r.idx(wire.len());
        if dest.io_write(&wire[..cut]).is_err() {
            if dest.is_computed() {
                let mut x = dest.clone();
                x.precompute();
                if let Some(d) = differ(&dest.answers(h, p), &x.answers(h, p)) {
                    cx.fail(format!("after a refused decode the cached data is stale: {d}"));
                }
            }
            cx.hit("refused_decode");
        }
    }
    // deserialising
    if let Some(x) = serde_json::to_string(&c).ok().and_then(|s| serde_json::from_str::<T>(&s).ok()) {
        cx.ck(!x.is_computed() && x == fresh, || "JSON carried cached data".into());
        if let Some(d) = differ(&x.answers(h, p), &want) {
            cx.fail(format!("deserialised: {d}"));
        }
    } else {
        cx.fail("JSON round trip failed".to_string())
    }
    if let Some(x) = bincode::serialize(&c).ok().and_then(|s| bincode::deserialize::<T>(&s).ok()) {
        cx.ck(!x.is_computed() && x == fresh, || "the binary form carried cached data".into());
    } else {
        cx.fail("binary round trip failed".to_string())
    }
    // the enum answers like its content
    let mut e: Transaction = T::real(&cur).into();
    cx.ck(!e.is_computed(), || "the enum claims cached data".into());
    cx.eq("enum id", *e.id(), cur.id());
    cx.eq("enum size", e.serialized_size(), want.iter().find(|x| x.0 == "serialized_size").and_then(|x| x.1.parse().ok()).unwrap_or(0));
    e.precompute();
    cx.ck(e.is_computed(), || "the enum has no cached data".into());
    cx.eq("cached enum id", *e.id(), cur.id());
    cx.ck(e == T::real(&cur).into(), || "cached enum is not equal to the uncached one".into());
}

fn c15(cx: &mut Ctx, r: &mut Rng) {
    let (mut m, h, p) = if r.chance(1, 2) {
        let v = gen::valid(r, &gen::Opts { kind: None, signed: true, max_inputs: 4 });
        (v.tx, v.height, v.params)
    } else {
        (any_tx(r), r.word(), gen::arb_params(r))
    };
    if r.chance(9, 10) {
        trim(&mut m, 5, 80);
    }
    trim(&mut m, 40, 5000);
    if r.chance(1, 100) {
        gen::crowd(r, &mut m);
        cx.hit("many_elements");
    }
    cx.hit(format!("kind.{}", m.kind()));
    cx.shape(gen::shape(&m));
    cx.sample(|| gen::describe(&m));
    by_any!(&m, cached(cx, r, &m, h, &p));
}

// ---------------------------------------------------------------- C17

fn c17(cx: &mut Ctx, r: &mut Rng) {
    // code root
    let n = match r.below(8) {
        _ if cx.index % 500 == 41 => [65_530, 65_536, 131_070, 100_000][r.idx(4)] + r.idx(20),
        _ if cx.index == 23 => 1_048_570 + r.idx(20),
        _ if cx.index == 24 => (4 << 20) - 5 + r.idx(20),
        // the default limit on contracts
        _ if cx.index == 25 => (16 << 20) - r.idx(9),
        0 => r.idx(10),
        1 => 8 * r.idx(40) + r.idx(3),
        2 => 8 * (1 << r.idx(8)) + r.idx(17),
        3 => r.idx(3000),
        _ => r.idx(200),
    };
    let mut code = r.bytes(n);
    if r.chance(1, 4) && n > 0 {
        // repeated or zero chunks
        let k = r.idx(n);
        code[k..].iter_mut().for_each(|b| *b = 0);
    }
    let want = code_root(&code);
    let c = Contract::from(code.clone());
    cx.eq("code root", *Contract::root_from_code(&code), want);
    if n < 1 << 17 {
        // the same bytes at another address
        let at = r.idx(8);
        let mut long = vec![0x5a; at];
        long.extend_from_slice(&code);
        long.push(1);
        let code = &long[at..at + n];
        cx.eq("code root of a slice", *Contract::root_from_code(code), want);
        cx.eq("predicate owner of a slice", *Input::predicate_owner(code), want);
        cx.eq("code root of a contract from a slice", *Contract::from(code).root(), want);
        cx.hit(if code.as_ptr() as usize % 8 == 0 { "code at a word address" } else { "code at an odd address" });
    }
    if n > 2 << 20 {
        cx.hit("code of many mebibytes");
        return;
    }
    cx.eq("code root of a contract", *c.root(), want);
    cx.eq("predicate owner", *Input::predicate_owner(&code), want);
    cx.ck(Input::is_predicate_owner_valid(&Address::from(want), &code), || "the predicate owner is refused".into());
    if (1..5000).contains(&n) {
        // asked right afterwards, a neighbour has its own answers
        let mut e = code.clone();
        e[r.idx(n)] ^= 1 << r.below(8);
        let other = code_root(&e);
        cx.eq("predicate owner of a neighbour", *Input::predicate_owner(&e), other);
        cx.eq("code root of a neighbour", *Contract::root_from_code(&e), other);
        cx.ck(!Input::is_predicate_owner_valid(&Address::from(want), &e), || "the owner of a neighbouring predicate is accepted".into());
        cx.eq("predicate owner once more", *Input::predicate_owner(&code), want);
    }
    let mut near = want;
    near[r.idx(32)] ^= 1 << r.below(8);
    cx.ck(!Input::is_predicate_owner_valid(&Address::from(near), &code), || "a different owner is accepted".into());
    cx.ck(c.as_ref() == &code[..] && Vec::<u8>::from(c.clone()) == code && Contract::from(&code[..]) == c, || "a contract changed its bytes".into());
    let mut cm = code.clone();
    cx.ck(Contract::from(&mut cm[..]) == c, || "a contract changed its bytes".into());
    if n > 0 {
        let mut d = c.clone();
        let k = r.idx(n);
        d.as_mut()[k] ^= 1;
        let mut e = code.clone();
        e[k] ^= 1;
        cx.eq("root after changing a byte in place", *d.root(), code_root(&e));
    }
    cx.hit("code_roots");
    if code.len() % 8 != 0 {
        cx.hit("partial_chunk");
    }
    // state root
    let k = match r.below(4) {
        _ if cx.index % 500 == 43 => 250 + r.idx(20),
        0 => r.idx(3),
        1 => r.idx(30),
        _ => r.idx(8),
    };
    let mut slots: Vec<Slot> = Vec::new();
    for _ in 0..k {
        let mut s = gen::slot(r);
        if r.chance(1, 2) {
            if let Some(o) = slots.last() {
                // long common prefixes
                let bit = r.idx(256);
                s.key = o.key;
                s.key[bit / 8] ^= 0x80 >> (bit % 8);
            }
        }
        if !slots.iter().any(|x| x.key == s.key) {
            slots.push(s)
        }
    }
    let pairs: Vec<(B32, Vec<u8>)> = slots.iter().map(|s| (s.key, s.val.to_vec())).collect();
    let sroot = sparse_root(&pairs);
    for _ in 0..3 {
        let real: Vec<StorageSlot> = slots.iter().map(r_slot).collect();
        cx.eq(&format!("state root of {} slots", slots.len()), *Contract::initial_state_root(real.iter()), sroot);
        r.shuffle(&mut slots);
    }
    cx.eq("default state root", *Contract::default_state_root(), sparse_root(&[]));
    cx.hit("state_roots");
    // id
    let salt = r.b32();
    let (rt, st) = if r.chance(1, 2) { (want, sroot) } else { (r.b32(), r.b32()) };
    cx.eq("contract id", *c.id(&salt.into(), &rt.into(), &st.into()), contract_id(&salt, &rt, &st));
    cx.eq("contract id of another contract object", *Contract::default().id(&salt.into(), &rt.into(), &st.into()), contract_id(&salt, &rt, &st));
    // extraction
    let mut m = gen::arb_tx(r);
    trim(&mut m, 30, 400);
    if let Tx::Create(x) = &mut m {
        match r.below(4) {
            0 => x.bytecode_wit = x.wits.len() as u8,
            1 => x.bytecode_wit = x.wits.len().saturating_sub(1) as u8,
            2 if !x.wits.is_empty() => x.bytecode_wit = r.idx(x.wits.len()) as u8,
            _ => {}
        }
        // the stated bytecode length is not what selects the bytes
        if r.chance(1, 2) {
            x.bytecode_len = r.word()
        }
        let t = r_create(x);
        let got = Contract::try_from(&t);
        match x.wits.get(x.bytecode_wit as usize) {
            Some(w) => {
                cx.eq("contract of a create", got.map(Vec::<u8>::from), Ok(w.clone()));
                cx.hit("extracted");
            }
            None => {
                cx.ck(got.is_err(), || format!("a contract out of witness {} of {}", x.bytecode_wit, x.wits.len()));
                cx.hit("no_witness");
            }
        }
    }
    let got = Contract::try_from(&r_tx(&m));
    match &m {
        Tx::Create(x) => match x.wits.get(x.bytecode_wit as usize) {
            Some(w) => {
                cx.eq("contract of a transaction", got.map(Vec::<u8>::from), Ok(w.clone()));
            }
            None => {
                cx.ck(got.is_err(), || "a contract without a witness".into());
            }
        },
        _ => {
            cx.ck(got.is_err(), || format!("a contract out of a {}", m.kind()));
            cx.hit("not_a_create");
        }
    }
    cx.shape(crate::rng::fnv(&[&want[..], &sroot[..]].concat()));
    cx.sample(|| format!("{} code bytes, {} slots -> {}", code.len(), slots.len(), hex(&contract_id(&salt, &rt, &st))));
}

// ---------------------------------------------------------------- C20

fn prepared<T: Ex>(cx: &mut Ctx, r: &mut Rng, m: &Tx) {
    let t = T::real(m);
    let want_id = m.id();
    // script
    let mut ws = m.clone();
    ws.outs_mut().iter_mut().for_each(Out::strip_script);
    let mut wp = m.clone();
    if let Some(v) = wp.ins_mut() {
        v.iter_mut().for_each(In::strip)
    }
    wp.outs_mut().iter_mut().for_each(Out::strip);
    for (what, want, which) in [("prepare_init_script", &ws, 0), ("prepare_init_predicate", &wp, 1)] {
        for cache in [false, true] {
            let mut x = t.clone();
            if cache {
                x.precompute()
            }
            let before = light(&x);
            for round in 0..2 {
                if which == 0 {
                    x.prepare_init_script();
                } else {
                    x.prepare_init_predicate();
                }
                let got = x.model();
                if !cx.ck(got == *want, || format!("{what} (round {round}, cached {cache}): {}", first_diff(&got, want))) {
                    return;
                }
                cx.eq(&format!("{what}: id"), *x.id(), want_id);
                if let Some(d) = differ(&light(&x), &before) {
                    cx.fail(format!("{what} moved something: {d}"));
                }
            }
            x.precompute();
            cx.eq(&format!("{what}: recomputed id"), *x.id(), want_id);
            cx.hit(what);
        }
    }
    // both, either way round
    let mut a = t.clone();
    a.prepare_init_script().prepare_init_predicate();
    let mut b = t.clone();
    b.prepare_init_predicate().prepare_init_script();
    cx.ck(a.model() == wp && b.model() == wp, || "the two preparations do not commute".into());
    // element-wise forms
    for mo in m.outs().iter().chain([&gen::arb_out(r)]) {
        let mut w = mo.clone();
        w.strip_script();
        let mut x = r_out(mo);
        x.prepare_init_script();
        cx.eq("output prepared for a script", m_out(&x), w.clone());
        x.prepare_init_script();
        cx.eq("output prepared for a script twice", m_out(&x), w);
        let mut w = mo.clone();
        w.strip();
        let mut x = r_out(mo);
        x.prepare_init_predicate();
        cx.eq("output prepared for a predicate", m_out(&x), w.clone());
        x.prepare_init_predicate();
        cx.eq("output prepared for a predicate twice", m_out(&x), w);
        cx.hit(format!("prepared.{}", mo.kind()));
    }
    for mi in m.ins().iter().chain([&gen::arb_in(r)]) {
        let mut w = mi.clone();
        w.strip();
        let mut x = r_in(mi);
        x.prepare_init_predicate();
        cx.eq("input prepared for a predicate", m_in(&x), w.clone());
        x.prepare_init_predicate();
        cx.eq("input prepared for a predicate twice", m_in(&x), w);
        cx.hit(format!("prepared.in.{}", mi.kind()));
    }
}

fn light<T: Ex>(t: &T) -> Answers {
    let mut v = vec![];
    put!(v, "id", t.id());
    put!(v, "serialized_size", t.serialized_size());
    put!(v, "metered_bytes_size", t.metered_bytes_size());
    common(&mut v, t);
    v
}

pub fn first_diff(a: &Tx, b: &Tx) -> String {
    for (i, (x, y)) in a.ins().iter().zip(b.ins()).enumerate() {
        if x != y {
            return format!("input {i}: {} against {}", short(x), short(y));
        }
    }
    for (i, (x, y)) in a.outs().iter().zip(b.outs()).enumerate() {
        if x != y {
            return format!("output {i}: {} against {}", short(x), short(y));
        }
    }
    for (i, (x, y)) in a.wits().iter().zip(b.wits()).enumerate() {
        if x != y {
            return format!("witness {i}: {} against {}", short(x), short(y));
        }
    }
    let mut a = a.clone();
    let mut b = b.clone();
    trim(&mut a, 0, 40);
    trim(&mut b, 0, 40);
    format!("{} against {}", short(&a), short(&b))
}

fn c20(cx: &mut Ctx, r: &mut Rng) {
    let mut m = if r.chance(1, 2) {
        gen::arb_exec(r)
    } else {
        let k = r.below(2);
        gen::valid(r, &gen::Opts { kind: Some(k), signed: false, max_inputs: 6 }).tx
    };
    trim(&mut m, 20, 300);
    if r.chance(1, 250) {
        gen::crowd(r, &mut m);
        cx.hit("many_elements");
    }
    cx.shape(gen::shape(&m));
    cx.sample(|| gen::describe(&m));
    by_kind!(&m, prepared(cx, r, &m));
}

// ---------------------------------------------------------------- C22

const SETTERS: [fn(ConsensusParameters, u64) -> ConsensusParameters; 13] = [
    ConsensusParameters::with_contract_max_size,
    ConsensusParameters::with_max_inputs,
    ConsensusParameters::with_max_outputs,
    ConsensusParameters::with_max_witnesses,
    ConsensusParameters::with_max_gas_per_tx,
    ConsensusParameters::with_max_script_length,
    ConsensusParameters::with_max_script_data_length,
    ConsensusParameters::with_max_storage_slots,
    ConsensusParameters::with_max_predicate_length,
    ConsensusParameters::with_max_predicate_data_length,
    ConsensusParameters::with_gas_price_factor,
    ConsensusParameters::with_gas_per_byte,
    ConsensusParameters::with_max_message_data_length,
];

#[allow(deprecated)]
fn deprecated_defaults() -> [u64; 13] {
    use fuel_tx::default_parameters::*;
    [
        CONTRACT_MAX_SIZE,
        MAX_INPUTS,
        MAX_OUTPUTS,
        MAX_WITNESSES,
        MAX_GAS_PER_TX,
        MAX_SCRIPT_LENGTH,
        MAX_SCRIPT_DATA_LENGTH,
        MAX_STORAGE_SLOTS,
        MAX_PREDICATE_LENGTH,
        MAX_PREDICATE_DATA_LENGTH,
        GAS_PRICE_FACTOR,
        GAS_PER_BYTE,
        MAX_MESSAGE_DATA_LENGTH,
    ]
}

fn tx_offset(cx: &mut Ctx, p: &ConsensusParameters) {
    let want = 32u128 + 8 + 40 * p.max_inputs as u128;
    if want <= usize::MAX as u128 {
        cx.eq(&format!("transaction offset for {} inputs", p.max_inputs), p.tx_offset() as u128, want);
        cx.hit("tx_offsets");
    }
}

fn c22(cx: &mut Ctx, r: &mut Rng) {
    cx.eq("DEFAULT", params_fields(&ConsensusParameters::DEFAULT), PARAM_DEFAULTS);
    cx.eq("default()", params_fields(&ConsensusParameters::default()), PARAM_DEFAULTS);
    cx.eq("deprecated default constants", deprecated_defaults(), PARAM_DEFAULTS);
    let mut fields = if r.chance(1, 4) { PARAM_DEFAULTS } else { arb_fields(r) };
    let mut p = params_of(&fields);
    let mut order: Vec<usize> = (0..13).collect();
    r.shuffle(&mut order);
    for k in order {
        let x = if k == 1 && r.chance(3, 4) { r.below(1 << 58) } else { r.word() };
        p = SETTERS[k](p, x);
        fields[k] = x;
        if !cx.ck(params_fields(&p) == fields, || format!("setter of {}: {:?} against {:?}", crate::m_text::PARAM_NAMES[k], params_fields(&p), fields)) {
            return;
        }
        cx.hit(format!("set.{}", crate::m_text::PARAM_NAMES[k]));
        tx_offset(cx, &p);
        // again to another value, then back
        let y = r.word();
        let q = SETTERS[k](p, y);
        let mut f2 = fields;
        f2[k] = y;
        cx.eq("setting twice", params_fields(&q), f2);
        cx.eq("setting back", params_fields(&SETTERS[k](q, x)), fields);
    }
    cx.shape(crate::rng::fnv(format!("{fields:?}").as_bytes()));
    cx.sample(|| format!("{fields:?}"));
}

// ---------------------------------------------------------------- C25

fn queries_in(cx: &mut Ctx, mi: &In) {
    let x = r_in(mi);
    let k = mi.kind();
    cx.hit(format!("query.{k}"));
    cx.eq(&format!("{k} holds"), m_in(&x), mi.clone());
    let (mut utxo_, mut owner, mut cid, mut mid, mut sender, mut rcpt, mut nonce, mut mat, mut data, mut txp_, mut broot_, mut sroot_) =
        (None, None, None, None, None, None, None, None, None, None, None, None);
    match mi {
        In::CoinSigned { utxo, owner: o, txp, maturity, .. } | In::CoinPred { utxo, owner: o, txp, maturity, .. } => {
            utxo_ = Some(*utxo);
            owner = Some(*o);
            txp_ = Some(*txp);
            mat = Some(*maturity);
        }
        In::Contract { utxo, broot, sroot, txp, cid: c } => {
            utxo_ = Some(*utxo);
            txp_ = Some(*txp);
            broot_ = Some(*broot);
            sroot_ = Some(*sroot);
            cid = Some(*c);
        }
        In::MsgSigned { mid: i, sender: s, rcpt: t, nonce: n, data: d, .. } | In::MsgPred { mid: i, sender: s, rcpt: t, nonce: n, data: d, .. } => {
            mid = Some(*i);
            sender = Some(*s);
            rcpt = Some(*t);
            nonce = Some(*n);
            data = Some(d.clone());
        }
    }
    cx.eq(&format!("{k}.utxo_id"), x.utxo_id().map(m_utxo), utxo_);
    cx.eq(&format!("{k}.input_owner"), x.input_owner().map(|a| **a), owner);
    cx.eq(&format!("{k}.amount"), x.amount(), mi.amount());
    cx.eq(&format!("{k}.asset_id"), x.asset_id().map(|a| **a), mi.asset());
    cx.eq(&format!("{k}.contract_id"), x.contract_id().map(|a| **a), cid);
    cx.eq(&format!("{k}.message_id"), x.message_id().map(|a| **a), mid);
    cx.eq(&format!("{k}.sender"), x.sender().map(|a| **a), sender);
    cx.eq(&format!("{k}.recipient"), x.recipient().map(|a| **a), rcpt);
    cx.eq(&format!("{k}.nonce"), x.nonce(), nonce);
    cx.eq(&format!("{k}.maturity"), x.maturity(), mat);
    cx.eq(&format!("{k}.witness_index"), x.witness_index(), mi.wit());
    cx.eq(&format!("{k}.input_data"), x.input_data().map(|d| d.to_vec()), data);
    cx.eq(&format!("{k}.input_predicate"), x.input_predicate().map(|d| d.to_vec()), mi.pred().cloned());
    cx.eq(&format!("{k}.input_predicate_data"), x.input_predicate_data().map(|d| d.to_vec()), mi.pdata().cloned());
    cx.eq(&format!("{k}.predicate"), x.predicate().map(|(a, b)| (a.to_vec(), b.to_vec())), mi.pred().cloned().zip(mi.pdata().cloned()));
    let contract = matches!(mi, In::Contract { .. });
    cx.eq(&format!("{k}.predicate_len"), x.predicate_len(), if contract { None } else { Some(mi.pred().map(|p| p.len()).unwrap_or(0)) });
    cx.eq(&format!("{k}.predicate_data_len"), x.predicate_data_len(), if contract { None } else { Some(mi.pdata().map(|p| p.len()).unwrap_or(0)) });
    cx.eq(&format!("{k}.tx_pointer"), x.tx_pointer().map(m_txp), txp_);
    cx.eq(&format!("{k}.balance_root"), x.balance_root().map(|a| **a), broot_);
    cx.eq(&format!("{k}.state_root"), x.state_root().map(|a| **a), sroot_);
    let flags = (x.is_coin(), x.is_coin_signed(), x.is_coin_predicate(), x.is_message(), x.is_message_signed(), x.is_message_predicate(), x.is_contract());
    let want = match mi {
        In::CoinSigned { .. } => (true, true, false, false, false, false, false),
        In::CoinPred { .. } => (true, false, true, false, false, false, false),
        In::Contract { .. } => (false, false, false, false, false, false, true),
        In::MsgSigned { .. } => (false, false, false, true, true, false, false),
        In::MsgPred { .. } => (false, false, false, true, false, true, false),
    };
    cx.eq(&format!("{k}: kind predicates"), flags, want);
}

fn queries_out(cx: &mut Ctx, mo: &Out) {
    let x = r_out(mo);
    let k = mo.kind();
    cx.hit(format!("query.out.{k}"));
    cx.eq(&format!("{k} holds"), m_out(&x), mo.clone());
    type Q = (Option<B32>, Option<u64>, Option<B32>, Option<u8>, Option<B32>, Option<B32>, Option<B32>, Option<B32>);
    let got: Q = (
        x.to().map(|a| **a),
        x.amount(),
        x.asset_id().map(|a| **a),
        x.input_index(),
        x.balance_root().map(|a| **a),
        x.state_root().map(|a| **a),
        x.contract_id().map(|a| **a),
        x.recipient().map(|a| **a),
    );
    let want: Q = match mo {
        Out::Coin { to, amount, asset } | Out::Change { to, amount, asset } | Out::Variable { to, amount, asset } => (Some(*to), Some(*amount), Some(*asset), None, None, None, None, None),
        Out::Contract { idx, broot, sroot } => (None, None, None, Some(*idx), Some(*broot), Some(*sroot), None, None),
        Out::Msg { rcpt, amount } => (None, Some(*amount), None, None, None, None, None, Some(*rcpt)),
        Out::Created { cid, sroot } => (None, None, None, None, None, Some(*sroot), Some(*cid), None),
    };
    cx.eq(&format!("{k}: (to, amount, asset, input index, balance root, state root, contract id, recipient)"), got, want);
    let flags = (x.is_coin(), x.is_message(), x.is_variable(), x.is_contract(), x.is_contract_created());
    let want = (
        matches!(mo, Out::Coin { .. }),
        matches!(mo, Out::Msg { .. }),
        matches!(mo, Out::Variable { .. }),
        matches!(mo, Out::Contract { .. }),
        matches!(mo, Out::Created { .. }),
    );
    cx.eq(&format!("{k}: kind predicates"), flags, want);
}

fn first_seen<T: PartialEq + Copy>(v: &[T]) -> Vec<T> {
    let mut out: Vec<T> = Vec::new();
    for x in v {
        if !out.contains(x) {
            out.push(*x)
        }
    }
    out
}

fn queries_tx<T: Ex>(cx: &mut Ctx, m: &Tx) {
    let mut t = T::real(m);
    let assets: Vec<B32> = m.ins().iter().filter_map(|i| i.asset()).collect();
    let cids: Vec<B32> = m
        .ins()
        .iter()
        .filter_map(|i| match i {
            In::Contract { cid, .. } => Some(*cid),
            _ => None,
        })
        .collect();
    let owners = m.ins().iter().all(|i| match (i.pred(), i.authority()) {
        (Some(p), Some(a)) => code_root(p) == a,
        _ => true,
    });
    for _ in 0..2 {
        cx.eq("input_asset_ids", t.input_asset_ids().map(|a| **a).collect::<Vec<_>>(), assets.clone());
        cx.eq("input_asset_ids_unique", t.input_asset_ids_unique().map(|a| **a).collect::<Vec<_>>(), first_seen(&assets));
        cx.eq("input_contracts", t.input_contracts().map(|a| **a).collect::<Vec<_>>(), first_seen(&cids));
        cx.eq("check_predicate_owners", t.check_predicate_owners(), owners);
        t.precompute();
    }
    if first_seen(&assets).len() < assets.len() {
        cx.hit("repeated_assets");
    }
    if first_seen(&cids).len() < cids.len() {
        cx.hit("repeated_contracts");
    }
    cx.hit(if owners { "owners_right" } else { "owners_wrong" });
    // field accessors
    cx.eq("price and limit", (t.price(), t.limit(), *t.gas_price(), *t.gas_limit(), *t.maturity()), (m.gas_price(), m.gas_limit(), m.gas_price(), m.gas_limit(), m.maturity()));
    cx.ck(t.model() == *m, || format!("the transaction does not hold what it was built with: {}", first_diff(&t.model(), m)));
}

fn c25(cx: &mut Ctx, r: &mut Rng) {
    for k in 0..5 {
        let x = gen::arb_in_kind(r, k);
        queries_in(cx, &x);
    }
    for k in 0..6 {
        let x = gen::arb_out_kind(r, k);
        queries_out(cx, &x);
    }
    let mut m = any_tx(r);
    trim(&mut m, 40, 200);
    let many = r.chance(1, 300);
    if many {
        gen::crowd(r, &mut m);
        cx.hit("many_elements");
    }
    // in a crowd: hardly any owner off, each input its own asset or contract
    let rare = many && r.chance(1, 2);
    let each = many && r.chance(1, 2);
    let off = |r: &mut Rng, o: &mut B32| {
        if r.chance(1, if rare { 300 } else { 30 }) {
            o[r.idx(32)] ^= 1 << r.below(8)
        }
    };
    // small pools so that assets and contracts repeat
    let mut pool: Vec<B32> = vec![ZERO];
    for _ in 0..if each { 520 } else if many { r.idx(400) } else { r.idx(4) } {
        let k = r.idx(pool.len());
        let x = if r.chance(1, 4) { r.near(&pool[k]) } else { r.b32() };
        pool.push(x);
    }
    if let Some(v) = m.ins_mut() {
        for (k, i) in v.iter_mut().enumerate() {
            let p = if each && r.chance(19, 20) { pool[k % pool.len()] } else { *r.pick(&pool) };
            let right = rare || r.chance(9, 10);
            match i {
                In::CoinSigned { asset, .. } => *asset = p,
                In::CoinPred { asset, owner, pred, .. } => {
                    *asset = p;
                    if right {
                        *owner = code_root(pred);
                        off(r, owner)
                    }
                }
                In::Contract { cid, .. } => *cid = p,
                In::MsgPred { rcpt, pred, .. } => {
                    if right {
                        *rcpt = code_root(pred);
                        off(r, rcpt)
                    }
                }
                _ => {}
            }
        }
    }
    cx.shape(gen::shape(&m));
    cx.sample(|| gen::describe(&m));
    by_kind!(&m, queries_tx(cx, &m));
    // the enum
    let mut t = r_tx(&m);
    let flags = (t.is_script(), t.is_create(), t.is_mint(), t.as_script().is_some(), t.as_create().is_some(), t.as_mint().is_some());
    let (s, c, n) = (matches!(m, Tx::Script(_)), matches!(m, Tx::Create(_)), matches!(m, Tx::Mint(_)));
    cx.eq("kind of the transaction", flags, (s, c, n, s, c, n));
    cx.eq("mutable kind", (t.as_script_mut().is_some(), t.as_create_mut().is_some(), t.as_mint_mut().is_some()), (s, c, n));
    let kind = if s {
        0u64
    } else if c {
        1
    } else {
        2
    };
    cx.eq("number of the kind", TransactionRepr::try_from(kind).map(|x| x as u64).ok(), Some(kind));
    cx.eq("number of the transaction", TransactionRepr::from(&t) as u64, kind);
    let beyond = 3 + r.below(u64::MAX - 3);
    cx.ck(TransactionRepr::try_from(beyond).is_err(), || format!("{beyond} names a transaction kind"));
    // witnesses, slots
    let w = gen::bytes(r);
    let real = Witness::from(w.clone());
    cx.ck(real.as_vec() == &w && real.as_ref() == &w[..] && real.clone().into_inner() == w && Witness::from(&w[..]) == real, || "a witness changed its bytes".into());
    let mut wm = real.clone();
    wm.as_vec_mut().push(7);
    cx.eq("a witness changed in place", wm.clone().into_inner(), [&w[..], &[7]].concat());
    wm.extend([1u8, 2]);
    cx.eq("an extended witness", wm.as_vec().clone(), [&w[..], &[7, 1, 2]].concat());
    let n = wm.as_vec().len();
    AsMut::<[u8]>::as_mut(&mut wm)[n - 1] = 9;
    cx.eq("a witness changed through its slice", wm.into_inner(), [&w[..], &[7, 1, 9]].concat());
    let (a, b) = (gen::slot(r), gen::slot(r));
    let (x, y) = (r_slot(&a), r_slot(&b));
    cx.eq("a storage slot", (**x.key(), **x.value()), (a.key, a.val));
    let raw: fuel_types::Bytes64 = (&x).into();
    cx.eq("a storage slot as bytes", raw.to_vec(), [a.key, a.val].concat());
    cx.ck(StorageSlot::from(&raw) == x, || "a storage slot from its bytes".into());
    cx.eq("order of storage slots", x.cmp(&y), a.key.cmp(&b.key));
    let u = gen::utxo(r);
    let mut ru = r_utxo(&u);
    let h = r.b32();
    ru.replace_tx_id(h.into());
    cx.eq("a UTXO id with its transaction id replaced", m_utxo(&ru), Utxo { tx: h, idx: u.idx });
    // the owner of a public key
    let key = r.pick(keys::pool()).clone();
    cx.eq("owner of a public key", *Input::owner(&crate::m_id::secret(&key).public_key()), key.owner);
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            quick: 600_000,
            thorough: 36_000_000,
            run: c14,
            req: &[("many_elements", 500), ("field_offsets", 10_000), ("element_offsets", 10_000), ("past_the_end", 10_000), ("predicate_offsets", 2_000), ("element_field_offsets", 50_000)],
            rule: "each case compares every reported offset of a generated transaction (cached and not), of every input and output kind, with where the independent reference encoder put that field, and the bytes found there with the element's own encoding; distinct = distinct transaction shapes",
            assume: &["the reference encoder states the published layout correctly"],
        },
        Prop {
            id: "C15",
            quick: 15_000,
            thorough: 900_000,
            run: c15,
            req: &[("many_elements", 30), ("answer_sets", 2_000), ("recomputed", 4_000), ("decoded_into", 3_000), ("refused_decode", 500), ("cloned_over", 5_000), ("kind.script", 500), ("kind.create", 500), ("kind.mint", 300)],
            rule: "each case collects every answer (id, sizes, offsets at all and past-the-end indices, fee, validity, encodings, hash, lists) of a transaction with and without cached data and compares them, then repeats after random modifications and recomputation, decoding into used destinations, cloning, JSON and bincode; distinct = distinct transaction shapes",
            assume: &[],
        },
        Prop {
            id: "C17",
            quick: 100_000,
            thorough: 6_000_000,
            run: c17,
            req: &[("code_roots", 5_000), ("code at an odd address", 5_000), ("partial_chunk", 1_000), ("state_roots", 5_000), ("extracted", 500), ("no_witness", 200), ("not_a_create", 1_000)],
            rule: "each case compares code root, predicate owner, state root (three slot orders) and contract id of generated code and slots with independent Merkle tree and hash references, and contract extraction with the witness the index selects; distinct = distinct (code root, state root)",
            assume: &["SHA-256 of the sha2 crate is correct"],
        },
        Prop {
            id: "C20",
            quick: 200_000,
            thorough: 12_000_000,
            run: c20,
            req: &[
                ("prepare_init_script", 5_000),
                ("prepare_init_predicate", 5_000),
                ("prepared.Coin", 500),
                ("prepared.Contract", 500),
                ("prepared.Message", 500),
                ("prepared.Change", 500),
                ("prepared.Variable", 500),
                ("prepared.ContractCreated", 500),
                ("prepared.in.Contract", 500),
                ("prepared.in.CoinSigned", 500),
                ("prepared.in.MessagePredicate", 500),
            ],
            rule: "each case prepares a generated transaction (cached and not, once and twice, both ways round) and compares every field with the model's own zeroing, and id, sizes and offsets with those before; distinct = distinct transaction shapes",
            assume: &[],
        },
        Prop {
            id: "C22",
            quick: 1_000_000,
            thorough: 60_000_000,
            run: c22,
            req: &[("tx_offsets", 100_000), ("set.max_inputs", 10_000)],
            rule: "each case applies the 13 setters in random order with boundary values, comparing all 13 fields after each, sets twice and back, and compares the memory offset with the formula; distinct = distinct final parameter sets",
            assume: &["the memory offset is only specified while it is representable"],
        },
        Prop {
            id: "C25",
            quick: 400_000,
            thorough: 24_000_000,
            run: c25,
            req: &[
                ("query.CoinSigned", 5_000),
                ("query.CoinPredicate", 5_000),
                ("query.Contract", 5_000),
                ("query.MessageSigned", 5_000),
                ("query.MessagePredicate", 5_000),
                ("query.out.ContractCreated", 5_000),
                ("repeated_assets", 2_000),
                ("repeated_contracts", 500),
                ("owners_wrong", 500),
            ],
            rule: "each case asks every query of each input and output kind and compares with the values it was built from, and compares asset and contract lists of a transaction with small identifier pools with the model's; distinct = distinct transaction shapes",
            assume: &[],
        },
    ]
}
