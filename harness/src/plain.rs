//! The answers that exist with and without the standard library (C23). This file is compiled
//! twice: against fuel-tx as it is (vmon) and against fuel-tx without `std` (vmon-nostd).

use crate::conv::*;
use crate::model::*;
use fuel_tx::field::{BytecodeLength, BytecodeWitnessIndex, GasLimit, GasPrice, Inputs, Maturity, Outputs, ReceiptsRoot, Script as _, ScriptData, StorageSlots, TxPointer as _, Witnesses};
use fuel_tx::{Chargeable, Checkable, ConsensusParameters, Contract, Executable, Input, Output, Receipt, StorageSlot, Transaction, TransactionFee, TxPointer, UtxoId};
use fuel_types::bytes::SizedBytes;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tx: Tx,
    pub height: u64,
    pub params: [u64; 13],
    pub receipt: Rc,
    pub texts: Vec<String>,
    pub gas: Vec<u64>,
    pub code: Vec<u8>,
    pub slots: Vec<Slot>,
    pub a: B32,
    pub b: B32,
    pub n: u64,
}

pub type Answers = Vec<(String, String)>;

macro_rules! put {
    ($v:expr, $n:expr, $e:expr) => {{
        let s = match catch_unwind(AssertUnwindSafe(|| format!("{:?}", $e))) {
            Ok(s) => s,
            Err(_) => "panicked".to_string(),
        };
        $v.push(($n.to_string(), s));
    }};
}

fn ends(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n.min(5)).collect();
    v.extend([n.saturating_sub(1), n, n + 1]);
    v.dedup();
    v
}

fn exec<T: Executable + Checkable + Chargeable + Inputs + Outputs + Witnesses + GasPrice + GasLimit + Maturity + SizedBytes + Clone>(v: &mut Answers, t: &T, c: &Case, p: &ConsensusParameters) {
    put!(v, "check", t.check_without_signatures(c.height, p));
    put!(v, "serialized_size", t.serialized_size());
    put!(v, "metered_bytes_size", t.metered_bytes_size());
    put!(v, "price and limit", (t.price(), t.limit(), t.gas_price(), t.gas_limit(), t.maturity()));
    put!(v, "fee", TransactionFee::checked_from_tx(p, t).map(|f| (TransactionFee::min(&f), f.total(), f.min_gas(), f.max_gas())));
    for g in &c.gas {
        put!(v, format!("refund {g}"), TransactionFee::gas_refund_value(p, *g, t.price()));
        put!(v, format!("fee of {g} bytes"), TransactionFee::checked_from_values(p, *g, t.limit(), t.price()));
    }
    put!(v, "input_asset_ids", t.input_asset_ids().collect::<Vec<_>>());
    put!(v, "sorted input_asset_ids_unique", {
        let mut x: Vec<_> = t.input_asset_ids_unique().collect();
        x.sort();
        x
    });
    put!(v, "offsets", (t.inputs_offset(), t.outputs_offset(), t.witnesses_offset(), t.gas_price_offset(), t.gas_limit_offset(), t.maturity_offset()));
    for i in ends(t.inputs().len()) {
        put!(v, format!("inputs_offset_at({i})"), (t.inputs_offset_at(i), t.inputs_predicate_offset_at(i)));
    }
    for i in ends(t.outputs().len()) {
        put!(v, format!("outputs_offset_at({i})"), t.outputs_offset_at(i));
    }
    for i in ends(t.witnesses().len()) {
        put!(v, format!("witnesses_offset_at({i})"), t.witnesses_offset_at(i));
    }
    for (i, x) in t.inputs().iter().enumerate() {
        put!(v, format!("check of input {i}"), x.check_without_signature(i, t.outputs(), t.witnesses(), p));
        input(v, i, x);
    }
    for (i, x) in t.outputs().iter().enumerate() {
        put!(v, format!("check of output {i}"), x.check(i, t.inputs()));
    }
    outputs(v, t.outputs());
}

fn input(v: &mut Answers, i: usize, x: &Input) {
    put!(v, format!("input {i} ids"), (x.utxo_id(), x.input_owner(), x.asset_id(), x.contract_id(), x.message_id(), x.tx_pointer(), x.balance_root(), x.state_root(), x.sender(), x.recipient()));
    put!(v, format!("input {i} values"), (x.amount(), x.witness_index(), x.maturity(), x.nonce(), x.input_data(), x.input_predicate(), x.input_predicate_data(), x.predicate()));
    put!(v, format!("input {i} sizes"), (x.serialized_size(), x.predicate_offset(), x.predicate_data_offset(), x.predicate_len(), x.predicate_data_len()));
    put!(v, format!("input {i} kind"), (x.is_coin(), x.is_coin_signed(), x.is_coin_predicate(), x.is_message(), x.is_message_signed(), x.is_message_predicate(), x.is_contract(), x.repr()));
    put!(v, format!("input {i} owner"), x.input_predicate().map(Input::predicate_owner));
    put!(v, format!("input {i} message id"), {
        match (x.sender(), x.recipient(), x.nonce(), x.amount(), x.input_data()) {
            (Some(a), Some(b), Some(n), Some(m), Some(d)) => Some(Input::compute_message_id(a, b, n, m, d)),
            _ => None,
        }
    });
    put!(v, format!("input {i} prepared"), {
        let mut y = x.clone();
        y.prepare_init_predicate();
        y
    });
}
fn outputs(v: &mut Answers, o: &[Output]) {
    for (i, x) in o.iter().enumerate() {
        put!(v, format!("output {i}"), (x.serialized_size(), x.asset_id(), x.to(), x.amount(), x.input_index(), x.balance_root(), x.state_root(), x.contract_id(), x.recipient(), x.repr()));
        put!(v, format!("output {i} kind"), (x.is_coin(), x.is_message(), x.is_variable(), x.is_contract(), x.is_contract_created()));
        put!(v, format!("output {i} prepared"), {
            let mut y = *x;
            y.prepare_init_predicate();
            y
        });
    }
}

fn receipt(v: &mut Answers, r: &Receipt) {
    put!(v, "receipt", r);
    put!(v, "receipt size", r.serialized_size());
    put!(v, "receipt ids", (r.id(), r.to(), r.to_address(), r.asset_id(), r.digest(), r.message_id(), r.sender(), r.recipient(), r.nonce(), r.contract_id()));
    put!(v, "receipt words", (r.pc(), r.is(), r.amount(), r.gas(), r.param1(), r.param2(), r.val(), r.ptr(), r.len(), r.is_empty(), r.gas_used()));
    put!(v, "receipt more", (r.ra(), r.rb(), r.rc(), r.rd(), r.data(), r.reason(), r.result()));
}

pub fn answers(c: &Case) -> Answers {
    let mut v = Vec::new();
    let p = params_of(&c.params);
    put!(v, "parameters", p);
    let t = r_tx(&c.tx);
    put!(v, "fields", m_tx(&t) == c.tx);
    put!(v, "text", t);
    put!(v, "json", serde_json::to_string(&t).ok());
    put!(v, "from json", Transaction::from_json(t.to_json()).map(|x| x == t));
    match &t {
        Transaction::Script(t) => {
            exec(&mut v, t, c, &p);
            put!(v, "script offsets", (t.script_offset(), t.script_data_offset(), t.receipts_root_offset()));
        }
        Transaction::Create(t) => {
            exec(&mut v, t, c, &p);
            put!(v, "create offsets", (t.bytecode_length_offset(), t.bytecode_witness_index_offset(), t.storage_slots_offset()));
            for i in ends(t.storage_slots().len()) {
                put!(v, format!("storage_slots_offset_at({i})"), t.storage_slots_offset_at(i));
            }
        }
        Transaction::Mint(t) => {
            put!(v, "check", t.check_without_signatures(c.height, &p));
            put!(v, "serialized_size", t.serialized_size());
            put!(v, "mint offsets", (t.tx_pointer_offset(), t.outputs_offset()));
            for i in ends(t.outputs().len()) {
                put!(v, format!("outputs_offset_at({i})"), t.outputs_offset_at(i));
            }
            outputs(&mut v, t.outputs());
        }
    }
    receipt(&mut v, &r_receipt(&c.receipt));
    for x in &c.texts {
        put!(v, format!("utxo id of {x:?}"), x.parse::<UtxoId>().map(|u| (u, format!("{u:x} {u:X}"))));
        put!(v, format!("pointer of {x:?}"), x.parse::<TxPointer>().map(|u| (u, format!("{u:x} {u:X}"))));
    }
    let slots: Vec<StorageSlot> = c.slots.iter().map(r_slot).collect();
    let k = Contract::from(c.code.clone());
    put!(v, "code root", (k.root(), Contract::root_from_code(&c.code)));
    put!(v, "state root", (Contract::initial_state_root(slots.iter()), Contract::default_state_root()));
    put!(v, "contract id", k.id(&c.a.into(), &c.b.into(), &Contract::initial_state_root(slots.iter())));
    put!(v, "output message id", Output::message_id(&c.a.into(), &c.b.into(), &c.a.into(), c.n, &c.code));
    put!(v, "nonce and digest", (Output::message_nonce(&c.b.into(), c.n % 256), Output::message_digest(&c.code)));
    v
}
