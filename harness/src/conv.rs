//! Bridge between the model and the real crate. Only public API, no knowledge of internals.

use crate::model::*;
use fuel_tx::field::{Salt as _, Script as _, TxPointer as _, *};
use fuel_tx::{
    Address, AssetId, Bytes32, ContractId, Create, Input, MessageId, Mint, Output, Salt, Script,
    StorageSlot, Transaction, TxPointer, UtxoId, Witness,
};

pub fn r_utxo(u: &Utxo) -> UtxoId {
    UtxoId::new(Bytes32::from(u.tx), u.idx)
}
pub fn r_txp(t: &Txp) -> TxPointer {
    TxPointer::new(t.height, t.index)
}
pub fn r_in(i: &In) -> Input {
    match i.clone() {
        In::CoinSigned { utxo, owner, amount, asset, txp, wit, maturity } => {
            Input::coin_signed(r_utxo(&utxo), Address::from(owner), amount, AssetId::from(asset), r_txp(&txp), wit, maturity)
        }
        In::CoinPred { utxo, owner, amount, asset, txp, maturity, pred, pdata } => {
            Input::coin_predicate(r_utxo(&utxo), Address::from(owner), amount, AssetId::from(asset), r_txp(&txp), maturity, pred, pdata)
        }
        In::Contract { utxo, broot, sroot, txp, cid } => {
            Input::contract(r_utxo(&utxo), Bytes32::from(broot), Bytes32::from(sroot), r_txp(&txp), ContractId::from(cid))
        }
        In::MsgSigned { mid, sender, rcpt, amount, nonce, wit, data } => {
            Input::message_signed(MessageId::from(mid), Address::from(sender), Address::from(rcpt), amount, nonce, wit, data)
        }
        In::MsgPred { mid, sender, rcpt, amount, nonce, data, pred, pdata } => {
            Input::message_predicate(MessageId::from(mid), Address::from(sender), Address::from(rcpt), amount, nonce, data, pred, pdata)
        }
    }
}
pub fn r_out(o: &Out) -> Output {
    match o.clone() {
        Out::Coin { to, amount, asset } => Output::coin(to.into(), amount, asset.into()),
        Out::Contract { idx, broot, sroot } => Output::contract(idx, broot.into(), sroot.into()),
        Out::Msg { rcpt, amount } => Output::message(rcpt.into(), amount),
        Out::Change { to, amount, asset } => Output::change(to.into(), amount, asset.into()),
        Out::Variable { to, amount, asset } => Output::variable(to.into(), amount, asset.into()),
        Out::Created { cid, sroot } => Output::contract_created(cid.into(), sroot.into()),
    }
}
pub fn r_slot(s: &Slot) -> StorageSlot {
    StorageSlot::new(s.key.into(), s.val.into())
}
pub fn r_ins(v: &[In]) -> Vec<Input> {
    v.iter().map(r_in).collect()
}
pub fn r_outs(v: &[Out]) -> Vec<Output> {
    v.iter().map(r_out).collect()
}
pub fn r_wits(v: &[Vec<u8>]) -> Vec<Witness> {
    v.iter().map(|w| Witness::from(w.clone())).collect()
}
pub fn r_script(s: &MScript) -> Script {
    let mut t = Transaction::script(s.gas_price, s.gas_limit, s.maturity, s.script.clone(), s.data.clone(), r_ins(&s.ins), r_outs(&s.outs), r_wits(&s.wits));
    *t.receipts_root_mut() = s.receipts_root.into();
    t
}
pub fn r_create(c: &MCreate) -> Create {
    let mut t = Transaction::create(
        c.gas_price,
        c.gas_limit,
        c.maturity,
        c.bytecode_wit,
        Salt::from(c.salt),
        c.slots.iter().map(r_slot).collect(),
        r_ins(&c.ins),
        r_outs(&c.outs),
        r_wits(&c.wits),
    );
    *t.bytecode_length_mut() = c.bytecode_len;
    t
}
pub fn r_mint(m: &MMint) -> Mint {
    Transaction::mint(r_txp(&m.txp), r_outs(&m.outs))
}
pub fn r_tx(t: &Tx) -> Transaction {
    match t {
        Tx::Script(s) => r_script(s).into(),
        Tx::Create(c) => r_create(c).into(),
        Tx::Mint(m) => r_mint(m).into(),
    }
}

// ---------------------------------------------------------------- real -> model (field by field)

pub fn m_utxo(u: &UtxoId) -> Utxo {
    Utxo { tx: **u.tx_id(), idx: u.output_index() }
}
pub fn m_txp(t: &TxPointer) -> Txp {
    Txp { height: t.block_height(), index: t.tx_index() }
}
pub fn m_in(i: &Input) -> In {
    match i {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => In::CoinSigned {
            utxo: m_utxo(utxo_id),
            owner: **owner,
            amount: *amount,
            asset: **asset_id,
            txp: m_txp(tx_pointer),
            wit: *witness_index,
            maturity: *maturity,
        },
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => In::CoinPred {
            utxo: m_utxo(utxo_id),
            owner: **owner,
            amount: *amount,
            asset: **asset_id,
            txp: m_txp(tx_pointer),
            maturity: *maturity,
            pred: predicate.clone(),
            pdata: predicate_data.clone(),
        },
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => In::Contract {
            utxo: m_utxo(utxo_id),
            broot: **balance_root,
            sroot: **state_root,
            txp: m_txp(tx_pointer),
            cid: **contract_id,
        },
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => In::MsgSigned {
            mid: **message_id,
            sender: **sender,
            rcpt: **recipient,
            amount: *amount,
            nonce: *nonce,
            wit: *witness_index,
            data: data.clone(),
        },
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => In::MsgPred {
            mid: **message_id,
            sender: **sender,
            rcpt: **recipient,
            amount: *amount,
            nonce: *nonce,
            data: data.clone(),
            pred: predicate.clone(),
            pdata: predicate_data.clone(),
        },
    }
}
pub fn m_out(o: &Output) -> Out {
    match o {
        Output::Coin { to, amount, asset_id } => Out::Coin { to: **to, amount: *amount, asset: **asset_id },
        Output::Contract { input_index, balance_root, state_root } => Out::Contract { idx: *input_index, broot: **balance_root, sroot: **state_root },
        Output::Message { recipient, amount } => Out::Msg { rcpt: **recipient, amount: *amount },
        Output::Change { to, amount, asset_id } => Out::Change { to: **to, amount: *amount, asset: **asset_id },
        Output::Variable { to, amount, asset_id } => Out::Variable { to: **to, amount: *amount, asset: **asset_id },
        Output::ContractCreated { contract_id, state_root } => Out::Created { cid: **contract_id, sroot: **state_root },
    }
}
pub fn m_slot(s: &StorageSlot) -> Slot {
    Slot { key: **s.key(), val: **s.value() }
}
pub fn m_script(s: &Script) -> MScript {
    MScript {
        gas_price: *s.gas_price(),
        gas_limit: *s.gas_limit(),
        maturity: *s.maturity(),
        receipts_root: **s.receipts_root(),
        script: s.script().clone(),
        data: s.script_data().clone(),
        ins: s.inputs().iter().map(m_in).collect(),
        outs: s.outputs().iter().map(m_out).collect(),
        wits: s.witnesses().iter().map(|w| w.as_vec().clone()).collect(),
    }
}
pub fn m_create(s: &Create) -> MCreate {
    MCreate {
        gas_price: *s.gas_price(),
        gas_limit: *s.gas_limit(),
        maturity: *s.maturity(),
        bytecode_len: *s.bytecode_length(),
        bytecode_wit: *s.bytecode_witness_index(),
        salt: **s.salt(),
        slots: s.storage_slots().iter().map(m_slot).collect(),
        ins: s.inputs().iter().map(m_in).collect(),
        outs: s.outputs().iter().map(m_out).collect(),
        wits: s.witnesses().iter().map(|w| w.as_vec().clone()).collect(),
    }
}
pub fn m_mint(m: &Mint) -> MMint {
    MMint { txp: m_txp(m.tx_pointer()), outs: m.outputs().iter().map(m_out).collect() }
}
pub fn m_tx(t: &Transaction) -> Tx {
    match t {
        Transaction::Script(s) => Tx::Script(m_script(s)),
        Transaction::Create(c) => Tx::Create(m_create(c)),
        Transaction::Mint(m) => Tx::Mint(m_mint(m)),
    }
}

// ---------------------------------------------------------------- receipts

use fuel_tx::{InstructionResult, Receipt, ScriptExecutionResult};

pub fn result_word(r: &ScriptExecutionResult) -> u64 {
    match r {
        ScriptExecutionResult::Success => 0,
        ScriptExecutionResult::Revert => 1,
        ScriptExecutionResult::Panic => 2,
        ScriptExecutionResult::GenericFailure(x) => *x,
    }
}
pub fn word_result(w: u64) -> ScriptExecutionResult {
    match w {
        0 => ScriptExecutionResult::Success,
        1 => ScriptExecutionResult::Revert,
        2 => ScriptExecutionResult::Panic,
        x => ScriptExecutionResult::GenericFailure(x),
    }
}
pub fn reason_word(reason: u8, instr: u32) -> u64 {
    ((reason as u64) << 56) | ((instr as u64) << 24)
}
pub fn r_receipt(r: &Rc) -> Receipt {
    match r.clone() {
        Rc::Call { id, to, amount, asset, gas, p1, p2, pc, is } => Receipt::call(id.into(), to.into(), amount, asset.into(), gas, p1, p2, pc, is),
        Rc::Return { id, val, pc, is } => Receipt::ret(id.into(), val, pc, is),
        Rc::ReturnData { id, ptr, len, digest, data, pc, is } => Receipt::return_data_with_len(id.into(), ptr, len, digest.into(), data, pc, is),
        Rc::Panic { id, reason, instr, pc, is, cid } => {
            Receipt::panic(id.into(), InstructionResult::from(reason_word(reason, instr)), pc, is).with_panic_contract_id(cid.map(ContractId::from))
        }
        Rc::Revert { id, ra, pc, is } => Receipt::revert(id.into(), ra, pc, is),
        Rc::Log { id, ra, rb, rc, rd, pc, is } => Receipt::log(id.into(), ra, rb, rc, rd, pc, is),
        Rc::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => Receipt::log_data_with_len(id.into(), ra, rb, ptr, len, digest.into(), data, pc, is),
        Rc::Transfer { id, to, amount, asset, pc, is } => Receipt::transfer(id.into(), to.into(), amount, asset.into(), pc, is),
        Rc::TransferOut { id, to, amount, asset, pc, is } => Receipt::transfer_out(id.into(), to.into(), amount, asset.into(), pc, is),
        Rc::ScriptResult { result, gas_used } => Receipt::script_result(word_result(result), gas_used),
        Rc::MessageOut { mid, sender, rcpt, amount, nonce, len, digest, data } => {
            Receipt::message_out_with_len(mid.into(), sender.into(), rcpt.into(), amount, nonce.into(), len, digest.into(), data)
        }
    }
}
pub fn m_receipt(r: &Receipt) -> Rc {
    match r.clone() {
        Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => Rc::Call { id: *id, to: *to, amount, asset: *asset_id, gas, p1: param1, p2: param2, pc, is },
        Receipt::Return { id, val, pc, is } => Rc::Return { id: *id, val, pc, is },
        Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => Rc::ReturnData { id: *id, ptr, len, digest: *digest, data, pc, is },
        Receipt::Panic { id, reason, pc, is, contract_id } => {
            let w: u64 = reason.into();
            Rc::Panic { id: *id, reason: (w >> 56) as u8, instr: (w >> 24) as u32, pc, is, cid: contract_id.map(|c| *c) }
        }
        Receipt::Revert { id, ra, pc, is } => Rc::Revert { id: *id, ra, pc, is },
        Receipt::Log { id, ra, rb, rc, rd, pc, is } => Rc::Log { id: *id, ra, rb, rc, rd, pc, is },
        Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => Rc::LogData { id: *id, ra, rb, ptr, len, digest: *digest, data, pc, is },
        Receipt::Transfer { id, to, amount, asset_id, pc, is } => Rc::Transfer { id: *id, to: *to, amount, asset: *asset_id, pc, is },
        Receipt::TransferOut { id, to, amount, asset_id, pc, is } => Rc::TransferOut { id: *id, to: *to, amount, asset: *asset_id, pc, is },
        Receipt::ScriptResult { result, gas_used } => Rc::ScriptResult { result: result_word(&result), gas_used },
        Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => {
            Rc::MessageOut { mid: *message_id, sender: *sender, rcpt: *recipient, amount, nonce: *nonce, len, digest: *digest, data }
        }
    }
}

// ---------------------------------------------------------------- parameters

use fuel_tx::ConsensusParameters;

pub fn params_of(v: &[u64; 13]) -> ConsensusParameters {
    ConsensusParameters {
        contract_max_size: v[0],
        max_inputs: v[1],
        max_outputs: v[2],
        max_witnesses: v[3],
        max_gas_per_tx: v[4],
        max_script_length: v[5],
        max_script_data_length: v[6],
        max_storage_slots: v[7],
        max_predicate_length: v[8],
        max_predicate_data_length: v[9],
        gas_price_factor: v[10],
        gas_per_byte: v[11],
        max_message_data_length: v[12],
    }
}
pub fn params_fields(p: &ConsensusParameters) -> [u64; 13] {
    [
        p.contract_max_size,
        p.max_inputs,
        p.max_outputs,
        p.max_witnesses,
        p.max_gas_per_tx,
        p.max_script_length,
        p.max_script_data_length,
        p.max_storage_slots,
        p.max_predicate_length,
        p.max_predicate_data_length,
        p.gas_price_factor,
        p.gas_per_byte,
        p.max_message_data_length,
    ]
}
