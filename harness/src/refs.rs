//! Reference semantics: validity rules, fees, balances, authorisation. Written from the protocol
//! rules, on the model, with wide arithmetic; shares nothing with the crate but its error type.

use crate::keys;
use crate::model::*;
use fuel_tx::{CheckError, ConsensusParameters};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fee {
    pub min: u64,
    pub total: u64,
    pub min_gas: u64,
    pub max_gas: u64,
}

fn fit(x: u128) -> Option<u64> {
    if x <= u64::MAX as u128 {
        Some(x as u64)
    } else {
        None
    }
}
fn up(a: u128, b: u128) -> u128 {
    a / b + if a % b == 0 { 0 } else { 1 }
}

pub fn fee(p: &ConsensusParameters, bytes: u64, limit: u64, price: u64) -> Option<Fee> {
    let f = p.gas_price_factor as u128;
    let min_gas = fit(p.gas_per_byte as u128 * bytes as u128)?;
    let max_gas = fit(min_gas as u128 + limit as u128)?;
    let a = fit(min_gas as u128 * price as u128)?;
    let b = fit(max_gas as u128 * price as u128)?;
    Some(Fee { min: up(a as u128, f) as u64, total: up(b as u128, f) as u64, min_gas, max_gas })
}

pub fn refund(p: &ConsensusParameters, gas: u64, price: u64) -> Option<u64> {
    fit(gas as u128 * price as u128 / p.gas_price_factor as u128)
}

pub fn fee_of(t: &Tx, p: &ConsensusParameters) -> Option<Fee> {
    fee(p, t.metered() as u64, t.gas_limit(), t.gas_price())
}

fn dups<T: PartialEq + Copy>(v: &[T]) -> Vec<T> {
    let mut out: Vec<T> = Vec::new();
    for (i, x) in v.iter().enumerate() {
        if v[..i].contains(x) && !out.contains(x) {
            out.push(*x)
        }
    }
    out
}

/// Every rule the transaction breaks (signatures aside). Empty = structurally valid.
pub fn violations(t: &Tx, height: u64, p: &ConsensusParameters) -> Vec<CheckError> {
    use CheckError::*;
    let mut e = Vec::new();
    if let Tx::Mint(m) = t {
        if m.outs.len() as u64 > p.max_outputs {
            e.push(TransactionOutputsMax)
        }
        if m.txp.height as u64 != height {
            e.push(TransactionMintIncorrectBlockHeight)
        }
        let mut assets = Vec::new();
        for o in &m.outs {
            match o {
                Out::Coin { asset, .. } => assets.push(*asset),
                _ => e.push(TransactionMintOutputIsNotCoin),
            }
        }
        for a in dups(&assets) {
            e.push(TransactionOutputCoinAssetIdDuplicated(a.into()))
        }
        return e;
    }
    let (ins, outs, wits) = (t.ins(), t.outs(), t.wits());
    if t.gas_limit() > p.max_gas_per_tx {
        e.push(TransactionGasLimit)
    }
    if t.maturity() > height {
        e.push(TransactionMaturity)
    }
    if ins.len() as u64 > p.max_inputs {
        e.push(TransactionInputsMax)
    }
    if outs.len() as u64 > p.max_outputs {
        e.push(TransactionOutputsMax)
    }
    if wits.len() as u64 > p.max_witnesses {
        e.push(TransactionWitnessesMax)
    }
    let assets: Vec<B32> = ins.iter().filter_map(|i| i.asset()).collect();
    let changes: Vec<B32> = outs
        .iter()
        .filter_map(|o| match o {
            Out::Change { asset, .. } => Some(*asset),
            _ => None,
        })
        .collect();
    for a in dups(&changes) {
        e.push(TransactionOutputChangeAssetIdDuplicated(a.into()))
    }
    for a in &changes {
        if !assets.contains(a) {
            e.push(TransactionOutputChangeAssetIdNotFound((*a).into()))
        }
    }
    for o in outs {
        if let Out::Coin { asset, .. } = o {
            if !assets.contains(asset) {
                e.push(TransactionOutputCoinAssetIdNotFound((*asset).into()))
            }
        }
    }
    let mut utxos = Vec::new();
    let mut cids = Vec::new();
    let mut mids = Vec::new();
    for i in ins {
        match i {
            In::CoinSigned { utxo, .. } | In::CoinPred { utxo, .. } => utxos.push(*utxo),
            In::Contract { cid, .. } => cids.push(*cid),
            In::MsgSigned { mid, .. } | In::MsgPred { mid, .. } => mids.push(*mid),
        }
    }
    for u in dups(&utxos) {
        e.push(DuplicateInputUtxoId { utxo_id: crate::conv::r_utxo(&u) })
    }
    for c in dups(&cids) {
        e.push(DuplicateInputContractId { contract_id: c.into() })
    }
    for m in dups(&mids) {
        e.push(DuplicateMessageInputId { message_id: m.into() })
    }
    for (index, i) in ins.iter().enumerate() {
        if let Some(pr) = i.pred() {
            if pr.is_empty() {
                e.push(InputPredicateEmpty { index })
            }
            if pr.len() as u64 > p.max_predicate_length {
                e.push(InputPredicateLength { index })
            }
        }
        if let Some(d) = i.pdata() {
            if d.len() as u64 > p.max_predicate_data_length {
                e.push(InputPredicateDataLength { index })
            }
        }
        if let Some(w) = i.wit() {
            if w as usize >= wits.len() {
                e.push(InputWitnessIndexBounds { index })
            }
        }
        if let In::MsgSigned { data, .. } | In::MsgPred { data, .. } = i {
            if data.len() as u64 > p.max_message_data_length {
                e.push(InputMessageDataLength { index })
            }
        }
        if let In::Contract { .. } = i {
            let n = outs.iter().filter(|o| matches!(o, Out::Contract { idx, .. } if *idx as usize == index)).count();
            if n != 1 {
                e.push(InputContractAssociatedOutputContract { index })
            }
        }
    }
    for (index, o) in outs.iter().enumerate() {
        if let Out::Contract { idx, .. } = o {
            if !matches!(ins.get(*idx as usize), Some(In::Contract { .. })) {
                e.push(OutputContractInputIndex { index })
            }
        }
    }
    match t {
        Tx::Script(s) => {
            if s.script.len() as u64 > p.max_script_length {
                e.push(TransactionScriptLength)
            }
            if s.data.len() as u64 > p.max_script_data_length {
                e.push(TransactionScriptDataLength)
            }
            for (index, o) in outs.iter().enumerate() {
                if let Out::Created { .. } = o {
                    e.push(TransactionScriptOutputContractCreated { index })
                }
            }
        }
        Tx::Create(c) => {
            match wits.get(c.bytecode_wit as usize) {
                None => e.push(TransactionCreateBytecodeWitnessIndex),
                Some(w) => {
                    if w.len() as u64 > p.contract_max_size || (w.len() / 4) as u64 != c.bytecode_len {
                        e.push(TransactionCreateBytecodeLen)
                    }
                }
            }
            if c.slots.len() as u64 > p.max_storage_slots {
                e.push(TransactionCreateStorageSlotMax)
            }
            if (1..c.slots.len()).any(|k| c.slots[k - 1].key > c.slots[k].key) {
                e.push(TransactionCreateStorageSlotOrder)
            }
            for (index, i) in ins.iter().enumerate() {
                if let In::Contract { .. } = i {
                    e.push(TransactionCreateInputContract { index })
                }
            }
            let mut created = 0;
            for (index, o) in outs.iter().enumerate() {
                match o {
                    Out::Contract { .. } => e.push(TransactionCreateOutputContract { index }),
                    Out::Variable { .. } => e.push(TransactionCreateOutputVariable { index }),
                    Out::Change { asset, .. } if *asset != ZERO => e.push(TransactionCreateOutputChangeNotBaseAsset { index }),
                    Out::Created { .. } => {
                        if created > 0 {
                            e.push(TransactionCreateOutputContractCreatedMultiple { index })
                        }
                        created += 1
                    }
                    _ => {}
                }
            }
        }
        Tx::Mint(_) => {}
    }
    e
}

/// Balances of an accepted transaction, or every error that could justify rejecting it.
pub fn balances(t: &Tx, p: &ConsensusParameters) -> Result<(BTreeMap<B32, u64>, Fee), Vec<CheckError>> {
    let mut sums: BTreeMap<B32, u128> = BTreeMap::new();
    for i in t.ins() {
        if let (Some(a), Some(n)) = (i.asset(), i.amount()) {
            *sums.entry(a).or_default() += n as u128
        }
    }
    let mut errs = Vec::new();
    if sums.values().any(|v| fit(*v).is_none()) {
        errs.push(CheckError::ArithmeticOverflow)
    }
    let f = fee_of(t, p);
    if f.is_none() {
        errs.push(CheckError::ArithmeticOverflow)
    }
    sums.entry(ZERO).or_default();
    if let Some(f) = f {
        let base = sums[&ZERO];
        if base < f.total as u128 {
            errs.push(CheckError::InsufficientFeeAmount { expected: f.total, provided: base as u64 })
        }
        let mut left: BTreeMap<B32, i128> = sums.iter().map(|(k, v)| (*k, *v as i128)).collect();
        *left.get_mut(&ZERO).unwrap() -= f.total as i128;
        // outputs are deducted one after the other
        for o in t.outs() {
            if let Out::Coin { amount, asset, .. } = o {
                match left.get_mut(asset) {
                    None => errs.push(CheckError::TransactionOutputCoinAssetIdNotFound((*asset).into())),
                    Some(l) => {
                        if *l < *amount as i128 {
                            errs.push(CheckError::InsufficientInputAmount {
                                asset: (*asset).into(),
                                expected: *amount,
                                provided: (*l).clamp(0, u64::MAX as i128) as u64,
                            });
                        } else {
                            *l -= *amount as i128
                        }
                    }
                }
            }
        }
        if errs.is_empty() {
            return Ok((left.into_iter().map(|(k, v)| (k, v as u64)).collect(), f));
        }
    }
    Err(errs)
}

/// Why input `index` is not authorised (None = authorised).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Unauth {
    Bounds,
    Signature,
    Predicate,
}

pub fn unauthorised(t: &Tx, id: &B32) -> Vec<(usize, Unauth)> {
    let mut out = Vec::new();
    for (k, i) in t.ins().iter().enumerate() {
        if let (Some(w), Some(a)) = (i.wit(), i.authority()) {
            match t.wits().get(w as usize) {
                None => out.push((k, Unauth::Bounds)),
                Some(sig) => {
                    if keys::recover_owner(sig, id) != Some(a) {
                        out.push((k, Unauth::Signature))
                    }
                }
            }
        } else if let (Some(p), Some(a)) = (i.pred(), i.authority()) {
            if code_root(p) != a {
                out.push((k, Unauth::Predicate))
            }
        }
    }
    out
}
