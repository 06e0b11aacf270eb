//! C09 structural validity, C10 mint validity, C11 fees, C12 balances, C13 checked transactions.

use crate::by_kind;
use crate::conv::*;
use crate::ex::{hash_of, Ex};
use crate::gen;
use crate::keys;
use crate::model::*;
use crate::mutate;
use crate::refs;
use crate::rng::Rng;
use crate::stats::{short, Ctx};
use crate::Prop;
use fuel_tx::field::{BytecodeLength, BytecodeWitnessIndex, ReceiptsRoot, Salt as _, Script as _, ScriptData, StorageSlots, TxPointer as _};
use fuel_tx::field::{GasLimit, GasPrice, Inputs, Maturity, Outputs, Witnesses};
use fuel_tx::{
    Cacheable, CheckError, Checkable, Checked, CheckedMetadata, CheckedTransaction, ConsensusParameters, Create, CreateCheckedMetadata, IntoChecked, Mint, Script,
    ScriptCheckedMetadata, Transaction, TransactionFee, UniqueIdentifier,
};
use std::borrow::Borrow;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- workload for C09

/// put one limit within one of the transaction's own value
fn tighten(r: &mut Rng, m: &Tx, height: &mut u64, p: &mut ConsensusParameters) -> &'static str {
    let near = |r: &mut Rng, x: u64| -> u64 {
        let x = match r.below(5) {
            0 => x.saturating_sub(1),
            1 | 2 => x,
            3 => x.saturating_add(1),
            _ => r.below(x.saturating_add(2)),
        };
        if r.chance(1, 12) {
            // a limit far above, whose low bits look like one that is broken
            x | 1 << [8, 16, 31, 32, 33, 63][r.idx(6)]
        } else {
            x
        }
    };
    match r.below(13) {
        0 => {
            p.max_gas_per_tx = near(r, m.gas_limit());
            "max_gas_per_tx"
        }
        1 => {
            *height = near(r, m.maturity());
            "height"
        }
        2 => {
            p.max_inputs = near(r, m.ins().len() as u64);
            "max_inputs"
        }
        3 => {
            p.max_outputs = near(r, m.outs().len() as u64);
            "max_outputs"
        }
        4 => {
            p.max_witnesses = near(r, m.wits().len() as u64);
            "max_witnesses"
        }
        5 => {
            let v: Vec<u64> = m.ins().iter().filter_map(|i| i.pred()).map(|x| x.len() as u64).collect();
            if v.is_empty() {
                return "";
            }
            p.max_predicate_length = { let x = v[r.idx(v.len())]; near(r, x) };
            "max_predicate_length"
        }
        6 => {
            let v: Vec<u64> = m.ins().iter().filter_map(|i| i.pdata()).map(|x| x.len() as u64).collect();
            if v.is_empty() {
                return "";
            }
            p.max_predicate_data_length = { let x = v[r.idx(v.len())]; near(r, x) };
            "max_predicate_data_length"
        }
        7 => {
            let v: Vec<u64> = m
                .ins()
                .iter()
                .filter_map(|i| match i {
                    In::MsgSigned { data, .. } | In::MsgPred { data, .. } => Some(data.len() as u64),
                    _ => None,
                })
                .collect();
            if v.is_empty() {
                return "";
            }
            p.max_message_data_length = { let x = v[r.idx(v.len())]; near(r, x) };
            "max_message_data_length"
        }
        8 | 9 => match m {
            Tx::Script(s) => {
                if r.chance(1, 2) {
                    p.max_script_length = near(r, s.script.len() as u64);
                    "max_script_length"
                } else {
                    p.max_script_data_length = near(r, s.data.len() as u64);
                    "max_script_data_length"
                }
            }
            Tx::Create(c) => {
                if r.chance(1, 2) {
                    p.max_storage_slots = near(r, c.slots.len() as u64);
                    "max_storage_slots"
                } else {
                    let n = m.wits().get(c.bytecode_wit as usize).map(|w| w.len() as u64).unwrap_or(0);
                    p.contract_max_size = near(r, n);
                    "contract_max_size"
                }
            }
            Tx::Mint(_) => "",
        },
        // the limits of the other fields must not matter: shuffle one that does not apply
        10 => {
            match m {
                Tx::Script(_) => {
                    p.max_storage_slots = 0;
                    p.contract_max_size = 0;
                }
                _ => {
                    p.max_script_length = 0;
                    p.max_script_data_length = 0;
                }
            }
            "limits of the other kind zero"
        }
        11 => {
            p.max_inputs = [0, 1, 8, 255, 1 << 20][r.idx(5)];
            p.max_outputs = [0, 1, 8, 255, 1 << 20][r.idx(5)];
            "round limits"
        }
        _ => {
            *height = r.word();
            "any height"
        }
    }
}

fn longest(m: &Tx) -> u64 {
    let mut n = m.wits().iter().map(|w| w.len()).max().unwrap_or(0);
    if let Tx::Script(s) = m {
        n = n.max(s.script.len()).max(s.data.len())
    }
    for i in m.ins() {
        n = n.max(i.pred().map_or(0, |x| x.len())).max(i.pdata().map_or(0, |x| x.len()));
        if let In::MsgSigned { data, .. } | In::MsgPred { data, .. } = i {
            n = n.max(data.len())
        }
    }
    n as u64
}

/// One string of the transaction made long, with the limit that governs it right there and nothing else changed.
fn stretch(r: &mut Rng, m: &mut Tx, p: &mut ConsensusParameters) -> bool {
    let n = [1 << 20, (1 << 20) + 1 + r.idx(1 << 20), 1 << 21, (1 << 16) + r.idx(1 << 20), 1 << 16][r.idx(5)];
    let mut all: Vec<(&mut Vec<u8>, &mut u64)> = Vec::new();
    let ins = match m {
        Tx::Script(s) => {
            if r.chance(1, 2) {
                all.push((&mut s.script, &mut p.max_script_length));
            } else {
                all.push((&mut s.data, &mut p.max_script_data_length));
            }
            &mut s.ins
        }
        Tx::Create(c) => &mut c.ins,
        Tx::Mint(_) => return false,
    };
    let k = ins.len();
    if all.is_empty() || (k > 0 && r.chance(2, 3)) {
        if k == 0 {
            return false;
        }
        match &mut ins[r.idx(k)] {
            In::CoinPred { pred, pdata, .. } => match r.below(2) {
                0 => all = vec![(pred, &mut p.max_predicate_length)],
                _ => all = vec![(pdata, &mut p.max_predicate_data_length)],
            },
            In::MsgSigned { data, .. } => all = vec![(data, &mut p.max_message_data_length)],
            In::MsgPred { pred, pdata, data, .. } => match r.below(3) {
                0 => all = vec![(pred, &mut p.max_predicate_length)],
                1 => all = vec![(pdata, &mut p.max_predicate_data_length)],
                _ => all = vec![(data, &mut p.max_message_data_length)],
            },
            _ => return false,
        }
    }
    let (v, limit) = all.pop().unwrap();
    let c = r.below(256) as u8;
    v.resize(n, c);
    *limit = n as u64 + r.below(3) - 1;
    true
}

/// one structural fault (or near-fault that is still fine)
fn fault(r: &mut Rng, m: &mut Tx) -> &'static str {
    let nin = m.ins().len();
    let nout = m.outs().len();
    let nw = m.wits().len();
    let contracts: Vec<usize> = m.ins().iter().enumerate().filter(|(_, i)| matches!(i, In::Contract { .. })).map(|(k, _)| k).collect();
    let couts: Vec<usize> = m.outs().iter().enumerate().filter(|(_, i)| matches!(i, Out::Contract { .. })).map(|(k, _)| k).collect();
    match r.below(26) {
        0 => {
            // same UTXO id in two coins, or in a coin and a contract (which is fine)
            let coins: Vec<usize> = (0..nin).filter(|k| m.ins()[*k].is_coin()).collect();
            if coins.is_empty() {
                return "";
            }
            let i = coins[r.idx(coins.len())];
            let u = match &m.ins()[i] {
                In::CoinSigned { utxo, .. } | In::CoinPred { utxo, .. } => *utxo,
                _ => return "",
            };
            let k = r.below(3);
            let mut x = gen::arb_in_kind(r, k);
            match &mut x {
                In::CoinSigned { utxo, wit, .. } => {
                    *utxo = u;
                    *wit = r.below(nw.max(1) as u64) as u8
                }
                In::CoinPred { utxo, .. } | In::Contract { utxo, .. } => *utxo = u,
                _ => {}
            }
            if r.chance(1, 4) {
                // differs in the index only
                if let In::CoinSigned { utxo, .. } | In::CoinPred { utxo, .. } = &mut x {
                    utxo.idx ^= 1 << r.below(8);
                }
            }
            m.ins_mut().unwrap().push(x);
            "coin sharing a utxo id"
        }
        1 => {
            if contracts.is_empty() {
                return "";
            }
            let x = m.ins()[contracts[r.idx(contracts.len())]].clone();
            m.ins_mut().unwrap().push(x);
            m.outs_mut().push(Out::Contract { idx: nin as u8, broot: ZERO, sroot: ZERO });
            "contract input twice"
        }
        2 => {
            let msgs: Vec<usize> = (0..nin).filter(|k| matches!(m.ins()[*k], In::MsgSigned { .. } | In::MsgPred { .. })).collect();
            if msgs.is_empty() {
                return "";
            }
            let x = m.ins()[msgs[r.idx(msgs.len())]].clone();
            let mut y = x.clone();
            if let (true, In::MsgSigned { mid, .. }) = (r.chance(1, 2), &x) {
                let k = 3 + r.below(2);
                y = gen::arb_in_kind(r, k);
                if let In::MsgSigned { mid: d, .. } | In::MsgPred { mid: d, .. } = &mut y {
                    *d = *mid
                }
                y.set_wit(x.wit().unwrap());
            }
            m.ins_mut().unwrap().push(y);
            "message id twice"
        }
        3 => {
            let ch: Vec<B32> = m
                .outs()
                .iter()
                .filter_map(|o| match o {
                    Out::Change { asset, .. } => Some(*asset),
                    _ => None,
                })
                .collect();
            if ch.is_empty() {
                return "";
            }
            let a = ch[r.idx(ch.len())];
            m.outs_mut().push(Out::Change { to: r.b32(), amount: 0, asset: a });
            "change output twice"
        }
        4 => {
            let a = r.b32();
            m.outs_mut().push(Out::Change { to: r.b32(), amount: r.word(), asset: a });
            "change output of some asset"
        }
        5 => {
            let a = r.b32();
            m.outs_mut().push(Out::Coin { to: r.b32(), amount: r.below(2), asset: a });
            "coin output of some asset"
        }
        6 => {
            let k: Vec<usize> = (0..nin).filter(|k| m.ins()[*k].wit().is_some()).collect();
            if k.is_empty() {
                return "";
            }
            let i = k[r.idx(k.len())];
            let w = match r.below(3) {
                0 => nw as u8,
                1 => (nw as u8).wrapping_sub(1),
                _ => 255,
            };
            m.ins_mut().unwrap()[i].set_wit(w);
            "witness index at the edge"
        }
        7 => {
            let k: Vec<usize> = (0..nin).filter(|k| m.ins()[*k].pred().is_some()).collect();
            if k.is_empty() {
                return "";
            }
            let i = k[r.idx(k.len())];
            if let In::CoinPred { pred, .. } | In::MsgPred { pred, .. } = &mut m.ins_mut().unwrap()[i] {
                pred.clear()
            }
            "predicate emptied"
        }
        8 => {
            if couts.is_empty() {
                return "";
            }
            m.outs_mut().remove(couts[r.idx(couts.len())]);
            "contract output removed"
        }
        9 => {
            if couts.is_empty() {
                return "";
            }
            let x = m.outs()[couts[r.idx(couts.len())]].clone();
            m.outs_mut().push(x);
            "contract output twice"
        }
        10 => {
            if couts.is_empty() {
                return "";
            }
            let i = couts[r.idx(couts.len())];
            let to = r.below(nin as u64 + 2) as u8;
            if let Out::Contract { idx, .. } = &mut m.outs_mut()[i] {
                *idx = to
            }
            "contract output redirected"
        }
        11 => {
            if couts.len() < 2 {
                return "";
            }
            let (i, j) = (couts[0], couts[couts.len() - 1]);
            m.outs_mut().swap(i, j);
            "contract outputs swapped"
        }
        12 => {
            m.outs_mut().push(Out::Contract { idx: r.below(nin as u64 + 2) as u8, broot: ZERO, sroot: ZERO });
            "contract output added"
        }
        13 => {
            let x = gen::arb_in_kind(r, 2);
            let p = r.idx(nin + 1);
            m.ins_mut().unwrap().insert(p, x);
            "contract input inserted"
        }
        14 => {
            if nin == 0 {
                return "";
            }
            let p = r.idx(nin);
            m.ins_mut().unwrap().remove(p);
            "input removed"
        }
        15 => {
            for _ in 0..1 + r.idx(2) {
                let x = gen::arb_out_kind(r, 5);
                let p = r.idx(m.outs().len() + 1);
                m.outs_mut().insert(p, x);
            }
            "created contracts added"
        }
        16 => {
            let k = r.below(6);
            let x = gen::arb_out_kind(r, k);
            let p = r.idx(nout + 1);
            m.outs_mut().insert(p, x);
            "output inserted"
        }
        17 => {
            if nout == 0 {
                return "";
            }
            let p = r.idx(nout);
            m.outs_mut().remove(p);
            "output removed"
        }
        18 => {
            let Some(w) = m.wits_mut() else { return "" };
            if w.is_empty() {
                return "";
            }
            w.pop();
            "last witness removed"
        }
        19..=23 => {
            let Tx::Create(c) = m else { return "" };
            match r.below(9) {
                8 => {
                    let a: Vec<B32> = c.ins.iter().filter_map(|i| i.asset()).filter(|a| *a != ZERO).collect();
                    if a.is_empty() {
                        return "";
                    }
                    let a = a[r.idx(a.len())];
                    c.outs.retain(|o| !matches!(o, Out::Change { asset, .. } if *asset == a));
                    let p = r.idx(c.outs.len() + 1);
                    c.outs.insert(p, Out::Change { to: r.b32(), amount: r.word(), asset: a });
                    "create with change of another input asset"
                }
                0 => {
                    c.bytecode_wit = if r.chance(1, 2) { c.wits.len() as u8 } else { 255 };
                    "bytecode witness index at the edge"
                }
                1 => {
                    c.bytecode_len = match r.below(4) {
                        0 => c.bytecode_len.wrapping_add(1),
                        1 => c.bytecode_len.wrapping_sub(1),
                        2 => c.bytecode_len.wrapping_mul(4),
                        _ => c.bytecode_len.wrapping_add(1 << 62),
                    };
                    "bytecode length off"
                }
                2 => {
                    if let Some(w) = c.wits.get_mut(c.bytecode_wit as usize) {
                        for _ in 0..1 + r.idx(4) {
                            w.push(0)
                        }
                    }
                    "bytecode grown"
                }
                3 | 4 => {
                    if c.slots.len() < 2 {
                        let mut v = vec![gen::slot(r), gen::slot(r)];
                        v[0].key[0] = 1;
                        v[1].key[0] = 2;
                        c.slots = v;
                    }
                    let n = c.slots.len();
                    let i = r.idx(n - 1);
                    c.slots.swap(i, i + 1);
                    "neighbouring slots swapped"
                }
                5 => {
                    if c.slots.is_empty() {
                        return "";
                    }
                    let i = r.idx(c.slots.len());
                    let mut x = c.slots[i].clone();
                    x.val = r.b32();
                    c.slots.insert(i + r.idx(2), x);
                    "slot key twice"
                }
                6 => {
                    if c.slots.is_empty() {
                        return "";
                    }
                    let i = r.idx(c.slots.len());
                    c.slots[i].key = r.b32();
                    "slot key changed"
                }
                _ => {
                    let n = c.slots.len();
                    let x = gen::slot(r);
                    c.slots.insert(r.idx(n + 1), x);
                    "slot inserted"
                }
            }
        }
        24 => {
            let ch = mutate::change(r, m);
            if ch.binding {
                "committed field changed"
            } else {
                "mutable field changed"
            }
        }
        _ => {
            m.set_common(None, Some(r.word()), Some(r.word()));
            "limit and maturity arbitrary"
        }
    }
}

/// A transaction around the edge of validity, with height and parameters.
pub fn edge(r: &mut Rng, cx: &mut Ctx, kind: u64) -> (Tx, u64, ConsensusParameters) {
    let v = gen::valid(r, &gen::Opts { kind: Some(kind), signed: false, max_inputs: 6 });
    let (mut m, mut h, mut p) = (v.tx, v.height, v.params);
    if r.chance(1, 60) {
        m = gen::arb_tx_kind(r, kind);
        cx.hit("arbitrary transactions");
    }
    if r.chance(1, 400) && kind == 0 {
        // more inputs than an index byte can name
        let n = 256 + r.idx(6) - m.ins().len();
        for _ in 0..n {
            let k = m.ins().len();
            let x = gen::arb_in_kind(r, 2);
            m.ins_mut().unwrap().push(x);
            m.outs_mut().push(Out::Contract { idx: k as u8, broot: ZERO, sroot: ZERO });
            if k > 255 {
                // keep one output per index
                let drop = k - 256;
                if r.chance(1, 2) {
                    m.outs_mut().retain({
                        let mut seen = 0;
                        move |o| {
                            if matches!(o, Out::Contract { idx, .. } if *idx as usize == drop) {
                                seen += 1;
                                return seen > 1;
                            }
                            true
                        }
                    });
                }
            }
        }
        p.max_inputs = 1 << 20;
        p.max_outputs = 1 << 20;
        cx.hit("more than 256 inputs");
    }
    if r.chance(1, 80) {
        if r.chance(1, 5) {
            gen::crowd(r, &mut m);
        } else {
            gen::crowd_legal(r, &mut m);
            cx.hit("many_elements, otherwise unchanged");
        }
        p.max_inputs = 1 << 20;
        p.max_outputs = 1 << 20;
        p.max_witnesses = 1 << 20;
        p.max_storage_slots = 1 << 16;
        cx.hit("many_elements");
    }
    if r.chance(1, 250) {
        let n = [254 + r.idx(6), 257 + r.idx(150)][r.idx(2)];
        p.max_predicate_length = p.max_predicate_length.max(4);
        gen::motley(r, &mut m, n, true);
        p.max_inputs = 1 << 20;
        p.max_outputs = 1 << 20;
        cx.hit("hundreds of assets or messages");
        // what the late ones allow, and what they forbid
        let n = m.ins().len();
        let k = if r.chance(1, 3) { r.idx(n) } else { n - 1 - r.idx(n.min(5)) };
        let x = m.ins()[k].clone();
        match (r.below(5), x.asset()) {
            (0, Some(asset)) => m.outs_mut().push(Out::Coin { to: r.b32(), amount: 0, asset }),
            (1 | 2, Some(asset)) if kind == 0 => {
                for _ in 0..1 + r.idx(2) {
                    let o = m.outs_mut();
                    o.insert(r.idx(o.len() + 1), Out::Change { to: r.b32(), amount: 0, asset });
                }
            }
            (4, _) => {}
            _ if !matches!(x, In::Contract { .. }) => {
                // again, behind what is there or in the place of another
                if r.chance(1, 2) {
                    m.ins_mut().unwrap().push(x)
                } else if !matches!(m.ins()[n - 1], In::Contract { .. }) {
                    m.ins_mut().unwrap()[n - 1] = x
                }
            }
            _ => {}
        }
        if r.chance(1, 2) {
            return (m, h, p);
        }
    }
    let long = r.chance(1, 700);
    if long && r.chance(1, 4) {
        gen::giant(r, &mut m);
        // around the longest string there is, or what the defaults say
        let n = longest(&m);
        if r.chance(1, 2) {
            let x = (n + r.below(3)).saturating_sub(1);
            match r.below(3) {
                0 => (p.max_predicate_length, p.max_script_length) = (x, x),
                1 => (p.max_predicate_data_length, p.max_script_data_length) = (x, x),
                _ => p.max_message_data_length = x,
            }
        }
        cx.hit("strings of a mebibyte");
    } else if long && stretch(r, &mut m, &mut p) {
        cx.hit("strings of a mebibyte");
        cx.hit("one long string at its own limit");
        return (m, h, p);
    }
    let nf = [0, 0, 1, 1, 1, 1, 2, 3][r.idx(8)];
    for _ in 0..nf {
        let f = fault(r, &mut m);
        if !f.is_empty() {
            cx.hit(format!("fault: {f}"));
        }
    }
    let nt = [0, 1, 1, 2][r.idx(4)];
    for _ in 0..nt {
        let f = tighten(r, &m, &mut h, &mut p);
        if !f.is_empty() {
            cx.hit(format!("edge: {f}"));
        }
    }
    (m, h, p)
}

fn judge(cx: &mut Ctx, what: &str, got: &Result<(), CheckError>, want: &[CheckError]) {
    match got {
        Ok(()) => {
            cx.ck(want.is_empty(), || format!("{what} accepted, but these rules are broken: {}", short(&want)));
        }
        Err(e) => {
            cx.ck(want.contains(e), || format!("{what} reported {e:?}; rules broken: {}", short(&want)));
        }
    }
}

fn name(e: &CheckError) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

fn structural<T: Ex>(cx: &mut Ctx, r: &mut Rng, m: &Tx, h: u64, p: &ConsensusParameters, want: &[CheckError]) {
    let a = T::real(m);
    let g = a.check_without_signatures(h, p);
    judge(cx, "check_without_signatures", &g, want);
    if let Err(e) = &g {
        cx.hit(format!("reported {}", name(e)));
    }
    let mut b = a.clone();
    b.precompute();
    cx.eq("verdict of the cached transaction", b.check_without_signatures(h, p), g.clone());
    // per element checks
    for (k, i) in a.inputs().iter().enumerate() {
        let mine: Vec<CheckError> = want
            .iter()
            .filter(|e| match e {
                CheckError::InputPredicateEmpty { index }
                | CheckError::InputPredicateLength { index }
                | CheckError::InputPredicateDataLength { index }
                | CheckError::InputWitnessIndexBounds { index }
                | CheckError::InputMessageDataLength { index }
                | CheckError::InputContractAssociatedOutputContract { index } => *index == k,
                _ => false,
            })
            .cloned()
            .collect();
        judge(cx, "Input::check_without_signature", &i.check_without_signature(k, a.outputs(), a.witnesses(), p), &mine);
    }
    for (k, o) in a.outputs().iter().enumerate() {
        let mine: Vec<CheckError> = want.iter().filter(|e| matches!(e, CheckError::OutputContractInputIndex { index } if *index == k)).cloned().collect();
        judge(cx, "Output::check", &o.check(k, a.inputs()), &mine);
    }
    let t: Transaction = if r.chance(1, 2) { a.into() } else { b.into() };
    judge(cx, "Transaction::check_without_signatures", &t.check_without_signatures(h, p), want);
    cx.ck(&m_tx(&t) == m, || "checking altered the transaction".into());
}

fn c09(cx: &mut Ctx, r: &mut Rng) {
    let kind = r.below(2);
    let (mut m, h, p) = edge(r, cx, kind);
    if r.chance(1, 8) {
        gen::echo(r, &mut m);
        cx.hit("coinciding fields");
    }
    let want = refs::violations(&m, h, &p);
    cx.hit(if want.is_empty() { "valid" } else { "invalid" });
    let mut sh = gen::shape(&m).to_le_bytes().to_vec();
    for e in &want {
        sh.extend(format!("{e:?}").bytes().take(20));
        cx.hit(format!("broken {}", name(e)));
    }
    cx.shape(crate::rng::fnv(&sh));
    by_kind!(&m, structural(cx, r, &m, h, &p, &want));
    cx.sample(|| format!("{} height={h} broken={want:?}", gen::describe(&m)));
}

// ---------------------------------------------------------------- C10

/// A mint around the edge of validity, with height and parameters.
pub fn edge_mint(r: &mut Rng, cx: &mut Ctx) -> (Tx, u64, ConsensusParameters) {
    let v = gen::valid(r, &gen::Opts { kind: Some(2), signed: false, max_inputs: 0 });
    let (mut t, mut h, mut p) = (v.tx, v.height, v.params);
    let Tx::Mint(m) = &mut t else { panic!("kind") };
    if r.chance(1, 30) {
        m.outs = gen::list(r, gen::arb_out);
    }
    if r.chance(1, 150) {
        let n = [125 + r.idx(6), 250 + r.idx(12), 257 + r.idx(150)][r.idx(3)];
        let k = r.idx(8);
        while m.outs.len() < n {
            // assets apart from each other in two bytes somewhere
            let mut asset = r.b32();
            let at = 4 * (k % 8);
            asset[at..at + 4].copy_from_slice(&(0x5a00_0000 + m.outs.len() as u32).to_be_bytes());
            m.outs.push(Out::Coin { to: r.b32(), amount: r.word(), asset })
        }
        p.max_outputs = 1 << 20;
        cx.hit("hundreds of outputs");
    }
    for _ in 0..[0, 0, 1, 1, 1, 2][r.idx(6)] {
        let n = m.outs.len();
        let what = match r.below(8) {
            0 => {
                let k = 1 + r.below(5);
                let x = gen::arb_out_kind(r, k);
                m.outs.insert(r.idx(n + 1), x);
                "output that is no coin"
            }
            1 | 2 if n > 0 => {
                let mut x = m.outs[r.idx(n)].clone();
                if let Out::Coin { to, amount, asset } = &mut x {
                    *to = r.b32();
                    *amount = r.word();
                    if r.chance(1, 4) {
                        *asset = r.near(asset);
                    }
                }
                m.outs.insert(r.idx(n + 1), x);
                "coin of an asset seen before"
            }
            3 if n > 0 => {
                // a non-coin output naming the asset of a coin output
                if let Out::Coin { asset, .. } = m.outs[r.idx(n)].clone() {
                    m.outs.insert(r.idx(n + 1), Out::Change { to: r.b32(), amount: r.word(), asset });
                }
                "change output of a minted asset"
            }
            4 => {
                p.max_outputs = (n as u64 + r.below(3)).saturating_sub(1);
                "max_outputs at the edge"
            }
            5 => {
                h = match r.below(6) {
                    0 => h.wrapping_add(1),
                    1 => h.wrapping_sub(1),
                    2 => h.wrapping_add(1 << 32),
                    3 => h.wrapping_add((1 + r.below(1 << 31)) << 32),
                    4 => r.word(),
                    _ => h ^ (1 << r.below(64)),
                };
                "height off"
            }
            6 => {
                m.txp.height ^= 1 << r.below(32);
                "pointer height off"
            }
            _ => {
                // what a mint does not look at
                p.max_inputs = 0;
                p.max_gas_per_tx = 0;
                p.max_witnesses = 0;
                m.txp.index = r.u64() as u16;
                "unrelated limits"
            }
        };
        cx.hit(format!("fault: {what}"));
    }
    (t, h, p)
}

fn c10(cx: &mut Ctx, r: &mut Rng) {
    let (t, h, p) = edge_mint(r, cx);
    let want = refs::violations(&t, h, &p);
    cx.hit(if want.is_empty() { "valid" } else { "invalid" });
    let mut sh = gen::shape(&t).to_le_bytes().to_vec();
    for e in &want {
        cx.hit(format!("broken {}", name(e)));
        sh.extend(format!("{e:?}").bytes().take(24));
    }
    cx.shape(crate::rng::fnv(&sh));
    let Tx::Mint(m) = &t else { return };
    let mut a = r_mint(m);
    let g = a.check_without_signatures(h, &p);
    judge(cx, "check_without_signatures", &g, &want);
    judge(cx, "check", &a.check(h, &p), &want);
    cx.ck(a.check_signatures().is_ok(), || "a mint's signature check failed".into());
    a.precompute();
    judge(cx, "check of the cached mint", &a.check(h, &p), &want);
    let w: Transaction = a.clone().into();
    judge(cx, "Transaction::check", &w.check(h, &p), &want);
    judge(cx, "into_checked_basic", &a.clone().into_checked_basic(h, &p).map(|_| ()), &want);
    judge(cx, "into_checked", &w.into_checked(h, &p).map(|_| ()), &want);
    cx.ck(m_mint(&a) == *m, || "checking altered the mint".into());
    cx.sample(|| format!("{} pointer={:?} height={h} max_outputs={} broken={want:?}", gen::describe(&t), m.txp, p.max_outputs));
}

// ---------------------------------------------------------------- C11

fn fee_eq(cx: &mut Ctx, what: &str, got: Option<TransactionFee>, want: Option<refs::Fee>) {
    let g = got.map(|f| refs::Fee { min: TransactionFee::min(&f), total: f.total(), min_gas: f.min_gas(), max_gas: f.max_gas() });
    cx.eq(what, g, want);
    if let (Some(f), Some(w)) = (got, want) {
        cx.eq("into_inner", f.into_inner(), (w.min, w.total));
        cx.eq("Word::from", u64::from(f), w.total);
        cx.hit("fees");
    } else {
        cx.hit("overflows");
    }
}

/// operands whose sum, product or quotient falls near 2^64
fn near_product(r: &mut Rng) -> (u64, u64) {
    let a = match r.below(3) {
        0 => 1u64 << r.below(64),
        1 => r.word().max(1),
        _ => (r.u64() >> r.below(63)).max(1),
    };
    let q = u64::MAX / a;
    let b = match r.below(4) {
        0 => q,
        1 => q.saturating_add(1),
        2 => q.saturating_sub(r.below(3)),
        _ => r.word(),
    };
    if r.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}

fn c11(cx: &mut Ctx, r: &mut Rng) {
    let mut p = gen::arb_params(r);
    for _ in 0..4 {
        p.gas_price_factor = match r.below(5) {
            0 => 1,
            1 => 1 + r.below(10),
            2 => 1_000_000_000,
            _ => r.word().max(1),
        };
        let (mut bytes, mut limit, mut price);
        match r.below(4) {
            0 => {
                let (g, b) = near_product(r);
                p.gas_per_byte = g;
                bytes = b;
                limit = r.word();
                price = r.word();
            }
            1 => {
                // max gas near the limit
                p.gas_per_byte = r.below(1000);
                bytes = r.below(1 << 20);
                limit = (u64::MAX - p.gas_per_byte * bytes).wrapping_add(r.below(3)).wrapping_sub(1);
                price = r.below(3);
            }
            2 => {
                // product of max gas and price near the limit
                let (g, b) = near_product(r);
                p.gas_per_byte = r.below(5);
                bytes = r.below(500).min(g / p.gas_per_byte.max(1));
                limit = g.wrapping_sub(p.gas_per_byte * bytes);
                price = b;
            }
            _ => {
                p.gas_per_byte = r.word();
                bytes = r.word();
                limit = r.word();
                price = r.word();
            }
        }
        if r.chance(1, 20) {
            bytes = 0;
        }
        if r.chance(1, 20) {
            limit = 0;
        }
        if r.chance(1, 20) {
            price = 0;
        }
        let want = refs::fee(&p, bytes, limit, price);
        fee_eq(cx, "checked_from_values", TransactionFee::checked_from_values(&p, bytes, limit, price), want);
        if let Some(w) = want {
            let f = TransactionFee::checked_from_values(&p, bytes, limit, price).unwrap_or_default();
            let bal = match r.below(4) {
                0 => w.total,
                1 => w.total.wrapping_sub(1),
                2 => w.total.wrapping_add(1),
                _ => r.word(),
            };
            cx.eq("checked_deduct_total", f.checked_deduct_total(bal), bal.checked_sub(w.total));
        }
        let (g, q) = near_product(r);
        let (g, q) = if r.chance(1, 2) {
            (g, q)
        } else {
            // quotient near the limit
            (((u64::MAX as u128 * p.gas_price_factor as u128) / q.max(1) as u128).min(u64::MAX as u128) as u64, q)
        };
        let g = g.wrapping_add(r.below(3)).wrapping_sub(1);
        let want = refs::refund(&p, g, q);
        cx.hit(if want.is_some() { "refunds" } else { "refund_overflows" });
        cx.eq("gas_refund_value", TransactionFee::gas_refund_value(&p, g, q), want);
        let sh = [64 - bytes.leading_zeros(), 64 - limit.leading_zeros(), 64 - price.leading_zeros(), 64 - p.gas_per_byte.leading_zeros(), 64 - p.gas_price_factor.leading_zeros()];
        cx.shape(crate::rng::fnv(&sh.map(|x| x as u8)));
        cx.sample(|| format!("bytes={bytes} limit={limit} price={price} per_byte={} factor={} -> {want:?}", p.gas_per_byte, p.gas_price_factor));
    }
    // from a transaction
    if r.chance(1, 6) {
        let mut m = gen::arb_exec(r);
        if r.chance(1, 2) {
            let n = m.metered() as u64;
            let (g, b) = near_product(r);
            p.gas_per_byte = r.below(100);
            m.set_common(Some(b), Some(g.wrapping_sub(n.wrapping_mul(p.gas_per_byte))), None);
        }
        fn go<T: Ex>(cx: &mut Ctx, m: &Tx, p: &ConsensusParameters) {
            let mut a = T::real(m);
            let want = refs::fee_of(m, p);
            fee_eq(cx, "checked_from_tx", TransactionFee::checked_from_tx(p, &a), want);
            cx.eq("price", a.price(), m.gas_price());
            cx.eq("limit", a.limit(), m.gas_limit());
            cx.eq("metered bytes", a.metered_bytes_size(), m.metered());
            a.precompute();
            fee_eq(cx, "checked_from_tx (cached)", TransactionFee::checked_from_tx(p, &a), want);
        }
        by_kind!(&m, go(cx, &m, &p));
        cx.hit("from_tx");
    }
}

// ---------------------------------------------------------------- C12

fn money(r: &mut Rng, cx: &mut Ctx, m: &mut Tx, p: &mut ConsensusParameters) {
    let f = refs::fee_of(m, p).map(|f| f.total).unwrap_or(0);
    let coins: Vec<usize> = m.outs().iter().enumerate().filter(|(_, o)| matches!(o, Out::Coin { .. })).map(|(k, _)| k).collect();
    let what = match r.below(9) {
        0 => {
            // one input pushes its asset's sum to 2^64-1, 2^64 or around
            let with: Vec<usize> = (0..m.ins().len()).filter(|k| m.ins()[*k].amount().is_some()).collect();
            if with.is_empty() {
                return;
            }
            let i = with[r.idx(with.len())];
            let a = m.ins()[i].asset();
            let rest: u128 = m.ins().iter().enumerate().filter(|(k, x)| *k != i && x.asset() == a).filter_map(|(_, x)| x.amount()).map(|x| x as u128).sum();
            let target = u64::MAX as u128 + [0, 0, 1, 2][r.idx(4)];
            let want = target.saturating_sub(rest).min(u64::MAX as u128) as u64;
            let have = m.ins()[i].amount().unwrap();
            if want < have {
                return;
            }
            gen::bump(&mut m.ins_mut().unwrap()[i], want - have);
            "asset sum near 2^64"
        }
        1 | 2 => {
            if coins.is_empty() {
                return;
            }
            // one output takes what is left, or one more, or one less
            let k = coins[r.idx(coins.len())];
            let Out::Coin { asset, .. } = m.outs()[k].clone() else { return };
            let sum: u128 = m.ins().iter().filter(|x| x.asset() == Some(asset)).filter_map(|x| x.amount()).map(|x| x as u128).sum();
            let spent: u128 = m
                .outs()
                .iter()
                .enumerate()
                .filter_map(|(j, o)| match o {
                    Out::Coin { asset: a, amount, .. } if *a == asset && j != k => Some(*amount as u128),
                    _ => None,
                })
                .sum();
            let fee = if asset == ZERO { f as u128 } else { 0 };
            let left = sum.saturating_sub(spent).saturating_sub(fee).min(u64::MAX as u128) as u64;
            let v = match r.below(5) {
                0 | 1 => left,
                2 | 3 => left.wrapping_add(1),
                _ => left.saturating_sub(1),
            };
            if let Out::Coin { amount, .. } = &mut m.outs_mut()[k] {
                *amount = v
            }
            "coin output at the edge"
        }
        3 | 4 => {
            // base asset exactly covers the fee, or is one short
            let base: Vec<usize> = (0..m.ins().len()).filter(|k| m.ins()[*k].asset() == Some(ZERO)).collect();
            if base.is_empty() || f == 0 {
                return;
            }
            for (n, k) in base.iter().enumerate() {
                let to = if n == 0 { (f as u128 + r.below(3) as u128).saturating_sub(1).min(u64::MAX as u128) as u64 } else { 0 };
                set_amount(&mut m.ins_mut().unwrap()[*k], to);
            }
            "base asset at the fee"
        }
        5 => {
            m.set_common(Some(r.word()), None, None);
            "any price"
        }
        6 => {
            let a = {
                let v: Vec<B32> = m.ins().iter().filter_map(|i| i.asset()).collect();
                if v.is_empty() {
                    return;
                }
                v[r.idx(v.len())]
            };
            for _ in 0..1 + r.idx(3) {
                m.outs_mut().push(Out::Coin { to: r.b32(), amount: r.word(), asset: a });
            }
            "more coin outputs"
        }
        7 => {
            p.gas_per_byte = r.word();
            "any gas per byte"
        }
        _ => {
            for i in m.ins_mut().unwrap().iter_mut() {
                let x = r.word();
                set_amount(i, x);
            }
            "any amounts"
        }
    };
    cx.hit(format!("money: {what}"));
}

fn set_amount(i: &mut In, x: u64) {
    match i {
        In::CoinSigned { amount, .. } | In::CoinPred { amount, .. } => *amount = x,
        In::MsgSigned { amount, .. } | In::MsgPred { amount, .. } => *amount = x,
        In::Contract { .. } => {}
    }
    gen::bump(i, 0);
}

/// what a script or create checked value says
pub trait Meta {
    fn parts(&self) -> (BTreeMap<B32, u64>, u64, refs::Fee);
}
fn fee_model(f: &TransactionFee) -> refs::Fee {
    refs::Fee { min: TransactionFee::min(f), total: f.total(), min_gas: f.min_gas(), max_gas: f.max_gas() }
}
impl Meta for ScriptCheckedMetadata {
    fn parts(&self) -> (BTreeMap<B32, u64>, u64, refs::Fee) {
        (self.initial_free_balances.iter().map(|(k, v)| (**k, *v)).collect(), self.block_height, fee_model(&self.fee))
    }
}
impl Meta for CreateCheckedMetadata {
    fn parts(&self) -> (BTreeMap<B32, u64>, u64, refs::Fee) {
        (self.initial_free_balances.iter().map(|(k, v)| (**k, *v)).collect(), self.block_height, fee_model(&self.fee))
    }
}

fn balances<T: Ex>(cx: &mut Ctx, m: &Tx, h: u64, p: &ConsensusParameters, viol: &[CheckError])
where
    T::Metadata: Meta,
{
    let want = refs::balances(m, p);
    match T::real(m).into_checked_basic(h, p) {
        Ok(c) => match &want {
            Ok((b, f)) if viol.is_empty() => {
                let (gb, gh, gf) = c.metadata().parts();
                cx.eq("balances", gb, b.clone());
                cx.eq("fee", gf, *f);
                cx.eq("height", gh, h);
                cx.hit("accepted");
                cx.add("assets_balanced", b.len() as u64);
            }
            Ok(_) => cx.fail(format!("accepted although rules are broken: {}", short(&viol))),
            Err(e) => cx.fail(format!("accepted although {e:?}")),
        },
        Err(e) => {
            let ok = match &want {
                Ok(_) => viol.contains(&e),
                Err(w) => viol.contains(&e) || (viol.is_empty() && w.contains(&e)),
            };
            cx.hit(format!("rejected {}", name(&e)));
            cx.ck(ok, || format!("rejected with {e:?}; broken rules {}, money {}", short(&viol), short(&want)));
        }
    }
}

fn c12(cx: &mut Ctx, r: &mut Rng) {
    let kind = r.below(2);
    let v = gen::valid(r, &gen::Opts { kind: Some(kind), signed: false, max_inputs: 7 });
    let (mut m, h, mut p) = (v.tx, v.height, v.params);
    if r.chance(1, 150) {
        gen::money_crowd(r, &mut m);
        (p.max_inputs, p.max_outputs) = (1 << 20, 1 << 20);
        cx.hit("hundreds of coins");
    }
    for _ in 0..[0, 1, 1, 1, 2, 3][r.idx(6)] {
        money(r, cx, &mut m, &mut p);
    }
    if r.chance(1, 6) {
        gen::echo(r, &mut m);
        cx.hit("coinciding fields");
    }
    let viol = refs::violations(&m, h, &p);
    let mut sh = gen::shape(&m).to_le_bytes().to_vec();
    match refs::balances(&m, &p) {
        Ok(_) => cx.hit("balanced"),
        Err(e) => {
            cx.hit("unbalanced");
            for x in &e {
                sh.extend(name(x).bytes());
                cx.hit(format!("money fault {}", name(x)));
            }
        }
    }
    cx.shape(crate::rng::fnv(&sh));
    by_kind!(&m, balances(cx, &m, h, &p, &viol));
    cx.sample(|| format!("{} -> {}", gen::describe(&m), short(&refs::balances(&m, &p))));
}

// ---------------------------------------------------------------- C13

/// Turn one value into another through its field accessors, cached data left as it is.
pub fn become_script(t: &mut Script, m: &MScript) {
    *t.gas_price_mut() = m.gas_price;
    *t.gas_limit_mut() = m.gas_limit;
    *t.maturity_mut() = m.maturity;
    *t.receipts_root_mut() = m.receipts_root.into();
    *t.script_mut() = m.script.clone();
    *t.script_data_mut() = m.data.clone();
    *t.inputs_mut() = r_ins(&m.ins);
    *t.outputs_mut() = r_outs(&m.outs);
    *t.witnesses_mut() = r_wits(&m.wits);
}
pub fn become_create(t: &mut Create, m: &MCreate) {
    *t.gas_price_mut() = m.gas_price;
    *t.gas_limit_mut() = m.gas_limit;
    *t.maturity_mut() = m.maturity;
    *t.bytecode_length_mut() = m.bytecode_len;
    *t.bytecode_witness_index_mut() = m.bytecode_wit;
    *t.salt_mut() = m.salt.into();
    *t.storage_slots_mut() = m.slots.iter().map(r_slot).collect();
    *t.inputs_mut() = r_ins(&m.ins);
    *t.outputs_mut() = r_outs(&m.outs);
    *t.witnesses_mut() = r_wits(&m.wits);
}
pub fn become_mint(t: &mut Mint, m: &MMint) {
    *t.tx_pointer_mut() = r_txp(&m.txp);
    *t.outputs_mut() = r_outs(&m.outs);
}

struct Expect {
    m: Tx,
    h: u64,
    viol: Vec<CheckError>,
    bal: Option<(BTreeMap<B32, u64>, refs::Fee)>,
    money: Vec<CheckError>,
    unauth: Vec<(usize, refs::Unauth)>,
}

impl Expect {
    fn basic_ok(&self) -> bool {
        self.viol.is_empty() && self.money.is_empty()
    }
    fn basic_err(&self, e: &CheckError) -> bool {
        self.viol.contains(e) || (self.viol.is_empty() && self.money.contains(e))
    }
    fn sig_err(&self, e: &CheckError) -> bool {
        use refs::Unauth::*;
        self.unauth.iter().any(|(k, u)| {
            *e == match u {
                Bounds => CheckError::InputWitnessIndexBounds { index: *k },
                Signature => CheckError::InputInvalidSignature { index: *k },
                Predicate => CheckError::InputPredicateOwner { index: *k },
            }
        })
    }
}

const BASIC: u32 = 1;
const ALL: u32 = 3;

trait Kindly: IntoChecked + Clone + std::fmt::Debug + PartialEq + std::hash::Hash + UniqueIdentifier + Cacheable
where
    Self::Metadata: Clone + std::fmt::Debug + PartialEq,
{
    fn model(&self) -> Tx;
    fn meta(m: &Self::Metadata) -> Option<(BTreeMap<B32, u64>, u64, refs::Fee)>;
}
impl Kindly for Script {
    fn model(&self) -> Tx {
        Tx::Script(m_script(self))
    }
    fn meta(m: &Self::Metadata) -> Option<(BTreeMap<B32, u64>, u64, refs::Fee)> {
        Some(m.parts())
    }
}
impl Kindly for Create {
    fn model(&self) -> Tx {
        Tx::Create(m_create(self))
    }
    fn meta(m: &Self::Metadata) -> Option<(BTreeMap<B32, u64>, u64, refs::Fee)> {
        Some(m.parts())
    }
}
impl Kindly for Mint {
    fn model(&self) -> Tx {
        Tx::Mint(m_mint(self))
    }
    fn meta(_: &Self::Metadata) -> Option<(BTreeMap<B32, u64>, u64, refs::Fee)> {
        None
    }
}
impl Kindly for Transaction {
    fn model(&self) -> Tx {
        m_tx(self)
    }
    fn meta(m: &Self::Metadata) -> Option<(BTreeMap<B32, u64>, u64, refs::Fee)> {
        match m {
            CheckedMetadata::Script(m) => Some(m.parts()),
            CheckedMetadata::Create(m) => Some(m.parts()),
            CheckedMetadata::Mint(_) => None,
        }
    }
}

fn truthful<T: Kindly>(cx: &mut Ctx, what: &str, c: &Checked<T>, e: &Expect, bits: u32)
where
    T::Metadata: Clone + std::fmt::Debug + PartialEq,
{
    cx.eq(&format!("{what}: checks"), c.checks().bits(), bits);
    cx.ck(c.transaction().model() == e.m, || format!("{what}: holds another transaction"));
    cx.ck(AsRef::<T>::as_ref(c) == c.transaction() && Borrow::<T>::borrow(c) == c.transaction(), || format!("{what}: as_ref differs"));
    cx.eq(&format!("{what}: id"), *c.transaction().id(), e.m.id());
    if let (Some((b, h, f)), Some((wb, wf))) = (T::meta(c.metadata()), &e.bal) {
        cx.eq(&format!("{what}: height"), h, e.h);
        cx.eq(&format!("{what}: balances"), b, wb.clone());
        cx.eq(&format!("{what}: fee"), f, *wf);
    }
}

fn checked_forms<T: Kindly>(cx: &mut Ctx, r: &mut Rng, t: T, e: &Expect, p: &ConsensusParameters) -> Option<Checked<T>>
where
    T::Metadata: Clone + std::fmt::Debug + PartialEq,
{
    // the full check
    match t.clone().into_checked(e.h, p) {
        Ok(c) => {
            cx.ck(e.basic_ok() && e.unauth.is_empty(), || format!("into_checked accepted; rules {}, money {:?}, unauthorised {:?}", short(&e.viol), e.money, e.unauth));
            truthful(cx, "into_checked", &c, e, ALL);
            match c.check_signatures() {
                Ok(c) => truthful(cx, "checked again", &c, e, ALL),
                Err(x) => cx.fail(format!("a fully checked transaction failed the signature check: {x:?}")),
            }
            cx.hit("fully_checked");
        }
        Err(x) => {
            let ok = if e.basic_ok() { e.sig_err(&x) } else { e.basic_err(&x) };
            cx.ck(ok, || format!("into_checked reported {x:?}; rules {}, money {:?}, unauthorised {:?}", short(&e.viol), e.money, e.unauth));
            cx.hit("refused");
        }
    }
    // the basic check, then the signatures
    match t.into_checked_basic(e.h, p) {
        Ok(c) => {
            cx.ck(e.basic_ok(), || format!("into_checked_basic accepted; rules {}, money {:?}", short(&e.viol), e.money));
            truthful(cx, "into_checked_basic", &c, e, BASIC);
            let (tx, meta): (T, T::Metadata) = c.clone().into();
            cx.ck(tx == *c.transaction() && meta == *c.metadata(), || "taking a checked transaction apart changed it".into());
            let keep = c.clone();
            match c.clone().check_signatures() {
                Ok(s) => {
                    cx.ck(e.unauth.is_empty(), || format!("signature claim although {:?} are unauthorised", e.unauth));
                    truthful(cx, "check_signatures", &s, e, ALL);
                    cx.ck(s.metadata() == c.metadata(), || "check_signatures changed the metadata".into());
                    if r.chance(1, 2) {
                        return Some(s);
                    }
                }
                Err(x) => {
                    cx.ck(e.sig_err(&x), || format!("check_signatures reported {x:?}; unauthorised {:?}", e.unauth));
                    cx.hit("basic_only");
                }
            }
            Some(keep)
        }
        Err(x) => {
            cx.ck(e.basic_err(&x), || format!("into_checked_basic reported {x:?}; rules {}, money {:?}", short(&e.viol), e.money));
            None
        }
    }
}

fn same<T: Kindly>(cx: &mut Ctx, what: &str, c: &Checked<T>, e: &Expect, bits: u32, meta: &T::Metadata)
where
    T::Metadata: Clone + std::fmt::Debug + PartialEq,
{
    truthful(cx, what, c, e, bits);
    cx.ck(c.metadata() == meta, || format!("{what}: metadata changed"));
    cx.hit("conversions");
}

/// The default checked value, if there is one, is audited like any other.
fn default_checked<T: Kindly + Default>(cx: &mut Ctx)
where
    T::Metadata: Clone + std::fmt::Debug + PartialEq,
{
    let p = ConsensusParameters::default();
    let m = T::default().model();
    let viol = refs::violations(&m, 0, &p);
    let (bal, money) = match m {
        Tx::Mint(_) => (None, vec![]),
        _ => match refs::balances(&m, &p) {
            Ok(b) => (Some(b), vec![]),
            Err(e) => (None, e),
        },
    };
    let e = Expect { viol, bal, money, unauth: refs::unauthorised(&m, &m.id()), m, h: 0 };
    if !e.basic_ok() || !e.unauth.is_empty() {
        return; // the default value is not acceptable, so neither is its checked form
    }
    let c = Checked::<T>::default();
    truthful(cx, "default checked", &c, &e, ALL);
    cx.hit("default_checked");
}

fn c13(cx: &mut Ctx, r: &mut Rng) {
    let kind = [0, 0, 0, 1, 1, 2][r.idx(6)];
    let v = gen::valid(r, &gen::Opts { kind: Some(kind), signed: true, max_inputs: 4 });
    let (mut m, mut h, mut p) = (v.tx.clone(), v.height, v.params);
    let crowd = kind < 2 && r.chance(1, 150);
    if crowd {
        gen::money_crowd(r, &mut m);
        (p.max_inputs, p.max_outputs) = (1 << 20, 1 << 20);
        cx.hit("hundreds of coins");
    }
    match r.below(8) {
        0 if kind == 2 => {
            let _ = mutate::change(r, &mut m);
        }
        0 => {
            let f = fault(r, &mut m);
            cx.hit(format!("fault: {f}"));
        }
        1 => {
            tighten(r, &m, &mut h, &mut p);
        }
        2 if kind < 2 => money(r, cx, &mut m, &mut p),
        3 if kind < 2 => {
            let _ = mutate::change_class(r, &mut m, true);
        }
        4 if kind < 2 => {
            if let Some(w) = m.wits_mut() {
                if !w.is_empty() {
                    let k = r.idx(w.len());
                    if !w[k].is_empty() {
                        let b = r.idx(w[k].len());
                        w[k][b] ^= 1 << r.below(8);
                    }
                }
            }
            cx.hit("tampered witness");
        }
        _ => {}
    }
    if crowd || r.chance(1, 3) {
        gen::sign_all(&mut m, &v.keys);
    }
    if r.chance(1, 200) {
        default_checked::<Script>(cx);
        default_checked::<Create>(cx);
        default_checked::<Mint>(cx);
        default_checked::<Transaction>(cx);
    }
    let id = m.id();
    let viol = refs::violations(&m, h, &p);
    let (bal, money) = if kind == 2 {
        (None, vec![])
    } else {
        match refs::balances(&m, &p) {
            Ok(b) => (Some(b), vec![]),
            Err(e) => (None, e),
        }
    };
    let e = Expect { unauth: refs::unauthorised(&m, &id), h, viol, bal, money, m: m.clone() };
    // where the cached data come from
    let stale = r.below(3);
    let base = if stale == 2 {
        cx.hit("stale_cache");
        // another transaction of the kind, or a near relative
        if r.chance(1, 2) {
            gen::arb_tx_kind(r, kind)
        } else {
            let mut x = m.clone();
            let _ = mutate::change(r, &mut x);
            x
        }
    } else {
        m.clone()
    };
    let mut t = r_tx(&base);
    if stale > 0 {
        t.precompute();
    }
    match (&mut t, &m) {
        (Transaction::Script(t), Tx::Script(m)) => become_script(t, m),
        (Transaction::Create(t), Tx::Create(m)) => become_create(t, m),
        (Transaction::Mint(t), Tx::Mint(m)) => become_mint(t, m),
        _ => {}
    }
    let mut sh = gen::shape(&m).to_le_bytes().to_vec();
    sh.push(stale as u8);
    sh.push(e.viol.len() as u8);
    sh.push(e.money.len() as u8);
    sh.push(e.unauth.len() as u8);
    cx.shape(crate::rng::fnv(&sh));
    let before = hash_of(&t);
    let concrete: Option<CheckedTransaction> = match t.clone() {
        Transaction::Script(s) => checked_forms(cx, r, s, &e, &p).map(Into::into),
        Transaction::Create(s) => checked_forms(cx, r, s, &e, &p).map(Into::into),
        Transaction::Mint(s) => checked_forms(cx, r, s, &e, &p).map(Into::into),
    };
    cx.ck(hash_of(&t) == before, || "checking a clone changed the original".into());
    if let Some(g) = checked_forms(cx, r, t, &e, &p) {
        let bits = g.checks().bits();
        let meta = g.metadata().clone();
        let en: CheckedTransaction = g.clone().into();
        match (&en, &meta) {
            (CheckedTransaction::Script(c), CheckedMetadata::Script(k)) => same(cx, "enum form", c, &e, bits, k),
            (CheckedTransaction::Create(c), CheckedMetadata::Create(k)) => same(cx, "enum form", c, &e, bits, k),
            (CheckedTransaction::Mint(c), CheckedMetadata::Mint(k)) => same(cx, "enum form", c, &e, bits, k),
            _ => cx.fail("enum form of another kind"),
        }
        let back: Checked<Transaction> = en.clone().into();
        same(cx, "generic form again", &back, &e, bits, &meta);
        cx.ck(back == g, || "converting to the enum form and back changed the value".into());
        // a claim never grows by conversion: a basic value still has its signatures to check
        if bits == BASIC {
            match back.check_signatures() {
                Ok(c) => {
                    cx.ck(e.unauth.is_empty(), || "converted value passed the signature check".into());
                    truthful(cx, "checked after conversion", &c, &e, ALL);
                }
                Err(x) => {
                    cx.ck(e.sig_err(&x), || format!("converted value: {x:?}"));
                }
            }
        }
        if let Some(c) = concrete {
            let b2: Checked<Transaction> = c.clone().into();
            let bits2 = match &c {
                CheckedTransaction::Script(c) => c.checks().bits(),
                CheckedTransaction::Create(c) => c.checks().bits(),
                CheckedTransaction::Mint(c) => c.checks().bits(),
            };
            same(cx, "generic form of the concrete one", &b2, &e, bits2, &meta);
        }
    }
    cx.sample(|| format!("{} stale={stale} rules={} money={:?} unauthorised={:?}", gen::describe(&m), short(&e.viol), e.money, e.unauth));
    let _ = keys::pool;
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            quick: 800_000,
            thorough: 24_000_000,
            run: c09,
            req: &[("valid", 3_000), ("invalid", 3_000), ("many_elements", 2_000), ("one long string at its own limit", 200)],
            rule: "acceptance equals an empty list of broken rules from the reference rule set; a reported error is in that list; Input/Output element checks agree with the rules of that element",
            assume: &["the reference rule set transcribes the protocol rules named in the property"],
        },
        Prop {
            id: "C10",
            quick: 600_000,
            thorough: 36_000_000,
            run: c10,
            req: &[("valid", 3_000), ("invalid", 3_000), ("hundreds of outputs", 300)],
            rule: "acceptance of a mint equals an empty list of broken rules from the reference; a reported error is in that list",
            assume: &["the reference rule set transcribes the protocol rules named in the property"],
        },
        Prop {
            id: "C11",
            quick: 1_500_000,
            thorough: 90_000_000,
            run: c11,
            req: &[("fees", 10_000), ("overflows", 10_000), ("refunds", 10_000), ("refund_overflows", 5_000), ("from_tx", 1_000)],
            rule: "fees and refunds equal the 128-bit reference arithmetic, overflow exactly where the reference overflows, under overflow checks",
            assume: &[],
        },
        Prop {
            id: "C12",
            quick: 300_000,
            thorough: 18_000_000,
            run: c12,
            req: &[("accepted", 3_000), ("balanced", 3_000), ("unbalanced", 3_000), ("money fault InsufficientFeeAmount", 100), ("money fault InsufficientInputAmount", 100), ("money fault ArithmeticOverflow", 100), ("hundreds of coins", 200)],
            rule: "balances and fee of every accepted transaction equal the 128-bit reference; rejections occur exactly when the reference finds a shortfall or overflow, with an error the reference lists",
            assume: &[],
        },
        Prop {
            id: "C13",
            quick: 60_000,
            thorough: 3_600_000,
            run: c13,
            req: &[("fully_checked", 500), ("basic_only", 100), ("refused", 500), ("stale_cache", 500), ("conversions", 1_000), ("hundreds of coins", 50)],
            rule: "every checked value obtained is audited: reference verdict on the content it holds, its own id, height, balances, fee and claim bits, before and after every conversion",
            assume: &["libsecp256k1 recovers public keys correctly"],
        },
    ]
}
