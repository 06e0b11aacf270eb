//! Single-field and structural changes of a model transaction, each with the verdict the protocol
//! gives it: does the id bind this field?

use crate::gen;
use crate::model::*;
use crate::rng::Rng;

pub struct Change {
    pub label: String,
    pub binding: bool,
}

fn c(label: impl Into<String>, binding: bool) -> Option<Change> {
    Some(Change { label: label.into(), binding })
}

fn w(r: &mut Rng, x: &mut u64) {
    *x = match r.below(4) {
        0 => *x ^ (1 << r.below(64)),
        1 => x.wrapping_add(1),
        2 => x.wrapping_sub(1),
        _ => x.wrapping_add(r.u64().max(1)),
    }
}
fn b(r: &mut Rng, x: &mut u8) {
    *x ^= 1 << r.below(8)
}
fn h(r: &mut Rng, x: &mut B32) {
    x[r.idx(32)] ^= 1 << r.below(8)
}
/// always changes the value; keeps it non-empty when asked
fn v(r: &mut Rng, x: &mut Vec<u8>, keep: bool) -> &'static str {
    match r.below(4) {
        0 if x.len() > keep as usize => {
            x.pop();
            "shortened"
        }
        1 => {
            x.push(0);
            "zero appended"
        }
        2 => {
            let k = r.u64() as u8;
            x.push(k);
            "byte appended"
        }
        _ => {
            if x.is_empty() {
                x.push(1);
                "byte appended"
            } else {
                let i = match r.below(3) {
                    0 => 0,
                    1 => x.len() - 1,
                    _ => r.idx(x.len()),
                };
                x[i] ^= 1 << r.below(8);
                "bit flipped"
            }
        }
    }
}
fn utxo(r: &mut Rng, u: &mut Utxo) -> &'static str {
    if r.chance(1, 2) {
        h(r, &mut u.tx);
        "tx"
    } else {
        b(r, &mut u.idx);
        "index"
    }
}
fn txp(r: &mut Rng, t: &mut Txp) -> &'static str {
    if r.chance(1, 2) {
        t.height ^= 1 << r.below(32);
        "height"
    } else {
        t.index ^= 1 << r.below(16);
        "index"
    }
}
/// move the boundary between two adjacent byte strings
fn shift(r: &mut Rng, a: &mut Vec<u8>, z: &mut Vec<u8>, keep: bool) -> bool {
    if r.chance(1, 2) && a.len() > keep as usize {
        z.insert(0, a.pop().unwrap());
        true
    } else if !z.is_empty() {
        a.push(z.remove(0));
        true
    } else {
        false
    }
}

fn change_in(r: &mut Rng, i: &mut In) -> Option<Change> {
    let k = i.kind();
    match i {
        In::CoinSigned { utxo: u, owner, amount, asset, txp: t, wit, maturity } => match r.below(7) {
            0 => c(format!("{k}.utxo_id.{}", utxo(r, u)), true),
            1 => {
                h(r, owner);
                c(format!("{k}.owner"), true)
            }
            2 => {
                w(r, amount);
                c(format!("{k}.amount"), true)
            }
            3 => {
                h(r, asset);
                c(format!("{k}.asset_id"), true)
            }
            4 => c(format!("{k}.tx_pointer.{}", txp(r, t)), false),
            5 => {
                b(r, wit);
                c(format!("{k}.witness_index"), true)
            }
            _ => {
                w(r, maturity);
                c(format!("{k}.maturity"), true)
            }
        },
        In::CoinPred { utxo: u, owner, amount, asset, txp: t, maturity, pred, pdata } => match r.below(9) {
            0 => c(format!("{k}.utxo_id.{}", utxo(r, u)), true),
            1 => {
                h(r, owner);
                c(format!("{k}.owner"), true)
            }
            2 => {
                w(r, amount);
                c(format!("{k}.amount"), true)
            }
            3 => {
                h(r, asset);
                c(format!("{k}.asset_id"), true)
            }
            4 => c(format!("{k}.tx_pointer.{}", txp(r, t)), false),
            5 => {
                w(r, maturity);
                c(format!("{k}.maturity"), true)
            }
            6 => c(format!("{k}.predicate {}", v(r, pred, true)), true),
            7 => c(format!("{k}.predicate_data {}", v(r, pdata, false)), true),
            _ => {
                if shift(r, pred, pdata, true) {
                    c(format!("{k}.predicate/predicate_data boundary"), true)
                } else {
                    None
                }
            }
        },
        In::Contract { utxo: u, broot, sroot, txp: t, cid } => match r.below(5) {
            0 => c(format!("{k}.utxo_id.{}", utxo(r, u)), false),
            1 => {
                h(r, broot);
                c(format!("{k}.balance_root"), false)
            }
            2 => {
                h(r, sroot);
                c(format!("{k}.state_root"), false)
            }
            3 => c(format!("{k}.tx_pointer.{}", txp(r, t)), false),
            _ => {
                h(r, cid);
                c(format!("{k}.contract_id"), true)
            }
        },
        In::MsgSigned { mid, sender, rcpt, amount, nonce, wit, data } => match r.below(7) {
            0 => {
                h(r, mid);
                c(format!("{k}.message_id"), true)
            }
            1 => {
                h(r, sender);
                c(format!("{k}.sender"), true)
            }
            2 => {
                h(r, rcpt);
                c(format!("{k}.recipient"), true)
            }
            3 => {
                w(r, amount);
                c(format!("{k}.amount"), true)
            }
            4 => {
                w(r, nonce);
                c(format!("{k}.nonce"), true)
            }
            5 => {
                b(r, wit);
                c(format!("{k}.witness_index"), true)
            }
            _ => c(format!("{k}.data {}", v(r, data, false)), true),
        },
        In::MsgPred { mid, sender, rcpt, amount, nonce, data, pred, pdata } => match r.below(10) {
            0 => {
                h(r, mid);
                c(format!("{k}.message_id"), true)
            }
            1 => {
                h(r, sender);
                c(format!("{k}.sender"), true)
            }
            2 => {
                h(r, rcpt);
                c(format!("{k}.recipient"), true)
            }
            3 => {
                w(r, amount);
                c(format!("{k}.amount"), true)
            }
            4 => {
                w(r, nonce);
                c(format!("{k}.nonce"), true)
            }
            5 => c(format!("{k}.data {}", v(r, data, false)), true),
            6 => c(format!("{k}.predicate {}", v(r, pred, true)), true),
            7 => c(format!("{k}.predicate_data {}", v(r, pdata, false)), true),
            8 => {
                if shift(r, pred, pdata, true) {
                    c(format!("{k}.predicate/predicate_data boundary"), true)
                } else {
                    None
                }
            }
            _ => {
                // keep the predicate non-empty: only from predicate to data when it has 2 bytes
                if pred.len() > 1 {
                    data.push(pred.remove(0));
                    c(format!("{k}.data/predicate boundary"), true)
                } else if let Some(x) = data.pop() {
                    pred.insert(0, x);
                    c(format!("{k}.data/predicate boundary"), true)
                } else {
                    None
                }
            }
        },
    }
}

fn change_out(r: &mut Rng, o: &mut Out) -> Option<Change> {
    let k = o.kind();
    match o {
        Out::Coin { to, amount, asset } | Out::Change { to, amount, asset } | Out::Variable { to, amount, asset } => {
            let (bt, ba, bs) = match k {
                "Coin" => (true, true, true),
                "Change" => (true, false, true),
                "Variable" => (false, false, false),
                x => panic!("kind {x}"),
            };
            match r.below(3) {
                0 => {
                    h(r, to);
                    c(format!("Output{k}.to"), bt)
                }
                1 => {
                    w(r, amount);
                    c(format!("Output{k}.amount"), ba)
                }
                _ => {
                    h(r, asset);
                    c(format!("Output{k}.asset_id"), bs)
                }
            }
        }
        Out::Contract { idx, broot, sroot } => match r.below(3) {
            0 => {
                b(r, idx);
                c("OutputContract.input_index", true)
            }
            1 => {
                h(r, broot);
                c("OutputContract.balance_root", false)
            }
            _ => {
                h(r, sroot);
                c("OutputContract.state_root", false)
            }
        },
        Out::Msg { rcpt, amount } => {
            if r.chance(1, 2) {
                h(r, rcpt);
                c("OutputMessage.recipient", false)
            } else {
                w(r, amount);
                c("OutputMessage.amount", false)
            }
        }
        Out::Created { cid, sroot } => {
            if r.chance(1, 2) {
                h(r, cid);
                c("OutputContractCreated.contract_id", true)
            } else {
                h(r, sroot);
                c("OutputContractCreated.state_root", true)
            }
        }
    }
}

/// add, remove, duplicate or swap an element; `strip` gives the committed part of an element
fn change_list<T: Clone + PartialEq>(r: &mut Rng, l: &mut Vec<T>, what: &str, new: fn(&mut Rng) -> T, strip: fn(&T) -> T) -> Option<Change> {
    match r.below(5) {
        0 => {
            let p = r.idx(l.len() + 1);
            let x = new(r);
            l.insert(p, x);
            c(format!("{what} added"), true)
        }
        1 if !l.is_empty() => {
            l.remove(r.idx(l.len()));
            c(format!("{what} removed"), true)
        }
        2 if !l.is_empty() => {
            let i = r.idx(l.len());
            let x = l[i].clone();
            l.insert(i, x);
            c(format!("{what} duplicated"), true)
        }
        3 if l.len() > 1 => {
            let i = r.idx(l.len());
            let j = r.idx(l.len());
            let differ = strip(&l[i]) != strip(&l[j]);
            l.swap(i, j);
            c(format!("{what} swapped{}", if differ { "" } else { " (same committed part)" }), differ)
        }
        4 if !l.is_empty() => {
            let i = r.idx(l.len());
            let x = new(r);
            let differ = strip(&l[i]) != strip(&x);
            l[i] = x;
            c(format!("{what} replaced"), differ)
        }
        _ => None,
    }
}

fn strip_in(i: &In) -> In {
    let mut x = i.clone();
    x.strip();
    x
}
fn strip_out(o: &Out) -> Out {
    let mut x = o.clone();
    x.strip();
    x
}

/// One change of a script or create; None when the drawn change does not apply.
fn change_once(r: &mut Rng, t: &mut Tx) -> Option<Change> {
    let k = t.kind();
    if let Tx::Mint(m) = t {
        return match r.below(4) {
            0 => c(format!("mint.tx_pointer.{}", txp(r, &mut m.txp)), true),
            1 => change_list(r, &mut m.outs, "mint output", gen::arb_out, |o| o.clone()),
            _ => {
                if m.outs.is_empty() {
                    return None;
                }
                let i = r.idx(m.outs.len());
                let mut ch = change_out(r, &mut m.outs[i])?;
                ch.binding = true;
                ch.label = format!("mint {}", ch.label);
                Some(ch)
            }
        };
    }
    match r.below(8) {
        0 => {
            // scalar fields
            match t {
                Tx::Script(s) => match r.below(7) {
                    0 => {
                        w(r, &mut s.gas_price);
                        c("script.gas_price", true)
                    }
                    1 => {
                        w(r, &mut s.gas_limit);
                        c("script.gas_limit", true)
                    }
                    2 => {
                        w(r, &mut s.maturity);
                        c("script.maturity", true)
                    }
                    3 => {
                        h(r, &mut s.receipts_root);
                        c("script.receipts_root", false)
                    }
                    4 => c(format!("script.script {}", v(r, &mut s.script, false)), true),
                    5 => c(format!("script.script_data {}", v(r, &mut s.data, false)), true),
                    _ => {
                        let MScript { script, data, .. } = s;
                        if shift(r, script, data, false) {
                            c("script/script_data boundary", true)
                        } else {
                            None
                        }
                    }
                },
                Tx::Create(s) => match r.below(7) {
                    0 => {
                        w(r, &mut s.gas_price);
                        c("create.gas_price", true)
                    }
                    1 => {
                        w(r, &mut s.gas_limit);
                        c("create.gas_limit", true)
                    }
                    2 => {
                        w(r, &mut s.maturity);
                        c("create.maturity", true)
                    }
                    3 => {
                        w(r, &mut s.bytecode_len);
                        c("create.bytecode_length", true)
                    }
                    4 => {
                        b(r, &mut s.bytecode_wit);
                        c("create.bytecode_witness_index", true)
                    }
                    5 => {
                        h(r, &mut s.salt);
                        c("create.salt", true)
                    }
                    _ => {
                        if s.slots.is_empty() {
                            return None;
                        }
                        let i = r.idx(s.slots.len());
                        if r.chance(1, 2) {
                            h(r, &mut s.slots[i].key);
                            c("create.slot.key", true)
                        } else {
                            h(r, &mut s.slots[i].val);
                            c("create.slot.value", true)
                        }
                    }
                },
                Tx::Mint(_) => None,
            }
        }
        1 | 2 => {
            let l = t.ins_mut()?;
            if l.is_empty() {
                return None;
            }
            let i = r.idx(l.len());
            change_in(r, &mut l[i])
        }
        3 => {
            let l = t.outs_mut();
            if l.is_empty() {
                return None;
            }
            let i = r.idx(l.len());
            change_out(r, &mut l[i])
        }
        4 => change_list(r, t.ins_mut()?, &format!("{k} input"), gen::arb_in, strip_in),
        5 => change_list(r, t.outs_mut(), &format!("{k} output"), gen::arb_out, strip_out),
        6 => {
            let l = t.wits_mut()?;
            let mut ch = if r.chance(1, 2) && !l.is_empty() {
                let i = r.idx(l.len());
                c(format!("{k} witness {}", v(r, &mut l[i], false)), false)
            } else {
                change_list(r, l, &format!("{k} witness"), gen::bytes, |x| x.clone())
            }?;
            ch.binding = false;
            Some(ch)
        }
        _ => match t {
            Tx::Create(s) => change_list(r, &mut s.slots, "create slot", gen::slot, |x| x.clone()),
            _ => None,
        },
    }
}

/// One change that applies.
pub fn change(r: &mut Rng, t: &mut Tx) -> Change {
    loop {
        if let Some(x) = change_once(r, t) {
            return x;
        }
    }
}
/// One change of the wanted class; false when none was found.
pub fn change_class(r: &mut Rng, t: &mut Tx, binding: bool) -> Option<Change> {
    for _ in 0..60 {
        let mut x = t.clone();
        if let Some(ch) = change_once(r, &mut x) {
            if ch.binding == binding {
                *t = x;
                return Some(ch);
            }
        }
    }
    None
}
