//! C27 equality, hashing and ordering; C28 construction and editing; C29 value types and their conversions.

use crate::conv::*;
use crate::ex::hash_of;
use crate::gen;
use crate::keys;
use crate::m_codec::Wire;
use crate::model::*;
use crate::rng::{fnv, Rng};
use crate::stats::{short, Ctx};
use crate::{mutate, Prop};
use fuel_tx::field::{Script as _, TxPointer as _, *};
use fuel_tx::{Cacheable, Executable, Input, Output, Receipt, StorageSlot, Transaction, TxPointer, UtxoId, Witness};
use fuel_types::bytes::SerializableVec;
use serde_json::Value;
use std::fmt::Debug;
use std::hash::Hash;

// ---------------------------------------------------------------- C27

fn leaves<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| leaves(x, out)),
        Value::Object(o) => o.values_mut().for_each(|x| leaves(x, out)),
        _ => out.push(v),
    }
}
fn arrays<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Vec<Value>>) {
    match v {
        Value::Array(a) => {
            if a.iter().all(|x| x.is_number()) {
                out.push(a)
            } else {
                a.iter_mut().for_each(|x| arrays(x, out))
            }
        }
        Value::Object(o) => o.values_mut().for_each(|x| arrays(x, out)),
        _ => {}
    }
}

/// Another value of the same type that differs from `m` in one place: a bit, a length, or two equally shaped fields
/// exchanged. Works on the model through its serde tree.
fn vary<M: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(r: &mut Rng, m: &M) -> Option<M> {
    for _ in 0..30 {
        let mut t = serde_json::to_value(m).ok()?;
        match r.below(5) {
            0 => {
                let mut a = Vec::new();
                arrays(&mut t, &mut a);
                if a.is_empty() {
                    continue;
                }
                let i = r.idx(a.len());
                match r.below(3) {
                    0 => {
                        a[i].pop();
                    }
                    1 => a[i].push(0.into()),
                    _ => a[i].insert(0, 0.into()),
                }
            }
            1 => {
                // exchange two fields
                let mut a = Vec::new();
                arrays(&mut t, &mut a);
                if a.len() < 2 {
                    continue;
                }
                let (i, j) = (r.idx(a.len()), r.idx(a.len()));
                if i == j {
                    continue;
                }
                let x = std::mem::take(a[i]);
                let y = std::mem::replace(a[j], x);
                *a[i] = y;
            }
            2 => {
                // numbers outside byte strings
                let Value::Object(o) = &mut t else { continue };
                let Some(Value::Object(o)) = o.values_mut().next() else { continue };
                let mut n: Vec<&mut Value> = o.values_mut().filter(|x| x.is_number()).collect();
                if n.len() < 2 {
                    continue;
                }
                let (i, j) = (r.idx(n.len()), r.idx(n.len()));
                let x = n[i].clone();
                let y = n[j].clone();
                *n[i] = y;
                *n[j] = x;
            }
            3 => {
                // a whole number, any of its bits
                let Value::Object(o) = &mut t else { continue };
                let mut n = Vec::new();
                for x in o.values_mut() {
                    if x.is_number() {
                        n.push(x)
                    } else if let Value::Object(p) = x {
                        n.extend(p.values_mut().filter(|y| y.is_number()))
                    }
                }
                if n.is_empty() {
                    continue;
                }
                let i = r.idx(n.len());
                let x = n[i].as_u64()?;
                *n[i] = (x ^ (1 << r.below(64))).into();
            }
            _ => {
                let mut l = Vec::new();
                leaves(&mut t, &mut l);
                if l.is_empty() {
                    continue;
                }
                let i = r.idx(l.len());
                let Some(x) = l[i].as_u64() else { continue };
                *l[i] = (x ^ (1 << r.below(8))).into();
            }
        }
        if let Ok(x) = serde_json::from_value::<M>(t) {
            if x != *m {
                return Some(x);
            }
        }
    }
    None
}

fn relation<T: PartialEq + Hash + Clone + Debug>(cx: &mut Ctx, what: &str, a: &T, b: &T, same: bool) {
    cx.ck((a == b) == same && (b == a) == same && (a != b) != same, || format!("{what}: {} and {} compare as {}, although their contents are {}", short(a), short(b), if a == b { "equal" } else { "different" }, if same { "equal" } else { "different" }));
    if same {
        cx.ck(hash_of(a) == hash_of(b), || format!("{what}: equal values hash differently: {}", short(a)));
        cx.hit("equal_pairs");
    } else {
        cx.hit("different_pairs");
    }
    cx.ck(a.clone() == *a && hash_of(&a.clone()) == hash_of(a), || format!("{what}: a clone of {} differs from it", short(a)));
    let mut c = b.clone();
    c.clone_from(a);
    cx.ck(c == *a && hash_of(&c) == hash_of(a), || format!("{what}: {} cloned over {} is {}", short(a), short(b), short(&c)));
}

/// what equality looks at
fn content(m: &Rc) -> Rc {
    let mut m = m.clone();
    if let Rc::Panic { cid, .. } = &mut m {
        *cid = None
    }
    m
}

/// only instruction words that fuel-asm keeps (see KNOWN_FINDINGS), results by their canonical names
fn tame(m: &mut Rc) {
    if let Rc::Panic { reason, instr, .. } = m {
        *instr = if *reason == 0 { 0 } else { gen::normal_instr(*instr) }
    }
}

fn pair<T>(cx: &mut Ctx, r: &mut Rng, look: fn(&T::M) -> T::M, tame: fn(&mut T::M))
where
    T: Wire + PartialEq + Hash + Clone + Debug,
    T::M: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Clone,
{
    let m = T::arb(r);
    let a = T::real(&m);
    relation(cx, T::NAME, &a, &T::real(&m), true);
    if let Some(mut n) = vary(r, &m) {
        tame(&mut n);
        let b = T::real(&n);
        // what the value holds decides, not what it was asked to hold
        let same = look(&a.model()) == look(&b.model());
        cx.ck(same == (look(&m) == look(&n)), || format!("{}: construction lost a difference", T::NAME));
        relation(cx, T::NAME, &a, &b, same);
        cx.hit(format!("varied {}", T::variant(&m)));
    }
    let n = T::arb(r);
    relation(cx, T::NAME, &a, &T::real(&n), look(&m) == look(&n));
    cx.shape(hash_of(&format!("{:?}", a)));
}
fn all<M: Clone>(m: &M) -> M {
    m.clone()
}

fn c27(cx: &mut Ctx, r: &mut Rng) {
    match r.below(8) {
        0 => pair::<Input>(cx, r, all, |_| ()),
        1 => pair::<Output>(cx, r, all, |_| ()),
        2 => pair::<Receipt>(cx, r, content, tame),
        3 => {
            pair::<UtxoId>(cx, r, all, |_| ());
            pair::<TxPointer>(cx, r, all, |_| ());
            pair::<StorageSlot>(cx, r, all, |_| ());
            pair::<Witness>(cx, r, all, |_| ());
            orders(cx, r);
        }
        4 => {
            // the panicking contract is no part of a receipt's content
            let mut m = gen::arb_receipt_kind(r, 3);
            let a = r_receipt(&m);
            if let Rc::Panic { cid, .. } = &mut m {
                *cid = Some(r.b32())
            }
            relation(cx, "panic receipts of different contracts", &a, &r_receipt(&m), true);
            // parameters, fees, errors
            let f = crate::m_text::arb_fields(r);
            let p = params_of(&f);
            relation(cx, "parameters", &p, &params_of(&f), true);
            let mut g = f;
            let k = r.idx(13);
            g[k] ^= 1 << r.below(64);
            let q = params_of(&g);
            relation(cx, "parameters", &p, &q, params_fields(&p) == params_fields(&q));
            cx.ck(params_fields(&q) == g, || "parameters: construction lost a difference".into());
        }
        _ => {
            let m = gen::arb_tx(r);
            let mut n = m.clone();
            let ch = mutate::change(r, &mut n);
            let same = m == n;
            if same {
                return; // equal elements exchanged
            }
            transactions(cx, &m, &n, &ch.label);
            cx.hit(format!("changed {}", if ch.binding { "committed" } else { "malleable" }));
            cx.shape(fnv(ch.label.as_bytes()) ^ gen::shape(&m));
            cx.sample(|| format!("{} / {}", gen::describe(&m), ch.label));
        }
    }
}

fn transactions(cx: &mut Ctx, m: &Tx, n: &Tx, label: &str) {
    fn forms<T: Cacheable + Clone + PartialEq + Hash + Debug>(cx: &mut Ctx, what: &str, a: T, b: T) {
        let (mut ca, mut cb) = (a.clone(), b.clone());
        ca.precompute();
        cb.precompute();
        relation(cx, what, &a, &b, false);
        relation(cx, what, &ca, &b, false);
        relation(cx, what, &ca, &cb, false);
        relation(cx, what, &a, &ca, true);
        relation(cx, what, &ca, &ca.clone(), true);
        relation(cx, what, &cb, &b, true);
    }
    let what = format!("{} with {label}", m.kind());
    match (m, n) {
        (Tx::Script(a), Tx::Script(b)) => forms(cx, &what, r_script(a), r_script(b)),
        (Tx::Create(a), Tx::Create(b)) => forms(cx, &what, r_create(a), r_create(b)),
        (Tx::Mint(a), Tx::Mint(b)) => forms(cx, &what, r_mint(a), r_mint(b)),
        _ => {}
    }
    forms(cx, &what, r_tx(m), r_tx(n));
}

fn orders(cx: &mut Ctx, r: &mut Rng) {
    let (a, mut b) = (gen::utxo(r), gen::utxo(r));
    if r.chance(2, 3) {
        b.tx = a.tx;
        if r.chance(1, 2) {
            b.tx[r.idx(32)] ^= 1 << r.below(8)
        }
    }
    let want = (a.tx, a.idx).cmp(&(b.tx, b.idx));
    let (x, y) = (r_utxo(&a), r_utxo(&b));
    cx.eq("order of UTXO ids", (x.cmp(&y), x.partial_cmp(&y), y.cmp(&x)), (want, Some(want), want.reverse()));
    let (a, mut b) = (gen::txp(r), gen::txp(r));
    if r.chance(1, 2) {
        b.height = a.height
    }
    let want = (a.height, a.index).cmp(&(b.height, b.index));
    let (x, y) = (r_txp(&a), r_txp(&b));
    cx.eq("order of transaction pointers", (x.cmp(&y), x.partial_cmp(&y), y.cmp(&x)), (want, Some(want), want.reverse()));
    let (a, mut b) = (gen::slot(r), gen::slot(r));
    if r.chance(1, 2) {
        b.key = a.key;
        if r.chance(2, 3) {
            b.key[r.idx(32)] ^= 1 << r.below(8)
        }
    }
    let want = a.key.cmp(&b.key);
    let (x, y) = (r_slot(&a), r_slot(&b));
    cx.eq("order of storage slots", (x.cmp(&y), x.partial_cmp(&y), y.cmp(&x)), (want, Some(want), want.reverse()));
    cx.hit("orders");
}

// ---------------------------------------------------------------- C28

/// the whole transaction, through its accessors and through its encoding
fn holds<T: SerializableVec + Clone + Cacheable>(cx: &mut Ctx, what: &str, t: &T, got: Tx, m: &Tx) {
    if !cx.ck(got == *m, || format!("{what}: the transaction reads {}, expected {}", short(&got), short(m))) {
        return;
    }
    // cached sizes are renewed after an edit
    let mut c = t.clone();
    c.precompute();
    let b = c.to_bytes();
    let want = m.encode();
    cx.ck(b == want, || {
        let at = b.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(b.len().min(want.len()));
        format!("{what}: the encoding differs at byte {at} of {} / {}", b.len(), want.len())
    });
    cx.hit("edits");
}

macro_rules! common_edits {
    ($t:expr, $m:expr, $r:expr, $k:expr) => {{
        let (t, m, r) = (&mut *$t, &mut *$m, &mut *$r);
        match $k {
            0 => {
                m.gas_price = r.word();
                *t.gas_price_mut() = m.gas_price;
                "gas_price"
            }
            1 => {
                m.gas_limit = r.word();
                *t.gas_limit_mut() = m.gas_limit;
                "gas_limit"
            }
            2 => {
                m.maturity = r.word();
                *t.maturity_mut() = m.maturity;
                "maturity"
            }
            3 => {
                let x = gen::arb_in(r);
                t.inputs_mut().push(r_in(&x));
                m.ins.push(x);
                "input added"
            }
            4 if !m.ins.is_empty() => {
                let i = r.idx(m.ins.len());
                let x = gen::arb_in(r);
                t.inputs_mut()[i] = r_in(&x);
                m.ins[i] = x;
                "input replaced"
            }
            5 if !m.ins.is_empty() => {
                let i = r.idx(m.ins.len());
                t.inputs_mut().remove(i);
                m.ins.remove(i);
                "input removed"
            }
            6 => {
                let x = gen::arb_out(r);
                t.outputs_mut().push(r_out(&x));
                m.outs.push(x);
                "output added"
            }
            7 if !m.outs.is_empty() => {
                let i = r.idx(m.outs.len());
                let x = gen::arb_out(r);
                t.outputs_mut()[i] = r_out(&x);
                m.outs[i] = x;
                "output replaced"
            }
            8 => {
                let x = gen::bytes(r);
                t.witnesses_mut().push(x.clone().into());
                m.wits.push(x);
                "witness added"
            }
            9 if !m.wits.is_empty() => {
                let i = r.idx(m.wits.len());
                let x = gen::bytes(r);
                *t.witnesses_mut()[i].as_vec_mut() = x.clone();
                m.wits[i] = x;
                "witness replaced"
            }
            10 if m.wits.len() < 256 => {
                let key = r.pick(keys::pool()).clone();
                let x = In::CoinSigned { utxo: gen::utxo(r), owner: key.owner, amount: r.word(), asset: r.b32(), txp: gen::txp(r), wit: m.wits.len() as u8, maturity: r.word() };
                if let In::CoinSigned { utxo, amount, asset, txp, maturity, .. } = &x {
                    t.add_unsigned_coin_input(r_utxo(utxo), &crate::m_id::secret(&key).public_key(), *amount, (*asset).into(), r_txp(txp), *maturity);
                }
                m.ins.push(x);
                m.wits.push(vec![]);
                "unsigned coin input added"
            }
            11 if m.wits.len() < 256 => {
                let (sender, rcpt, nonce, amount, data) = (r.b32(), r.b32(), r.word(), r.word(), gen::bytes(r));
                t.add_unsigned_message_input(sender.into(), rcpt.into(), nonce, amount, data.clone());
                m.ins.push(In::MsgSigned { mid: message_id_in(&sender, &rcpt, nonce, amount, &data), sender, rcpt, amount, nonce, wit: m.wits.len() as u8, data });
                m.wits.push(vec![]);
                "unsigned message input added"
            }
            12 => {
                t.precompute();
                "metadata computed"
            }
            13 => {
                let x: Vec<In> = (0..r.idx(4)).map(|_| gen::arb_in(r)).collect();
                *t.inputs_mut() = r_ins(&x);
                m.ins = x;
                "inputs replaced"
            }
            14 => {
                let x: Vec<Out> = (0..r.idx(4)).map(|_| gen::arb_out(r)).collect();
                *t.outputs_mut() = r_outs(&x);
                m.outs = x;
                "outputs replaced"
            }
            15 => {
                let x: Vec<Vec<u8>> = (0..r.idx(4)).map(|_| gen::bytes(r)).collect();
                *t.witnesses_mut() = r_wits(&x);
                m.wits = x;
                "witnesses replaced"
            }
            _ => "",
        }
    }};
}

fn c28(cx: &mut Ctx, r: &mut Rng) {
    let kind = [0, 0, 0, 1, 1, 1, 2][r.idx(7)];
    let mut m = gen::arb_tx_kind(r, kind);
    crate::m_misc::trim(&mut m, 12, 200);
    if r.chance(1, 200) {
        gen::crowd(r, &mut m);
        cx.hit("many_elements");
    }
    cx.shape(gen::shape(&m));
    let n = 3 + r.idx(8);
    let mut hist = Vec::new();
    match m {
        Tx::Script(mut s) => {
            // the constructor
            let mut t = Transaction::script(s.gas_price, s.gas_limit, s.maturity, s.script.clone(), s.data.clone(), r_ins(&s.ins), r_outs(&s.outs), r_wits(&s.wits));
            s.receipts_root = ZERO;
            if r.chance(1, 2) {
                holds(cx, "constructed", &t, Tx::Script(m_script(&t)), &Tx::Script(s.clone()));
            }
            let w: Transaction = t.clone().into();
            cx.ck(w.as_script() == Some(&t) && w.as_create().is_none() && w.as_mint().is_none(), || "wrapping a script changed it".into());
            for _ in 0..n {
                let k = r.below(20);
                let what = match k {
                    16 => {
                        s.receipts_root = r.b32();
                        *t.receipts_root_mut() = s.receipts_root.into();
                        "receipts_root"
                    }
                    17 => {
                        s.script = gen::bytes(r);
                        *t.script_mut() = s.script.clone();
                        "script"
                    }
                    18 => {
                        s.data = gen::bytes(r);
                        *t.script_data_mut() = s.data.clone();
                        "script_data"
                    }
                    19 => {
                        // through the wrapper
                        let mut w: Transaction = t.clone().into();
                        s.gas_limit = r.word();
                        if let Some(x) = w.as_script_mut() {
                            *x.gas_limit_mut() = s.gas_limit
                        }
                        cx.ck(w.as_create_mut().is_none() && w.as_mint_mut().is_none(), || "a script is also something else".into());
                        if let Transaction::Script(x) = w {
                            t = x
                        }
                        "gas_limit, wrapped"
                    }
                    k => common_edits!(&mut t, &mut s, r, k),
                };
                hist.push(what);
                holds(cx, &format!("script after {hist:?}"), &t, Tx::Script(m_script(&t)), &Tx::Script(s.clone()));
                cx.hit(format!("script {what}"));
            }
        }
        Tx::Create(mut s) => {
            if r.chance(1, 2) && !s.wits.is_empty() {
                s.bytecode_wit = r.idx(s.wits.len().min(256)) as u8
            }
            let mut t = Transaction::create(s.gas_price, s.gas_limit, s.maturity, s.bytecode_wit, s.salt.into(), s.slots.iter().map(r_slot).collect(), r_ins(&s.ins), r_outs(&s.outs), r_wits(&s.wits));
            s.bytecode_len = s.wits.get(s.bytecode_wit as usize).map(|w| w.len() as u64 / 4).unwrap_or(0);
            if s.bytecode_len > 0 {
                cx.hit("bytecode_words")
            }
            holds(cx, "constructed", &t, Tx::Create(m_create(&t)), &Tx::Create(s.clone()));
            let w: Transaction = t.clone().into();
            cx.ck(w.as_create() == Some(&t) && w.as_script().is_none() && w.as_mint().is_none(), || "wrapping a create changed it".into());
            for _ in 0..n {
                let k = r.below(22);
                let what = match k {
                    16 => {
                        s.bytecode_len = r.word();
                        *t.bytecode_length_mut() = s.bytecode_len;
                        "bytecode_length"
                    }
                    17 => {
                        s.bytecode_wit = gen::byte(r);
                        *t.bytecode_witness_index_mut() = s.bytecode_wit;
                        "bytecode_witness_index"
                    }
                    18 => {
                        s.salt = r.b32();
                        *t.salt_mut() = s.salt.into();
                        "salt"
                    }
                    19 => {
                        s.slots = (0..r.idx(5)).map(|_| gen::slot(r)).collect();
                        *t.storage_slots_mut() = s.slots.iter().map(r_slot).collect();
                        "storage_slots"
                    }
                    20 => {
                        let x = gen::slot(r);
                        t.storage_slots_mut().push(r_slot(&x));
                        s.slots.push(x);
                        "storage slot added"
                    }
                    21 => {
                        let mut w: Transaction = t.clone().into();
                        s.maturity = r.word();
                        if let Some(x) = w.as_create_mut() {
                            *x.maturity_mut() = s.maturity
                        }
                        cx.ck(w.as_script_mut().is_none() && w.as_mint_mut().is_none(), || "a create is also something else".into());
                        if let Transaction::Create(x) = w {
                            t = x
                        }
                        "maturity, wrapped"
                    }
                    k => common_edits!(&mut t, &mut s, r, k),
                };
                hist.push(what);
                holds(cx, &format!("create after {hist:?}"), &t, Tx::Create(m_create(&t)), &Tx::Create(s.clone()));
                cx.hit(format!("create {what}"));
            }
        }
        Tx::Mint(mut s) => {
            let mut t = Transaction::mint(r_txp(&s.txp), r_outs(&s.outs));
            holds(cx, "constructed", &t, Tx::Mint(m_mint(&t)), &Tx::Mint(s.clone()));
            let w: Transaction = t.clone().into();
            cx.ck(w.as_mint() == Some(&t) && w.as_create().is_none() && w.as_script().is_none(), || "wrapping a mint changed it".into());
            for _ in 0..n {
                let what = match r.below(6) {
                    0 => {
                        s.txp = gen::txp(r);
                        *t.tx_pointer_mut() = r_txp(&s.txp);
                        "tx_pointer"
                    }
                    1 => {
                        let x = gen::arb_out(r);
                        t.outputs_mut().push(r_out(&x));
                        s.outs.push(x);
                        "output added"
                    }
                    2 if !s.outs.is_empty() => {
                        let i = r.idx(s.outs.len());
                        t.outputs_mut().remove(i);
                        s.outs.remove(i);
                        "output removed"
                    }
                    3 => {
                        s.outs = (0..r.idx(4)).map(|_| gen::arb_out(r)).collect();
                        *t.outputs_mut() = r_outs(&s.outs);
                        "outputs replaced"
                    }
                    4 => {
                        t.precompute();
                        "metadata computed"
                    }
                    _ => {
                        let mut w: Transaction = t.clone().into();
                        s.txp = gen::txp(r);
                        if let Some(x) = w.as_mint_mut() {
                            *x.tx_pointer_mut() = r_txp(&s.txp)
                        }
                        if let Transaction::Mint(x) = w {
                            t = x
                        }
                        "tx_pointer, wrapped"
                    }
                };
                hist.push(what);
                holds(cx, &format!("mint after {hist:?}"), &t, Tx::Mint(m_mint(&t)), &Tx::Mint(s.clone()));
                cx.hit(format!("mint {what}"));
            }
        }
    }
    cx.sample(|| format!("{hist:?}"));
}

// ---------------------------------------------------------------- C29

/// A generator that gives out given bytes, and counts them.
pub struct Given {
    pub seed: u64,
    pub at: u64,
}
impl rand::RngCore for Given {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.at += 1;
        let mut z = self.seed.wrapping_add(self.at.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}

fn sampled<T>(cx: &mut Ctx, what: &str, seed: u64)
where
    T: PartialEq + Debug + SerializableVec + fuel_types::bytes::Deserializable + Clone,
    rand::distributions::Standard: rand::distributions::Distribution<T>,
{
    use rand::Rng as _;
    let (mut a, mut b) = (Given { seed, at: 0 }, Given { seed, at: 0 });
    let (x, y): (Vec<T>, Vec<T>) = ((0..3).map(|_| a.gen()).collect(), (0..3).map(|_| b.gen()).collect());
    cx.ck(x == y && a.at == b.at, || format!("{what} drawn twice from equal generators: {} and {}", short(&x), short(&y)));
    cx.ck(a.at > 0, || format!("{what} drawn without asking the generator"));
    for mut v in x {
        let back = T::from_bytes(&v.to_bytes());
        cx.ck(back.as_ref().ok() == Some(&v), || format!("drawn {what} {} does not round-trip", short(&v)));
    }
}

fn c29(cx: &mut Ctx, r: &mut Rng) {
    use fuel_tx::{InputRepr, OutputRepr, ScriptExecutionResult, TransactionRepr};
    use fuel_types::{Bytes32, Bytes64};
    // a witness and its bytes
    let mut m = match r.below(3000) {
        0 => {
            let n = [255, 65_530, 131_066][r.idx(3)] + r.idx(12);
            r.bytes(n)
        }
        1 if r.chance(1, 8) => {
            let n = (1 << 20) - 6 + r.idx(12);
            r.bytes(n)
        }
        _ => gen::bytes(r),
    };
    if m.len() > 60_000 {
        cx.hit("long witnesses")
    }
    let mut w = if r.chance(1, 2) { Witness::from(m.clone()) } else { Witness::from(&m[..]) };
    let n = 1 + r.idx(5);
    for _ in 0..n {
        let what = match r.below(7) {
            0 => {
                let n = if r.chance(1, 500) { 65_530 + r.idx(12) } else { r.idx(20) };
                let more = r.bytes(n);
                w.extend(more.clone());
                m.extend(more);
                "extended"
            }
            1 => {
                // by an iterator that does not know its length
                let k = r.below(256) as u8;
                let n = r.idx(40);
                let more = r.bytes(n);
                w.extend(more.iter().copied().filter(|b| *b != k));
                m.extend(more.iter().copied().filter(|b| *b != k));
                "extended by a filter"
            }
            2 if !m.is_empty() => {
                let k = r.idx(m.len());
                let b = r.u64() as u8;
                cx.eq("length of the mutable view", w.as_mut().len(), m.len());
                w.as_mut()[k] = b;
                m[k] = b;
                "byte written"
            }
            3 => {
                let b = r.u64() as u8;
                let k = r.idx(m.len() + 1);
                w.as_vec_mut().insert(k, b);
                m.insert(k, b);
                "byte inserted"
            }
            4 => {
                let k = r.idx(m.len() + 1);
                w.as_vec_mut().truncate(k);
                m.truncate(k);
                "cut"
            }
            5 => {
                w = Witness::from(w.clone().into_inner());
                "taken apart"
            }
            _ => {
                w = w.clone();
                "cloned"
            }
        };
        cx.ck(w.as_ref() == &m[..] && *w.as_vec() == m, || format!("a witness of {} bytes, {what}, holds {}", m.len(), short(&w)));
        cx.hit(format!("witness {what}"));
    }
    cx.ck(w == Witness::from(m.clone()) && w == Witness::from(&m[..]) && w.to_bytes() == Witness::from(m.clone()).to_bytes(), || "witnesses of equal bytes differ".into());
    cx.ck(w.into_inner() == m, || "a witness gives back other bytes".into());
    // a slot and its 64 bytes
    let mut s = gen::slot(r);
    match r.below(16) {
        0 => s.val = s.key,
        1 => s.val = r.near(&s.key),
        _ => {}
    }
    let x = r_slot(&s);
    cx.ck(**x.key() == s.key && **x.value() == s.val, || "a slot holds another key or value".into());
    let flat = Bytes64::from(&x);
    cx.ck(flat[..32] == s.key && flat[32..] == s.val, || format!("64 bytes of a slot: {}", short(&flat)));
    let y = StorageSlot::from(&flat);
    cx.ck(**y.key() == s.key && **y.value() == s.val && y == x, || "a slot made from its 64 bytes".into());
    cx.eq("encoding of a slot", x.clone().to_bytes(), flat.to_vec());
    // pointers and ids
    let u = gen::utxo(r);
    let mut x = UtxoId::new(u.tx.into(), u.idx);
    cx.ck(**x.tx_id() == u.tx && x.output_index() == u.idx, || "a utxo id holds other parts".into());
    let t = r.b32();
    x.replace_tx_id(t.into());
    cx.ck(**x.tx_id() == t && x.output_index() == u.idx, || "replacing the transaction id".into());
    let (h, k) = (r.u64() as u32 >> r.below(32), r.u64() as u16 >> r.below(16));
    let p = TxPointer::new(h, k);
    cx.ck(p.block_height() == h && p.tx_index() == k, || "a pointer holds other parts".into());
    cx.ck(x.to_bytes().len() == UtxoId::LEN && p.clone().to_bytes().len() == TxPointer::LEN && flat.len() == StorageSlot::SLOT_SIZE, || "declared lengths".into());
    // numbers
    for v in [r.word(), cx.index % 64, r.below(16), (1 << r.below(64)) | r.below(4)] {
        cx.eq("word of the result of a word", u64::from(ScriptExecutionResult::from(v)), v);
        cx.eq("result of a word", ScriptExecutionResult::from(v), word_result(v));
        cx.eq("transaction kind of a word", TransactionRepr::try_from(v).ok().map(|k| k as u64), Some(v).filter(|v| *v < 3));
        cx.eq("input kind of a word", InputRepr::try_from(v).ok().map(|k| k as u64), Some(v).filter(|v| *v < 3));
        cx.eq("output kind of a word", OutputRepr::try_from(v).ok().map(|k| k as u64), Some(v).filter(|v| *v < 6));
        cx.hit("words");
    }
    let v = r.word();
    cx.eq("word of a failure", u64::from(ScriptExecutionResult::GenericFailure(v)), v);
    // an error on its way through io::Error
    let e = crate::m_text::arb_error(r);
    let io = std::io::Error::from(e.clone());
    cx.ck(io.get_ref().and_then(|x| x.downcast_ref::<fuel_tx::CheckError>()) == Some(&e), || format!("{e:?} as an io error: {io:?}"));
    // what stands for nothing
    cx.ck(Witness::default().as_ref().is_empty() && UtxoId::default() == UtxoId::new(Bytes32::zeroed(), 0) && TxPointer::default() == TxPointer::new(0, 0), || "defaults".into());
    cx.eq("default slot", StorageSlot::default(), StorageSlot::new(Bytes32::zeroed(), Bytes32::zeroed()));
    // drawn at random
    let seed = r.u64();
    match r.below(4) {
        0 => sampled::<Witness>(cx, "witness", seed),
        1 => sampled::<StorageSlot>(cx, "slot", seed),
        2 => sampled::<UtxoId>(cx, "utxo id", seed),
        _ => sampled::<TxPointer>(cx, "pointer", seed),
    }
    cx.hit("drawn");
    cx.shape(fnv(&[&m[..], &flat[..], &t[..]].concat()));
    cx.sample(|| format!("witness of {} bytes after {n} edits, pointer {h}/{k}, {e:?}", m.len()));
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            quick: 300_000,
            thorough: 18_000_000,
            run: c27,
            req: &[("equal_pairs", 200_000), ("different_pairs", 200_000), ("orders", 5_000), ("changed committed", 10_000), ("changed malleable", 5_000)],
            rule: "each case builds two values of one type whose models are equal or differ in one place (a bit, a length, two fields exchanged, an element moved), with and without cached data, and compares ==, !=, hash and order with the models'; distinct = distinct values and changes",
            assume: &["hashes are observed through the standard library's default hasher"],
        },
        Prop {
            id: "C28",
            quick: 100_000,
            thorough: 6_000_000,
            run: c28,
            req: &[("edits", 200_000), ("bytecode_words", 2_000), ("script unsigned coin input added", 2_000), ("create unsigned message input added", 2_000), ("script witnesses replaced", 2_000), ("mint tx_pointer", 2_000)],
            rule: "each case constructs a transaction and applies 3 to 10 edits through the field accessors and the appenders to it and to a model, comparing every field and the encoding after each; distinct = distinct transaction shapes",
            assume: &["fewer than 256 witnesses when an unsigned input is added: the witness index is a byte"],
        },
        Prop {
            id: "C29",
            quick: 400_000,
            thorough: 24_000_000,
            run: c29,
            req: &[("words", 100_000), ("long witnesses", 50), ("drawn", 50_000), ("witness extended", 10_000), ("witness byte written", 10_000), ("witness cut", 10_000)],
            rule: "each case makes and edits a witness next to a byte vector, converts a slot, ids, pointers, numbers and an error there and back, and draws values from two equal random generators; every result is compared with the parts it came from",
            assume: &[],
        },
    ]
}
