//! Workload generation on the model. Everything is a function of the Rng.

use crate::keys::{self, Key};
use crate::model::*;
use crate::refs;
use crate::rng::Rng;
use fuel_tx::ConsensusParameters;

// ---------------------------------------------------------------- arbitrary values

/// byte-string length, biased to word boundaries
pub fn blen(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=3 => 0,
        4..=9 => r.idx(25),
        10..=13 => {
            let b = 8 * r.idx(8);
            (b + r.idx(3)).saturating_sub(1)
        }
        14..=17 => r.idx(120),
        18 => r.idx(600),
        _ => {
            if r.chance(1, 100) {
                match r.below(800) {
                    // the default limits on predicates and on contracts
                    0 => (1 << 24) - 9 + r.idx(40),
                    1..=9 => (1 << 20) - 9 + r.idx(40),
                    10..=13 => (1 << 17) + r.idx(1 << 21),
                    _ => 65_528 + r.idx(40),
                }
            } else if r.chance(1, 12) {
                4090 + r.idx(12)
            } else {
                r.idx(300)
            }
        }
    }
}
pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = blen(r);
    let mut v = r.bytes(n);
    if r.chance(1, 8) {
        v.iter_mut().for_each(|b| *b = 0)
    }
    v
}
pub fn nonempty(r: &mut Rng) -> Vec<u8> {
    let mut v = bytes(r);
    if v.is_empty() {
        let n = 1 + r.idx(9);
        v = r.bytes(n)
    }
    v
}
pub fn byte(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => r.below(3) as u8,
        1 => 255 - r.below(2) as u8,
        _ => r.u64() as u8,
    }
}
pub fn utxo(r: &mut Rng) -> Utxo {
    Utxo { tx: r.b32(), idx: byte(r) }
}
pub fn txp(r: &mut Rng) -> Txp {
    let height = match r.below(4) {
        0 => r.below(3) as u32,
        1 => u32::MAX - r.below(3) as u32,
        _ => r.u64() as u32,
    };
    let index = match r.below(4) {
        0 => r.below(3) as u16,
        1 => u16::MAX - r.below(3) as u16,
        _ => r.u64() as u16,
    };
    Txp { height, index }
}
pub fn arb_in_kind(r: &mut Rng, k: u64) -> In {
    match k {
        0 => In::CoinSigned { utxo: utxo(r), owner: r.b32(), amount: r.word(), asset: r.b32(), txp: txp(r), wit: byte(r), maturity: r.word() },
        1 => In::CoinPred { utxo: utxo(r), owner: r.b32(), amount: r.word(), asset: r.b32(), txp: txp(r), maturity: r.word(), pred: nonempty(r), pdata: bytes(r) },
        2 => In::Contract { utxo: utxo(r), broot: r.b32(), sroot: r.b32(), txp: txp(r), cid: r.b32() },
        3 => In::MsgSigned { mid: r.b32(), sender: r.b32(), rcpt: r.b32(), amount: r.word(), nonce: r.word(), wit: byte(r), data: bytes(r) },
        _ => In::MsgPred { mid: r.b32(), sender: r.b32(), rcpt: r.b32(), amount: r.word(), nonce: r.word(), data: bytes(r), pred: nonempty(r), pdata: bytes(r) },
    }
}
pub fn arb_in(r: &mut Rng) -> In {
    let k = r.below(5);
    arb_in_kind(r, k)
}
pub fn arb_out_kind(r: &mut Rng, k: u64) -> Out {
    match k {
        0 => Out::Coin { to: r.b32(), amount: r.word(), asset: r.b32() },
        1 => Out::Contract { idx: byte(r), broot: r.b32(), sroot: r.b32() },
        2 => Out::Msg { rcpt: r.b32(), amount: r.word() },
        3 => Out::Change { to: r.b32(), amount: r.word(), asset: r.b32() },
        4 => Out::Variable { to: r.b32(), amount: r.word(), asset: r.b32() },
        _ => Out::Created { cid: r.b32(), sroot: r.b32() },
    }
}
pub fn arb_out(r: &mut Rng) -> Out {
    let k = r.below(6);
    arb_out_kind(r, k)
}
pub fn slot(r: &mut Rng) -> Slot {
    Slot { key: r.b32(), val: r.b32() }
}

/// list length
pub fn count(r: &mut Rng) -> usize {
    match r.below(64) {
        0..=11 => 0,
        12..=47 => 1 + r.idx(4),
        48..=60 => r.idx(9),
        61..=62 => r.idx(24),
        _ => {
            if r.chance(1, 10) {
                250 + r.idx(20)
            } else {
                r.idx(40)
            }
        }
    }
}
pub fn list<T>(r: &mut Rng, f: fn(&mut Rng) -> T) -> Vec<T> {
    let n = count(r);
    (0..n).map(|_| f(r)).collect()
}
pub fn big_bytes(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 200) {
        let n = 65_530 + r.idx(20);
        r.bytes(n)
    } else {
        bytes(r)
    }
}

/// as long as the default limits allow, or nearly
fn giant_len(r: &mut Rng) -> usize {
    match r.below(8) {
        0 | 1 => 1 << 20,
        2..=4 => (1 << 20) - r.idx(20),
        _ => (1 << 17) + r.idx(900_000),
    }
}
/// Make one byte string of the transaction huge.
pub fn giant(r: &mut Rng, t: &mut Tx) {
    let n = giant_len(r) + if r.chance(1, 2) { r.idx(2000) } else { 0 };
    let mut all: Vec<&mut Vec<u8>> = Vec::new();
    let (ins, wits) = match t {
        Tx::Script(s) => {
            all.push(&mut s.script);
            all.push(&mut s.data);
            (&mut s.ins, &mut s.wits)
        }
        Tx::Create(c) => (&mut c.ins, &mut c.wits),
        Tx::Mint(_) => return,
    };
    for i in ins {
        match i {
            In::CoinPred { pred, pdata, .. } => {
                all.push(pred);
                all.push(pdata)
            }
            In::MsgSigned { data, .. } => all.push(data),
            In::MsgPred { pred, pdata, data, .. } => {
                all.push(pred);
                all.push(pdata);
                all.push(data)
            }
            _ => {}
        }
    }
    all.extend(wits.iter_mut());
    if !all.is_empty() {
        let k = r.idx(all.len());
        *all[k] = r.bytes(n);
    }
}

pub fn arb_tx_kind(r: &mut Rng, k: u64) -> Tx {
    let mut t = plain_tx_kind(r, k);
    if r.chance(1, 5000) {
        giant(r, &mut t);
    }
    if r.chance(1, 4) {
        echo(r, &mut t);
    }
    t
}
fn plain_tx_kind(r: &mut Rng, k: u64) -> Tx {
    match k {
        0 => Tx::Script(MScript {
            gas_price: r.word(),
            gas_limit: r.word(),
            maturity: r.word(),
            receipts_root: r.b32(),
            script: big_bytes(r),
            data: big_bytes(r),
            ins: list(r, arb_in),
            outs: list(r, arb_out),
            wits: list(r, bytes),
        }),
        1 => Tx::Create(MCreate {
            gas_price: r.word(),
            gas_limit: r.word(),
            maturity: r.word(),
            bytecode_len: r.word(),
            bytecode_wit: byte(r),
            salt: r.b32(),
            slots: list(r, slot),
            ins: list(r, arb_in),
            outs: list(r, arb_out),
            wits: list(r, bytes),
        }),
        _ => Tx::Mint(MMint { txp: txp(r), outs: list(r, arb_out) }),
    }
}
pub fn arb_tx(r: &mut Rng) -> Tx {
    let k = [0, 0, 1, 1, 2][r.idx(5)];
    arb_tx_kind(r, k)
}
/// script or create
pub fn arb_exec(r: &mut Rng) -> Tx {
    let k = r.below(2);
    arb_tx_kind(r, k)
}

/// Structural fingerprint: kinds, counts and length classes (not contents).
pub fn shape(t: &Tx) -> u64 {
    let mut s = Vec::new();
    s.extend_from_slice(t.kind().as_bytes());
    let l = |n: usize| [(n % 8) as u8, (usize::BITS - n.leading_zeros()) as u8];
    for i in t.ins() {
        s.extend_from_slice(i.kind().as_bytes());
        if let Some(p) = i.pred() {
            s.extend(l(p.len()))
        }
        if let Some(p) = i.pdata() {
            s.extend(l(p.len()))
        }
        if let In::MsgSigned { data, .. } | In::MsgPred { data, .. } = i {
            s.extend(l(data.len()))
        }
    }
    s.push(254);
    for o in t.outs() {
        s.extend_from_slice(o.kind().as_bytes());
    }
    s.push(253);
    for w in t.wits() {
        s.extend(l(w.len()))
    }
    match t {
        Tx::Script(x) => {
            s.extend(l(x.script.len()));
            s.extend(l(x.data.len()));
        }
        Tx::Create(x) => s.extend(l(x.slots.len())),
        Tx::Mint(_) => {}
    }
    crate::rng::fnv(&s)
}

pub fn describe(t: &Tx) -> String {
    let ins: Vec<_> = t.ins().iter().map(|i| i.kind()).collect();
    let outs: Vec<_> = t.outs().iter().map(|i| i.kind()).collect();
    let wits: Vec<_> = t.wits().iter().map(|w| w.len()).collect();
    format!(
        "{} price={} limit={} maturity={} inputs={:?} outputs={:?} witness_lens={:?} id={}",
        t.kind(),
        t.gas_price(),
        t.gas_limit(),
        t.maturity(),
        ins,
        outs,
        wits,
        crate::stats::hex(&t.id()[..8])
    )
}

// ---------------------------------------------------------------- valid transactions

#[derive(Clone, Debug)]
pub struct Valid {
    pub tx: Tx,
    pub height: u64,
    pub params: ConsensusParameters,
    /// keys whose owners appear in signed inputs
    pub keys: Vec<Key>,
}

pub fn arb_params(r: &mut Rng) -> ConsensusParameters {
    let mut p = ConsensusParameters::DEFAULT;
    if r.chance(1, 2) {
        p.gas_price_factor = match r.below(4) {
            0 => 1,
            1 => 1 + r.below(1000),
            2 => r.word().max(1),
            _ => 1_000_000_000,
        };
    }
    if r.chance(1, 2) {
        p.gas_per_byte = match r.below(4) {
            0 => 0,
            1 => r.below(100),
            2 => 1,
            _ => r.below(1 << 20),
        };
    }
    p
}

pub struct Opts {
    pub kind: Option<u64>,
    pub signed: bool,
    pub max_inputs: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { kind: None, signed: true, max_inputs: 6 }
    }
}

/// A transaction that obeys every rule (checked by the reference in the callers).
pub fn valid(r: &mut Rng, o: &Opts) -> Valid {
    let kind = o.kind.unwrap_or_else(|| [0, 0, 0, 1, 1, 2][r.idx(6)]);
    let params = arb_params(r);
    let height = match r.below(5) {
        0 => 0,
        1 => u32::MAX as u64,
        2 => r.below(10),
        _ => r.below(u32::MAX as u64),
    };
    if kind == 2 {
        let n = count(r).min(255);
        let mut assets: Vec<B32> = Vec::new();
        let mut outs = Vec::new();
        for _ in 0..n {
            let mut a = r.b32();
            if !assets.is_empty() && r.chance(1, 6) {
                let k = r.idx(assets.len());
                a = r.near(&assets[k]);
            }
            if assets.contains(&a) {
                continue;
            }
            assets.push(a);
            outs.push(Out::Coin { to: r.b32(), amount: r.word(), asset: a });
        }
        let tx = Tx::Mint(MMint { txp: Txp { height: height as u32, index: r.u64() as u16 }, outs });
        return Valid { tx, height, params, keys: vec![] };
    }

    let pool = keys::pool();
    // now and then as many elements as the default limits allow
    let many = r.chance(1, 200);
    let nk = match r.below(40) {
        0 => 1 + r.idx(12),
        _ if many && r.chance(1, 2) => 1 + r.idx(60),
        _ => 1 + r.idx(3),
    }
    .min(pool.len());
    let start = r.idx(pool.len());
    let keys: Vec<Key> = (0..nk).map(|i| pool[(start + i) % pool.len()].clone()).collect();
    let mut assets: Vec<B32> = vec![ZERO];
    for _ in 0..if many { r.idx(200) } else { r.idx(4) } {
        let mut a = r.b32();
        if r.chance(1, 6) {
            let k = r.idx(assets.len());
            a = r.near(&assets[k]);
        }
        if !assets.contains(&a) {
            assets.push(a)
        }
    }
    let n = if many {
        120 + r.idx(130)
    } else if r.chance(1, 40) { r.idx(40) } else { r.idx(o.max_inputs + 1) };
    let mut ins: Vec<In> = Vec::new();
    let mut utxos = Vec::new();
    let mut mids = Vec::new();
    let mut cids = Vec::new();
    let mut auth: Vec<Option<usize>> = Vec::new(); // key index of signed inputs
    // now and then one byte string as long as the default limits allow
    let mut big = if r.chance(1, 4000) { Some(r.below(6)) } else { None };
    for _ in 0..n {
        let k = if kind == 1 { [0, 1, 3, 4][r.idx(4)] } else { r.below(5) };
        let mut x = arb_in_kind(r, k);
        // keep code roots cheap
        match &mut x {
            In::CoinPred { pred, pdata, .. } | In::MsgPred { pred, pdata, .. } => {
                pred.truncate(64);
                if let Some(b @ 0..=1) = big {
                    let n = giant_len(r);
                    *(if b == 0 { pred } else { pdata }) = r.bytes(n);
                    big = None;
                }
            }
            In::MsgSigned { data, .. } if big == Some(2) => {
                let n = giant_len(r);
                *data = r.bytes(n);
                big = None;
            }
            _ => {}
        }
        let mut who = None;
        match &mut x {
            In::CoinSigned { utxo, owner, amount, asset, .. } => {
                // now and then share the tx id with an earlier coin, differing in the index only
                if r.chance(1, 4) {
                    if let Some(u) = utxos.last() {
                        let u: &Utxo = u;
                        utxo.tx = if r.chance(1, 3) { r.near(&u.tx) } else { u.tx };
                    }
                }
                if utxos.contains(utxo) {
                    continue;
                }
                utxos.push(*utxo);
                let ki = r.idx(keys.len());
                who = Some(ki);
                *owner = keys[ki].owner;
                *amount = r.below(1 << 40);
                *asset = *r.pick(&assets);
            }
            In::CoinPred { utxo, owner, amount, asset, pred, .. } => {
                if utxos.contains(utxo) {
                    continue;
                }
                utxos.push(*utxo);
                *owner = code_root(pred);
                *amount = r.below(1 << 40);
                *asset = *r.pick(&assets);
            }
            In::Contract { cid, .. } => {
                if !cids.is_empty() && r.chance(1, 6) {
                    let k = r.idx(cids.len());
                    *cid = r.near(&cids[k]);
                }
                if cids.contains(cid) {
                    continue;
                }
                cids.push(*cid);
            }
            In::MsgSigned { mid, rcpt, amount, sender, nonce, data, .. } => {
                let ki = r.idx(keys.len());
                who = Some(ki);
                *rcpt = keys[ki].owner;
                *amount = r.below(1 << 40);
                *mid = message_id_in(sender, rcpt, *nonce, *amount, data);
                if mids.contains(mid) {
                    continue;
                }
                mids.push(*mid);
            }
            In::MsgPred { mid, rcpt, amount, sender, nonce, data, pred, .. } => {
                *rcpt = code_root(pred);
                *amount = r.below(1 << 40);
                *mid = message_id_in(sender, rcpt, *nonce, *amount, data);
                if mids.contains(mid) {
                    continue;
                }
                mids.push(*mid);
            }
        }
        ins.push(x);
        auth.push(who);
    }

    // fee payer
    let price = match r.below(4) {
        0 => 0,
        1 => r.below(10),
        2 => r.below(1 << 20),
        _ => r.below(1 << 34),
    };
    let limit = match r.below(4) {
        0 => 0,
        1 => params.max_gas_per_tx,
        _ => r.below(params.max_gas_per_tx + 1),
    };
    if !ins.iter().any(|i| i.asset() == Some(ZERO)) && (price > 0 || r.chance(1, 2)) {
        let mut u = utxo(r);
        while utxos.contains(&u) {
            u = utxo(r)
        }
        let ki = r.idx(keys.len());
        let pos = r.idx(ins.len() + 1);
        ins.insert(pos, In::CoinSigned { utxo: u, owner: keys[ki].owner, amount: r.below(1 << 40), asset: ZERO, txp: txp(r), wit: 0, maturity: r.word() });
        auth.insert(pos, Some(ki));
    }

    // witnesses: the bytecode, one per key or one per signed input, some unrelated
    #[derive(Clone, Copy)]
    enum W {
        Code,
        Sig(usize),
        Junk,
    }
    let mut plan: Vec<W> = Vec::new();
    let per_key = r.chance(1, 2);
    if kind == 1 {
        plan.push(W::Code)
    }
    let mut slot_of: Vec<Option<usize>> = vec![None; ins.len()];
    for (i, a) in auth.iter().enumerate() {
        if let Some(ki) = a {
            if per_key {
                if !plan.iter().any(|w| matches!(w, W::Sig(k) if k == ki)) {
                    plan.push(W::Sig(*ki))
                }
            } else {
                plan.push(W::Sig(*ki));
                slot_of[i] = Some(plan.len() - 1);
            }
        }
    }
    for _ in 0..if many { r.idx(256 - plan.len().min(255)) } else { r.idx(3) } {
        plan.push(W::Junk)
    }
    let mut order: Vec<usize> = (0..plan.len()).collect();
    r.shuffle(&mut order);
    let pos_of = |j: usize| order.iter().position(|x| *x == j).unwrap();
    for (i, a) in auth.iter().enumerate() {
        if let Some(ki) = a {
            let j = slot_of[i].unwrap_or_else(|| plan.iter().position(|w| matches!(w, W::Sig(k) if k == ki)).unwrap());
            ins[i].set_wit(pos_of(j) as u8);
        }
    }
    let code_len = match r.below(4) {
        _ if big == Some(3) => {
            if r.chance(1, 4) {
                (1 << 24) - r.idx(9)
            } else {
                giant_len(r) * (1 + r.idx(4))
            }
        }
        0 => 0,
        1 => 4 * r.idx(20),
        _ => r.idx(90),
    };
    let code = r.bytes(code_len);
    let code_pos = plan.iter().position(|w| matches!(w, W::Code)).map(pos_of);
    let mut wits: Vec<Vec<u8>> = Vec::new();
    for &j in &order {
        wits.push(match plan[j] {
            W::Code => code.clone(),
            W::Sig(_) => vec![0u8; 64],
            W::Junk => {
                let mut w = bytes(r);
                if many {
                    w.truncate(40)
                }
                w
            }
        });
    }

    // outputs
    let mut outs: Vec<Out> = Vec::new();
    let present: Vec<B32> = {
        let mut v: Vec<B32> = Vec::new();
        for i in &ins {
            if let Some(a) = i.asset() {
                if !v.contains(&a) {
                    v.push(a)
                }
            }
        }
        v
    };
    for a in &present {
        if r.chance(1, 2) && (kind == 0 || *a == ZERO) {
            outs.push(Out::Change { to: r.b32(), amount: r.word(), asset: *a })
        }
    }
    for (i, x) in ins.iter().enumerate() {
        if let In::Contract { .. } = x {
            outs.push(Out::Contract { idx: i as u8, broot: r.b32(), sroot: r.b32() })
        }
    }
    for _ in 0..r.idx(3) {
        outs.push(Out::Msg { rcpt: r.b32(), amount: r.word() });
        if kind == 0 {
            outs.push(Out::Variable { to: r.b32(), amount: r.word(), asset: r.b32() })
        }
    }
    if kind == 1 && r.chance(1, 2) {
        outs.push(Out::Created { cid: r.b32(), sroot: r.b32() })
    }
    let ncoin = if present.is_empty() { 0 } else { r.idx(4) };
    for _ in 0..ncoin {
        outs.push(Out::Coin { to: r.b32(), amount: 0, asset: *r.pick(&present) })
    }
    r.shuffle(&mut outs);

    let mut slots: Vec<Slot> = list(r, slot);
    slots.truncate(60);
    for i in 1..slots.len() {
        if r.chance(1, 8) {
            let k = slots[r.idx(i)].key;
            slots[i].key = r.near(&k);
        }
    }
    slots.sort_by(|a, b| a.key.cmp(&b.key));
    let maturity = match r.below(3) {
        0 => 0,
        1 => height,
        _ => r.below(height + 1),
    };
    let mut tx = if kind == 0 {
        Tx::Script(MScript { gas_price: price, gas_limit: limit, maturity, receipts_root: r.b32(), script: bytes(r), data: bytes(r), ins, outs, wits })
    } else {
        Tx::Create(MCreate {
            gas_price: price,
            gas_limit: limit,
            maturity,
            bytecode_len: (code_len / 4) as u64,
            bytecode_wit: code_pos.unwrap_or(0) as u8,
            salt: r.b32(),
            slots,
            ins,
            outs,
            wits,
        })
    };
    if let (Some(b @ 4..=5), Tx::Script(s)) = (big, &mut tx) {
        let n = giant_len(r);
        *(if b == 4 { &mut s.script } else { &mut s.data }) = r.bytes(n);
    }
    // make the money work
    let mut fee = refs::fee_of(&tx, &params);
    if fee.map(|f| f.total > 1 << 50).unwrap_or(true) {
        tx.set_common(Some(0), None, None);
        fee = refs::fee_of(&tx, &params);
        if fee.map(|f| f.total > 1 << 50).unwrap_or(true) {
            tx.set_common(Some(0), Some(0), None);
            fee = refs::fee_of(&tx, &params);
        }
    }
    let fee = fee.map(|f| f.total).unwrap_or(0);
    if fee > 0 {
        // raise one base input so that the fee is covered, sometimes exactly
        let exact = r.chance(1, 3);
        let have: u64 = tx.ins().iter().filter(|i| i.asset() == Some(ZERO)).filter_map(|i| i.amount()).sum();
        let want = fee.saturating_add(if exact { 0 } else { r.below(1 << 30) });
        if have < want {
            let add = want - have;
            if let Some(v) = tx.ins_mut() {
                if let Some(i) = v.iter_mut().find(|i| i.asset() == Some(ZERO)) {
                    bump(i, add)
                }
            }
        }
    }
    let mut left: std::collections::BTreeMap<B32, u64> = Default::default();
    for i in tx.ins() {
        if let (Some(a), Some(n)) = (i.asset(), i.amount()) {
            *left.entry(a).or_default() += n
        }
    }
    if let Some(b) = left.get_mut(&ZERO) {
        *b = b.saturating_sub(fee)
    }
    let all = r.chance(1, 4);
    for out in tx.outs_mut().iter_mut() {
        if let Out::Coin { amount, asset, .. } = out {
            if let Some(b) = left.get_mut(asset) {
                let x = if all { *b } else { r.below(*b + 1) };
                *amount = x;
                *b -= x;
            }
        }
    }
    if o.signed {
        sign_all(&mut tx, &keys);
    }
    Valid { tx, height, params, keys }
}

/// add to a coin or message amount, keeping the message id consistent
pub fn bump(i: &mut In, add: u64) {
    match i {
        In::CoinSigned { amount, .. } | In::CoinPred { amount, .. } => *amount += add,
        In::MsgSigned { mid, sender, rcpt, amount, nonce, data, .. } | In::MsgPred { mid, sender, rcpt, amount, nonce, data, .. } => {
            *amount += add;
            *mid = message_id_in(sender, rcpt, *nonce, *amount, data);
        }
        In::Contract { .. } => {}
    }
}

/// Put reference signatures at every witness a signed input owned by one of `keys` points to.
pub fn sign_all(tx: &mut Tx, keys: &[Key]) {
    let id = tx.id();
    let mut put: Vec<(usize, Vec<u8>)> = Vec::new();
    let mut cache: std::collections::BTreeMap<B32, Vec<u8>> = Default::default();
    for i in tx.ins() {
        if let (Some(w), Some(a)) = (i.wit(), i.authority()) {
            if let Some(k) = keys.iter().find(|k| k.owner == a) {
                let s = cache.entry(k.secret).or_insert_with(|| keys::sign(&k.secret, &id)).clone();
                put.push((w as usize, s));
            }
        }
    }
    if let Some(ws) = tx.wits_mut() {
        for (w, s) in put {
            if let Some(x) = ws.get_mut(w) {
                *x = s
            }
        }
    }
}

// ---------------------------------------------------------------- receipts

/// Clear the bits the instruction's opcode does not use: the instruction set drops them (see
/// KNOWN_FINDINGS, panic-instruction).
pub fn normal_instr(raw: u32) -> u32 {
    u32::from(fuel_asm::Instruction::from(raw))
}

pub fn arb_receipt_kind(r: &mut Rng, k: u64) -> Rc {
    match k {
        0 => Rc::Call { id: r.b32(), to: r.b32(), amount: r.word(), asset: r.b32(), gas: r.word(), p1: r.word(), p2: r.word(), pc: r.word(), is: r.word() },
        1 => Rc::Return { id: r.b32(), val: r.word(), pc: r.word(), is: r.word() },
        2 => Rc::ReturnData { id: r.b32(), ptr: r.word(), len: r.word(), digest: r.b32(), data: bytes(r), pc: r.word(), is: r.word() },
        3 => {
            let reason = byte(r);
            // success carries no instruction
            let instr = if reason == 0 { 0 } else { normal_instr(r.u64() as u32) };
            Rc::Panic { id: r.b32(), reason, instr, pc: r.word(), is: r.word(), cid: None }
        }
        4 => Rc::Revert { id: r.b32(), ra: r.word(), pc: r.word(), is: r.word() },
        5 => Rc::Log { id: r.b32(), ra: r.word(), rb: r.word(), rc: r.word(), rd: r.word(), pc: r.word(), is: r.word() },
        6 => Rc::LogData { id: r.b32(), ra: r.word(), rb: r.word(), ptr: r.word(), len: r.word(), digest: r.b32(), data: bytes(r), pc: r.word(), is: r.word() },
        7 => Rc::Transfer { id: r.b32(), to: r.b32(), amount: r.word(), asset: r.b32(), pc: r.word(), is: r.word() },
        8 => Rc::TransferOut { id: r.b32(), to: r.b32(), amount: r.word(), asset: r.b32(), pc: r.word(), is: r.word() },
        9 => Rc::ScriptResult { result: r.word(), gas_used: r.word() },
        _ => Rc::MessageOut { mid: r.b32(), sender: r.b32(), rcpt: r.b32(), amount: r.word(), nonce: r.b32(), len: r.word(), digest: r.b32(), data: bytes(r) },
    }
}
pub fn arb_receipt(r: &mut Rng) -> Rc {
    let k = r.below(11);
    arb_receipt_kind(r, k)
}

/// Give some lists of a transaction more elements than seven or eight bits can count.
pub fn crowd(r: &mut Rng, t: &mut Tx) {
    fn fill<T>(r: &mut Rng, v: &mut Vec<T>, f: impl Fn(&mut Rng) -> T) {
        let n = match r.below(5) {
            0 => 126 + r.idx(5),
            1 => 253 + r.idx(6),
            2 => 130 + r.idx(120),
            _ => 257 + r.idx(250),
        };
        // in front of, behind or around what is there
        let at = [0, v.len(), r.idx(v.len() + 1)][r.idx(3)];
        let rest = v.split_off(at);
        while v.len() + rest.len() < n {
            v.push(f(r))
        }
        v.extend(rest);
    }
    fn small_in(r: &mut Rng, k: Option<u64>) -> In {
        let mut i = match k {
            Some(k) => arb_in_kind(r, k),
            None => arb_in(r),
        };
        match &mut i {
            In::CoinPred { pred, pdata, .. } => {
                pred.truncate(24);
                pdata.truncate(24)
            }
            In::MsgSigned { data, .. } => data.truncate(24),
            In::MsgPred { pred, pdata, data, .. } => {
                pred.truncate(24);
                pdata.truncate(24);
                data.truncate(24)
            }
            _ => {}
        }
        i
    }
    fn small(r: &mut Rng) -> Vec<u8> {
        let n = r.idx(20);
        r.bytes(n)
    }
    let which = 1 + r.below(15);
    if which & 1 != 0 {
        // all kinds, or one kind only
        let k = if r.chance(1, 2) { Some(r.below(5)) } else { None };
        if let Some(v) = t.ins_mut() {
            fill(r, v, |r| small_in(r, k))
        }
    }
    if which & 2 != 0 || matches!(t, Tx::Mint(_)) {
        let k = if r.chance(1, 2) { Some(r.below(6)) } else { None };
        fill(r, t.outs_mut(), |r| match k {
            Some(k) => arb_out_kind(r, k),
            None => arb_out(r),
        })
    }
    if which & 4 != 0 {
        if let Some(v) = t.wits_mut() {
            fill(r, v, small)
        }
    }
    if which & 8 != 0 {
        if let Tx::Create(c) = t {
            fill(r, &mut c.slots, slot)
        }
    }
}

/// Give some lists more elements than seven or eight bits can count without breaking a rule that held before (limits aside).
pub fn crowd_legal(r: &mut Rng, t: &mut Tx) {
    let n = [127 + r.idx(3), 254 + r.idx(4), 130 + r.idx(120), 257 + r.idx(120)][r.idx(4)];
    let which = 1 + r.below(15);
    let script = matches!(t, Tx::Script(_));
    let assets: Vec<B32> = t.ins().iter().filter_map(|i| i.asset()).collect();
    if which & 1 != 0 {
        let behind = r.chance(1, 2);
        let mut extra = Vec::new();
        while t.outs().len() + extra.len() < n {
            extra.push(match r.below(4) {
                0 if script => Out::Variable { to: r.b32(), amount: r.word(), asset: r.b32() },
                1 | 2 if !assets.is_empty() => Out::Coin { to: r.b32(), amount: 0, asset: assets[r.idx(assets.len())] },
                _ => Out::Msg { rcpt: r.b32(), amount: r.word() },
            });
        }
        let o = t.outs_mut();
        if behind {
            o.extend(extra)
        } else {
            extra.append(o);
            *o = extra;
        }
    }
    let nw = t.wits().len();
    if which & 2 != 0 {
        let k = r.below(4);
        if let Some(v) = t.ins_mut() {
            while v.len() < n {
                let mut b = r.b32();
                b[30..].copy_from_slice(&(v.len() as u16).to_be_bytes());
                let utxo = Utxo { tx: b, idx: r.below(256) as u8 };
                let (txp, asset) = (Txp { height: 0, index: 0 }, assets.first().copied().unwrap_or(ZERO));
                v.push(if nw == 0 || r.below(4) == k {
                    In::CoinPred { utxo, owner: r.b32(), amount: 0, asset, txp, maturity: 0, pred: vec![0x24, 0, 0, 0], pdata: vec![] }
                } else {
                    In::CoinSigned { utxo, owner: r.b32(), amount: 0, asset, txp, wit: r.idx(nw.min(256)) as u8, maturity: 0 }
                })
            }
        }
    }
    if which & 4 != 0 {
        if let Some(v) = t.wits_mut() {
            while v.len() < n {
                v.push(vec![0; r.idx(9)])
            }
        }
    }
    if which & 8 != 0 {
        if let Tx::Create(c) = t {
            while c.slots.len() < n {
                c.slots.push(Slot { key: r.b32(), val: r.b32() })
            }
            c.slots.sort_by(|a, b| (a.key, a.val).cmp(&(b.key, b.val)));
        }
    }
}

/// Coins and coin outputs by the hundred, all carrying money, around what is there. A transaction whose money added up
/// before still adds up, unless a sum leaves 64 bits. No output spends the base asset's last coins on top of the fee:
/// what is spent is what the new inputs bring.
pub fn money_crowd(r: &mut Rng, t: &mut Tx) {
    let sizes = |r: &mut Rng| [3 + r.idx(60), 127 + r.idx(4), 250 + r.idx(12), 257 + r.idx(60)][r.idx(4)];
    let (ni, no) = (sizes(r), sizes(r));
    let mut assets: Vec<B32> = t.ins().iter().filter_map(|i| i.asset()).collect();
    if matches!(t, Tx::Script(_)) || assets.is_empty() {
        for _ in 0..r.idx(3) {
            assets.push(r.b32())
        }
    }
    if assets.is_empty() {
        return;
    }
    let pred = vec![0x24, 0, 0, 0];
    let owner = code_root(&pred);
    let big = r.chance(1, 6);
    let (mut ins, mut outs) = (Vec::new(), Vec::new());
    let mut left: std::collections::BTreeMap<B32, u64> = Default::default();
    for k in 0..ni {
        let asset = assets[r.idx(assets.len())];
        let amount = if big { 1 + r.below(1 << 55) } else { 1 + r.below(1000) };
        *left.entry(asset).or_default() += amount;
        let mut b = r.b32();
        b[30..].copy_from_slice(&(k as u16).to_be_bytes());
        let utxo = Utxo { tx: b, idx: r.below(256) as u8 };
        ins.push(In::CoinPred { utxo, owner, amount, asset, txp: Txp { height: 0, index: 0 }, maturity: 0, pred: pred.clone(), pdata: vec![] });
    }
    for _ in 0..no {
        let asset = assets[r.idx(assets.len())];
        let have = left.entry(asset).or_default();
        let amount = r.below((*have / 4).min(1 << 54) + 1);
        *have -= amount;
        outs.push(Out::Coin { to: r.b32(), amount, asset });
    }
    // the indices contract outputs carry count inputs: those in front stay in front
    if t.outs().iter().any(|o| matches!(o, Out::Contract { .. })) || r.chance(1, 2) {
        t.ins_mut().unwrap().extend(ins)
    } else {
        let v = t.ins_mut().unwrap();
        ins.append(v);
        *v = ins
    }
    if r.chance(1, 2) {
        t.outs_mut().extend(outs)
    } else {
        outs.append(t.outs_mut());
        *t.outs_mut() = outs
    }
}

/// Up to `n` inputs by empty coins, of one asset or each of its own, or by empty messages (if `msgs`), behind what is there.
pub fn motley(r: &mut Rng, t: &mut Tx, n: usize, msgs: bool) {
    let asset = t.ins().iter().find_map(|i| i.asset()).unwrap_or(ZERO);
    let (coins, same) = (r.chance(1, 2), r.chance(1, 2) || matches!(t, Tx::Create(_)));
    let pred = vec![0x24, 0, 0, 0];
    let owner = code_root(&pred);
    let Some(l) = t.ins_mut() else { return };
    let at = r.idx(31);
    while l.len() < n {
        let mut own = r.b32();
        own[at..at + 2].copy_from_slice(&(l.len() as u16 ^ 0x5a00).to_be_bytes());
        l.push(if coins || !msgs {
            let utxo = Utxo { tx: own, idx: r.below(256) as u8 };
            let asset = if same { asset } else { own };
            In::CoinPred { utxo, owner, amount: 0, asset, txp: Txp { height: 0, index: 0 }, maturity: 0, pred: pred.clone(), pdata: vec![] }
        } else {
            In::MsgPred { mid: own, sender: ZERO, rcpt: owner, amount: 0, nonce: r.word(), data: vec![], pred: pred.clone(), pdata: vec![] }
        })
    }
}

/// A transaction with more elements of one kind than 16 bits can count.
pub fn huge(r: &mut Rng) -> Tx {
    let n = 65_534 + r.idx(200);
    let key = |i: usize| {
        let mut k = ZERO;
        k[..4].copy_from_slice(&(i as u32).to_be_bytes());
        k
    };
    let none = MScript { gas_price: 1, gas_limit: 2, maturity: 3, receipts_root: ZERO, script: vec![], data: vec![7], ins: vec![], outs: vec![], wits: vec![] };
    match r.below(5) {
        0 => Tx::Script(MScript { wits: (0..n).map(|i| vec![i as u8; i % 3]).collect(), ..none }),
        1 => Tx::Create(MCreate {
            gas_price: 1,
            gas_limit: 2,
            maturity: 3,
            bytecode_len: 4,
            bytecode_wit: 5,
            salt: r.b32(),
            slots: (0..n).map(|i| Slot { key: key(i), val: key(i) }).collect(),
            ins: vec![],
            outs: vec![],
            wits: vec![vec![1, 2, 3]],
        }),
        2 => Tx::Script(MScript {
            ins: (0..n).map(|i| In::CoinSigned { utxo: Utxo { tx: key(i), idx: i as u8 }, owner: ZERO, amount: i as u64, asset: ZERO, txp: Txp { height: i as u32, index: i as u16 }, wit: i as u8, maturity: 1 }).collect(),
            outs: vec![Out::Msg { rcpt: ZERO, amount: 1 }],
            wits: vec![vec![1]],
            ..none
        }),
        3 => Tx::Script(MScript { outs: (0..n).map(|i| Out::Coin { to: key(i), amount: i as u64, asset: ZERO }).collect(), wits: vec![vec![1]], ..none }),
        _ => Tx::Mint(MMint { txp: txp(r), outs: (0..n).map(|i| Out::Msg { rcpt: ZERO, amount: i as u64 }).collect() }),
    }
}

// ---------------------------------------------------------------- coincidences

/// Places of one type in a transaction that may come to hold equal values.
struct Places<'a> {
    b32: Vec<&'a mut B32>,
    word: Vec<&'a mut u64>,
    blob: Vec<&'a mut Vec<u8>>,
    txp: Vec<&'a mut Txp>,
}
fn places(t: &mut Tx) -> Places<'_> {
    let mut p = Places { b32: vec![], word: vec![], blob: vec![], txp: vec![] };
    fn ins<'a>(p: &mut Places<'a>, l: &'a mut [In]) {
        for i in l {
            match i {
                In::CoinSigned { utxo, owner, amount, asset, txp, maturity, .. } => {
                    p.b32.extend([&mut utxo.tx, owner, asset]);
                    p.word.extend([amount, maturity]);
                    p.txp.push(txp);
                }
                In::CoinPred { utxo, owner, amount, asset, txp, maturity, pred, pdata } => {
                    p.b32.extend([&mut utxo.tx, owner, asset]);
                    p.word.extend([amount, maturity]);
                    p.txp.push(txp);
                    p.blob.extend([pred, pdata]);
                }
                In::Contract { utxo, broot, sroot, txp, cid } => {
                    p.b32.extend([&mut utxo.tx, broot, sroot, cid]);
                    p.txp.push(txp);
                }
                In::MsgSigned { mid, sender, rcpt, amount, nonce, data, .. } => {
                    p.b32.extend([mid, sender, rcpt]);
                    p.word.extend([amount, nonce]);
                    p.blob.push(data);
                }
                In::MsgPred { mid, sender, rcpt, amount, nonce, data, pred, pdata } => {
                    p.b32.extend([mid, sender, rcpt]);
                    p.word.extend([amount, nonce]);
                    p.blob.extend([data, pred, pdata]);
                }
            }
        }
    }
    fn outs<'a>(p: &mut Places<'a>, l: &'a mut [Out]) {
        for o in l {
            match o {
                Out::Coin { to, amount, asset } | Out::Change { to, amount, asset } | Out::Variable { to, amount, asset } => {
                    p.b32.extend([to, asset]);
                    p.word.push(amount);
                }
                Out::Contract { broot, sroot, .. } => p.b32.extend([broot, sroot]),
                Out::Msg { rcpt, amount } => {
                    p.b32.push(rcpt);
                    p.word.push(amount);
                }
                Out::Created { cid, sroot } => p.b32.extend([cid, sroot]),
            }
        }
    }
    match t {
        Tx::Script(s) => {
            p.b32.push(&mut s.receipts_root);
            p.word.extend([&mut s.gas_price, &mut s.gas_limit, &mut s.maturity]);
            p.blob.extend([&mut s.script, &mut s.data]);
            ins(&mut p, &mut s.ins);
            outs(&mut p, &mut s.outs);
            p.blob.extend(s.wits.iter_mut());
        }
        Tx::Create(s) => {
            p.b32.push(&mut s.salt);
            p.word.extend([&mut s.gas_price, &mut s.gas_limit, &mut s.maturity, &mut s.bytecode_len]);
            for x in &mut s.slots {
                p.b32.extend([&mut x.key, &mut x.val]);
            }
            ins(&mut p, &mut s.ins);
            outs(&mut p, &mut s.outs);
            p.blob.extend(s.wits.iter_mut());
        }
        Tx::Mint(s) => {
            p.txp.push(&mut s.txp);
            outs(&mut p, &mut s.outs);
        }
    }
    p
}
/// Let a few fields coincide with other fields, whatever these mean.
pub fn echo(r: &mut Rng, t: &mut Tx) {
    fn copy<T: Clone>(r: &mut Rng, l: &mut [&mut T], ok: impl Fn(&T, &T) -> bool) {
        if l.len() > 1 {
            let (i, j) = (r.idx(l.len()), r.idx(l.len()));
            if ok(l[i], l[j]) {
                let x = l[i].clone();
                *l[j] = x;
            }
        }
    }
    let mut p = places(t);
    for _ in 0..1 + r.idx(4) {
        match r.below(8) {
            0..=3 => copy(r, &mut p.b32, |_, _| true),
            4 | 5 => copy(r, &mut p.word, |_, _| true),
            6 => copy(r, &mut p.txp, |_, _| true),
            // a predicate never becomes empty: that would be another kind of input
            _ => copy(r, &mut p.blob, |a, _| !a.is_empty()),
        }
    }
}
/// Put a value into 32-byte fields of any meaning.
pub fn plant_b32(r: &mut Rng, t: &mut Tx, x: &B32) {
    let mut p = places(t);
    if !p.b32.is_empty() {
        for _ in 0..1 + r.idx(3) {
            let i = r.idx(p.b32.len());
            *p.b32[i] = *x;
        }
    }
}
/// Put a value into a 32-byte field of an input that does not name who may spend it.
pub fn plant_beside(r: &mut Rng, i: &mut In, x: &B32) {
    let l: Vec<&mut B32> = match i {
        In::CoinSigned { utxo, asset, .. } | In::CoinPred { utxo, asset, .. } => vec![&mut utxo.tx, asset],
        In::Contract { utxo, broot, sroot, cid, .. } => vec![&mut utxo.tx, broot, sroot, cid],
        // the sender more often: it is a party too
        In::MsgSigned { mid, sender, .. } | In::MsgPred { mid, sender, .. } => {
            if r.chance(1, 2) {
                vec![sender]
            } else {
                vec![mid, sender]
            }
        }
    };
    for y in l {
        if r.chance(2, 3) {
            *y = *x
        }
    }
}
