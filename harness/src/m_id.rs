//! C05 transaction id, C06 what the id binds, C07 signature check, C08 signing.

use crate::by_kind;
use crate::conv::*;
use crate::ex::Ex;
use crate::gen;
use crate::keys;
use crate::model::*;
use crate::mutate;
use crate::refs::{self, Unauth};
use crate::rng::Rng;
use crate::stats::{hex, short, Ctx};
use crate::Prop;
use fuel_crypto::SecretKey;
use fuel_tx::{Bytes32, Cacheable, CheckError, Checkable, Input, Mint, Transaction, UniqueIdentifier, Witness};
use fuel_types::bytes::{Deserializable, SerializableVec};

pub fn secret(k: &keys::Key) -> SecretKey {
    // Safety: the pool holds valid scalars
    unsafe { SecretKey::from_bytes_unchecked(k.secret) }
}

// ---------------------------------------------------------------- C05

fn id_exec<T: Ex>(cx: &mut Ctx, r: &mut Rng, m: &Tx, want: B32) {
    let want = Bytes32::from(want);
    let a = T::real(m);
    cx.eq("id of the bare transaction", a.id(), want);
    cx.ck(&a.model() == m, || "computing the id altered the transaction".into());
    let mut b = a.clone();
    b.precompute();
    cx.eq("id after precompute", b.id(), want);
    cx.ck(&b.model() == m, || "precompute altered the transaction".into());
    cx.eq("id of a clone of the cached transaction", b.clone().id(), want);
    // witnesses may come and go under the cache
    let k = r.pick(keys::pool());
    let mut s = if r.chance(1, 2) { a.clone() } else { b.clone() };
    if r.chance(1, 3) {
        s.sign_inputs(&secret(k));
        cx.eq("id after signing", s.id(), want);
    }
    s.witnesses_mut().push(Witness::from(gen::bytes(r)));
    cx.eq("id after adding a witness", s.id(), want);
    s.precompute();
    cx.eq("id after adding a witness and recomputing", s.id(), want);
    match T::from_bytes(&a.clone().to_bytes()) {
        Ok(x) => {
            cx.eq("id after a binary round trip", x.id(), want);
        }
        Err(e) => cx.fail(format!("own encoding rejected: {e}")),
    }
    let t: Transaction = if r.chance(1, 2) { b.into() } else { a.into() };
    cx.eq("id of the wrapped transaction", t.id(), want);
}

fn c05(cx: &mut Ctx, r: &mut Rng) {
    let m = if cx.index % 20_000 == 13 {
        cx.hit("huge_counts");
        gen::huge(r)
    } else {
        gen::arb_tx(r)
    };
    cx.shape(gen::shape(&m));
    let want = m.id();
    match &m {
        Tx::Mint(x) => {
            let a: Mint = r_mint(x);
            cx.eq("id of the mint", *a.id(), want);
            let mut b = a.clone();
            b.precompute();
            cx.eq("id of the cached mint", *b.id(), want);
            cx.eq("id of a clone of the cached mint", *b.clone().id(), want);
            cx.ck(m_mint(&b) == *x, || "computing the id altered the mint".into());
            let raw = a.clone().to_bytes();
            cx.eq("id is the hash of the encoding", want, sha(&[&raw]));
        }
        _ => {
            by_kind!(&m, id_exec(cx, r, &m, want));
        }
    }
    let mut t = r_tx(&m);
    cx.eq("id of the transaction", *t.id(), want);
    cx.ck(m_tx(&t) == m, || "computing the id altered the transaction".into());
    t.precompute();
    cx.eq("id of the cached transaction", *t.id(), want);
    let raw = t.clone().to_bytes();
    match Transaction::from_bytes(&raw) {
        Ok(x) => {
            cx.eq("id after a binary round trip of the cached transaction", *x.id(), want);
        }
        Err(e) => cx.fail(format!("own encoding rejected: {e}")),
    }
    if r.chance(1, 4) {
        match Transaction::from_json(t.to_json()) {
            Some(x) => {
                cx.eq("id after a JSON round trip", *x.id(), want);
            }
            None => cx.fail("own JSON rejected"),
        }
        cx.hit("json_round_trips");
    }
    // the id of the same content with its malleable fields already zero
    let s = m.signing_form();
    cx.eq("id of the signing form", *r_tx(&s).id(), want);
    cx.hit(format!("id_{}", m.kind()));
    cx.sample(|| gen::describe(&m));
}

// ---------------------------------------------------------------- C06

fn c06(cx: &mut Ctx, r: &mut Rng) {
    let m = gen::arb_tx(r);
    let before = r_tx(&m).id();
    for _ in 0..8 {
        let mut n = m.clone();
        let ch = mutate::change(r, &mut n);
        let mut t = r_tx(&n);
        if r.chance(1, 3) {
            t.precompute();
        }
        let after = t.id();
        cx.shape(crate::rng::fnv(ch.label.as_bytes()));
        cx.hit(if ch.binding { "binding_changes" } else { "malleable_changes" });
        cx.hit(format!("change: {}", ch.label));
        if ch.binding {
            cx.ck(after != before, || format!("changing {} left the id {} unchanged ({})", ch.label, hex(&before[..]), gen::describe(&m)));
        } else {
            cx.ck(after == before, || format!("changing {} changed the id ({})", ch.label, gen::describe(&m)));
        }
    }
    // several malleable changes at once, then one binding change on top
    if !matches!(m, Tx::Mint(_)) {
        let mut n = m.clone();
        let mut labels = Vec::new();
        for _ in 0..1 + r.idx(5) {
            if let Some(ch) = mutate::change_class(r, &mut n, false) {
                labels.push(ch.label)
            }
        }
        cx.ck(r_tx(&n).id() == before, || format!("malleable changes {labels:?} changed the id ({})", gen::describe(&m)));
        if let Some(ch) = mutate::change_class(r, &mut n, true) {
            cx.ck(r_tx(&n).id() != before, || format!("{} after malleable changes {labels:?} left the id unchanged", ch.label));
        }
        cx.hit("combined_changes");
    }
    cx.sample(|| gen::describe(&m));
}

// ---------------------------------------------------------------- C07

/// Something that may break (or must not break) authorisation.
fn tamper(r: &mut Rng, t: &mut Tx, pool: &[keys::Key]) -> &'static str {
    let id = t.id();
    let signed: Vec<usize> = t.ins().iter().enumerate().filter(|(_, i)| i.wit().is_some()).map(|(k, _)| k).collect();
    let preds: Vec<usize> = t.ins().iter().enumerate().filter(|(_, i)| i.pred().is_some()).map(|(k, _)| k).collect();
    let nw = t.wits().len();
    let wit_of = |t: &Tx, r: &mut Rng| -> Option<usize> {
        if signed.is_empty() {
            return None;
        }
        let i = signed[r.idx(signed.len())];
        let w = t.ins()[i].wit().unwrap() as usize;
        (w < t.wits().len()).then_some(w)
    };
    match r.below(26) {
        0 | 1 => {
            if let Some(w) = wit_of(t, r) {
                let x = &mut t.wits_mut().unwrap()[w];
                if x.is_empty() {
                    return "";
                }
                let k = r.idx(x.len());
                x[k] ^= 1 << r.below(8);
                return "bit flipped in a signature";
            }
        }
        2 => {
            if let Some(w) = wit_of(t, r) {
                t.wits_mut().unwrap()[w].pop();
                return "signature truncated";
            }
        }
        3 => {
            if let Some(w) = wit_of(t, r) {
                let k = [1, 8, 1 + r.idx(64), 64, 1 + r.idx(1000)][r.idx(5)];
                let x = &mut t.wits_mut().unwrap()[w];
                match r.below(5) {
                    0 | 1 => x.extend(vec![0; k]),
                    2 => {
                        let v = r.bytes(k);
                        x.extend(v)
                    }
                    3 => {
                        // in front
                        let mut v = if r.chance(1, 2) { vec![0; k] } else { r.bytes(k) };
                        v.append(x);
                        *x = v
                    }
                    _ => x.extend(x.clone()),
                }
                return "signature extended";
            }
        }
        4 => {
            if let Some(w) = wit_of(t, r) {
                let n = [0, 63, 64, 65, 128][r.idx(5)];
                t.wits_mut().unwrap()[w] = vec![if r.chance(1, 2) { 0 } else { 0xff }; n];
                return "constant witness";
            }
        }
        5 => {
            if let Some(w) = wit_of(t, r) {
                let k = r.pick(pool);
                t.wits_mut().unwrap()[w] = keys::sign(&k.secret, &id);
                return "signed by some key";
            }
        }
        6 => {
            if let Some(w) = wit_of(t, r) {
                let k = r.pick(pool);
                let other = r.b32();
                t.wits_mut().unwrap()[w] = keys::sign(&k.secret, &other);
                return "signature of another message";
            }
        }
        7 => {
            if let Some(w) = wit_of(t, r) {
                let x = t.wits()[w].clone();
                if x.len() == 64 {
                    t.wits_mut().unwrap()[w] = keys::high_s(&x);
                    return "high-s form";
                }
            }
        }
        8 => {
            if let Some(w) = wit_of(t, r) {
                if t.wits()[w].len() == 64 {
                    t.wits_mut().unwrap()[w][32] ^= 0x80;
                    return "recovery bit flipped";
                }
            }
        }
        9 => {
            if let Some(w) = wit_of(t, r) {
                let x = &mut t.wits_mut().unwrap()[w];
                if x.len() == 64 {
                    let half = r.idx(2) * 32;
                    let v = [0u8, 0xff, 0x7f][r.idx(3)];
                    x[half..half + 32].iter_mut().for_each(|b| *b = v);
                    return "half of a signature constant";
                }
            }
        }
        10 => {
            if !signed.is_empty() {
                let i = signed[r.idx(signed.len())];
                let x = match r.below(4) {
                    0 => nw as u8,
                    1 => (nw as u8).wrapping_add(r.below(4) as u8),
                    2 => 255,
                    _ => r.below(nw as u64 + 1) as u8,
                };
                t.ins_mut().unwrap()[i].set_wit(x);
                return "witness index changed";
            }
        }
        11 => {
            if !signed.is_empty() {
                let i = signed[r.idx(signed.len())];
                let mut a = t.ins()[i].authority().unwrap();
                a[r.idx(32)] ^= 1 << r.below(8);
                t.ins_mut().unwrap()[i].set_authority(a);
                return "owner bit flipped";
            }
        }
        12 => {
            if !signed.is_empty() {
                let i = signed[r.idx(signed.len())];
                t.ins_mut().unwrap()[i].set_authority(r.pick(pool).owner);
                return "owner replaced";
            }
        }
        13 | 14 => {
            if !preds.is_empty() {
                let i = preds[r.idx(preds.len())];
                let x = &mut t.ins_mut().unwrap()[i];
                match r.below(4) {
                    0 => {
                        let mut a = x.authority().unwrap();
                        a[r.idx(32)] ^= 1 << r.below(8);
                        x.set_authority(a);
                        return "predicate owner bit flipped";
                    }
                    1 => {
                        if let In::CoinPred { pdata, .. } | In::MsgPred { pdata, .. } = x {
                            pdata.push(r.u64() as u8);
                        }
                        return "predicate data changed";
                    }
                    2 => {
                        let a = r.b32();
                        x.set_authority(a);
                        return "predicate owner replaced";
                    }
                    _ => {
                        if let In::CoinPred { pred, .. } | In::MsgPred { pred, .. } = x {
                            if r.chance(1, 2) {
                                pred.push(0);
                                // a zero byte only changes the root when it opens a new leaf
                                return "zero appended to a predicate";
                            }
                            let k = r.idx(pred.len());
                            pred[k] ^= 1 << r.below(8);
                        }
                        return "predicate bit flipped";
                    }
                }
            }
        }
        15 | 16 => {
            if mutate::change_class(r, t, true).is_some() {
                return "committed field changed after signing";
            }
        }
        17 | 18 => {
            // not the witnesses: those are covered above
            let w = t.wits().to_vec();
            if mutate::change_class(r, t, false).is_some() {
                *t.wits_mut().unwrap() = w;
                return "malleable field changed after signing";
            }
        }
        19 | 20 => {
            // the one who signed is named in the input, but not as the one who may spend it
            if !signed.is_empty() {
                let i = signed[r.idx(signed.len())];
                let k = r.pick(pool);
                gen::plant_beside(r, &mut t.ins_mut().unwrap()[i], &k.owner);
                if r.chance(1, 4) {
                    gen::plant_b32(r, t, &k.owner);
                }
                gen::sign_all(t, pool);
                let id = t.id();
                let w = t.ins()[i].wit().unwrap() as usize;
                if w < nw {
                    t.wits_mut().unwrap()[w] = keys::sign(&k.secret, &id);
                    return "signed by another party of the input";
                }
            }
        }
        21 => {
            if !preds.is_empty() {
                let i = preds[r.idx(preds.len())];
                let x = &mut t.ins_mut().unwrap()[i];
                let root = code_root(x.pred().unwrap());
                let other = match x {
                    In::CoinPred { pdata, .. } => code_root(pdata),
                    In::MsgPred { pdata, data, .. } => code_root(if r.chance(1, 2) { pdata } else { data }),
                    _ => root,
                };
                let b = r.b32();
                x.set_authority(if r.chance(1, 2) { other } else { b });
                gen::plant_beside(r, x, &root);
                gen::sign_all(t, pool);
                return "predicate root in another field";
            }
        }
        22 | 23 => {
            // two predicates with one owner, of which at most one is the owner's
            if preds.len() > 1 {
                let (i, j) = (preds[r.idx(preds.len())], preds[r.idx(preds.len())]);
                let (a, p) = (t.ins()[i].authority().unwrap(), t.ins()[i].pred().unwrap().to_vec());
                let x = &mut t.ins_mut().unwrap()[j];
                x.set_authority(a);
                if let In::CoinPred { pred, .. } | In::MsgPred { pred, .. } = x {
                    if r.chance(3, 4) {
                        *pred = p;
                        let k = r.idx(pred.len());
                        pred[k] = pred[k].wrapping_add(r.chance(3, 4) as u8);
                    }
                }
                gen::sign_all(t, pool);
                return "predicates with one owner";
            }
        }
        24 => {
            // inputs of several owners (or one) on few witnesses, signed by all who can
            if !signed.is_empty() && nw > 0 {
                let n = 1 + r.idx(2.min(nw));
                for k in &signed {
                    let w = r.idx(n) as u8;
                    t.ins_mut().unwrap()[*k].set_wit(w);
                }
                gen::sign_all(t, pool);
                return "witnesses shared among owners";
            }
        }
        _ => {
            // a pair of witnesses swapped
            if nw > 1 {
                let (i, j) = (r.idx(nw), r.idx(nw));
                t.wits_mut().unwrap().swap(i, j);
                return "witnesses swapped";
            }
        }
    }
    ""
}

fn kind_of(e: &CheckError) -> Option<(usize, Unauth)> {
    match e {
        CheckError::InputWitnessIndexBounds { index } => Some((*index, Unauth::Bounds)),
        CheckError::InputInvalidSignature { index } => Some((*index, Unauth::Signature)),
        CheckError::InputPredicateOwner { index } => Some((*index, Unauth::Predicate)),
        _ => None,
    }
}

/// The error names an input that is unauthorised, and says so for a reason that input has.
fn judge(cx: &mut Ctx, what: &str, got: Result<(), CheckError>, bad: &[(usize, Unauth)]) {
    match got {
        Ok(()) => {
            cx.ck(bad.is_empty(), || format!("{what} accepted unauthorised inputs {bad:?}"));
        }
        Err(e) => {
            let named = kind_of(&e);
            cx.ck(named.map_or(false, |n| bad.contains(&n)), || format!("{what} reported {e:?}; unauthorised inputs are {bad:?}"));
        }
    }
}

fn check_exec<T: Ex>(cx: &mut Ctx, r: &mut Rng, m: &Tx, bad: &[(usize, Unauth)], id: &B32) {
    let a = T::real(m);
    judge(cx, "check_signatures", a.check_signatures(), bad);
    let mut b = a.clone();
    b.precompute();
    judge(cx, "check_signatures (cached)", b.check_signatures(), bad);
    let preds_ok = !bad.iter().any(|(_, u)| *u == Unauth::Predicate);
    cx.eq("check_predicate_owners", a.check_predicate_owners(), preds_ok);
    let tid = Bytes32::from(*id);
    for (k, i) in a.inputs().iter().enumerate() {
        let mine: Vec<_> = bad.iter().filter(|x| x.0 == k).cloned().collect();
        judge(cx, "Input::check_signature", i.check_signature(k, &tid, a.witnesses()), &mine);
    }
    // the index reported is the one given
    if r.chance(1, 8) {
        if let Some(i) = a.inputs().first() {
            let k = r.idx(1000);
            let mine: Vec<_> = bad.iter().filter(|x| x.0 == 0).map(|x| (k, x.1)).collect();
            judge(cx, "Input::check_signature at another index", i.check_signature(k, &tid, a.witnesses()), &mine);
        }
    }
    let t: Transaction = a.into();
    judge(cx, "Transaction::check_signatures", t.check_signatures(), bad);
    cx.ck(&m_tx(&t) == m, || "checking altered the transaction".into());
}

/// More than a byte can count: inputs in front of (or around) the ones there, which are authorised or need no authorisation.
fn many_in_front(r: &mut Rng, m: &mut Tx, same_owner: bool) {
    let pred = vec![0x24, 0, 0, 0];
    let owner = code_root(&pred);
    let signed: Vec<(B32, u8)> = m.ins().iter().filter_map(|i| i.wit().zip(i.authority())).map(|(w, o)| (o, w)).collect();
    let only = [None, None, Some(1), Some(2)][r.idx(4)];
    let Some(v) = m.ins_mut() else { return };
    let n = [250 + r.idx(12), 257 + r.idx(60)][r.idx(2)];
    let mut front = Vec::new();
    while front.len() + v.len() < n {
        let kind = [1, 2, 0][r.idx(3)];
        let mut i = gen::arb_in_kind(r, only.unwrap_or(kind));
        match &mut i {
            In::CoinPred { pred: p, pdata, .. } => {
                *p = pred.clone();
                pdata.truncate(8);
                i.set_authority(owner)
            }
            In::CoinSigned { .. } if signed.is_empty() => continue,
            In::CoinSigned { .. } => {
                let (o, w) = signed[r.idx(signed.len())];
                i.set_wit(w);
                if same_owner || r.chance(1, 2) {
                    i.set_authority(o)
                }
            }
            _ => {}
        }
        front.push(i);
    }
    let behind = if r.chance(1, 3) { front.split_off(r.idx(front.len() + 1)) } else { vec![] };
    front.append(v);
    front.extend(behind);
    *v = front;
}

fn c07(cx: &mut Ctx, r: &mut Rng) {
    let kind = [0, 0, 0, 1, 1][r.idx(5)];
    let v = gen::valid(r, &gen::Opts { kind: Some(kind), signed: true, max_inputs: 5 });
    let mut m = v.tx;
    let pool = keys::pool();
    // sometimes an arbitrary transaction instead, with owners and witnesses that may match
    if r.chance(1, 6) {
        m = gen::arb_exec(r);
        m = small(r, m);
        let nw = m.wits().len().max(1) as u64;
        if let Some(l) = m.ins_mut() {
            for i in l.iter_mut() {
                if r.chance(2, 3) {
                    i.set_wit(r.below(nw + 1) as u8);
                    i.set_authority(r.pick(pool).owner);
                }
                if let Some(p) = i.pred() {
                    if r.chance(2, 3) {
                        let a = code_root(p);
                        i.set_authority(a);
                    }
                }
            }
        }
        gen::sign_all(&mut m, &pool[..pool.len() / 2]);
        cx.hit("arbitrary");
    }
    if r.chance(1, 120) {
        many_in_front(r, &mut m, true);
        gen::sign_all(&mut m, &v.keys);
        cx.hit("many inputs");
    }
    let n = [0, 1, 1, 1, 2, 3][r.idx(6)];
    for _ in 0..n {
        let what = tamper(r, &mut m, pool);
        if !what.is_empty() {
            cx.hit(format!("tamper: {what}"));
        }
        if r.chance(1, 12) {
            gen::echo(r, &mut m);
            cx.hit("coinciding fields");
        }
        // sometimes sign again what is left, so the id matches the tampered content
        if r.chance(1, 6) {
            gen::sign_all(&mut m, &v.keys);
            cx.hit("resigned");
        }
    }
    let id = m.id();
    let bad = refs::unauthorised(&m, &id);
    cx.hit(if bad.is_empty() { "authorised" } else { "unauthorised" });
    for (_, u) in &bad {
        cx.hit(format!("bad: {u:?}"));
    }
    for i in m.ins() {
        cx.hit(format!("input {}", i.kind()));
    }
    let mut sh = gen::shape(&m).to_le_bytes().to_vec();
    bad.iter().for_each(|b| sh.extend([b.0 as u8, b.1 as u8]));
    cx.shape(crate::rng::fnv(&sh));
    by_kind!(&m, check_exec(cx, r, &m, &bad, &id));
    // the whole check is the structural check and the signature check
    let mut p = v.params;
    if r.chance(1, 4) {
        p.max_gas_per_tx = r.below(p.max_gas_per_tx + 1);
    }
    let viol = refs::violations(&m, v.height, &p);
    let t = r_tx(&m);
    match t.check(v.height, &p) {
        Ok(()) => {
            cx.ck(viol.is_empty() && bad.is_empty(), || format!("check accepted; rules broken {}, unauthorised {bad:?}", short(&viol)));
        }
        Err(e) => {
            let ok = if viol.is_empty() { kind_of(&e).map_or(false, |n| bad.contains(&n)) } else { viol.contains(&e) };
            cx.ck(ok, || format!("check reported {e:?}; rules broken {}, unauthorised {bad:?}", short(&viol)));
        }
    }
    // Input::check joins the two for one input
    if viol.is_empty() {
        for (k, i) in r_ins(m.ins()).iter().enumerate() {
            let mine: Vec<_> = bad.iter().filter(|x| x.0 == k).cloned().collect();
            judge(cx, "Input::check", i.check(k, &Bytes32::from(id), &r_outs(m.outs()), &r_wits(m.wits()), &p), &mine);
        }
    }
    if r.chance(1, 16) {
        let Tx::Mint(mm) = gen::arb_tx_kind(r, 2) else { return };
        let t = r_mint(&mm);
        cx.ck(t.check_signatures().is_ok(), || "mint signature check failed".into());
        cx.ck(Transaction::from(t).check_signatures().is_ok(), || "mint signature check failed".into());
        cx.hit("mint");
    }
    cx.sample(|| format!("{} unauthorised={bad:?}", gen::describe(&m)));
}

/// keep point multiplications affordable
fn small(r: &mut Rng, mut m: Tx) -> Tx {
    let n = 1 + r.idx(8);
    if let Some(l) = m.ins_mut() {
        l.truncate(n);
        for i in l.iter_mut() {
            if let In::CoinPred { pred, .. } | In::MsgPred { pred, .. } = i {
                pred.truncate(80);
            }
        }
    }
    m
}

// ---------------------------------------------------------------- C08

fn sign_exec<T: Ex>(cx: &mut Ctx, r: &mut Rng, m: &Tx, chosen: &[keys::Key]) {
    let mut t = T::real(m);
    if r.chance(1, 3) {
        t.precompute();
        cx.hit("cached_before");
    }
    let id = m.id();
    let mut model = m.clone();
    let mut seq: Vec<usize> = (0..chosen.len()).collect();
    r.shuffle(&mut seq);
    for _ in 0..r.idx(2) {
        if !seq.is_empty() {
            let x = *r.pick(&seq);
            let p = r.idx(seq.len() + 1);
            seq.insert(p, x);
        }
    }
    for &ki in &seq {
        let k = &chosen[ki];
        t.sign_inputs(&secret(k));
        cx.hit("signings");
        let mine: Vec<usize> = model.ins().iter().filter(|i| i.wit().is_some() && i.authority() == Some(k.owner)).map(|i| i.wit().unwrap() as usize).collect();
        let now = t.model();
        cx.eq("id after signing", *t.id(), id);
        for (w, (a, b)) in model.wits().iter().zip(now.wits()).enumerate() {
            if mine.contains(&w) {
                cx.ck(b.len() == 64 && keys::recover_owner(b, &id) == Some(k.owner), || {
                    format!("witness {w} of an input of the signing key holds {} which is no signature of the key", hex(b))
                });
                cx.hit("witnesses_signed");
            } else {
                cx.ck(a == b, || format!("witness {w} belongs to no input of the signing key but changed from {} to {}", hex(a), hex(b)));
                cx.hit("witnesses_left");
            }
        }
        cx.eq("witness count after signing", now.wits().len(), model.wits().len());
        let mut x = now.clone();
        *x.wits_mut().unwrap() = model.wits().to_vec();
        cx.ck(x == model, || "signing changed something other than witnesses".into());
        model = now;
    }
    // all owners known, every witness exists and serves one owner: authorised
    let mut owner_of: std::collections::BTreeMap<u8, B32> = Default::default();
    let mut fine = true;
    for i in model.ins() {
        if let (Some(w), Some(a)) = (i.wit(), i.authority()) {
            fine &= (w as usize) < model.wits().len();
            fine &= *owner_of.entry(w).or_insert(a) == a;
            fine &= chosen.iter().any(|k| k.owner == a);
        }
        if let (Some(p), Some(a)) = (i.pred(), i.authority()) {
            fine &= code_root(p) == a;
        }
    }
    let got = t.check_signatures();
    if fine {
        cx.hit("fully_signed");
        cx.ck(got.is_ok(), || format!("signed by every owner, yet {got:?}"));
    }
    cx.eq("signature check agrees with the reference", got.is_ok(), refs::unauthorised(&model, &id).is_empty());
    t.precompute();
    cx.eq("signature check after recomputing the cache", t.check_signatures().is_ok(), got.is_ok());
}

fn c08(cx: &mut Ctx, r: &mut Rng) {
    let pool = keys::pool();
    let nk = 1 + r.idx(3);
    let s = r.idx(pool.len());
    let mut ks: Vec<keys::Key> = (0..nk).map(|i| pool[(s + i) % pool.len()].clone()).collect();
    let mut m = if r.chance(1, 2) {
        let kind = r.below(2);
        let v = gen::valid(r, &gen::Opts { kind: Some(kind), signed: false, max_inputs: 6 });
        ks = v.keys;
        v.tx
    } else {
        let x = gen::arb_exec(r);
        small(r, x)
    };
    if r.chance(3, 4) {
        let nw = m.wits().len() as u64;
        let shared = r.chance(1, 2);
        let mut next = 0u8;
        let oob = r.chance(1, 4);
        let mut interleave = 0usize;
        let ks2 = ks.clone();
        let n_in = m.ins().len();
        let mut used = 0;
        if let Some(l) = m.ins_mut() {
            for i in l.iter_mut() {
                if i.wit().is_some() {
                    // owners alternate or are random, so equal indices need not be adjacent
                    let k = if shared { &ks2[r.idx(ks2.len())] } else { &ks2[interleave % ks2.len()] };
                    interleave += 1;
                    if r.chance(7, 8) {
                        i.set_authority(k.owner);
                    }
                    let w = if shared {
                        r.below(nw.max(1) + oob as u64 * 2) as u8
                    } else {
                        next
                    };
                    next = next.wrapping_add(1);
                    i.set_wit(w);
                    used += 1;
                }
            }
        }
        if !shared {
            let ws = m.wits_mut().unwrap();
            while ws.len() < used {
                ws.push(gen::bytes(r));
            }
        }
        let _ = n_in;
    }
    if r.chance(1, 120) {
        many_in_front(r, &mut m, false);
        cx.hit("many inputs");
    }
    let mut chosen = ks.clone();
    if r.chance(1, 4) {
        chosen.push(r.pick(pool).clone());
    }
    if r.chance(1, 6) {
        chosen.truncate(1);
    }
    if r.chance(1, 4) {
        // keys named elsewhere than as owners
        let k = r.pick(&chosen).clone();
        if r.chance(1, 3) {
            gen::plant_b32(r, &mut m, &k.owner);
        } else if let Some(l) = m.ins_mut() {
            for i in l.iter_mut() {
                if r.chance(1, 2) {
                    gen::plant_beside(r, i, &k.owner);
                }
            }
        }
        cx.hit("keys named in other fields");
    }
    if r.chance(1, 5) {
        // owners that differ from a signing key's in a single bit
        let k = r.pick(&chosen).clone();
        if let Some(l) = m.ins_mut() {
            for i in l.iter_mut().filter(|i| i.wit().is_some()) {
                if r.chance(1, 3) {
                    let mut o = k.owner;
                    o[[0, 31, r.idx(32)][r.idx(3)]] ^= 1 << r.below(8);
                    i.set_authority(o);
                }
            }
        }
        cx.hit("owners one bit off");
    }
    if r.chance(1, 4) {
        // witnesses that hold a signature already: right, of another transaction, or one bit off
        let mut t = m.clone();
        if r.chance(1, 4) {
            t.set_common(Some(r.word()), None, None);
        }
        gen::sign_all(&mut t, &chosen);
        for (w, signed) in m.wits_mut().unwrap().iter_mut().zip(t.wits()) {
            if signed.len() == 64 && r.chance(3, 4) {
                *w = signed.clone();
                if r.chance(1, 2) {
                    w[[0, 31, 32, 63, r.idx(64)][r.idx(5)]] ^= 1 << r.below(8);
                }
            }
        }
        cx.hit("witnesses hold signatures before");
    }
    let mut sh = gen::shape(&m).to_le_bytes().to_vec();
    for i in m.ins() {
        sh.push(i.wit().unwrap_or(255));
        sh.push(chosen.iter().position(|k| Some(k.owner) == i.authority()).unwrap_or(99) as u8);
    }
    cx.shape(crate::rng::fnv(&sh));
    by_kind!(&m, sign_exec(cx, r, &m, &chosen));
    // the owner of a key is the hash of its public key
    let k = r.pick(pool);
    let pk = secret(k).public_key();
    cx.eq("owner of a public key", *Input::owner(&pk), k.owner);
    cx.sample(|| gen::describe(&m));
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            quick: 150_000,
            thorough: 9_000_000,
            run: c05,
            req: &[("id_script", 500), ("id_create", 500), ("id_mint", 500), ("json_round_trips", 500)],
            rule: "every id computed by the crate (bare, wrapped, cached, cloned, signed, decoded, from JSON) equals SHA-256 of the reference encoder's bytes of the reference signing form",
            assume: &["sha2 computes SHA-256"],
        },
        Prop {
            id: "C06",
            quick: 300_000,
            thorough: 18_000_000,
            run: c06,
            req: &[("binding_changes", 5_000), ("malleable_changes", 2_000), ("combined_changes", 1_000)],
            rule: "the id of the transaction before and after one change (or several) differs if and only if the table of committed fields says the change is binding",
            assume: &["no SHA-256 collision occurs"],
        },
        Prop {
            id: "C07",
            quick: 60_000,
            thorough: 3_600_000,
            run: c07,
            req: &[("authorised", 500), ("unauthorised", 500), ("bad: Bounds", 50), ("bad: Signature", 200), ("bad: Predicate", 100), ("mint", 50), ("many inputs", 100)],
            rule: "the verdict of every signature check equals the reference (libsecp256k1 recovery over the reference id, reference code roots), and an error names an input and a reason in the reference's list",
            assume: &["libsecp256k1 recovers public keys correctly (the crate reaches it through fuel-crypto, the oracle directly)"],
        },
        Prop {
            id: "C08",
            quick: 30_000,
            thorough: 1_800_000,
            run: c08,
            req: &[("signings", 2_000), ("witnesses_signed", 1_000), ("witnesses_left", 1_000), ("fully_signed", 500), ("cached_before", 500), ("many inputs", 60)],
            rule: "before/after snapshots of the whole transaction around every sign_inputs: only the key's witnesses change, each recovers to the key over the reference id",
            assume: &["libsecp256k1 recovers public keys correctly"],
        },
    ]
}
