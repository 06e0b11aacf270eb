//! C21: what the builder finalises.

use crate::conv::*;
use crate::ex::Ex;
use crate::gen;
use crate::keys::{self, Key};
use crate::m_id::secret;
use crate::m_misc::{first_diff, trim, Kind};
use crate::model::*;
use crate::refs;
use crate::rng::Rng;
use crate::stats::{hex, short, Ctx};
use crate::Prop;
use fuel_tx::{Buildable, Cacheable, CheckError, Checked, ConsensusParameters, Create, IntoChecked, Mint, Script, Transaction, TransactionBuilder, UniqueIdentifier, Witness};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the builder is asked for, in order.
#[derive(Clone, Debug)]
enum Op {
    Price(u64),
    Limit(u64),
    Maturity(u64),
    /// signed input of a key: added unsigned
    Unsigned(In, Key),
    Input(In),
    Output(Out),
    Witness(Vec<u8>),
    PrepScript(bool),
    PrepPredicate(bool),
}

pub trait Built: Ex + Kind + Buildable
where
    <Self as IntoChecked>::Metadata: PartialEq + std::fmt::Debug,
{
    fn start(m: &Tx) -> (TransactionBuilder<Self>, Tx, bool);
    fn fin(b: &mut TransactionBuilder<Self>) -> Self;
    fn fin_tx(b: &mut TransactionBuilder<Self>) -> Transaction;
    fn fin_plain(b: &mut TransactionBuilder<Self>) -> Self;
    fn fin_plain_tx(b: &mut TransactionBuilder<Self>) -> Transaction;
    fn fin_checked(b: &mut TransactionBuilder<Self>, h: u64, p: &ConsensusParameters) -> Checked<Self>;
    fn fin_basic(b: &mut TransactionBuilder<Self>, h: u64, p: &ConsensusParameters) -> Checked<Self>;
}

macro_rules! built {
    ($t:ty, $start:expr) => {
        impl Built for $t {
            fn start(m: &Tx) -> (TransactionBuilder<Self>, Tx, bool) {
                ($start)(m)
            }
            fn fin(b: &mut TransactionBuilder<Self>) -> Self {
                b.finalize()
            }
            fn fin_tx(b: &mut TransactionBuilder<Self>) -> Transaction {
                b.finalize_as_transaction()
            }
            fn fin_plain(b: &mut TransactionBuilder<Self>) -> Self {
                b.finalize_without_signature()
            }
            fn fin_plain_tx(b: &mut TransactionBuilder<Self>) -> Transaction {
                b.finalize_without_signature_as_transaction()
            }
            fn fin_checked(b: &mut TransactionBuilder<Self>, h: u64, p: &ConsensusParameters) -> Checked<Self> {
                b.finalize_checked(h, p)
            }
            fn fin_basic(b: &mut TransactionBuilder<Self>, h: u64, p: &ConsensusParameters) -> Checked<Self> {
                b.finalize_checked_basic(h, p)
            }
        }
    };
}
built!(Script, |m: &Tx| match m {
    Tx::Script(s) => {
        let b = TransactionBuilder::script(s.script.clone(), s.data.clone());
        let start = MScript { gas_price: 0, gas_limit: 0, maturity: 0, receipts_root: ZERO, script: s.script.clone(), data: s.data.clone(), ins: vec![], outs: vec![], wits: vec![] };
        (b, Tx::Script(start), true)
    }
    _ => panic!("kind"),
});
built!(Create, |m: &Tx| match m {
    Tx::Create(c) => {
        let code = c.wits.get(c.bytecode_wit as usize).cloned().unwrap_or_default();
        let b = TransactionBuilder::create(Witness::from(code.clone()), c.salt.into(), c.slots.iter().map(r_slot).collect());
        let start = MCreate {
            gas_price: 0,
            gas_limit: 0,
            maturity: 0,
            bytecode_len: (code.len() / 4) as u64,
            bytecode_wit: 0,
            salt: c.salt,
            slots: c.slots.clone(),
            ins: vec![],
            outs: vec![],
            wits: vec![code],
        };
        (b, Tx::Create(start), false)
    }
    _ => panic!("kind"),
});

/// Plan a sequence of builder calls that describes (roughly) `m`.
fn plan(r: &mut Rng, m: &Tx, ks: &[Key]) -> Vec<Op> {
    let mut ops: Vec<Op> = Vec::new();
    for i in m.ins() {
        let k = ks.iter().find(|k| i.wit().is_some() && i.authority() == Some(k.owner));
        match k {
            Some(k) => ops.push(Op::Unsigned(i.clone(), k.clone())),
            None => ops.push(Op::Input(i.clone())),
        }
    }
    // outputs in order, merged at random places
    let merge = |r: &mut Rng, ops: &mut Vec<Op>, list: Vec<Op>| {
        let mut at = 0;
        for o in list {
            at += r.idx(ops.len() - at + 1);
            ops.insert(at, o);
            at += 1;
        }
    };
    let outs = m.outs().iter().cloned().map(Op::Output).collect();
    merge(r, &mut ops, outs);
    let nw = if r.chance(1, 60) { 100 + r.idx(120) } else { r.idx(3) };
    let wits = (0..nw)
        .map(|_| {
            let mut w = gen::bytes(r);
            if nw > 3 {
                w.truncate(20)
            }
            Op::Witness(w)
        })
        .collect();
    merge(r, &mut ops, wits);
    let mut sets = vec![Op::Price(m.gas_price()), Op::Limit(m.gas_limit()), Op::Maturity(m.maturity())];
    if r.chance(1, 4) {
        sets.insert(0, Op::Price(r.word()));
        sets.insert(0, Op::Maturity(r.word()));
        sets.insert(0, Op::Limit(r.word()));
    }
    if r.chance(1, 2) {
        for _ in 0..1 + r.idx(2) {
            sets.push(Op::PrepScript(r.chance(1, 2)));
        }
    }
    if r.chance(1, 3) {
        for _ in 0..1 + r.idx(2) {
            sets.push(Op::PrepPredicate(r.chance(1, 2)));
        }
    }
    merge(r, &mut ops, sets);
    ops
}

struct Plan {
    want: Tx,
    prep: (bool, bool),
    /// (input, witness, key) of inputs added unsigned
    fresh: Vec<(usize, usize, Key)>,
    keys: Vec<Key>,
}

/// Feed the calls to the builder and to the model.
fn apply<T: Built>(cx: &mut Ctx, b: &mut TransactionBuilder<T>, mut want: Tx, (mut prep_script, mut prep_pred): (bool, bool), mut signers: Vec<Key>, ops: &[Op]) -> Plan
where
    <T as IntoChecked>::Metadata: PartialEq + std::fmt::Debug,
{
    let mut fresh = Vec::new();
    for op in ops {
        match op.clone() {
            Op::Price(x) => {
                b.gas_price(x);
                want.set_common(Some(x), None, None)
            }
            Op::Limit(x) => {
                b.gas_limit(x);
                want.set_common(None, Some(x), None)
            }
            Op::Maturity(x) => {
                b.maturity(x);
                want.set_common(None, None, Some(x))
            }
            Op::Unsigned(mut i, k) => {
                match i.clone() {
                    In::CoinSigned { utxo, amount, asset, txp, maturity, .. } => {
                        b.add_unsigned_coin_input(secret(&k), r_utxo(&utxo), amount, asset.into(), r_txp(&txp), maturity);
                    }
                    In::MsgSigned { sender, amount, nonce, data, .. } => {
                        b.add_unsigned_message_input(secret(&k), sender.into(), nonce, amount, data);
                    }
                    _ => panic!("not a signed input"),
                }
                let w = want.wits().len();
                if let In::MsgSigned { mid, sender, rcpt, amount, nonce, data, .. } = &mut i {
                    *rcpt = k.owner;
                    *mid = message_id_in(sender, rcpt, *nonce, *amount, data);
                }
                i.set_authority(k.owner);
                i.set_wit(w as u8);
                fresh.push((want.ins().len(), w, k.clone()));
                signers.push(k);
                want.wits_mut().expect("wits").push(vec![]);
                want.ins_mut().expect("ins").push(i);
                cx.hit("unsigned_inputs");
            }
            Op::Input(i) => {
                b.add_input(r_in(&i));
                want.ins_mut().expect("ins").push(i);
            }
            Op::Output(o) => {
                b.add_output(r_out(&o));
                want.outs_mut().push(o);
            }
            Op::Witness(w) => {
                b.add_witness(Witness::from(w.clone()));
                want.wits_mut().expect("wits").push(w);
            }
            Op::PrepScript(x) => {
                b.prepare_script(x);
                prep_script = x
            }
            Op::PrepPredicate(x) => {
                b.prepare_predicate(x);
                prep_pred = x
            }
        }
    }
    // what it shows while building
    cx.ck(b.inputs().iter().map(m_in).eq(want.ins().iter().cloned()), || "inputs() while building".into());
    cx.ck(b.outputs().iter().map(m_out).eq(want.outs().iter().cloned()), || "outputs() while building".into());
    cx.ck(b.witnesses().iter().map(|w| w.as_vec().clone()).eq(want.wits().iter().cloned()), || "witnesses() while building".into());
    cx.ck(b.sign_keys().iter().map(|k| k.as_ref().to_vec()).eq(signers.iter().map(|k| k.secret.to_vec())), || "sign_keys()".into());
    if prep_pred {
        if let Some(v) = want.ins_mut() {
            v.iter_mut().for_each(In::strip)
        }
        want.outs_mut().iter_mut().for_each(Out::strip);
        cx.hit("prepared_predicate");
    }
    if prep_script {
        want.outs_mut().iter_mut().for_each(Out::strip_script);
        cx.hit("prepared_script");
    }
    Plan { want, prep: (prep_script, prep_pred), fresh, keys: signers }
}

/// Compare a finalised transaction with the described one.
fn same<T: Built>(cx: &mut Ctx, what: &str, got: &T, p: &Plan, signed: bool, h: u64, cp: &ConsensusParameters)
where
    <T as IntoChecked>::Metadata: PartialEq + std::fmt::Debug,
{
    let id = p.want.id();
    let m = got.model();
    let mut masked = m.clone();
    for (i, w, k) in &p.fresh {
        cx.eq(&format!("{what}: witness index of unsigned input {i}"), m.ins().get(*i).and_then(|x| x.wit()).map(|x| x as usize), Some(*w));
        let sig = m.wits().get(*w).cloned().unwrap_or_default();
        if signed {
            cx.ck(keys::recover_owner(&sig, &id) == Some(k.owner), || format!("{what}: witness {w} of input {i} is no signature of its key over the id: {}", hex(&sig)));
            cx.hit("signatures");
        } else {
            cx.ck(sig.is_empty(), || format!("{what}: witness {w} of input {i} is {} without signatures", hex(&sig)));
            cx.hit("empty_signatures");
        }
        if let Some(v) = masked.wits_mut() {
            if let Some(x) = v.get_mut(*w) {
                x.clear()
            }
        }
    }
    if signed {
        // other inputs of the same keys are signed as well
        for i in p.want.ins() {
            if let (Some(w), Some(a)) = (i.wit(), i.authority()) {
                let w = w as usize;
                if p.keys.iter().any(|k| k.owner == a) && !p.fresh.iter().any(|f| f.1 == w) {
                    if let Some(sig) = m.wits().get(w) {
                        cx.ck(keys::recover_owner(sig, &id) == Some(a), || format!("{what}: witness {w} of another input of the same key is not signed"));
                        cx.hit("other_inputs_of_the_key");
                    }
                    if let (Some(v), Some(x)) = (masked.wits_mut(), p.want.wits().get(w)) {
                        if let Some(y) = v.get_mut(w) {
                            *y = x.clone()
                        }
                    }
                }
            }
        }
    }
    cx.ck(masked == p.want, || format!("{what}: {}", first_diff(&masked, &p.want)));
    cx.ck(got.is_computed(), || format!("{what}: no cached data"));
    cx.eq(&format!("{what}: id"), *got.id(), id);
    // the cache is current
    let fresh = <T as Kind>::real(&m);
    let (a, b) = (got.answers(h, cp), fresh.answers(h, cp));
    if let Some((x, y)) = a.iter().zip(&b).find(|(x, y)| x != y) {
        cx.fail(format!("{what}: cached answer {}: {} against {}", x.0, short(&x.1), short(&y.1)));
    }
    cx.ck(*got == fresh, || format!("{what}: not equal to the transaction constructed directly"));
    cx.hit("finalised");
}

fn checked_same<T: Built>(cx: &mut Ctx, what: &str, got: Option<Checked<T>>, want: Result<Checked<T>, CheckError>, p: &Plan)
where
    <T as IntoChecked>::Metadata: PartialEq + std::fmt::Debug,
{
    match (got, want) {
        (Some(g), Ok(w)) => {
            // signatures may be randomised; the rest must agree
            let (mut a, mut b) = (g.transaction().model(), w.transaction().model());
            for (_, k, _) in &p.fresh {
                for m in [&mut a, &mut b] {
                    if let Some(x) = m.wits_mut().and_then(|v| v.get_mut(*k)) {
                        cx.ck(x.len() == 64, || format!("{what}: unsigned witness {k}"));
                        x.clear()
                    }
                }
            }
            cx.ck(a == b, || format!("{what}: {}", first_diff(&a, &b)));
            cx.ck(g.metadata() == w.metadata(), || format!("{what}: metadata {} against {}", short(g.metadata()), short(w.metadata())));
            cx.eq(&format!("{what}: checks"), g.checks(), w.checks());
            cx.ck(g.transaction().is_computed(), || format!("{what}: no cached data"));
            cx.eq(&format!("{what}: id"), *g.transaction().id(), p.want.id());
            cx.hit("checked_accepted");
        }
        (None, Err(_)) => cx.hit("checked_refused"),
        (Some(_), Err(e)) => cx.fail(format!("{what} returned a checked transaction although checking it gives {e:?}")),
        (None, Ok(_)) => cx.fail(format!("{what} panicked although checking the finalised transaction succeeds")),
    }
}

fn build<T: Built>(cx: &mut Ctx, r: &mut Rng, m: &Tx, ks: &[Key], h: u64, cp: &ConsensusParameters)
where
    <T as IntoChecked>::Metadata: PartialEq + std::fmt::Debug,
{
    let ops = plan(r, m, ks);
    let (mut b, start, prep) = T::start(m);
    let p = apply(cx, &mut b, start, (prep, false), vec![], &ops);
    if p.want.wits().len() > 250 {
        return;
    }
    let t = T::fin(&mut b.clone());
    same(cx, "finalize", &t, &p, true, h, cp);
    // every owner known: the signature check passes
    let known = refs::unauthorised(&t.model(), &p.want.id());
    let others: Vec<usize> = known.iter().map(|x| x.0).filter(|i| p.fresh.iter().any(|f| f.0 == *i)).collect();
    cx.ck(others.is_empty(), || format!("inputs {others:?} added unsigned are not authorised"));
    cx.eq("signature check of the finalised transaction", t.check_signatures().is_ok(), known.is_empty());
    if known.is_empty() {
        cx.hit("all_authorised");
    }
    let u = T::fin_plain(&mut b.clone());
    same(cx, "finalize_without_signature", &u, &p, false, h, cp);
    for (what, tx, signed) in [("finalize_as_transaction", T::fin_tx(&mut b.clone()), true), ("finalize_without_signature_as_transaction", T::fin_plain_tx(&mut b.clone()), false)] {
        cx.ck(tx.is_computed(), || format!("{what}: no cached data"));
        match <T as Kind>::from_tx(tx) {
            Some(x) => same(cx, what, &x, &p, signed, h, cp),
            None => cx.fail(format!("{what}: another kind")),
        }
    }
    // the checked finalisers
    let fin = T::fin(&mut b.clone());
    let want = fin.clone().into_checked(h, cp);
    let got = catch_unwind(AssertUnwindSafe(|| T::fin_checked(&mut b.clone(), h, cp))).ok();
    checked_same(cx, "finalize_checked", got, want, &p);
    let want = fin.into_checked_basic(h, cp);
    let got = catch_unwind(AssertUnwindSafe(|| T::fin_basic(&mut b.clone(), h, cp))).ok();
    checked_same(cx, "finalize_checked_basic", got, want, &p);
    // a builder that has finalised starts over: the default transaction, the same keys and preparation
    if m.ins().len() + m.outs().len() + m.wits().len() < 20 && p.keys.len() < 8 && r.chance(1, 2) {
        let mut p = p;
        for _ in 0..1 + r.idx(2) {
            match r.below(4) {
                0 => drop(T::fin(&mut b)),
                1 => drop(T::fin_tx(&mut b)),
                2 => drop(T::fin_plain(&mut b)),
                _ => drop(T::fin_plain_tx(&mut b)),
            }
            let mut ops = plan(r, m, ks);
            if r.chance(1, 2) {
                ops.retain(|o| !matches!(o, Op::PrepScript(_) | Op::PrepPredicate(_)));
            }
            p = apply(cx, &mut b, T::default().model(), p.prep, p.keys, &ops);
        }
        if p.want.wits().len() > 250 {
            return;
        }
        let (t, signed) = if r.chance(2, 3) { (T::fin(&mut b), true) } else { (T::fin_plain(&mut b), false) };
        same(cx, "finalize of a builder used again", &t, &p, signed, h, cp);
        cx.hit("builder_used_again");
    }
}

fn c21(cx: &mut Ctx, r: &mut Rng) {
    let kind = [0, 0, 0, 1, 1, 1, 2][r.idx(7)];
    cx.hit(format!("kind.{kind}"));
    if kind == 2 {
        return mint(cx, r);
    }
    let (mut m, h, p, ks) = if r.chance(3, 5) {
        let v = gen::valid(r, &gen::Opts { kind: Some(kind), signed: false, max_inputs: 5 });
        (v.tx, v.height, v.params, v.keys)
    } else {
        let mut m = gen::arb_tx_kind(r, kind);
        trim(&mut m, 8, 200);
        let pool = keys::pool();
        let ks: Vec<Key> = (0..1 + r.idx(3)).map(|_| r.pick(pool).clone()).collect();
        if let Some(v) = m.ins_mut() {
            for i in v {
                if i.wit().is_some() && r.chance(3, 4) {
                    let k = r.pick(&ks).owner;
                    i.set_authority(k);
                }
            }
        }
        (m, r.word(), gen::arb_params(r), ks)
    };
    trim(&mut m, 60, 2000);
    let mut ks = ks;
    if r.chance(1, 100) {
        // many keys
        let pool = keys::pool();
        let n = 5 + r.idx(60);
        ks = (0..n).map(|_| r.pick(pool).clone()).collect();
        for k in &ks {
            let kind = [0, 3][r.idx(2)];
            let mut i = gen::arb_in_kind(r, kind);
            if let In::MsgSigned { data, .. } = &mut i {
                data.truncate(30)
            }
            i.set_authority(k.owner);
            m.ins_mut().unwrap().push(i);
        }
        cx.hit("many_keys");
    }
    if r.chance(1, 150) {
        gen::crowd(r, &mut m);
        cx.hit("many_elements");
    }
    cx.shape(gen::shape(&m));
    cx.sample(|| gen::describe(&m));
    // sometimes leave a key out, so that its inputs are added as they are
    if ks.len() > 1 && r.chance(1, 4) {
        ks.pop();
    }
    // inputs of absent keys must not point at fresh witnesses of other keys: give them far indices
    if let Some(v) = m.ins_mut() {
        for i in v.iter_mut() {
            if i.wit().is_some() && !ks.iter().any(|k| i.authority() == Some(k.owner)) {
                let w = 252 + r.below(4) as u8;
                i.set_wit(w)
            }
        }
    }
    match &m {
        Tx::Script(_) => build::<Script>(cx, r, &m, &ks, h, &p),
        _ => build::<Create>(cx, r, &m, &ks, h, &p),
    }
    // an input of a builder key added by hand next to the unsigned ones
    if r.chance(1, 4) && !ks.is_empty() {
        let k = ks[0].clone();
        let kind = if r.chance(1, 2) { 0 } else { 3 };
        let mut x = gen::arb_in_kind(r, kind);
        x.set_authority(k.owner);
        by_hand(cx, r, &m, &k, x, h, &p);
    }
}

/// the same key owns an input that was added together with its own witness
fn by_hand(cx: &mut Ctx, r: &mut Rng, m: &Tx, k: &Key, x: In, h: u64, cp: &ConsensusParameters) {
    fn go<T: Built>(cx: &mut Ctx, r: &mut Rng, m: &Tx, k: &Key, mut x: In, h: u64, cp: &ConsensusParameters)
    where
        <T as IntoChecked>::Metadata: PartialEq + std::fmt::Debug,
    {
        let (mut b, start, prep) = T::start(m);
        let w = start.wits().len();
        x.set_wit(w as u8);
        let mut ops = vec![Op::Witness(gen::bytes(r)), Op::Input(x)];
        let mut y = gen::arb_in_kind(r, 0);
        y.set_authority(k.owner);
        let at = r.idx(2) * 2;
        if at == 0 {
            // keep the witness index of the first one right
            if let Op::Input(i) = &mut ops[1] {
                i.set_wit(w as u8 + 1)
            }
        }
        ops.insert(at, Op::Unsigned(y, k.clone()));
        let p = apply(cx, &mut b, start, (prep, false), vec![], &ops);
        let t = T::fin(&mut b);
        same(cx, "finalize with a hand-made input", &t, &p, true, h, cp);
    }
    match m {
        Tx::Script(_) => go::<Script>(cx, r, m, k, x, h, cp),
        Tx::Create(_) => go::<Create>(cx, r, m, k, x, h, cp),
        Tx::Mint(_) => {}
    }
}

fn mint(cx: &mut Ctx, r: &mut Rng) {
    let valid = r.chance(1, 2);
    let (m, h, p) = if valid {
        let v = gen::valid(r, &gen::Opts { kind: Some(2), signed: false, max_inputs: 0 });
        (v.tx, v.height, v.params)
    } else {
        let mut m = gen::arb_tx_kind(r, 2);
        trim(&mut m, 40, 100);
        (m, r.below(1 << 32), gen::arb_params(r))
    };
    cx.shape(gen::shape(&m));
    let (txp, outs) = match &m {
        Tx::Mint(x) => (x.txp, x.outs.clone()),
        _ => return,
    };
    let mut b = TransactionBuilder::mint(txp.height, txp.index);
    for o in &outs {
        b.add_output(r_out(o));
    }
    let want = <Mint as Kind>::real(&m);
    let all: [(&str, Mint); 2] = [("mint finalize", b.clone().finalize()), ("mint finalize_without_signature", b.clone().finalize_without_signature())];
    for (what, t) in all {
        cx.ck(t == want && Tx::Mint(m_mint(&t)) == m, || format!("{what}: {}", short(&t)));
        cx.ck(t.is_computed(), || format!("{what}: no cached data"));
        let (x, y) = (t.answers(h, &p), want.answers(h, &p));
        cx.ck(x == y, || format!("{what}: cached answers differ"));
        cx.eq(what, *t.id(), m.id());
        cx.hit("finalised");
    }
    for (what, t) in [("mint finalize_as_transaction", b.clone().finalize_as_transaction()), ("mint finalize_without_signature_as_transaction", b.clone().finalize_without_signature_as_transaction())] {
        cx.ck(t.is_computed() && m_tx(&t) == m && *t.id() == m.id(), || format!("{what}: {}", short(&t)));
    }
    for full in [true, false] {
        let got = catch_unwind(AssertUnwindSafe(|| if full { b.clone().finalize_checked(h, &p) } else { b.clone().finalize_checked_basic(h, &p) })).ok();
        let want = if full { want.clone().into_checked(h, &p) } else { want.clone().into_checked_basic(h, &p) };
        match (got, want) {
            (Some(g), Ok(w)) => {
                cx.ck(g.transaction() == w.transaction() && g.checks() == w.checks() && g.transaction().is_computed(), || "checked mint differs".into());
                cx.hit("checked_accepted");
            }
            (None, Err(_)) => cx.hit("checked_refused"),
            (g, w) => cx.fail(format!("checked mint: finaliser {}, check {:?}", if g.is_some() { "returned" } else { "panicked" }, w.map(|_| ()))),
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        quick: 20_000,
        thorough: 1_200_000,
        run: c21,
        req: &[
            ("finalised", 4_000),
            ("signatures", 2_000),
            ("empty_signatures", 2_000),
            ("prepared_script", 500),
            ("prepared_predicate", 200),
            ("checked_accepted", 500),
            ("checked_refused", 500),
            ("all_authorised", 300),
            ("other_inputs_of_the_key", 50),
            ("kind.2", 200),
            ("builder_used_again", 1_000),
        ],
        rule: "each case sends a random interleaving of builder calls describing a generated transaction to the builder and to a model, finalises in all six ways, and compares every field, the fresh witnesses (recovering the signer with secp256k1 directly), the cached answers and the checked forms; distinct = distinct transaction shapes",
        assume: &["fewer than 256 witnesses", "no witness of an unsigned input is shared with an input of another key"],
    }]
}
