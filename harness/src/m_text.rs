//! C18 text forms, C19 JSON and serde.

use crate::conv::*;
use crate::ex::hash_of;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::stats::{hex, short, Ctx};
use crate::Prop;
use fuel_tx::{
    Cacheable, CheckError, ConsensusParameters, Contract, Create, Input, Mint, Output, Receipt, Script, StorageSlot, Transaction, TransactionFee, TxPointer, UniqueIdentifier,
    UtxoId, Witness,
};
use fuel_types::bytes::SerializableVec;
use std::fmt::Debug;

// ---------------------------------------------------------------- C18

const ALPHABET: &[char] = &['0', '1', '9', 'a', 'f', 'A', 'F', 'x', 'X', '+', '-', ' ', 'g', '_', '\0', 'é', '\u{7ff}', '€', '𝄞', '٣', '０', '\u{301}'];

/// text near the parsers' limits
fn hostile_text(r: &mut Rng, seed: &str) -> String {
    match r.below(8) {
        // every character from the alphabet, any length around the interesting ones
        0 | 1 => {
            let n = match r.below(5) {
                0 => r.idx(4),
                1 => 10 + r.idx(5),
                2 => 60 + r.idx(10),
                _ => r.idx(80),
            };
            (0..n).map(|_| *r.pick(ALPHABET)).collect()
        }
        // exact byte length with one wide character somewhere
        2 | 3 => {
            let total = [12usize, 3, 4, 2, 66, 68, 65, 67][r.idx(8)];
            let wide = ['é', '€', '𝄞'][r.idx(3)];
            let rest = total.saturating_sub(wide.len_utf8());
            let at = r.idx(rest + 1);
            let mut s: String = (0..at).map(|_| char::from(*r.pick(b"0123456789abcdefABCDEF"))).collect();
            s.push(wide);
            s.extend((at..rest).map(|_| char::from(*r.pick(b"0123456789abcdefABCDEF"))));
            s
        }
        // edit a well-formed text
        _ => {
            let mut c: Vec<char> = seed.chars().collect();
            for _ in 0..1 + r.idx(3) {
                match r.below(5) {
                    0 if !c.is_empty() => {
                        let i = r.idx(c.len());
                        c[i] = *r.pick(ALPHABET)
                    }
                    1 if !c.is_empty() => {
                        let i = r.idx(c.len());
                        c.remove(i);
                    }
                    2 => {
                        let i = r.idx(c.len() + 1);
                        c.insert(i, *r.pick(ALPHABET))
                    }
                    3 => c.truncate(r.idx(c.len() + 1)),
                    _ => {
                        c.insert(0, 'x');
                        c.insert(0, '0')
                    }
                }
            }
            c.into_iter().collect()
        }
    }
}

fn c18(cx: &mut Ctx, r: &mut Rng) {
    // UTXO id
    let mu = gen::utxo(r);
    let u = r_utxo(&mu);
    let low = hex(&mu.tx) + &hex(&[mu.idx]);
    cx.eq("lower hexadecimal of a UTXO id", format!("{u:x}"), low.clone());
    cx.ck(format!("{u:X}").eq_ignore_ascii_case(&low), || format!("upper hexadecimal of a UTXO id: {u:X}"));
    cx.eq("prefixed lower hexadecimal of a UTXO id", format!("{u:#x}"), format!("0x{low}"));
    cx.ck(format!("{u:#X}").eq_ignore_ascii_case(&format!("0x{low}")), || format!("prefixed upper hexadecimal of a UTXO id: {u:#X}"));
    let forms = [format!("{u:x}"), format!("{u:#x}"), format!("{u:X}"), format!("{u:#X}"), low.clone(), format!("0x{low}"), low.to_ascii_uppercase(), format!("0x{}", low.to_ascii_uppercase())];
    for f in &forms {
        cx.eq(&format!("parsing the UTXO id text {f}"), f.parse::<UtxoId>(), Ok(u));
        cx.hit("utxo_round_trip");
    }
    // transaction pointer
    let mt = gen::txp(r);
    let t = r_txp(&mt);
    let low = hex(&mt.height.to_be_bytes()) + &hex(&mt.index.to_be_bytes());
    cx.eq("lower hexadecimal of a transaction pointer", format!("{t:x}"), low.clone());
    cx.eq("upper hexadecimal of a transaction pointer", format!("{t:X}"), low.to_ascii_uppercase());
    for f in [format!("{t:x}"), format!("{t:X}")] {
        cx.eq(&format!("parsing the transaction pointer text {f}"), f.parse::<TxPointer>(), Ok(t));
        cx.hit("txp_round_trip");
    }
    cx.shape(crate::rng::fnv(format!("{u:x}{t:x}").as_bytes()));
    cx.sample(|| format!("{u:#x} / {t:x}"));
    // short forms: the output index alone
    let i = mu.idx;
    let zero = fuel_tx::UtxoId::new(Default::default(), i);
    for f in [format!("{i:02x}"), format!("{i:02X}"), format!("0x{i:02x}"), format!("0x{i:02X}"), format!("{i:x}"), format!("0x{i:X}")] {
        cx.eq(&format!("parsing the short text {f}"), f.parse::<UtxoId>(), Ok(zero));
    }
    for f in ["", "0x"] {
        cx.eq("parsing the empty text", f.parse::<UtxoId>(), Ok(UtxoId::default()));
    }
    // arbitrary text: no panic, and whatever is accepted is itself representable
    for _ in 0..12 {
        let base = if r.chance(1, 2) { forms[r.idx(forms.len())].clone() } else { low.clone() };
        let s = hostile_text(r, &base);
        if s.len() != s.chars().count() {
            cx.hit("non_ascii");
        }
        match s.parse::<UtxoId>() {
            Ok(v) => {
                cx.hit("utxo_text_accepted");
                cx.eq("round trip of an accepted UTXO id", format!("{v:x}").parse::<UtxoId>(), Ok(v));
            }
            Err(_) => cx.hit("utxo_text_refused"),
        }
        match s.parse::<TxPointer>() {
            Ok(v) => {
                cx.hit("txp_text_accepted");
                cx.eq("round trip of an accepted transaction pointer", format!("{v:x}").parse::<TxPointer>(), Ok(v));
            }
            Err(_) => cx.hit("txp_text_refused"),
        }
    }
    // a whole text that names exactly one value must give that value: change one digit
    let mut d: Vec<u8> = forms[4].clone().into_bytes();
    let i = r.idx(d.len());
    let old = d[i];
    d[i] = *r.pick(b"0123456789abcdef");
    let same = d[i] == old;
    let s = String::from_utf8(d).expect("ascii");
    match s.parse::<UtxoId>() {
        Ok(v) => {
            cx.eq("digit-for-digit text of a UTXO id", format!("{v:x}"), s.clone());
            cx.ck(same == (v == u), || format!("text {s} and {u:x} give the same UTXO id"));
        }
        Err(e) => cx.fail(format!("well-formed text {s} refused: {e}")),
    }
}

// ---------------------------------------------------------------- C19

fn survives<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug>(cx: &mut Ctx, what: &str, v: &T, same: &dyn Fn(&T) -> bool) {
    match serde_json::to_string(v) {
        Err(e) => cx.fail(format!("{what} to JSON: {e}; value {}", short(v))),
        Ok(s) => match serde_json::from_str::<T>(&s) {
            Err(e) => cx.fail(format!("{what} from its JSON: {e}; value {}", short(v))),
            Ok(w) => {
                cx.ck(&w == v && same(&w), || format!("{what} changed through JSON: {} became {}", short(v), short(&w)));
            }
        },
    }
    // through a self-describing tree as well (field order does not matter there)
    match serde_json::to_value(v).map(|t| serde_json::to_string(&t).unwrap_or_default()).map(|s| serde_json::from_str::<T>(&s)) {
        Ok(Ok(w)) => {
            cx.ck(&w == v && same(&w), || format!("{what} changed through a JSON tree: {}", short(v)));
        }
        e => cx.fail(format!("{what} through a JSON tree: {}; value {}", short(&e.map(|x| x.map(|_| ()).map_err(|e| e.to_string())).map_err(|e| e.to_string())), short(v))),
    }
    match bincode::serialize(v) {
        Err(e) => cx.fail(format!("{what} to binary: {e}; value {}", short(v))),
        Ok(s) => match bincode::deserialize::<T>(&s) {
            Err(e) => cx.fail(format!("{what} from its binary form: {e}; value {}", short(v))),
            Ok(w) => {
                cx.ck(&w == v && same(&w), || format!("{what} changed through the binary form: {} became {}", short(v), short(&w)));
            }
        },
    }
    cx.hit(format!("serde.{}", what.split('.').next().unwrap_or("")));
}

fn typed<T>(cx: &mut Ctx, what: &str, v: T, m: &Tx, model: fn(&T) -> Tx)
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug + Clone + Cacheable + UniqueIdentifier + SerializableVec + std::hash::Hash,
{
    let id = m.id();
    let h = hash_of(&v);
    let enc = m.encode();
    let same = move |w: &T| !w.is_computed() && *w.id() == id && hash_of(w) == h && model(w) == *m && w.clone().to_bytes() == enc;
    survives(cx, what, &v, &same);
    // cached data is neither written nor carried over
    let mut c = v.clone();
    c.precompute();
    survives(cx, &format!("{what}.cached"), &c, &same);
    cx.eq(&format!("{what}: JSON of the cached form"), serde_json::to_string(&c).ok(), serde_json::to_string(&v).ok());
    cx.eq(&format!("{what}: binary of the cached form"), bincode::serialize(&c).ok(), bincode::serialize(&v).ok());
}

pub fn arb_error(r: &mut Rng) -> CheckError {
    use CheckError::*;
    let i = r.u64() as usize >> r.idx(64);
    let h = r.b32();
    match r.below(36) {
        0 => InputWitnessIndexBounds { index: i },
        1 => InputPredicateEmpty { index: i },
        2 => InputPredicateLength { index: i },
        3 => InputPredicateDataLength { index: i },
        4 => InputPredicateOwner { index: i },
        5 => InputInvalidSignature { index: i },
        6 => InputContractAssociatedOutputContract { index: i },
        7 => InputMessageDataLength { index: i },
        8 => DuplicateInputUtxoId { utxo_id: r_utxo(&gen::utxo(r)) },
        9 => DuplicateMessageInputId { message_id: h.into() },
        10 => DuplicateInputContractId { contract_id: h.into() },
        11 => OutputContractInputIndex { index: i },
        12 => TransactionCreateInputContract { index: i },
        13 => TransactionCreateOutputContract { index: i },
        14 => TransactionCreateOutputVariable { index: i },
        15 => TransactionCreateOutputChangeNotBaseAsset { index: i },
        16 => TransactionCreateOutputContractCreatedMultiple { index: i },
        17 => TransactionCreateBytecodeLen,
        18 => TransactionCreateBytecodeWitnessIndex,
        19 => TransactionCreateStorageSlotMax,
        20 => TransactionCreateStorageSlotOrder,
        21 => TransactionScriptLength,
        22 => TransactionScriptDataLength,
        23 => TransactionScriptOutputContractCreated { index: i },
        24 => TransactionMintOutputIsNotCoin,
        25 => TransactionMintIncorrectBlockHeight,
        26 => TransactionGasLimit,
        27 => TransactionMaturity,
        28 => [TransactionInputsMax, TransactionOutputsMax, TransactionWitnessesMax][r.idx(3)].clone(),
        29 => TransactionOutputCoinAssetIdDuplicated(h.into()),
        30 => TransactionOutputChangeAssetIdDuplicated(h.into()),
        31 => TransactionOutputChangeAssetIdNotFound(h.into()),
        32 => TransactionOutputCoinAssetIdNotFound(h.into()),
        33 => InsufficientFeeAmount { expected: r.word(), provided: r.word() },
        34 => InsufficientInputAmount { asset: h.into(), expected: r.word(), provided: r.word() },
        _ => ArithmeticOverflow,
    }
}

pub const PARAM_NAMES: [&str; 13] = [
    "contract_max_size",
    "max_inputs",
    "max_outputs",
    "max_witnesses",
    "max_gas_per_tx",
    "max_script_length",
    "max_script_data_length",
    "max_storage_slots",
    "max_predicate_length",
    "max_predicate_data_length",
    "gas_price_factor",
    "gas_per_byte",
    "max_message_data_length",
];
/// the published defaults, stated independently
pub const PARAM_DEFAULTS: [u64; 13] = [16_777_216, 255, 255, 255, 100_000_000, 1_048_576, 1_048_576, 255, 1_048_576, 1_048_576, 1_000_000_000, 4, 1_048_576];

pub use crate::conv::{params_fields, params_of};
pub fn arb_fields(r: &mut Rng) -> [u64; 13] {
    let mut v = [0; 13];
    v.iter_mut().for_each(|x| *x = r.word());
    v
}

/// JSON text around a valid transaction
fn hostile_json(r: &mut Rng, base: &str) -> String {
    const TOK: &[&str] = &[
        "{", "}", "[", "]", "\"", ":", ",", "null", "true", "-1", "256", "65536", "4294967296", "18446744073709551615", "18446744073709551616", "1e400", "-0", "0.5", "\\u0000", "\\ud800",
        "\"\"", "{}", "[]", "\"0x\"", "\"zz\"", "é", "𝄞", "\u{0}", " ", "Script", "Mint", "Create", "[[[[[[", "{\"a\":",
    ];
    match r.below(10) {
        0 => {
            let n = r.idx(40);
            (0..n).map(|_| *r.pick(TOK)).collect()
        }
        1 => {
            let n = 1 + r.idx(3000);
            let open = ["[", "{\"Script\":", "{\"Create\":{\"inputs\":[", "\""][r.idx(4)];
            open.repeat(n)
        }
        2 => {
            // drop a suffix
            let mut k = r.idx(base.len() + 1);
            while !base.is_char_boundary(k) {
                k -= 1
            }
            base[..k].to_string()
        }
        _ => {
            let mut s = base.to_string();
            for _ in 0..1 + r.idx(3) {
                let mut a = r.idx(s.len() + 1);
                while !s.is_char_boundary(a) {
                    a -= 1
                }
                let mut b = (a + r.idx(12)).min(s.len());
                while !s.is_char_boundary(b) {
                    b -= 1
                }
                let with = match r.below(4) {
                    0 => String::new(),
                    1 => {
                        let mut c = r.idx(s.len() + 1);
                        while !s.is_char_boundary(c) {
                            c -= 1
                        }
                        let mut d = (c + r.idx(40)).min(s.len());
                        while !s.is_char_boundary(d) {
                            d -= 1
                        }
                        s[c..d.max(c)].to_string()
                    }
                    _ => r.pick(TOK).to_string(),
                };
                s.replace_range(a..b.max(a), &with);
            }
            s
        }
    }
}

/// edit the JSON as a tree: drop, rename, retype or duplicate a member
fn edit_tree(r: &mut Rng, v: &mut serde_json::Value, depth: usize) {
    use serde_json::Value::*;
    match v {
        Object(m) if !m.is_empty() && (depth == 0 || r.chance(5, 6)) => {
            let k = m.keys().nth(r.idx(m.len())).cloned().unwrap_or_default();
            match r.below(12) {
                0 => {
                    m.remove(&k);
                }
                1 => {
                    let x = m.remove(&k).unwrap_or(Null);
                    m.insert(format!("{k}_"), x);
                }
                2 => {
                    m.insert("extra".into(), Bool(true));
                }
                _ => edit_tree(r, m.get_mut(&k).expect("key"), depth + 1),
            }
        }
        Array(a) if !a.is_empty() && (depth == 0 || r.chance(5, 6)) => {
            let i = r.idx(a.len());
            match r.below(8) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.push(x)
                }
                _ => edit_tree(r, &mut a[i], depth + 1),
            }
        }
        _ => {
            *v = match r.below(9) {
                0 => Null,
                1 => Bool(r.chance(1, 2)),
                2 => r.word().into(),
                3 => (-1i64).into(),
                4 => 0.5.into(),
                5 => hex(&r.b32()).into(),
                6 => "é€𝄞".into(),
                7 => serde_json::json!([1, 256, -1]),
                _ => serde_json::json!({"Coin": {}}),
            }
        }
    }
}

fn parse(cx: &mut Ctx, s: &str) {
    match Transaction::from_json(s) {
        None => cx.hit("json_refused"),
        Some(t) => {
            cx.hit("json_accepted");
            let doc = serde_json::from_str::<serde::de::IgnoredAny>(s);
            cx.ck(doc.is_ok(), || format!("a transaction was made of text that is no JSON document: {}", short(&s)));
            let fresh = match &t {
                Transaction::Script(x) => !x.is_computed(),
                Transaction::Create(x) => !x.is_computed(),
                Transaction::Mint(x) => !x.is_computed(),
            };
            cx.ck(fresh, || "a parsed transaction carries cached data".into());
            let again = Transaction::from_json(t.to_json());
            cx.ck(again.as_ref() == Some(&t), || format!("accepted JSON does not round trip: {}", short(&s)));
        }
    }
}

/// a transaction's JSON with something before, behind, or twice
fn around(r: &mut Rng, s: &str) -> String {
    const JUNK: &[&str] = &["x", "{}", "]", "}", "null", ",", "\0", "\u{feff}", "//", "\"", "1", " 0", "\n{", "[]", "\u{a0}"];
    let j = *r.pick(JUNK);
    match r.below(4) {
        0 => format!("{j}{s}"),
        1 | 2 => format!("{s}{j}"),
        _ => format!("{s}{}{s}", ["", " ", "\n", ","][r.idx(4)]),
    }
}

fn c19(cx: &mut Ctx, r: &mut Rng) {
    let mut m = gen::arb_tx(r);
    // the JSON of huge byte strings is slow and adds nothing
    crate::m_misc::trim(&mut m, 12, 200);
    if cx.index % 5000 == 77 {
        gen::giant(r, &mut m);
        cx.hit("strings of a mebibyte");
    }
    if cx.index % 1000 == 55 {
        gen::crowd(r, &mut m);
        cx.hit("many_elements");
    }
    let t = r_tx(&m);
    cx.shape(gen::shape(&m));
    cx.sample(|| format!("{} / {} bytes of JSON", gen::describe(&m), t.to_json().len()));
    // the crate's own JSON entry points
    let s = t.to_json();
    match Transaction::from_json(&s) {
        None => cx.fail(format!("from_json refuses to_json: {}", short(&s))),
        Some(b) => {
            cx.ck(b == t && m_tx(&b) == m, || format!("from_json(to_json) differs: {} became {}", short(&t), short(&b)));
            cx.ck(*b.id() == m.id() && b.clone().to_bytes() == m.encode(), || "id or encoding changed through JSON".into());
        }
    }
    let enc = m.encode();
    let id = m.id();
    let mm = m.clone();
    survives(cx, "Transaction", &t, &|w: &Transaction| m_tx(w) == mm && *w.id() == id && w.clone().to_bytes() == enc);
    match &m {
        Tx::Script(x) => typed(cx, "Script", r_script(x), &m, |s: &Script| Tx::Script(m_script(s))),
        Tx::Create(x) => typed(cx, "Create", r_create(x), &m, |s: &Create| Tx::Create(m_create(s))),
        Tx::Mint(x) => typed(cx, "Mint", r_mint(x), &m, |s: &Mint| Tx::Mint(m_mint(s))),
    }
    // components
    let mi = gen::arb_in(r);
    survives(cx, "Input", &r_in(&mi), &|w: &Input| m_in(w) == mi);
    // an input with an empty predicate stays one here (unlike on the wire)
    let mut mi = gen::arb_in_kind(r, 1 + 3 * r.clone().below(2));
    if let In::CoinPred { pred, .. } | In::MsgPred { pred, .. } = &mut mi {
        pred.clear()
    }
    survives(cx, "Input.empty", &r_in(&mi), &|w: &Input| m_in(w) == mi);
    let mo = gen::arb_out(r);
    survives(cx, "Output", &r_out(&mo), &|w: &Output| m_out(w) == mo);
    let mw = gen::bytes(r);
    survives(cx, "Witness", &Witness::from(mw.clone()), &|w: &Witness| w.as_vec() == &mw);
    let ms = gen::slot(r);
    survives(cx, "StorageSlot", &r_slot(&ms), &|w: &StorageSlot| m_slot(w) == ms);
    let mu = gen::utxo(r);
    survives(cx, "UtxoId", &r_utxo(&mu), &|w: &UtxoId| m_utxo(w) == mu);
    let mt = gen::txp(r);
    survives(cx, "TxPointer", &r_txp(&mt), &|w: &TxPointer| m_txp(w) == mt);
    let mut mr = gen::arb_receipt(r);
    if let Rc::Panic { cid, .. } = &mut mr {
        if r.chance(1, 2) {
            *cid = Some(r.b32())
        }
    }
    let mut rc = r_receipt(&mr);
    if let (Rc::Panic { cid, .. }, true) = (&mr, true) {
        rc = rc.with_panic_contract_id(cid.map(|c| c.into()));
    }
    survives(cx, "Receipt", &rc, &|w: &Receipt| m_receipt(w) == mr);
    let code = gen::bytes(r);
    survives(cx, "Contract", &Contract::from(code.clone()), &|w: &Contract| w.as_ref() == &code[..]);
    let f = (r.word(), r.word(), r.word(), r.word());
    survives(cx, "TransactionFee", &TransactionFee::new(f.0, f.1, f.2, f.3), &|w: &TransactionFee| {
        (TransactionFee::min(w), w.total(), w.min_gas(), w.max_gas()) == f
    });
    let e = arb_error(r);
    survives(cx, "CheckError", &e, &|_| true);
    let pv = arb_fields(r);
    survives(cx, "ConsensusParameters", &params_of(&pv), &|w: &ConsensusParameters| params_fields(w) == pv);
    // absent fields take the default
    let mut obj = serde_json::Map::new();
    let mut want = PARAM_DEFAULTS;
    for k in 0..13 {
        if r.chance(1, 2) {
            obj.insert(PARAM_NAMES[k].into(), pv[k].into());
            want[k] = pv[k];
        }
    }
    match serde_json::from_str::<ConsensusParameters>(&serde_json::Value::Object(obj).to_string()) {
        Ok(p) => {
            cx.eq("parameters with absent fields", params_fields(&p), want);
            cx.hit("partial_params");
        }
        Err(e) => cx.fail(format!("parameters with absent fields: {e}")),
    }
    // hostile text
    for _ in 0..3 {
        let h = hostile_json(r, &s);
        parse(cx, &h);
    }
    let h = around(r, &s);
    parse(cx, &h);
    cx.hit("text around the document");
    if let Ok(mut tree) = serde_json::from_str::<serde_json::Value>(&s) {
        if r.chance(1, 10) {
            // the same document with other white space and another order of members
            let p = format!("\n\t {}\r\n", serde_json::to_string_pretty(&tree).unwrap_or_default());
            cx.ck(Transaction::from_json(&p).as_ref() == Some(&t), || format!("the same document laid out differently is read differently: {}", short(&p)));
        }
        for _ in 0..2 {
            edit_tree(r, &mut tree, 0);
            parse(cx, &tree.to_string());
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            quick: 1_500_000,
            thorough: 90_000_000,
            run: c18,
            req: &[("utxo_round_trip", 10_000), ("txp_round_trip", 3_000), ("non_ascii", 20_000), ("utxo_text_accepted", 5_000), ("txp_text_accepted", 2_000), ("utxo_text_refused", 5_000)],
            rule: "each case formats a generated UTXO id and transaction pointer in every hexadecimal form, compares the lower-case form with independently produced digits, parses all of them back, and feeds twelve hostile strings (wide characters at every byte length near the limits, edits of valid texts) to both parsers; distinct = distinct value pairs",
            assume: &[],
        },
        Prop {
            id: "C19",
            quick: 50_000,
            thorough: 3_000_000,
            run: c19,
            req: &[
                ("serde.Transaction", 2_000),
                ("serde.Script", 1_000),
                ("serde.Create", 1_000),
                ("serde.Mint", 500),
                ("serde.Receipt", 2_000),
                ("serde.CheckError", 2_000),
                ("serde.ConsensusParameters", 2_000),
                ("partial_params", 2_000),
                ("json_accepted", 300),
                ("json_refused", 5_000),
            ],
            rule: "each case sends a generated transaction (with and without cached data) and one value of each other serialisable type through JSON text, a JSON tree and bincode and compares with the generated model; then edits the JSON as text and as a tree and parses it; distinct = distinct transaction shapes",
            assume: &["a panic receipt's instruction has no bits its opcode ignores (listed finding panic-instruction)"],
        },
    ]
}
