//! C23: the build without `std` gives the same answers. The other build runs as a process of
//! its own (path in VMON_NOSTD) and answers one case per line.

use crate::conv::*;
use crate::gen;
use crate::model::*;
use crate::m_check::{edge, edge_mint};
use crate::m_misc::trim;
use crate::plain::{self, Answers, Case};
use crate::refs;
use crate::rng::Rng;
use crate::stats::{hex, short, Ctx};
use crate::Prop;
use fuel_tx::ConsensusParameters;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Other {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
thread_local! {
    static OTHER: RefCell<Option<Other>> = const { RefCell::new(None) };
}

fn start() -> Other {
    let path = std::env::var("VMON_NOSTD").expect("VMON_NOSTD names the binary built without std");
    let mut child = Command::new(path).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("the binary built without std starts");
    let tx = child.stdin.take().expect("stdin");
    let rx = BufReader::new(child.stdout.take().expect("stdout"));
    Other { child, tx, rx }
}

/// The answers of the other build, or how its process ended.
fn ask(c: &Case) -> Result<Answers, String> {
    OTHER.with(|o| {
        let mut o = o.borrow_mut();
        let other = o.get_or_insert_with(start);
        let mut line = serde_json::to_vec(c).expect("case");
        line.push(b'\n');
        let sent = other.tx.write_all(&line).and_then(|_| other.tx.flush());
        let mut back = String::new();
        let got = other.rx.read_line(&mut back);
        if sent.is_ok() && matches!(got, Ok(n) if n > 0) {
            return Ok(serde_json::from_str(&back).expect("answers"));
        }
        let st = other.child.wait();
        *o = None;
        Err(format!("{st:?}"))
    })
}

/// Hundreds of inputs (or minted coins), all different or all but two.
fn many(cx: &mut Ctx, r: &mut Rng) -> (Tx, u64, ConsensusParameters) {
    let mint = r.chance(1, 5);
    let kind = if mint { 2 } else { r.below(2) };
    let mut v = gen::valid(r, &gen::Opts { kind: Some(kind), signed: false, max_inputs: 5 });
    let n = 257 + r.idx(400);
    if let Tx::Mint(m) = &mut v.tx {
        while m.outs.len() < n {
            let mut asset = r.b32();
            asset[30..].copy_from_slice(&(m.outs.len() as u16 ^ 0x5a00).to_be_bytes());
            m.outs.push(Out::Coin { to: r.b32(), amount: r.word(), asset })
        }
    } else {
        gen::motley(r, &mut v.tx, n, v.params.max_predicate_length > 3);
    }
    if r.chance(1, 2) {
        let k = r.idx(n);
        match &mut v.tx {
            Tx::Mint(m) => m.outs[n - 1] = m.outs[k].clone(),
            t => {
                let l = t.ins_mut().unwrap();
                let x = l[k].clone();
                if !matches!(x, In::Contract { .. }) {
                    l[n - 1] = x
                }
            }
        }
        cx.hit("one of hundreds twice");
    }
    v.params.max_inputs = 1 << 20;
    v.params.max_outputs = 1 << 20;
    cx.hit("hundreds of elements");
    (v.tx, v.height, v.params)
}

fn case(cx: &mut Ctx, r: &mut Rng) -> Case {
    let crowd = r.chance(1, 100);
    let (mut tx, height, params) = match r.below(10) {
        _ if crowd => many(cx, r),
        0..=2 => edge(r, cx, 0),
        3..=5 => edge(r, cx, 1),
        6 => edge_mint(r, cx),
        7 => {
            let v = gen::valid(r, &gen::Opts::default());
            (v.tx, v.height, v.params)
        }
        _ => {
            let t = gen::arb_tx(r);
            (t, r.word(), gen::arb_params(r))
        }
    };
    if !crowd && r.chance(9, 10) {
        trim(&mut tx, 300, 3000);
    }
    let texts = (0..2)
        .map(|_| match r.below(5) {
            0 => format!("0x{}{:02x}", hex(&r.b32()), r.below(256)),
            1 => format!("{:08x}{:04x}", r.u64() as u32, r.u64() as u16),
            2 => format!("{}{:02X}", hex(&r.b32()).to_uppercase(), r.below(256)),
            3 => "é0x1".repeat(r.idx(8)),
            _ => {
                let mut s = format!("{:08x}{:04x}", r.u64() as u32, r.u64() as u16);
                s.truncate(r.idx(13));
                s
            }
        })
        .collect();
    let n = r.idx(500);
    Case {
        tx,
        height,
        params: params_fields(&params),
        receipt: gen::arb_receipt(r),
        texts,
        gas: vec![r.word(), r.below(100_000)],
        code: r.bytes(n),
        slots: gen::list(r, gen::slot).into_iter().take(6).collect(),
        a: r.b32(),
        b: r.b32(),
        n: r.word(),
    }
}

fn c23(cx: &mut Ctx, r: &mut Rng) {
    let c = case(cx, r);
    cx.shape(gen::shape(&c.tx));
    let mine = plain::answers(&c);
    let other = match ask(&c) {
        Ok(a) => a,
        Err(e) => return cx.fail(format!("the process without std died on {}: {e}", gen::describe(&c.tx))),
    };
    cx.eq("questions answered", other.len(), mine.len());
    for ((q, a), (q2, b)) in mine.iter().zip(&other) {
        assert_eq!(q, q2, "the two builds are asked the same questions");
        cx.hit("answers");
        let verdict = q == "check" || q.starts_with("check of ");
        if verdict {
            cx.hit(match a.as_str() {
                "Ok(())" => "accepted",
                _ => "refused",
            });
        }
        if a == b {
            cx.add("oracle_checks", 1);
            continue;
        }
        if verdict && a.starts_with("Err") && b.starts_with("Err") {
            // another broken rule may be named, if it is one
            if q == "check" {
                let list = refs::violations(&c.tx, c.height, &params_of(&c.params));
                cx.ck(list.iter().any(|e| *b == format!("{:?}", Err::<(), _>(e))), || format!("without std the reported rule {b} is not broken (with std {a})"));
            }
            cx.hit("another_rule_named");
            continue;
        }
        cx.ck(false, || format!("{q}: {} with std, {} without, for {}", short(a), short(b), gen::describe(&c.tx)));
    }
    cx.hit(format!("kind {}", c.tx.kind()));
    cx.sample(|| format!("{} questions on {}", mine.len(), gen::describe(&c.tx)));
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        quick: 60_000,
        thorough: 3_600_000,
        run: c23,
        req: &[("accepted", 5_000), ("refused", 5_000), ("kind script", 1_000), ("kind create", 1_000), ("kind mint", 1_000), ("one of hundreds twice", 100)],
        rule: "the same cases answered by a second process built without std: every printed answer equal; verdicts equal as accepted/refused, and a differently named rule must be broken according to the reference rule set; asset lists compared sorted",
        assume: &["the two builds differ in the std feature of fuel-tx and its fuel dependencies; both use the host's target"],
    }]
}
