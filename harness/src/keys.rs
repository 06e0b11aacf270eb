//! Reference key handling and signatures: secp256k1 used directly, not through fuel-crypto.

use crate::model::{sha, B32};
use crate::rng::Rng;
use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
use secp256k1::{All, Message, Secp256k1, SecretKey};
use std::sync::OnceLock;

pub fn ctx() -> &'static Secp256k1<All> {
    static C: OnceLock<Secp256k1<All>> = OnceLock::new();
    C.get_or_init(Secp256k1::new)
}

#[derive(Clone, Debug)]
pub struct Key {
    pub secret: B32,
    pub owner: B32,
}

pub fn key_from(secret: B32) -> Option<Key> {
    let sk = SecretKey::from_slice(&secret).ok()?;
    let pk = sk.public_key(ctx()).serialize_uncompressed();
    Some(Key { secret, owner: sha(&[&pk[1..]]) })
}

/// fixed pool of keys (point multiplications are the expensive part of generation)
pub fn pool() -> &'static [Key] {
    static P: OnceLock<Vec<Key>> = OnceLock::new();
    P.get_or_init(|| {
        let n = if cfg!(miri) { 2 } else { 64 };
        let mut v = Vec::new();
        let mut r = Rng::new(0x6b65_7973);
        while v.len() < n {
            let mut b = [0u8; 32];
            r.fill(&mut b);
            if let Some(k) = key_from(b) {
                v.push(k)
            }
        }
        v
    })
}

/// 64-byte compact signature with the recovery bit in the top bit of byte 32.
pub fn sign(secret: &B32, id: &B32) -> Vec<u8> {
    let sk = SecretKey::from_slice(secret).expect("key");
    let msg = Message::from_slice(id).expect("msg");
    let sig = ctx().sign_ecdsa_recoverable(&msg, &sk);
    let (rec, bytes) = sig.serialize_compact();
    let mut out = bytes.to_vec();
    out[32] = (out[32] & 0x7f) | ((rec.to_i32() as u8 & 1) << 7);
    out
}

/// Owner recovered from a signature over `id`, if any.
pub fn recover_owner(sig: &[u8], id: &B32) -> Option<B32> {
    if sig.len() != 64 {
        return None;
    }
    let mut b = [0u8; 64];
    b.copy_from_slice(sig);
    let rec = (b[32] >> 7) as i32;
    b[32] &= 0x7f;
    let rec = RecoveryId::from_i32(rec).ok()?;
    let rs = RecoverableSignature::from_compact(&b, rec).ok()?;
    let msg = Message::from_slice(id).ok()?;
    let pk = ctx().recover_ecdsa(&msg, &rs).ok()?;
    Some(sha(&[&pk.serialize_uncompressed()[1..]]))
}

/// The other valid signature of the same message and key: s -> n - s, parity flipped.
pub fn high_s(sig: &[u8]) -> Vec<u8> {
    const N: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
    ];
    let mut out = sig.to_vec();
    let par = out[32] >> 7;
    out[32] &= 0x7f;
    let mut borrow = 0i32;
    for i in (0..32).rev() {
        let mut d = N[i] as i32 - out[32 + i] as i32 - borrow;
        borrow = 0;
        if d < 0 {
            d += 256;
            borrow = 1;
        }
        out[32 + i] = d as u8;
    }
    // s may now have its top bit set: then the compact form cannot carry it
    out[32] = (out[32] & 0x7f) | ((par ^ 1) << 7);
    out
}
