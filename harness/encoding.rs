//! Proofs of possession, and the encodings of keys, signatures and digests.
use super::*;
use crate::alloy::primitives::Address;
use blst::min_sig as core_bls;
use serde::de::value::StrDeserializer;
use std::fmt::Display;

fn point(kind: usize, id: u8) -> BlsPublicKey {
    let kind = match kind { 0 => blst::GOOD, 1 => blst::OUTSIDE, _ => blst::INFINITY };
    core_bls::PublicKey { kind, id: if kind == blst::INFINITY { 0 } else { id } }.into()
}
fn address(a: u8, b: u8) -> Address {
    let mut x = [7u8; 20];
    x[0] = a;
    x[19] = b;
    Address(x)
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    a.len() == b.len()
}
/// Three zeros, the compressed key, the address.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(122))]
pub fn encoding_pop_message() {
    let (id, a) = (vk::u8(), vk::bytes::<20>());
    let k = point(0, id);
    let m = construct_proof_of_possession_message(&k, &Address(a));
    assert!(m.len() == 119, "119 bytes");
    assert!(m[0] == 0 && m[1] == 0 && m[2] == 0, "telcoin, proof of possession");
    let mut i = 0;
    while i < 96 {
        assert!(m[3 + i] == (if i == 0 { blst::GOOD } else if i == 1 { id } else { 0 }), "the compressed key");
        i += 1;
    }
    i = 0;
    while i < 20 {
        assert!(m[99 + i] == a[i], "the address");
        i += 1;
    }
    vk::reach!(a[0] != a[19], "the end");
    std::mem::forget(m);
}
/// A proof holds for its key and address only.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(122))]
pub fn encoding_pop_verify() {
    let (sk, a, b) = (vk::u8(), vk::u8(), vk::u8());
    let own: BlsPublicKey = core_bls::SecretKey(sk).sk_to_pk().into();
    let msg = construct_proof_of_possession_message(&own, &address(a, b));
    let mut sig: core_bls::Signature = core_bls::SecretKey(sk).sign(&msg, DST_G1, &[]);
    let outside = vk::bool();
    if outside {
        sig = sig.vk_outside();
    }
    let (kind, id, c, d) = (vk::below(3), vk::u8(), vk::u8(), vk::u8());
    let ok = verify_proof_of_possession_bls(&sig.into(), &point(kind, id), &address(c, d)).is_ok();
    assert!(ok == (!outside && kind == 0 && id == sk && c == a && d == b), "for the key and the address that signed");
    vk::reach!(ok, "accepted");
    vk::reach!(id == sk && c == a && d != b && kind == 0, "for another address");
    std::mem::forget(msg);
}
/// A network proof holds for its key and genesis only.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn encoding_network_pop() {
    let (a, b, g, h) = (vk::u8(), vk::u8(), vk::u16(), vk::u16());
    let p = generate_proof_of_possession_network(&libp2p::identity::Keypair(a), &crate::Genesis(g));
    let k: NetworkPublicKey = libp2p::identity::PublicKey(b).into();
    let ok = verify_proof_of_possession_network(&p, &k, &crate::Genesis(h));
    assert!(ok == (a == b && g == h), "for its key and chain only");
    // Not a signature of the key and genesis without the purpose.
    assert!(p.len() == 1 + 3 + 1 + 6 && p[1] == 0 && p[2] == 0 && p[3] == 0, "the purpose is signed");
    vk::reach!(ok, "accepted");
    vk::reach!(a == b && g != h, "another chain");
    std::mem::forget(p);
}

/// The screen passes every length the parser takes, and no other.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn encoding_key_screen() {
    let buf = [0u8; 256];
    let n = vk::u8() as usize;
    assert!(BlsPublicKey::is_plausible_encoding(&buf[..n]) == (n == 96 || n == 192), "the two lengths");
    vk::reach!(n == 192, "uncompressed");
}
fn literal(n: usize) {
    let mut b = [0u8; 200];
    b[0] = vk::u8();
    b[1] = vk::u8();
    let at = if n == 0 { 0 } else { n - 1 };
    b[at] ^= vk::u8() & 1;
    let real = core_bls::PublicKey::from_bytes(&b[..n]);
    match BlsPublicKey::from_literal_bytes(&b[..n]) {
        Ok(k) => {
            assert!(real.is_ok(), "only keys parse");
            let (kind, id) = (b[0] | 0x80, b[1]);
            assert!(k.to_bytes()[0] == kind && k.to_bytes()[1] == id, "the key that was encoded");
            assert!(eq(k.as_ref(), &k.to_bytes()), "its bytes are the compressed form");
            vk::reach!(n == 96 || n == 192, "a key");
            let r: BlsPublicKeyBytes = k.into();
            let back: BlsPublicKey = r.into();
            assert!(back == k && eq(back.as_ref(), k.as_ref()), "there and back");
        }
        Err(_) => assert!(real.is_err(), "all keys parse"),
    }
    vk::reach!(real.is_err(), "no key");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(194))]
pub fn encoding_key_literal_96() {
    literal(96);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(194))]
pub fn encoding_key_literal_192() {
    literal(192);
}
/// Equality, order and bytes of keys agree.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(98))]
pub fn encoding_key_order() {
    let (k, l) = (vk::below(3), vk::below(3));
    let (a, b) = (point(k, vk::u8()), point(l, vk::u8()));
    let same = a.to_bytes()[0] == b.to_bytes()[0] && a.to_bytes()[1] == b.to_bytes()[1];
    assert!((a == b) == same, "equal exactly when the same point");
    assert!((a.cmp(&b) == std::cmp::Ordering::Equal) == same, "order agrees with equality");
    let (x, y) = (a.to_bytes(), b.to_bytes());
    let less = x[0] < y[0] || (x[0] == y[0] && x[1] < y[1]);
    assert!((a < b) == less, "in the order of the compressed bytes");
    vk::reach!(less, "less");
    vk::reach!(same, "same");
}
/// A key's or signature's encoding is its length and bytes, and only points of that length decode.
fn key_codec(n: usize) {
    let mut b = [0u8; 100];
    b[0] = n as u8; // the length
    b[1] = vk::u8();
    b[2] = vk::u8();
    b[n] ^= vk::u8() & 1;
    let real = core_bls::PublicKey::from_bytes(&b[1..1 + n]).is_ok();
    match crate::try_decode::<BlsPublicKey>(&b[..1 + n]) {
        Ok(k) => {
            assert!(real && n == 96, "only keys decode");
            let e = crate::encode(&k);
            assert!(eq(&e, &b[..97]), "the encoding is the length and the compressed bytes");
            std::mem::forget(e);
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(!real, "all keys decode");
        }
    }
    vk::reach!(n != 96 || real, "the end");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(98))]
pub fn encoding_key_codec() {
    key_codec(96);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(98))]
pub fn encoding_key_codec_short() {
    key_codec(95);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(50))]
pub fn encoding_sig_codec() {
    let mut b = [0u8; 49];
    b[0] = 48;
    b[1] = vk::u8();
    b[2] = vk::u8();
    b[3] = 2;
    b[4] = 1;
    b[5] = vk::u8();
    b[6] = vk::u8();
    b[48] = vk::u8();
    let real = core_bls::Signature::from_bytes(&b[1..]).is_ok();
    assert!(BlsSignature::from_bytes(&b[1..]).is_ok() == real && BlsSignature::from_bytes(&b[1..48]).is_err(), "only points parse");
    match crate::try_decode::<BlsSignature>(&b) {
        Ok(s) => {
            assert!(real, "only signatures decode");
            let e = crate::encode(&s);
            assert!(eq(&e, &b), "the encoding is the length and the bytes");
            std::mem::forget(e);
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(!real, "all signatures decode");
        }
    }
    vk::reach!(real, "a signature");
    vk::reach!(!real, "no signature");
}
/// A digest's binary form is its length and bytes; other lengths are refused.
fn digest_codec(n: usize) {
    let mut b = [0u8; 6];
    b[0] = n as u8;
    b[1] = vk::u8();
    b[2] = vk::u8();
    b[3] = vk::u8();
    b[4] = vk::u8();
    match crate::try_decode::<Digest<3>>(&b[..1 + n]) {
        Ok(d) => {
            assert!(n == 3, "only of its own length");
            assert!(d.digest[0] == b[1] && d.digest[1] == b[2] && d.digest[2] == b[3] && d.size() == 3, "the bytes");
            let e = crate::encode(&d);
            assert!(eq(&e, &b[..4]), "there and back");
            let v = d.to_vec();
            assert!(eq(&v, &b[1..4]) && eq(d.as_ref(), &b[1..4]) && d == Digest::new([b[1], b[2], b[3]]), "all views agree");
            std::mem::forget((e, v));
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(n != 3, "its own length is accepted");
        }
    }
    vk::reach!(b[1] != b[2], "the end");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn encoding_digest_codec() {
    digest_codec(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn encoding_digest_codec_2() {
    digest_codec(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn encoding_digest_codec_4() {
    digest_codec(4);
}

/// An error without a text.
#[derive(Debug)]
pub struct NoText;
impl Display for NoText {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
}
impl std::error::Error for NoText {}
impl serde::de::Error for NoText {
    fn custom<T: Display>(_: T) -> Self { NoText }
}
/// A digest's text stands for exactly its bytes: a text for fewer or more is refused.
fn digest_text(n: usize) {
    let t = vk::bytes::<4>();
    let mut good = true;
    let mut i = 0;
    while i < n {
        vk::assume(t[i] < 128);
        good = good && t[i] >= b'@' && t[i] < b'@' + 32;
        i += 1;
    }
    let s = unsafe { std::str::from_utf8_unchecked(&t[..n]) };
    let d: Result<Digest<3>, NoText> = Digest::deserialize(StrDeserializer::new(s));
    assert!(d.is_ok() == (good && n == 3), "of its own length only");
    if let Ok(d) = d {
        assert!(d.digest == [t[0] - b'@', t[1] - b'@', t[2] - b'@'], "the bytes it stands for");
    }
    vk::reach!(good, "a text");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn encoding_digest_text_3() {
    digest_text(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn encoding_digest_text_2() {
    digest_text(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn encoding_digest_text_4() {
    digest_text(4);
}
