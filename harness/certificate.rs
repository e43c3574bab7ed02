//! Certificates: what they are made of and what makes them verify.
use super::*;
use crate::{encode, key_bit};

fn header(epoch: Epoch) -> Header {
    Header { author: AuthorityIdentifier(2), round: 7, epoch, tag: vk::u8(), valid: 1 }
}
fn message(h: &Header) -> crate::W {
    encode(&to_intent_message(h.digest())).0
}
/// A certificate made of these votes: a quorum, counted by members, is needed; it names exactly the voters.
fn made(n: u8, voters: &[u8]) {
    let com = Committee::new(n, 3);
    let h = header(3);
    let mut votes = Vec::new();
    let (mut bits, mut i) = (0u32, 0);
    while i < voters.len() {
        let a = AuthorityIdentifier(voters[i]);
        votes.push((a, BlsSignature::by(crate::BlsPublicKey(crate::KEY - a.0), message(&h))));
        if com.is_authority(&a) {
            bits |= 1 << (n - a.0);
        }
        i += 1;
    }
    let r = Certificate::new_unverified(&com, h, votes);
    assert!(r.is_ok() == (bits.count_ones() as u64 >= com.quorum_threshold()), "made exactly of a quorum");
    match r {
        Ok(mut c) => {
            assert!(c.signed_authorities().0 == bits, "names exactly the members that voted");
            assert!(c.header() == &h && c.digest() == h.digest(), "carries the header");
            assert!(!c.is_verified(), "not verified yet");
            assert!(c.validate_and_verify(&com).is_ok() && c.is_verified(), "and verifies");
            std::mem::forget(c);
        }
        Err(e) => std::mem::forget(e),
    }
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn certificate_made() {
    made(4, &[1, 2, 4]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn certificate_made_all() {
    made(4, &[3, 1, 4, 2]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn certificate_made_repeat() {
    made(4, &[1, 2, 1]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn certificate_made_stranger() {
    made(4, &[1, 9, 4]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn certificate_made_few() {
    made(5, &[5, 4, 1]);
}
/// Any certificate a peer can send.
fn any(h: Header) -> (Certificate, BlsSignature, u32, u8) {
    let bits = vk::u8() as u32;
    vk::assume(bits < 1 << 6);
    let sig = BlsSignature::any();
    let s = vk::u8();
    vk::assume(s < 5);
    let state = match s {
        0 => SignatureVerificationState::Unsigned(sig),
        1 => SignatureVerificationState::Unverified(sig),
        2 => SignatureVerificationState::VerifiedDirectly(sig),
        3 => SignatureVerificationState::VerifiedIndirectly(sig),
        _ => SignatureVerificationState::Genesis,
    };
    (Certificate { header: h, signature_verification_state: state, signed_authorities: crate::roaring::RoaringBitmap(bits) }, sig, bits, s)
}
/// The keys (by their bit) of the members a bitmap names.
fn named(bits: u32, n: u8) -> u32 {
    let (mut k, mut i) = (0, 0);
    while i < n {
        if bits >> i & 1 == 1 {
            k |= key_bit(&crate::BlsPublicKey(crate::KEY - (n - i)));
        }
        i += 1;
    }
    k
}
fn signed(sig: &BlsSignature, keys: u32, h: &Header) -> bool {
    sig.group == 1 && sig.mixed == 0 && sig.keys == keys && keys != 0 && sig.msg == message(h)
}
/// Whatever a certificate claims of itself, it verifies exactly if the signature is the sum of the signatures of a
/// quorum, named by the bitmap, over its header.
fn verified(n: u8) {
    let com = Committee::new(n, 3);
    let h = header(vk::u8() as u32);
    let (mut c, sig, bits, s) = any(h);
    let keys = named(bits, n);
    let ok = s != 4 && keys.count_ones() as u64 >= com.quorum_threshold() && signed(&sig, keys, &h);
    assert!(c.verify_cert(&com.bls_keys()).is_ok() == ok, "verifies exactly with a quorum's signature");
    if ok {
        assert!(matches!(c.signature_verification_state(), SignatureVerificationState::VerifiedDirectly(x) if *x == sig), "and says so, with that signature");
    } else {
        assert!(s == 4 || !c.is_verified(), "and else not");
    }
    vk::reach!(ok, "verifies");
    std::mem::forget(c);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn certificate_verified_4() {
    verified(4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn certificate_verified_3() {
    verified(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn certificate_verified_5() {
    verified(5);
}
/// As it comes from a peer (after its claims about itself are reset), against the committee of the epoch.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn certificate_received() {
    let com = Committee::new(4, 3);
    let mut h = header(vk::u8() as u32);
    h.valid = vk::u8() & 1;
    h.round = if vk::bool() { 0 } else { 7 };
    let (c, sig, bits, s) = any(h);
    match validate_fetched_certificate(c) {
        Err(e) => {
            assert!(s == 4, "only a claim to be genesis is refused at once");
            std::mem::forget(e);
        }
        Ok(mut c) => {
            assert!(s != 4 && !c.is_verified(), "nothing is verified because it says so");
            let keys = named(bits, 4);
            // The round-zero certificate of a member, exactly as the committee starts with.
            let genesis = h.round == 0 && h.tag == 0 && h.valid == 0 && h.epoch == 3;
            let ok = genesis || (h.epoch == 3 && h.valid == 1 && keys.count_ones() >= 3 && signed(&sig, keys, &h));
            assert!(c.validate_and_verify(&com).is_ok() == ok, "the right epoch, a valid header and a quorum's signature");
            assert!(!c.is_verified() || (ok && !genesis), "verified only then");
            vk::reach!(ok && !genesis, "verifies");
            vk::reach!(genesis, "genesis");
            std::mem::forget(c);
        }
    }
}
