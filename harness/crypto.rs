//! Domain separation, signatures and their encodings.
use super::*;
use crate::alloy::primitives::Address;
use blst::min_sig as core_bls;

fn scope(x: u8) -> IntentScope {
    match x {
        0 => IntentScope::ProofOfPossession,
        1 => IntentScope::EpochBoundary,
        2 => IntentScope::ConsensusDigest,
        3 => IntentScope::SystemMessage,
        _ => IntentScope::EpochCloseSeed,
    }
}
fn intent() -> (u8, bool, Intent) {
    let s = vk::below(5) as u8;
    let app = vk::bool();
    (s, app, if app { Intent::consensus(scope(s)) } else { Intent::telcoin(scope(s)) })
}
/// What is signed is three bytes that say what for, and then the value.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn crypto_intent_bytes() {
    let (s, app, i) = intent();
    let v = vk::u32();
    let m = crate::encode(&IntentMessage::new(i, v));
    assert!(m.len() == INTENT_PREFIX_LENGTH + 4, "three bytes and the value");
    assert!(m[0] == s && m[1] == 0 && m[2] == app as u8, "scope, version, application");
    assert!(m[3] == v as u8 && m[4] == (v >> 8) as u8 && m[5] == (v >> 16) as u8 && m[6] == (v >> 24) as u8, "then the value");
    vk::reach!(app && s == 4, "a seed");
    std::mem::forget(m);
}
/// Two messages are equal only when intent and value are.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn crypto_intent_distinct() {
    let (s, app, i) = intent();
    let (t, app2, j) = intent();
    let (v, w) = (vk::u16(), vk::u16());
    let m = crate::encode(&IntentMessage::new(i, v));
    let n = crate::encode(&IntentMessage::new(j, w));
    assert!(m.len() == 5 && n.len() == 5);
    let same = m[0] == n[0] && m[1] == n[1] && m[2] == n[2] && m[3] == n[3] && m[4] == n[4];
    assert!(same == (s == t && app == app2 && v == w), "no message of one kind is one of another");
    vk::reach!(v == w && s != t, "the same value for two purposes");
    std::mem::forget((m, n));
}
/// The default wrapping is for consensus digests.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn crypto_intent_default() {
    let v = vk::u16();
    let m = to_intent_message(v);
    assert!(m.value == v && m.intent.scope == IntentScope::ConsensusDigest && m.intent.app_id == AppId::Consensus && m.intent.version == IntentVersion::V0);
    vk::reach!(true, "the end");
}
/// Only known scopes, versions and applications decode.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
pub fn crypto_intent_decode() {
    let b = vk::bytes::<3>();
    let ok = b[0] < 5 && b[1] == 0 && b[2] < 2;
    match crate::try_decode::<Intent>(&b) {
        Ok(i) => {
            assert!(ok, "an unknown intent is refused");
            assert!(i.scope == scope(b[0]) && i.app_id == if b[2] == 0 { AppId::Telcoin } else { AppId::Consensus });
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(!ok, "a known intent is accepted");
        }
    }
    assert!(IntentScope::try_from(b[0]).is_ok() == (b[0] < 5), "known scopes");
    assert!(IntentVersion::try_from(b[1]).is_ok() == (b[1] == 0), "known versions");
    assert!(AppId::try_from(b[2]).is_ok() == (b[2] < 2), "known applications");
    vk::reach!(ok, "known");
    vk::reach!(!ok, "unknown");
}

fn point(kind: usize, id: u8) -> BlsPublicKey {
    let kind = match kind { 0 => blst::GOOD, 1 => blst::OUTSIDE, _ => blst::INFINITY };
    core_bls::PublicKey { kind, id: if kind == blst::INFINITY { 0 } else { id } }.into()
}
/// A signature verifies exactly for the key, intent and value it was made for, if both are in their groups.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(45))]
pub fn crypto_verify() {
    let (s, app, i) = intent();
    let (t, app2, j) = intent();
    let (v, w) = (vk::u16(), vk::u16());
    let sk = vk::u8();
    let m = IntentMessage::new(i, v);
    let mut sig = BlsSignature::new_secure(&m, &core_bls::SecretKey(sk));
    let outside = vk::bool();
    if outside {
        let c: core_bls::Signature = sig.into();
        sig = c.vk_outside().into();
    }
    let (kind, id) = (vk::below(3), vk::u8());
    let pk = point(kind, id);
    let ok = sig.verify_secure(&IntentMessage::new(j, w), &pk);
    assert!(ok == (!outside && kind == 0 && id == sk && s == t && app == app2 && v == w), "for its key, purpose and value only");
    vk::reach!(ok, "accepted");
    vk::reach!(id == sk && v == w && s != t && kind == 0 && !outside, "for another purpose");
    std::mem::forget(m);
}
/// The same for bytes.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(45))]
pub fn crypto_verify_raw() {
    let (m, n) = (vk::bytes::<3>(), vk::bytes::<3>());
    let len = if vk::bool() { 3 } else { 2 };
    let sk = vk::u8();
    let mut sig = core_bls::SecretKey(sk).sign(&m, DST_G1, &[]);
    let outside = vk::bool();
    if outside {
        sig = sig.vk_outside();
    }
    let sig: BlsSignature = sig.into();
    let (kind, id) = (vk::below(3), vk::u8());
    let pk = point(kind, id);
    let want = !outside && kind == 0 && id == sk && len == 3 && m[0] == n[0] && m[1] == n[1] && m[2] == n[2];
    assert!(sig.verify_raw(&n[..len], &pk) == want, "for its key and bytes only");
    assert!(bls_verify_secure(&sig, &pk, &n[..len]) == want, "for its key and bytes only");
    assert!(sig.verify_secure_bytes(&n[..len], &pk) == want, "for its key and bytes only");
    vk::reach!(want, "accepted");
}
/// The point at infinity, which is what a missing signature is, verifies nothing.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(100))]
pub fn crypto_verify_infinity() {
    let (_, _, i) = intent();
    let v = vk::u16();
    let pk = point(vk::below(3), vk::u8());
    let sig = BlsSignature::default();
    let m = IntentMessage::new(i, v);
    assert!(!sig.verify_secure(&m, &pk) && !sig.verify_raw(&[v as u8], &pk), "a default signature verifies nothing");
    let a = BlsAggregateSignature::from_signature(&sig);
    assert!(!a.verify_secure(&m, &[pk]), "nor alone in an aggregate");
    assert!(!a.verify_secure(&m, &[]), "nor for no one");
    vk::reach!(true, "the end");
    std::mem::forget(m);
}
/// An aggregate verifies exactly for the keys that signed that message, each counted.
fn aggregate(n: usize, outside: bool) {
    let (s, app, i) = intent();
    let v = vk::u8();
    let m = IntentMessage::new(i, v);
    let (a, b) = (vk::u8(), vk::u8());
    // The second may have signed another value.
    let w = vk::u8();
    let (_, _, i2) = (0, 0, if app { Intent::consensus(scope(s)) } else { Intent::telcoin(scope(s)) });
    let m2 = IntentMessage::new(i2, w);
    let mut s1 = BlsSignature::new_secure(&m, &core_bls::SecretKey(a));
    let s2 = BlsSignature::new_secure(&m2, &core_bls::SecretKey(b));
    if outside {
        let c: core_bls::Signature = s1.into();
        s1 = c.vk_outside().into();
    }
    let agg = if n == 1 { BlsAggregateSignature::aggregate(&[s1], !outside) } else { BlsAggregateSignature::aggregate(&[s1, s2], !outside) };
    let agg = match agg { Ok(a) => a, Err(_) => panic!("aggregates") };
    let (x, y, kind) = (vk::u8(), vk::u8(), vk::below(3));
    let k = [point(kind, x), point(0, y)];
    let m1 = agg.verify_secure(&m, &k[..1]);
    assert!(m1 == (n == 1 && !outside && kind == 0 && x == a), "one signature, its key");
    let both = (x == a && y == b) || (x == b && y == a);
    let got = agg.verify_secure(&m, &k);
    assert!(got == (n == 2 && !outside && kind == 0 && both && v == w), "two signatures of one message, their keys");
    assert!(!agg.verify_secure(&m, &[]), "no keys, no quorum");
    let (t, app2, j) = intent();
    if t != s || app2 != app {
        let other = IntentMessage::new(j, v);
        assert!(!agg.verify_secure(&other, &k[..n]), "not for another purpose");
        std::mem::forget(other);
    }
    vk::reach!(outside || if n == 1 { m1 } else { got }, "accepted");
    std::mem::forget((m, m2));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(45))]
pub fn crypto_aggregate_1() {
    aggregate(1, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(45))]
pub fn crypto_aggregate_2() {
    aggregate(2, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(45))]
pub fn crypto_aggregate_outside() {
    aggregate(2, true);
}
/// With the group check, aggregation refuses a component outside the group; of nothing there is no aggregate.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(45))]
pub fn crypto_aggregate_refuse() {
    let at = vk::below(3);
    let mk = |i: usize| {
        let s = core_bls::SecretKey(i as u8).sign(&[1], DST_G1, &[]);
        let s: BlsSignature = if i == at { s.vk_outside().into() } else { s.into() };
        s
    };
    let sigs = [mk(0), mk(1)];
    assert!(BlsAggregateSignature::aggregate(&sigs, true).is_ok() == (at == 2), "every component is checked");
    assert!(BlsAggregateSignature::aggregate(&[], true).is_err(), "none of nothing");
    vk::reach!(at == 1, "the second");
    vk::reach!(at == 2, "none");
}
