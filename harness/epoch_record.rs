use super::*;
pub fn parts(s: &EpochSeedMessage) -> u128 {
    vk::limit(s.prior_epoch_record.0 < 1 << 40);
    (s.epoch as u128) | (s.round as u128) << 32 | s.prior_epoch_record.0 << 64
}
fn key(i: u8) -> BlsPublicKey {
    BlsPublicKey(crate::KEY - i)
}
fn record(n: u8) -> EpochRecord {
    let mut committee = Vec::new();
    let mut i = n;
    while i >= 1 {
        committee.push(key(i));
        i -= 1;
    }
    EpochRecord {
        epoch: vk::u8() as u32,
        committee,
        next_committee: Vec::new(),
        parent_hash: EpochDigest(vk::u8() as u128),
        final_state: BlockNumHash { number: vk::u8() as u64, ..Default::default() },
        final_consensus: ConsensusNumHash { number: vk::u8() as u64, ..Default::default() },
    }
}
fn message(d: EpochDigest) -> crate::W {
    crate::encode(&IntentMessage::new(Intent::consensus(IntentScope::EpochBoundary), d)).0
}
/// A record is certified exactly by the signature of more than two thirds of its committee over its own digest.
fn certified(n: u8) {
    let r = record(n);
    let bits = vk::u8() as u32;
    vk::assume(bits < 1 << 6);
    let signature = BlsSignature::any();
    let c = EpochCertificate { epoch_hash: if vk::bool() { r.digest() } else { EpochDigest(vk::u128() & (u128::MAX >> 16)) }, signature, signed_authorities: crate::roaring::RoaringBitmap(bits) };
    let (mut keys, mut i) = (0, 0);
    while i < n {
        if bits >> i & 1 == 1 {
            keys |= crate::key_bit(&key(n - i));
        }
        i += 1;
    }
    let q = (2 * n as u32) / 3 + 1;
    assert!(r.super_quorum() as u32 == q, "more than two thirds");
    let ok = c.epoch_hash == r.digest() && keys.count_ones() >= q && signature.group == 1 && signature.mixed == 0 && signature.keys == keys && signature.msg == message(r.digest());
    assert!(r.verify_with_cert(&c) == ok, "certified exactly by a quorum's signature of this record");
    vk::reach!(ok, "certified");
    std::mem::forget((r, c));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn epoch_certified_4() {
    certified(4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn epoch_certified_5() {
    certified(5);
}
/// A vote for a record is good exactly if the key it names signed that digest for this purpose; the votes of signers are.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn epoch_vote() {
    let r = record(4);
    let s = crate::KeyOf(key(vk::below(8) as u8));
    let v = r.sign_vote(&s);
    assert!(v.epoch == r.epoch && v.epoch_hash == r.digest() && v.public_key == s.0 && v.check_signature(), "a signer's vote is good");
    let x = EpochVote { epoch: r.epoch, epoch_hash: EpochDigest(vk::u128() & (u128::MAX >> 16)), public_key: BlsPublicKey(vk::u8()), signature: BlsSignature::any() };
    let g = &x.signature;
    assert!(x.check_signature() == (g.group == 1 && g.mixed == 0 && g.keys == crate::key_bit(&x.public_key) && g.msg == message(x.epoch_hash)), "a vote is good exactly with the signature of its key");
    vk::reach!(x.check_signature(), "good");
    std::mem::forget(r);
}
/// A committee is accepted as the next exactly if it is the expected one, or a part of it that keeps four members and two thirds.
fn compatible(n: usize, e: usize) {
    let (mut c, mut x) = (Vec::new(), BTreeSet::new());
    let mut i = 0;
    while i < e {
        x.insert(BlsPublicKey(10 + i as u8));
        i += 1;
    }
    i = 0;
    while i < n {
        let k = vk::u8();
        vk::assume(k >= 10 && k < 18);
        c.push(BlsPublicKey(k));
        i += 1;
    }
    let (mut mask, mut twice) = (0u32, false);
    i = 0;
    while i < n {
        let b = 1u32 << (c[i].0 - 10);
        twice |= mask & b != 0;
        mask |= b;
        i += 1;
    }
    let all = (1u32 << e) - 1;
    let want = !twice && mask & !all == 0 && (n == e || (n < e && n >= 4 && 3 * n >= 2 * e));
    let r = EpochRecord { epoch: 0, committee: c, ..Default::default() };
    assert!(r.committee_compatible(&x) == want, "the expected committee, or a large enough part of it");
    vk::reach!(!r.committee_compatible(&x), "refused");
    std::mem::forget((r, x));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn epoch_committee_equal() {
    compatible(4, 4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn epoch_committee_shrunk() {
    compatible(4, 5);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn epoch_committee_limit() {
    compatible(4, 6);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn epoch_committee_below() {
    compatible(4, 7);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn epoch_committee_three() {
    compatible(3, 4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn epoch_committee_grown() {
    compatible(5, 4);
}
/// The seed contribution of an author verifies for its own key, epoch, round and prior record only.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn epoch_seed() {
    let (e, r, p) = (vk::u32(), vk::u32(), vk::u32() as u128);
    let (e2, r2, p2) = (vk::u32(), vk::u32(), vk::u32() as u128);
    let (k, k2) = (key(vk::below(8) as u8), key(vk::below(8) as u8));
    let s = EpochSeedMessage::new(e, r, EpochDigest(p)).sign(&crate::KeyOf(k));
    assert!(EpochSeedMessage::new(e2, r2, EpochDigest(p2)).verify(&s, &k2) == (k == k2 && e == e2 && r == r2 && p == p2), "for exactly what was signed");
    let other = BlsSignature::by(k, crate::encode(&IntentMessage::new(Intent::consensus(IntentScope::EpochBoundary), EpochDigest(p))).0);
    assert!(!EpochSeedMessage::new(e, r, EpochDigest(p)).verify(&other, &k), "never a signature made for another purpose");
    vk::reach!(k == k2 && e == e2 && r == r2 && p == p2, "verifies");
}
