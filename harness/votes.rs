//! Votes become a certificate exactly at a quorum of distinct members who signed this very header.
use super::*;
use crate::{encode, key_bit};

/// A vote by `a` that says and is signed whatever.
fn vote(a: u8) -> Vote {
    let mut s = BlsSignature::any();
    s.group = 1;
    Vote { header_digest: crate::HeaderDigest(vk::u64()), round: vk::u32(), epoch: vk::u32(), origin: AuthorityIdentifier(vk::u8()), author: AuthorityIdentifier(a), signature: s }
}
fn good(v: &Vote, h: &Header, c: &Committee) -> bool {
    match c.authority(&v.author) {
        None => false,
        Some(a) => {
            let s = &v.signature;
            v.header_digest == h.digest() && s.keys == key_bit(a.protocol_key()) && s.mixed == 0 && s.msg == encode(&to_intent_message(h.digest())).0
        }
    }
}
/// The votes of members `good`, then of `bad` (not signed by them) and then any vote of any kind by `last`.
fn run(n: u8, first: &[u8], bad: &[u8], last: u8, taken: bool) {
    let com = Committee::new(n, 3);
    let h = Header { author: AuthorityIdentifier(2), round: 7, epoch: 3, tag: 9, valid: 1 };
    let mut agg = VotesAggregator::new();
    let (mut seen, mut counted, mut count) = (0u32, 0u32, 0u64);
    let mut i = 0;
    while i < first.len() + bad.len() + 1 {
        let end = first.len() + bad.len();
        let a = if i < first.len() { first[i] } else if i < end { bad[i - first.len()] } else { last };
        let mut v = vote(a);
        if i < end {
            let k = crate::BlsPublicKey(crate::KEY - if i < first.len() { a } else { a + 1 });
            v.header_digest = h.digest();
            v.signature = BlsSignature::by(k, encode(&to_intent_message(h.digest())).0);
        }
        let again = seen >> v.author.0 & 1 == 1;
        let ok = good(&v, &h, &com);
        seen |= 1 << v.author.0;
        match agg.append(v, &com, &h) {
            Err(e) => {
                assert!(again || !ok, "a member's first vote is taken if it is good");
                std::mem::forget(e);
            }
            Ok(r) => {
                assert!(!again, "nobody votes twice");
                assert!(ok, "a vote counts only with the member's signature of this header");
                counted |= 1 << (n - v.author.0);
                count += 1;
                assert!(r.is_some() == (count >= com.quorum_threshold()), "a certificate exactly at a quorum");
                if let Some(mut c) = r {
                    assert!(c.header() == &h, "of this header");
                    assert!(c.signed_authorities().0 == counted, "that names exactly who voted");
                    assert!(c.is_verified(), "and counts as verified");
                    assert!(c.verify_cert(&com.bls_keys()).is_ok(), "and verifies");
                    std::mem::forget(c);
                }
            }
        }
        i += 1;
    }
    vk::reach!((count as usize > first.len()) == taken, "the last vote");
    std::mem::forget(agg);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_quorum() {
    run(4, &[3, 1], &[], 4, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_first() {
    run(4, &[], &[], 1, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_few() {
    run(4, &[2], &[], 3, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_all() {
    run(4, &[4, 1, 2], &[], 3, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_again() {
    run(4, &[3, 1, 2], &[], 1, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_bad() {
    run(4, &[1, 3], &[2], 4, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_bad_again() {
    run(4, &[1, 3], &[2], 2, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_stranger() {
    run(4, &[3, 1], &[], 5, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_none() {
    run(4, &[3, 1], &[], 0, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_five() {
    run(5, &[5, 2, 4], &[], 3, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn votes_two_thirds() {
    run(6, &[5, 2, 1, 6], &[], 3, true);
}
