//! Scores and their order.
use super::*;
use crate::committee::*;
use crate::{Address, BlsPublicKey};

fn id(x: u8) -> AuthorityIdentifier {
    BlsPublicKey(x).into()
}
/// The schedule's order is total, by score then by identifier, both descending, whatever the order of events.
fn order(k: [u8; 3]) {
    let s = [vk::u8() as u64, vk::u8() as u64, vk::u8() as u64];
    let mut r = ReputationScores::default();
    let mut i = 0;
    while i < 3 {
        r.add_score(&id(k[i]), s[i]);
        i += 1;
    }
    let v = r.authorities_by_score_desc();
    assert!(v.len() == 3 && r.total_authorities() == 3, "every authority is ranked");
    i = 0;
    while i < 2 {
        assert!(v[i].1 > v[i + 1].1 || (v[i].1 == v[i + 1].1 && v[i].0 > v[i + 1].0), "by score, then by identifier, descending");
        i += 1;
    }
    i = 0;
    while i < 3 {
        let own = if v[i].0 == id(k[0]) { s[0] } else if v[i].0 == id(k[1]) { s[1] } else { s[2] };
        assert!(v[i].1 == own, "with its own score");
        assert!(v[i].0 == id(k[0]) || v[i].0 == id(k[1]) || v[i].0 == id(k[2]), "no one else");
        i += 1;
    }
    vk::reach!(s[0] == s[1], "a tie");
    std::mem::forget((r, v));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn reputation_order() {
    order([98, 5, 17]);
}
/// Scores add up per authority, strangers are added, members start at zero.
fn sums(w1: u8, w2: u8) {
    let mut b = CommitteeBuilder::new(0);
    b.add_authority(BlsPublicKey(5), Address(0));
    b.add_authority(BlsPublicKey(17), Address(0));
    let c = b.build();
    let mut r = ReputationScores::new(&c);
    assert!(r.all_zero() && r.total_authorities() == 2 && !r.final_of_schedule, "everyone starts at zero");
    let (s1, s2) = (vk::u32() as u64, vk::u32() as u64);
    r.add_score(&id(w1), s1);
    r.add_score(&id(w2), s2);
    let mut i = 0;
    let who = [5, 17, 40, 41];
    while i < 4 {
        let x = who[i];
        let want = (if x == w1 { s1 } else { 0 }) + (if x == w2 { s2 } else { 0 });
        let got = r.scores_per_authority.get(&id(x)).copied();
        assert!(got.unwrap_or(0) == want, "a score is the sum of what was added for it");
        assert!(got.is_some() == (x == w1 || x == w2 || i < 2), "members and whoever scored are listed");
        i += 1;
    }
    assert!(r.all_zero() == (s1 == 0 && s2 == 0), "all zero exactly when nothing was added");
    vk::reach!(s1 > 0, "a score");
    std::mem::forget((r, c));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn reputation_sums() {
    sums(17, 17);
    sums(17, 5);
    sums(40, 5);
    sums(40, 41);
}
