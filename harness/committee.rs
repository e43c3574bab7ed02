//! Quorums and look-ups.
use super::*;

fn of(n: u64, epoch: Epoch) -> Committee {
    let mut b = CommitteeBuilder::new(epoch);
    let mut i = 0;
    while i < n {
        b.add_authority(BlsPublicKey(i as u8), Address(i as u8));
        i += 1;
    }
    b.build()
}
fn thresholds(n: u64) {
    let c = of(n, 3);
    let f = (n - 1) / 3;
    let (q, v) = (c.quorum_threshold(), c.validity_threshold());
    assert!(c.total_voting_power() == n && c.size() as u64 == n, "one vote each");
    assert!(q + q > n + f, "two quorums share an honest member");
    assert!(q <= n - f, "the honest members are a quorum");
    assert!(v > f && v <= n - f, "validity needs an honest member, and the honest reach it");
    assert!(q == n - f && v == f + 1, "no more than needed");
    let p = vk::u64();
    assert!(c.reached_quorum(p) == (p >= q), "a quorum is reached exactly at the threshold");
    assert!(c.reached_validity(p) == (p >= v), "validity is reached exactly at the threshold");
    assert!(quorum_threshold(n) == q, "both ways to compute the threshold agree");
    vk::reach!(c.reached_quorum(p), "reached");
    std::mem::forget(c);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(15))]
pub fn committee_thresholds_small() {
    thresholds(2);
    thresholds(3);
    thresholds(4);
    thresholds(5);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(15))]
pub fn committee_thresholds_mid() {
    thresholds(6);
    thresholds(7);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(15))]
pub fn committee_thresholds_large() {
    thresholds(10);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(15))]
pub fn committee_thresholds_larger() {
    thresholds(13);
}
#[cfg_attr(kani, kani::proof)]
pub fn committee_threshold_all() {
    let n = vk::u64();
    vk::assume(n >= 1 && n < 1 << 20);
    let q = quorum_threshold(n);
    // f = (n - 1) / 3, that is 3f < n <= 3f + 3
    let f = vk::u64();
    vk::assume(f < n && 3 * f < n && n <= 3 * f + 3);
    assert!(q == n - f, "all but the faulty members");
    assert!(q + q > n + f, "two quorums share an honest member");
    vk::reach!(n > 1000, "large");
}

/// Members are told apart by comparing keys only, so it is their order that matters: it is fixed per call;
/// who is asked for, and the fee addresses, are arbitrary.
fn three(k: [u8; 3]) -> ([BlsPublicKey; 3], [Address; 3], Committee) {
    let k = [BlsPublicKey(k[0]), BlsPublicKey(k[1]), BlsPublicKey(k[2])];
    let a = [Address(vk::u8()), Address(vk::u8()), Address(vk::u8())];
    let mut b = CommitteeBuilder::new(vk::u8() as u32);
    b.add_authority(k[0], a[0]);
    b.add_authority(k[1], a[1]);
    b.add_authority(k[2], a[2]);
    (k, a, b.build())
}
fn node(x: u8) -> P2pNode {
    (Multiaddr(x), NetworkPublicKey(x)).into()
}
/// Keys and identifiers name the same members, in any order of addition.
fn lookup(k: [u8; 3]) {
    let (k, a, c) = three(k);
    assert!(c.size() == 3);
    let who = BlsPublicKey(vk::u8());
    let id: AuthorityIdentifier = who.into();
    let member = who == k[0] || who == k[1] || who == k[2];
    let by_key = c.authority_by_key(&who);
    let by_id = c.authority(&id);
    assert!(by_key.is_some() == member && by_id.is_some() == member, "exactly the members are found");
    assert!(c.is_authority(&id) == member, "exactly the members are authorities");
    let power = if member { 1 } else { 0 };
    assert!(c.voting_power(&who) == power && c.voting_power_by_id(&id) == power, "one vote per member, none for others");
    if let (Some(x), Some(y)) = (&by_key, &by_id) {
        assert!(*x.protocol_key() == who && *y.protocol_key() == who && x.id() == id, "key and identifier name the same member");
        let want = if who == k[0] { a[0] } else if who == k[1] { a[1] } else { a[2] };
        assert!(x.execution_address() == want && y.execution_address() == want, "with its own fee address");
    }
    vk::reach!(member, "a member");
    vk::reach!(!member, "a stranger");
    std::mem::forget((c, by_key, by_id, id));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn committee_lookup_a() {
    lookup([5, 17, 98]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn committee_lookup_b() {
    lookup([98, 5, 17]);
}
fn lists(k: [u8; 3]) {
    let (k, _, c) = three(k);
    let all = c.authorities();
    assert!(all.len() == 3, "all members are listed");
    assert!(all[0].id() < all[1].id() && all[1].id() < all[2].id(), "in the order of their identifiers, each once");
    let keys = c.bls_keys();
    assert!(keys.len() == 3 && keys.contains(&k[0]) && keys.contains(&k[1]) && keys.contains(&k[2]), "all keys");
    // The caller: each member, and a stranger.
    let mut m = 0;
    while m < 4 {
        let me = if m < 3 { k[m] } else { BlsPublicKey(77) };
        let others = c.others_keys_except(&me);
        let id: AuthorityIdentifier = me.into();
        let o = c.others_primaries_by_id(Some(&id));
        let n = if m < 3 { 2 } else { 3 };
        assert!(others.len() == n && o.len() == n, "everyone but the caller");
        let mut i = 0;
        while i < n {
            assert!(others[i] != me && (others[i] == k[0] || others[i] == k[1] || others[i] == k[2]), "members other than the caller");
            assert!(i == 0 || others[i - 1] < others[i], "each once, in key order");
            assert!(o[i].0 == AuthorityIdentifier::from(o[i].1) && o[i].1 == others[i], "identifier and key belong together");
            i += 1;
        }
        std::mem::forget((others, o, id));
        m += 1;
    }
    let o = c.others_primaries_by_id(None);
    assert!(o.len() == 3, "everyone, when no one asks");
    vk::reach!(true, "the end");
    std::mem::forget((c, all, keys, o));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn committee_lists() {
    lists([98, 5, 17]);
}
/// The order of addition and re-adding do not matter; members, addresses and epoch do.
fn equality(other: bool) {
    let (k, a) = ([BlsPublicKey(5), BlsPublicKey(17), BlsPublicKey(98)], [Address(vk::u8()), Address(7)]);
    let (e, e2) = (vk::u8() as u32, vk::u8() as u32);
    let mut b = CommitteeBuilder::new(e);
    b.add_authority(k[0], a[0]);
    b.add_authority(k[1], a[1]);
    let mut d = CommitteeBuilder::new(e2);
    let (x, xa) = (if other { k[2] } else { k[0] }, Address(vk::u8()));
    d.add_authority(k[1], a[1]);
    d.add_authority(x, Address(9));
    d.add_authority(x, xa);
    let (c, d) = (b.build(), d.build());
    assert!(d.size() == 2, "a key counts once");
    assert!((c == d) == (e == e2 && !other && xa == a[0]), "equal for the same epoch and members only");
    vk::reach!((c == d) != other, "equal, or not");
    std::mem::forget((c, d));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn committee_equal() {
    equality(false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn committee_unequal() {
    equality(true);
}

/// Only http(s) and ws(s) endpoints of bounded length pass for what they are advertised as.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(10))]
pub fn committee_rpc() {
    let url = || {
        let len = vk::usize();
        let scheme = match vk::below(6) {
            0 => crate::Scheme::Http,
            1 => crate::Scheme::Https,
            2 => crate::Scheme::Ws,
            3 => crate::Scheme::Wss,
            4 => crate::Scheme::Ftp,
            _ => crate::Scheme::Other,
        };
        Url { len, scheme }
    };
    let http = url();
    let ws = if vk::bool() { Some(url()) } else { None };
    let r = RpcInfo { http, ws }.validate();
    let h = http.len <= 2048 && matches!(http.scheme, crate::Scheme::Http | crate::Scheme::Https);
    let w = match ws {
        None => true,
        Some(u) => u.len <= 2048 && matches!(u.scheme, crate::Scheme::Ws | crate::Scheme::Wss),
    };
    assert!(r.is_ok() == (h && w), "each endpoint of its own kind, and short enough");
    vk::reach!(r.is_ok() && ws.is_some(), "accepted");
    vk::reach!(r.is_err() && h, "a bad ws endpoint");
    std::mem::forget(r);
}
/// Bootstrap servers are found by key, and are not members.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn committee_bootstrap() {
    let k = [BlsPublicKey(98), BlsPublicKey(5), BlsPublicKey(17)];
    let p = vk::u8();
    let mut b = CommitteeBuilder::new(7);
    b.add_authority(k[0], Address(1));
    b.add_authority(k[1], Address(1));
    b.add_bootstrap_server(k[2], node(p), node(1));
    let c = b.build();
    assert!(c.size() == 2 && c.authority_by_key(&k[2]).is_none(), "a bootstrap server is no member by itself");
    let who = BlsPublicKey(vk::u8());
    let s = c.get_bootstrap(&who);
    assert!(s.is_some() == (who == k[2]), "a member is no bootstrap server by itself");
    if let Some(s) = &s {
        assert!(s.primary.network_address.0 == p && s.worker.network_address.0 == 1, "with its nodes");
    }
    vk::reach!(s.is_some(), "found");
    std::mem::forget((c, s));
}
