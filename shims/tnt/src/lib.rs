//! Stand-ins for the base types of consensus: identifiers of one byte, ideal signatures, a committee as
//! properties T01 and T02 describe it, and bitmaps.
#![allow(warnings)]
use std::fmt;
use vstd::collections::BTreeSet;
use vstd::/*MAPVEC*/std_vec::Vec;

pub type Round = u32;
pub type Epoch = u32;
pub type VotingPower = u64;
pub type TimestampSec = u64;
pub type WorkerId = u16;

macro_rules! id {
    ($(#[$m:meta])* $n:ident($t:ty)) => {
        $(#[$m])*
        #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n(pub $t);
        impl fmt::Display for $n { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
        impl fmt::Debug for $n { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
    };
}
id!(AuthorityIdentifier(u8));
id!(BlsPublicKey(u8));
id!(Address(u8));
id!(/** An injective stand-in for a hash. */ HeaderDigest(u64));
id!(VoteDigest(u64));
id!(BlockHash(u64));
id!(B256(u64));
impl From<HeaderDigest> for VoteDigest { fn from(d: HeaderDigest) -> Self { VoteDigest(d.0) } }
impl AuthorityIdentifier {
    pub fn dummy_for_test(b: u8) -> Self { AuthorityIdentifier(b) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Authority { id: AuthorityIdentifier, key: BlsPublicKey }
impl Authority {
    pub fn id(&self) -> AuthorityIdentifier { self.id }
    pub fn protocol_key(&self) -> &BlsPublicKey { &self.key }
    pub fn voting_power(&self) -> VotingPower { 1 }
    pub fn execution_address(&self) -> Address { Address(self.id.0) }
}
/// Members 1 to n by identifier; their keys sort the other way round.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Committee { pub n: u8, pub epoch: Epoch, pub workers: usize }
pub const KEY: u8 = 100;
impl Committee {
    pub fn new(n: u8, epoch: Epoch) -> Self { Committee { n, epoch, workers: 1 } }
    /// The identifier of the i-th member in the order of the keys.
    pub fn nth_key(&self, i: u8) -> BlsPublicKey { BlsPublicKey(KEY - (self.n - i)) }
    fn at(&self, id: u8) -> Authority { Authority { id: AuthorityIdentifier(id), key: BlsPublicKey(KEY - id) } }
    pub fn epoch(&self) -> Epoch { self.epoch }
    pub fn size(&self) -> usize { self.n as usize }
    pub fn number_of_workers(&self) -> usize { self.workers }
    pub fn is_authority(&self, id: &AuthorityIdentifier) -> bool { id.0 >= 1 && id.0 <= self.n }
    pub fn authority(&self, id: &AuthorityIdentifier) -> Option<Authority> { if self.is_authority(id) { Some(self.at(id.0)) } else { None } }
    pub fn authority_by_key(&self, k: &BlsPublicKey) -> Option<Authority> { self.authority(&AuthorityIdentifier(KEY.wrapping_sub(k.0))) }
    pub fn voting_power_by_id(&self, id: &AuthorityIdentifier) -> VotingPower { self.is_authority(id) as u64 }
    pub fn voting_power(&self, k: &BlsPublicKey) -> VotingPower { self.authority_by_key(k).is_some() as u64 }
    pub fn total_voting_power(&self) -> VotingPower { self.n as u64 }
    pub fn quorum_threshold(&self) -> VotingPower { quorum_threshold(self.n as u64) }
    pub fn validity_threshold(&self) -> VotingPower { (self.n as u64 + 2) / 3 }
    pub fn reached_quorum(&self, p: VotingPower) -> bool { p >= self.quorum_threshold() }
    pub fn reached_validity(&self, p: VotingPower) -> bool { p >= self.validity_threshold() }
    pub fn authorities(&self) -> Vec<Authority> {
        let mut v = Vec::with_capacity(8);
        let mut i = 1;
        while i <= self.n { v.push(self.at(i)); i += 1; }
        v
    }
    pub fn bls_keys(&self) -> BTreeSet<BlsPublicKey> {
        let mut s = BTreeSet::new();
        let mut i = self.n;
        while i >= 1 { s.insert(BlsPublicKey(KEY - i)); i -= 1; }
        s
    }
    pub fn others_keys_except(&self, k: &BlsPublicKey) -> Vec<BlsPublicKey> {
        let mut v = Vec::with_capacity(8);
        let mut i = self.n;
        while i >= 1 { if KEY - i != k.0 { v.push(BlsPublicKey(KEY - i)); } i -= 1; }
        v
    }
    pub fn others_primaries_by_id(&self, me: Option<&AuthorityIdentifier>) -> Vec<(AuthorityIdentifier, BlsPublicKey)> {
        let mut v = Vec::with_capacity(8);
        let mut i = self.n;
        while i >= 1 { if me.map_or(true, |m| m.0 != i) { v.push((AuthorityIdentifier(i), BlsPublicKey(KEY - i))); } i -= 1; }
        v
    }
}
pub fn quorum_threshold(n: u64) -> u64 { (2 * n) / 3 + 1 }

/// What can be signed: a purpose and a value.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IntentScope { ProofOfPossession, EpochBoundary, ConsensusDigest, SystemMessage, EpochCloseSeed }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Intent(pub u8);
impl Intent {
    pub fn consensus(s: IntentScope) -> Self { Intent(10 + s as u8) }
    pub fn telcoin(s: IntentScope) -> Self { Intent(20 + s as u8) }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IntentMessage<T> { pub intent: Intent, pub value: T }
impl<T> IntentMessage<T> { pub fn new(intent: Intent, value: T) -> Self { IntentMessage { intent, value } } }
pub fn to_intent_message<T>(value: T) -> IntentMessage<T> { IntentMessage::new(Intent::consensus(IntentScope::ConsensusDigest), value) }
/// A value's identity as a message.
pub trait Msg { fn msg(&self) -> u128; }
impl Msg for HeaderDigest { fn msg(&self) -> u128 { self.0 as u128 } }
impl Msg for BlockHash { fn msg(&self) -> u128 { self.0 as u128 } }
impl<T: Msg> Msg for IntentMessage<T> { fn msg(&self) -> u128 { ((self.intent.0 as u128) << 112) | self.value.msg() } }
impl<T: Msg> Msg for &T { fn msg(&self) -> u128 { (**self).msg() } }

/// The bytes of a message, as far as anyone looks at them: its identity.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MsgBytes(pub W);
/// A message's identity, in a form that may lie inside an enum.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct W(pub u64, pub u64);
impl W { pub fn of(x: u128) -> Self { W(x as u64, (x >> 64) as u64) } }
pub fn encode<T: Msg>(t: &T) -> MsgBytes { MsgBytes(W::of(t.msg())) }

/// An ideal signature: the keys (as bits, by their distance from KEY) whose signatures of one message it sums.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct BlsSignature { pub keys: u32, pub msg: W, pub group: u8, pub mixed: u8 }
impl fmt::Debug for BlsSignature { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl Default for BlsSignature { fn default() -> Self { BlsSignature { keys: 0, msg: W(0, 0), group: 1, mixed: 0 } } }
pub fn key_bit(k: &BlsPublicKey) -> u32 {
    let d = KEY.wrapping_sub(k.0);
    if d < 31 { 1 << d } else { 1 << 31 }
}
impl BlsSignature {
    pub fn by(k: BlsPublicKey, msg: W) -> Self { BlsSignature { keys: key_bit(&k), msg, group: 1, mixed: 0 } }
    /// Any signature whatever over any message.
    pub fn any() -> Self { BlsSignature { keys: vk::u32(), msg: W(vk::u64(), vk::u64()), group: vk::u8() & 1, mixed: vk::u8() & 1 } }
    fn is(&self, keys: u32, msg: W) -> bool { self.group == 1 && self.mixed == 0 && self.keys == keys && self.msg == msg && keys != 0 }
    pub fn verify_raw(&self, m: &MsgBytes, k: &BlsPublicKey) -> bool { self.is(key_bit(k), m.0) }
    pub fn to_bytes(&self) -> [u8; 8] { vk::limit(false); [0; 8] }
}
pub trait ProtocolSignature: Sized {
    fn new_secure<T: Msg>(m: &IntentMessage<T>, s: &dyn Signer) -> Self;
    fn verify_secure<T: Msg>(&self, m: &IntentMessage<T>, k: &BlsPublicKey) -> bool;
    fn verify_secure_bytes(&self, m: &MsgBytes, k: &BlsPublicKey) -> bool;
}
impl ProtocolSignature for BlsSignature {
    fn new_secure<T: Msg>(m: &IntentMessage<T>, s: &dyn Signer) -> Self { s.sign(&encode(m)) }
    fn verify_secure<T: Msg>(&self, m: &IntentMessage<T>, k: &BlsPublicKey) -> bool { self.is(key_bit(k), W::of(m.msg())) }
    fn verify_secure_bytes(&self, m: &MsgBytes, k: &BlsPublicKey) -> bool { self.is(key_bit(k), m.0) }
}
pub trait Signer { fn sign(&self, m: &MsgBytes) -> BlsSignature; }
pub trait BlsSigner { fn request_signature_direct(&self, m: &MsgBytes) -> BlsSignature; fn public_key(&self) -> BlsPublicKey; }
/// Who signs with its key.
#[derive(Clone, Copy)]
pub struct KeyOf(pub BlsPublicKey);
impl Signer for KeyOf { fn sign(&self, m: &MsgBytes) -> BlsSignature { BlsSignature::by(self.0, m.0) } }
impl BlsSigner for KeyOf {
    fn request_signature_direct(&self, m: &MsgBytes) -> BlsSignature { BlsSignature::by(self.0, m.0) }
    fn public_key(&self) -> BlsPublicKey { self.0 }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BlsAggregateSignature(pub BlsSignature);
impl BlsAggregateSignature {
    pub fn from_signature(s: &BlsSignature) -> Self { BlsAggregateSignature(*s) }
    pub fn to_signature(&self) -> BlsSignature { self.0 }
    pub fn aggregate(s: &[BlsSignature], check: bool) -> Result<Self, ()> {
        if s.is_empty() { return Err(()); }
        let mut a = s[0];
        if check && a.group == 0 { return Err(()); }
        let mut i = 1;
        while i < s.len() {
            if check && s[i].group == 0 { return Err(()); }
            a = BlsSignature { keys: a.keys | s[i].keys, msg: a.msg, group: a.group & s[i].group,
                               mixed: a.mixed | s[i].mixed | (a.msg != s[i].msg) as u8 | (a.keys & s[i].keys != 0) as u8 };
            i += 1;
        }
        Ok(BlsAggregateSignature(a))
    }
}
pub trait ValidatorAggregateSignature { fn verify_secure<T: Msg>(&self, m: &IntentMessage<T>, ks: &[BlsPublicKey]) -> bool; }
impl ValidatorAggregateSignature for BlsAggregateSignature {
    fn verify_secure<T: Msg>(&self, m: &IntentMessage<T>, ks: &[BlsPublicKey]) -> bool {
        let (mut keys, mut i) = (0, 0);
        while i < ks.len() {
            let b = key_bit(&ks[i]);
            if keys & b != 0 { return false; }
            keys |= b;
            i += 1;
        }
        self.0.is(keys, W::of(m.msg()))
    }
}

/// Bitmaps of up to 32 bits.
pub mod roaring {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct RoaringBitmap(pub u32);
    #[derive(Debug)]
    pub struct NonSortedIntegers;
    impl RoaringBitmap {
        pub fn new() -> Self { RoaringBitmap(0) }
        pub fn from_sorted_iter<I: IntoIterator<Item = u32>>(it: I) -> Result<Self, NonSortedIntegers> {
            let (mut m, mut last) = (0u32, None);
            for i in it {
                vk::limit(i < 32);
                if let Some(l) = last { if i <= l { return Err(NonSortedIntegers); } }
                last = Some(i);
                m |= 1 << i;
            }
            Ok(RoaringBitmap(m))
        }
        pub fn insert(&mut self, i: u32) -> bool { vk::limit(i < 32); let was = self.0 >> i & 1 == 1; self.0 |= 1 << i; !was }
        pub fn contains(&self, i: u32) -> bool { i < 32 && self.0 >> i & 1 == 1 }
        pub fn len(&self) -> u64 { self.0.count_ones() as u64 }
        pub fn is_empty(&self) -> bool { self.0 == 0 }
        pub fn iter(&self) -> Iter { Iter(self.0, 0) }
    }
    #[derive(Clone)]
    pub struct Iter(u32, u32);
    /// The highest bit anyone sets.
    pub const TOP: u32 = /*BITS*/6;
    impl Iterator for Iter {
        type Item = u32;
        fn next(&mut self) -> Option<u32> {
            while self.1 < TOP {
                let i = self.1;
                self.1 += 1;
                if self.0 >> i & 1 == 1 { return Some(i); }
            }
            None
        }
    }
}

/// A header: what certificates and votes look at.
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Header { pub author: AuthorityIdentifier, pub round: Round, pub epoch: Epoch, pub tag: u8, /** One if its own checks pass. (No `bool` here: it would carry the discriminants of enums around it.) */ pub valid: u8 }
impl Header {
    pub fn author(&self) -> &AuthorityIdentifier { &self.author }
    pub fn round(&self) -> Round { self.round }
    pub fn epoch(&self) -> Epoch { self.epoch }
    pub fn nonce(&self) -> u64 { ((self.epoch as u64) << 32) | self.round as u64 }
    /// Two headers have one digest exactly if they are the same (rounds below 2^20, epochs below 2^8).
    pub fn digest(&self) -> HeaderDigest {
        vk::limit(self.round < 1 << 20 && self.epoch < 1 << 8);
        HeaderDigest(self.author.0 as u64 | (self.tag as u64) << 8 | (self.valid as u64) << 16 | (self.epoch as u64) << 17 | (self.round as u64) << 32)
    }
}
#[derive(Clone, Copy, Default, Debug)]
pub struct HeaderBuilder(Header);
impl HeaderBuilder {
    pub fn from_header(h: &Header) -> Self { HeaderBuilder(*h) }
    pub fn author(mut self, a: AuthorityIdentifier) -> Self { self.0.author = a; self }
    pub fn round(mut self, a: Round) -> Self { self.0.round = a; self }
    pub fn epoch(mut self, a: Epoch) -> Self { self.0.epoch = a; self }
    pub fn created_at(mut self, a: TimestampSec) -> Self { self.0.tag = a as u8; self }
    pub fn build(self) -> Header { self.0 }
}
