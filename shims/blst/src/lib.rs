//! Ideal BLS signatures. A key is a number, in the group, outside it, or the point at infinity; a signature is the
//! sum of what was signed, as the list of (key, message), possibly with a component outside the group, which the
//! pairing does not see. A sum verifies exactly against the same keys and messages.
#![allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BLST_ERROR {
    BLST_SUCCESS, BLST_BAD_ENCODING, BLST_POINT_NOT_ON_CURVE, BLST_POINT_NOT_IN_GROUP, BLST_AGGR_TYPE_MISMATCH,
    BLST_VERIFY_FAIL, BLST_PK_IS_INFINITY, BLST_BAD_SCALAR,
}
use BLST_ERROR::*;
pub const M: usize = /*MSG*/16;
pub const N: usize = /*SIGS*/3;
pub const GOOD: u8 = 0x80;
pub const OUTSIDE: u8 = 0x81;
pub const INFINITY: u8 = 0xc0;
const DST: &[u8] = b"BLS_SIG_BLS12381G1_XMD:SHA-256_SSWU_RO_NUL_";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Msg { b: [u8; M], n: usize, tag: bool }
impl Msg {
    fn empty() -> Self { Msg { b: [0; M], n: 0, tag: false } }
    fn new(m: &[u8], dst: &[u8], aug: &[u8]) -> Self {
        vk::limit(m.len() <= M);
        let mut b = [0u8; M];
        let mut i = 0;
        while i < m.len() { b[i] = m[i]; i += 1; }
        let mut tag = dst.len() == DST.len() && aug.len() == 0;
        i = 0;
        while tag && i < DST.len() { tag = dst[i] == DST[i]; i += 1; }
        Msg { b, n: m.len(), tag }
    }
    fn same(&self, o: &Msg) -> bool {
        if self.n != o.n || self.tag != o.tag { return false; }
        let mut i = 0;
        while i < self.n { if self.b[i] != o.b[i] { return false; } i += 1; }
        true
    }
}
pub mod min_sig {
    use super::*;
    #[derive(Clone, Copy, Debug)]
    pub struct PublicKey { pub kind: u8, pub id: u8 }
    impl PartialEq for PublicKey { fn eq(&self, o: &Self) -> bool { self.kind == o.kind && self.id == o.id } }
    impl Eq for PublicKey {}
    impl Default for PublicKey { fn default() -> Self { PublicKey { kind: INFINITY, id: 0 } } }
    impl PublicKey {
        pub fn to_bytes(&self) -> [u8; 96] { let mut b = [0u8; 96]; b[0] = self.kind; b[1] = self.id; b }
        pub fn compress(&self) -> [u8; 96] { self.to_bytes() }
        pub fn serialize(&self) -> [u8; 192] { let mut b = [0u8; 192]; b[0] = self.kind & 0x7f; b[1] = self.id; b }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() == 96 && b[0] & 0x80 != 0 { Self::deserialize(b) } else { Err(BLST_BAD_ENCODING) }
        }
        /// The curve check; not the group check.
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if !((b.len() == 96 && b[0] & 0x80 != 0) || (b.len() == 192 && b[0] & 0x80 == 0)) { return Err(BLST_BAD_ENCODING); }
            let (kind, id) = (b[0] | 0x80, b[1]);
            if !(kind == GOOD || kind == OUTSIDE || (kind == INFINITY && id == 0)) { return Err(BLST_POINT_NOT_ON_CURVE); }
            let mut i = 2;
            while i < b.len() { if b[i] != 0 { return Err(BLST_BAD_ENCODING); } i += 1; }
            Ok(PublicKey { kind, id })
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> { Self::deserialize(b) }
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> { let k = Self::from_bytes(b)?; k.validate()?; Ok(k) }
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if self.kind == INFINITY { return Err(BLST_PK_IS_INFINITY); }
            if self.kind == OUTSIDE { return Err(BLST_POINT_NOT_IN_GROUP); }
            Ok(())
        }
    }
    #[derive(Clone, Debug)]
    pub struct SecretKey(pub u8);
    impl SecretKey {
        pub fn key_gen(ikm: &[u8], _: &[u8]) -> Result<Self, BLST_ERROR> { if ikm.len() < 32 { Err(BLST_BAD_ENCODING) } else { Ok(SecretKey(ikm[0])) } }
        pub fn sk_to_pk(&self) -> PublicKey { PublicKey { kind: GOOD, id: self.0 } }
        pub fn sign(&self, m: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            let mut s = Signature { kind: GOOD, n: 1, key: [0; N], msg: [Msg::empty(); N] };
            s.key[0] = self.0;
            s.msg[0] = Msg::new(m, dst, aug);
            s
        }
        pub fn to_bytes(&self) -> [u8; 32] { let mut b = [0u8; 32]; b[31] = self.0; b }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 32 { return Err(BLST_BAD_ENCODING); }
            let mut i = 0;
            while i < 31 { if b[i] != 0 { return Err(BLST_BAD_SCALAR); } i += 1; }
            Ok(SecretKey(b[31]))
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Signature { pub kind: u8, pub n: usize, key: [u8; N], msg: [Msg; N] }
    impl Signature {
        /// With a component outside the group.
        pub fn vk_outside(mut self) -> Self { self.kind = OUTSIDE; self }
        pub fn to_bytes(&self) -> [u8; 48] {
            let mut b = [0u8; 48];
            b[0] = self.kind;
            if self.kind == INFINITY { return b; }
            vk::limit(self.n == 1 && self.msg[0].n <= 16 && self.msg[0].n <= M);
            b[1] = self.key[0];
            b[2] = self.msg[0].n as u8;
            b[3] = self.msg[0].tag as u8;
            let mut i = 0;
            while i < self.msg[0].n { b[4 + i] = self.msg[0].b[i]; i += 1; }
            b
        }
        pub fn compress(&self) -> [u8; 48] { self.to_bytes() }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 48 || b[0] & 0x80 == 0 { return Err(BLST_BAD_ENCODING); }
            let mut s = Signature { kind: b[0], n: 0, key: [0; N], msg: [Msg::empty(); N] };
            if b[0] == INFINITY {
                let mut i = 1;
                while i < 48 { if b[i] != 0 { return Err(BLST_BAD_ENCODING); } i += 1; }
                return Ok(s);
            }
            if (b[0] != GOOD && b[0] != OUTSIDE) || b[2] > 16 || b[2] as usize > M || b[3] > 1 { return Err(BLST_POINT_NOT_ON_CURVE); }
            s.n = 1;
            s.key[0] = b[1];
            s.msg[0].n = b[2] as usize;
            s.msg[0].tag = b[3] == 1;
            let mut i = 0;
            while i < 44 {
                if i < b[2] as usize { s.msg[0].b[i] = b[4 + i]; } else if b[4 + i] != 0 { return Err(BLST_POINT_NOT_ON_CURVE); }
                i += 1;
            }
            Ok(s)
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> { Self::from_bytes(b) }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> { Self::from_bytes(b) }
        pub fn sig_validate(b: &[u8], inf: bool) -> Result<Self, BLST_ERROR> { let s = Self::from_bytes(b)?; s.validate(inf)?; Ok(s) }
        pub fn validate(&self, inf: bool) -> Result<(), BLST_ERROR> {
            if inf && self.kind == INFINITY { return Err(BLST_PK_IS_INFINITY); }
            if self.kind == OUTSIDE { return Err(BLST_POINT_NOT_IN_GROUP); }
            Ok(())
        }
        pub fn verify(&self, group: bool, m: &[u8], dst: &[u8], aug: &[u8], pk: &PublicKey, validate: bool) -> BLST_ERROR {
            self.check(group, &[Msg::new(m, dst, aug)], &[pk], validate)
        }
        pub fn aggregate_verify(&self, group: bool, msgs: &[&[u8]], dst: &[u8], pks: &[&PublicKey], validate: bool) -> BLST_ERROR {
            if msgs.len() == 0 || msgs.len() != pks.len() { return BLST_VERIFY_FAIL; }
            vk::limit(msgs.len() <= N);
            let mut m = [Msg::empty(); N];
            let mut i = 0;
            while i < msgs.len() { m[i] = Msg::new(msgs[i], dst, &[]); i += 1; }
            self.check(group, &m[..msgs.len()], pks, validate)
        }
        pub fn fast_aggregate_verify(&self, group: bool, m: &[u8], dst: &[u8], pks: &[&PublicKey]) -> BLST_ERROR {
            // Keys are taken as validated before.
            if pks.len() == 0 { return BLST_AGGR_TYPE_MISMATCH; }
            vk::limit(pks.len() <= N);
            let m = [Msg::new(m, dst, &[]); N];
            self.check(group, &m[..pks.len()], pks, false)
        }
        fn check(&self, group: bool, msgs: &[Msg], pks: &[&PublicKey], validate: bool) -> BLST_ERROR {
            if group { if let Err(e) = self.validate(false) { return e; } }
            let mut used = [false; N];
            let mut left = self.n;
            let mut i = 0;
            while i < pks.len() {
                if validate { if let Err(e) = pks[i].validate() { return e; } }
                // The point at infinity adds nothing.
                if pks[i].kind != INFINITY {
                    let mut found = false;
                    let mut j = 0;
                    while j < N {
                        if !found && j < self.n && !used[j] && self.key[j] == pks[i].id && self.msg[j].same(&msgs[i]) {
                            used[j] = true;
                            found = true;
                        }
                        j += 1;
                    }
                    if !found { return BLST_VERIFY_FAIL; }
                    left -= 1;
                }
                i += 1;
            }
            if left == 0 { BLST_SUCCESS } else { BLST_VERIFY_FAIL }
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct AggregateSignature(Signature);
    impl AggregateSignature {
        pub fn validate(&self) -> Result<(), BLST_ERROR> { self.0.validate(false) }
        pub fn from_signature(s: &Signature) -> Self { AggregateSignature(*s) }
        pub fn to_signature(&self) -> Signature { self.0 }
        pub fn add_signature(&mut self, s: &Signature, group: bool) -> Result<(), BLST_ERROR> {
            if group { s.validate(false)?; }
            if s.kind == OUTSIDE { self.0.kind = OUTSIDE; }
            if s.kind == GOOD && self.0.kind == INFINITY { self.0.kind = GOOD; }
            let mut i = 0;
            while i < s.n {
                vk::limit(self.0.n < N);
                self.0.key[self.0.n] = s.key[i];
                self.0.msg[self.0.n] = s.msg[i];
                self.0.n += 1;
                i += 1;
            }
            Ok(())
        }
        pub fn aggregate(sigs: &[&Signature], group: bool) -> Result<Self, BLST_ERROR> {
            if sigs.len() == 0 { return Err(BLST_AGGR_TYPE_MISMATCH); }
            if group { sigs[0].validate(false)?; }
            let mut a = AggregateSignature(*sigs[0]);
            let mut i = 1;
            while i < sigs.len() { a.add_signature(sigs[i], group)?; i += 1; }
            Ok(a)
        }
    }
}
