//! Ideal network signatures: a signature is the signer and the message.
pub mod identity {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct PublicKey(pub u8);
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct PeerId(pub u8);
    impl From<PublicKey> for PeerId { fn from(p: PublicKey) -> Self { PeerId(p.0) } }
    #[derive(Debug)]
    pub struct DecodingError;
    #[derive(Debug)]
    pub struct SigningError;
    impl PublicKey {
        pub fn encode_protobuf(&self) -> Vec<u8> { vec![8, 1, 18, self.0] }
        pub fn try_decode_protobuf(b: &[u8]) -> Result<Self, DecodingError> {
            if b.len() == 4 && b[0] == 8 && b[1] == 1 && b[2] == 18 { Ok(PublicKey(b[3])) } else { Err(DecodingError) }
        }
        pub fn verify(&self, m: &[u8], s: &[u8]) -> bool {
            if s.len() != m.len() + 1 || s[0] != self.0 { return false; }
            let mut i = 0;
            while i < m.len() { if s[i + 1] != m[i] { return false; } i += 1; }
            true
        }
    }
    pub struct Keypair(pub u8);
    impl Keypair {
        pub fn public(&self) -> PublicKey { PublicKey(self.0) }
        pub fn sign(&self, m: &[u8]) -> Result<Vec<u8>, SigningError> {
            let mut v = Vec::with_capacity(64);
            v.push(self.0);
            let mut i = 0;
            while i < m.len() { v.push(m[i]); i += 1; }
            Ok(v)
        }
    }
}
