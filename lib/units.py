import glob
import os
from gen import F, REPO, Unit

A = "crates/storage/src/archive/"
T = "crates/types/src/"

def const(name, ty, val):
    return (rf"\bconst {name}: {ty} =[^;]*;", f"const {name}: {ty} = {val};")

TEXT = (r"\b(\w+)\.to_string\(\)", r"vstd::text(&\1)")

VEC = [(r"\.copy_from_slice\(", ".vk_copy_from_slice(")]
TEXT2 = (r"\.to_string\(\)", ".vk_text()")
VECP = "#[allow(unused_imports)] use vstd::{VkText as _, vec::{vec, SliceCopy as _, Vec}};\n"

def archive(name, consts, df=(), pack=(), it=(), pos=(), hdx=(), bloom=(), crc=(), rb=4, wb=3, maxrec=8, cached=2, bsize=8):
    files = {f"archive/error/{os.path.basename(p)}": F(A + "error/" + os.path.basename(p))
             for p in sorted(glob.glob(os.path.join(REPO, A, "error/*.rs")))}
    files |= {
        "archive/mod.rs": F(A + "mod.rs", [(r"(?m)^(?:pub\(crate\) )?mod ", "pub mod ")]),
        "archive/crc.rs": F(A + "crc.rs", [], crc),
        "archive/data_file.rs": F(A + "data_file.rs", [const("READ_BUFFER_SIZE", "usize", rb), const("WRITE_BUFFER_SIZE", "usize", wb)], df),
        "archive/fxhasher.rs": F(A + "fxhasher.rs"),
        "archive/index.rs": F(A + "index.rs"),
        "archive/pack.rs": F(A + "pack.rs", [TEXT], pack),
        "archive/pack_iter.rs": F(A + "pack_iter.rs", [TEXT, const("MAX_RECORD_SIZE", "u32", maxrec)], it),
        "archive/position_index/mod.rs": F(A + "position_index/mod.rs"),
        "archive/position_index/index.rs": F(A + "position_index/index.rs", [TEXT], pos),
        "archive/digest_index/mod.rs": F(A + "digest_index/mod.rs"),
        "archive/digest_index/index.rs": F(A + "digest_index/index.rs", [TEXT, const("INITIAL_BUCKETS", "usize", 1), const("BUCKET_ELEMENTS", "usize", 2), const("CACHED_BUCKETS", "usize", cached)], hdx),
        "archive/digest_index/bloom.rs": F(A + "digest_index/bloom.rs", [const("BLOOM_SIZE_BYTES", "usize", bsize)], bloom),
        "archive/digest_index/bucket_iter.rs": F(A + "digest_index/bucket_iter.rs"),
        "archive/digest_index/odx_header.rs": F(A + "digest_index/odx_header.rs"),
        "codec.rs": F(T + "codec.rs", std=False),
    }
    for rel, f in files.items():
        if rel.startswith("archive/"):
            f.prepend = VECP
            f.sync = True
            f.subs += VEC
        if rel.startswith("archive/error/"):
            f.subs.append((r"(?<![\w:])String\b(?!::)", "vstd::Text"))
    Unit(name, files, "pub mod archive;\nmod codec;\npub mod tn_types { pub use crate::codec::*; pub use b256::B256; }\n",
         deps=dict(serde='{ version = "1", features = ["derive"] }', bcs='"0.1.4"', bincode='"1.3.3"', eyre='"0.6"'),
         shims=["vk", "vstd", "tracing", "crc32fast", "tokio", "zstd", "b256"], consts=consts,
         subs=[(r"(?<![\w:])tn_types::", "crate::tn_types::")])

archive("datafile", dict(FCAP=12, MAXF=1, VCAP=4, XFER=4), df=["datafile"])
archive("pack", dict(FCAP=64, MAXF=1, VCAP=64, XFER=64), pack=["pack"], rb=64, wb=64)
# The write buffer as small as a length prefix, so that an append reaches the disk.
archive("packfull", dict(FCAP=64, MAXF=1, VCAP=64, XFER=64, RETRY=10), pack=["pack"], rb=64, wb=8)

archive("posidx", dict(FCAP=64, MAXF=1, VCAP=64, XFER=64), pos=["posidx"], rb=64, wb=64)
HDX = dict(FCAP=360, MAXF=2, VCAP=70, XFER=70, B256N=8, MAPCAP=8, ERRPAD=6, MOVES="true")
# A checksum of the length only, so that reading back what was written decides nothing.
archive("hdx", HDX | dict(CRCLEN=1), hdx=["hdx"])
archive("hdxcrc", HDX, hdx=["hdxcrc"])
archive("bloom", dict(FCAP=12, MAXF=1, VCAP=64, XFER=4), bloom=["bloom"], crc=["crc"], bsize=64)

# --- types ---
def coll():
    """The collections only; a `use std::{...}` group goes through vstd, which re-exports std."""
    return [(r"(?<![\w:])std::collections::", "vstd::collections::"),
            (r"(?<![\w:])std::\{", "vstd::{")]
TYPES_LIB = """
pub mod committee;
pub mod reputation;
pub use committee::*;
pub use reputation::*;
pub use std_in::*;
pub mod std_in {
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Address(pub u8);
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Multiaddr(pub u8);
    /// A URL that is taken apart already.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Url { pub len: usize, pub scheme: Scheme }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub enum Scheme { Http, Https, Ws, Wss, Ftp, Other }
    pub struct UrlText(usize);
    impl UrlText { pub fn len(&self) -> usize { self.0 } }
    impl Url {
        pub fn as_str(&self) -> UrlText { UrlText(self.len) }
        pub fn scheme(&self) -> &'static str {
            match self.scheme { Scheme::Http => "http", Scheme::Https => "https", Scheme::Ws => "ws", Scheme::Wss => "wss", Scheme::Ftp => "ftp", Scheme::Other => "" }
        }
    }
    /// A hash without collisions that keeps no order.
    pub struct DefaultHashFunction(u16);
    pub struct Hash2(Id2);
    impl DefaultHashFunction {
        pub fn new() -> Self { Self(1) }
        pub fn update(&mut self, b: &[u8]) -> &mut Self {
            vk::limit(b.len() == 1 && self.0 == 1);
            self.0 = 0x100 | (b[0].rotate_left(4) ^ 0xa5) as u16;
            self
        }
        pub fn finalize(&self) -> Hash2 { Hash2(Id2(self.0)) }
    }
    impl Hash2 { pub fn as_bytes(&self) -> &Id2 { &self.0 } }
    /// The 32 bytes of an identifier.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
    pub struct Id2(pub u16);
    impl AsRef<[u8]> for Id2 { fn as_ref(&self) -> &[u8] { &[] } }
    impl TryFrom<Vec<u8>> for Id2 {
        type Error = Vec<u8>;
        fn try_from(v: Vec<u8>) -> Result<Self, Vec<u8>> { if v.len() == 2 { Ok(Id2(u16::from_be_bytes([v[0], v[1]]))) } else { Err(v) } }
    }
}
pub mod crypto {
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Serialize, Deserialize)]
    pub struct BlsPublicKey(pub u8);
    impl BlsPublicKey {
        pub fn to_bytes(&self) -> [u8; 1] { [self.0] }
        pub fn encode_base58(&self) -> String { String::new() }
    }
    impl std::fmt::Display for BlsPublicKey {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct NetworkPublicKey(pub u8);
}
pub use crypto::{BlsPublicKey, NetworkPublicKey};
"""
ID2 = [(r"\[u8; 32\]", "crate::Id2"), (r"\[0_u8; 32\]", "crate::Id2(0)"), (r"\[byte; 32\]", "crate::Id2(byte as u16)")]
Unit("types", {
        "committee.rs": F(T + "committee.rs", coll() + ID2 + [(r"\buse url::Url;", "use crate::Url;")], ["committee"], std=False),
        "reputation.rs": F(T + "primary/reputation.rs", coll(), ["reputation"], std=False),
     }, TYPES_LIB, deps=dict(serde='{ version = "1", features = ["derive"] }', thiserror='"2"', bs58='"0.5"', bcs='"0.1.4"'), consts=dict(MAPCAP=14))

# --- signatures ---
C = T + "crypto/"
CRYPTO_LIB = """
#[macro_export]
macro_rules! vkfmt { ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); "" }}; }
pub mod crypto;
mod codec;
pub use codec::*;
pub use crypto::*;
pub use alloy::primitives::Address;
/// The chain's genesis: whatever its encoding says.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize)]
pub struct Genesis(pub u16);
pub mod alloy { pub mod primitives {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Address(pub [u8; 20]);
    impl Address { pub fn as_slice(&self) -> &[u8] { &self.0 } }
    impl AsRef<[u8]> for Address { fn as_ref(&self) -> &[u8] { &self.0 } }
} }
pub mod secp256k1 { pub struct PublicKey; pub struct Keypair; }
pub mod blake3 { pub struct Hasher; }
pub use b256::B256;
pub mod rand { pub trait RngCore { fn fill_bytes(&mut self, b: &mut [u8]); } pub trait CryptoRng {} }
"""
def crypto(name, consts, h):
    up = [(r"(?<![\w!])format!\s*\(", "crate::vkfmt!(")] + [(rf"(?<![\w:]){c}::", f"crate::{c}::") for c in ("alloy", "secp256k1", "blake3", "rand")]
    fs = {f"crypto/{n}.rs": F(C + n + ".rs", up, [], std=False) for n in ("bls_keypair", "bls_public_key", "bls_signature", "intent", "network")}
    fs["crypto/mod.rs"] = F(C + "mod.rs", up + [(r"(?s)\bfn request_signature\(.*?\n    \}\n", "")], [h], std=False)
    fs["codec.rs"] = F(T + "codec.rs", std=False)
    Unit(name, fs, CRYPTO_LIB, deps=dict(serde='{ version = "1", features = ["derive"] }', serde_repr='"0.1"', bincode='"1.3.3"', hex='"0.4"'),
         shims=["vk", "blst", "eyre", "libp2p", "bcs", "bs58", "b256"], consts=consts)
crypto("crypto", dict(MSG=16, SIGS=3), "crypto")
crypto("cryptobig", dict(MSG=120, SIGS=1), "encoding")

# --- waking and waiting ---
def hasher():
    return [(r"\bhash_map::DefaultHasher\b", "hash_map::DefaultHasher")]
def sync_unit(name, vec, **consts):
    Unit(name, {
        "notifier.rs": F(T + "notifier.rs", [], ["notifier"], std=False, prepend=VECP),
        "sync.rs": F(T + "sync.rs", [], ["channels"], std=False),
        "notify_read.rs": F("crates/tn-utils/src/notify_read.rs", coll() + [(r"\(0\.\.255\)", "(0..2)")] + vec, ["notify_read"], std=False),
        "error_latch.rs": F("crates/storage/src/error_latch.rs", [], ["latch"], std=False),
     }, "pub mod notifier;\npub mod sync;\npub mod notify_read;\npub mod error_latch;\npub use notifier::*;\npub use sync::*;\n",
     shims=["vk", "vstd", "tokio", "parking_lot", "tracing"], consts=dict(VCAP=3, **consts))
sync_unit("sync", [])
# Vectors in place: what the solver needs where a list is made anew.
sync_unit("syncv", [(r"\bVec<oneshot::Sender", "vstd::vec::Vec<oneshot::Sender")])
sync_unit("syncm", [(r"\bVec<oneshot::Sender", "vstd::vec::Vec<oneshot::Sender")], MAPVEC="vec", MAPCONST="")

# --- banned peers ---
Unit("peers", {"cache.rs": F("crates/network-libp2p/src/peers/cache.rs", coll() + [(r"(?<![\w:])std::time::", "vstd::time::")], ["banned"], std=False, prepend=VECP)},
     "pub mod cache;\n", shims=["vk", "vstd"], consts=dict(VCAP=4, MAPVEC="vec", MAPCONST=""))

# --- keys of the stores ---
Unit("keys", {"codec.rs": F(T + "codec.rs", [], ["keys"], std=False)}, "pub mod codec;\npub use codec::*;\n",
     deps=dict(serde='{ version = "1", features = ["derive"] }', bincode='"1.3.3"'), shims=["vk", "eyre", "bcs"])

# --- small things ---
H_NET = [(r"(?<![\w:])std::net::", "vstd::net::"), (r"\buse std::\{", "use vstd::{"), (r"(?<![\w:])std::env::", "vstd::env::"), (r"(?<![\w:])std::io::", "::std::io::"),
         (r"\beprintln!", "vstd::quiet!")]
Unit("slots", {"helpers.rs": F(T + "helpers.rs", H_NET + [(r"\buse secp256k1::", "use crate::secp256k1::")], ["slots"], std=False)},
     "pub mod helpers;\npub use helpers::*;\npub struct Address;\nimpl Address { pub fn from_slice(_: &[u8]) -> Self { Address } }\npub fn keccak256(_: &[u8]) -> [u8; 32] { [0; 32] }\n"
     "pub mod secp256k1 { pub struct PublicKey; impl PublicKey { pub fn serialize_uncompressed(&self) -> [u8; 65] { [0; 65] } } }\n",
     shims=["vk", "vstd", "parking_lot"])

# --- votes, certificates and epoch records ---
def strip_serde():
    return [(r"(?m)^\s*#\[serde_as[^\n]*\n", "\n"), (r"(?m)^use serde(?:_with)?::[^\n]*;\n", ""), (r"\bSerialize, Deserialize(?:, )?", ""), (r", Serialize, Deserialize\b", "")]
CERTS_LIB = """
pub use tnt::*;
pub mod error;
pub mod certificate;
pub mod epoch;
pub mod votes;
pub mod serde { pub use ::serde::*; pub struct RoaringBitmapSerde; }
pub mod roaring { pub use tnt::roaring::*; }
pub use crate::certificate::*;
pub use crate::epoch::*;
pub mod committee { pub use tnt::quorum_threshold; }
/// A vote, as it is read from the network.
#[derive(Clone, Copy, Debug)]
pub struct Vote { pub header_digest: HeaderDigest, pub round: Round, pub epoch: Epoch, pub origin: AuthorityIdentifier, pub author: AuthorityIdentifier, pub signature: BlsSignature }
impl Vote {
    pub fn author(&self) -> &AuthorityIdentifier { &self.author }
    pub fn signature(&self) -> &BlsSignature { &self.signature }
    pub fn header_digest(&self) -> HeaderDigest { self.header_digest }
    pub fn round(&self) -> Round { self.round }
    pub fn epoch(&self) -> Epoch { self.epoch }
    pub fn origin(&self) -> &AuthorityIdentifier { &self.origin }
}
/// A record's contents, as far as the harnesses vary them, as a number.
impl Msg for EpochRecord {
    fn msg(&self) -> u128 {
        let (c, n) = (&self.committee, &self.next_committee);
        vk::limit(self.epoch < 256 && c.len() <= 6 && n.len() <= 2 && self.parent_hash.0 < 256 && self.final_state.number < 256 && self.final_state.hash.0 == 0
            && self.final_consensus.number < 256 && self.final_consensus.hash.0 == 0);
        let mut x = (self.epoch as u128) | (c.len() as u128) << 8 | (n.len() as u128) << 11 | (self.parent_hash.0 as u128) << 13 | (self.final_state.number as u128) << 21 | (self.final_consensus.number as u128) << 29;
        let mut i = 0;
        while i < c.len() { x |= (c[i].0 as u128) << (37 + 8 * i); i += 1; }
        i = 0;
        while i < n.len() { x |= (n[i].0 as u128) << (85 + 8 * i); i += 1; }
        x
    }
}
impl Msg for EpochSeedMessage {
    fn msg(&self) -> u128 { crate::epoch::vk_epoch_record::parts(self) }
}

pub trait Hash<const N: usize> { type TypedDigest; fn digest(&self) -> Self::TypedDigest; }
pub use crate::error::*;
pub use std_in::*;
pub mod std_in {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct BlockNumHash { pub number: u64, pub hash: super::BlockHash }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct ConsensusNumHash { pub number: u64, pub hash: super::BlockHash }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Digest<const N: usize>(pub u64);
    impl<const N: usize> std::fmt::Display for Digest<N> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    #[derive(Debug)]
    pub struct SendError<T>(pub T);
    impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    /// One header is valid and another is not, as the harness says.
    pub trait Validate { fn validate(&self, c: &super::Committee) -> crate::error::HeaderResult<()>; }
    impl Validate for super::Header {
        fn validate(&self, _: &super::Committee) -> crate::error::HeaderResult<()> { if self.valid == 1 { Ok(()) } else { Err(crate::error::HeaderError::InvalidParents) } }
    }
}
pub mod crypto {
    pub use tnt::*;
    pub const DIGEST_LENGTH: usize = 32;
    pub const INTENT_MESSAGE_LENGTH: usize = 35;
    /// What an epoch record's digest is taken of: everything it holds.
    pub struct DefaultHashFunction(u128);
    pub struct Out([u8; 16]);
    impl DefaultHashFunction {
        pub fn new() -> Self { Self(0) }
        pub fn update(&mut self, b: &tnt::MsgBytes) -> &mut Self { self.0 = b.0 .0 as u128 | (b.0 .1 as u128) << 64; self }
        pub fn finalize(&self) -> Out { Out(self.0.to_le_bytes()) }
    }
    impl Out { pub fn as_bytes(&self) -> &[u8; 16] { &self.0 } }
    macro_rules! digest_newtype {
        ($(#[$m:meta])* $v:vis struct $n:ident;) => {
            #[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
            $v struct $n(pub u128);
            impl From<[u8; 16]> for $n { fn from(b: [u8; 16]) -> Self { $n(u128::from_le_bytes(b)) } }
            impl tnt::Msg for $n { fn msg(&self) -> u128 { self.0 } }
        };
    }
    pub(crate) use digest_newtype;
}
pub mod alloy { pub mod eips { pub use crate::BlockNumHash; } }
"""
TN = [(r"(?<![\w:])tn_types::", "crate::"), (r"(?<![\w:])roaring::", "crate::roaring::"), (r"(?<![\w:])alloy::", "crate::alloy::")]
V = [(r"(?<![\w.!:])vec!\[", "vstd::vec::vec![")]
Unit("certs", {
    "error.rs": F(T + "error.rs", [(r"(?<![\w])String\b(?!::)", "vstd::Text"), TEXT2], std=False, prepend="#[allow(unused_imports)] use vstd::VkText as _;\n"),
    "certificate.rs": F(T + "primary/certificate.rs", coll() + TN + strip_serde() + [TEXT2], ["certificate"], cut=[r"impl From<&\[u8\]> for Certificate", r"impl From<&Certificate> for Vec"], std=False,
                        prepend=VECP + "use crate::Validate as _;\n"),
    "epoch.rs": F(T + "primary/epoch.rs", coll() + TN + strip_serde(), ["epoch_record"], std=False, prepend=VECP),
    "votes.rs": F("crates/consensus/primary/src/aggregators/votes.rs", coll() + TN + [TEXT2], ["votes"], std=False, prepend=VECP),
}, CERTS_LIB, deps=dict(thiserror='"2"', serde='"1"'), shims=["vk", "vstd", "tracing", "tokio", "parking_lot", "eyre", "tnt"], consts=dict(VCAP=7, MAPVEC="vec", MAPCONST="", BITS=6))

Unit("penalty", {"utils.rs": F("crates/tn-reth/src/evm/utils.rs", [(r"(?s)#\[cfg\(test\)\]\s*mod tests? \{.*\Z", "")], ["penalty"])}, "pub mod utils;\n", shims=["vk", "vstd", "tracing"])

# alloy's part of the formula, as its sources have it.
ALLOY_FEE = '''
pub const MIN_PROTOCOL_BASE_FEE: u64 = 7;
pub struct BaseFeeParams { pub max_change_denominator: u128, pub elasticity_multiplier: u128 }
impl BaseFeeParams { pub const fn ethereum() -> Self { BaseFeeParams { max_change_denominator: 8, elasticity_multiplier: 2 } } }
pub fn calc_next_block_base_fee(gas_used: u64, gas_limit: u64, base_fee: u64, p: BaseFeeParams) -> u64 {
    let target = gas_limit / p.elasticity_multiplier as u64;
    if gas_used == target { return base_fee; }
    if gas_used > target {
        let d = base_fee as u128 * (gas_used - target) as u128 / (target as u128 * p.max_change_denominator);
        base_fee + core::cmp::max(1, d) as u64
    } else {
        let d = base_fee as u128 * (target - gas_used) as u128 / (target as u128 * p.max_change_denominator);
        base_fee.saturating_sub(d as u64)
    }
}
'''
Unit("basefee", {"gas_accumulator.rs": F(T + "gas_accumulator.rs", [], ["base_fee"], std=False, prepend=ALLOY_FEE,
     keep=[r"pub enum WorkerFeeConfig", r"const SAFE_MAX_BASE_FEE", r"pub fn compute_next_base_fee_eip1559", r"pub fn next_base_fee_for_config"])},
     "pub mod gas_accumulator;\n", shims=["vk", "tracing"])

# --- the key-value store ---
STORE_LIB = """
pub mod database_traits;
pub use database_traits::*;
pub mod db { pub mod database; pub mod wraps; }
/// Keys of one and two bytes, as property K01 has them: most significant first. Values are one byte.
pub fn encode_key<T: serde::Serialize>(x: &T) -> Vec<u8> {
    let n = std::mem::size_of::<T>();
    let mut v = Vec::with_capacity(2);
    unsafe {
        if n == 1 { v.push(*(x as *const T as *const u8)); }
        else { vk::limit(n == 2); let b = (*(x as *const T as *const u16)).to_be_bytes(); v.push(b[0]); v.push(b[1]); }
    }
    v
}
pub fn decode_key<T>(b: &[u8]) -> T {
    let n = std::mem::size_of::<T>();
    assert!(b.len() == n, "a key of the wrong length");
    unsafe {
        if n == 1 { std::ptr::read(b.as_ptr() as *const T) }
        else { let x = u16::from_be_bytes([b[0], b[1]]); std::ptr::read(&x as *const u16 as *const T) }
    }
}
pub fn try_decode_key<T>(b: &[u8]) -> eyre::Result<T> { Ok(decode_key(b)) }
pub fn encode<T: serde::Serialize>(x: &T) -> Vec<u8> { encode_key(x) }
pub fn decode<T>(b: &[u8]) -> T { decode_key(b) }
pub fn try_decode<T>(b: &[u8]) -> eyre::Result<T> { Ok(decode_key(b)) }
"""
# What the ouroboros macro makes of ReDBIter: a guard, a table made from it, and an iterator made from the table.
REDB_ITER = '''
pub struct ReDBIterBuilder<'a, K: KeyT, V: ValueT, TB, IB, I>
where
    TB: FnOnce(&mut RwLockReadGuard<'a, ReDatabase>) -> ReadOnlyTable<KeyWrap<K>, ValWrap<V>>,
    IB: FnOnce(&'static ReadOnlyTable<KeyWrap<K>, ValWrap<V>>) -> Box<I>,
{
    guard: RwLockReadGuard<'a, ReDatabase>,
    table_builder: TB,
    iter_builder: IB,
}
pub struct ReDBIter<'a, I>(RwLockReadGuard<'a, ReDatabase>, Box<I>);
impl<'a, K: KeyT, V: ValueT, TB, IB, I> ReDBIterBuilder<'a, K, V, TB, IB, I>
where
    TB: FnOnce(&mut RwLockReadGuard<'a, ReDatabase>) -> ReadOnlyTable<KeyWrap<K>, ValWrap<V>>,
    IB: FnOnce(&'static ReadOnlyTable<KeyWrap<K>, ValWrap<V>>) -> Box<I>,
{
    pub fn build(mut self) -> ReDBIter<'a, I> {
        let table = Box::leak(Box::new((self.table_builder)(&mut self.guard)));
        ReDBIter(self.guard, (self.iter_builder)(table))
    }
}
impl<I: Iterator> Iterator for ReDBIter<'_, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.1.next() }
}
'''
TNC = [(r"(?<![\w:])tn_types::", "crate::")]
Unit("store", {
    "database_traits.rs": F(T + "database_traits.rs", [], std=False),
    "db/database.rs": F("crates/storage/src/redb/database.rs", TNC + [(r"use ouroboros::self_referencing;", "")], ["store"], std=False, append=REDB_ITER,
                        cut=[r"pub struct ReDBIter<", r"impl<K, V> Iterator for ReDBIter<"]),
    "db/wraps.rs": F("crates/storage/src/redb/wraps.rs", TNC, std=False),
}, STORE_LIB, deps=dict(serde='{ version = "1", features = ["derive"] }'), shims=["vk", "eyre", "parking_lot", "redb"])

# --- the layered store ---
LAYERED_LIB = """
pub mod database_traits;
pub use database_traits::*;
pub mod layered_db;
pub mod mem_db { pub use crate::phys::Mem as MemDatabase; }
#[derive(Debug)]
pub struct Table1;
impl Table for Table1 { type Key = u8; type Value = u8; const NAME: &'static str = "t"; const HINT: TableHint = TableHint::Epoch; }
/// The parts of std the background thread uses: a queue that calls the harness whenever it is asked for a message,
/// and a thread that runs when the harness says so.
pub mod lstd {
    pub use ::std::{fmt, future, marker};
    pub mod sync { pub use ::std::sync::{atomic, Arc}; pub use super::mpsc; }
    pub mod time {
        pub use ::std::time::Duration;
        #[derive(Clone, Copy, Debug)]
        pub struct Instant;
        impl Instant { pub fn now() -> Self { Instant } pub fn elapsed(&self) -> Duration { Duration::ZERO } }
    }
    static mut JOB: Option<Box<dyn FnOnce()>> = None;
    static mut HOOK: Option<fn(u8)> = None;
    static mut DONE: u8 = 0;
    pub fn set_hook(f: fn(u8)) { unsafe { HOOK = Some(f) } }
    pub fn run() { unsafe { let j = (*::std::ptr::addr_of_mut!(JOB)).take().unwrap(); j(); } }
    pub fn done() -> u8 { unsafe { DONE } }
    pub mod thread {
        pub struct JoinHandle<T>(::std::marker::PhantomData<T>);
        unsafe impl<T> Send for JoinHandle<T> {}
        unsafe impl<T> Sync for JoinHandle<T> {}
        impl<T> JoinHandle<T> { pub fn join(self) -> Result<(), ()> { Ok(()) } }
        impl<T> ::std::fmt::Debug for JoinHandle<T> { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) } }
        pub fn spawn<F: FnOnce() + 'static>(f: F) -> JoinHandle<()> { unsafe { ::std::mem::forget(::std::mem::replace(&mut *::std::ptr::addr_of_mut!(super::JOB), Some(Box::new(f)))) }; JoinHandle(::std::marker::PhantomData) }
        pub fn sleep(_: ::std::time::Duration) { panic!("nobody sleeps in a harness") }
    }
    pub mod mpsc {
        const N: usize = 14;
        struct Q<T> { q: [Option<T>; N], n: usize, at: usize }
        pub struct Sender<T>(*mut Q<T>);
        pub struct Receiver<T>(*mut Q<T>);
        unsafe impl<T> Send for Sender<T> {}
        unsafe impl<T> Sync for Sender<T> {}
        unsafe impl<T> Send for Receiver<T> {}
        #[derive(Debug)]
        pub struct SendError<T>(pub T);
        #[derive(Debug)]
        pub struct RecvError;
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let q = Box::leak(Box::new(Q { q: [const { None }; N], n: 0, at: 0 })) as *mut Q<T>;
            (Sender(q), Receiver(q))
        }
        impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender(self.0) } }
        impl<T> ::std::fmt::Debug for Sender<T> { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) } }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                let q = unsafe { &mut *self.0 };
                vk::limit(q.n < N);
                unsafe { ::std::ptr::write(&mut q.q[q.n], Some(t)); }
                q.n += 1;
                Ok(())
            }
        }
        impl<T> Receiver<T> {
            pub fn recv(&self) -> Result<T, RecvError> {
                let q = unsafe { &mut *self.0 };
                unsafe { super::DONE = q.at as u8; if let Some(f) = super::HOOK { f(q.at as u8) } }
                if q.at >= q.n { return Err(RecvError); }
                let t = unsafe { ::std::ptr::read(&q.q[q.at]) };
                q.at += 1;
                match t { Some(t) => Ok(t), None => Err(RecvError) }
            }
        }
    }
    /// A vector of up to six elements in place; what is left in it when it goes is forgotten.
    pub mod vec {
        use ::std::{mem::ManuallyDrop, ptr};
        const N: usize = 6;
        pub struct Vec<T> { a: ManuallyDrop<[Option<T>; N]>, n: usize }
        fn none<T>() -> ManuallyDrop<[Option<T>; N]> { ManuallyDrop::new([const { None }; N]) }
        fn put<T>(at: &mut Option<T>, t: Option<T>) { unsafe { ptr::write(at, t) } }
        fn get<T>(at: &mut Option<T>) -> Option<T> { unsafe { let t = ptr::read(at); ptr::write(at, None); t } }
        impl<T> Vec<T> {
            pub fn new() -> Self { Vec { a: none(), n: 0 } }
            pub fn with_capacity(_: usize) -> Self { Self::new() }
            pub fn len(&self) -> usize { self.n }
            pub fn is_empty(&self) -> bool { self.n == 0 }
            pub fn push(&mut self, t: T) { vk::limit(self.n < N); put(&mut self.a[self.n], Some(t)); self.n += 1; }
            pub fn pop(&mut self) -> Option<T> { if self.n == 0 { return None; } self.n -= 1; get(&mut self.a[self.n]) }
            fn cut(&mut self, from: usize, to: usize) -> Drain<T> {
                assert!(from <= to && to <= self.n, "drain: range out of bounds");
                if from == 0 && to == self.n { return ::std::mem::replace(self, Vec::new()).whole(); }
                let mut d = Drain { a: none(), i: 0, n: to - from };
                let mut i = from;
                while i < to { put(&mut d.a[i - from], get(&mut self.a[i])); i += 1; }
                while i < self.n { let t = get(&mut self.a[i]); put(&mut self.a[i - (to - from)], t); i += 1; }
                self.n -= to - from;
                d
            }
            fn whole(self) -> Drain<T> { Drain { a: self.a, i: 0, n: self.n } }
            pub fn drain<R: ::std::ops::RangeBounds<usize>>(&mut self, r: R) -> Drain<T> {
                use ::std::ops::Bound::*;
                let a = match r.start_bound() { Included(x) => *x, Excluded(x) => *x + 1, Unbounded => 0 };
                let b = match r.end_bound() { Included(x) => *x + 1, Excluded(x) => *x, Unbounded => self.n };
                self.cut(a, b)
            }
            pub fn truncate(&mut self, n: usize) { if n < self.n { self.cut(n, self.n); } }
            pub fn clear(&mut self) { self.truncate(0) }
            pub fn iter(&self) -> impl Iterator<Item = &T> + '_ { self.a.iter().take(self.n).map(|x| x.as_ref().unwrap()) }
            pub fn append(&mut self, o: &mut Self) { let n = o.n; let d = o.cut(0, n); for t in d { self.push(t); } }
        }
        impl<T> Default for Vec<T> { fn default() -> Self { Self::new() } }
        impl<T> Extend<T> for Vec<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for t in i { self.push(t); } } }
        impl<T> FromIterator<T> for Vec<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut v = Self::new(); v.extend(i); v } }
        impl<T> IntoIterator for Vec<T> { type Item = T; type IntoIter = Drain<T>; fn into_iter(mut self) -> Drain<T> { let n = self.n; self.cut(0, n) } }
        pub struct Drain<T> { a: ManuallyDrop<[Option<T>; N]>, i: usize, n: usize }
        impl<T> Iterator for Drain<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> { if self.i >= self.n { return None; } self.i += 1; get(&mut self.a[self.i - 1]) }
        }
    }
    pub mod oneshot {
        use ::std::{future::Future, pin::Pin, task::{Context, Poll}};
        struct S<T> { v: Option<T>, gone: u8 }
        pub struct Sender<T>(*mut S<T>, u8);
        pub struct Receiver<T>(*mut S<T>);
        unsafe impl<T> Send for Sender<T> {}
        unsafe impl<T> Send for Receiver<T> {}
        pub mod error { #[derive(Debug)] pub struct RecvError; #[derive(Debug)] pub enum TryRecvError { Empty, Closed } }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let s = Box::leak(Box::new(S { v: None, gone: 0 })) as *mut S<T>;
            (Sender(s, 0), Receiver(s))
        }
        impl<T> Sender<T> { pub fn send(mut self, t: T) -> Result<(), T> { self.1 = 1; unsafe { ::std::ptr::write(&mut (*self.0).v, Some(t)) }; Ok(()) } }
        impl<T> Drop for Sender<T> { fn drop(&mut self) { if self.1 == 0 { unsafe { (*self.0).gone = 1 } } } }
        impl<T> Receiver<T> {
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                let s = unsafe { &mut *self.0 };
                match s.v.take() { Some(t) => Ok(t), None if s.gone == 0 => Err(error::TryRecvError::Empty), None => Err(error::TryRecvError::Closed) }
            }
        }
        impl<T> Future for Receiver<T> {
            type Output = Result<T, error::RecvError>;
            fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
                let p = self.0;
                let s = unsafe { &mut *p };
                match s.v.take() { Some(t) => Poll::Ready(Ok(t)), None if s.gone == 0 => Poll::Pending, None => Poll::Ready(Err(error::RecvError)) }
            }
        }
    }
}
/// A physical store of one table of three rows whose writes and commits fail as planned, and the memory layer.
pub mod phys {
    use crate::{DBIter, Database, DbTx, DbTxMut, Table};
    #[derive(Clone, Copy, Debug)]
    pub struct Rows { has: [u8; 3], v: [u8; 3] }
    const NONE: Rows = Rows { has: [0; 3], v: [0; 3] };
    static mut DISK: Rows = NONE;
    static mut MEM: Rows = NONE;
    static mut PLAN: u8 = 0;
    static mut MAX: u8 = 0;
    static mut OPS: u8 = 0;
    static mut FAILED: u8 = 0;
    static mut WRITING: u8 = 0;
    /// Which of the first physical writes and commits fail.
    pub fn plan(p: u8, max: u8) { unsafe { PLAN = p; MAX = max; } }
    pub fn failed() -> bool { unsafe { FAILED != 0 } }
    pub fn disk(k: u8) -> Option<u8> { unsafe { DISK.get(k) } }
    /// One more write or commit: whether it fails.
    fn fails() -> bool {
        unsafe {
            let n = OPS;
            OPS += 1;
            let f = n < MAX && PLAN >> n & 1 == 1;
            if f { FAILED = 1; }
            f
        }
    }
    fn key<T: Table>(k: &T::Key) -> u8 { assert!(std::mem::size_of::<T::Key>() == 1); unsafe { *(k as *const T::Key as *const u8) } }
    fn val<T: Table>(v: &T::Value) -> u8 { assert!(std::mem::size_of::<T::Value>() == 1); unsafe { *(v as *const T::Value as *const u8) } }
    fn back<T: Table>(v: Option<u8>) -> Option<T::Value> { v.map(|x| unsafe { std::ptr::read(&x as *const u8 as *const T::Value) }) }
    impl Rows {
        fn get(&self, k: u8) -> Option<u8> { if self.has[k as usize] != 0 { Some(self.v[k as usize]) } else { None } }
        fn put(&mut self, k: u8, v: u8) { self.has[k as usize] = 1; self.v[k as usize] = v; }
        fn take(&mut self, k: u8) { self.has[k as usize] = 0; }
        fn empty(&self) -> bool { self.has[0] | self.has[1] | self.has[2] == 0 }
    }
    struct It<T: Table> { r: Rows, a: u8, b: u8, up: u8, p: std::marker::PhantomData<T> }
    impl<T: Table> Iterator for It<T> {
        type Item = (T::Key, T::Value);
        fn next(&mut self) -> Option<Self::Item> {
            while self.a < self.b {
                let k = if self.up == 1 { self.a } else { self.b - 1 };
                if self.up == 1 { self.a += 1 } else { self.b -= 1 }
                if let Some(v) = self.r.get(k) { return Some(unsafe { (std::ptr::read(&k as *const u8 as *const T::Key), std::ptr::read(&v as *const u8 as *const T::Value)) }); }
            }
            None
        }
    }
    fn it<T: Table>(r: Rows, from: u8, to: u8, up: u8) -> It<T> { It { r, a: from, b: to, up, p: std::marker::PhantomData } }
    fn err() -> eyre::Report { eyre::Report::vk() }
    macro_rules! reads {
        ($rows:expr) => {
            fn contains_key<T: Table>(&self, k: &T::Key) -> eyre::Result<bool> { Ok(unsafe { $rows.get(key::<T>(k)).is_some() }) }
            fn get<T: Table>(&self, k: &T::Key) -> eyre::Result<Option<T::Value>> { Ok(back::<T>(unsafe { $rows.get(key::<T>(k)) })) }
            fn is_empty<T: Table>(&self) -> bool { unsafe { $rows.empty() } }
            fn iter<T: Table>(&self) -> DBIter<'_, T> { Box::new(it::<T>(unsafe { $rows }, 0, 3, 1)) }
            fn skip_to<T: Table>(&self, k: &T::Key) -> eyre::Result<DBIter<'_, T>> { Ok(Box::new(it::<T>(unsafe { $rows }, key::<T>(k), 3, 1))) }
            fn reverse_iter<T: Table>(&self) -> DBIter<'_, T> { Box::new(it::<T>(unsafe { $rows }, 0, 3, 0)) }
            fn record_prior_to<T: Table>(&self, k: &T::Key) -> Option<(T::Key, T::Value)> { it::<T>(unsafe { $rows }, 0, key::<T>(k), 0).next() }
            fn last_record<T: Table>(&self) -> Option<(T::Key, T::Value)> { it::<T>(unsafe { $rows }, 0, 3, 0).next() }
        };
    }
    #[derive(Debug)]
    pub struct Rd(Rows);
    impl DbTx for Rd { fn get<T: Table>(&self, k: &T::Key) -> eyre::Result<Option<T::Value>> { Ok(back::<T>(self.0.get(key::<T>(k)))) } }
    #[derive(Debug)]
    pub struct Wr(Rows);
    impl DbTx for Wr { fn get<T: Table>(&self, k: &T::Key) -> eyre::Result<Option<T::Value>> { Ok(back::<T>(self.0.get(key::<T>(k)))) } }
    impl DbTxMut for Wr {
        fn insert<T: Table>(&mut self, k: &T::Key, v: &T::Value) -> eyre::Result<()> { if fails() { return Err(err()); } self.0.put(key::<T>(k), val::<T>(v)); Ok(()) }
        fn remove<T: Table>(&mut self, k: &T::Key) -> eyre::Result<()> { if fails() { return Err(err()); } self.0.take(key::<T>(k)); Ok(()) }
        fn clear_table<T: Table>(&mut self) -> eyre::Result<()> { if fails() { return Err(err()); } self.0 = NONE; Ok(()) }
        fn commit(self) -> eyre::Result<()> { if fails() { return Err(err()); } unsafe { DISK = self.0; } Ok(()) }
    }
    impl Drop for Wr { fn drop(&mut self) { unsafe { WRITING = 0; } } }
    #[derive(Clone, Debug)]
    pub struct Phys(());
    impl Phys { pub fn new() -> Self { Phys(()) } }
    impl Database for Phys {
        type TX<'t> = Rd;
        type TXMut<'t> = Wr;
        fn open_table<T: Table>(&self) -> eyre::Result<()> { Ok(()) }
        fn read_txn(&self) -> eyre::Result<Rd> { Ok(Rd(unsafe { DISK })) }
        fn write_txn(&self) -> eyre::Result<Wr> { unsafe { assert!(WRITING == 0, "the background thread waits for a transaction of its own"); WRITING = 1; Ok(Wr(DISK)) } }
        fn insert<T: Table>(&self, k: &T::Key, v: &T::Value) -> eyre::Result<()> { self.idle(); if fails() { return Err(err()); } unsafe { DISK.put(key::<T>(k), val::<T>(v)) }; Ok(()) }
        fn remove<T: Table>(&self, k: &T::Key) -> eyre::Result<()> { self.idle(); if fails() { return Err(err()); } unsafe { DISK.take(key::<T>(k)) }; Ok(()) }
        fn clear_table<T: Table>(&self) -> eyre::Result<()> { self.idle(); if fails() { return Err(err()); } unsafe { DISK = NONE }; Ok(()) }
        reads!(DISK);
    }
    impl Phys { fn idle(&self) { unsafe { assert!(WRITING == 0, "the background thread waits for a transaction of its own"); } } }
    #[derive(Clone, Debug)]
    pub struct Mem(());
    impl Mem { pub fn new() -> Self { Mem(()) } }
    impl Database for Mem {
        type TX<'t> = Rd;
        type TXMut<'t> = Wr;
        fn open_table<T: Table>(&self) -> eyre::Result<()> { unsafe { MEM = NONE }; Ok(()) }
        fn read_txn(&self) -> eyre::Result<Rd> { Ok(Rd(unsafe { MEM })) }
        fn write_txn(&self) -> eyre::Result<Wr> { Err(err()) }
        fn insert<T: Table>(&self, k: &T::Key, v: &T::Value) -> eyre::Result<()> { unsafe { MEM.put(key::<T>(k), val::<T>(v)) }; Ok(()) }
        fn remove<T: Table>(&self, k: &T::Key) -> eyre::Result<()> { unsafe { MEM.take(key::<T>(k)) }; Ok(()) }
        fn clear_table<T: Table>(&self) -> eyre::Result<()> { unsafe { MEM = NONE }; Ok(()) }
        reads!(MEM);
    }
}
"""
LY = [(r"\buse std::\{", "use crate::lstd::{"), (r"(?<![\w:])std::thread::", "crate::lstd::thread::"), (r"(?<![\w:])tokio::sync::oneshot\b", "crate::lstd::oneshot"), (r"(?<![\w:])std::time::", "crate::lstd::time::")]
Unit("layered", {
    "database_traits.rs": F(T + "database_traits.rs", [], std=False),
    "layered_db.rs": F("crates/storage/src/layered_db.rs", TNC + LY, ["layered"], std=False, prepend="use crate::lstd::vec::Vec;\n"),
}, LAYERED_LIB, deps=dict(serde='{ version = "1", features = ["derive"] }'), shims=["vk", "vstd", "eyre", "tracing"])
