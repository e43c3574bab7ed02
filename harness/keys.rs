//! Encodings of keys and values.
use super::*;

/// The order of the encodings, by bytes from the front; both have the same length.
fn order(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    assert!(a.len() == b.len(), "keys of one type have one length");
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
        i += 1;
    }
    std::cmp::Ordering::Equal
}
fn check<T: Serialize + for<'a> Deserialize<'a> + Ord>(x: T, y: T, len: usize) {
    let (a, b) = (encode_key(&x), encode_key(&y));
    assert!(a.len() == len, "a fixed number of bytes");
    assert!(order(&a, &b) == x.cmp(&y), "keys sort like their values");
    assert!(decode_key::<T>(&a) == x, "a key decodes to itself");
    match try_decode_key::<T>(&b) {
        Ok(z) => assert!(z == y, "a key decodes to itself"),
        Err(_) => panic!("a key decodes"),
    }
    assert!(try_decode_key::<T>(&a[..len - 1]).is_err(), "a key with a byte missing does not decode");
    let mut long = Vec::with_capacity(len + 1);
    long.extend_from_slice(&a);
    long.push(vk::u8());
    assert!(try_decode_key::<T>(&long).is_err(), "a key with a byte too many does not decode");
    vk::reach!(x < y, "different keys");
    std::mem::forget((a, b, long));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_u32() {
    check(vk::u32(), vk::u32(), 4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_u64() {
    check(vk::u64(), vk::u64(), 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_pair() {
    check((vk::u32(), vk::u32()), (vk::u32(), vk::u32()), 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_digest_round() {
    check((vk::bytes::<3>(), vk::u16()), (vk::bytes::<3>(), vk::u16()), 5);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_round_digest() {
    check((vk::u32(), vk::bytes::<3>(), vk::u8()), (vk::u32(), vk::bytes::<3>(), vk::u8()), 8);
}
/// Values: every way to encode gives the same bytes, of the announced size; they decode to the value, and nothing longer or shorter does.
fn value<T: Serialize + for<'a> Deserialize<'a> + PartialEq>(x: T) {
    let a = encode(&x);
    match encoded_size(&x) {
        Ok(n) => assert!(n == a.len(), "the announced size"),
        Err(_) => panic!("a size"),
    }
    let mut b = Vec::with_capacity(24);
    assert!(encode_into_buffer(&mut b, &x).is_ok(), "encoded into a buffer");
    assert!(order(&a, &b) == std::cmp::Ordering::Equal, "the same bytes into a buffer");
    assert!(decode::<T>(&a) == x, "a value decodes to itself");
    match try_decode::<T>(&a) {
        Ok(z) => assert!(z == x, "a value decodes to itself"),
        Err(_) => panic!("a value decodes"),
    }
    assert!(try_decode::<T>(&a[..a.len() - 1]).is_err(), "a value with a byte missing does not decode");
    b.push(vk::u8());
    assert!(try_decode::<T>(&b).is_err(), "a value with a byte too many does not decode");
    std::mem::forget((a, b));
}
/// Bytes that decode are the encoding of what they decode to.
fn canonical<T: Serialize + for<'a> Deserialize<'a>, const N: usize>() {
    let b = vk::bytes::<N>();
    if let Ok(x) = try_decode::<T>(&b) {
        let a = encode(&x);
        assert!(a.len() == N && order(&a, &b) == std::cmp::Ordering::Equal, "one encoding per value");
        vk::reach!(true, "bytes that decode");
        std::mem::forget((a, x));
    }
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_value_plain() {
    value((vk::u32(), vk::bool(), vk::u64()));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_value_some() {
    value((vk::u16(), Some(vk::u32())));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_value_none() {
    value((vk::u16(), None::<u32>, vk::u8()));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_value_list() {
    value(vec![vk::u16(), vk::u16()]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_canonical_option() {
    canonical::<(u8, Option<u8>), 3>();
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn keys_canonical_bool() {
    canonical::<(u16, bool), 3>();
}
