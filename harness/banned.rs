//! The cache of banned peers against a list of (key, time) in order of insertion.
use super::*;

const KEYS: u8 = 4;
/// What the cache should hold, oldest first.
struct Model {
    k: [u8; 4],
    t: [u32; 4],
    n: usize,
}
impl Model {
    fn at(&self, k: u8) -> Option<usize> {
        let mut i = 0;
        while i < self.n {
            if self.k[i] == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn del(&mut self, i: usize) {
        let mut j = i;
        while j + 1 < self.n {
            self.k[j] = self.k[j + 1];
            self.t[j] = self.t[j + 1];
            j += 1;
        }
        self.n -= 1;
    }
    fn add(&mut self, k: u8, t: u32) {
        self.k[self.n] = k;
        self.t[self.n] = t;
        self.n += 1;
    }
}
/// Operations: i insert a key, r remove a key, h heartbeat.
fn run(ops: &[u8], max: usize, keys: &[u8]) {
    let dur = vk::u8() as u32;
    let mut c: BannedPeerCache<u8> = BannedPeerCache::new(Duration::new(dur as u64, 0), max);
    let limit = if max == 0 { 1 } else { max };
    let mut m = Model { k: [0; 4], t: [0; 4], n: 0 };
    let mut now = 0u32;
    let mut j = 0;
    let mut i = 0;
    while i < ops.len() {
        let d = vk::u8() as u32;
        vstd::time::advance(Duration::new(d as u64, 0));
        now += d;
        match ops[i] {
            b'i' => {
                let k = keys[j];
                j += 1;
                let (new, out) = c.insert(k);
                let was = m.at(k);
                assert!(new == was.is_none(), "new exactly if it was not held");
                if let Some(p) = was {
                    m.del(p);
                }
                m.add(k, now);
                if m.n > limit {
                    assert!(out == Some(m.k[0]), "the oldest makes room");
                    m.del(0);
                } else {
                    assert!(out.is_none(), "nothing makes room");
                }
            }
            b'r' => {
                let k = keys[j];
                j += 1;
                let was = m.at(k);
                assert!(c.remove(&k) == was.is_some(), "removed exactly if it was held");
                if let Some(p) = was {
                    m.del(p);
                }
            }
            _ => {
                let out = c.heartbeat();
                let mut e = 0;
                while m.n > 0 && m.t[0] + dur <= now {
                    assert!(e < out.len() && out[e] == m.k[0], "everything expired is given up, oldest first");
                    m.del(0);
                    e += 1;
                }
                assert!(e == out.len(), "and nothing else");
                std::mem::forget(out);
            }
        }
        assert!(c.len() == m.n && c.len() <= limit, "as many as are held, and no more than allowed");
        let mut k = 0;
        while k < KEYS {
            assert!(c.contains(&k) == m.at(k).is_some(), "exactly the keys that are held");
            k += 1;
        }
        i += 1;
    }
    vk::reach!(true, "the end");
    std::mem::forget(c);
}
fn any<const N: usize>() -> [u8; N] {
    let mut k = [0; N];
    let mut i = 0;
    while i < N {
        k[i] = vk::below(3) as u8;
        i += 1;
    }
    k
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_expire() {
    run(b"iihh", 3, &[0, 1]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_renew() {
    run(b"iiih", 2, &[0, 1, 0]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_renew_evict() {
    run(b"iiiih", 2, &[0, 1, 0, 2]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_remove() {
    run(b"iirih", 2, &[0, 1, 0, 2]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_evict() {
    run(b"iiiih", 2, &[2, 1, 0, 3]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_one() {
    run(b"iirih", 1, &[0, 1, 1, 0]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_zero() {
    run(b"iihi", 0, &[0, 1, 2]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_readd() {
    run(b"ihiri", 2, &[0, 0, 0, 0]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_any_rr() {
    run(b"iir", 2, &any::<3>());
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_any_iii() {
    run(b"iii", 2, &any::<3>());
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_any_h() {
    run(b"iih", 2, &any::<2>());
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(7))]
pub fn banned_any_one() {
    run(b"iii", 1, &any::<3>());
}
