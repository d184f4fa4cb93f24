//! Stand-in for `fxhash` in the symbolic build: concrete keys hash as in the real crate; a key with
//! symbolic bytes gets the hash of the known key it equals (decided by the solver), else a new one.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};

struct Entry {
    key: Vec<u8>,
    val: u64,
}
static mut SYMBOLIC: Vec<Entry> = Vec::new();
static mut CONCRETE: Vec<Vec<Entry>> = Vec::new();
const BUCKETS: usize = 1024;

fn real(b: &[u8]) -> u64 {
    // the 32-bit variant of the real crate on a str: its bytes, then 0xff as a word of its own
    let mut h = 0u32;
    let mut add = |w: u32| h = (h.rotate_left(5) ^ w).wrapping_mul(0x27220a95);
    let (last, mut b) = b.split_last().unwrap();
    while b.len() >= 4 {
        add(u32::from_ne_bytes([b[0], b[1], b[2], b[3]]));
        b = &b[4..];
    }
    for x in b {
        add(*x as u32);
    }
    add(*last as u32);
    h as u64
}
#[allow(static_mut_refs)]
fn intern(key: &[u8]) -> u64 {
    unsafe {
        if CONCRETE.is_empty() {
            for _ in 0..BUCKETS {
                CONCRETE.push(Vec::new());
            }
        }
        let conc = key.iter().all(|b| symrt::is_const(*b));
        if conc {
            let v = real(key);
            let bk = &mut CONCRETE[v as usize % BUCKETS];
            if bk.iter().any(|e| e.key == key) {
                return v;
            }
            for e in SYMBOLIC.iter() {
                if e.key.len() == key.len() && symrt::same(&e.key, key) {
                    return e.val;
                }
            }
            bk.push(Entry { key: key.to_vec(), val: v });
            return v;
        }
        for e in SYMBOLIC.iter() {
            if e.key.len() == key.len() && symrt::same(&e.key, key) {
                return e.val;
            }
        }
        for bk in CONCRETE.iter() {
            for e in bk {
                if e.key.len() == key.len() && symrt::same(&e.key, key) {
                    return e.val;
                }
            }
        }
        let n = SYMBOLIC.len() as u64 + 1;
        let val = (n.wrapping_mul(0x9e3779b97f4a7c15) >> 32) ^ ((n & 1) << 31);
        SYMBOLIC.push(Entry { key: key.to_vec(), val });
        val
    }
}

#[derive(Default, Clone)]
pub struct FxHasher(Vec<u8>);
impl Hasher for FxHasher {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        intern(&self.0)
    }
}
pub type FxHasher32 = FxHasher;
pub type FxHasher64 = FxHasher;
pub type FxBuildHasher = BuildHasherDefault<FxHasher>;
pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<V> = HashSet<V, FxBuildHasher>;
pub fn hash64<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = FxHasher::default();
    v.hash(&mut h);
    h.finish()
}
pub fn hash32<T: Hash + ?Sized>(v: &T) -> u32 {
    hash64(v) as u32
}
pub fn hash<T: Hash + ?Sized>(v: &T) -> usize {
    hash64(v) as usize
}
