//! Reference semantics, written from the property statements and the format
//! description.  Like the entry points these functions are never executed:
//! their value flow is what the library's value flow is compared with.
use poppy_filters::OptLevel;
use std::hash::Hasher;
use wyhash::WyHash;

const M: u64 = 18446744073709551557;
const G: u64 = 18446744073709550147;
const SEED: u64 = 0x706f707079533d42;
const BUCKET_BITS: u64 = 32768;

// ---- DCSO format ------------------------------------------------------------
fn fnv1(v: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in v.iter() {
        h = h.wrapping_mul(0x100000001b3);
        h ^= *b as u64;
    }
    h
}

/// are all k positions of v set
pub fn spec_v1_all_set(bits: &[u64], k: u64, m: u64, v: &[u8]) -> bool {
    let mut h = fnv1(v) % M;
    for _ in 0..k {
        h = h.wrapping_mul(G) % M;
        let p = h % m;
        if (bits[(p / 64) as usize] >> (p % 64)) & 1 == 0 {
            return false;
        }
    }
    true
}

/// the bit array with all k positions of v set
pub fn spec_v1_set_all(bits: &mut [u64], k: u64, m: u64, v: &[u8]) {
    let mut h = fnv1(v) % M;
    for _ in 0..k {
        h = h.wrapping_mul(G) % M;
        let p = h % m;
        bits[(p / 64) as usize] |= 1u64 << (p % 64);
    }
}

pub fn spec_v1_m(n: u64, p: f64) -> u64 {
    f64::abs(f64::ceil((n as f64) * f64::ln(p) / f64::powf(f64::ln(2.0), 2.0))) as u64
}

pub fn spec_v1_k(m: u64, n: u64) -> u64 {
    f64::ceil(f64::ln(2.0) * m as f64 / n as f64) as u64
}

/// false positive probability of m bits holding n entries at the best hash count
pub fn spec_v1_estimated_p(n: u64, m: u64) -> f64 {
    let k = spec_v1_k(m, n) as f64;
    f64::powf(1.0 - f64::exp(-k * n as f64 / m as f64), k)
}

pub fn spec_v1_bits(bits: &[u64], m: u64) -> Vec<bool> {
    let mut v = vec![];
    for i in 0..m {
        v.push((bits[(i / 64) as usize] >> (i % 64)) & 1 == 1);
    }
    v
}

pub fn spec_words(m: u64) -> u64 {
    f64::ceil(m as f64 / 64.0) as u64
}

// ---- poppy format -----------------------------------------------------------
pub fn spec_v2_hash(v: &[u8]) -> u64 {
    if v.len() > 8 {
        let mut h = WyHash::with_seed(SEED);
        h.write(v);
        h.finish()
    } else {
        let mut b = [0u8; 8];
        for i in 0..v.len() {
            b[i] = v[i];
        }
        u64::from_le_bytes(b)
    }
}

// other values: the seeded hash of what their Hash implementation writes
macro_rules! spec_hash {
    ($($n:ident $t:ty),*) => {
        $(pub fn $n(v: $t) -> u64 {
            let mut h = WyHash::with_seed(SEED);
            h.write(&v.to_le_bytes());
            h.finish()
        })*
    };
}
spec_hash!(spec_hash_u8 u8, spec_hash_u16 u16, spec_hash_u32 u32, spec_hash_u64 u64, spec_hash_u128 u128, spec_hash_usize usize,
    spec_hash_i8 i8, spec_hash_i16 i16, spec_hash_i32 i32, spec_hash_i64 i64, spec_hash_i128 i128, spec_hash_isize isize);

pub fn spec_hash_some(v: u64) -> u64 {
    let mut h = WyHash::with_seed(SEED);
    h.write(&1u64.to_le_bytes());
    h.write(&v.to_le_bytes());
    h.finish()
}

pub fn spec_hash_none(v: u64) -> u64 {
    let _ = v;
    let mut h = WyHash::with_seed(SEED);
    h.write(&0u64.to_le_bytes());
    h.finish()
}

pub fn spec_hash_record(v: crate::Record) -> u64 {
    let mut h = WyHash::with_seed(SEED);
    h.write(&v.a.to_le_bytes());
    h.write(&v.b.to_le_bytes());
    h.write(&[v.c as u8]);
    h.finish()
}

fn mixed(h: u64) -> u64 {
    let mut s = h;
    s ^= s << 12;
    s ^= s >> 25;
    s ^= s << 27;
    s.wrapping_mul(2685821657736338717)
}

pub fn spec_v2_bucket(h: u64, n: u64) -> u64 {
    mixed(h) % n
}

pub fn spec_v2_cache_bit(h: u64, bits: u64) -> u64 {
    mixed(h) & (bits - 1)
}

pub fn spec_v2_all_set(bucket: &[u8], h: u64, k: u64) -> bool {
    let mut h1 = h;
    let mut h2 = 0u64;
    let mut i = 0u64;
    while i < k {
        if i == 1 {
            let mut w = WyHash::with_seed(SEED);
            w.write(&h1.to_be_bytes());
            h2 = w.finish();
        }
        if i > 0 {
            h1 = h1.wrapping_add(h2);
            h2 = h2.wrapping_add(i);
        }
        i += 1;
        let p = h1 % BUCKET_BITS;
        if (bucket[(p / 8) as usize] >> (p % 8)) & 1 == 0 {
            return false;
        }
    }
    true
}

pub fn spec_v2_set_all(bucket: &mut [u8], h: u64, k: u64) {
    let mut h1 = h;
    let mut h2 = 0u64;
    let mut i = 0u64;
    while i < k {
        if i == 1 {
            let mut w = WyHash::with_seed(SEED);
            w.write(&h1.to_be_bytes());
            h2 = w.finish();
        }
        if i > 0 {
            h1 = h1.wrapping_add(h2);
            h2 = h2.wrapping_add(i);
        }
        i += 1;
        let p = h1 % BUCKET_BITS;
        bucket[(p / 8) as usize] |= 1u8 << (p % 8);
    }
}

pub struct Sizes {
    pub buckets: u64,
    pub hashes: u64,
    pub cache_bits: u64,
}

pub fn spec_v2_sizes(n: u64, p: f64, opt: OptLevel) -> Sizes {
    // entries a bucket can hold at the wanted probability
    let cap = f64::abs(f64::powf(f64::ln(2.0), 2.0) * BUCKET_BITS as f64 / f64::ln(p)) as u64;
    let plain = f64::ceil(n as f64 / cap as f64) as u64;
    let k = f64::ceil(f64::ln(2.0) * BUCKET_BITS as f64 / cap as f64) as u64;
    let cache = n.next_power_of_two();
    // probability that the cache lets an absent value through, at its own optimal hash count
    let kc = f64::ceil(f64::ln(2.0) * cache as f64 / n as f64) as u64 as f64;
    let pc = f64::powf(1.0 - f64::exp(-kc * n as f64 / cache as f64), kc);
    let kb = f64::ceil(f64::ln(2.0) * pc * f64::round(BUCKET_BITS as f64 / cap as f64)) as u64;
    match opt {
        OptLevel::None | OptLevel::Space => Sizes { buckets: plain, hashes: k, cache_bits: 0 },
        OptLevel::Speed => Sizes { buckets: plain.next_power_of_two(), hashes: kb, cache_bits: cache },
        OptLevel::Best => Sizes { buckets: plain, hashes: kb, cache_bits: cache },
    }
}

// ---- both -------------------------------------------------------------------
/// number of entries whose k positions would set x of m bits
pub fn spec_estimate(m: u64, k: u64, x: u64) -> u64 {
    (-(m as f64 * f64::ln(1.0 - (x as f64 / m as f64))) / k as f64) as u64
}

pub fn spec_ones64(a: &[u64]) -> u64 {
    let mut n = 0u64;
    for w in a.iter() {
        n += w.count_ones() as u64;
    }
    n
}

pub fn spec_common64(a: &[u64], b: &[u64]) -> u64 {
    let mut n = 0u64;
    for i in 0..a.len() {
        n += (a[i] & b[i]).count_ones() as u64;
    }
    n
}

pub fn spec_zeros64(a: &[u64]) -> u64 {
    let mut n = 0u64;
    for w in a.iter() {
        n += w.count_zeros() as u64;
    }
    n
}

pub fn spec_ones8(a: &[u8]) -> u64 {
    let mut n = 0u64;
    for w in a.iter() {
        n += w.count_ones() as u64;
    }
    n
}

pub fn spec_common8(a: &[u8], b: &[u8]) -> u64 {
    let mut n = 0u64;
    for i in 0..a.len() {
        n += (a[i] & b[i]).count_ones() as u64;
    }
    n
}

pub fn spec_bit_get(a: &[u8], i: usize) -> bool {
    (a[i / 8] >> (i % 8)) & 1 == 1
}

pub fn spec_bit_set(a: &mut [u8], i: usize) {
    a[i / 8] |= 1 << (i % 8)
}

pub fn spec_bit_unset(a: &mut [u8], i: usize) {
    a[i / 8] &= !(1 << (i % 8))
}

pub fn spec_or8(a: &mut [u8], b: &[u8]) {
    for i in 0..a.len() {
        a[i] |= b[i];
    }
}

pub fn spec_and8(a: &mut [u8], b: &[u8]) {
    for i in 0..a.len() {
        a[i] &= b[i];
    }
}

pub fn spec_or64(a: &mut [u64], b: &[u64]) {
    for i in 0..a.len() {
        a[i] |= b[i];
    }
}

pub fn spec_ceil8(n: usize) -> usize {
    f64::ceil(n as f64 / 8.0) as usize
}

// ---- sizes as shown to the user ---------------------------------------------
/// 0 bytes, 1 kilobytes, 2 megabytes, 3 gigabytes
pub fn spec_unit(n: usize) -> u8 {
    if n >= 1024 * 1024 * 1024 {
        3
    } else if n >= 1024 * 1024 {
        2
    } else if n >= 1024 {
        1
    } else {
        0
    }
}

pub fn spec_in_unit(n: usize, unit: u8) -> f64 {
    match unit {
        3 => n as f64 / 1073741824.0,
        2 => n as f64 / 1048576.0,
        1 => n as f64 / 1024.0,
        _ => n as f64,
    }
}

pub fn spec_size_hash(n: usize) -> u64 {
    let mut h = WyHash::with_seed(7);
    h.write(&n.to_le_bytes());
    h.finish()
}

// ---- the macro -----------------------------------------------------------------
pub fn spec_bloom_empty(c: usize, p: f64) -> poppy_filters::BloomFilter {
    poppy_filters::BloomFilter::with_capacity(c, p).unwrap()
}

pub fn spec_bloom_three(c: usize, p: f64) -> poppy_filters::BloomFilter {
    let mut b = poppy_filters::BloomFilter::with_capacity(c, p).unwrap();
    b.insert_bytes("first").unwrap();
    b.insert_bytes("second").unwrap();
    b.insert_bytes("third").unwrap();
    b
}
