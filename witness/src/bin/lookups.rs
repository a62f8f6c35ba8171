//! must compile: looking up, counting and saving need only shared access
use poppy_filters::{v1, v2, BloomFilter};

fn one(b: &v1::BloomFilter, v: &[u8]) -> bool { b.contains_bytes(v) }
fn two(b: &v2::BloomFilter, v: &[u8]) -> bool { b.contains_bytes(v) && b.contains(&v) }
fn any(b: &BloomFilter, v: &[u8]) -> bool { b.contains_bytes(v) }
fn counts(a: &v1::BloomFilter, b: &v2::BloomFilter, c: &BloomFilter) -> u64 {
    a.count_estimate() + b.count_estimate() + c.count_estimate() + a.is_full() as u64 + b.is_full() as u64 + c.is_full() as u64
}
fn save(a: &v1::BloomFilter, b: &v2::BloomFilter, c: &BloomFilter) -> bool {
    a.write(&mut Vec::new()).is_ok() && b.write(&mut Vec::new()).is_ok() && c.write(&mut Vec::new()).is_ok()
}

fn main() {
    let _ = (one as fn(&_, &_) -> _, two as fn(&_, &_) -> _, any as fn(&_, &_) -> _);
    let _ = (counts as fn(&_, &_, &_) -> _, save as fn(&_, &_, &_) -> _);
}
