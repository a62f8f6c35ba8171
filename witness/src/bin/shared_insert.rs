//! must be refused (E0596): inserting through shared access; the twin is unique_insert
use poppy_filters::{v1, v2, BloomFilter};

fn one(b: &v1::BloomFilter, v: &[u8]) { let _ = b.insert_bytes(v); }
fn two(b: &v2::BloomFilter, v: &[u8]) { let _ = b.insert_bytes(v); }
fn any(b: &BloomFilter, v: &[u8]) { let _ = b.insert_bytes(v); }

fn main() {
    let _ = (one as fn(&_, &_), two as fn(&_, &_), any as fn(&_, &_));
}
