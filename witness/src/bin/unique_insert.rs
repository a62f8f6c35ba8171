//! must compile: the twin of shared_insert
use poppy_filters::{v1, v2, BloomFilter};

fn one(b: &mut v1::BloomFilter, v: &[u8]) { let _ = b.insert_bytes(v); }
fn two(b: &mut v2::BloomFilter, v: &[u8]) { let _ = b.insert_bytes(v); }
fn any(b: &mut BloomFilter, v: &[u8]) { let _ = b.insert_bytes(v); }

fn main() {
    let _ = (one as fn(&mut _, &_), two as fn(&mut _, &_), any as fn(&mut _, &_));
}
