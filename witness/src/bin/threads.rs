//! must compile: filters can be sent to and shared between threads
use poppy_filters::bitset::{array::BitSet, vec::VecBitSet};
use poppy_filters::{v1, v2, BloomFilter, Error, OptLevel, Params};

fn send<T: Send + 'static>() {}
fn sync<T: Sync + 'static>() {}

macro_rules! both {
    ($($t:ty),*) => {
        $( send::<$t>(); sync::<$t>(); )*
    };
}

fn main() {
    both!(v1::BloomFilter, v2::BloomFilter, BloomFilter, BitSet<4096>, VecBitSet, Params, OptLevel, Error);
}
