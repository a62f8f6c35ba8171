//! must be refused (E0277): shows that threads.rs would be refused for a filter with hidden state
use std::cell::Cell;

fn sync<T: Sync + 'static>() {}

pub struct Hidden(pub poppy_filters::BloomFilter, pub Cell<u64>);

fn main() {
    sync::<Hidden>();
}
