//! Entry points of the analysis: every public operation of the library,
//! instantiated with concrete types.  Nothing here is ever executed; the
//! functions only give the compiler a monomorphic call graph to lower.
#![allow(clippy::all)]
use poppy_filters::bitset::array::BitSet;
use poppy_filters::bitset::vec::VecBitSet;
use poppy_filters::utils::ByteSize;
use poppy_filters::bloom;
use poppy_filters::v1;
use poppy_filters::v2;
use poppy_filters::BloomFilter;
use poppy_filters::Error;
use poppy_filters::OptLevel;
use poppy_filters::Params;
use poppy_filters::PoppyHash;
use std::fs::File;
use std::hash::{Hash, Hasher};
use wyhash::WyHash;

pub mod spec;

pub type B1 = v1::BloomFilter;
pub type B2 = v2::BloomFilter;
pub type Bit = BitSet<4096>;
pub type Odd = BitSet<13>;

// ---- version 1 ------------------------------------------------------------
pub fn v1_with_capacity(c: u64, p: f64) -> Result<B1, Error> { B1::with_capacity(c, p) }
pub fn v1_try_from(p: Params) -> Result<B1, Error> { B1::try_from(p) }
pub fn v1_from_reader(r: File) -> Result<B1, Error> { B1::from_reader(r) }
pub fn v1_write(b: &B1, w: &mut File) -> Result<(), Error> { b.write(w) }
pub fn v1_insert(b: &mut B1, v: &[u8]) -> Result<bool, Error> { b.insert_bytes(v) }
pub fn v1_insert_vec(b: &mut B1, v: Vec<u8>) -> Result<bool, Error> { b.insert_bytes(v) }
pub fn v1_insert_str(b: &mut B1, v: &str) -> Result<bool, Error> { b.insert_bytes(v) }
pub fn v1_contains(b: &B1, v: &[u8]) -> bool { b.contains_bytes(v) }
pub fn v1_contains_str(b: &B1, v: &str) -> bool { b.contains_bytes(v) }
pub fn v1_clear(b: &mut B1) { b.clear() }
pub fn v1_count_ones(b: &B1) -> usize { b.count_ones() }
pub fn v1_count_zeros(b: &B1) -> usize { b.count_zeros() }
pub fn v1_count_estimate(b: &B1) -> u64 { b.count_estimate() }
pub fn v1_size_in_u64(b: &B1) -> usize { b.size_in_u64() }
pub fn v1_size_in_bytes(b: &B1) -> usize { b.size_in_bytes() }
pub fn v1_fpp(b: &B1) -> f64 { b.fpp() }
pub fn v1_capacity(b: &B1) -> usize { b.capacity() }
pub fn v1_is_full(b: &B1) -> bool { b.is_full() }
pub fn v1_has_same_params(b: &B1, o: &B1) -> bool { b.has_same_params(o) }
pub fn v1_count_common_entries(b: &B1, o: &B1) -> Result<usize, Error> { b.count_common_entries(o) }
pub fn v1_union_merge(b: &mut B1, o: &B1) -> Result<(), Error> { b.union_merge(o) }
pub fn v1_bits(b: &B1) -> Vec<bool> { b.bits() }
pub fn v1_estimated_p(b: &B1) -> f64 { b.estimated_p() }
pub fn v1_n_hash_fn(b: &B1) -> u64 { b.n_hash_fn() }
pub fn v1_n_bits(b: &B1) -> u64 { b.n_bits() }
pub fn v1_clone(b: &B1) -> B1 { b.clone() }
pub fn v1_insert_contains(b: &mut B1, v: &[u8]) -> (Result<bool, Error>, bool) { let r = b.insert_bytes(v); (r, b.contains_bytes(v)) }

// ---- version 2 ------------------------------------------------------------
pub fn v2_with_capacity(c: u64, p: f64) -> Result<B2, Error> { B2::with_capacity(c, p) }
pub fn v2_try_from(p: Params) -> Result<B2, Error> { B2::try_from(p) }
pub fn v2_from_reader(r: File) -> Result<B2, Error> { B2::from_reader(r) }
pub fn v2_write(b: &B2, w: &mut File) -> Result<(), Error> { b.write(w) }
pub fn v2_insert_bytes(b: &mut B2, v: &[u8]) -> Result<bool, Error> { b.insert_bytes(v) }
pub fn v2_insert_bytes_string(b: &mut B2, v: String) -> Result<bool, Error> { b.insert_bytes(v) }
pub fn v2_contains_bytes(b: &B2, v: &[u8]) -> bool { b.contains_bytes(v) }
pub fn v2_contains_bytes_str(b: &B2, v: &str) -> bool { b.contains_bytes(v) }
pub fn v2_insert_slice(b: &mut B2, v: &&[u8]) -> Result<bool, Error> { b.insert(v) }
pub fn v2_insert_vec(b: &mut B2, v: &Vec<u8>) -> Result<bool, Error> { b.insert(v) }
pub fn v2_insert_str(b: &mut B2, v: &&str) -> Result<bool, Error> { b.insert(v) }
pub fn v2_insert_string(b: &mut B2, v: &String) -> Result<bool, Error> { b.insert(v) }
pub fn v2_insert_u64(b: &mut B2, v: &u64) -> Result<bool, Error> { b.insert(v) }
pub fn v2_contains_slice(b: &B2, v: &&[u8]) -> bool { b.contains(v) }
pub fn v2_contains_vec(b: &B2, v: &Vec<u8>) -> bool { b.contains(v) }
pub fn v2_contains_str(b: &B2, v: &&str) -> bool { b.contains(v) }
pub fn v2_contains_string(b: &B2, v: &String) -> bool { b.contains(v) }
pub fn v2_contains_u64(b: &B2, v: &u64) -> bool { b.contains(v) }
pub fn v2_contains_u8(b: &B2, v: &u8) -> bool { b.contains(v) }
pub fn v2_contains_u16(b: &B2, v: &u16) -> bool { b.contains(v) }
pub fn v2_contains_u32(b: &B2, v: &u32) -> bool { b.contains(v) }
pub fn v2_contains_u128(b: &B2, v: &u128) -> bool { b.contains(v) }
pub fn v2_contains_usize(b: &B2, v: &usize) -> bool { b.contains(v) }
pub fn v2_contains_i8(b: &B2, v: &i8) -> bool { b.contains(v) }
pub fn v2_contains_i16(b: &B2, v: &i16) -> bool { b.contains(v) }
pub fn v2_contains_i32(b: &B2, v: &i32) -> bool { b.contains(v) }
pub fn v2_contains_i64(b: &B2, v: &i64) -> bool { b.contains(v) }
pub fn v2_contains_i128(b: &B2, v: &i128) -> bool { b.contains(v) }
pub fn v2_contains_isize(b: &B2, v: &isize) -> bool { b.contains(v) }
pub fn v2_contains_opt_u64(b: &B2, v: &Option<u64>) -> bool { b.contains(v) }
// an index iterator type cannot be named outside the crate, only inferred
pub fn v2_iter_insert(b: &mut B2, v: &&[u8]) -> Result<bool, Error> { let it = B2::build_index_iter(v); b.insert_iter(it) }
pub fn v2_iter_contains(b: &B2, v: &&[u8]) -> Result<bool, Error> { let it = B2::build_index_iter(v); b.contains_iter(it) }
pub fn v2_build_index_iter(v: &&[u8]) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(v) }
pub fn v2_insert_iter_stepped(b: &mut B2, v: &&[u8]) -> Result<bool, Error> { let mut it = B2::build_index_iter(v); it.next(); b.insert_iter(it) }
pub fn v2_contains_iter_stepped(b: &B2, v: &&[u8]) -> Result<bool, Error> { let mut it = B2::build_index_iter(v); it.next(); b.contains_iter(it) }
pub fn v2_insert_iter_default(b: &mut B2) -> Result<bool, Error> { b.insert_iter(Default::default()) }
pub fn v2_contains_iter_default(b: &B2) -> Result<bool, Error> { b.contains_iter(Default::default()) }
pub fn v2_clear(b: &mut B2) { b.clear() }
pub fn v2_count_ones(b: &B2) -> usize { b.count_ones() }
pub fn v2_count_zeros(b: &B2) -> usize { b.count_zeros() }
pub fn v2_count_estimate(b: &B2) -> u64 { b.count_estimate() }
pub fn v2_size_in_bytes(b: &B2) -> usize { b.size_in_bytes() }
pub fn v2_fpp(b: &B2) -> f64 { b.fpp() }
pub fn v2_capacity(b: &B2) -> usize { b.capacity() }
pub fn v2_is_full(b: &B2) -> bool { b.is_full() }
pub fn v2_has_same_params(b: &B2, o: &B2) -> bool { b.has_same_params(o) }
pub fn v2_count_common_entries(b: &B2, o: &B2) -> Result<usize, Error> { b.count_common_entries(o) }
pub fn v2_union_merge(b: &mut B2, o: &B2) -> Result<(), Error> { b.union_merge(o) }
pub fn v2_union(b: B2, o: B2) -> Result<B2, Error> { b.union(o) }
pub fn v2_intersection_merge(b: &mut B2, o: &B2) -> Result<(), Error> { b.intersection_merge(o) }
pub fn v2_intersection(b: B2, o: B2) -> Result<B2, Error> { b.intersection(o) }
pub fn v2_clone(b: &B2) -> B2 { b.clone() }
pub fn v2_insert_contains_bytes(b: &mut B2, v: &[u8]) -> (Result<bool, Error>, bool) { let r = b.insert_bytes(v); (r, b.contains_bytes(v)) }
pub fn v2_insert_contains_slice(b: &mut B2, v: &&[u8]) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_vec(b: &mut B2, v: &Vec<u8>) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_string(b: &mut B2, v: &String) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_str(b: &mut B2, v: &&str) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_u8(b: &mut B2, v: &u8) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_u16(b: &mut B2, v: &u16) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_u32(b: &mut B2, v: &u32) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_u64(b: &mut B2, v: &u64) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_u128(b: &mut B2, v: &u128) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_i64(b: &mut B2, v: &i64) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_opt(b: &mut B2, v: &Option<u64>) -> (Result<bool, Error>, bool) { let r = b.insert(v); (r, b.contains(v)) }
pub fn v2_insert_contains_iter(b: &mut B2, v: &&[u8]) -> (Result<bool, Error>, Result<bool, Error>) { let it = B2::build_index_iter(v); let r = b.insert_iter(it); (r, b.contains_iter(it)) }
pub fn v2_insert_iter_contains(b: &mut B2, v: &&[u8]) -> (Result<bool, Error>, bool) { let it = B2::build_index_iter(v); let r = b.insert_iter(it); (r, b.contains(v)) }

// ---- common type ----------------------------------------------------------
pub fn bf_with_version_capacity_opt(v: u8, c: usize, p: f64, o: OptLevel) -> Result<BloomFilter, Error> { BloomFilter::with_version_capacity_opt(v, c, p, o) }
pub fn bf_with_version_capacity(v: u8, c: usize, p: f64) -> Result<BloomFilter, Error> { BloomFilter::with_version_capacity(v, c, p) }
pub fn bf_with_capacity(c: usize, p: f64) -> Result<BloomFilter, Error> { BloomFilter::with_capacity(c, p) }
pub fn bf_try_from(p: Params) -> Result<BloomFilter, Error> { BloomFilter::try_from(p) }
pub fn bf_from_reader(r: File) -> Result<BloomFilter, Error> { BloomFilter::from_reader(r) }
pub fn bf_partial_from_reader(r: File) -> Result<BloomFilter, Error> { BloomFilter::partial_from_reader(r) }
pub fn bf_fill(b: &mut BloomFilter, d: Vec<Vec<u8>>) -> Result<(), Error> { b.fill(d) }
pub fn bf_insert_bytes(b: &mut BloomFilter, v: &[u8]) -> Result<bool, Error> { b.insert_bytes(v) }
pub fn bf_contains_bytes(b: &BloomFilter, v: &[u8]) -> bool { b.contains_bytes(v) }
pub fn bf_write(b: &BloomFilter, w: &mut File) -> Result<(), Error> { b.write(w) }
pub fn bf_version(b: &BloomFilter) -> u8 { b.version() }
pub fn bf_has_same_params(b: &BloomFilter, o: &BloomFilter) -> bool { b.has_same_params(o) }
pub fn bf_union_merge(b: &mut BloomFilter, o: &BloomFilter) -> Result<(), Error> { b.union_merge(o) }
pub fn bf_count_common_entries(b: &BloomFilter, o: &BloomFilter) -> Result<usize, Error> { b.count_common_entries(o) }
pub fn bf_capacity(b: &BloomFilter) -> usize { b.capacity() }
pub fn bf_clear(b: &mut BloomFilter) { b.clear() }
pub fn bf_fpp(b: &BloomFilter) -> f64 { b.fpp() }
pub fn bf_size_in_bytes(b: &BloomFilter) -> usize { b.size_in_bytes() }
pub fn bf_count_estimate(b: &BloomFilter) -> u64 { b.count_estimate() }
pub fn bf_is_full(b: &BloomFilter) -> bool { b.is_full() }
pub fn bf_data(b: &BloomFilter) -> &[u8] { b.data() }
pub fn bf_clone(b: &BloomFilter) -> BloomFilter { b.clone() }
pub fn params_new(c: usize, p: f64) -> Params { Params::new(c, p) }
pub fn params_version(p: Params, v: u8) -> Params { p.version(v) }
pub fn params_opt(p: Params, o: OptLevel) -> Params { p.opt(o) }
pub fn params_try_into_v1(p: Params) -> Result<B1, Error> { p.try_into_v1() }
pub fn params_try_into_v2(p: Params) -> Result<B2, Error> { p.try_into_v2() }
pub fn opt_try_from(v: u8) -> Result<OptLevel, poppy_filters::OptLevelError> { OptLevel::try_from(v) }
pub fn util_bit_size(c: u64, p: f64) -> u64 { poppy_filters::bit_size(c, p) }

// ---- bitsets --------------------------------------------------------------
pub fn ba_new() -> Bit { Bit::new() }
pub fn ba_set(b: &mut Bit, i: usize) -> bool { b.set_nth_bit(i) }
pub fn ba_unset(b: &mut Bit, i: usize) -> bool { b.unset_nth_bit(i) }
pub fn ba_get(b: &Bit, i: usize) -> bool { b.get_nth_bit(i) }
pub fn ba_clear(b: &mut Bit) { b.clear() }
pub fn ba_bit_len(b: &Bit) -> usize { b.bit_len() }
pub fn ba_byte_len(b: &Bit) -> usize { b.byte_len() }
pub fn ba_count_ones(b: &Bit) -> usize { b.count_ones() }
pub fn ba_count_zeros(b: &Bit) -> usize { b.count_zeros() }
pub fn ba_union(b: &mut Bit, o: &Bit) { b.union(o) }
pub fn ba_intersection(b: &mut Bit, o: &Bit) { b.intersection(o) }
pub fn ba_count_ones_in_common(b: &Bit, o: &Bit) -> usize { b.count_ones_in_common(o) }
pub fn ba_byte_size() -> usize { Bit::byte_size() }
pub fn ba_bit_size() -> usize { Bit::bit_size() }
pub fn ba_as_slice(b: &Bit) -> &[u8] { b.as_slice() }
pub fn bo_new() -> Odd { Odd::new() }
pub fn bo_set(b: &mut Odd, i: usize) -> bool { b.set_nth_bit(i) }
pub fn bo_unset(b: &mut Odd, i: usize) -> bool { b.unset_nth_bit(i) }
pub fn bo_get(b: &Odd, i: usize) -> bool { b.get_nth_bit(i) }
pub fn bo_clear(b: &mut Odd) { b.clear() }
pub fn bo_bit_len(b: &Odd) -> usize { b.bit_len() }
pub fn bo_byte_len(b: &Odd) -> usize { b.byte_len() }
pub fn bo_count_ones(b: &Odd) -> usize { b.count_ones() }
pub fn bo_count_zeros(b: &Odd) -> usize { b.count_zeros() }
pub fn bo_union(b: &mut Odd, o: &Odd) { b.union(o) }
pub fn bo_intersection(b: &mut Odd, o: &Odd) { b.intersection(o) }
pub fn bo_count_ones_in_common(b: &Odd, o: &Odd) -> usize { b.count_ones_in_common(o) }
pub fn bo_byte_size() -> usize { Odd::byte_size() }
pub fn bo_bit_size() -> usize { Odd::bit_size() }
pub fn bo_as_slice(b: &Odd) -> &[u8] { b.as_slice() }
pub fn bo_as_mut_slice(b: &mut Odd) -> &mut [u8] { b.as_mut_slice() }
pub fn ba_as_mut_slice(b: &mut Bit) -> &mut [u8] { b.as_mut_slice() }
pub fn bv_as_mut_slice(b: &mut VecBitSet) -> &mut [u8] { b.as_mut_slice() }
pub fn bv_with_bit_capacity(c: usize) -> VecBitSet { VecBitSet::with_bit_capacity(c) }
pub fn bv_is_empty(b: &VecBitSet) -> bool { b.is_empty() }
pub fn bv_set(b: &mut VecBitSet, i: usize) -> bool { b.set_nth_bit(i) }
pub fn bv_unset(b: &mut VecBitSet, i: usize) -> bool { b.unset_nth_bit(i) }
pub fn bv_get(b: &VecBitSet, i: usize) -> bool { b.get_nth_bit(i) }
pub fn bv_clear(b: &mut VecBitSet) { b.clear() }
pub fn bv_bit_len(b: &VecBitSet) -> usize { b.bit_len() }
pub fn bv_byte_len(b: &VecBitSet) -> usize { b.byte_len() }
pub fn bv_count_ones(b: &VecBitSet) -> usize { b.count_ones() }
pub fn bv_count_zeros(b: &VecBitSet) -> usize { b.count_zeros() }
pub fn bv_union(b: &mut VecBitSet, o: &VecBitSet) { b.union(o) }
pub fn bv_intersection(b: &mut VecBitSet, o: &VecBitSet) { b.intersection(o) }
pub fn bv_count_ones_in_common(b: &VecBitSet, o: &VecBitSet) -> usize { b.count_ones_in_common(o) }
pub fn bv_as_slice(b: &VecBitSet) -> &[u8] { b.as_slice() }

// ---- types that can be hashed (checked by the compiler itself) ------------
pub fn hashable<T: PoppyHash + ?Sized>() {}
pub fn hash_types() { hashable::<u8>(); hashable::<i128>(); hashable::<&[u8]>(); hashable::<Vec<u8>>(); hashable::<&str>(); hashable::<String>(); hashable::<Option<u64>>(); }

// ---- sizes as shown to the user ---------------------------------------------
pub fn size_from_bytes(n: usize) -> ByteSize { ByteSize::from_bytes(n) }
pub fn size_from_bits(n: usize) -> ByteSize { ByteSize::from_bits(n) }
pub fn size_from_mb(n: usize) -> ByteSize { ByteSize::from_mb(n) }
pub fn size_in_bytes(s: &ByteSize) -> usize { s.in_bytes() }
pub fn size_in_mb(s: &ByteSize) -> f64 { s.in_mb() }
pub fn size_in_unit(s: &ByteSize) -> f64 { s.in_unit() }
pub fn size_as_bytes(s: ByteSize) -> ByteSize { s.as_bytes() }
pub fn size_eq(s: &ByteSize, o: &ByteSize) -> bool { s == o }
pub fn size_lt(s: &ByteSize, o: &ByteSize) -> bool { s < o }
pub fn size_gt(s: &ByteSize, o: &ByteSize) -> bool { s > o }
pub fn size_hash(s: &ByteSize) -> u64 { let mut h = WyHash::with_seed(7); s.hash(&mut h); h.finish() }
pub fn size_fmt(s: &ByteSize, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(s, f) }
pub fn opt_fmt(s: &OptLevel, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(s, f) }

// ---- the macro -----------------------------------------------------------------
pub fn bloom_empty(c: usize, p: f64) -> BloomFilter { bloom!(c, p) }
pub fn bloom_three(c: usize, p: f64) -> BloomFilter { bloom!(c, p, ["first", "second", "third"]) }

// ---- hashable values ---------------------------------------------------------
#[derive(Hash)]
pub struct Record { pub a: u32, pub b: i64, pub c: bool }
impl PoppyHash for Record {}
pub fn it_u8(v: u8) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_u16(v: u16) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_u32(v: u32) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_u64(v: u64) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_u128(v: u128) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_usize(v: usize) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_i8(v: i8) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_i16(v: i16) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_i32(v: i32) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_i64(v: i64) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_i128(v: i128) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_isize(v: isize) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
pub fn it_some(v: u64) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&Some(v)) }
pub fn it_none(v: u64) -> impl Iterator<Item = u64> + Copy { let _ = v; B2::build_index_iter(&None::<u64>) }
pub fn it_record(v: Record) -> impl Iterator<Item = u64> + Copy { B2::build_index_iter(&v) }
