// ---- assumed contracts on the standard library ----
use vstd::std_specs::cmp::*;
use core::cmp::{max, min};
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [core::cmp::max] (a: T, b: T) -> (r: T) where T: core::cmp::Ord + core::marker::Destruct
  ensures <T as OrdSpec>::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { a } else { b });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [core::cmp::min] (a: T, b: T) -> (r: T) where T: core::cmp::Ord + core::marker::Destruct
  ensures <T as OrdSpec>::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { b } else { a });
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 == (a + b) % 0x1_0000_0000_0000_0000;
pub assume_specification [u64::overflowing_sub] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 == (a - b) % 0x1_0000_0000_0000_0000;
pub assume_specification [u64::overflowing_neg] (a: u64) -> (r: (u64, bool)) ensures r.0 == (0 - a) % 0x1_0000_0000_0000_0000;
pub assume_specification [u64::overflowing_mul] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.0 == (a * b) % 0x1_0000_0000_0000_0000;
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64) ensures r == (if a < 0 { -a } else { a as int });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [bool::then_some] (a: bool, t: T) -> (r: Option<T>) where T: core::marker::Destruct ensures r == (if a { Some(t) } else { None::<T> });
pub assume_specification [i64::div_euclid] (a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r == a as int / b as int;
pub assume_specification [i64::rem_euclid] (a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r == a as int % b as int;
pub assume_specification [u64::div_euclid] (a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == a as int / b as int;
pub assume_specification [u64::rem_euclid] (a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == a as int % b as int;
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
  requires o matches Some(x) ==> call_requires(f, (x,))
  ensures match o { Some(x) => call_ensures(f, (x,), r), None => !r };
