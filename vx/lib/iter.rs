// ---- assumed contracts on iterator adapters (stated over the closure's own contract) ----
#[verifier::external_body] fn iter_all<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
  requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],))
  ensures r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), true), !r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), false) { unimplemented!() }
#[verifier::external_body] fn iter_any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
  requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],))
  ensures !r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false), r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true) { unimplemented!() }
/// Iterator::fold, specified for up to two elements
#[verifier::external_body] fn iter_fold<T, A, F: Fn(A, &T) -> A>(v: &Vec<T>, init: A, f: F) -> (r: A)
  requires forall|a: A, i: int| 0 <= i < v@.len() ==> call_requires(f, (a, &#[trigger] v@[i]))
  ensures v@.len() == 0 ==> r == init, v@.len() == 1 ==> call_ensures(f, (init, &v@[0]), r),
    v@.len() == 2 ==> exists|m: A| #[trigger] call_ensures(f, (init, &v@[0]), m) && call_ensures(f, (m, &v@[1]), r) { unimplemented!() }
/// Iterator::copied().reduce, specified for up to two elements
#[verifier::external_body] fn iter_reduce<T, F: Fn(T, T) -> T>(v: &Vec<T>, f: F) -> (r: Option<T>)
  requires forall|a: T, b: T| call_requires(f, (a, b))
  ensures r is None <==> v@.len() == 0, v@.len() == 1 ==> r == Some(v@[0]), v@.len() == 2 ==> call_ensures(f, (v@[0], v@[1]), r->0) { unimplemented!() }
/// into_iter().map(f).collect::<Option<Vec<_>>>()
#[verifier::external_body] fn map_collect_option<T, U, F: Fn(T) -> Option<U>>(v: Vec<T>, f: F) -> (r: Option<Vec<U>>)
  requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
  ensures match r { Some(w) => w@.len() == v@.len() && forall|i: int| #![trigger v@[i]] #![trigger w@[i]] 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), Some(w@[i])),
    None => exists|i: int| 0 <= i < v@.len() && call_ensures(f, (#[trigger] v@[i],), None::<U>) } { unimplemented!() }
