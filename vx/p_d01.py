from common import *
EXEC = 'd01'; EXEC_FEATURES = 'passes'
F = 'hugr-passes/src/dataflow/partial_value.rs'
SPEC = '''
use core::cmp::Ordering;
/// values of the underlying domain, nodes, type arguments
#[verifier::external_body] pub struct V { x: u8 }
#[verifier::external_body] pub struct N { x: u8 }
#[verifier::external_body] pub struct Args { x: u8 }
impl Clone for V { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// std::collections::HashMap<usize, Vec<PartialValue>>: a finite map, iterated in an order of its own
pub struct HashMap { pub m: Ghost<Map<usize, Vec<PartialValue>>> }
'''
DOMAIN = '''
impl Clone for PartialValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for PartialSum { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Row = Seq<PartialValue>;
impl HashMap {
pub open spec fn view(&self) -> Map<usize, Vec<PartialValue>> { self.m@ }
#[verifier::external_body] pub fn of(k: usize, v: Vec<PartialValue>) -> (r: Self) ensures r@ == Map::<usize, Vec<PartialValue>>::empty().insert(k, v) { unimplemented!() }
#[verifier::external_body] pub fn keys(&self) -> (r: Vec<usize>) ensures r@.no_duplicates(), r@.to_set() == self@.dom(), r@.len() == self@.dom().len() { unimplemented!() }
#[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&Vec<PartialValue>>) ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
#[verifier::external_body] pub fn contains_key(&self, k: &usize) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
#[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
#[verifier::external_body] pub fn take(&mut self, k: &usize) -> (r: Option<Vec<PartialValue>>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
pub fn remove(&mut self, k: &usize) ensures final(self)@ == old(self)@.remove(*k) { let _ = self.take(k); }
#[verifier::external_body] pub fn at(&self, k: &usize) -> (r: Vec<PartialValue>) requires self@.dom().contains(*k) ensures r == self@[*k] { unimplemented!() }
#[verifier::external_body] pub fn insert(&mut self, k: usize, v: Vec<PartialValue>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
// ---- the underlying domain: an order in which try_join / try_meet are least upper / greatest lower bounds where they exist ----
pub uninterp spec fn vle(a: V, b: V) -> bool;
#[verifier::external_body] pub proof fn values_are_ordered() ensures forall|a: V| #[trigger] vle(a, a), forall|a: V, b: V, c: V| #[trigger] vle(a, b) && #[trigger] vle(b, c) ==> vle(a, c), forall|a: V, b: V| #[trigger] vle(a, b) && vle(b, a) ==> a == b { }
pub open spec fn v_joined(a: V, b: V, j: V) -> bool { vle(a, j) && vle(b, j) && forall|u: V| #[trigger] vle(a, u) && vle(b, u) ==> vle(j, u) }
pub open spec fn v_met(a: V, b: V, m: V) -> bool { vle(m, a) && vle(m, b) && forall|u: V| #[trigger] vle(u, a) && vle(u, b) ==> vle(u, m) }
impl V {
#[verifier::external_body] pub fn try_join(self, o: V) -> (r: Option<(V, bool)>) ensures match r { Some((j, ch)) => v_joined(self, o, j) && ch == (j != self), None => forall|u: V| !(#[trigger] vle(self, u) && vle(o, u)) } { unimplemented!() }
#[verifier::external_body] pub fn try_meet(self, o: V) -> (r: Option<(V, bool)>) ensures match r { Some((j, ch)) => v_met(self, o, j) && ch == (j != self), None => forall|u: V| !(#[trigger] vle(u, self) && vle(u, o)) } { unimplemented!() }
#[verifier::external_body] pub fn eq(&self, o: &V) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
#[verifier::external_body] pub fn node_eq(a: &N, b: &N) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn lf_eq(a: &LoadedFunction, b: &LoadedFunction) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
// ---- the order of abstract values ----
pub open spec fn le(a: PartialValue, b: PartialValue) -> bool decreases a { match (a, b) { (PartialValue::Bottom, _) => true, (_, PartialValue::Top) => true, (PartialValue::Value(x), PartialValue::Value(y)) => vle(x, y), (PartialValue::LoadedFunction(x), PartialValue::LoadedFunction(y)) => x == y,
  (PartialValue::PartialSum(x), PartialValue::PartialSum(y)) => forall|k: usize| #![trigger x.0@.dom().contains(k)] x.0@.dom().contains(k) ==> y.0@.dom().contains(k) && x.0@[k]@.len() == y.0@[k]@.len() && forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() ==> le(x.0@[k]@[i], y.0@[k]@[i]), _ => false } }
pub open spec fn row_le(a: Row, b: Row) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> le(a[i], b[i]) }
/// what the derived equality computes
pub open spec fn eqv(a: PartialValue, b: PartialValue) -> bool decreases a { match (a, b) { (PartialValue::Bottom, PartialValue::Bottom) => true, (PartialValue::Top, PartialValue::Top) => true, (PartialValue::Value(x), PartialValue::Value(y)) => x == y, (PartialValue::LoadedFunction(x), PartialValue::LoadedFunction(y)) => x == y,
  (PartialValue::PartialSum(x), PartialValue::PartialSum(y)) => x.0@.dom() == y.0@.dom() && forall|k: usize| #![trigger x.0@.dom().contains(k)] x.0@.dom().contains(k) ==> x.0@[k]@.len() == y.0@[k]@.len() && forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() ==> eqv(x.0@[k]@[i], y.0@[k]@[i]), _ => false } }
pub open spec fn row_eqv(a: Row, b: Row) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> eqv(a[i], b[i]) }
/// sums have at least one variant
pub open spec fn wf(a: PartialValue) -> bool decreases a { match a { PartialValue::PartialSum(x) => x.0@.dom() != Set::<usize>::empty() && forall|k: usize| #![trigger x.0@.dom().contains(k)] x.0@.dom().contains(k) ==> forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() ==> wf(x.0@[k]@[i]), _ => true } }
pub open spec fn row_wf(a: Row) -> bool { forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> wf(a[i]) }
/// variants of the same tag have the same number of values, at every level
pub open spec fn alike(a: PartialValue, b: PartialValue) -> bool decreases a { match (a, b) { (PartialValue::PartialSum(x), PartialValue::PartialSum(y)) => forall|k: usize| #![trigger x.0@.dom().contains(k)] x.0@.dom().contains(k) && y.0@.dom().contains(k) ==> x.0@[k]@.len() == y.0@[k]@.len() && forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() ==> alike(x.0@[k]@[i], y.0@[k]@[i]), _ => true } }
pub open spec fn row_alike(a: Row, b: Row) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> alike(a[i], b[i]) }
pub open spec fn joined(a: PartialValue, b: PartialValue, j: PartialValue) -> bool { le(a, j) && le(b, j) && forall|u: PartialValue| #[trigger] le(a, u) && le(b, u) ==> le(j, u) }
pub open spec fn met(a: PartialValue, b: PartialValue, m: PartialValue) -> bool { le(m, a) && le(m, b) && (alike(a, b) ==> forall|u: PartialValue| #[trigger] le(u, a) && le(u, b) && wf(u) ==> le(u, m)) }
pub open spec fn row_joined(a: Row, b: Row, j: Row) -> bool { a.len() == b.len() && a.len() == j.len() && forall|i: int| #![trigger j[i]] 0 <= i < j.len() ==> joined(a[i], b[i], j[i]) && wf(j[i]) }
pub open spec fn row_met(a: Row, b: Row, j: Row) -> bool { a.len() == b.len() && a.len() == j.len() && forall|i: int| #![trigger j[i]] 0 <= i < j.len() ==> met(a[i], b[i], j[i]) && wf(j[i]) }
'''
LEMMAS = {
'the_order_is_reflexive': '''pub proof fn the_order_is_reflexive(a: PartialValue) ensures le(a, a) decreases a { values_are_ordered(); if let PartialValue::PartialSum(x) = a { assert forall|k: usize| #![trigger x.0@.dom().contains(k)] x.0@.dom().contains(k) implies (forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() ==> le(x.0@[k]@[i], x.0@[k]@[i])) by { assert forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() implies le(x.0@[k]@[i], x.0@[k]@[i]) by { the_order_is_reflexive(x.0@[k]@[i]); } } } }''',
'the_order_is_transitive': '''pub proof fn the_order_is_transitive(a: PartialValue, b: PartialValue, c: PartialValue) requires le(a, b), le(b, c) ensures le(a, c) decreases a { values_are_ordered(); if a is PartialSum && b is PartialSum && c is PartialSum { let (x, y, z) = (a->PartialSum_0, b->PartialSum_0, c->PartialSum_0);
  assert forall|k: usize| #![trigger x.0@.dom().contains(k)] x.0@.dom().contains(k) implies z.0@.dom().contains(k) && x.0@[k]@.len() == z.0@[k]@.len() && (forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() ==> le(x.0@[k]@[i], z.0@[k]@[i])) by { assert(y.0@.dom().contains(k)); assert forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() implies le(x.0@[k]@[i], z.0@[k]@[i]) by { let t = y.0@[k]@[i]; the_order_is_transitive(x.0@[k]@[i], y.0@[k]@[i], z.0@[k]@[i]); } } } }''',
'the_order_is_antisymmetric': '''pub proof fn the_order_is_antisymmetric(a: PartialValue, b: PartialValue) requires le(a, b), le(b, a) ensures eqv(a, b) decreases a { values_are_ordered(); if a is PartialSum && b is PartialSum { let (x, y) = (a->PartialSum_0, b->PartialSum_0);
  assert(x.0@.dom() =~= y.0@.dom()) by { assert forall|k: usize| x.0@.dom().contains(k) == y.0@.dom().contains(k) by {} }
  assert forall|k: usize| #![trigger x.0@.dom().contains(k)] x.0@.dom().contains(k) implies x.0@[k]@.len() == y.0@[k]@.len() && (forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() ==> eqv(x.0@[k]@[i], y.0@[k]@[i])) by { assert(y.0@.dom().contains(k)); assert forall|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() implies eqv(x.0@[k]@[i], y.0@[k]@[i]) by { let t = y.0@[k]@[i]; the_order_is_antisymmetric(x.0@[k]@[i], y.0@[k]@[i]); } } } }''',
'equal_values_are_mutually_below': '''pub proof fn equal_values_are_mutually_below(a: PartialValue, b: PartialValue) requires eqv(a, b) ensures le(a, b), le(b, a) decreases a { values_are_ordered(); if a is PartialSum && b is PartialSum { let (x, y) = (a->PartialSum_0, b->PartialSum_0);
  assert forall|k: usize| #![trigger x.0@.dom().contains(k)] #![trigger y.0@.dom().contains(k)] x.0@.dom().contains(k) implies (forall|i: int| #![trigger x.0@[k]@[i]] #![trigger y.0@[k]@[i]] 0 <= i < x.0@[k]@.len() ==> le(x.0@[k]@[i], y.0@[k]@[i]) && le(y.0@[k]@[i], x.0@[k]@[i])) by { assert forall|i: int| #![trigger x.0@[k]@[i]] #![trigger y.0@[k]@[i]] 0 <= i < x.0@[k]@.len() implies le(x.0@[k]@[i], y.0@[k]@[i]) && le(y.0@[k]@[i], x.0@[k]@[i]) by { equal_values_are_mutually_below(x.0@[k]@[i], y.0@[k]@[i]); } } } }''',
'joins_are_unique': '''pub proof fn joins_are_unique(a: PartialValue, b: PartialValue, j: PartialValue, k: PartialValue) requires joined(a, b, j), joined(b, a, k) ensures eqv(j, k) { the_order_is_antisymmetric(j, k); }''',
'meets_are_unique': '''pub proof fn meets_are_unique(a: PartialValue, b: PartialValue, j: PartialValue, k: PartialValue) requires met(a, b, j), met(b, a, k), alike(a, b), alike(b, a), wf(j), wf(k) ensures eqv(j, k) { assert(le(k, a) && le(k, b)); assert(le(j, b) && le(j, a)); the_order_is_antisymmetric(j, k); }''',
'join_is_associative': '''pub proof fn join_is_associative(a: PartialValue, b: PartialValue, c: PartialValue, ab: PartialValue, abc: PartialValue, bc: PartialValue, abc2: PartialValue) requires joined(a, b, ab), joined(ab, c, abc), joined(b, c, bc), joined(a, bc, abc2) ensures eqv(abc, abc2)
{ the_order_is_transitive(a, ab, abc); the_order_is_transitive(b, ab, abc); assert(le(bc, abc)); assert(le(abc2, abc)); the_order_is_transitive(b, bc, abc2); the_order_is_transitive(c, bc, abc2); assert(le(ab, abc2)); assert(le(abc, abc2)); the_order_is_antisymmetric(abc, abc2); }''',
'join_with_oneself_bottom_and_top': '''pub proof fn join_with_oneself_bottom_and_top(a: PartialValue, j: PartialValue) ensures joined(a, a, j) ==> eqv(j, a), joined(a, PartialValue::Bottom, j) ==> eqv(j, a), joined(PartialValue::Bottom, a, j) ==> eqv(j, a), joined(a, PartialValue::Top, j) ==> eqv(j, PartialValue::Top)
{ the_order_is_reflexive(a); assert(le(PartialValue::Bottom, a)); if joined(a, a, j) || joined(a, PartialValue::Bottom, j) || joined(PartialValue::Bottom, a, j) { the_order_is_antisymmetric(j, a); } }''',
'absorption': '''pub proof fn absorption(a: PartialValue, b: PartialValue, m: PartialValue, j: PartialValue) requires met(a, b, m), joined(a, m, j) ensures eqv(j, a) { the_order_is_reflexive(a); assert(le(j, a)); the_order_is_antisymmetric(j, a); }'''}
JOIN = '''
pub open spec fn tagged(m: Map<usize, Vec<PartialValue>>, k: usize) -> bool { m.dom().contains(k) }
pub open spec fn clash(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, k: usize) -> bool { a.dom().contains(k) && b.dom().contains(k) && a[k]@.len() != b[k]@.len() }
/// the variants of the join
pub open spec fn all_joined(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, j: Map<usize, Vec<PartialValue>>) -> bool { forall|k: usize| #![trigger j.dom().contains(k)] (j.dom().contains(k) == (a.dom().contains(k) || b.dom().contains(k))) && (a.dom().contains(k) && b.dom().contains(k) ==> row_joined(a[k]@, b[k]@, j[k]@)) && (a.dom().contains(k) && !b.dom().contains(k) ==> j[k] == a[k]) && (!a.dom().contains(k) && b.dom().contains(k) ==> j[k] == b[k]) }
pub open spec fn sum_changed(a: Map<usize, Vec<PartialValue>>, j: Map<usize, Vec<PartialValue>>) -> bool { !eqv(PartialValue::PartialSum(PartialSum(HashMap { m: Ghost(a) })), PartialValue::PartialSum(PartialSum(HashMap { m: Ghost(j) }))) }
pub proof fn rows_make_the_join(a: PartialValue, b: PartialValue, j: PartialValue) requires a is PartialSum, b is PartialSum, j is PartialSum, wf(a), wf(b), all_joined(a->PartialSum_0.0@, b->PartialSum_0.0@, j->PartialSum_0.0@) ensures joined(a, b, j), wf(j)
{ let (x, y, z) = (a->PartialSum_0.0@, b->PartialSum_0.0@, j->PartialSum_0.0@);
  assert forall|k: usize| x.dom().contains(k) implies z.dom().contains(k) && x[k]@.len() == z[k]@.len() && (forall|i: int| #![trigger x[k]@[i]] 0 <= i < x[k]@.len() ==> le(x[k]@[i], z[k]@[i])) by { assert(z.dom().contains(k)); assert forall|i: int| #![trigger x[k]@[i]] 0 <= i < x[k]@.len() implies le(x[k]@[i], z[k]@[i]) by { the_order_is_reflexive(x[k]@[i]); if y.dom().contains(k) { let t = z[k]@[i]; } } }
  assert forall|k: usize| y.dom().contains(k) implies z.dom().contains(k) && y[k]@.len() == z[k]@.len() && (forall|i: int| #![trigger y[k]@[i]] 0 <= i < y[k]@.len() ==> le(y[k]@[i], z[k]@[i])) by { assert(z.dom().contains(k)); assert forall|i: int| #![trigger y[k]@[i]] 0 <= i < y[k]@.len() implies le(y[k]@[i], z[k]@[i]) by { the_order_is_reflexive(y[k]@[i]); if x.dom().contains(k) { let t = z[k]@[i]; } } }
  assert(le(a, j)); assert(le(b, j));
  assert forall|u: PartialValue| #[trigger] le(a, u) && le(b, u) implies le(j, u) by { if u is PartialSum { let w = u->PartialSum_0.0@;
     assert forall|k: usize| z.dom().contains(k) implies w.dom().contains(k) && z[k]@.len() == w[k]@.len() && (forall|i: int| #![trigger z[k]@[i]] 0 <= i < z[k]@.len() ==> le(z[k]@[i], w[k]@[i])) by {
        assert(x.dom().contains(k) || y.dom().contains(k));
        assert forall|i: int| #![trigger z[k]@[i]] 0 <= i < z[k]@.len() implies le(z[k]@[i], w[k]@[i]) by { if x.dom().contains(k) { let t = x[k]@[i]; assert(le(x[k]@[i], w[k]@[i])); } if y.dom().contains(k) { let t = y[k]@[i]; assert(le(y[k]@[i], w[k]@[i])); } } } } }
  assert forall|k: usize| z.dom().contains(k) implies (forall|i: int| #![trigger z[k]@[i]] 0 <= i < z[k]@.len() ==> wf(z[k]@[i])) by { assert forall|i: int| #![trigger z[k]@[i]] 0 <= i < z[k]@.len() implies wf(z[k]@[i]) by { if x.dom().contains(k) { let t = x[k]@[i]; } if y.dom().contains(k) { let t = y[k]@[i]; } } }
  assert(z.dom() != Set::<usize>::empty()) by { assert(exists|k: usize| x.dom().contains(k)) by { if !exists|k: usize| x.dom().contains(k) { assert(x.dom() =~= Set::empty()); } } let k = choose|k: usize| x.dom().contains(k); assert(z.dom().contains(k)); } }
pub proof fn clashing_variants_have_no_bound_but_top(a: PartialValue, b: PartialValue, k: usize) requires a is PartialSum, b is PartialSum, clash(a->PartialSum_0.0@, b->PartialSum_0.0@, k) ensures joined(a, b, PartialValue::Top), !alike(a, b) { assert forall|u: PartialValue| #[trigger] le(a, u) && le(b, u) implies le(PartialValue::Top, u) by { if u is PartialSum { assert(a->PartialSum_0.0@.dom().contains(k)); assert(b->PartialSum_0.0@.dom().contains(k)); } } assert(a->PartialSum_0.0@.dom().contains(k)); }
pub open spec fn among(ks: Seq<usize>, n: int, k: usize) -> bool { exists|i: int| 0 <= i < n && #[trigger] ks[i] == k }
/// the join after the first n variants of b have been joined in
pub open spec fn joined_to(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int, j: Map<usize, Vec<PartialValue>>) -> bool { forall|k: usize| #![trigger j.dom().contains(k)] (j.dom().contains(k) == (a.dom().contains(k) || among(ks, n, k))) && (a.dom().contains(k) && among(ks, n, k) ==> row_joined(a[k]@, b[k]@, j[k]@)) && (a.dom().contains(k) && !among(ks, n, k) ==> j[k] == a[k]) && (!a.dom().contains(k) && among(ks, n, k) ==> j[k] == b[k]) }
pub open spec fn same_so_far(a: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int, j: Map<usize, Vec<PartialValue>>) -> bool { forall|k: usize| #![trigger j.dom().contains(k)] among(ks, n, k) && j.dom().contains(k) ==> a.dom().contains(k) && row_eqv(j[k]@, a[k]@) }
pub proof fn next_key(ks: Seq<usize>, n: int) requires 0 <= n < ks.len(), ks.no_duplicates() ensures !among(ks, n, ks[n]), among(ks, n + 1, ks[n]), forall|k: usize| #![trigger among(ks, n + 1, k)] #![trigger among(ks, n, k)] among(ks, n + 1, k) == (among(ks, n, k) || k == ks[n]) { if among(ks, n, ks[n]) { let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == ks[n]; } assert forall|k: usize| #![trigger among(ks, n + 1, k)] #![trigger among(ks, n, k)] among(ks, n + 1, k) == (among(ks, n, k) || k == ks[n]) by { if among(ks, n + 1, k) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] ks[i] == k; if i == n {} else { assert(among(ks, n, k)); } } if among(ks, n, k) { let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == k; assert(ks[i] == k && 0 <= i < n + 1); } if k == ks[n] { assert(ks[n] == k && 0 <= n < n + 1); } } }
pub proof fn every_key(ks: Seq<usize>, d: Set<usize>) requires ks.to_set() == d ensures forall|k: usize| #[trigger] among(ks, ks.len() as int, k) == d.contains(k) { assert forall|k: usize| #[trigger] among(ks, ks.len() as int, k) == d.contains(k) by { assert(ks.to_set().contains(k) == ks.contains(k)); } }
pub proof fn no_keys(ks: Seq<usize>) ensures forall|k: usize| !#[trigger] among(ks, 0, k) { }
/// nothing changed exactly when the sums are equal
pub proof fn change_of_join(a: PartialValue, b: PartialValue, j: PartialValue, ks: Seq<usize>) requires a is PartialSum, b is PartialSum, j is PartialSum, ks.to_set() == b->PartialSum_0.0@.dom(), all_joined(a->PartialSum_0.0@, b->PartialSum_0.0@, j->PartialSum_0.0@) ensures same_so_far(a->PartialSum_0.0@, ks, ks.len() as int, j->PartialSum_0.0@) == eqv(j, a)
{ let (x, y, z) = (a->PartialSum_0.0@, b->PartialSum_0.0@, j->PartialSum_0.0@); every_key(ks, y.dom());
  if same_so_far(x, ks, ks.len() as int, z) { assert(z.dom() =~= x.dom()) by { assert forall|k: usize| z.dom().contains(k) == x.dom().contains(k) by { assert(among(ks, ks.len() as int, k) == y.dom().contains(k)); } } assert forall|k: usize| z.dom().contains(k) implies z[k]@.len() == x[k]@.len() && (forall|i: int| #![trigger z[k]@[i]] 0 <= i < z[k]@.len() ==> eqv(z[k]@[i], x[k]@[i])) by { assert(among(ks, ks.len() as int, k) == y.dom().contains(k)); if !y.dom().contains(k) { assert forall|i: int| #![trigger z[k]@[i]] 0 <= i < z[k]@.len() implies eqv(z[k]@[i], x[k]@[i]) by { the_order_is_reflexive(x[k]@[i]); the_order_is_antisymmetric(x[k]@[i], x[k]@[i]); } } } }
  if eqv(j, a) { assert forall|k: usize| #![trigger z.dom().contains(k)] among(ks, ks.len() as int, k) && z.dom().contains(k) implies x.dom().contains(k) && row_eqv(z[k]@, x[k]@) by { } } }
'''
MEET = '''
/// the variants of the meet
pub open spec fn all_met(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, j: Map<usize, Vec<PartialValue>>) -> bool { forall|k: usize| #![trigger j.dom().contains(k)] (j.dom().contains(k) == (a.dom().contains(k) && b.dom().contains(k))) && (j.dom().contains(k) ==> row_met(a[k]@, b[k]@, j[k]@)) }
pub open spec fn disjoint(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>) -> bool { forall|k: usize| #![trigger a.dom().contains(k)] a.dom().contains(k) ==> !b.dom().contains(k) }
/// the meet after the first n variants of b have been met
pub open spec fn met_to(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int, j: Map<usize, Vec<PartialValue>>) -> bool { forall|k: usize| #![trigger j.dom().contains(k)] (j.dom().contains(k) == a.dom().contains(k)) && (a.dom().contains(k) && among(ks, n, k) ==> row_met(a[k]@, b[k]@, j[k]@)) && (a.dom().contains(k) && !among(ks, n, k) ==> j[k] == a[k]) }
/// and after the first n of the variants b does not have were removed
pub open spec fn removed_to(j: Map<usize, Vec<PartialValue>>, rs: Seq<usize>, n: int, m: Map<usize, Vec<PartialValue>>) -> bool { forall|k: usize| #![trigger m.dom().contains(k)] (m.dom().contains(k) == (j.dom().contains(k) && !among(rs, n, k))) && (m.dom().contains(k) ==> m[k] == j[k]) }
pub proof fn rows_make_the_meet(a: PartialValue, b: PartialValue, j: PartialValue) requires a is PartialSum, b is PartialSum, j is PartialSum, wf(a), wf(b), all_met(a->PartialSum_0.0@, b->PartialSum_0.0@, j->PartialSum_0.0@), !disjoint(a->PartialSum_0.0@, b->PartialSum_0.0@) ensures met(a, b, j), wf(j)
{ let (x, y, z) = (a->PartialSum_0.0@, b->PartialSum_0.0@, j->PartialSum_0.0@);
  assert forall|k: usize| #![trigger z.dom().contains(k)] z.dom().contains(k) implies x.dom().contains(k) && y.dom().contains(k) && x[k]@.len() == z[k]@.len() && y[k]@.len() == z[k]@.len() && (forall|i: int| #![trigger z[k]@[i]] 0 <= i < z[k]@.len() ==> le(z[k]@[i], x[k]@[i]) && le(z[k]@[i], y[k]@[i]) && wf(z[k]@[i])) by { }
  assert(le(j, a)); assert(le(j, b));
  let k0 = choose|k: usize| x.dom().contains(k) && y.dom().contains(k); assert(z.dom().contains(k0)); assert(wf(j));
  if alike(a, b) { assert forall|u: PartialValue| #[trigger] le(u, a) && le(u, b) && wf(u) implies le(u, j) by { if u is PartialSum { let w = u->PartialSum_0.0@;
     assert forall|k: usize| #![trigger w.dom().contains(k)] w.dom().contains(k) implies z.dom().contains(k) && w[k]@.len() == z[k]@.len() && (forall|i: int| #![trigger w[k]@[i]] 0 <= i < w[k]@.len() ==> le(w[k]@[i], z[k]@[i])) by {
        assert(x.dom().contains(k) && y.dom().contains(k)); assert(z.dom().contains(k));
        assert forall|i: int| #![trigger w[k]@[i]] 0 <= i < w[k]@.len() implies le(w[k]@[i], z[k]@[i]) by { assert(wf(w[k]@[i])); assert(le(w[k]@[i], x[k]@[i])); assert(le(w[k]@[i], y[k]@[i])); assert(met(x[k]@[i], y[k]@[i], z[k]@[i])); assert(alike(x[k]@[i], y[k]@[i])); } } } } } }
pub proof fn no_common_variant_means_bottom(a: PartialValue, b: PartialValue) requires a is PartialSum, b is PartialSum, disjoint(a->PartialSum_0.0@, b->PartialSum_0.0@) ensures met(a, b, PartialValue::Bottom) { assert forall|u: PartialValue| #[trigger] le(u, a) && le(u, b) && wf(u) implies le(u, PartialValue::Bottom) by { if u is PartialSum { let w = u->PartialSum_0.0@; if exists|k: usize| w.dom().contains(k) { let k = choose|k: usize| w.dom().contains(k); assert(a->PartialSum_0.0@.dom().contains(k)); } else { assert(w.dom() =~= Set::empty()); } } } }
pub proof fn clashing_variants_meet_in_bottom(a: PartialValue, b: PartialValue, k: usize) requires a is PartialSum, b is PartialSum, clash(a->PartialSum_0.0@, b->PartialSum_0.0@, k) ensures met(a, b, PartialValue::Bottom) { clashing_variants_have_no_bound_but_top(a, b, k); }
/// keys listed once, all of them keys of the map: as many as the map has exactly when they are all of them
pub proof fn all_keys_listed(rs: Seq<usize>, d: Set<usize>) requires rs.no_duplicates(), rs.to_set().subset_of(d) ensures (rs.len() == d.len()) == (rs.to_set() == d) { rs.unique_seq_to_set(); if rs.len() == d.len() { vstd::set_lib::lemma_subset_equality(rs.to_set(), d); } }
pub open spec fn same_rows(a: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int, j: Map<usize, Vec<PartialValue>>) -> bool { forall|k: usize| #![trigger j.dom().contains(k)] among(ks, n, k) && j.dom().contains(k) ==> row_eqv(j[k]@, a[k]@) }
pub proof fn same_as_itself(a: PartialValue) ensures eqv(a, a) { the_order_is_reflexive(a); the_order_is_antisymmetric(a, a); }
pub proof fn change_of_meet(a: PartialValue, b: PartialValue, j: PartialValue, m: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, rs: Seq<usize>) requires a is PartialSum, b is PartialSum, j is PartialSum, ks.to_set() == b->PartialSum_0.0@.dom(), met_to(a->PartialSum_0.0@, b->PartialSum_0.0@, ks, ks.len() as int, m), removed_to(m, rs, rs.len() as int, j->PartialSum_0.0@), forall|k: usize| #[trigger] among(rs, rs.len() as int, k) == (a->PartialSum_0.0@.dom().contains(k) && !b->PartialSum_0.0@.dom().contains(k))
 ensures all_met(a->PartialSum_0.0@, b->PartialSum_0.0@, j->PartialSum_0.0@), (rs.len() == 0 && same_rows(a->PartialSum_0.0@, ks, ks.len() as int, m)) == eqv(j, a)
{ let (x, y, z) = (a->PartialSum_0.0@, b->PartialSum_0.0@, j->PartialSum_0.0@); every_key(ks, y.dom());
  assert forall|k: usize| #![trigger z.dom().contains(k)] (z.dom().contains(k) == (x.dom().contains(k) && y.dom().contains(k))) && (z.dom().contains(k) ==> row_met(x[k]@, y[k]@, z[k]@)) by { assert(m.dom().contains(k) == x.dom().contains(k)); assert(among(rs, rs.len() as int, k) == (x.dom().contains(k) && !y.dom().contains(k))); assert(among(ks, ks.len() as int, k) == y.dom().contains(k)); }
  if rs.len() == 0 && same_rows(x, ks, ks.len() as int, m) { assert(z.dom() =~= x.dom()) by { assert forall|k: usize| z.dom().contains(k) == x.dom().contains(k) by { assert(m.dom().contains(k) == x.dom().contains(k)); assert(among(rs, rs.len() as int, k) == (x.dom().contains(k) && !y.dom().contains(k))); } }
     assert forall|k: usize| #![trigger z.dom().contains(k)] z.dom().contains(k) implies z[k]@.len() == x[k]@.len() && (forall|i: int| #![trigger z[k]@[i]] 0 <= i < z[k]@.len() ==> eqv(z[k]@[i], x[k]@[i])) by { assert(m.dom().contains(k)); assert(among(ks, ks.len() as int, k) == y.dom().contains(k)); } }
  if eqv(j, a) { assert(rs.len() == 0) by { if rs.len() > 0 { let k = rs[0]; assert(among(rs, rs.len() as int, k)); assert(!z.dom().contains(k)); assert(x.dom().contains(k)); } }
     assert forall|k: usize| #![trigger m.dom().contains(k)] among(ks, ks.len() as int, k) && m.dom().contains(k) implies row_eqv(m[k]@, x[k]@) by { assert(z.dom().contains(k)); } } }
'''
ORDER = '''
pub proof fn all_variants_joined(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, j: Map<usize, Vec<PartialValue>>) requires ks.to_set() == b.dom(), joined_to(a, b, ks, ks.len() as int, j) ensures all_joined(a, b, j) { every_key(ks, b.dom()); assert forall|k: usize| #![trigger j.dom().contains(k)] (j.dom().contains(k) == (a.dom().contains(k) || b.dom().contains(k))) && (a.dom().contains(k) && b.dom().contains(k) ==> row_joined(a[k]@, b[k]@, j[k]@)) && (a.dom().contains(k) && !b.dom().contains(k) ==> j[k] == a[k]) && (!a.dom().contains(k) && b.dom().contains(k) ==> j[k] == b[k]) by { assert(among(ks, ks.len() as int, k) == b.dom().contains(k)); } }
pub proof fn all_variants_checked(a: PartialValue, ks: Seq<usize>) requires a is PartialSum, ks.to_set() == a->PartialSum_0.0@.dom() ensures bottom_to(a->PartialSum_0.0@, ks, ks.len() as int) == has_bottom(a) { let x = a->PartialSum_0.0@; every_key(ks, x.dom()); if bottom_to(x, ks, ks.len() as int) { assert forall|k: usize| #![trigger x.dom().contains(k)] x.dom().contains(k) implies (exists|i: int| #![trigger x[k]@[i]] 0 <= i < x[k]@.len() && has_bottom(x[k]@[i])) by { assert(among(ks, ks.len() as int, k)); } } if has_bottom(a) { assert forall|k: usize| #![trigger among(ks, ks.len() as int, k)] among(ks, ks.len() as int, k) implies row_has_bottom(x[k]@) by { assert(x.dom().contains(k)); } } }
pub proof fn row_step(r: Row, r2: Row, r0: Row, j: int) requires 0 <= j < r.len(), r2.len() == r.len(), forall|p: int| #![trigger r2[p]] 0 <= p < r.len() && p != j ==> r2[p] == r[p] ensures row_same_to(r2, r0, j + 1) == (row_same_to(r, r0, j) && eqv(r2[j], r0[j])) { if row_same_to(r2, r0, j + 1) { assert forall|p: int| #![trigger r[p]] 0 <= p < j implies eqv(r[p], r0[p]) by { assert(r2[p] == r[p]); } } }
pub proof fn row_whole(r: Row, r0: Row) requires r.len() == r0.len() ensures row_same_to(r, r0, r.len() as int) == row_eqv(r, r0) { if row_same_to(r, r0, r.len() as int) { assert forall|i: int| #![trigger r[i]] #![trigger r0[i]] 0 <= i < r.len() implies eqv(r[i], r0[i]) by { let t = r[i]; } } }
pub proof fn pushed(rs: Seq<usize>, k: usize) ensures forall|q: usize| #[trigger] rs.push(k).contains(q) == (rs.contains(q) || q == k) { assert forall|q: usize| #[trigger] rs.push(k).contains(q) == (rs.contains(q) || q == k) by { if rs.contains(q) { let i = choose|i: int| 0 <= i < rs.len() && rs[i] == q; assert(rs.push(k)[i] == q); } if q == k { assert(rs.push(k)[rs.len() as int] == k); } if rs.push(k).contains(q) && q != k { let i = choose|i: int| 0 <= i < rs.push(k).len() && rs.push(k)[i] == q; assert(rs[i] == q); } } }
pub proof fn join_step(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int, m: Map<usize, Vec<PartialValue>>, m2: Map<usize, Vec<PartialValue>>) requires 0 <= n < ks.len(), ks.no_duplicates(), joined_to(a, b, ks, n, m), b.dom().contains(ks[n]), m2 == m.insert(ks[n], m2[ks[n]]), a.dom().contains(ks[n]) ==> row_joined(a[ks[n]]@, b[ks[n]]@, m2[ks[n]]@), !a.dom().contains(ks[n]) ==> m2[ks[n]] == b[ks[n]]
 ensures joined_to(a, b, ks, n + 1, m2), same_so_far(a, ks, n + 1, m2) == (same_so_far(a, ks, n, m) && a.dom().contains(ks[n]) && row_eqv(m2[ks[n]]@, a[ks[n]]@))
{ next_key(ks, n); let k = ks[n]; assert(m2.dom().contains(k)); assert forall|q: usize| #![trigger m2.dom().contains(q)] m2.dom().contains(q) == (m.dom().contains(q) || q == k) && (q != k && m.dom().contains(q) ==> m2[q] == m[q]) by {}
  if same_so_far(a, ks, n + 1, m2) { assert forall|q: usize| #![trigger m.dom().contains(q)] among(ks, n, q) && m.dom().contains(q) implies a.dom().contains(q) && row_eqv(m[q]@, a[q]@) by { assert(m2.dom().contains(q)); } } }
pub proof fn meet_step(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int, m: Map<usize, Vec<PartialValue>>, m2: Map<usize, Vec<PartialValue>>) requires 0 <= n < ks.len(), ks.no_duplicates(), met_to(a, b, ks, n, m), if a.dom().contains(ks[n]) { m2 == m.insert(ks[n], m2[ks[n]]) && row_met(a[ks[n]]@, b[ks[n]]@, m2[ks[n]]@) } else { m2 == m }
 ensures met_to(a, b, ks, n + 1, m2), same_rows(a, ks, n + 1, m2) == (same_rows(a, ks, n, m) && (a.dom().contains(ks[n]) ==> row_eqv(m2[ks[n]]@, a[ks[n]]@)))
{ next_key(ks, n); let k = ks[n]; assert(m2.dom().contains(k) == a.dom().contains(k)) by { assert(m.dom().contains(k) == a.dom().contains(k)); } assert forall|q: usize| #![trigger m2.dom().contains(q)] m2.dom().contains(q) == m.dom().contains(q) && (q != k && m.dom().contains(q) ==> m2[q] == m[q]) by { assert(m.dom().contains(k) == a.dom().contains(k)); }
  if same_rows(a, ks, n + 1, m2) { assert forall|q: usize| #![trigger m.dom().contains(q)] among(ks, n, q) && m.dom().contains(q) implies row_eqv(m[q]@, a[q]@) by { assert(m2.dom().contains(q)); } } }
pub open spec fn ple(x: Map<usize, Vec<PartialValue>>, y: Map<usize, Vec<PartialValue>>) -> bool { forall|k: usize| #![trigger x.dom().contains(k)] x.dom().contains(k) ==> y.dom().contains(k) && row_le(x[k]@, y[k]@) }
pub proof fn variant_by_variant(a: PartialValue, b: PartialValue) requires a is PartialSum, b is PartialSum ensures le(a, b) == ple(a->PartialSum_0.0@, b->PartialSum_0.0@) { let (x, y) = (a->PartialSum_0.0@, b->PartialSum_0.0@); if le(a, b) { assert forall|k: usize| #![trigger x.dom().contains(k)] x.dom().contains(k) implies y.dom().contains(k) && row_le(x[k]@, y[k]@) by { assert forall|i: int| #![trigger x[k]@[i]] #![trigger y[k]@[i]] 0 <= i < x[k]@.len() implies le(x[k]@[i], y[k]@[i]) by { let t = x[k]@[i]; } } } if ple(x, y) { assert forall|k: usize| #![trigger x.dom().contains(k)] x.dom().contains(k) implies y.dom().contains(k) && x[k]@.len() == y[k]@.len() && (forall|i: int| #![trigger x[k]@[i]] 0 <= i < x[k]@.len() ==> le(x[k]@[i], y[k]@[i])) by { } } }
pub proof fn variants_so_far(x: Map<usize, Vec<PartialValue>>, y: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int) requires ks.to_set() == x.dom(), 0 <= n <= ks.len() ensures ple(x, y) ==> below_to(x, y, ks, n), ple(y, x) ==> above_to(x, y, ks, n), n == ks.len() ==> below_to(x, y, ks, n) == ple(x, y), n == ks.len() ==> (above_to(x, y, ks, n) && y.dom().subset_of(x.dom())) == ple(y, x)
{ every_key(ks, x.dom()); assert forall|k: usize| among(ks, n, k) implies x.dom().contains(k) by { let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == k; assert(among(ks, ks.len() as int, k)); }
  if n == ks.len() { if below_to(x, y, ks, n) { assert forall|k: usize| #![trigger x.dom().contains(k)] x.dom().contains(k) implies y.dom().contains(k) && row_le(x[k]@, y[k]@) by { assert(among(ks, n, k)); } }
    if above_to(x, y, ks, n) && y.dom().subset_of(x.dom()) { assert forall|k: usize| #![trigger y.dom().contains(k)] y.dom().contains(k) implies x.dom().contains(k) && row_le(y[k]@, x[k]@) by { assert(x.dom().contains(k)); assert(among(ks, n, k)); } } 
    if ple(y, x) { assert forall|k: usize| y.dom().contains(k) implies x.dom().contains(k) by {} } } }
pub proof fn subset_listed(x: Map<usize, Vec<PartialValue>>, y: Map<usize, Vec<PartialValue>>, os: Seq<usize>) requires os.to_set() == y.dom() ensures subset_to(x, os, os.len() as int) == y.dom().subset_of(x.dom()) { every_key(os, y.dom()); if subset_to(x, os, os.len() as int) { assert forall|k: usize| y.dom().contains(k) implies x.dom().contains(k) by { assert(among(os, os.len() as int, k)); } } if y.dom().subset_of(x.dom()) { assert forall|k: usize| #![trigger among(os, os.len() as int, k)] among(os, os.len() as int, k) implies x.dom().contains(k) by { assert(y.dom().contains(k)); } } }
pub open spec fn same_length_to(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int) -> bool { forall|k: usize| #![trigger among(ks, n, k)] among(ks, n, k) ==> !clash(a, b, k) }
pub open spec fn bottom_to(a: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int) -> bool { forall|k: usize| #![trigger among(ks, n, k)] among(ks, n, k) ==> row_has_bottom(a[k]@) }
pub open spec fn subset_to(x: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int) -> bool { forall|k: usize| #![trigger among(ks, n, k)] among(ks, n, k) ==> x.dom().contains(k) }
pub open spec fn row_bottom_to(a: Row, n: int) -> bool { exists|p: int| #![trigger a[p]] 0 <= p < n && has_bottom(a[p]) }
pub open spec fn missing_to(rs: Seq<usize>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int) -> bool { forall|k: usize| #![trigger among(ks, n, k)] #![trigger rs.contains(k)] rs.contains(k) == (among(ks, n, k) && !b.dom().contains(k)) }
pub open spec fn row_same_to(a: Row, b: Row, n: int) -> bool { forall|p: int| #![trigger a[p]] 0 <= p < n ==> eqv(a[p], b[p]) }
pub open spec fn row_joined_to(a: Row, b: Row, c: Row, n: int) -> bool { forall|p: int| #![trigger c[p]] 0 <= p < n ==> joined(a[p], b[p], c[p]) && wf(c[p]) }
pub open spec fn row_met_to(a: Row, b: Row, c: Row, n: int) -> bool { forall|p: int| #![trigger c[p]] 0 <= p < n ==> met(a[p], b[p], c[p]) && wf(c[p]) }
pub open spec fn row_kept_from(a: Row, c: Row, n: int) -> bool { forall|p: int| #![trigger c[p]] n <= p < c.len() ==> c[p] == a[p] }
pub open spec fn is_le(o: Option<Ordering>) -> bool { o == Some(Ordering::Less) || o == Some(Ordering::Equal) }
pub open spec fn is_ge(o: Option<Ordering>) -> bool { o == Some(Ordering::Greater) || o == Some(Ordering::Equal) }
/// the underlying values are ordered by equality only, which is what the comparison of values uses
pub open spec fn discrete() -> bool { forall|a: V, b: V| #[trigger] vle(a, b) == (a == b) }
pub open spec fn compares(a: PartialValue, b: PartialValue, r: Option<Ordering>) -> bool { is_le(r) == le(a, b) && is_ge(r) == le(b, a) }
pub fn ord_eq(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { match (a, b) { (Ordering::Less, Ordering::Less) => true, (Ordering::Equal, Ordering::Equal) => true, (Ordering::Greater, Ordering::Greater) => true, _ => false } }
pub open spec fn le_to(a: Row, b: Row, n: int) -> bool { forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < n ==> le(a[i], b[i]) }
pub open spec fn below_to(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int) -> bool { forall|k: usize| #![trigger among(ks, n, k)] among(ks, n, k) ==> b.dom().contains(k) && row_le(a[k]@, b[k]@) }
pub open spec fn above_to(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>, n: int) -> bool { forall|k: usize| #![trigger among(ks, n, k)] among(ks, n, k) && b.dom().contains(k) ==> row_le(b[k]@, a[k]@) }
/// what a value can be at run time: nothing, if it is or must contain something that cannot occur
pub open spec fn has_bottom(a: PartialValue) -> bool decreases a { match a { PartialValue::Bottom => true, PartialValue::PartialSum(x) => forall|k: usize| #![trigger x.0@.dom().contains(k)] x.0@.dom().contains(k) ==> exists|i: int| #![trigger x.0@[k]@[i]] 0 <= i < x.0@[k]@.len() && has_bottom(x.0@[k]@[i]), _ => false } }
pub open spec fn row_has_bottom(a: Row) -> bool { exists|i: int| #![trigger a[i]] 0 <= i < a.len() && has_bottom(a[i]) }
/// the values of one variant of an abstract value, as a row of n
pub open spec fn values_of(a: PartialValue, tag: usize, n: int) -> Option<Row> { match a { PartialValue::Top => Some(Seq::new(n as nat, |i: int| PartialValue::Top)), PartialValue::PartialSum(x) => if x.0@.dom().contains(tag) { Some(x.0@[tag]@) } else { None }, _ => None } }
pub open spec fn wide(a: PartialValue, tag: usize, n: int) -> bool { a matches PartialValue::PartialSum(x) ==> x.0@.dom().contains(tag) ==> x.0@[tag]@.len() == n }
#[verifier::external_body] pub fn tops(n: usize) -> (r: Vec<PartialValue>) ensures r@ == Seq::new(n as nat, |i: int| PartialValue::Top) { unimplemented!() }
#[verifier::external_body] pub fn bottoms(n: usize) -> (r: Vec<PartialValue>) ensures r@ == Seq::new(n as nat, |i: int| PartialValue::Bottom) { unimplemented!() }
#[verifier::external_body] pub fn row_of(v: &Vec<PartialValue>) -> (r: Vec<PartialValue>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn tail(v: &Vec<PartialValue>, n: usize) -> (r: Vec<PartialValue>) requires n <= v@.len() ensures r@ == v@.skip(n as int) { unimplemented!() }
#[verifier::external_body] pub fn chain(a: Vec<PartialValue>, b: Vec<PartialValue>) -> (r: Vec<PartialValue>) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn cloned(v: Option<&Vec<PartialValue>>) -> (r: Option<Vec<PartialValue>>) ensures match (v, r) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false } { unimplemented!() }
'''
MORE = {
'variants_grow_with_the_value': '''pub proof fn variants_grow_with_the_value(a: PartialValue, b: PartialValue, tag: usize, n: int) requires le(a, b), wide(a, tag, n), wide(b, tag, n), n >= 0 ensures values_of(a, tag, n) is Some ==> values_of(b, tag, n) is Some && row_le(values_of(a, tag, n).unwrap(), values_of(b, tag, n).unwrap()) { if a is PartialSum { assert(a->PartialSum_0.0@.dom().contains(tag) || !a->PartialSum_0.0@.dom().contains(tag)); } }''',
'rows_joined_in_any_order_agree': '''pub proof fn rows_joined_in_any_order_agree(a: Row, b: Row, j: Row, k: Row) requires row_joined(a, b, j), row_joined(b, a, k) ensures row_eqv(j, k) { assert forall|i: int| #![trigger j[i]] #![trigger k[i]] 0 <= i < j.len() implies eqv(j[i], k[i]) by { joins_are_unique(a[i], b[i], j[i], k[i]); } }'''}
LW = '''
pub open spec fn lle(a: LatticeWrapper, b: LatticeWrapper) -> bool { match (a, b) { (LatticeWrapper::Bottom, _) => true, (_, LatticeWrapper::Top) => true, (LatticeWrapper::Value(x), LatticeWrapper::Value(y)) => x == y, _ => false } }
pub fn lw_eq(a: &LatticeWrapper, b: &LatticeWrapper) -> (r: bool) ensures r == (*a == *b) { match (a, b) { (LatticeWrapper::Bottom, LatticeWrapper::Bottom) => true, (LatticeWrapper::Top, LatticeWrapper::Top) => true, (LatticeWrapper::Value(x), LatticeWrapper::Value(y)) => node_eq(x, y), _ => false } }
/// the function an abstract value denotes
pub open spec fn denotes(v: PartialValue) -> LatticeWrapper { match v { PartialValue::Bottom => LatticeWrapper::Bottom, PartialValue::PartialSum(_) => LatticeWrapper::Bottom, PartialValue::LoadedFunction(f) => LatticeWrapper::Value(f.func_node), _ => LatticeWrapper::Top } }
'''
def block_end(t, i):
    d = 0
    while True:
        d += {'{': 1, '}': -1}.get(t[i], 0); i += 1
        if d == 0: return i
def through_map(t):
    """`if let Some(row) = self.0.get_mut(&k) {..}`: the row is taken out, changed, and put back"""
    m = re.search(r'if let Some\(row\) = self\.0\.get_mut\(&k\) \{', t)
    if not m: return t
    e = block_end(t, m.end() - 1)
    return t[:m.start()] + 'if let Some(mut row) = self.0.take(&k) { let ghost row0 = row@;' + t[m.end():e - 1] + 'self.0.insert(k, row); proof { #PUT } }' + after_else(t[e:])
def after_else(t):
    m = re.match(r'\s*else \{', t)
    if m: e = block_end(t, m.end() - 1); return t[:e] + ' proof { #STEP }' + t[e:]
    return ' proof { #STEP }' + t
def pairs(a, b):
    """`for (x, y) in zip_eq(a.iter_mut(), b.into_iter()) { changed |= .. }`: by position"""
    return (rf'for \((\w+), (\w+)\) in zip_eq\({a}\.iter_mut\(\), {b}\.into_iter\(\)\) \{{\s*(changed \|?= \1\.\w+\(\2\);)\s*\}}', rf'proof {{ assert({a}@.len() == {b}@.len()); }} let n = {a}.len(); for j in 0..n {{ let mut \1 = {a}[j].clone(); let \2 = {b}[j].clone(); let ghost r1 = {a}@; \3 {a}.set(j, \1); proof {{ row_step(r1, {a}@, {a}0, j as int); }} }}')
OR = (r'changed \|= ([^;]*);', r'if \1 { changed = true; }')
DATA = [(r'<V, N(?: = Node)?>', ''), (r'<N>', ''), (r'Vec<TypeArg>', 'Args'), (r'HashMap<usize, Vec<PartialValue>>', 'HashMap'), (r'struct (\w+)\(HashMap', r'struct \1(pub HashMap'), (r'struct (\w+)\(Vec', r'struct \1(pub Vec'), (r'pub\(super\)', 'pub')]
def units():
    u = Unit('d01'); s = src(F); vr = src('hugr-passes/src/dataflow/value_row.rs'); dl = src('hugr-passes/src/dataflow/datalog.rs'); df = src('hugr-passes/src/dataflow.rs')
    u.text(SPEC)
    u.trust('HashMap<usize, _> is a finite map whose iteration visits every key once, in an order about which nothing is assumed (assumed contracts; `get_mut` of an entry is a take followed by an insert)')
    u.trust('the underlying values: try_join / try_meet give least upper / greatest lower bounds of some partial order where they give anything, and report whether the result differs from self (the contract documented on AbstractValue); nodes, type arguments and values are compared by equality')
    t = strip_attrs(s.item(r'pub struct LoadedFunction<N> \{')) + '\n' + strip_attrs(s.item(r'pub enum PartialValue<V, N = Node> \{'))
    m = re.search(r'pub struct PartialSum<V, N = Node>\([^;]*\);', s.raw)
    if not m: raise AnchorLost('struct PartialSum')
    u.text(subst(t + '\n' + m.group(0), DATA))
    u.text(DOMAIN)
    for n, x in LEMMAS.items(): u.lemma(n, x)
    for blk in (JOIN, MEET): u.text(blk)
    u.text(ORDER)
    for n, x in MORE.items(): u.lemma(n, x)
    NOREC = '#[verifier::exec_allows_no_decreases_clause]\n'
    KV = lambda a, b, m, ref: (rf'for \({a}, {b}\) in {re.escape(m)} \{{', f'for i in 0..{ref}.len() {{ ')
    # ---- sums ----
    PS = r'<V: AbstractValue, N: PartialEq \+ PartialOrd> PartialSum<V, N> \{'
    G = r'<V, N> PartialSum<V, N> \{'
    me = 'PartialValue::PartialSum(*old(self))'; fin = 'PartialValue::PartialSum(*final(self))'; oth = 'PartialValue::PartialSum(other)'
    u.text('impl PartialSum {')
    u.fn(s.fn('new_variant', s.impl(G)), 'ensures r.0@ == Map::<usize, Vec<PartialValue>>::empty().insert(tag, values),', obligation='PartialSum::new_variant', sig='pub fn new_variant(tag: usize, values: Vec<PartialValue>) -> (r: Self)', rules=[(r'Self\(HashMap::from\(\[\((\w+), Vec::from_iter\((\w+)\)\)\]\)\)', r'PartialSum(HashMap::of(\1, \2))')])
    u.fn(s.fn('num_variants', s.impl(G)), 'ensures r == self.0@.dom().len(),', obligation='PartialSum::num_variants')
    u.fn(s.fn('supports_tag', s.impl(G)), 'ensures r == self.0@.dom().contains(tag),', obligation='PartialSum::supports_tag')
    u.fn(s.fn('variant_values', s.impl(r'<V: Clone, N: Clone> PartialSum<V, N> \{')), 'ensures match r { Some(v) => self.0@.dom().contains(variant) && v == self.0@[variant], None => !self.0@.dom().contains(variant) },', obligation='PartialSum::variant_values', sig='pub fn variant_values(&self, variant: usize) -> (r: Option<Vec<PartialValue>>)', rules=[(r'self\.0\.get\(&variant\)\.cloned\(\)', 'cloned(self.0.get(&variant))')])
    u.fn(s.fn('contains_bottom', s.impl(G)), 'ensures r == has_bottom(PartialValue::PartialSum(*self)),', obligation='PartialSum::contains_bottom', attrs=NOREC,
         rules=[(r'(?s)self\.0\s*\.iter\(\)\s*\.all\(\|\(_tag, elements\)\| (.*?)\)\s*\}\s*$', r'let ks = self.0.keys(); proof { every_key(ks@, self.0@.dom()); no_keys(ks@); } let mut every = true; for i in 0..ks.len() { let elements = self.0.get(&ks[i]).unwrap(); proof { next_key(ks@, i as int); assert(among(ks@, ks@.len() as int, ks@[i as int])); } if !\1 { every = false; } } every }')],
         loops=['invariant every == bottom_to(self.0@, ks@, i as int), ks@.no_duplicates(), ks@.to_set() == self.0@.dom(), forall|k: usize| #[trigger] among(ks@, ks@.len() as int, k) == self.0@.dom().contains(k),'],
         post_rules=[(r'\bevery \}\s*$', 'proof { all_variants_checked(PartialValue::PartialSum(*self), ks@); } every }')])
    INNER = 'invariant n == row@.len(), n == row0.len(), n == v@.len(), row_wf(row0), row_wf(v@), row_{rel}_to(row0, v@, row@, j as int), row_kept_from(row0, row@, j as int), changed == (ch0 || !row_same_to(row@, row0, j as int)),'
    SCAN = [(r'for \(k, v\) in &other\.0 \{', 'let ks = other.0.keys(); proof { every_key(ks@, other.0@.dom()); no_keys(ks@); } for i in 0..ks.len() { let k = &ks[i]; let v = other.0.get(k).unwrap(); proof { next_key(ks@, i as int); }'),
            (r'self\.0\.get\(k\)\.is_some_and\(\|row\| (row\.len\(\) \S+ v\.len\(\))\)', r'(match self.0.get(k) { Some(row) => \1, None => false })')]
    PUSH = (r'keys_to_remove\.push\(\*k\)', '{ proof { pushed(keys_to_remove@, *k); } keys_to_remove.push(*k); }')
    MOVE = lambda b, n: (r'for \(k, v\) in other\.0 \{', f'let ghost a0 = self.0@; let ghost b0 = other.0@; proof {{ {b} }} for i in 0..{n}.len() {{ let k = {n}[i]; let v = other.0.at(&k); let ghost m0 = self.0@; let ghost ch0 = changed; proof {{ next_key({n}@, i as int); every_key({n}@, b0.dom()); assert(among({n}@, {n}@.len() as int, k)); assert(!clash(a0, b0, k)); assert(m0.dom().contains(k) == a0.dom().contains(k)); }}')
    f = s.fn('try_join_mut', s.impl(PS))
    f.body = through_map(f.body).replace('#PUT', 'assert(self.0@ =~= m0.insert(k, row)); row_whole(row@, row0); assert(row_joined(a0[k]@, b0[k]@, row@));').replace('#STEP', 'assert(self.0@ =~= m0.insert(k, self.0@[k])); join_step(a0, b0, ks@, i as int, m0, self.0@);')
    u.fn(f, f'''requires wf({me}), wf({oth}), ensures match r {{ Ok(ch) => joined({me}, {oth}, {fin}) && wf({fin}) && ch == !eqv({fin}, {me}), Err(k) => clash(old(self).0@, other.0@, k) && *final(self) == *old(self) }},''', obligation='PartialSum::try_join_mut', attrs=NOREC, sig='pub fn try_join_mut(&mut self, other: Self) -> (r: Result<bool, usize>)',
         rules=SCAN + [MOVE('next_none(a0, b0, ks@); assert forall|k: usize| !#[trigger] clash(a0, b0, k) by { assert(among(ks@, ks@.len() as int, k) == b0.dom().contains(k)); }', 'ks'), pairs('row', 'v'), OR, (r'Ok\(changed\)\s*\}\s*$', f'proof {{ let j = PartialValue::PartialSum(*self); all_variants_joined(a0, b0, ks@, self.0@); rows_make_the_join({me}, {oth}, j); change_of_join({me}, {oth}, j, ks@); }} Ok(changed) }}')],
         loops=['invariant *self == *old(self), ks@.no_duplicates(), ks@.to_set() == other.0@.dom(), same_length_to(self.0@, other.0@, ks@, i as int),',
                f'invariant ks@.no_duplicates(), ks@.to_set() == b0.dom(), b0 == other.0@, a0 == old(self).0@, wf({me}), wf({oth}), forall|k: usize| !#[trigger] clash(a0, b0, k), joined_to(a0, b0, ks@, i as int, self.0@), changed == !same_so_far(a0, ks@, i as int, self.0@),', INNER.format(rel='joined')])
    f = s.fn('try_meet_mut', s.impl(PS))
    f.body = through_map(f.body).replace('#PUT', 'assert(self.0@ =~= m0.insert(k, row)); row_whole(row@, row0); assert(row_met(a0[k]@, b0[k]@, row@));').replace('#STEP', 'assert(a0.dom().contains(k) ==> self.0@ =~= m0.insert(k, self.0@[k])); assert(!a0.dom().contains(k) ==> self.0@ =~= m0); meet_step(a0, b0, ks@, i as int, m0, self.0@);')
    u.fn(f, f'''requires wf({me}), wf({oth}), ensures match r {{ Ok(ch) => met({me}, {oth}, {fin}) && wf({fin}) && ch == !eqv({fin}, {me}), Err(Some(k)) => clash(old(self).0@, other.0@, k) && *final(self) == *old(self), Err(None) => disjoint(old(self).0@, other.0@) && *final(self) == *old(self) }},''', obligation='PartialSum::try_meet_mut', attrs=NOREC, sig='pub fn try_meet_mut(&mut self, other: Self) -> (r: Result<bool, Option<usize>>)',
         rules=[(r'let mut keys_to_remove = vec!\[\];', 'let mut keys_to_remove: Vec<usize> = Vec::new();'),
                (r'for \(k, v\) in &self\.0 \{', 'let ss = self.0.keys(); proof { every_key(ss@, self.0@.dom()); no_keys(ss@); } for i in 0..ss.len() { let k = &ss[i]; proof { next_key(ss@, i as int); assert(among(ss@, ss@.len() as int, *k)); } let v = self.0.get(k).unwrap();'),
                PUSH, (r'if keys_to_remove\.len\(\)', 'let ghost rs = keys_to_remove@; proof { every_key(ss@, self.0@.dom()); listed_keys(rs, ss@, self.0@, other.0@); } if keys_to_remove.len()'),
                MOVE('next_none(a0, b0, ks@); assert forall|k: usize| !#[trigger] clash(a0, b0, k) by { assert(among(ss@, ss@.len() as int, k) == a0.dom().contains(k)); }', 'ks'), (r'let ghost a0 =', 'let ks = other.0.keys(); let ghost a0 ='), pairs('row', 'v'), OR,
                (r'for k in keys_to_remove \{', 'let ghost m1 = self.0@; proof { no_keys(rs); } for i in 0..keys_to_remove.len() { let k = keys_to_remove[i]; proof { next_key(rs, i as int); }'),
                (r'Ok\(changed\)\s*\}\s*$', f'proof {{ let j = PartialValue::PartialSum(*self); change_of_meet({me}, {oth}, j, m1, ks@, rs); rows_make_the_meet({me}, {oth}, j); }} Ok(changed) }}')],
         loops=['invariant *self == *old(self), !changed, ss@.no_duplicates(), ss@.to_set() == self.0@.dom(), forall|k: usize| #[trigger] among(ss@, ss@.len() as int, k) == self.0@.dom().contains(k), keys_to_remove@.no_duplicates(), missing_to(keys_to_remove@, other.0@, ss@, i as int), same_length_to(self.0@, other.0@, ss@, i as int),',
                f'invariant ks@.no_duplicates(), ks@.to_set() == b0.dom(), b0 == other.0@, a0 == old(self).0@, wf({me}), wf({oth}), forall|k: usize| !#[trigger] clash(a0, b0, k), met_to(a0, b0, ks@, i as int, self.0@), changed == !same_rows(a0, ks@, i as int, self.0@),', INNER.format(rel='met'),
                'invariant rs == keys_to_remove@, rs.no_duplicates(), removed_to(m1, rs, i as int, self.0@), changed == (i > 0 || !same_rows(a0, ks@, ks@.len() as int, m1)),'])
    u.text('}')
    u.text('''pub proof fn next_none(a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>, ks: Seq<usize>) ensures joined_to(a, b, ks, 0, a), met_to(a, b, ks, 0, a), same_so_far(a, ks, 0, a), same_rows(a, ks, 0, a) { no_keys(ks); }
pub proof fn listed_keys(rs: Seq<usize>, ss: Seq<usize>, a: Map<usize, Vec<PartialValue>>, b: Map<usize, Vec<PartialValue>>) requires rs.no_duplicates(), ss.to_set() == a.dom(), forall|k: usize| #![trigger among(ss, ss.len() as int, k)] #![trigger rs.contains(k)] rs.contains(k) == (among(ss, ss.len() as int, k) && !b.dom().contains(k)) ensures (rs.len() == a.dom().len()) == disjoint(a, b), forall|k: usize| #[trigger] among(rs, rs.len() as int, k) == (a.dom().contains(k) && !b.dom().contains(k))
{ every_key(ss, a.dom()); assert forall|k: usize| #[trigger] among(rs, rs.len() as int, k) == (a.dom().contains(k) && !b.dom().contains(k)) by { assert(among(rs, rs.len() as int, k) == rs.contains(k)); assert(among(ss, ss.len() as int, k) == a.dom().contains(k)); }
  assert(rs.to_set().subset_of(a.dom())) by { assert forall|k: usize| rs.to_set().contains(k) implies a.dom().contains(k) by { assert(rs.contains(k)); assert(among(ss, ss.len() as int, k) == a.dom().contains(k)); } }
  all_keys_listed(rs, a.dom()); if disjoint(a, b) { assert(rs.to_set() =~= a.dom()) by { assert forall|k: usize| a.dom().contains(k) implies rs.to_set().contains(k) by { assert(among(ss, ss.len() as int, k)); assert(rs.contains(k)); } } }
  if rs.to_set() == a.dom() { assert forall|k: usize| #![trigger a.dom().contains(k)] a.dom().contains(k) implies !b.dom().contains(k) by { assert(rs.to_set().contains(k)); assert(rs.contains(k)); } } }''')
    # ---- values ----
    u.text('impl PartialValue {')
    VL = s.impl(r'<V: AbstractValue, N: PartialEq \+ PartialOrd> Lattice for PartialValue<V, N> \{')
    LRULES = [(r'self\.assert_invariants\(\);', ''), (r'\blf1 == lf2\b', 'lf_eq(&lf1, &lf2)'), (r'std::mem::swap', 'core::mem::swap'), (r'\bSelf::', 'PartialValue::')]
    HINT = {'join_mut': 'clashing_variants_have_no_bound_but_top', 'meet_mut': 'clashing_variants_meet_in_bottom'}
    for n, rel in (('join_mut', 'joined'), ('meet_mut', 'met')):
        u.fn(s.fn(n, VL), f'requires wf(*old(self)), wf(other), ensures {rel}(*old(self), other, *final(self)), wf(*final(self)), r == !eqv(*final(self), *old(self)),', obligation=f'PartialValue::{n}', attrs=NOREC,
             rules=LRULES + ([(r'Err\(_\) => \(PartialValue::Top, true\)', 'Err(k) => { proof { clashing_variants_have_no_bound_but_top(*old(self), other, k); } (PartialValue::Top, true) }')] if rel == 'joined' else [(r'Err\(_\) => \(PartialValue::Bottom, true\)', 'Err(k) => { proof { match k { Some(k) => clashing_variants_meet_in_bottom(*old(self), other, k), None => no_common_variant_means_bottom(*old(self), other) } } (PartialValue::Bottom, true) }')]),
             pre='proof { values_are_ordered(); same_as_itself(*self); the_order_is_reflexive(*self); the_order_is_reflexive(other); }')
    B = s.impl(r'<V: AbstractValue, N: PartialEq \+ PartialOrd> BoundedLattice for PartialValue<V, N> \{')
    u.fn(s.fn('top', B), 'ensures forall|a: PartialValue| #[trigger] le(a, r),', obligation='PartialValue::top', rules=[(r'\bSelf::', 'PartialValue::')], sig='pub fn top() -> (r: PartialValue)')
    u.fn(s.fn('bottom', B), 'ensures forall|a: PartialValue| #[trigger] le(r, a),', obligation='PartialValue::bottom', rules=[(r'\bSelf::', 'PartialValue::')], sig='pub fn bottom() -> (r: PartialValue)')
    PG = s.impl(r'<V, N> PartialValue<V, N> \{')
    u.fn(s.fn('supports_tag', PG), 'ensures r == forall|n: int| #[trigger] values_of(*self, tag, n) is Some,', obligation='PartialValue::supports_tag', pre='proof { let t = values_of(*self, tag, 0); }')
    u.fn(s.fn('contains_bottom', PG), 'ensures r == has_bottom(*self),', obligation='PartialValue::contains_bottom', attrs=NOREC)
    u.fn(s.fn('variant_values', s.impl(r'<V: AbstractValue, N: Clone> PartialValue<V, N> \{')), 'requires wide(*self, tag, len as int), ensures match r { Some(v) => values_of(*self, tag, len as int) == Some(v@) && v@.len() == len, None => values_of(*self, tag, len as int) is None },', obligation='PartialValue::variant_values', sig='pub fn variant_values(&self, tag: usize, len: usize) -> (r: Option<Vec<PartialValue>>)',
         rules=[(r'vec!\[PartialValue::Top; (\w+)\]', r'tops(\1)'), (r'assert_eq!\((.*?), (\w+)\);', r'assert(\1 == \2);'), (r'assert\(vals\.len\(\)', 'assert(vals@.len()')])
    u.fn(s.fn('partial_cmp', s.impl(r'<V: PartialEq, N: PartialEq \+ PartialOrd> PartialOrd for PartialValue<V, N> \{')), 'requires discrete(), ensures compares(*self, *other, r),', obligation='PartialValue::partial_cmp', attrs=NOREC, sig='pub fn partial_cmp(&self, other: &PartialValue) -> (r: Option<Ordering>)', pre='proof { the_order_is_reflexive(*self); the_order_is_reflexive(*other); values_are_ordered(); }',
         rules=[(r'use std::cmp::Ordering;', ''), (r'\bSelf::', 'PartialValue::'), (r'\(v1 == v2\)\.then_some\((.*?)\)', r'(if v1.eq(v2) { Some(\1) } else { None })'), (r'\(lf1 == lf2\)\.then_some\((.*?)\)', r'(if lf_eq(lf1, lf2) { Some(\1) } else { None })')])
    u.text('}')
    u.fn(df.fn('row_contains_bottom'), 'ensures r == row_has_bottom(elements@),', obligation='row_contains_bottom', attrs=NOREC, sig='pub fn row_contains_bottom(elements: &Vec<PartialValue>) -> (r: bool)',
         rules=[(r'elements\.into_iter\(\)\.any\(PartialValue::contains_bottom\)', 'let mut some = false; for i in 0..elements.len() { if elements[i].contains_bottom() { some = true; } } some')], loops=['invariant some == row_bottom_to(elements@, i as int),'])
    # ---- comparisons ----
    u.fn(s.fn('combine'), 'ensures is_le(r) == (is_le(Some(a)) && is_le(b)), is_ge(r) == (is_ge(Some(a)) && is_ge(b)),', obligation='combine', rules=[(r'\(a == b\)\.then_some\(a\)', '(if ord_eq(a, b) { Some(a) } else { None })')])
    u.fn(s.fn('partial_cmp_rows'), 'requires discrete(), ensures is_le(r) == row_le(lhs@, rhs@), is_ge(r) == row_le(rhs@, lhs@),', obligation='partial_cmp_rows', attrs=NOREC, sig='pub fn partial_cmp_rows(lhs: &Vec<PartialValue>, rhs: &Vec<PartialValue>) -> (r: Option<Ordering>)',
         rules=[(r'for \(l, r\) in zip_eq\(lhs, rhs\) \{', 'for i in 0..lhs.len() { let l = &lhs[i]; let r = &rhs[i];')], loops=['invariant discrete(), lhs@.len() == rhs@.len(), is_le(Some(res)) == le_to(lhs@, rhs@, i as int), is_ge(Some(res)) == le_to(rhs@, lhs@, i as int),'])
    u.text('impl PartialSum {')
    A = 'PartialValue::PartialSum(*self)'; O = 'PartialValue::PartialSum(*other)'
    u.fn(s.fn('partial_cmp', s.impl(r'<V: PartialEq, N: PartialEq \+ PartialOrd> PartialOrd for PartialSum<V, N> \{')), f'requires discrete(), ensures compares({A}, {O}, r),', obligation='PartialSum::partial_cmp', attrs=NOREC, sig='pub fn partial_cmp(&self, other: &PartialSum) -> (r: Option<Ordering>)',
         rules=[(r'for \(k, lhs\) in &self\.0 \{', 'let ks = self.0.keys(); let ghost (x, y) = (self.0@, other.0@); proof { every_key(ks@, x.dom()); no_keys(ks@); variant_by_variant(PartialValue::PartialSum(*self), PartialValue::PartialSum(*other)); variant_by_variant(PartialValue::PartialSum(*other), PartialValue::PartialSum(*self)); variants_so_far(x, y, ks@, ks@.len() as int); } for i in 0..ks.len() { let k = &ks[i]; proof { next_key(ks@, i as int); assert(among(ks@, ks@.len() as int, *k)); variants_so_far(x, y, ks@, i as int); } let lhs = self.0.get(k).unwrap();'),
                (r'if other\.0\.keys\(\)\.any\(\|k\| (.*?)\) \{', r'let os = other.0.keys(); proof { every_key(os@, y.dom()); no_keys(os@); subset_listed(x, y, os@); } let mut some = false; for i in 0..os.len() { let k = &os[i]; proof { next_key(os@, i as int); assert(among(os@, os@.len() as int, *k)); } if \1 { some = true; } } if some {')],
         loops=['invariant discrete(), x == self.0@, y == other.0@, le(PartialValue::PartialSum(*self), PartialValue::PartialSum(*other)) == ple(x, y), le(PartialValue::PartialSum(*other), PartialValue::PartialSum(*self)) == ple(y, x), ks@.no_duplicates(), ks@.to_set() == x.dom(), forall|k: usize| #[trigger] among(ks@, ks@.len() as int, k) == x.dom().contains(k), is_le(Some(res)) == below_to(x, y, ks@, i as int), is_ge(Some(res)) == above_to(x, y, ks@, i as int),',
                'invariant x == self.0@, y == other.0@, os@.no_duplicates(), os@.to_set() == y.dom(), forall|k: usize| #[trigger] among(os@, os@.len() as int, k) == y.dom().contains(k), some == !subset_to(x, os@, i as int),'])
    u.text('}')
    # ---- rows ----
    u.text('pub struct ValueRow(pub Vec<PartialValue>);\nimpl ValueRow {')
    RL = vr.impl(r'<V: AbstractValue, N: PartialEq \+ PartialOrd> Lattice for ValueRow<V, N> \{'); RN = vr.impl(r'<V: AbstractValue, N: Clone> ValueRow<V, N> \{')
    u.fn(vr.fn('new', RN), 'ensures r.0@.len() == len, forall|i: int| 0 <= i < len ==> r.0@[i] == PartialValue::Bottom,', obligation='ValueRow::new', rules=[(r'vec!\[PartialValue::Bottom; (\w+)\]', r'bottoms(\1)'), (r'\bSelf\(', 'ValueRow(')])
    u.fn(vr.fn('set', RN), 'requires idx < self.0@.len(), ensures r.0@ == self.0@.update(idx as int, v),', obligation='ValueRow::set', sig='pub fn set(self, idx: usize, v: PartialValue) -> (r: Self)', pre='let mut me = self;', rules=[(r'\*self\.0\.get_mut\((\w+)\)\.unwrap\(\) = (\w+);', r'me.0.set(\1, \2);'), (r'\bself\s*\}\s*$', 'me }')])
    u.fn(vr.fn('singleton', RN), 'ensures r.0@ == seq![v],', obligation='ValueRow::singleton', sig='pub fn singleton(v: PartialValue) -> (r: Self)', rules=[(r'\bSelf\(', 'ValueRow(')])
    u.fn(vr.fn('unpack_first', RN), 'requires self.0@.len() > 0, wide(self.0@[0], variant, len as int), ensures match values_of(self.0@[0], variant, len as int) { Some(v) => r is Some && r.unwrap()@ == v + self.0@.skip(1), None => r is None },', obligation='ValueRow::unpack_first', sig='pub fn unpack_first(&self, variant: usize, len: usize) -> (r: Option<Vec<PartialValue>>)',
         rules=[(r'\bself\[0\]', 'self.0[0]'), (r'vals\.into_iter\(\)\.chain\(self\.0\[(\w+)\.\.\]\.to_owned\(\)\)', r'chain(vals, tail(&self.0, \1))')])
    for n, rel in (('join_mut', 'joined'), ('meet_mut', 'met')):
        u.fn(vr.fn(n, RL), f'requires row_wf(old(self).0@), row_wf(other.0@), old(self).0@.len() == other.0@.len(), ensures row_{rel}(old(self).0@, other.0@, final(self).0@), r == !row_eqv(final(self).0@, old(self).0@),', obligation=f'ValueRow::{n}',
             rules=[(r'assert_eq!\(self\.0\.len\(\), other\.0\.len\(\)\);', 'assert(self.0@.len() == other.0@.len());'), (r'let mut changed', 'let mut row = row_of(&self.0); let v = row_of(&other.0); let ghost row0 = row@; let ghost ch0 = false; let mut changed'),
                    (r'self\.0\.iter_mut\(\), other\.0\.into_iter\(\)', 'row.iter_mut(), v.into_iter()'), pairs('row', 'v'), OR, (r'changed\s*\}\s*$', 'self.0 = row; changed }')], loops=[INNER.format(rel=rel)])
    u.fn(vr.fn('partial_cmp', vr.impl(r'<V: PartialEq, N: PartialEq \+ PartialOrd> PartialOrd for ValueRow<V, N> \{')), 'requires discrete(), ensures is_le(r) == row_le(self.0@, other.0@), is_ge(r) == row_le(other.0@, self.0@),', obligation='ValueRow::partial_cmp', sig='pub fn partial_cmp(&self, other: &ValueRow) -> (r: Option<Ordering>)')
    u.text('}')
    # ---- the lattice of called functions ----
    t = subst(strip_attrs(dl.item(r'enum LatticeWrapper<T> \{')), [(r'enum LatticeWrapper<T>', 'pub enum LatticeWrapper'), (r'Value\(T\)', 'Value(N)')]); u.text(t); u.text(LW)
    u.text('impl LatticeWrapper {')
    LI = dl.impl(r'<N: PartialEq \+ PartialOrd> Lattice for LatticeWrapper<N> \{')
    EQ = [(r'\*self == (LatticeWrapper::\w+|other)', r'lw_eq(self, &\1)'), (r'\bother == (LatticeWrapper::\w+)', r'lw_eq(&other, &\1)')]
    u.fn(dl.fn('join_mut', LI), 'ensures lle(*old(self), *final(self)), lle(other, *final(self)), forall|x: LatticeWrapper| #[trigger] lle(*old(self), x) && lle(other, x) ==> lle(*final(self), x), r == (*final(self) != *old(self)),', obligation='LatticeWrapper::join_mut', rules=EQ)
    u.fn(dl.fn('meet_mut', LI), 'ensures lle(*final(self), *old(self)), lle(*final(self), other), forall|x: LatticeWrapper| #[trigger] lle(x, *old(self)) && lle(x, other) ==> lle(x, *final(self)), r == (*final(self) != *old(self)),', obligation='LatticeWrapper::meet_mut', rules=EQ)
    u.text('}\n#[verifier::external_body] pub fn copied(n: &N) -> (r: N) ensures r == *n { unimplemented!() }')
    u.fn(dl.fn('load_func'), 'ensures r == denotes(*v),', obligation='load_func', sig='pub fn load_func(v: &PartialValue) -> (r: LatticeWrapper)', rules=[(r'\*func_node', 'copied(func_node)')])
    u.lemma('the_called_function_grows_with_the_value', 'pub proof fn the_called_function_grows_with_the_value(a: PartialValue, b: PartialValue) requires le(a, b) ensures lle(denotes(a), denotes(b)) { }')
    return [u]
ASSUMPTIONS = ['sums have at least one variant (assert_invariants: join_mut and meet_mut check it)', 'the meet is greatest among lower bounds when variants of one tag have the same length in both values (values of one type do)', 'partial_cmp is the order of the lattice for underlying domains ordered by equality']
BOUNDED = ['Hash of sums (agreement with equality), try_into_concrete / try_into_sum and the datalog rules: exercised by the executable layer only']
