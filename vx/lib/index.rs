// ---- assumed contracts on indexmap: an insertion-ordered map is a sequence of entries with distinct keys ----
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct IndexMap<K, V> { k: Vec<K>, v: Vec<V> }
pub open spec fn distinct<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 != s[j].0 }
pub open spec fn at_key<K, V>(s: Seq<(K, V)>, k: K, i: int) -> bool { 0 <= i < s.len() && s[i].0 == k }
pub open spec fn has_key<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| #[trigger] at_key(s, k, i) }
pub open spec fn put<K, V>(old_s: Seq<(K, V)>, new_s: Seq<(K, V)>, k: K, v: V, i: int, prev: Option<V>) -> bool {
  if has_key(old_s, k) { at_key(old_s, k, i) && new_s == old_s.update(i, (k, v)) && prev == Some(old_s[i].1) }
  else { i == old_s.len() && new_s == old_s.push((k, v)) && prev is None } }
impl<K, V> IndexMap<K, V> {
  pub uninterp spec fn e(&self) -> Seq<(K, V)>;
  #[verifier::external_body] pub broadcast proof fn keys_distinct(&self) ensures #[trigger] distinct(self.e()) {}
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.e() == Seq::<(K, V)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.e().len() { unimplemented!() }
  #[verifier::external_body] pub fn insert_full(&mut self, k: K, v: V) -> (r: (usize, Option<V>)) ensures put(old(self).e(), final(self).e(), k, v, r.0 as int, r.1), distinct(final(self).e()) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures exists|i: int| put(old(self).e(), final(self).e(), k, v, i, r), distinct(final(self).e()) { unimplemented!() }
  #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<(K, V)>)
    ensures match r { Some(x) => old(self).e().len() > 0 && x == old(self).e().last() && final(self).e() == old(self).e().drop_last(), None => old(self).e().len() == 0 && final(self).e() == old(self).e() } { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
    ensures match r { Some(v) => exists|i: int| #[trigger] at_key(self.e(), *k, i) && self.e()[i].1 == *v, None => !has_key(self.e(), *k) } { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == has_key(self.e(), *k) { unimplemented!() }
  #[verifier::external_body] pub fn get_full(&self, k: &K) -> (r: Option<(usize, &K, &V)>)
    ensures match r { Some(x) => at_key(self.e(), *k, x.0 as int) && *x.1 == *k && self.e()[x.0 as int].1 == *x.2, None => !has_key(self.e(), *k) } { unimplemented!() }
  #[verifier::external_body] pub fn get_index_of(&self, k: &K) -> (r: Option<usize>)
    ensures match r { Some(i) => at_key(self.e(), *k, i as int), None => !has_key(self.e(), *k) } { unimplemented!() }
  #[verifier::external_body] pub fn get_index(&self, i: usize) -> (r: Option<(&K, &V)>)
    ensures match r { Some(x) => i < self.e().len() && *x.0 == self.e()[i as int].0 && *x.1 == self.e()[i as int].1, None => i >= self.e().len() } { unimplemented!() }
  #[verifier::external_body] pub fn clear(&mut self) ensures final(self).e().len() == 0 { unimplemented!() }
  /// `map[i]` and `map[i] = v`: panic when out of bounds
  #[verifier::external_body] pub fn at(&self, i: usize) -> (r: &V) requires i < self.e().len() ensures *r == self.e()[i as int].1 { unimplemented!() }
  #[verifier::external_body] pub fn set_at(&mut self, i: usize, v: V) requires i < old(self).e().len() ensures final(self).e() == old(self).e().update(i as int, (old(self).e()[i as int].0, v)) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct IndexSet<K> { k: Vec<K> }
pub open spec fn sdistinct<K>(s: Seq<K>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] != s[j] }
impl<K> IndexSet<K> {
  pub uninterp spec fn e(&self) -> Seq<K>;
  #[verifier::external_body] pub broadcast proof fn members_distinct(&self) ensures #[trigger] sdistinct(self.e()) {}
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.e() == Seq::<K>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.e().len() { unimplemented!() }
  #[verifier::external_body] pub fn insert_full(&mut self, k: K) -> (r: (usize, bool))
    ensures r.1 == !old(self).e().contains(k), r.0 < final(self).e().len(), final(self).e()[r.0 as int] == k,
      r.1 ==> final(self).e() == old(self).e().push(k) && r.0 == old(self).e().len(), !r.1 ==> final(self).e() == old(self).e(), sdistinct(final(self).e()) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool)
    ensures r == !old(self).e().contains(k), r ==> final(self).e() == old(self).e().push(k), !r ==> final(self).e() == old(self).e(), sdistinct(final(self).e()) { unimplemented!() }
  #[verifier::external_body] pub fn get_index_of(&self, k: &K) -> (r: Option<usize>)
    ensures match r { Some(i) => i < self.e().len() && self.e()[i as int] == *k, None => !self.e().contains(*k) } { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self.e().contains(*k) { unimplemented!() }
  /// `drain(n..)`, dropping what is drained; panics when out of bounds
  #[verifier::external_body] pub fn drain_from(&mut self, n: usize) requires n <= old(self).e().len() ensures final(self).e() == old(self).e().take(n as int) { unimplemented!() }
  #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self).e() == (if n <= old(self).e().len() { old(self).e().take(n as int) } else { old(self).e() }) { unimplemented!() }
  #[verifier::external_body] pub fn clear(&mut self) ensures final(self).e().len() == 0 { unimplemented!() }
}
