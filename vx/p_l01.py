from common import *
import copy
EXEC = 'l01'
F = 'hugr-llvm/src/sum/layout.rs'
SPEC = '''
/// a field type: cloning gives the same type, the comparison is a total order (so equal types are one key)
#[verifier::external_body] pub struct T { x: u8 }
impl Clone for T { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// which fields have no size; a function of the type
pub uninterp spec fn elided(t: T) -> bool;
#[verifier::external_body] pub fn elide(t: &T) -> (r: bool) ensures r == elided(*t) { unimplemented!() }
/// ---- std::collections::BTreeMap keyed by T: a finite map, iterated in an order fixed by the set of keys ----
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct BTreeMap<V> { x: core::marker::PhantomData<V> }
pub uninterp spec fn order(s: Set<T>) -> Seq<T>;
impl<V> BTreeMap<V> {
pub uninterp spec fn view(&self) -> Map<T, V>;
#[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<T, V>::empty() { unimplemented!() }
/// the keys, in the order in which entries are visited
#[verifier::external_body] pub fn keys(&self) -> (r: Vec<T>) ensures r@ == order(self@.dom()), r@.no_duplicates(), r@.to_set() == self@.dom() { unimplemented!() }
#[verifier::external_body] pub fn at(&self, k: &T) -> (r: &V) requires self@.dom().contains(*k) ensures *r == self@[*k] { unimplemented!() }
#[verifier::external_body] pub fn take(&mut self, k: &T) -> (r: Option<V>) ensures r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }), final(self)@ == old(self)@.remove(*k) { unimplemented!() }
#[verifier::external_body] pub fn insert(&mut self, k: T, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
#[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
pub struct Range { pub start: usize, pub end: usize }
/// `<Range<usize> as Iterator>::next`
pub fn range_next(x: &mut Range) -> (r: Option<usize>) ensures old(x).start < old(x).end ==> r == Some(old(x).start) && final(x).start == old(x).start + 1 && final(x).end == old(x).end, old(x).start >= old(x).end ==> r is None && *final(x) == *old(x) { if x.start < x.end { let s = x.start; x.start = x.start + 1; Some(s) } else { None } }
/// Vec::extend(itertools::repeat_n(t, n))
pub fn push_n(v: &mut Vec<T>, t: T, n: usize) ensures final(v)@ == old(v)@ + rep(t, n as nat) { proof { assert(v@ =~= v@ + rep(t, 0)); } for i in 0..n invariant v@ == old(v)@ + rep(t, i as nat) { v.push(t.clone()); proof { assert(v@ =~= old(v)@ + rep(t, (i + 1) as nat)); } } }
pub fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if b >= a { b } else { a } { if b >= a { b } else { a } }
// ---- specification ----
pub open spec fn rep(t: T, n: nat) -> Seq<T> { Seq::new(n, |i: int| t) }
pub open spec fn cnt(s: Seq<T>, t: T) -> nat decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), t) + (if s.last() == t { 1nat } else { 0 }) } }
/// how many slots of type t the fields of one variant need
pub open spec fn need(s: Seq<T>, t: T) -> nat { if elided(t) { 0 } else { cnt(s, t) } }
/// the number of slots of a type is the most any one variant needs
pub open spec fn enough(vs: Seq<Vec<T>>, n: int, t: T, k: nat) -> bool { (forall|i: int| 0 <= i < n ==> need(#[trigger] vs[i]@, t) <= k) && (k > 0 ==> exists|i: int| 0 <= i < n && need(#[trigger] vs[i]@, t) == k) }
pub open spec fn tight(vs: Seq<Vec<T>>, fields: Seq<T>) -> bool { forall|t: T| enough(vs, vs.len() as int, t, #[trigger] cnt(fields, t)) }
/// each field of the variant that is not elided has its own slot, of its type
pub open spec fn placed(v: Seq<T>, fields: Seq<T>, l: Seq<Option<usize>>) -> bool {
    l.len() == v.len() && (forall|i: int| #![trigger l[i]] 0 <= i < v.len() ==> match l[i] { None => elided(v[i]), Some(k) => !elided(v[i]) && k < fields.len() && fields[k as int] == v[i] })
    && (forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < v.len() && l[i] is Some ==> l[i] != l[j]) }
/// the map from types to ranges of slots
pub open spec fn ranges(m: Map<T, Range>, c: Map<T, usize>, fields: Seq<T>) -> bool { m.dom() == c.dom() && forall|t: T| #![trigger m[t]] m.dom().contains(t) ==> m[t].end - m[t].start == c[t] && m[t].end <= fields.len() && m[t].start <= m[t].end && forall|k: int| m[t].start <= k < m[t].end ==> fields[k] == t }
pub open spec fn counted(s: Seq<T>, c: Map<T, usize>) -> bool { forall|t: T| #![trigger c.dom().contains(t)] #![trigger need(s, t)] (c.dom().contains(t) <==> need(s, t) > 0) && (c.dom().contains(t) ==> c[t] == need(s, t)) }
pub open spec fn at_most(vs: Seq<Vec<T>>, n: int, c: Map<T, usize>) -> bool { forall|t: T| #![trigger c.dom().contains(t)] enough(vs, n, t, got(c, t)) && (c.dom().contains(t) ==> c[t] > 0) }
pub open spec fn got(c: Map<T, usize>, t: T) -> nat { if c.dom().contains(t) { c[t] as nat } else { 0 } }
pub open spec fn among(ks: Seq<T>, n: int, t: T) -> bool { exists|i: int| 0 <= i < n && #[trigger] ks[i] == t }
/// the slots of the first n types
pub open spec fn blocks(ks: Seq<T>, c: Map<T, usize>, n: int) -> Seq<T> decreases n { if n <= 0 { Seq::empty() } else { blocks(ks, c, n - 1) + rep(ks[n - 1], c[ks[n - 1]] as nat) } }
/// every type some variant needs has a range of slots of that type, as long as any one variant needs
pub open spec fn slots(vs: Seq<Vec<T>>, m: Map<T, Range>, fields: Seq<T>) -> bool { (forall|t: T, i: int| #![trigger need(vs[i]@, t)] 0 <= i < vs.len() && need(vs[i]@, t) > 0 ==> m.dom().contains(t) && m[t].end - m[t].start >= need(vs[i]@, t)) && forall|t: T| #![trigger m[t]] m.dom().contains(t) ==> m[t].start <= m[t].end <= fields.len() && forall|k: int| m[t].start <= k < m[t].end ==> fields[k] == t }
pub proof fn enough_slots(vs: Seq<Vec<T>>, c: Map<T, usize>, m: Map<T, Range>, fields: Seq<T>) requires at_most(vs, vs.len() as int, c), ranges(m, c, fields) ensures slots(vs, m, fields) { assert forall|t: T, i: int| #![trigger need(vs[i]@, t)] 0 <= i < vs.len() && need(vs[i]@, t) > 0 implies m.dom().contains(t) && m[t].end - m[t].start >= need(vs[i]@, t) by { assert(c.dom().contains(t) || !c.dom().contains(t)); } }
pub proof fn cnt_step(s: Seq<T>, x: T, t: T) ensures cnt(s.push(x), t) == cnt(s, t) + (if x == t { 1nat } else { 0 }) { assert(s.push(x).drop_last() =~= s); }
pub proof fn cnt_take(s: Seq<T>, n: int, t: T) requires 0 <= n < s.len() ensures cnt(s.take(n + 1), t) == cnt(s.take(n), t) + (if s[n] == t { 1nat } else { 0 }), cnt(s.take(n), t) <= n { assert(s.take(n + 1).drop_last() =~= s.take(n)); cnt_len(s.take(n), t); }
pub proof fn cnt_len(s: Seq<T>, t: T) ensures cnt(s, t) <= s.len() decreases s.len() { if s.len() > 0 { cnt_len(s.drop_last(), t); } }
pub proof fn cnt_mono(s: Seq<T>, n: int, t: T) requires 0 <= n <= s.len() ensures cnt(s.take(n), t) <= cnt(s, t) decreases s.len() { if n < s.len() { assert(s.drop_last().take(n) =~= s.take(n)); cnt_mono(s.drop_last(), n, t); } else { assert(s.take(n) =~= s); } }
pub proof fn cnt_rep(s: Seq<T>, x: T, n: nat, t: T) ensures cnt(s + rep(x, n), t) == cnt(s, t) + (if x == t { n } else { 0 }) decreases n { if n == 0 { assert(s + rep(x, 0) =~= s); } else { assert((s + rep(x, n)).drop_last() =~= s + rep(x, (n - 1) as nat)); cnt_rep(s, x, (n - 1) as nat, t); } }
pub proof fn cnt_blocks(ks: Seq<T>, c: Map<T, usize>, n: int, t: T) requires 0 <= n <= ks.len(), ks.no_duplicates() ensures cnt(blocks(ks, c, n), t) == (if among(ks, n, t) { c[t] as nat } else { 0 }) decreases n
{ if n == 0 { assert(!among(ks, 0, t)); } else { cnt_blocks(ks, c, n - 1, t); cnt_rep(blocks(ks, c, n - 1), ks[n - 1], c[ks[n - 1]] as nat, t);
  if among(ks, n - 1, t) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ks[i] == t; assert(ks[i] != ks[n - 1]); }
  if among(ks, n, t) { let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == t;  } } }
pub proof fn blocks_len(ks: Seq<T>, c: Map<T, usize>, a: int, b: int) requires 0 <= a <= b ensures blocks(ks, c, a).len() <= blocks(ks, c, b).len(), forall|k: int| 0 <= k < blocks(ks, c, a).len() ==> blocks(ks, c, a)[k] == blocks(ks, c, b)[k] decreases b { if a < b { blocks_len(ks, c, a, b - 1); } }
/// the counts are the largest needs, so the fields built from them are enough and no more
pub proof fn blocks_are_tight(vs: Seq<Vec<T>>, c: Map<T, usize>, ks: Seq<T>) requires at_most(vs, vs.len() as int, c), ks.no_duplicates(), ks.to_set() == c.dom() ensures tight(vs, blocks(ks, c, ks.len() as int)) { assert forall|t: T| enough(vs, vs.len() as int, t, #[trigger] cnt(blocks(ks, c, ks.len() as int), t)) by { cnt_blocks(ks, c, ks.len() as int, t); assert(ks.contains(t) == ks.to_set().contains(t)); assert(c.dom().contains(t) ==> got(c, t) == c[t]); } }
pub proof fn join_counts(vs: Seq<Vec<T>>, n: int, before: Map<T, usize>, inner: Map<T, usize>, after: Map<T, usize>) requires 0 <= n < vs.len(), at_most(vs, n, before), counted(vs[n]@, inner), forall|t: T| #![trigger after.dom().contains(t)] (after.dom().contains(t) <==> before.dom().contains(t) || inner.dom().contains(t)) && got(after, t) == (if got(inner, t) >= got(before, t) { got(inner, t) } else { got(before, t) }) ensures at_most(vs, n + 1, after)
{ assert forall|t: T| #![trigger after.dom().contains(t)] enough(vs, n + 1, t, got(after, t)) && (after.dom().contains(t) ==> after[t] > 0) by { assert(before.dom().contains(t) || !before.dom().contains(t)); assert(need(vs[n]@, t) == got(inner, t)); assert(enough(vs, n, t, got(before, t)));
    if got(after, t) > 0 { if got(inner, t) >= got(before, t) { assert(need(vs[n]@, t) == got(after, t)); } else { let i = choose|i: int| 0 <= i < n && need(#[trigger] vs[i]@, t) == got(before, t); assert(need(vs[i]@, t) == got(after, t)); } } } }
'''
PLACE = '''
/// the slot a field gets: the type's range, offset by the earlier fields of the same type
pub open spec fn slot_of(v: Seq<T>, m: Map<T, Range>, j: int, l: Option<usize>) -> bool { match l { None => elided(v[j]), Some(k) => !elided(v[j]) && m.dom().contains(v[j]) && k == m[v[j]].start + cnt(v.take(j), v[j]) && k < m[v[j]].end } }
pub proof fn next_slot(v: Seq<T>, i: int) requires 0 <= i < v.len() ensures cnt(v.take(i), v[i]) < cnt(v, v[i]), forall|t: T| #![trigger need(v.take(i + 1), t)] need(v.take(i + 1), t) == need(v.take(i), t) + (if v[i] == t && !elided(t) { 1nat } else { 0 }) { cnt_take(v, i, v[i]); cnt_mono(v, i + 1, v[i]); assert forall|t: T| #![trigger need(v.take(i + 1), t)] need(v.take(i + 1), t) == need(v.take(i), t) + (if v[i] == t && !elided(t) { 1nat } else { 0 }) by { cnt_take(v, i, t); } }
pub proof fn slots_are_distinct(v: Seq<T>, m: Map<T, Range>, fields: Seq<T>, l: Seq<Option<usize>>) requires l.len() == v.len(), forall|j: int| #![trigger l[j]] 0 <= j < l.len() ==> slot_of(v, m, j, l[j]), forall|t: T| #![trigger m[t]] m.dom().contains(t) ==> m[t].start <= m[t].end <= fields.len() && forall|k: int| m[t].start <= k < m[t].end ==> fields[k] == t ensures placed(v, fields, l)
{ assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < v.len() && l[i] is Some implies l[i] != l[j] by { if l[i] == l[j] { let k = l[i]->0; assert(fields[k as int] == v[i]); assert(fields[k as int] == v[j]); cnt_take(v, i, v[i]); assert(v.take(j).take(i + 1) =~= v.take(i + 1)); cnt_mono(v.take(j), i + 1, v[i]); } } }
'''
LLVM = '''
// ---- LLVM types, as far as the representation of sums goes ----
#[derive(Clone, Copy)] pub struct IntType { pub width: u32 }
pub struct StructType { pub fields: Vec<T> }
#[verifier::external_body] pub struct Context { x: u8 }
pub uninterp spec fn int_as_type(i: IntType) -> T;
broadcast use vstd::arithmetic::power2::lemma_pow2_pos;
pub open spec fn pow2(n: nat) -> nat { vstd::arithmetic::power2::pow2(n) }
impl IntType { #[verifier::external_body] pub fn into_type(self) -> (r: T) ensures r == int_as_type(self) { unimplemented!() } }
impl T { #[verifier::external_body] pub fn into_int_type(self) -> (r: IntType) ensures forall|i: IntType| int_as_type(i) == self ==> r == i { unimplemented!() } }
impl StructType { pub fn field_type(&self, i: usize) -> (r: T) requires i < self.fields@.len() ensures r == self.fields@[i as int] { self.fields[i].clone() } }
impl Context {
#[verifier::external_body] pub fn bool_type(&self) -> (r: IntType) ensures r.width == 1 { unimplemented!() }
#[verifier::external_body] pub fn custom_width_int_type(&self, w: u32) -> (r: IntType) ensures r.width == w { unimplemented!() }
#[verifier::external_body] pub fn struct_type(&self, fields: &Vec<T>, packed: bool) -> (r: StructType) ensures r.fields@ == fields@ { unimplemented!() }
}
#[verifier::external_body] pub fn usize_ilog2(x: usize) -> (r: u32) requires x > 0 ensures pow2(r as nat) <= x < pow2((r + 1) as nat), r < 64 { unimplemented!() }
pub fn clone_types(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { let mut o: Vec<T> = Vec::new(); for i in 0..v.len() invariant o@ == v@.take(i as int) { o.push(v[i].clone()); proof { assert(v@.take(i + 1) =~= v@.take(i as int).push(v@[i as int])); } } proof { assert(v@.take(v@.len() as int) =~= v@); } o }
pub fn clone_slots(v: &Vec<Option<usize>>) -> (r: Vec<Option<usize>>) ensures r@ == v@ { let mut o: Vec<Option<usize>> = Vec::new(); for i in 0..v.len() invariant o@ == v@.take(i as int) { o.push(v[i]); proof { assert(v@.take(i + 1) =~= v@.take(i as int).push(v@[i as int])); } } proof { assert(v@.take(v@.len() as int) =~= v@); } o }
/// the index of the only field with a slot; `exactly_one().unwrap()` panics unless there is exactly one
pub fn only_some(v: &Vec<Option<usize>>) -> (r: usize) requires exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]) is Some, forall|i: int, j: int| #![trigger v@[i], v@[j]] 0 <= i < j < v@.len() ==> v@[i] is None || v@[j] is None ensures r < v@.len(), v@[r as int] is Some
{ for i in 0..v.len() invariant forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]) is None { if v[i].is_some() { return i; } } proof { assert(false); } 0 }
pub open spec fn all_elided(v: Seq<T>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> elided(v[i]) }
pub proof fn cnt_some(s: Seq<T>, t: T) requires cnt(s, t) > 0 ensures exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == t decreases s.len() { if s.last() == t { assert(s[s.len() - 1] == t); } else { cnt_some(s.drop_last(), t); let i = choose|i: int| 0 <= i < s.len() - 1 && #[trigger] s.drop_last()[i] == t; assert(s[i] == t); } }
/// one slot: exactly one field of the only variant has it
pub proof fn one_field(vs: Seq<Vec<T>>, fields: Seq<T>, l: Seq<Option<usize>>) requires vs.len() == 1, fields.len() == 1, placed(vs[0]@, fields, l), tight(vs, fields) ensures exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Some, forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> l[i] is None || l[j] is None
{ let t = fields[0]; reveal_with_fuel(cnt, 2); assert(cnt(fields, t) == 1); assert(need(vs[0]@, t) == 1); cnt_some(vs[0]@, t); let i = choose|i: int| 0 <= i < vs[0]@.len() && #[trigger] vs[0]@[i] == t; assert(l[i] is Some); }
pub proof fn nothing_needed(v: Seq<T>, fields: Seq<T>, l: Seq<Option<usize>>) requires placed(v, fields, l), fields.len() == 0 ensures all_elided(v) { assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies elided(v[i]) by { assert(l[i] is None || l[i] is Some); } }
pub proof fn only_variant(vs: Seq<Vec<T>>, fields: Seq<T>) requires vs.len() == 1, tight(vs, fields) ensures forall|t: T| #[trigger] cnt(fields, t) == need(vs[0]@, t) { assert forall|t: T| #[trigger] cnt(fields, t) == need(vs[0]@, t) by { assert(enough(vs, 1, t, cnt(fields, t))); } }
// ---- what a sum's representation promises ----
pub open spec fn variants_of(x: LLVMSumTypeEnum) -> Seq<Seq<T>> { match x { LLVMSumTypeEnum::Void { .. } => seq![], LLVMSumTypeEnum::Unit { field_types, .. } => seq![field_types@], LLVMSumTypeEnum::SingleVariantSingleField { field_types, .. } => seq![field_types@], LLVMSumTypeEnum::SingleVariantMultiField { field_types, .. } => seq![field_types@], LLVMSumTypeEnum::NoFields { variant_types, .. } => variant_types@.map_values(|v: Vec<T>| v@), LLVMSumTypeEnum::MultiVariant { variant_types, .. } => variant_types@.map_values(|v: Vec<T>| v@) } }
pub open spec fn rows_of(vs: Seq<Vec<T>>) -> Seq<Seq<T>> { vs.map_values(|v: Vec<T>| v@) }
pub open spec fn sound(x: LLVMSumTypeEnum) -> bool { match x { LLVMSumTypeEnum::Void { tag_type } => tag_type.width == 1,
  LLVMSumTypeEnum::Unit { field_types, value_type, .. } => all_elided(field_types@) && value_type.fields@.len() == 0,
  LLVMSumTypeEnum::NoFields { variant_types, value_type } => variant_types@.len() > 1 && variant_types@.len() <= pow2(value_type.width as nat) && forall|i: int| #![trigger variant_types@[i]] 0 <= i < variant_types@.len() ==> all_elided(variant_types@[i]@),
  LLVMSumTypeEnum::SingleVariantSingleField { field_types, field_index, .. } => field_index < field_types@.len() && forall|i: int| #![trigger field_types@[i]] 0 <= i < field_types@.len() ==> (elided(field_types@[i]) <==> i != field_index),
  LLVMSumTypeEnum::SingleVariantMultiField { field_types, field_indices, value_type, .. } => placed(field_types@, value_type.fields@, field_indices@) && value_type.fields@.len() > 1 && (forall|t: T| #[trigger] cnt(value_type.fields@, t) == need(field_types@, t)),
  LLVMSumTypeEnum::MultiVariant { variant_types, field_indices, value_type } => variant_types@.len() > 1 && value_type.fields@.len() > 1 && (exists|i: IntType| value_type.fields@[0] == #[trigger] int_as_type(i) && variant_types@.len() <= pow2(i.width as nat)) && field_indices@.len() == variant_types@.len() && tight(variant_types@, value_type.fields@.skip(1)) && forall|i: int| #![trigger field_indices@[i]] 0 <= i < variant_types@.len() ==> placed(variant_types@[i]@, value_type.fields@.skip(1), field_indices@[i]@) } }
pub open spec fn represents(x: LLVMSumTypeEnum, vs: Seq<Vec<T>>) -> bool { sound(x) && variants_of(x) =~= rows_of(vs) }
/// the tag type can hold every tag
pub open spec fn holds_tags(x: LLVMSumTypeEnum, t: IntType) -> bool { variants_of(x).len() <= pow2(t.width as nat) }
'''
ENTRY = [(r'(\w+)\s*\.entry\(([^()]*(?:\([^()]*\))?)\)\s*\.and_modify\(\|(\w+)\| ([^;]*?)\)\s*\.or_insert\((\w+)\);', r'let key = \2; match \1.take(&key) { Some(mut slot) => { let \3 = &mut slot; \4; \1.insert(key, slot); }, None => { \1.insert(key, \5); } }'), (r'(\w+)\.max\(\*(\w+)\)', r'usize_max(\1, *\2)')]
def closure(body, rx, what):
    """(text of the braced closure body at rx, body with `rx..}` replaced by the marker)"""
    r = Rust(body); m = re.search(rx, body)
    if not m: raise AnchorLost(f'{F}: {what}')
    o = m.end() - 1; assert body[o] == '{'
    return m, body[o:r.match[o] + 1], (m.start(), r.match[o] + 1)
def drop_debug(raw):
    """the `#[cfg(debug_assertions)] { .. }` self-checks are dropped (what they check is proved)"""
    while True:
        m = re.search(r'#\[cfg\(debug_assertions\)\]\s*\{', raw)
        if not m: return raw
        r = Rust(raw); o = m.end() - 1; raw = raw[:m.start()] + raw[r.match[o] + 1:]
def mk(f, name, sig, body):
    g = copy.copy(f); g.name = name; g.sig = sig; g.body = body; return g
def units():
    u = Unit('l01'); s = src(F); u.text(SPEC)
    u.trust('BTreeMap keyed by field types is a finite map visited in an order fixed by its keys; field types are cloned to themselves and totally ordered; whether a field is elided depends on its type only')
    # ---- layout_fields ----
    f = s.fn('layout_fields'); body = strip_attrs(drop_debug(f.body))
    m, cb, (a, b) = closure(body, r'variants\.iter\(\)\.map\(\|variant\| \{', 'closure counting one variant')
    u.fn(mk(f, 'count_variant', 'fn count_variant(variant: &Vec<T>) -> (r: BTreeMap<usize>)', cb), 'ensures counted(variant@, r@),', obligation='layout_fields (fields of one variant)',
         rules=[(r'BTreeMap::<T, usize>', 'BTreeMap::<usize>'), (r'for t in variant \{', 'for i in 0..variant.len() { let t = &variant[i]; let ghost before = t_counts@; proof { assert forall|x: T| #![trigger need(variant@.take(i + 1), x)] need(variant@.take(i + 1), x) == need(variant@.take(i as int), x) + (if *t == x && !elided(x) { 1nat } else { 0 }) && need(variant@.take(i as int), x) <= i by { cnt_take(variant@, i as int, x); } cnt_take(variant@, i as int, *t); assert(before.dom().contains(*t) ==> before[*t] == need(variant@.take(i as int), *t) && before[*t] <= i); }')] + ENTRY
              + [(r't_counts\s*\}\s*$', 'proof { assert(variant@.take(variant@.len() as int) =~= variant@); } t_counts }'), (r'(BTreeMap::<usize>::new\(\);)', r'\1 proof { assert forall|x: T| #[trigger] need(variant@.take(0), x) == 0 by {} }')],
         loops=['invariant counted(variant@.take(i as int), t_counts@),'])
    e = re.match(r'\s*\)\s*;', body[b:])
    if not e: raise AnchorLost(f'{F}: shape of t_counts_per_variant')
    d = re.search(r'let (\w+) =\s*$', body[:a])
    if not d: raise AnchorLost(f'{F}: let of t_counts_per_variant')
    body = body[:d.start()] + body[b + e.end():]
    if d.group(1) in re.sub(re.escape(d.group(1)) + r'\.flatten\(\)', '', body): raise AnchorLost(f'{F}: use of {d.group(1)}')
    m, sb, (a, b) = closure(body, r't_counts\s*\.into_iter\(\)\s*\.scan\(0, \|(\w+), \(t, count\)\| \{', 'scan over the counts')
    e = re.match(r'\s*\)\s*\.collect\(\)\s*;', body[b:])
    if not e: raise AnchorLost(f'{F}: collect after scan')
    scan = f'''{{ let scan_keys = t_counts.keys(); let mut collected: BTreeMap<Range> = BTreeMap::new(); let mut scan_state: usize = 0; proof {{ assert(scan_keys@ == keys@); }}
      for s_i in 0..scan_keys.len() {{ proof {{ blocks_len(keys@, t_counts@, s_i + 1, keys@.len() as int); assert(keys@.to_set().contains(keys@[s_i as int])); assert(sorted_fields.len() == sorted_fields@.len()); assert(blocks(keys@, t_counts@, s_i + 1).len() == blocks(keys@, t_counts@, s_i as int).len() + t_counts@[keys@[s_i as int]]); }} let {m.group(1)} = &mut scan_state; let t = scan_keys[s_i].clone(); let count = *t_counts.at(&scan_keys[s_i]); let item = {sb}; match item {{ Some((k, v)) => {{ collected.insert(k, v); }}, None => {{ assert(false); }} }} }} collected }};'''
    body = body[:a] + scan + body[b + e.end():]
    R = [(r'BTreeMap::<T, usize>', 'BTreeMap::<usize>'), (r'BTreeMap<T, Range<usize>>', 'BTreeMap<Range>'),
         (r'for \(t, count\) in \w+\.flatten\(\) \{', 'for v_i in 0..variants.len() { let one = count_variant(&variants[v_i]); let one_keys = one.keys(); let ghost before = t_counts@; proof { assert(forall|t: T| !among(one_keys@, 0, t)); } for k_i in 0..one_keys.len() { let t = one_keys[k_i].clone(); proof { assert(one_keys@.to_set().contains(t)); } let count = *one.at(&one_keys[k_i]); let ghost mid = t_counts@; let ghost t0 = t; '),
         (r'(None => \{ t_counts\.insert\(key, count\); \} \})', r'\1 proof { step(before, one@, one_keys@, k_i as int, mid, t_counts@); } } proof { all_keys(one_keys@, one@.dom()); join_counts(variants@, v_i as int, before, one@, t_counts@); }'),
         (r'(?s)let sorted_fields = t_counts\s*\.iter\(\)\s*\.flat_map\(\|\(t, &count\)\| itertools::repeat_n\(t\.clone\(\), count\)\)\s*\.collect_vec\(\);', 'let keys = t_counts.keys(); let mut sorted_fields: Vec<T> = Vec::new(); for f_i in 0..keys.len() { proof { assert(keys@.to_set().contains(keys@[f_i as int])); } let t = &keys[f_i]; let count = *t_counts.at(&keys[f_i]); push_n(&mut sorted_fields, t.clone(), count); } proof { blocks_are_tight(variants@, t_counts@, keys@); }'),
         (r'Some\(\(t, (\w+)\.\.\*(\w+)\)\)', r'Some((t, Range { start: \1, end: *\2 }))'),
         (r'\(sorted_fields, t_to_range\)', '{ proof { all_ranges(keys@, t_counts@, t_to_range@, sorted_fields@); enough_slots(variants@, t_counts@, t_to_range@, sorted_fields@); } (sorted_fields, t_to_range) }')]
    u.text('''
/// the counts after the first k types of a variant have been joined in
pub open spec fn joined(before: Map<T, usize>, one: Map<T, usize>, ks: Seq<T>, k: int, now: Map<T, usize>) -> bool { forall|t: T| #![trigger now.dom().contains(t)] { let x = if among(ks, k, t) { got(one, t) } else { 0 }; (now.dom().contains(t) <==> before.dom().contains(t) || among(ks, k, t)) && got(now, t) == (if x >= got(before, t) { x } else { got(before, t) }) } }
proof fn step(before: Map<T, usize>, one: Map<T, usize>, ks: Seq<T>, k: int, mid: Map<T, usize>, now: Map<T, usize>) requires 0 <= k < ks.len(), ks.no_duplicates(), one.dom().contains(ks[k]), joined(before, one, ks, k, mid), now == mid.remove(ks[k]).insert(ks[k], now[ks[k]]), now[ks[k]] == (if !mid.dom().contains(ks[k]) || one[ks[k]] >= mid[ks[k]] { one[ks[k]] } else { mid[ks[k]] }) ensures joined(before, one, ks, k + 1, now)
{ assert forall|t: T| #![trigger now.dom().contains(t)] { let x = if among(ks, k + 1, t) { got(one, t) } else { 0 }; (now.dom().contains(t) <==> before.dom().contains(t) || among(ks, k + 1, t)) && got(now, t) == (if x >= got(before, t) { x } else { got(before, t) }) } by {
    assert(mid.dom().contains(t) || !mid.dom().contains(t)); 
    if among(ks, k, t) { let i = choose|i: int| 0 <= i < k && #[trigger] ks[i] == t; assert(ks[i] != ks[k]); }
    if among(ks, k + 1, t) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] ks[i] == t;  } } }
proof fn all_keys(ks: Seq<T>, d: Set<T>) requires ks.to_set() == d ensures forall|t: T| among(ks, ks.len() as int, t) == #[trigger] d.contains(t) { assert forall|t: T| among(ks, ks.len() as int, t) == #[trigger] d.contains(t) by { assert(ks.to_set().contains(t) == ks.contains(t)); } }
pub open spec fn first_ranges(ks: Seq<T>, c: Map<T, usize>, k: int, m: Map<T, Range>) -> bool { (forall|t: T| #![trigger m.dom().contains(t)] m.dom().contains(t) <==> among(ks, k, t)) && forall|i: int| #![trigger m[ks[i]]] 0 <= i < k ==> m[ks[i]].start == blocks(ks, c, i).len() && m[ks[i]].end == blocks(ks, c, i + 1).len() }
proof fn all_ranges(ks: Seq<T>, c: Map<T, usize>, m: Map<T, Range>, fields: Seq<T>) requires ks.no_duplicates(), ks.to_set() == c.dom(), first_ranges(ks, c, ks.len() as int, m), fields == blocks(ks, c, ks.len() as int) ensures ranges(m, c, fields)
{ all_keys(ks, c.dom()); assert(m.dom() =~= c.dom()); assert forall|t: T| #![trigger m[t]] m.dom().contains(t) implies m[t].end - m[t].start == c[t] && m[t].end <= fields.len() && m[t].start <= m[t].end && (forall|k: int| m[t].start <= k < m[t].end ==> fields[k] == t) by { assert(among(ks, ks.len() as int, t)); let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == t; assert(ks[i] == t); blocks_len(ks, c, i + 1, ks.len() as int);
    assert forall|k: int| m[t].start <= k < m[t].end implies fields[k] == t by { assert(blocks(ks, c, i + 1)[k] == t); } } }
''')
    u.fn(mk(f, 'layout_fields', '', body), 'ensures slots(variants@, r.1@, r.0@), tight(variants@, r.0@),', obligation='layout_fields', rules=ENTRY + R,
         sig='pub fn layout_fields(variants: &Vec<Vec<T>>) -> (r: (Vec<T>, BTreeMap<Range>))',
         loops=['invariant at_most(variants@, v_i as int, t_counts@),', 'invariant v_i < variants.len(), one_keys@.no_duplicates(), one_keys@.to_set() == one@.dom(), joined(before, one@, one_keys@, k_i as int, t_counts@),',
                'invariant keys@ == order(t_counts@.dom()), keys@.no_duplicates(), keys@.to_set() == t_counts@.dom(), sorted_fields@ == blocks(keys@, t_counts@, f_i as int),', 'invariant scan_keys@ == keys@, keys@.no_duplicates(), keys@.to_set() == t_counts@.dom(), sorted_fields@ == blocks(keys@, t_counts@, keys@.len() as int), scan_state == blocks(keys@, t_counts@, s_i as int).len(), first_ranges(keys@, t_counts@, s_i as int, collected@),'])
    u.text(PLACE)
    # ---- layout_variants_impl ----
    f = s.fn('layout_variants_impl'); body = strip_attrs(drop_debug(f.body))
    m, cb, (a, b) = closure(body, r'variants\s*\.iter\(\)\s*\.map\(\|variant\| \{', 'closure laying out one variant')
    e = re.match(r'\s*\)\s*\.collect_vec\(\)\s*;', body[b:])
    if not e: raise AnchorLost(f'{F}: collect of the layouts')
    body = body[:a] + '{ let mut all: Vec<Vec<Option<usize>>> = Vec::new(); for v_i in 0..variants.len() { let one = layout_one(&variants[v_i], &t_to_range, Ghost(variants@), Ghost(v_i as int), Ghost(sorted_fields@)); all.push(one); } all };' + body[b + e.end():]
    m, ib, (a, b) = closure(cb, r'variant\s*\.iter\(\)\s*\.map\(\|t\| \{', 'closure laying out one field')
    e = re.match(r'\s*\)\s*\.collect_vec\(\)', cb[b:])
    if not e: raise AnchorLost(f'{F}: collect of one layout')
    cb = cb[:a] + '{ let mut one: Vec<Option<usize>> = Vec::new(); proof { assert forall|x: T| #[trigger] need(variant@.take(0), x) == 0 by {} } for i in 0..variant.len() { let t = &variant[i]; proof { next_slot(variant@, i as int); assert(variant@ == vs[at]@); assert(need(vs[at]@, variant@[i as int]) == need(variant@, variant@[i as int])); } let item = ' + ib + '; one.push(item); } proof { slots_are_distinct(variant@, t_to_range@, fields, one@); } one }' + cb[b + e.end():]
    u.fn(mk(f, 'layout_one', 'fn layout_one(variant: &Vec<T>, t_to_range: &BTreeMap<Range>, Ghost(vs): Ghost<Seq<Vec<T>>>, Ghost(at): Ghost<int>, Ghost(fields): Ghost<Seq<T>>) -> (r: Vec<Option<usize>>)', cb),
         'requires 0 <= at < vs.len(), vs[at]@ == variant@, slots(vs, t_to_range@, fields), ensures placed(variant@, fields, r@),', obligation='layout_variants_impl (one variant)',
         rules=[(r'\(!elide\(t\)\)\.then\(\|\| \{', 'if elide(t) { None } else { Some({'), (r"(?s)(\w+)\s*\.get_mut\(t\)\s*\.and_then\(Iterator::next\)\s*\.expect\(\"[^\"]*\"\)\s*\}\)", r"match \1.take(t) { Some(mut range) => { let next = range_next(&mut range); \1.insert(t.clone(), range); match next { Some(x) => x, None => { assert(false); 0 } } }, None => { assert(false); 0 } } }) }")],
         loops=['invariant 0 <= at < vs.len(), vs[at]@ == variant@, slots(vs, t_to_range@, fields), one@.len() == i, t_to_range_map@.dom() == t_to_range@.dom(), forall|t: T| #![trigger t_to_range_map@[t]] t_to_range@.dom().contains(t) ==> t_to_range_map@[t].end == t_to_range@[t].end && t_to_range_map@[t].start == t_to_range@[t].start + need(variant@.take(i as int), t), forall|j: int| #![trigger one@[j]] 0 <= j < i ==> slot_of(variant@, t_to_range@, j, one@[j]),'])
    u.fn(mk(f, 'layout_variants_impl', '', body), 'ensures tight(variants@, r.0@), r.1@.len() == variants@.len(), forall|i: int| #![trigger r.1@[i]] 0 <= i < variants@.len() ==> placed(variants@[i]@, r.0@, r.1@[i]@),', obligation='layout_variants_impl',
         rules=[(r'layout_fields\(variants, &elide\)', 'layout_fields(variants)'), (r'let variants = variants\.as_ref\(\);', '')], sig='pub fn layout_variants_impl(variants: &Vec<Vec<T>>) -> (r: (Vec<T>, Vec<Vec<Option<usize>>>))',
         loops=['invariant slots(variants@, t_to_range@, sorted_fields@), all@.len() == v_i, forall|i: int| #![trigger all@[i]] 0 <= i < v_i ==> placed(variants@[i]@, sorted_fields@, all@[i]@),'])
    u.text(LLVM)
    # ---- the representation of a sum ----
    g = src('hugr-llvm/src/sum.rs')
    u.fn(g.fn('tag_width_for_num_variants'), 'requires num_variants >= 1, ensures r >= 1, num_variants <= pow2(r as nat), num_variants > 1 ==> num_variants > pow2((r - 1) as nat),', rules=[(r'debug_assert!\(num_variants >= 1\);', 'assert(num_variants >= 1);'), (r'\((num_variants - 1)\)\.ilog2\(\)', r'usize_ilog2(\1)')], sig='fn tag_width_for_num_variants(num_variants: usize) -> (r: u32)', obligation='tag_width_for_num_variants')
    D = [(r"<'c>", ''), (r'\bBasicTypeEnum\b', 'T')]
    it = subst(strip_attrs(g.item(r"enum LLVMSumTypeEnum<'c>")), D); u.text('pub ' + it.lstrip().removeprefix('pub '))
    I = g.impl(r"<'c> LLVMSumTypeEnum<'c>\s*\{")
    u.text('impl LLVMSumTypeEnum {')
    S = lambda n: g.fn(n, I)
    u.fn(S('try_new'), 'ensures r matches Ok(x) && represents(x, variant_types@),', sig='pub fn try_new(context: &Context, variant_types: Vec<Vec<T>>) -> (r: Result<LLVMSumTypeEnum, ()>)', obligation='LLVMSumTypeEnum::try_new',
         rules=[(r'layout::layout_variants\(slice::from_ref\(&variant_types\)\)', 'layout_variants_impl(&all)'), (r'layout::layout_variants\(&variant_types\)', 'layout_variants_impl(&variant_types)'),
                (r'let variant_types = variant_types\.into_iter\(\)\.exactly_one\(\)\.unwrap\(\);', 'let variant_types = clone_types(&variant_types[0]); let mut all: Vec<Vec<T>> = Vec::new(); all.push(clone_types(&variant_types)); proof { assert(all@[0]@ == whole[0]@); assert(rows_of(whole) =~= seq![variant_types@]); }'),
                (r'let field_indices = field_indices\.into_iter\(\)\.exactly_one\(\)\.unwrap\(\);', 'let field_indices = clone_slots(&field_indices[0]); proof { if fields@.len() == 1 { one_field(all@, fields@, field_indices@); } only_variant(all@, fields@); }'),
                (r'(?s)field_indices\s*\.into_iter\(\)\s*\.enumerate\(\)\s*\.filter_map\(\|\(i, f_i\)\| f_i\.is_some\(\)\.then_some\(i\)\)\s*\.exactly_one\(\)\s*\.unwrap\(\)', '{ let k = only_some(&field_indices); proof { assert forall|i: int| #![trigger variant_types@[i]] 0 <= i < variant_types@.len() implies (elided(variant_types@[i]) <==> i != k) by { assert(field_indices@[i] is Some || field_indices@[i] is None); assert(field_indices@[k as int] is Some); } } k }'),
                (r'fields\.is_empty\(\)', 'fields.len() == 0'), (r'tag_type\.into\(\)', 'tag_type.into_type()'), (r'context\.struct_type\(&\[\], false\)', 'context.struct_type(&Vec::new(), false)'),
                (r'match fields\.len\(\) \{', 'proof { if fields@.len() == 0 { nothing_needed(variant_types@, fields@, field_indices@); } } match fields.len() {'),
                (r'let \(mut fields, field_indices\) = ([\w:]+\(&\w+\));', r'let (mut fields, field_indices) = \1; let ghost slots = fields@; proof { if slots.len() == 0 { assert forall|i: int| #![trigger whole[i]] 0 <= i < whole.len() implies all_elided(whole[i]@) by { assert(placed(whole[i]@, slots, field_indices@[i]@)); nothing_needed(whole[i]@, slots, field_indices@[i]@); } } }'),
                (r'fields\.insert\(0, (.*?)\);', r'fields.insert(0, \1); proof { assert(fields@.skip(1) =~= slots); assert(fields@[0] == int_as_type(tag_type)); }')], pre='let ghost whole = variant_types@;')
    u.fn(S('tag_type'), 'requires sound(*self), ensures holds_tags(*self, r),', sig='pub fn tag_type(&self) -> (r: IntType)', obligation='LLVMSumTypeEnum::tag_type', rules=[(r'(?s)value_type\s*\.get_field_type_at_index\(0\)\s*\.unwrap\(\)\s*\.into_int_type\(\)', 'value_type.field_type(0).into_int_type()')])
    u.fn(S('num_variants'), 'ensures r == variants_of(*self).len(),', sig='pub fn num_variants(&self) -> (r: usize)', obligation='LLVMSumTypeEnum::num_variants')
    u.fn(S('fields_for_variant'), 'requires tag < variants_of(*self).len(), ensures r@ == variants_of(*self)[tag as int],', sig='fn fields_for_variant(&self, tag: usize) -> (r: &[T])', obligation='LLVMSumTypeEnum::fields_for_variant',
         rules=[(r'assert!\((.*?)\);', r'if !(\1) { assert(false); }'), (r'unreachable!\("[^"]*"\)', '{ assert(false); vstd::pervasive::unreached() }'), (r'&(\w+)\[\.\.\]', r'\1.as_slice()'), (r'&variant_types\[tag\]', 'variant_types[tag].as_slice()')])
    u.fn(S('num_fields_for_variant'), 'requires tag < variants_of(*self).len(), ensures r == variants_of(*self)[tag as int].len(),', sig='fn num_fields_for_variant(&self, tag: usize) -> (r: usize)', obligation='LLVMSumTypeEnum::num_fields_for_variant')
    u.text('}')
    return [u]
def prepare(build):
    """the two layout functions and the tag width, cut verbatim from the current source, for the executable layer (the crate itself needs LLVM)"""
    d = os.path.join(build, 'gen'); os.makedirs(d, exist_ok=True)
    s = src(F); g = src('hugr-llvm/src/sum.rs')
    text = '\n'.join(f'{f.sig} {f.body}' for f in (s.fn('layout_fields'), s.fn('layout_variants_impl'), g.fn('tag_width_for_num_variants')))
    uses = [m for m in re.findall(r'(?m)^use (?:std|core|itertools)::[^;]*;', s.raw) if not m.startswith('use std::fmt;')]
    p = os.path.join(d, 'l01.rs'); new = '\n'.join(uses) + '\nuse std::fmt;\n' + text + '\n'
    if not os.path.exists(p) or open(p).read() != new: open(p, 'w').write(new)
LEVEL = 'proved'
TRUSTED = []
ASSUMPTIONS = ['field types are compared by size and printed form; two LLVM types that print alike are the same type', 'whether a field is elided depends on its type only', 'usize has 64 bits']
BOUNDED = ['the extracted layout functions run over enumerated and seeded lists of variants of integers standing for types']
