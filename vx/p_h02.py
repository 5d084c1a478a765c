from typesx import *
from common import *
EXEC = 'h02'
BOUNDED = ['the panics on bad arguments, and canonicalize_nodes on graphs with nodes outside the hierarchy of the module: executed on random edit histories (1500 of up to 40 edits; thorough 15000) against a plain model, not proved']
HM = 'hugr-core/src/hugr/hugrmut.rs'; HI = 'hugr-core/src/hugr/internal.rs'; HW = 'hugr-core/src/hugr/views.rs'; HG = 'hugr-core/src/hugr.rs'
DATA = '''
use std::collections::VecDeque;
#[verifier::external_body] pub fn never() -> ! requires false { panic!() }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Idx(pub usize);
pub type Node = Idx;
impl Idx {
  pub fn into_portgraph(self) -> (r: Idx) ensures r == self { self }
  pub fn node(self) -> (r: Idx) ensures r == self { self }
  pub fn try_cast(self) -> (r: Option<Idx>) ensures r == Some(self) { Some(self) }
  pub fn index(self) -> (r: usize) ensures r == self.0 { self.0 }
  pub fn new(i: usize) -> (r: Idx) ensures r == Idx(i) { Idx(i) }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Direction { Incoming, Outgoing }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Port { pub dir: Direction, pub at: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct OutgoingPort { pub at: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct IncomingPort { pub at: usize }
impl OutgoingPort { pub fn index(&self) -> (r: usize) ensures r == self.at { self.at } pub fn port(self) -> (r: Port) ensures r == (Port { dir: Direction::Outgoing, at: self.at }) { Port { dir: Direction::Outgoing, at: self.at } } }
impl IncomingPort { pub fn index(&self) -> (r: usize) ensures r == self.at { self.at } pub fn port(self) -> (r: Port) ensures r == (Port { dir: Direction::Incoming, at: self.at }) { Port { dir: Direction::Incoming, at: self.at } } }
impl Port { pub fn pg_offset(&self) -> (r: Port) ensures r == *self { *self } pub fn new(dir: Direction, at: usize) -> (r: Port) ensures r == (Port { dir, at }) { Port { dir, at } } }
pub struct AttachError; pub struct LinkError;
/// operations, JSON values, keys and registries up to equality
#[verifier::external_body] pub struct OpType { _p: u8 }
#[verifier::external_body] pub struct Json { _p: u8 }
#[verifier::external_body] pub struct Key { _p: u8 }
#[verifier::external_body] pub struct ExtensionRegistry { _p: u8 }
#[verifier::external_body] pub struct Extension { _p: u8 }
#[verifier::external_body] pub struct Substitution { _p: u8 }
pub uninterp spec fn in_count(o: OpType) -> nat;
pub uninterp spec fn out_count(o: OpType) -> nat;
pub uninterp spec fn other_in(o: OpType) -> Option<IncomingPort>;
pub uninterp spec fn other_out(o: OpType) -> Option<OutgoingPort>;
pub uninterp spec fn no_op() -> OpType;
pub uninterp spec fn substituted(o: OpType, s: Substitution) -> OpType;
pub uninterp spec fn joined(a: ExtensionRegistry, b: ExtensionRegistry) -> ExtensionRegistry;
pub uninterp spec fn with_ext(a: ExtensionRegistry, e: Extension) -> ExtensionRegistry;
pub uninterp spec fn null() -> Json;
impl OpType {
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r == no_op() { unimplemented!() }
  #[verifier::external_body] pub fn input_count(&self) -> (r: usize) ensures r == in_count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn output_count(&self) -> (r: usize) ensures r == out_count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn other_input_port(&self) -> (r: Option<IncomingPort>) ensures r == other_in(*self) { unimplemented!() }
  #[verifier::external_body] pub fn other_output_port(&self) -> (r: Option<OutgoingPort>) ensures r == other_out(*self) { unimplemented!() }
  #[verifier::external_body] pub fn substitute(&self, s: &Substitution) -> (r: OpType) ensures r == substituted(*self, *s) { unimplemented!() }
}
impl Clone for OpType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ExtensionRegistry {
  #[verifier::external_body] pub fn extend(&mut self, o: &ExtensionRegistry) ensures *final(self) == joined(*old(self), *o) { unimplemented!() }
  #[verifier::external_body] pub fn register_updated(&mut self, e: Extension) ensures *final(self) == with_ext(*old(self), e) { unimplemented!() }
}
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub fn push_all(q: &mut VecDeque<Idx>, c: Vec<Idx>) ensures final(q)@ == old(q)@ + c@ { let ghost o = q@; let mut i: usize = 0; while i < c.len() invariant 0 <= i <= c.len(), q@ == o + c@.take(i as int) decreases c.len() - i { q.push_back(c[i]); i = i + 1; assert(c@.take(i as int) =~= c@.take(i - 1).push(c@[i - 1])); } assert(c@.take(i as int) =~= c@); }
// ---- metadata maps ----
#[verifier::external_body] pub struct NodeMetadataMap { _p: u8 }
impl Clone for NodeMetadataMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl NodeMetadataMap {
  pub uninterp spec fn at(&self, k: Key) -> Option<Json>;
  pub open spec fn empty(&self) -> bool { forall|k: Key| #![trigger self.at(k)] self.at(k) is None }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == self.empty() { unimplemented!() }
  #[verifier::external_body] pub fn none() -> (r: &'static Self) ensures r.empty() { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &Key) ensures forall|x: Key| #![trigger final(self).at(x)] final(self).at(x) == (if x == *k { None } else { old(self).at(x) }) { unimplemented!() }
  /// entry(k).or_insert(Null)
  #[verifier::external_body] pub fn entry_or_null(&mut self, k: &Key) -> (r: &mut Json)
    ensures *r == (match old(self).at(*k) { Some(v) => v, None => null() }), final(self).at(*k) == Some(*final(r)), forall|x: Key| #![trigger final(self).at(x)] x != *k ==> final(self).at(x) == old(self).at(x) { unimplemented!() }
}
#[verifier::external_body] pub fn or_empty(m: &mut Option<NodeMetadataMap>) -> (r: &mut NodeMetadataMap)
  ensures *old(m) matches Some(v) ==> *r == v, *old(m) is None ==> r.empty(), *final(m) == Some(*final(r)) { unimplemented!() }
pub trait Done { type T; spec fn good(&self) -> bool; spec fn val(&self) -> Self::T; fn done(self) -> (r: Self::T) where Self: Sized requires self.good() ensures r == self.val(); }
impl<T, E> Done for Result<T, E> { type T = T; open spec fn good(&self) -> bool { self is Ok } open spec fn val(&self) -> T { self->Ok_0 } fn done(self) -> (r: T) { match self { Ok(x) => x, Err(_) => never() } } }
// ---- portgraph: dense maps ----
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct DenseMap<V> { _p: core::marker::PhantomData<V> }
impl<V> DenseMap<V> {
  pub uninterp spec fn at(&self, i: Idx) -> V;
  pub uninterp spec fn def(&self) -> V;
  #[verifier::external_body] pub fn get(&self, i: Idx) -> (r: &V) ensures *r == self.at(i) { unimplemented!() }
  #[verifier::external_body] pub fn get_mut(&mut self, i: Idx) -> (r: &mut V) ensures *r == old(self).at(i), final(self).at(i) == *final(r), final(self).def() == old(self).def(), forall|x: Idx| #![trigger final(self).at(x)] x != i ==> final(self).at(x) == old(self).at(x) { unimplemented!() }
  #[verifier::external_body] pub fn set(&mut self, i: Idx, v: V) ensures final(self).def() == old(self).def(), forall|x: Idx| #![trigger final(self).at(x)] final(self).at(x) == (if x == i { v } else { old(self).at(x) }) { unimplemented!() }
  #[verifier::external_body] pub fn take(&mut self, i: Idx) -> (r: V) ensures r == old(self).at(i), final(self).def() == old(self).def(), forall|x: Idx| #![trigger final(self).at(x)] final(self).at(x) == (if x == i { old(self).def() } else { old(self).at(x) }) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, i: Idx) ensures final(self).def() == old(self).def(), forall|x: Idx| #![trigger final(self).at(x)] final(self).at(x) == (if x == i { old(self).def() } else { old(self).at(x) }) { unimplemented!() }
  #[verifier::external_body] pub fn swap(&mut self, a: Idx, b: Idx) ensures final(self).def() == old(self).def(), forall|x: Idx| #![trigger final(self).at(x)] final(self).at(x) == old(self).at(swapped(a, b, x)) { unimplemented!() }
}
pub open spec fn swapped(a: Idx, b: Idx, x: Idx) -> Idx { if x == a { b } else if x == b { a } else { x } }
// ---- portgraph: ports and links ----
#[verifier::ext_equal] pub ghost struct Link { pub s: Idx, pub o: int, pub t: Idx, pub i: int }
pub open spec fn at_port(l: Link, n: Idx, p: Port) -> bool { match p.dir { Direction::Outgoing => l.s == n && l.o == p.at, Direction::Incoming => l.t == n && l.i == p.at } }
pub open spec fn one(b: bool) -> nat { if b { 1 } else { 0 } }
#[verifier::external_body] pub struct Graph { _p: u8 }
/// how often the far end of l is among the ports
pub open spec fn far_count(r: Seq<PortIndex>, p: PortIndex, l: Link) -> nat decreases r.len() { if r.len() == 0 { 0 } else { far_count(r.drop_last(), p, l) + one(at_port(l, r.last().at().0, r.last().at().1)) } }
pub type PortOffset = Port;
impl Port {
  pub fn new_incoming(i: usize) -> (r: Port) ensures r.dir == Direction::Incoming, r.at == i { Port { dir: Direction::Incoming, at: i } }
  pub fn new_outgoing(i: usize) -> (r: Port) ensures r.dir == Direction::Outgoing, r.at == i { Port { dir: Direction::Outgoing, at: i } }
}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct PortIndex { _p: u8 }
impl PortIndex { pub uninterp spec fn at(&self) -> (Idx, Port); }
impl Graph {
  pub uninterp spec fn live(&self, i: Idx) -> bool;
  pub uninterp spec fn size(&self) -> nat;
  pub uninterp spec fn ins(&self, i: Idx) -> nat;
  pub uninterp spec fn outs(&self, i: Idx) -> nat;
  pub uninterp spec fn cnt(&self, l: Link) -> nat;
  pub open spec fn has(&self, n: Idx, p: Port) -> bool { self.live(n) && p.at < (match p.dir { Direction::Incoming => self.ins(n), Direction::Outgoing => self.outs(n) }) }
  /// links join ports that exist
  pub open spec fn wf(&self) -> bool {
    &&& forall|l: Link| #![trigger self.cnt(l)] self.cnt(l) > 0 ==> self.live(l.s) && self.live(l.t) && 0 <= l.o < self.outs(l.s) && 0 <= l.i < self.ins(l.t)
    &&& forall|n: Idx| #![trigger self.live(n)] !self.live(n) ==> self.ins(n) == 0 && self.outs(n) == 0
  }
  /// no node was ever removed: the nodes are numbered from 0 without gaps
  pub uninterp spec fn packed(&self) -> bool;
  pub axiom fn numbered(&self) requires self.packed() ensures forall|x: Idx| #![trigger self.live(x)] self.live(x) <==> x.0 < self.size();
  pub open spec fn same_nodes(&self, o: &Graph) -> bool { self.size() == o.size() && (o.packed() ==> self.packed()) && forall|i: Idx| #![trigger self.live(i)] self.live(i) == o.live(i) }
  pub open spec fn same_ports(&self, o: &Graph) -> bool { forall|i: Idx| #![trigger self.ins(i)] #![trigger self.outs(i)] self.ins(i) == o.ins(i) && self.outs(i) == o.outs(i) }
  pub open spec fn same_links(&self, o: &Graph) -> bool { forall|l: Link| #![trigger self.cnt(l)] self.cnt(l) == o.cnt(l) }
  #[verifier::external_body] pub fn contains_node(&self, i: Idx) -> (r: bool) ensures r == self.live(i) { unimplemented!() }
  #[verifier::external_body] pub fn node_count(&self) -> (r: usize) ensures r == self.size() { unimplemented!() }
  #[verifier::external_body] pub fn num_inputs(&self, i: Idx) -> (r: usize) ensures r == self.ins(i) { unimplemented!() }
  #[verifier::external_body] pub fn num_outputs(&self, i: Idx) -> (r: usize) ensures r == self.outs(i) { unimplemented!() }
  #[verifier::external_body] pub fn num_ports(&self, i: Idx, d: Direction) -> (r: usize) ensures r == (match d { Direction::Incoming => self.ins(i), Direction::Outgoing => self.outs(i) }) { unimplemented!() }
  #[verifier::external_body] pub fn reserve(&mut self, n: usize, p: usize) ensures final(self).same_nodes(old(self)), final(self).same_ports(old(self)), final(self).same_links(old(self)) { unimplemented!() }
  #[verifier::external_body] pub fn add_node(&mut self, i: usize, o: usize) -> (r: Idx)
    ensures !old(self).live(r), final(self).size() == old(self).size() + 1, final(self).same_links(old(self)), old(self).packed() ==> final(self).packed() && r.0 == old(self).size(),
      forall|x: Idx| #![trigger final(self).live(x)] final(self).live(x) == (x == r || old(self).live(x)),
      forall|x: Idx| #![trigger final(self).ins(x)] #![trigger final(self).outs(x)] x != r ==> final(self).ins(x) == old(self).ins(x) && final(self).outs(x) == old(self).outs(x),
      final(self).ins(r) == i, final(self).outs(r) == o { unimplemented!() }
  #[verifier::external_body] pub fn remove_node(&mut self, n: Idx)
    ensures old(self).live(n) ==> final(self).size() + 1 == old(self).size(),
      forall|x: Idx| #![trigger final(self).live(x)] final(self).live(x) == (x != n && old(self).live(x)),
      forall|x: Idx| #![trigger final(self).ins(x)] #![trigger final(self).outs(x)] final(self).ins(x) == (if x == n { 0 } else { old(self).ins(x) }) && final(self).outs(x) == (if x == n { 0 } else { old(self).outs(x) }),
      forall|l: Link| #![trigger final(self).cnt(l)] final(self).cnt(l) == (if l.s == n || l.t == n { 0 } else { old(self).cnt(l) }) { unimplemented!() }
  #[verifier::external_body] pub fn link_nodes(&mut self, a: Idx, o: usize, b: Idx, i: usize) -> (r: Result<(PortIndex, PortIndex), LinkError>)
    ensures r is Ok == (old(self).live(a) && old(self).live(b) && o < old(self).outs(a) && i < old(self).ins(b)), final(self).same_nodes(old(self)), final(self).same_ports(old(self)),
      forall|l: Link| #![trigger final(self).cnt(l)] final(self).cnt(l) == old(self).cnt(l) + one(r is Ok && l == (Link { s: a, o: o as int, t: b, i: i as int })) { unimplemented!() }
  #[verifier::external_body] pub fn port_index(&self, n: Idx, p: Port) -> (r: Option<PortIndex>) ensures r is Some == self.has(n, p), r matches Some(x) ==> x.at() == (n, p) { unimplemented!() }
  #[verifier::external_body] pub fn unlink_port(&mut self, p: PortIndex)
    ensures final(self).same_nodes(old(self)), final(self).same_ports(old(self)), forall|l: Link| #![trigger final(self).cnt(l)] final(self).cnt(l) == (if at_port(l, p.at().0, p.at().1) { 0 } else { old(self).cnt(l) }) { unimplemented!() }
  /// the ports which disappear have no links: with several links on one of them portgraph mixes up the ports it moves (see H02 in KNOWN_FINDINGS.txt)
  #[verifier::external_body] pub fn set_num_ports(&mut self, n: Idx, i: usize, o: usize) requires old(self).live(n), forall|l: Link| #![trigger old(self).cnt(l)] l.s == n && l.o >= o || l.t == n && l.i >= i ==> old(self).cnt(l) == 0
    ensures final(self).same_nodes(old(self)), final(self).ins(n) == i, final(self).outs(n) == o,
      forall|x: Idx| #![trigger final(self).ins(x)] #![trigger final(self).outs(x)] x != n ==> final(self).ins(x) == old(self).ins(x) && final(self).outs(x) == old(self).outs(x),
      forall|l: Link| #![trigger final(self).cnt(l)] final(self).cnt(l) == (if l.s == n && l.o >= o || l.t == n && l.i >= i { 0 } else { old(self).cnt(l) }) { unimplemented!() }
  /// the ports linked to p, once for each link
  #[verifier::external_body] pub fn linked_ports(&self, p: PortIndex) -> (r: Vec<PortIndex>) requires self.has(p.at().0, p.at().1)
    ensures forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> self.has(r@[j].at().0, r@[j].at().1) && r@[j].at().1.dir != p.at().1.dir, forall|l: Link| #![trigger self.cnt(l)] at_port(l, p.at().0, p.at().1) ==> self.cnt(l) == far_count(r@, p, l) { unimplemented!() }
  #[verifier::external_body] pub fn link_ports(&mut self, a: PortIndex, b: PortIndex) -> (r: Result<(PortIndex, PortIndex), LinkError>)
    ensures r is Ok == (old(self).has(a.at().0, a.at().1) && old(self).has(b.at().0, b.at().1) && a.at().1.dir != b.at().1.dir), final(self).same_nodes(old(self)), final(self).same_ports(old(self)),
      forall|l: Link| #![trigger final(self).cnt(l)] final(self).cnt(l) == old(self).cnt(l) + one(r is Ok && at_port(l, a.at().0, a.at().1) && at_port(l, b.at().0, b.at().1)) { unimplemented!() }
  #[verifier::external_body] pub fn swap_nodes(&mut self, a: Idx, b: Idx)
    ensures final(self).size() == old(self).size(), forall|x: Idx| #![trigger final(self).live(x)] final(self).live(x) == old(self).live(swapped(a, b, x)),
      forall|x: Idx| #![trigger final(self).ins(x)] #![trigger final(self).outs(x)] final(self).ins(x) == old(self).ins(swapped(a, b, x)) && final(self).outs(x) == old(self).outs(swapped(a, b, x)),
      forall|l: Link| #![trigger final(self).cnt(l)] final(self).cnt(l) == old(self).cnt(Link { s: swapped(a, b, l.s), t: swapped(a, b, l.t), ..l }) { unimplemented!() }
  /// leaves nodes that are already contiguous where they are
  #[verifier::external_body] pub fn compact_nodes(&mut self) requires forall|x: Idx| #![trigger old(self).live(x)] old(self).live(x) == (x.0 < old(self).size())
    ensures final(self).same_nodes(old(self)), final(self).same_ports(old(self)), final(self).same_links(old(self)) { unimplemented!() }
}
// ---- portgraph: the hierarchy ----
pub open spec fn without(s: Seq<Idx>, n: Idx) -> Seq<Idx> { s.filter(|x: Idx| x != n) }
#[verifier::external_body] pub struct Hierarchy { _p: u8 }
impl Hierarchy {
  pub uninterp spec fn par(&self, i: Idx) -> Option<Idx>;
  pub uninterp spec fn kids(&self, i: Idx) -> Seq<Idx>;
  /// n is k steps up from x
  pub open spec fn up(&self, x: Idx, k: nat) -> Option<Idx> decreases k { if k == 0 { Some(x) } else { match self.up(x, (k - 1) as nat) { Some(y) => self.par(y), None => None } } }
  /// x is n or inside n
  pub open spec fn within(&self, x: Idx, n: Idx) -> bool { exists|k: nat| #[trigger] self.up(x, k) == Some(n) }
  pub open spec fn same(&self, o: &Hierarchy) -> bool { forall|i: Idx| #![trigger self.par(i)] #![trigger self.kids(i)] self.par(i) == o.par(i) && self.kids(i) == o.kids(i) }
  /// children and parents agree, each child is listed once
  pub open spec fn wf(&self) -> bool {
    &&& forall|p: Idx, c: Idx| #![trigger self.kids(p).contains(c)] self.kids(p).contains(c) <==> self.par(c) == Some(p)
    &&& forall|p: Idx| #![trigger self.kids(p)] self.kids(p).no_duplicates()
    &&& self.ranked()
  }
  /// no node is inside itself
  pub open spec fn ranked(&self) -> bool { exists|h: spec_fn(Idx) -> nat| #[trigger] self.rank(h) }
  pub open spec fn rank(&self, h: spec_fn(Idx) -> nat) -> bool { forall|x: Idx| #![trigger self.par(x)] self.par(x) matches Some(p) ==> h(p) < h(x) }
  pub open spec fn pushed(&self, o: &Hierarchy, n: Idx, p: Idx) -> bool { forall|i: Idx| #![trigger self.par(i)] #![trigger self.kids(i)] self.par(i) == (if i == n { Some(p) } else { o.par(i) }) && self.kids(i) == (if i == p { o.kids(i).push(n) } else { o.kids(i) }) }
  pub open spec fn detached(&self, o: &Hierarchy, n: Idx) -> bool { forall|i: Idx| #![trigger self.par(i)] #![trigger self.kids(i)] self.par(i) == (if i == n { None } else { o.par(i) }) && self.kids(i) == without(o.kids(i), n) }
  pub open spec fn placed(&self, o: &Hierarchy, n: Idx, p: Idx) -> bool { forall|i: Idx| #![trigger self.par(i)] #![trigger self.kids(i)] self.par(i) == (if i == n { Some(p) } else { o.par(i) }) && self.kids(i) == (if i == p { without(o.kids(i), n).push(n) } else { without(o.kids(i), n) }) }
  pub open spec fn beside(&self, o: &Hierarchy, n: Idx, s: Idx, after: bool) -> bool {
    o.par(s) matches Some(p) && forall|i: Idx| #![trigger self.par(i)] #![trigger self.kids(i)] self.par(i) == (if i == n { Some(p) } else { o.par(i) })
      && self.kids(i) == (if i == p { o.kids(i).insert(o.kids(i).index_of(s) + (if after { 1int } else { 0 }), n) } else { o.kids(i) }) }
  /// the check portgraph makes: a childless node is not looked for among the ancestors
  pub open spec fn may(&self, n: Idx, p: Idx) -> bool { self.par(n) is None && (self.kids(n).len() == 0 || !self.within(p, n)) }
  #[verifier::external_body] pub fn parent(&self, n: Idx) -> (r: Option<Idx>) ensures r == self.par(n) { unimplemented!() }
  #[verifier::external_body] pub fn children(&self, n: Idx) -> (r: Vec<Idx>) ensures r@ == self.kids(n) { unimplemented!() }
  #[verifier::external_body] pub fn push_child(&mut self, n: Idx, p: Idx) -> (r: Result<(), AttachError>) ensures r is Ok == old(self).may(n, p), r is Ok ==> final(self).pushed(old(self), n, p), r is Err ==> *final(self) == *old(self) { unimplemented!() }
  #[verifier::external_body] pub fn insert_before(&mut self, n: Idx, s: Idx) -> (r: Result<(), AttachError>) ensures r is Ok == (old(self).par(s) matches Some(p) && old(self).may(n, p)), r is Ok ==> final(self).beside(old(self), n, s, false), r is Err ==> *final(self) == *old(self) { unimplemented!() }
  #[verifier::external_body] pub fn insert_after(&mut self, n: Idx, s: Idx) -> (r: Result<(), AttachError>) ensures r is Ok == (old(self).par(s) matches Some(p) && old(self).may(n, p)), r is Ok ==> final(self).beside(old(self), n, s, true), r is Err ==> *final(self) == *old(self) { unimplemented!() }
  #[verifier::external_body] pub fn detach(&mut self, n: Idx) -> (r: Option<Idx>) ensures r == old(self).par(n), final(self).detached(old(self), n) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, n: Idx)
    ensures forall|i: Idx| #![trigger final(self).par(i)] final(self).par(i) == (if i == n || old(self).par(i) == Some(n) { None } else { old(self).par(i) }),
      forall|i: Idx| #![trigger final(self).kids(i)] final(self).kids(i) == (if i == n { Seq::empty() } else { without(old(self).kids(i), n) }) { unimplemented!() }
  #[verifier::external_body] pub fn swap_nodes(&mut self, a: Idx, b: Idx)
    ensures forall|i: Idx| #![trigger final(self).par(i)] final(self).par(i) == (match old(self).par(swapped(a, b, i)) { Some(p) => Some(swapped(a, b, p)), None => None }),
      forall|i: Idx| #![trigger final(self).kids(i)] final(self).kids(i) == old(self).kids(swapped(a, b, i)).map_values(|x: Idx| swapped(a, b, x)) { unimplemented!() }
}
'''
SPEC = '''
pub open spec fn data(m: DenseMap<Option<NodeMetadataMap>>, n: Idx, k: Key) -> Option<Json> { match m.at(n) { Some(m) => m.at(k), None => None } }
pub struct Hugr { pub graph: Graph, pub hierarchy: Hierarchy, pub module_root: Idx, pub entrypoint: Idx, pub op_types: DenseMap<OpType>, pub metadata: DenseMap<Option<NodeMetadataMap>>, pub extensions: ExtensionRegistry }
impl Hugr {
  pub open spec fn live(&self, n: Node) -> bool { self.graph.live(n) }
  pub open spec fn par(&self, n: Node) -> Option<Node> { self.hierarchy.par(n) }
  pub open spec fn kids(&self, n: Node) -> Seq<Node> { self.hierarchy.kids(n) }
  pub open spec fn op(&self, n: Node) -> OpType { self.op_types.at(n) }
  /// the metadata of a node under a key
  #[verifier::inline] pub open spec fn meta(&self, n: Node, k: Key) -> Option<Json> { data(self.metadata, n, k) }
  pub open spec fn wf(&self) -> bool {
    &&& self.graph.wf()
    &&& self.hierarchy.wf()
    &&& self.live(self.module_root) && self.live(self.entrypoint) && self.par(self.module_root) is None
    &&& self.metadata.def() is None
    &&& forall|n: Idx| #![trigger self.graph.live(n)] !self.live(n) ==> self.par(n) is None && self.kids(n).len() == 0 && self.metadata.at(n) is None
  }
  // what stayed as it was
  pub open spec fn same_nodes(&self, o: &Hugr) -> bool { self.graph.same_nodes(&o.graph) }
  pub open spec fn same_graph(&self, o: &Hugr) -> bool { self.graph.same_nodes(&o.graph) && self.graph.same_ports(&o.graph) && self.graph.same_links(&o.graph) }
  pub open spec fn same_tree(&self, o: &Hugr) -> bool { self.hierarchy.same(&o.hierarchy) }
  pub open spec fn same_ops(&self, o: &Hugr) -> bool { forall|n: Idx| #![trigger self.op_types.at(n)] o.live(n) ==> self.op_types.at(n) == o.op_types.at(n) }
  pub open spec fn same_meta(&self, o: &Hugr) -> bool { forall|n: Idx, k: Key| #![trigger self.meta(n, k)] o.live(n) ==> self.meta(n, k) == o.meta(n, k) }
  pub open spec fn same_ends(&self, o: &Hugr) -> bool { self.module_root == o.module_root && self.entrypoint == o.entrypoint && self.extensions == o.extensions }
  pub open spec fn same_but_tree(&self, o: &Hugr) -> bool { self.same_graph(o) && self.same_ops(o) && self.same_meta(o) && self.same_ends(o) }
  /// n is new here, with the ports of its operation, no links and no metadata; every other node is as it was
  pub open spec fn fresh(&self, o: &Hugr, n: Node, op: OpType) -> bool {
    &&& !o.live(n) && (o.graph.packed() ==> self.graph.packed() && n.0 == o.graph.size()) && self.graph.size() == o.graph.size() + 1 && self.graph.same_links(&o.graph) && self.same_ends(o)
    &&& forall|x: Idx| #![trigger self.graph.live(x)] self.live(x) == (x == n || o.live(x))
    &&& forall|x: Idx| #![trigger self.graph.ins(x)] #![trigger self.graph.outs(x)] self.graph.ins(x) == (if x == n { in_count(op) } else { o.graph.ins(x) }) && self.graph.outs(x) == (if x == n { out_count(op) } else { o.graph.outs(x) })
    &&& forall|x: Idx| #![trigger self.op_types.at(x)] x == n || o.live(x) ==> self.op(x) == (if x == n { op } else { o.op(x) })
    &&& forall|x: Idx, k: Key| #![trigger self.meta(x, k)] self.meta(x, k) == (if x == n { None } else { o.meta(x, k) })
  }
  /// n alone has gone, with its links, its operation and its metadata; its children have no parent
  pub open spec fn removed(&self, o: &Hugr, n: Node) -> bool {
    &&& self.graph.size() + 1 == o.graph.size() && self.same_ends(o)
    &&& forall|x: Idx| #![trigger self.graph.live(x)] self.live(x) == (x != n && o.live(x))
    &&& forall|x: Idx| #![trigger self.graph.ins(x)] #![trigger self.graph.outs(x)] x != n ==> self.graph.ins(x) == o.graph.ins(x) && self.graph.outs(x) == o.graph.outs(x)
    &&& forall|l: Link| #![trigger self.graph.cnt(l)] self.graph.cnt(l) == (if l.s == n || l.t == n { 0 } else { o.graph.cnt(l) })
    &&& forall|x: Idx| #![trigger self.op_types.at(x)] x != n ==> self.op(x) == o.op(x)
    &&& forall|x: Idx, k: Key| #![trigger self.meta(x, k)] self.meta(x, k) == (if x == n { None } else { o.meta(x, k) })
    &&& forall|x: Idx| #![trigger self.hierarchy.par(x)] self.par(x) == (if x == n || o.par(x) == Some(n) { None } else { o.par(x) })
    &&& forall|x: Idx| #![trigger self.hierarchy.kids(x)] self.kids(x) == (if x == n { Seq::empty() } else { without(o.kids(x), n) })
  }
}
'''
LEM = {}
LEM_FAR = """
/// node has more ports in one direction, everything else is as before
pub open spec fn widened(o: Graph, g: Graph, n: Idx, d: Direction, k: nat) -> bool {
  &&& forall|x: Idx| #![trigger g.ins(x)] g.ins(x) == (if x == n && d == Direction::Incoming { o.ins(x) + k } else { o.ins(x) })
  &&& forall|x: Idx| #![trigger g.outs(x)] g.outs(x) == (if x == n && d == Direction::Outgoing { o.outs(x) + k } else { o.outs(x) })
}
/// the links after the ports of n from k on have moved up by a
pub open spec fn slid(o: Graph, l: Link, n: Idx, d: Direction, k: int, a: int) -> nat { match d {
  Direction::Incoming => if l.t != n || l.i < k { o.cnt(l) } else if l.i < k + a { 0 } else { o.cnt(Link { i: l.i - a, ..l }) },
  Direction::Outgoing => if l.s != n || l.o < k { o.cnt(l) } else if l.o < k + a { 0 } else { o.cnt(Link { o: l.o - a, ..l }) },
} }
pub proof fn lemma_far(r: Seq<PortIndex>, p: PortIndex, q: PortIndex, l: Link, m: Link)
  requires forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> (at_port(l, r[j].at().0, r[j].at().1) <==> at_port(m, r[j].at().0, r[j].at().1)),
  ensures far_count(r, p, l) == far_count(r, q, m) decreases r.len()
{ if r.len() > 0 { assert(r.drop_last() =~= r.take(r.len() - 1)); assert forall|j: int| #![trigger r.drop_last()[j]] 0 <= j < r.drop_last().len() implies (at_port(l, r.drop_last()[j].at().0, r.drop_last()[j].at().1) <==> at_port(m, r.drop_last()[j].at().0, r.drop_last()[j].at().1)) by { assert(r[j] == r.drop_last()[j]); } lemma_far(r.drop_last(), p, q, l, m); assert(r[r.len() - 1] == r.last()); } }
"""
LEM['lemma_without'] = '''
pub proof fn lemma_without(s: Seq<Idx>, n: Idx) requires s.no_duplicates()
  ensures without(s, n).no_duplicates(), forall|c: Idx| #![trigger without(s, n).contains(c)] without(s, n).contains(c) <==> s.contains(c) && c != n, !s.contains(n) ==> without(s, n) == s
  decreases s.len()
{
  reveal(Seq::filter);
  if s.len() > 0 {
    let t = s.drop_last(); let z = s.last(); let w = without(t, n);
    lemma_without(t, n);
    assert(s == t.push(z));
    assert(!t.contains(z)) by { if t.contains(z) { let i = choose|i: int| 0 <= i < t.len() && t[i] == z; assert(s[i] == s[s.len() - 1]); } }
    assert(!w.contains(z));
    assert(without(s, n) == (if z != n { w.push(z) } else { w }));
    assert forall|c: Idx| #![trigger without(s, n).contains(c)] without(s, n).contains(c) <==> s.contains(c) && c != n by {
      if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; if i < t.len() { assert(t[i] == c); assert(t.contains(c)); if c != n { assert(w.contains(c)); let j = choose|j: int| 0 <= j < w.len() && w[j] == c; assert(without(s, n)[j] == c); } } else if c != n { assert(without(s, n).last() == c); } }
      if without(s, n).contains(c) { let j = choose|j: int| 0 <= j < without(s, n).len() && without(s, n)[j] == c; if j < w.len() { assert(w[j] == c); assert(w.contains(c)); assert(t.contains(c)); let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i] == c); } else { assert(s[s.len() - 1] == c); } }
    }
    if !s.contains(n) { assert(!t.contains(n)) by { if t.contains(n) { let i = choose|i: int| 0 <= i < t.len() && t[i] == n; assert(s[i] == n); } } assert(z != n) by { assert(s[s.len() - 1] == z); } assert(w == t); }
  } else { assert(without(s, n) =~= Seq::empty()); assert(s =~= Seq::<Idx>::empty()); }
}'''
KEEPWF = 'final(self).wf(),'
LEM['lemma_up'] = '''
pub proof fn lemma_up(h: Hierarchy, x: Idx, k: nat) requires h.up(x, k) is Some ensures h.up(x, k)->0 == h.up(x, k)->0, forall|j: nat| #![trigger h.up(x, j)] j <= k ==> h.up(x, j) is Some decreases k { if k > 0 { lemma_up(h, x, (k - 1) as nat); } }'''
LEM['lemma_step'] = '''
pub proof fn lemma_step(h: Hierarchy, x: Idx, n: Idx)
  ensures h.within(x, x), h.par(x) matches Some(p) ==> (h.within(p, n) ==> h.within(x, n)) && (h.within(x, n) && x != n ==> h.within(p, n)), h.par(x) is None && h.within(x, n) ==> x == n
{
  assert(h.up(x, 0) == Some(x));
  if h.par(x) is Some { let p = h.par(x)->0;
    if h.within(p, n) { let k = choose|k: nat| #[trigger] h.up(p, k) == Some(n); lemma_shift(h, x, p, k); assert(h.up(x, k + 1) == Some(n)); }
    if h.within(x, n) && x != n { let k = choose|k: nat| #[trigger] h.up(x, k) == Some(n); assert(k > 0); lemma_shift(h, x, p, (k - 1) as nat); assert(h.up(p, (k - 1) as nat) == Some(n)); }
  } else if h.within(x, n) { let k = choose|k: nat| #[trigger] h.up(x, k) == Some(n); if k > 0 { lemma_up(h, x, k); assert(h.up(x, 1) is Some); assert(h.up(x, 1) == h.par(x)) by { reveal_with_fuel(Hierarchy::up, 2); } } }
}
pub proof fn lemma_shift(h: Hierarchy, x: Idx, p: Idx, k: nat) requires h.par(x) == Some(p) ensures h.up(x, k + 1) == h.up(p, k) decreases k
{ reveal_with_fuel(Hierarchy::up, 2); if k > 0 { lemma_shift(h, x, p, (k - 1) as nat); } }'''
LEM['lemma_attach'] = '''
/// putting a parentless node under a node that is not inside it keeps the tree a tree
pub proof fn lemma_attach(o: Hierarchy, n: Hierarchy, c: Idx, p: Idx)
  requires o.wf(), o.par(c) is None, !o.within(p, c), forall|i: Idx| #![trigger n.par(i)] n.par(i) == (if i == c { Some(p) } else { o.par(i) })
  ensures n.ranked()
{
  let h = choose|h: spec_fn(Idx) -> nat| #[trigger] o.rank(h);
  let g = |x: Idx| if o.within(x, c) { h(x) + h(p) + 1 } else { h(x) };
  assert forall|x: Idx| #![trigger n.par(x)] n.par(x) matches Some(q) implies g(n.par(x)->0) < g(x) by { lemma_step(o, x, c); if x != c { let q = n.par(x)->0; assert(o.par(x) == Some(q)); } else { lemma_step(o, c, c); } }
  assert(n.rank(g));
}'''
LEM['lemma_pushed'] = '''
pub proof fn lemma_pushed(o: Hierarchy, n: Hierarchy, c: Idx, p: Idx)
  requires o.wf(), o.par(c) is None, !o.within(p, c), n.pushed(&o, c, p)
  ensures n.wf()
{
  lemma_attach(o, n, c, p);
  assert forall|q: Idx, x: Idx| #![trigger n.kids(q).contains(x)] n.kids(q).contains(x) <==> n.par(x) == Some(q) by {
    assert(o.kids(q).contains(x) <==> o.par(x) == Some(q));
    if q == p { if n.kids(q).contains(x) { let i = choose|i: int| 0 <= i < n.kids(q).len() && n.kids(q)[i] == x; if i < o.kids(q).len() { assert(o.kids(q)[i] == x); } } if x == c { assert(n.kids(q).last() == c); } if o.kids(q).contains(x) { let i = choose|i: int| 0 <= i < o.kids(q).len() && o.kids(q)[i] == x; assert(n.kids(q)[i] == x); } }
  }
  assert forall|q: Idx| #![trigger n.kids(q)] n.kids(q).no_duplicates() by { assert(o.kids(q).no_duplicates()); if q == p { assert(o.kids(q).contains(c) <==> o.par(c) == Some(q)); assert(!o.kids(q).contains(c)); } }
}'''
LEM['lemma_detached'] = '''
pub proof fn lemma_detached(o: Hierarchy, n: Hierarchy, c: Idx)
  requires o.wf(), n.detached(&o, c)
  ensures n.wf(), forall|x: Idx, y: Idx| #![trigger n.within(x, y)] n.within(x, y) ==> o.within(x, y)
{
  let h = choose|h: spec_fn(Idx) -> nat| #[trigger] o.rank(h);
  assert(n.rank(h)) by { assert forall|x: Idx| #![trigger n.par(x)] n.par(x) matches Some(p) implies h(n.par(x)->0) < h(x) by { assert(o.par(x) == n.par(x)); } }
  assert forall|q: Idx, x: Idx| #![trigger n.kids(q).contains(x)] n.kids(q).contains(x) <==> n.par(x) == Some(q) by { assert(o.kids(q).no_duplicates()); lemma_without(o.kids(q), c); assert(o.kids(q).contains(x) <==> o.par(x) == Some(q)); assert(without(o.kids(q), c).contains(x) <==> n.kids(q).contains(x)); }
  assert forall|q: Idx| #![trigger n.kids(q)] n.kids(q).no_duplicates() by { assert(o.kids(q).no_duplicates()); lemma_without(o.kids(q), c); }
  assert forall|x: Idx, y: Idx| #![trigger n.within(x, y)] n.within(x, y) implies o.within(x, y) by { let k = choose|k: nat| #[trigger] n.up(x, k) == Some(y); lemma_fewer(o, n, x, k); assert(o.up(x, k) == Some(y)); }
}
pub proof fn lemma_fewer(o: Hierarchy, n: Hierarchy, x: Idx, k: nat) requires n.up(x, k) is Some, forall|i: Idx| #![trigger n.par(i)] n.par(i) is Some ==> n.par(i) == o.par(i) ensures o.up(x, k) == n.up(x, k) decreases k { if k > 0 { lemma_up(n, x, k); assert(n.up(x, (k - 1) as nat) is Some); lemma_fewer(o, n, x, (k - 1) as nat); } }'''
LEM['lemma_childless'] = '''
pub proof fn lemma_childless(h: Hierarchy, p: Idx, c: Idx) requires h.wf(), h.kids(c).len() == 0, p != c ensures !h.within(p, c)
{
  if h.within(p, c) { let k = choose|k: nat| #[trigger] h.up(p, k) == Some(c); assert(k > 0); lemma_up(h, p, k); let y = h.up(p, (k - 1) as nat)->0; assert(h.par(y) == Some(c)); assert(h.kids(c).contains(y)); }
}'''
LEM['lemma_beside'] = '''
pub proof fn lemma_beside(o: Hierarchy, n: Hierarchy, c: Idx, s: Idx, after: bool)
  requires o.wf(), o.par(c) is None, o.par(s) is Some, !o.within(o.par(s)->0, c), n.beside(&o, c, s, after)
  ensures n.wf()
{
  let p = o.par(s)->0; lemma_attach(o, n, c, p);
  let k = o.kids(p); assert(k.contains(s)); let at = k.index_of(s) + (if after { 1int } else { 0 });
  assert(0 <= k.index_of(s) < k.len()) by { k.index_of_first_ensures(s); }
  assert forall|q: Idx, x: Idx| #![trigger n.kids(q).contains(x)] n.kids(q).contains(x) <==> n.par(x) == Some(q) by {
    assert(o.kids(q).contains(x) <==> o.par(x) == Some(q));
    if q == p { lemma_inserted(k, at, c, x); }
  }
  assert forall|q: Idx| #![trigger n.kids(q)] n.kids(q).no_duplicates() by { assert(o.kids(q).no_duplicates()); if q == p { assert(o.kids(q).contains(c) <==> o.par(c) == Some(q)); lemma_inserted(k, at, c, c); } }
}
pub proof fn lemma_inserted(k: Seq<Idx>, at: int, c: Idx, x: Idx) requires 0 <= at <= k.len() ensures k.insert(at, c).contains(x) <==> k.contains(x) || x == c, k.no_duplicates() && !k.contains(c) ==> k.insert(at, c).no_duplicates()
{
  let n = k.insert(at, c);
  assert(n[at] == c);
  if k.contains(x) { let i = choose|i: int| 0 <= i < k.len() && k[i] == x; assert(n[if i < at { i } else { i + 1 }] == x); }
  if n.contains(x) { let i = choose|i: int| 0 <= i < n.len() && n[i] == x; if i < at { assert(k[i] == x); } else if i > at { assert(k[i - 1] == x); } }
}'''
BASE = [(r'Self::Node', 'Node'), (r'impl Into<Port>', 'Port'), (r'impl Into<OutgoingPort>', 'OutgoingPort'), (r'impl Into<IncomingPort>', 'IncomingPort'), (r'impl Into<OpType>', 'OpType'), (r'impl Into<NodeMetadata>', 'Json'), (r'impl AsRef<str>', '&Key'), (r'key\.as_ref\(\)', 'key'),
        (r'&mut NodeMetadata\b', '&mut Json'), (r'\b(node|nodetype|op|port|src_port|dst_port|metadata)\.into\(\)', r'\1'), (r'self\.(entrypoint|module_root)\.into\(\)', r'self.\1'), (r'self\.as_mut\(\)', 'self'), (r'\.map\(Into::into\)', ''), (r'\.map_into\(\)', ''), (r'debug_assert!\((?:[^()]|\([^()]*\))*\);', ''),
        (r', \|_, _\| \{\}\)', ')'), (r'compact_nodes\(\|_, _\| \{\}\)', 'compact_nodes()'), (r'self\.op_types\[(\w+)\] = (\w+);', r'self.op_types.set(\1, \2);'),
        (r'(?s)assert!\(\s*(.*?),\s*"[^"]*",?\s*\);', r'if !(\1) { never() }'), (r'panic!\([^;]*?\);', 'never();'), (r'panic!\([^;{}]*\)', 'never()'),
        (r'panic_invalid_port\(self, (\w+), (src_port|dst_port)\)', r'panic_invalid_port(self, \1, \2.port())'), (r'<H: HugrView \+ \?Sized>', ''), (r'&H\b', '&Hugr'), (r'H::Node', 'Node'), (r'pub\((?:super|crate|in [^)]*)\) ', 'pub '),
        (r'impl DoubleEndedIterator<Item = Node> \+ Clone', 'Vec<Node>'), (r'std::mem::replace', 'core::mem::replace')]
LEM['lemma_same'] = '''
pub proof fn lemma_same(o: Hierarchy, n: Hierarchy, x: Idx, y: Idx) requires n.same(&o) ensures n.within(x, y) == o.within(x, y)
{
  if n.within(x, y) { let k = choose|k: nat| #[trigger] n.up(x, k) == Some(y); lemma_fewer(o, n, x, k); assert(o.up(x, k) == Some(y)); }
  if o.within(x, y) { let k = choose|k: nat| #[trigger] o.up(x, k) == Some(y); lemma_fewer(n, o, x, k); assert(n.up(x, k) == Some(y)); }
}'''
LEM['lemma_gone'] = '''
pub proof fn lemma_gone(o: Hierarchy, n: Hierarchy, c: Idx)
  requires o.wf(), forall|i: Idx| #![trigger n.par(i)] n.par(i) == (if i == c || o.par(i) == Some(c) { None } else { o.par(i) }), forall|i: Idx| #![trigger n.kids(i)] n.kids(i) == (if i == c { Seq::empty() } else { without(o.kids(i), c) })
  ensures n.wf()
{
  let h = choose|h: spec_fn(Idx) -> nat| #[trigger] o.rank(h);
  assert(n.rank(h)) by { assert forall|x: Idx| #![trigger n.par(x)] n.par(x) matches Some(p) implies h(n.par(x)->0) < h(x) by { assert(o.par(x) == n.par(x)); } }
  assert forall|q: Idx, x: Idx| #![trigger n.kids(q).contains(x)] n.kids(q).contains(x) <==> n.par(x) == Some(q) by { assert(o.kids(q).no_duplicates()); lemma_without(o.kids(q), c); assert(o.kids(q).contains(x) <==> o.par(x) == Some(q)); assert(without(o.kids(q), c).contains(x) <==> o.kids(q).contains(x) && x != c); }
  assert forall|q: Idx| #![trigger n.kids(q)] n.kids(q).no_duplicates() by { assert(o.kids(q).no_duplicates()); lemma_without(o.kids(q), c); }
}'''
LEM['lemma_live'] = '''
pub proof fn lemma_live(g: Hugr, n: Idx) requires g.wf(), g.par(n) is Some ensures g.live(n), g.live(g.par(n)->0), g.kids(g.par(n)->0).contains(n)
{ let p = g.par(n)->0; assert(g.hierarchy.kids(p).contains(n)); assert(g.graph.live(p) || g.kids(p).len() == 0); assert(g.graph.live(n) || g.par(n) is None); }'''
LEM['lemma_ranked'] = '''
pub proof fn lemma_ranked(o: Hierarchy, h: spec_fn(Idx) -> nat, x: Idx, k: nat) requires o.rank(h), o.up(x, k) is Some ensures h(o.up(x, k)->0) + k <= h(x) decreases k
{ if k > 0 { lemma_up(o, x, k); let y = o.up(x, (k - 1) as nat)->0; lemma_ranked(o, h, x, (k - 1) as nat); assert(o.par(y) is Some); } }
/// a node is not inside its child
pub proof fn lemma_no_loop(o: Hierarchy, p: Idx, c: Idx) requires o.wf(), o.par(c) == Some(p) ensures !o.within(p, c)
{ let h = choose|h: spec_fn(Idx) -> nat| #[trigger] o.rank(h); if o.within(p, c) { let k = choose|k: nat| #[trigger] o.up(p, k) == Some(c); lemma_ranked(o, h, p, k); assert(h(p) < h(c)) by { assert(o.par(c) is Some); } } }'''
LEM['Subtree'] = '''
/// part of the way through removing the subtree under `top`: `q` lists what is to go next
#[verifier::opaque] pub open spec fn going(c: Hugr, o: Hugr, q: Seq<Node>, top: Node) -> bool {
  &&& c.same_ends(&o)
  &&& forall|x: Idx| #![trigger c.graph.live(x)] (c.live(x) ==> o.live(x)) && (o.live(x) && !c.live(x) ==> o.hierarchy.within(x, top))
  &&& q.no_duplicates()
  &&& forall|x: Idx| #![trigger q.contains(x)] q.contains(x) ==> c.live(x) && o.hierarchy.within(x, top) && (x == top || (o.par(x) matches Some(p) && o.live(p) && !c.live(p)))
  &&& forall|x: Idx| #![trigger c.graph.live(x)] c.live(x) && o.hierarchy.within(x, top) && !q.contains(x) ==> x != top && (o.par(x) matches Some(p) && c.live(p))
  &&& forall|x: Idx| #![trigger c.hierarchy.kids(x)] c.live(x) ==> c.kids(x) == (if o.hierarchy.within(x, top) || c.live(top) { o.kids(x) } else { without(o.kids(x), top) })
  &&& forall|x: Idx| #![trigger c.hierarchy.par(x)] !o.hierarchy.within(x, top) ==> c.par(x) == o.par(x)
  &&& forall|x: Idx| #![trigger c.graph.ins(x)] #![trigger c.graph.outs(x)] c.live(x) ==> c.graph.ins(x) == o.graph.ins(x) && c.graph.outs(x) == o.graph.outs(x)
  &&& forall|l: Link| #![trigger c.graph.cnt(l)] c.graph.cnt(l) == (if c.live(l.s) && c.live(l.t) { o.graph.cnt(l) } else { 0 })
  &&& forall|x: Idx| #![trigger c.op_types.at(x)] c.live(x) ==> c.op(x) == o.op(x)
  &&& forall|x: Idx, k: Key| #![trigger c.meta(x, k)] c.live(x) ==> c.meta(x, k) == o.meta(x, k)
}
/// `top` and everything inside it has gone, and nothing else
pub open spec fn cut(c: Hugr, o: Hugr, top: Node) -> bool {
  &&& c.same_ends(&o)
  &&& forall|x: Idx| #![trigger c.graph.live(x)] c.live(x) == (o.live(x) && !o.hierarchy.within(x, top))
  &&& forall|x: Idx| #![trigger c.hierarchy.kids(x)] c.live(x) ==> c.kids(x) == without(o.kids(x), top)
  &&& forall|x: Idx| #![trigger c.hierarchy.par(x)] c.live(x) ==> c.par(x) == o.par(x)
  &&& forall|x: Idx| #![trigger c.graph.ins(x)] #![trigger c.graph.outs(x)] c.live(x) ==> c.graph.ins(x) == o.graph.ins(x) && c.graph.outs(x) == o.graph.outs(x)
  &&& forall|l: Link| #![trigger c.graph.cnt(l)] c.graph.cnt(l) == (if o.hierarchy.within(l.s, top) || o.hierarchy.within(l.t, top) { 0 } else { o.graph.cnt(l) })
  &&& forall|x: Idx| #![trigger c.op_types.at(x)] c.live(x) ==> c.op(x) == o.op(x)
  &&& forall|x: Idx, k: Key| #![trigger c.meta(x, k)] c.live(x) ==> c.meta(x, k) == o.meta(x, k)
}
pub proof fn lemma_start(o: Hugr, q: Seq<Node>, top: Node) requires o.wf(), o.live(top), q == seq![top] ensures going(o, o, q, top)
{
  reveal(going); assert(q[0] == top); assert(q.contains(top)); lemma_step(o.hierarchy, top, top);
  assert forall|x: Idx| #![trigger o.graph.live(x)] o.live(x) && o.hierarchy.within(x, top) && !q.contains(x) implies x != top && (o.par(x) matches Some(p) && o.live(p)) by { lemma_step(o.hierarchy, x, top); if o.par(x) is Some { lemma_live(o, x); } }
  assert forall|l: Link| #![trigger o.graph.cnt(l)] o.graph.cnt(l) == (if o.live(l.s) && o.live(l.t) { o.graph.cnt(l) } else { 0 }) by { }
}
pub proof fn lemma_next(o: Hugr, c: Hugr, d: Hugr, q: Seq<Node>, r: Seq<Node>, top: Node)
  requires o.wf(), c.wf(), going(c, o, q, top), q.len() > 0, d.removed(&c, q[0]), r == q.drop_first() + c.kids(q[0])
  ensures going(d, o, r, top)
{
  reveal(going);
  let n = q[0]; let w = |x: Idx| o.hierarchy.within(x, top); let k = c.kids(n);
  assert(q.contains(n)); assert(k == o.kids(n)); assert(o.hierarchy.kids(n).no_duplicates());
  assert forall|x: Idx| k.contains(x) implies c.live(x) && o.hierarchy.within(x, top) && o.par(x) == Some(n) && !q.contains(x) && x != top by {
    assert(o.hierarchy.kids(n).contains(x)); lemma_step(o.hierarchy, x, top); assert(c.hierarchy.kids(n).contains(x)); lemma_live(c, x);
    if x == top { lemma_no_loop(o.hierarchy, n, x); } lemma_live(o, x); }
  let t = q.drop_first();
  assert forall|x: Idx| #![trigger r.contains(x)] r.contains(x) <==> (q.contains(x) && x != n) || k.contains(x) by {
    if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i < t.len() { assert(q[i + 1] == x); assert(q.contains(x)); } else { assert(k[i - t.len()] == x); assert(k.contains(x)); } }
    if q.contains(x) && x != n { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(r[i - 1] == x); }
    if k.contains(x) { let i = choose|i: int| 0 <= i < k.len() && k[i] == x; assert(r[t.len() + i] == x); }
  }
  assert(r.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
    if i < t.len() && j < t.len() { assert(q[i + 1] != q[j + 1]); } else if i >= t.len() && j >= t.len() { assert(k[i - t.len()] != k[j - t.len()]); }
    else if i < t.len() { assert(q.contains(q[i + 1])); assert(k.contains(k[j - t.len()])); } else { assert(q.contains(q[j + 1])); assert(k.contains(k[i - t.len()])); } } }
  assert forall|x: Idx| #![trigger d.graph.live(x)] d.live(x) && o.hierarchy.within(x, top) && !r.contains(x) implies x != top && (o.par(x) matches Some(p) && d.live(p)) by {
    assert(c.graph.live(x)); if !q.contains(x) { let p = o.par(x)->0; if p == n { assert(o.hierarchy.kids(n).contains(x)); assert(k.contains(x)); } } }
  assert forall|x: Idx| #![trigger d.hierarchy.kids(x)] d.live(x) implies d.kids(x) == (if o.hierarchy.within(x, top) || d.live(top) { o.kids(x) } else { without(o.kids(x), top) }) by {
    assert(o.hierarchy.kids(x).no_duplicates()); lemma_without(o.kids(x), n); lemma_without(o.kids(x), top); assert(d.kids(x) == without(c.kids(x), n)); assert(c.graph.live(x));
    let prev = c.kids(x); assert(c.hierarchy.kids(x).no_duplicates()); lemma_without(prev, n);
    if n != top { let p = o.par(n)->0; assert(!prev.contains(n)) by { if prev.contains(n) { assert(o.kids(x).contains(n)); assert(o.hierarchy.kids(x).contains(n)); assert(o.par(n) == Some(x)); } } assert(!c.live(top) || c.live(top)); }
    else { if o.hierarchy.within(x, top) { assert(!prev.contains(n)) by { if prev.contains(n) { assert(o.hierarchy.kids(x).contains(n)); lemma_no_loop(o.hierarchy, x, top); } } } }
  }
  assert forall|x: Idx| #![trigger d.hierarchy.par(x)] !o.hierarchy.within(x, top) implies d.par(x) == o.par(x) by { assert(c.hierarchy.par(x) == o.par(x)); lemma_step(o.hierarchy, x, top); }
}
pub proof fn lemma_path(o: Hugr, c: Hugr, top: Node, x: Node, k: nat) requires going(c, o, Seq::empty(), top), o.hierarchy.up(x, k) == Some(top), c.live(x) ensures false decreases k
{
  reveal(going); assert(o.hierarchy.within(x, top)); assert(!Seq::<Node>::empty().contains(x));
  if k > 0 { let p = o.par(x)->0; lemma_shift(o.hierarchy, x, p, (k - 1) as nat); lemma_path(o, c, top, p, (k - 1) as nat); }
}
pub proof fn lemma_end(o: Hugr, c: Hugr, q: Seq<Node>, top: Node) requires o.wf(), c.wf(), going(c, o, q, top), q.len() == 0 ensures cut(c, o, top)
{
  assert(q =~= Seq::empty());
  assert forall|x: Idx| #![trigger c.graph.live(x)] c.live(x) == (o.live(x) && !o.hierarchy.within(x, top)) by { reveal(going); if c.live(x) && o.hierarchy.within(x, top) { let k = choose|k: nat| #[trigger] o.hierarchy.up(x, k) == Some(top); lemma_path(o, c, top, x, k); } }
  reveal(going); lemma_step(o.hierarchy, top, top);
  assert forall|x: Idx| #![trigger c.hierarchy.par(x)] c.live(x) implies c.par(x) == o.par(x) by { assert(c.graph.live(x)); }
  assert forall|x: Idx| #![trigger c.hierarchy.kids(x)] c.live(x) implies c.kids(x) == without(o.kids(x), top) by { assert(c.graph.live(x)); assert(!c.graph.live(top)); }
  assert forall|l: Link| #![trigger c.graph.cnt(l)] c.graph.cnt(l) == (if o.hierarchy.within(l.s, top) || o.hierarchy.within(l.t, top) { 0 } else { o.graph.cnt(l) }) by { assert(c.graph.live(l.s) || !c.graph.live(l.s)); assert(c.graph.live(l.t) || !c.graph.live(l.t)); assert(o.graph.cnt(l) > 0 ==> o.live(l.s) && o.live(l.t)); }
}'''
def of(s, rx, name):
    k = 0
    while True:
        x = s.impl(rx, nth=k); k += 1
        try: return s.fn(name, x)
        except AnchorLost: pass
FOREST = """
#[verifier::ext_equal] pub ghost struct Wire<N> { pub s: N, pub o: int, pub t: N, pub i: int }
pub open spec fn occ_out<N>(v: Seq<(N, OutgoingPort)>, s: N, o: int) -> nat decreases v.len() { if v.len() == 0 { 0 } else { occ_out(v.drop_last(), s, o) + one(v.last().0 == s && v.last().1.at == o) } }
pub open spec fn occ_in<N>(v: Seq<(N, IncomingPort)>, t: N, i: int) -> nat decreases v.len() { if v.len() == 0 { 0 } else { occ_in(v.drop_last(), t, i) + one(v.last().0 == t && v.last().1.at == i) } }
/// any graph that can be read
pub trait Source<N> {
  spec fn has(&self, n: N) -> bool;
  spec fn above(&self, n: N) -> Option<N>;
  spec fn depth(&self, n: N) -> nat;
  spec fn inputs(&self, n: N) -> nat;
  spec fn outputs(&self, n: N) -> nat;
  spec fn wires(&self, w: Wire<N>) -> nat;
  spec fn operation(&self, n: N) -> OpType;
  spec fn datum(&self, n: N, k: Key) -> Option<Json>;
  spec fn registry(&self) -> ExtensionRegistry;
  fn num_inputs(&self, n: N) -> (r: usize) ensures r == self.inputs(n);
  fn num_outputs(&self, n: N) -> (r: usize) ensures r == self.outputs(n);
  fn node_inputs(&self, n: N) -> (r: Vec<IncomingPort>) ensures r.len() == self.inputs(n), forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> r@[j].at == j;
  fn node_outputs(&self, n: N) -> (r: Vec<OutgoingPort>) ensures r.len() == self.outputs(n), forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> r@[j].at == j;
  fn linked_outputs(&self, n: N, p: IncomingPort) -> (r: Vec<(N, OutgoingPort)>) ensures forall|s: N, o: int| #![trigger occ_out(r@, s, o)] occ_out(r@, s, o) == self.wires(Wire { s, o, t: n, i: p.at as int });
  fn linked_inputs(&self, n: N, p: OutgoingPort) -> (r: Vec<(N, IncomingPort)>) ensures forall|t: N, i: int| #![trigger occ_in(r@, t, i)] occ_in(r@, t, i) == self.wires(Wire { s: n, o: p.at as int, t, i });
  fn get_parent(&self, n: N) -> (r: Option<N>) ensures r == self.above(n);
  fn get_optype(&self, n: N) -> (r: &OpType) requires self.has(n) ensures *r == self.operation(n);
  fn node_metadata_map(&self, n: N) -> (r: &NodeMetadataMap) requires self.has(n) ensures forall|k: Key| #![trigger r.at(k)] r.at(k) == self.datum(n, k);
  fn extensions(&self) -> (r: &ExtensionRegistry) ensures *r == self.registry();
  spec fn inside(&self, x: N, n: N) -> bool;
  spec fn entry(&self) -> N;
  fn entrypoint(&self) -> (r: N) ensures r == self.entry();
  fn descendants(&self, n: N) -> (r: Vec<N>) requires self.has(n) ensures r@.no_duplicates(), r@.contains(n), forall|x: N| #![trigger r@.contains(x)] r@.contains(x) <==> self.inside(x, n), forall|x: N| #![trigger r@.contains(x)] r@.contains(x) ==> self.has(x);
}
pub open spec fn vok<N, H: Source<N>>(h: H) -> bool {
  &&& forall|w: Wire<N>| #![trigger h.wires(w)] h.wires(w) > 0 ==> h.has(w.s) && h.has(w.t) && 0 <= w.o < h.outputs(w.s) && 0 <= w.i < h.inputs(w.t)
  &&& forall|n: N| #![trigger h.above(n)] h.above(n) matches Some(p) ==> h.depth(p) < h.depth(n) && h.has(p)
}
impl Source<Idx> for Hugr {
  open spec fn has(&self, n: Idx) -> bool { self.live(n) }
  open spec fn above(&self, n: Idx) -> Option<Idx> { if n == self.module_root { None } else { self.par(n) } }
  open spec fn depth(&self, n: Idx) -> nat { (choose|h: spec_fn(Idx) -> nat| #[trigger] self.hierarchy.rank(h))(n) }
  open spec fn inputs(&self, n: Idx) -> nat { self.graph.ins(n) }
  open spec fn outputs(&self, n: Idx) -> nat { self.graph.outs(n) }
  open spec fn wires(&self, w: Wire<Idx>) -> nat { self.graph.cnt(Link { s: w.s, o: w.o, t: w.t, i: w.i }) }
  open spec fn operation(&self, n: Idx) -> OpType { self.op(n) }
  open spec fn datum(&self, n: Idx, k: Key) -> Option<Json> { self.meta(n, k) }
  open spec fn registry(&self) -> ExtensionRegistry { self.extensions }
  open spec fn inside(&self, x: Idx, n: Idx) -> bool { self.hierarchy.within(x, n) }
  open spec fn entry(&self) -> Idx { self.entrypoint }
  #[verifier::external_body] fn num_inputs(&self, n: Idx) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] fn num_outputs(&self, n: Idx) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] fn node_inputs(&self, n: Idx) -> (r: Vec<IncomingPort>) { unimplemented!() }
  #[verifier::external_body] fn node_outputs(&self, n: Idx) -> (r: Vec<OutgoingPort>) { unimplemented!() }
  #[verifier::external_body] fn linked_outputs(&self, n: Idx, p: IncomingPort) -> (r: Vec<(Idx, OutgoingPort)>) { unimplemented!() }
  #[verifier::external_body] fn linked_inputs(&self, n: Idx, p: OutgoingPort) -> (r: Vec<(Idx, IncomingPort)>) { unimplemented!() }
  #[verifier::external_body] fn get_parent(&self, n: Idx) -> (r: Option<Idx>) { unimplemented!() }
  #[verifier::external_body] fn get_optype(&self, n: Idx) -> (r: &OpType) { unimplemented!() }
  #[verifier::external_body] fn node_metadata_map(&self, n: Idx) -> (r: &NodeMetadataMap) { unimplemented!() }
  #[verifier::external_body] fn extensions(&self) -> (r: &ExtensionRegistry) { unimplemented!() }
  #[verifier::external_body] fn entrypoint(&self) -> (r: Idx) { unimplemented!() }
  #[verifier::external_body] fn descendants(&self, n: Idx) -> (r: Vec<Idx>) { unimplemented!() }
}
pub proof fn lemma_vok(g: Hugr) requires g.wf() ensures vok::<Idx, Hugr>(g)
{
  let h = choose|h: spec_fn(Idx) -> nat| #[trigger] g.hierarchy.rank(h);
  assert forall|n: Idx| #![trigger Source::<Idx>::above(&g, n)] Source::<Idx>::above(&g, n) matches Some(p) implies Source::<Idx>::depth(&g, Source::<Idx>::above(&g, n)->0) < Source::<Idx>::depth(&g, n) && Source::<Idx>::has(&g, Source::<Idx>::above(&g, n)->0) by { assert(g.hierarchy.par(n) is Some); lemma_live(g, n); }
  assert forall|w: Wire<Idx>| #![trigger Source::<Idx>::wires(&g, w)] Source::<Idx>::wires(&g, w) > 0 implies Source::<Idx>::has(&g, w.s) && Source::<Idx>::has(&g, w.t) && 0 <= w.o < Source::<Idx>::outputs(&g, w.s) && 0 <= w.i < Source::<Idx>::inputs(&g, w.t) by { }
}
#[verifier::external_body] pub fn hint<N>(v: &Vec<N>) -> usize { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(N)] pub struct NodeMap<N> { _p: core::marker::PhantomData<N> }
impl<N> NodeMap<N> {
  pub uninterp spec fn m(&self) -> Map<N, Idx>;
  #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.m() == Map::<N, Idx>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: N, v: Idx) -> (r: Option<Idx>) ensures final(self).m() == old(self).m().insert(k, v), r is Some == old(self).m().dom().contains(k) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &N) -> (r: Option<&Idx>) ensures match r { Some(v) => self.m().dom().contains(*k) && *v == self.m()[*k], None => !self.m().dom().contains(*k) } { unimplemented!() }
  #[verifier::external_body] pub fn index(&self, k: N) -> (r: Idx) requires self.m().dom().contains(k) ensures r == self.m()[k] { unimplemented!() }
  /// the entries, in the order the map is traversed
  #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(N, Idx)>) ensures forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> self.m().dom().contains(r@[j].0) && self.m()[r@[j].0] == r@[j].1, forall|k: N| #![trigger self.m().dom().contains(k)] self.m().dom().contains(k) ==> exists|j: int| 0 <= j < r.len() && #[trigger] r@[j] == (k, self.m()[k]), forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] r@[i].0 != #[trigger] r@[j].0 { unimplemented!() }
}
#[verifier::reject_recursive_types(N)] pub struct InsertedForest<N> { pub node_map: NodeMap<N> }
pub enum InsertForestError<N> { DuplicateNode(N), SubtreeAlreadyCopied { subtree: N, parent: N } }
/// where a node ends up after being put under one parent after another
pub open spec fn par_of(l: Seq<(Idx, Idx)>, base: Option<Idx>, x: Idx) -> Option<Idx> decreases l.len() { if l.len() == 0 { base } else if l.last().0 == x { Some(l.last().1) } else { par_of(l.drop_last(), base, x) } }
pub open spec fn kids_of(l: Seq<(Idx, Idx)>, base: Seq<Idx>, i: Idx) -> Seq<Idx> decreases l.len() { if l.len() == 0 { base } else { let w = without(kids_of(l.drop_last(), base, i), l.last().0); if l.last().1 == i { w.push(l.last().0) } else { w } } }
/// the pairs in `r` as nodes here
pub open spec fn placed_roots<N>(m: Map<N, Idx>, r: Seq<(N, Idx)>) -> Seq<(Idx, Idx)> { Seq::new(r.len(), |j: int| (m[r[j].0], r[j].1)) }
pub open spec fn listed<N>(r: Seq<(N, Idx)>, n: N) -> bool { exists|j: int| 0 <= j < r.len() && #[trigger] r[j].0 == n }
/// nodes placed under their old parent, in order
pub open spec fn rest_of<N, H: Source<N>>(h: H, m: Map<N, Idx>, r: Seq<(N, Idx)>, ns: Seq<N>) -> Seq<(Idx, Idx)> decreases ns.len() {
  if ns.len() == 0 { Seq::empty() } else { let t = rest_of(h, m, r, ns.drop_last()); let n = ns.last(); match h.above(n) { Some(p) => if !listed(r, n) && m.dom().contains(p) { t.push((m[n], m[p])) } else { t }, None => t } } }
pub open spec fn img<N>(m: Map<N, Idx>, w: Wire<N>) -> Link { Link { s: m[w.s], o: w.o, t: m[w.t], i: w.i } }
pub open spec fn both<N>(m: Map<N, Idx>, w: Wire<N>) -> bool { m.dom().contains(w.s) && m.dom().contains(w.t) }
pub open spec fn new_here<N>(m: Map<N, Idx>, x: Idx) -> bool { exists|n: N| #[trigger] m.dom().contains(n) && m[n] == x }
/// the copies are new nodes, all different; the nodes that were here are as they were
pub open spec fn copies<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>) -> bool {
  &&& forall|a: N, b: N| #![trigger m.dom().contains(a), m.dom().contains(b)] m.dom().contains(a) && m.dom().contains(b) && a != b ==> m[a] != m[b]
  &&& forall|a: N| #![trigger m.dom().contains(a)] m.dom().contains(a) ==> !o.live(m[a]) && g.graph.ins(m[a]) == h.inputs(a) && g.graph.outs(m[a]) == h.outputs(a)
  &&& forall|x: Idx| #![trigger g.graph.live(x)] g.live(x) <==> (o.live(x) || new_here(m, x))
  &&& forall|x: Idx| #![trigger g.graph.ins(x)] #![trigger g.graph.outs(x)] o.live(x) ==> g.graph.ins(x) == o.graph.ins(x) && g.graph.outs(x) == o.graph.outs(x)
  &&& g.module_root == o.module_root && g.entrypoint == o.entrypoint
}
/// exactly the links between copied nodes are added
pub open spec fn wired<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>) -> bool {
  &&& forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) ==> g.graph.cnt(img(m, w)) == h.wires(w)
  &&& forall|l: Link| #![trigger g.graph.cnt(l)] !new_here(m, l.s) || !new_here(m, l.t) ==> g.graph.cnt(l) == o.graph.cnt(l)
}
/// so far: links into ports before `t` of `old`, and those in `d` into port t
pub open spec fn half_in<N, H: Source<N>>(h: H, old: N, t: int, d: Seq<(N, OutgoingPort)>, w: Wire<N>) -> nat {
  if w.t == old { if w.i < t { h.wires(w) } else if w.i == t { occ_out(d, w.s, w.o) } else { 0 } } else if w.s == old { 0 } else { h.wires(w) } }
pub open spec fn half_out<N, H: Source<N>>(h: H, old: N, t: int, d: Seq<(N, IncomingPort)>, w: Wire<N>) -> nat {
  if w.s == old && w.t != old { if w.o < t { h.wires(w) } else if w.o == t { occ_in(d, w.t, w.i) } else { 0 } } else { h.wires(w) } }
pub open spec fn w_in<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, d: Seq<(N, OutgoingPort)>) -> bool {
  &&& forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) ==> g.graph.cnt(img(m, w)) == half_in(h, old, t, d, w)
  &&& forall|l: Link| #![trigger g.graph.cnt(l)] !new_here(m, l.s) || !new_here(m, l.t) ==> g.graph.cnt(l) == o.graph.cnt(l)
}
pub open spec fn w_out<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, d: Seq<(N, IncomingPort)>) -> bool {
  &&& forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) ==> g.graph.cnt(img(m, w)) == half_out(h, old, t, d, w)
  &&& forall|l: Link| #![trigger g.graph.cnt(l)] !new_here(m, l.s) || !new_here(m, l.t) ==> g.graph.cnt(l) == o.graph.cnt(l)
}
#[verifier::opaque] pub open spec fn busy<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>) -> bool { g.wf() && copies(g, o, h, m) && bare(g, o) && g.hierarchy.same(&o.hierarchy) }
#[verifier::opaque] pub open spec fn in_to<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, d: Seq<(N, OutgoingPort)>) -> bool { w_in(g, o, h, m, old, t, d) }
#[verifier::opaque] pub open spec fn out_to<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, d: Seq<(N, IncomingPort)>) -> bool { w_out(g, o, h, m, old, t, d) }
/// what `connect` does to the graph
pub open spec fn linked(b: Hugr, a: Hugr, w: Link) -> bool {
  b.wf() && b.same_nodes(&a) && b.graph.same_ports(&a.graph) && b.same_tree(&a) && b.same_ops(&a) && b.same_meta(&a) && b.same_ends(&a) && forall|l: Link| #![trigger b.graph.cnt(l)] b.graph.cnt(l) == a.graph.cnt(l) + one(l == w) }
pub open spec fn bare(g: Hugr, o: Hugr) -> bool {
  &&& forall|x: Idx| #![trigger g.op_types.at(x)] o.live(x) ==> g.op(x) == o.op(x)
  &&& forall|x: Idx, k: Key| #![trigger g.meta(x, k)] g.meta(x, k) == o.meta(x, k)
  &&& g.extensions == o.extensions
}
pub open spec fn hung(g: Hugr, o: Hugr, l: Seq<(Idx, Idx)>) -> bool { forall|x: Idx| #![trigger g.hierarchy.par(x)] #![trigger g.hierarchy.kids(x)] g.par(x) == par_of(l, o.par(x), x) && g.kids(x) == kids_of(l, o.kids(x), x) }
pub open spec fn covers<N>(m: Map<N, Idx>, ns: Seq<N>) -> bool { forall|n: N| #![trigger m.dom().contains(n)] m.dom().contains(n) <==> ns.contains(n) }
/// what copying `ns` out of `h`, placing `r`, must leave behind; operations and metadata aside
pub open spec fn pasted<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, ns: Seq<N>, r: Seq<(N, Idx)>, m: Map<N, Idx>) -> bool {
  covers(m, ns) && copies(g, o, h, m) && wired(g, o, h, m) && hung(g, o, placed_roots(m, r) + rest_of(h, m, r, ns))
}
pub proof fn lemma_occ_out<N>(v: Seq<(N, OutgoingPort)>, j: int) requires 0 <= j < v.len() ensures occ_out(v, v[j].0, v[j].1.at as int) > 0 decreases v.len() { if j < v.len() - 1 { lemma_occ_out(v.drop_last(), j); assert(v.drop_last()[j] == v[j]); } }
pub proof fn lemma_occ_in<N>(v: Seq<(N, IncomingPort)>, j: int) requires 0 <= j < v.len() ensures occ_in(v, v[j].0, v[j].1.at as int) > 0 decreases v.len() { if j < v.len() - 1 { lemma_occ_in(v.drop_last(), j); assert(v.drop_last()[j] == v[j]); } }
"""
FL = {'forest_busy': '''
pub proof fn lemma_first<N, H: Source<N>>(a: Hugr, f: Hugr, b: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, new: Idx)
  requires o.wf(), a.wf(), vok(h), copies(a, o, h, m), wired(a, o, h, m), bare(a, o), a.hierarchy.same(&o.hierarchy), !m.dom().contains(old),
    f.wf(), f.fresh(&a, new, no_op()), f.same_tree(&a), b.wf(), b.same_nodes(&f), b.same_tree(&f), b.same_ops(&f), b.same_meta(&f), b.same_ends(&f), b.graph.ins(new) == h.inputs(old), b.graph.outs(new) == h.outputs(old),
    forall|x: Idx| #![trigger b.graph.ins(x)] #![trigger b.graph.outs(x)] x != new ==> b.graph.ins(x) == f.graph.ins(x) && b.graph.outs(x) == f.graph.outs(x),
    forall|l: Link| #![trigger b.graph.cnt(l)] b.graph.cnt(l) == (if l.s == new && l.o >= b.graph.outs(new) || l.t == new && l.i >= b.graph.ins(new) { 0 } else { f.graph.cnt(l) })
  ensures busy(b, o, h, m.insert(old, new)), in_to(b, o, h, m.insert(old, new), old, 0, Seq::empty())
{
  reveal(busy); reveal(in_to);
  let k = m.insert(old, new);
  assert(!a.graph.live(new)); assert(!o.live(new)); assert(!new_here(m, new));
  assert forall|x: Idx| #![trigger b.graph.live(x)] b.live(x) <==> (o.live(x) || new_here(k, x)) by {
    assert(f.graph.live(x) == (x == new || a.live(x)));
    if new_here(k, x) { let n = choose|n: N| #[trigger] k.dom().contains(n) && k[n] == x; if n != old { assert(m.dom().contains(n)); assert(m[n] == x); } }
    if new_here(m, x) { let n = choose|n: N| #[trigger] m.dom().contains(n) && m[n] == x; assert(k.dom().contains(n) && k[n] == x); }
    if x == new { assert(k.dom().contains(old) && k[old] == new); }
  }
  assert forall|c: N| #![trigger k.dom().contains(c)] k.dom().contains(c) implies !o.live(k[c]) && b.graph.ins(k[c]) == h.inputs(c) && b.graph.outs(k[c]) == h.outputs(c) && (c != old ==> k[c] != new) by { if c != old { assert(m.dom().contains(c)); assert(new_here(m, m[c])); assert(f.graph.ins(m[c]) == a.graph.ins(m[c])); } }
  assert forall|c: N, d: N| #![trigger k.dom().contains(c), k.dom().contains(d)] k.dom().contains(c) && k.dom().contains(d) && c != d implies k[c] != k[d] by { if c != old && d != old { assert(m.dom().contains(c) && m.dom().contains(d)); } }
  assert(copies(b, o, h, k)) by { assert forall|x: Idx| #![trigger b.graph.ins(x)] #![trigger b.graph.outs(x)] o.live(x) implies b.graph.ins(x) == o.graph.ins(x) && b.graph.outs(x) == o.graph.outs(x) by { assert(f.graph.ins(x) == a.graph.ins(x)); assert(a.graph.ins(x) == o.graph.ins(x)); } }
  assert forall|l: Link| #![trigger b.graph.cnt(l)] b.graph.cnt(l) == a.graph.cnt(l) by { assert(f.graph.cnt(l) == a.graph.cnt(l)); assert(a.graph.cnt(l) > 0 ==> a.live(l.s) && a.live(l.t)); }
  assert forall|w: Wire<N>| #![trigger img(k, w)] both(k, w) implies b.graph.cnt(img(k, w)) == half_in(h, old, 0, Seq::empty(), w) by {
    if w.s != old && w.t != old { assert(both(m, w)); assert(img(m, w) == img(k, w)); } else { assert(a.graph.cnt(img(k, w)) == 0) by { assert(!a.live(new)); } if w.t == old && w.i < 0 { assert(h.wires(w) == 0); } }
  }
  assert forall|l: Link| #![trigger b.graph.cnt(l)] !new_here(k, l.s) || !new_here(k, l.t) implies b.graph.cnt(l) == o.graph.cnt(l) by {
    assert(a.graph.cnt(l) == b.graph.cnt(l));
    if new_here(m, l.s) && new_here(m, l.t) { let x = choose|n: N| #[trigger] m.dom().contains(n) && m[n] == l.s; assert(k.dom().contains(x) && k[x] == l.s); let y = choose|n: N| #[trigger] m.dom().contains(n) && m[n] == l.t; assert(k.dom().contains(y) && k[y] == l.t); } }
  assert forall|x: Idx| #![trigger b.op_types.at(x)] o.live(x) implies b.op(x) == o.op(x) by { assert(f.op_types.at(x) == a.op_types.at(x)); assert(a.op_types.at(x) == o.op_types.at(x)); }
  assert forall|x: Idx, key: Key| #![trigger b.meta(x, key)] b.meta(x, key) == o.meta(x, key) by { assert(f.meta(x, key) == (if x == new { None } else { a.meta(x, key) })); assert(a.meta(x, key) == o.meta(x, key)); if b.live(x) { assert(f.graph.live(x)); } else { assert(!o.graph.live(x)); assert(!b.graph.live(x)); } if x == new { assert(!o.graph.live(x)); } }
  assert forall|i: Idx| #![trigger b.hierarchy.par(i)] #![trigger b.hierarchy.kids(i)] b.hierarchy.par(i) == o.hierarchy.par(i) && b.hierarchy.kids(i) == o.hierarchy.kids(i) by { assert(f.hierarchy.par(i) == a.hierarchy.par(i)); assert(a.hierarchy.par(i) == o.hierarchy.par(i)); }
}
pub proof fn lemma_linked<N, H: Source<N>>(a: Hugr, b: Hugr, o: Hugr, h: H, m: Map<N, Idx>, w: Link) requires busy(a, o, h, m), linked(b, a, w) ensures busy(b, o, h, m)
{
  reveal(busy);
  assert forall|x: Idx| #![trigger b.graph.live(x)] b.live(x) == a.live(x) by {}
  assert forall|x: Idx, key: Key| #![trigger b.meta(x, key)] b.meta(x, key) == o.meta(x, key) by { assert(a.meta(x, key) == o.meta(x, key)); assert(b.graph.live(x) == a.graph.live(x)); }
  assert forall|i: Idx| #![trigger b.hierarchy.par(i)] #![trigger b.hierarchy.kids(i)] b.hierarchy.par(i) == o.hierarchy.par(i) && b.hierarchy.kids(i) == o.hierarchy.kids(i) by { assert(a.hierarchy.par(i) == o.hierarchy.par(i)); }
}
pub proof fn lemma_ready<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>, n: N) requires busy(g, o, h, m), m.dom().contains(n) ensures g.live(m[n]), g.graph.ins(m[n]) == h.inputs(n), g.graph.outs(m[n]) == h.outputs(n), new_here(m, m[n]) { reveal(busy); assert(new_here(m, m[n])); }''',
'forest_in': '''
pub proof fn lemma_in_link<N, H: Source<N>>(a: Hugr, b: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, v: Seq<(N, OutgoingPort)>, j: int)
  requires busy(a, o, h, m), in_to(a, o, h, m, old, t, v.take(j)), 0 <= j < v.len(), m.dom().contains(old), m.dom().contains(v[j].0), linked(b, a, img(m, Wire { s: v[j].0, o: v[j].1.at as int, t: old, i: t })), occ_out(v, v[j].0, v[j].1.at as int) > 0
  ensures busy(b, o, h, m), in_to(b, o, h, m, old, t, v.take(j + 1))
{
  let z = Wire { s: v[j].0, o: v[j].1.at as int, t: old, i: t }; lemma_linked(a, b, o, h, m, img(m, z)); reveal(busy); reveal(in_to);
  assert(v.take(j + 1).drop_last() =~= v.take(j));
  assert forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) implies b.graph.cnt(img(m, w)) == half_in(h, old, t, v.take(j + 1), w) by {
    assert(a.graph.cnt(img(m, w)) == half_in(h, old, t, v.take(j), w));
    if img(m, w) == img(m, z) { assert(w.s == z.s) by { if w.s != z.s { assert(m.dom().contains(w.s) && m.dom().contains(z.s)); } } assert(w.t == z.t) by { if w.t != z.t { assert(m.dom().contains(w.t) && m.dom().contains(z.t)); } } assert(w == z); }
  }
  assert(new_here(m, m[old]) && new_here(m, m[v[j].0]));
}
pub proof fn lemma_in_skip<N, H: Source<N>>(a: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, v: Seq<(N, OutgoingPort)>, j: int)
  requires in_to(a, o, h, m, old, t, v.take(j)), 0 <= j < v.len(), m.dom().contains(old), !m.dom().contains(v[j].0) ensures in_to(a, o, h, m, old, t, v.take(j + 1))
{
  reveal(in_to); assert(v.take(j + 1).drop_last() =~= v.take(j));
  assert forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) implies a.graph.cnt(img(m, w)) == half_in(h, old, t, v.take(j + 1), w) by { assert(a.graph.cnt(img(m, w)) == half_in(h, old, t, v.take(j), w)); }
}
pub proof fn lemma_in_next<N, H: Source<N>>(a: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, v: Seq<(N, OutgoingPort)>)
  requires in_to(a, o, h, m, old, t, v.take(v.len() as int)), forall|s: N, o: int| #![trigger occ_out(v, s, o)] occ_out(v, s, o) == h.wires(Wire { s, o, t: old, i: t })
  ensures in_to(a, o, h, m, old, t + 1, Seq::<(N, OutgoingPort)>::empty().take(0)), in_to(a, o, h, m, old, t + 1, Seq::empty())
{
  reveal(in_to); assert(v.take(v.len() as int) =~= v); assert(Seq::<(N, OutgoingPort)>::empty().take(0) =~= Seq::empty());
  assert forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) implies a.graph.cnt(img(m, w)) == half_in(h, old, t + 1, Seq::empty(), w) by { assert(a.graph.cnt(img(m, w)) == half_in(h, old, t, v, w)); if w.t == old && w.i == t { assert(occ_out(v, w.s, w.o) == h.wires(w)); } }
}''',
'forest_out': '''
pub proof fn lemma_out_link<N, H: Source<N>>(a: Hugr, b: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, v: Seq<(N, IncomingPort)>, j: int)
  requires busy(a, o, h, m), out_to(a, o, h, m, old, t, v.take(j)), 0 <= j < v.len(), m.dom().contains(old), m.dom().contains(v[j].0) && v[j].0 != old, linked(b, a, img(m, Wire { s: old, o: t, t: v[j].0, i: v[j].1.at as int })), occ_in(v, v[j].0, v[j].1.at as int) > 0
  ensures busy(b, o, h, m), out_to(b, o, h, m, old, t, v.take(j + 1))
{
  let z = Wire { s: old, o: t, t: v[j].0, i: v[j].1.at as int }; lemma_linked(a, b, o, h, m, img(m, z)); reveal(busy); reveal(out_to);
  assert(v.take(j + 1).drop_last() =~= v.take(j));
  assert forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) implies b.graph.cnt(img(m, w)) == half_out(h, old, t, v.take(j + 1), w) by {
    assert(a.graph.cnt(img(m, w)) == half_out(h, old, t, v.take(j), w));
    if img(m, w) == img(m, z) { assert(w.s == z.s) by { if w.s != z.s { assert(m.dom().contains(w.s) && m.dom().contains(z.s)); } } assert(w.t == z.t) by { if w.t != z.t { assert(m.dom().contains(w.t) && m.dom().contains(z.t)); } } assert(w == z); }
  }
  assert(new_here(m, m[old]) && new_here(m, m[v[j].0]));
}
pub proof fn lemma_out_skip<N, H: Source<N>>(a: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, v: Seq<(N, IncomingPort)>, j: int)
  requires out_to(a, o, h, m, old, t, v.take(j)), 0 <= j < v.len(), m.dom().contains(old), (!m.dom().contains(v[j].0) || v[j].0 == old) ensures out_to(a, o, h, m, old, t, v.take(j + 1))
{
  reveal(out_to); assert(v.take(j + 1).drop_last() =~= v.take(j));
  assert forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) implies a.graph.cnt(img(m, w)) == half_out(h, old, t, v.take(j + 1), w) by { assert(a.graph.cnt(img(m, w)) == half_out(h, old, t, v.take(j), w)); }
}
pub proof fn lemma_out_next<N, H: Source<N>>(a: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N, t: int, v: Seq<(N, IncomingPort)>)
  requires out_to(a, o, h, m, old, t, v.take(v.len() as int)), forall|u: N, i: int| #![trigger occ_in(v, u, i)] occ_in(v, u, i) == h.wires(Wire { s: old, o: t, t: u, i })
  ensures out_to(a, o, h, m, old, t + 1, Seq::<(N, IncomingPort)>::empty().take(0)), out_to(a, o, h, m, old, t + 1, Seq::empty())
{
  reveal(out_to); assert(v.take(v.len() as int) =~= v); assert(Seq::<(N, IncomingPort)>::empty().take(0) =~= Seq::empty());
  assert forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) implies a.graph.cnt(img(m, w)) == half_out(h, old, t + 1, Seq::empty(), w) by { assert(a.graph.cnt(img(m, w)) == half_out(h, old, t, v, w)); if w.s == old && w.o == t { assert(occ_in(v, w.t, w.i) == h.wires(w)); } }
}''',
'forest_ends': '''
pub proof fn lemma_half<N, H: Source<N>>(a: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N) requires vok(h), in_to(a, o, h, m, old, h.inputs(old) as int, Seq::empty()) ensures out_to(a, o, h, m, old, 0, Seq::empty())
{ reveal(in_to); reveal(out_to); assert forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) implies a.graph.cnt(img(m, w)) == half_out(h, old, 0, Seq::empty(), w) by { assert(h.wires(w) >= 0); assert(a.graph.cnt(img(m, w)) == half_in(h, old, h.inputs(old) as int, Seq::empty(), w)); } }
pub proof fn lemma_whole<N, H: Source<N>>(a: Hugr, o: Hugr, h: H, m: Map<N, Idx>, old: N) requires vok(h), out_to(a, o, h, m, old, h.outputs(old) as int, Seq::empty()) ensures wired(a, o, h, m)
{ reveal(out_to); assert forall|w: Wire<N>| #![trigger img(m, w)] both(m, w) implies a.graph.cnt(img(m, w)) == h.wires(w) by { assert(h.wires(w) >= 0); assert(a.graph.cnt(img(m, w)) == half_out(h, old, h.outputs(old) as int, Seq::empty(), w)); } }
pub proof fn lemma_covers<N>(m: Map<N, Idx>, ns: Seq<N>, j: int, new: Idx) requires covers(m, ns.take(j)), 0 <= j < ns.len(), ns.take(j).no_duplicates() ensures m.dom().contains(ns[j]) ==> !ns.no_duplicates(), !m.dom().contains(ns[j]) ==> covers(m.insert(ns[j], new), ns.take(j + 1)) && ns.take(j + 1).no_duplicates()
{
  let s = ns.take(j); let r = ns.take(j + 1); let k = m.insert(ns[j], new);
  if m.dom().contains(ns[j]) { assert(s.contains(ns[j])); let i = choose|i: int| 0 <= i < s.len() && s[i] == ns[j]; assert(ns[i] == ns[j]); }
  else { assert(!s.contains(ns[j]));
    assert forall|n: N| #![trigger k.dom().contains(n)] k.dom().contains(n) <==> r.contains(n) by { assert(m.dom().contains(n) <==> s.contains(n)); if s.contains(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(r[i] == n); } if n == ns[j] { assert(r[j] == n); } if r.contains(n) { let i = choose|i: int| 0 <= i < r.len() && r[i] == n; if i < j { assert(s[i] == n); } } }
    assert(r.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by { if a < j && b < j { assert(s[a] != s[b]); } else if a < j { assert(s[a] == r[a]); assert(s.contains(s[a])); } else if b < j { assert(s[b] == r[b]); assert(s.contains(s[b])); } } }
  }
}
/// from a node that was here, going up leads to nodes that were here
pub proof fn lemma_stays(g: Hugr, o: Hugr, x: Idx, k: nat) requires o.wf(), o.live(x), forall|x: Idx| #![trigger g.hierarchy.par(x)] o.live(x) ==> g.par(x) == o.par(x) ensures g.hierarchy.up(x, k) matches Some(y) ==> o.live(y) decreases k { if k > 0 { lemma_stays(g, o, x, (k - 1) as nat); if g.hierarchy.up(x, (k - 1) as nat) is Some { let y = g.hierarchy.up(x, (k - 1) as nat)->0; if g.par(y) is Some { lemma_live(o, y); } } } }
pub open spec fn shape<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>) -> bool { forall|a: N| #![trigger m.dom().contains(a)] m.dom().contains(a) ==> (g.par(m[a]) is None || o.live(g.par(m[a])->0) || (h.above(a) matches Some(q) && m.dom().contains(q) && g.par(m[a]) == Some(m[q]))) }
pub proof fn lemma_climb<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>, a: N, k: nat)
  requires o.wf(), vok(h), m.dom().contains(a), shape(g, o, h, m), forall|x: Idx| #![trigger g.hierarchy.par(x)] o.live(x) ==> g.par(x) == o.par(x)
  ensures g.hierarchy.up(m[a], k) matches Some(y) ==> o.live(y) || exists|b: N| #[trigger] m.dom().contains(b) && m[b] == y && h.depth(b) <= h.depth(a)
  decreases k
{
  if k == 0 { assert(m.dom().contains(a)); } else { lemma_climb(g, o, h, m, a, (k - 1) as nat); if g.hierarchy.up(m[a], (k - 1) as nat) is Some { let y = g.hierarchy.up(m[a], (k - 1) as nat)->0; if o.live(y) { if g.par(y) is Some { lemma_live(o, y); } } else { let b = choose|b: N| #[trigger] m.dom().contains(b) && m[b] == y && h.depth(b) <= h.depth(a); if g.par(y) is Some { if h.above(b) is Some { let q = h.above(b)->0; assert(h.depth(q) < h.depth(b)); } } } } }
}
pub proof fn lemma_outside<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>, a: N, q: N)
  requires o.wf(), vok(h), copies(g, o, h, m), m.dom().contains(a), m.dom().contains(q), h.above(a) == Some(q), shape(g, o, h, m), forall|x: Idx| #![trigger g.hierarchy.par(x)] o.live(x) ==> g.par(x) == o.par(x)
  ensures !g.hierarchy.within(m[q], m[a])
{ if g.hierarchy.within(m[q], m[a]) { let k = choose|k: nat| #[trigger] g.hierarchy.up(m[q], k) == Some(m[a]); lemma_climb(g, o, h, m, q, k); assert(!o.live(m[a])); let b = choose|b: N| #[trigger] m.dom().contains(b) && m[b] == m[a] && h.depth(b) <= h.depth(q); assert(a == b); assert(h.depth(q) < h.depth(a)); } }
pub proof fn lemma_above_old(g: Hugr, o: Hugr, p: Idx, x: Idx) requires o.wf(), o.live(p), !o.live(x), forall|x: Idx| #![trigger g.hierarchy.par(x)] o.live(x) ==> g.par(x) == o.par(x) ensures !g.hierarchy.within(p, x)
{ if g.hierarchy.within(p, x) { let k = choose|k: nat| #[trigger] g.hierarchy.up(p, k) == Some(x); lemma_stays(g, o, p, k); } }
pub proof fn lemma_hung(a: Hugr, b: Hugr, o: Hugr, l: Seq<(Idx, Idx)>, n: Idx, p: Idx) requires hung(a, o, l), b.hierarchy.placed(&a.hierarchy, n, p) ensures hung(b, o, l.push((n, p)))
{ let k = l.push((n, p)); assert(k.drop_last() =~= l); assert forall|x: Idx| #![trigger b.hierarchy.par(x)] #![trigger b.hierarchy.kids(x)] b.par(x) == par_of(k, o.par(x), x) && b.kids(x) == kids_of(k, o.kids(x), x) by { assert(a.hierarchy.par(x) == par_of(l, o.par(x), x)); } }
/// the graph, the operations and the metadata are untouched by moving nodes about
pub proof fn lemma_moved<N, H: Source<N>>(a: Hugr, b: Hugr, o: Hugr, h: H, m: Map<N, Idx>) requires a.wf(), o.wf(), b.wf(), copies(a, o, h, m), wired(a, o, h, m), bare(a, o), b.same_but_tree(&a) ensures copies(b, o, h, m), wired(b, o, h, m), bare(b, o)
{
  assert forall|x: Idx| #![trigger b.graph.live(x)] b.live(x) == a.live(x) by {}
  assert forall|x: Idx| #![trigger b.op_types.at(x)] o.live(x) implies b.op(x) == o.op(x) by { assert(a.graph.live(x)); assert(a.op_types.at(x) == o.op_types.at(x)); }
  assert forall|x: Idx, key: Key| #![trigger b.meta(x, key)] b.meta(x, key) == o.meta(x, key) by { assert(a.meta(x, key) == o.meta(x, key)); assert(b.graph.live(x) == a.graph.live(x)); }
}'''}
def forest(u):
    m = src(HM); f = m.fn('insert_forest_internal')
    u.text(FOREST)
    for n, x in FL.items(): u.lemma(n, x)
    u.text('#[verifier::external_body] pub fn same_node<N>(a: &N, b: &N) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }')
    W = lambda rx, vec, var, k: (rx, f'let v{k} = {vec}; let mut n{k}: usize = 0; while n{k} < v{k}.len() {{ let {var} = v{k}[n{k}]; n{k} = n{k} + 1;')
    rules = [(r'other_nodes\.size_hint\(\)\.1\.unwrap_or_default\(\)', 'hint(other_nodes)'), (r'HashMap::with_capacity', 'NodeMap::<N>::with_capacity'),
             (r'for old in other_nodes\.clone\(\) \{', 'let mut n0: usize = 0; while n0 < other_nodes.len() { let old = other_nodes[n0]; n0 = n0 + 1;'),
             W(r'for tgt in other\.node_inputs\(old\) \{', 'other.node_inputs(old)', 'tgt', 1), W(r'for \(neigh, src\) in other\.linked_outputs\(old, tgt\) \{', 'other.linked_outputs(old, tgt)', '(neigh, src)', 2),
             W(r'for src in other\.node_outputs\(old\) \{', 'other.node_outputs(old)', 'src', 3), W(r'for \(neigh, tgt\) in other\.linked_inputs\(old, src\) \{', 'other.linked_inputs(old, src)', '(neigh, tgt)', 4),
             (r'for \(r, p\) in root_parents \{', 'let mut n5: usize = 0; while n5 < root_parents.len() { let (r, p) = root_parents[n5]; n5 = n5 + 1;'), (r'for old in other_nodes \{', 'let mut n6: usize = 0; while n6 < other_nodes.len() { let old = other_nodes[n6]; n6 = n6 + 1;'),
             (r'let Some\(&neigh\) = (node_map\.get\(&neigh\)) else', r'let Some(nb) = \1 else'), (r'hugr\.connect\(neigh, src', 'hugr.connect(*nb, src'), (r'new, src, neigh, tgt', 'new, src, *nb, tgt'), (r'node_map\[&(\w+)\]', r'node_map.index(\1)'),
             (r'(?s)if let Some\(&new_parent\) = old_parent\.and_then\(\|p\| node_map\.get\(&p\)\) (\{.*?\})', r'if let Some(op) = old_parent { if let Some(np) = node_map.get(&op) { let new_parent = *np; \1 } }')] 
    G = 'o.wf(), vok(*other), ns == other_nodes@, rp == root_parents@, '
    B = G + 'm == node_map.m(), m.dom().contains(old), m[old] == new, covers(m, ns.take(n0 as int)), 0 < n0 <= other_nodes.len(), old == ns[n0 - 1], ns.take(n0 as int).no_duplicates(), busy(*hugr, o, *other, m), '
    u.fn(f, """requires old(hugr).wf(), vok(*other), forall|j: int| #![trigger root_parents@[j]] 0 <= j < root_parents.len() ==> old(hugr).live(root_parents@[j].1) && other_nodes@.contains(root_parents@[j].0),
 ensures final(hugr).wf(), r is Ok <==> other_nodes@.no_duplicates(), r matches Ok(x) ==> pasted(*final(hugr), *old(hugr), *other, other_nodes@, root_parents@, x.node_map.m()) && bare(*final(hugr), *old(hugr)),""",
         rules=[(r'neigh == old\b', 'same_node(&neigh, &old)')] + rules + BASE, sig='fn insert_forest_internal<N: Copy, H: Source<N>>(hugr: &mut Hugr, other: &H, other_nodes: &Vec<N>, root_parents: &Vec<(N, Node)>) -> (r: Result<InsertedForest<N>, InsertForestError<N>>)',
         pre='let ghost o = *hugr; let ghost ns = other_nodes@; let ghost rp = root_parents@;',
         loops=[(f'invariant {G} n0 <= other_nodes.len(), hugr.wf(), covers(node_map.m(), ns.take(n0 as int)), ns.take(n0 as int).no_duplicates(), copies(*hugr, o, *other, node_map.m()), wired(*hugr, o, *other, node_map.m()), bare(*hugr, o), hugr.hierarchy.same(&o.hierarchy), decreases other_nodes.len() - n0,',
                 'let ghost g0 = *hugr; let ghost m0 = node_map.m(); proof { assert(n0 < ns.len()); }'),
                (f'invariant {B} n1 <= v1.len(), v1.len() == other.inputs(old), forall|j: int| #![trigger v1@[j]] 0 <= j < v1.len() ==> v1@[j].at == j, in_to(*hugr, o, *other, m, old, n1 as int, Seq::empty()), decreases v1.len() - n1,', 'let ghost t = n1 as int;'),
                (f'invariant {B} n2 <= v2.len(), tgt.at == t, t < other.inputs(old), forall|s: N, o: int| #![trigger occ_out(v2@, s, o)] occ_out(v2@, s, o) == other.wires(Wire {{ s, o, t: old, i: t }}), in_to(*hugr, o, *other, m, old, t, v2@.take(n2 as int)), decreases v2.len() - n2,',
                 'let ghost g2 = *hugr; let ghost j = n2 as int; proof { lemma_occ_out(v2@, j); lemma_ready(*hugr, o, *other, m, old); if m.dom().contains(v2@[j].0) { lemma_ready(*hugr, o, *other, m, v2@[j].0); } else { lemma_in_skip(*hugr, o, *other, m, old, t, v2@, j); } reveal(busy); }'),
                (f'invariant {B} n3 <= v3.len(), v3.len() == other.outputs(old), forall|j: int| #![trigger v3@[j]] 0 <= j < v3.len() ==> v3@[j].at == j, out_to(*hugr, o, *other, m, old, n3 as int, Seq::empty()), decreases v3.len() - n3,', 'let ghost t = n3 as int;'),
                (f'invariant {B} n4 <= v4.len(), src.at == t, t < other.outputs(old), forall|u: N, i: int| #![trigger occ_in(v4@, u, i)] occ_in(v4@, u, i) == other.wires(Wire {{ s: old, o: t, t: u, i }}), out_to(*hugr, o, *other, m, old, t, v4@.take(n4 as int)), decreases v4.len() - n4,',
                 'let ghost g4 = *hugr; let ghost j = n4 as int; proof { lemma_occ_in(v4@, j); lemma_ready(*hugr, o, *other, m, old); if m.dom().contains(v4@[j].0) && v4@[j].0 != old { lemma_ready(*hugr, o, *other, m, v4@[j].0); } else { lemma_out_skip(*hugr, o, *other, m, old, t, v4@, j); } reveal(busy); }'),
                (f'invariant {G} m == node_map.m(), n5 <= rp.len(), ns.no_duplicates(), covers(m, ns), hugr.wf(), copies(*hugr, o, *other, m), wired(*hugr, o, *other, m), bare(*hugr, o), hung(*hugr, o, placed_roots(m, rp.take(n5 as int))), forall|j: int| #![trigger rp[j]] 0 <= j < rp.len() ==> o.live(rp[j].1) && ns.contains(rp[j].0), forall|x: Idx| #![trigger hugr.hierarchy.par(x)] o.live(x) ==> hugr.par(x) == o.par(x), shape(*hugr, o, *other, m), forall|a: N| #![trigger m.dom().contains(a)] m.dom().contains(a) ==> (hugr.par(m[a]) is Some <==> listed(rp.take(n5 as int), a)), decreases rp.len() - n5,',
                 'let ghost g5 = *hugr; proof { assert(ns.contains(rp[n5 as int].0)); assert(m.dom().contains(rp[n5 as int].0)); let x = m[rp[n5 as int].0]; assert(new_here(m, x)); lemma_above_old(*hugr, o, rp[n5 as int].1, x); assert(hugr.graph.live(rp[n5 as int].1)); assert(hugr.graph.live(x)); }'),
                (f'invariant {G} m == node_map.m(), n6 <= ns.len(), ns.no_duplicates(), covers(m, ns), hugr.wf(), copies(*hugr, o, *other, m), wired(*hugr, o, *other, m), bare(*hugr, o), hung(*hugr, o, placed_roots(m, rp) + rest_of(*other, m, rp, ns.take(n6 as int))), forall|x: Idx| #![trigger hugr.hierarchy.par(x)] o.live(x) ==> hugr.par(x) == o.par(x), shape(*hugr, o, *other, m), forall|a: N| #![trigger m.dom().contains(a)] m.dom().contains(a) && listed(rp, a) ==> hugr.par(m[a]) is Some, forall|j: int| #![trigger ns[j]] n6 <= j < ns.len() && !listed(rp, ns[j]) ==> hugr.par(m[ns[j]]) is None, decreases ns.len() - n6,',
                 'let ghost g6 = *hugr; let ghost k = n6 as int; proof { assert(ns.contains(ns[k])); assert(m.dom().contains(ns[k])); assert(new_here(m, m[ns[k]])); assert(hugr.graph.live(m[ns[k]])); assert(o.live(o.module_root)); assert(ns.take(k + 1).drop_last() =~= ns.take(k)); if other.above(ns[k]) is Some { let q = other.above(ns[k])->0; if m.dom().contains(q) { lemma_outside(*hugr, o, *other, m, ns[k], q); assert(new_here(m, m[q])); assert(hugr.graph.live(m[q])); } } }')],
         post_rules=[(r'(hugr\.reserve\([^;]*;)', r'\1 proof { assert forall|x: Idx, key: Key| #![trigger hugr.meta(x, key)] hugr.meta(x, key) == o.meta(x, key) by { assert(hugr.graph.live(x) == o.graph.live(x)); } assert(ns.take(0) =~= Seq::empty()); }'), (r'(let new = hugr\.add_node\(op\);)', r'\1 let ghost g1 = *hugr; proof { lemma_covers(m0, ns, n0 - 1, new); }'),
                     (r'(hugr\.set_num_ports\(new[^;]*;)', r'\1 let ghost m = node_map.m(); proof { lemma_first(g0, g1, *hugr, o, *other, m0, old, new); }'),
                     (r'(hugr\.connect\(\*nb, src, new, tgt\);\s*\})', r'\1 proof { assert(Seq::<(N, OutgoingPort)>::empty() =~= v2@.take(0)); lemma_in_next(*hugr, o, *other, m, old, t, v2@); }'),
                     (r'hugr\.connect\(\*nb, src, new, tgt\);', r'\g<0> proof { lemma_in_link(g2, *hugr, o, *other, m, old, t, v2@, j); }'),
                     (r'(let v2 = [^;]*;)', r'\1 proof { assert(v2@.take(0) =~= Seq::empty()); }'), (r'(let v4 = [^;]*;)', r'\1 proof { assert(v4@.take(0) =~= Seq::empty()); }'),
                     (r'(let v3 = )', r'proof { lemma_half(*hugr, o, *other, m, old); } \1'),
                     (r'(hugr\.connect\(new, src, \*nb, tgt\);\s*\})', r'\1 proof { lemma_out_next(*hugr, o, *other, m, old, t, v4@); }'),
                     (r'hugr\.connect\(new, src, \*nb, tgt\);', r'\g<0> proof { lemma_out_link(g4, *hugr, o, *other, m, old, t, v4@, j); }'),
                     (r'(\}\s*)(\}\s*let mut n5: usize = 0;)', r'\1 proof { lemma_whole(*hugr, o, *other, m, old); reveal(busy); } \2 let ghost m = node_map.m(); proof { assert(ns.take(n0 as int) =~= ns); assert(rp.take(0) =~= Seq::empty()); assert(placed_roots(m, rp.take(0)) =~= Seq::empty()); assert forall|a: N| #![trigger m.dom().contains(a)] m.dom().contains(a) implies hugr.par(m[a]) is None by { assert(hugr.hierarchy.par(m[a]) == o.hierarchy.par(m[a])); assert(!o.graph.live(m[a])); } }'),
                     (r'(hugr\.set_parent\(node_map\.index\(r\), p\);)', r'\1 proof { lemma_moved(g5, *hugr, o, *other, m); lemma_hung(g5, *hugr, o, placed_roots(m, rp.take(n5 - 1)), m[r], p); assert(placed_roots(m, rp.take(n5 as int)) =~= placed_roots(m, rp.take(n5 - 1)).push((m[r], p))); assert forall|a: N| #![trigger m.dom().contains(a)] m.dom().contains(a) implies (hugr.par(m[a]) is Some <==> listed(rp.take(n5 as int), a)) by { if listed(rp.take(n5 as int), a) { let j = choose|j: int| 0 <= j < n5 && #[trigger] rp.take(n5 as int)[j].0 == a; if j < n5 - 1 { assert(rp.take(n5 - 1)[j].0 == a); } } if listed(rp.take(n5 - 1), a) { let j = choose|j: int| 0 <= j < n5 - 1 && #[trigger] rp.take(n5 - 1)[j].0 == a; assert(rp.take(n5 as int)[j].0 == a); } if a == r { assert(rp.take(n5 as int)[n5 - 1].0 == a); } } }'),
                     (r'(let mut n6: usize = 0;)', r'\1 proof { assert(rp.take(rp.len() as int) =~= rp); assert(ns.take(0) =~= Seq::empty()); assert(placed_roots(m, rp) + rest_of(*other, m, rp, ns.take(0)) =~= placed_roots(m, rp)); assert forall|j: int| #![trigger ns[j]] 0 <= j < ns.len() && !listed(rp, ns[j]) implies hugr.par(m[ns[j]]) is None by { assert(ns.contains(ns[j])); assert(m.dom().contains(ns[j])); } }'),
                     (r'(hugr\.set_parent\(new, new_parent\);)', r'\1 proof { lemma_moved(g6, *hugr, o, *other, m); let l0 = placed_roots(m, rp) + rest_of(*other, m, rp, ns.take(k)); lemma_hung(g6, *hugr, o, l0, new, new_parent); assert(placed_roots(m, rp) + rest_of(*other, m, rp, ns.take(k + 1)) =~= l0.push((new, new_parent))); assert forall|j: int| #![trigger ns[j]] k < j < ns.len() && !listed(rp, ns[j]) implies hugr.par(m[ns[j]]) is None by { assert(ns.contains(ns[j])); assert(m.dom().contains(ns[j])); } }'),
                     (r'Ok\(InsertedForest', 'proof { assert(ns.take(n6 as int) =~= ns); } Ok(InsertedForest')])

FOREST2 = """
#[verifier::reject_recursive_types(N)] pub struct InsertionResult<N> { pub inserted_entrypoint: Node, pub node_map: NodeMap<N> }
#[verifier::external_body] #[verifier::reject_recursive_types(N)] pub struct SiblingSubgraph<N> { _p: core::marker::PhantomData<N> }
impl<N: Copy> SiblingSubgraph<N> { pub uninterp spec fn of(&self) -> Seq<N>; pub axiom fn set(&self) ensures self.of().no_duplicates(); #[verifier::external_body] pub fn nodes(&self) -> (r: Vec<N>) ensures r@ == self.of(), r@.no_duplicates() { unimplemented!() } }
pub fn paired<N: Copy>(v: &Vec<N>, root: Node) -> (r: Vec<(N, Node)>) ensures r@ == paired_with(v@, root) { let mut r: Vec<(N, Node)> = Vec::new(); let mut i: usize = 0; while i < v.len() invariant i <= v.len(), r@ == paired_with(v@.take(i as int), root) decreases v.len() - i { r.push((v[i], root)); i = i + 1; assert(v@.take(i as int).drop_last() =~= v@.take(i - 1)); assert(r@ =~= paired_with(v@.take(i as int), root)); } assert(v@.take(i as int) =~= v@); r }
pub open spec fn paired_with<N>(s: Seq<N>, root: Node) -> Seq<(N, Node)> { Seq::new(s.len(), |j: int| (s[j], root)) }
/// the copies carry the operations and the metadata of their originals; the nodes that were here keep theirs
pub open spec fn loaded<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>) -> bool {
  &&& forall|a: N| #![trigger m.dom().contains(a)] m.dom().contains(a) ==> g.op(m[a]) == h.operation(a)
  &&& forall|a: N, k: Key| #![trigger h.datum(a, k)] m.dom().contains(a) ==> g.meta(m[a], k) == h.datum(a, k)
  &&& forall|x: Idx| #![trigger g.op_types.at(x)] o.live(x) ==> g.op(x) == o.op(x)
  &&& forall|x: Idx, k: Key| #![trigger g.meta(x, k)] o.live(x) ==> g.meta(x, k) == o.meta(x, k)
  &&& g.extensions == joined(o.extensions, h.registry())
}
pub open spec fn copied<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, ns: Seq<N>, r: Seq<(N, Idx)>, m: Map<N, Idx>) -> bool { pasted(g, o, h, ns, r, m) && loaded(g, o, h, m) }
/// after the first j entries
pub open spec fn loading<N, H: Source<N>>(g: Hugr, o: Hugr, h: H, m: Map<N, Idx>, e: Seq<(N, Idx)>, j: int) -> bool {
  &&& forall|i: int| #![trigger e[i]] 0 <= i < j ==> g.op(e[i].1) == h.operation(e[i].0) && forall|k: Key| #![trigger h.datum(e[i].0, k)] g.meta(e[i].1, k) == h.datum(e[i].0, k)
  &&& forall|x: Idx| #![trigger g.op_types.at(x)] o.live(x) ==> g.op(x) == o.op(x)
  &&& forall|x: Idx, k: Key| #![trigger g.meta(x, k)] (o.live(x) || forall|i: int| 0 <= i < j ==> #[trigger] e[i].1 != x) ==> g.meta(x, k) == o.meta(x, k)
  &&& g.extensions == joined(o.extensions, h.registry())
}
/// entries of `e`: those of m, each once, with different images
pub open spec fn lists<N>(m: Map<N, Idx>, e: Seq<(N, Idx)>) -> bool {
  &&& forall|j: int| #![trigger e[j]] 0 <= j < e.len() ==> m.dom().contains(e[j].0) && m[e[j].0] == e[j].1
  &&& forall|k: N| #![trigger m.dom().contains(k)] m.dom().contains(k) ==> exists|j: int| 0 <= j < e.len() && #[trigger] e[j] == (k, m[k])
  &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> #[trigger] e[i].0 != #[trigger] e[j].0
}
pub proof fn lemma_load<N, H: Source<N>>(a: Hugr, b: Hugr, p: Hugr, o: Hugr, h: H, ns: Seq<N>, r: Seq<(N, Idx)>, m: Map<N, Idx>, e: Seq<(N, Idx)>, j: int)
  requires o.wf(), a.wf(), pasted(a, o, h, ns, r, m), loading(a, o, h, m, e, j), lists(m, e), 0 <= j < e.len(), b.graph == a.graph, b.hierarchy == a.hierarchy, b.module_root == a.module_root, b.entrypoint == a.entrypoint, b.extensions == a.extensions, b.metadata.def() == a.metadata.def(),
    forall|x: Idx| #![trigger b.op_types.at(x)] b.op_types.at(x) == (if x == e[j].1 { h.operation(e[j].0) } else { a.op_types.at(x) }),
    forall|x: Idx| #![trigger b.metadata.at(x)] x != e[j].1 ==> b.metadata.at(x) == a.metadata.at(x), forall|k: Key| #![trigger h.datum(e[j].0, k)] b.meta(e[j].1, k) == h.datum(e[j].0, k)
  ensures b.wf(), pasted(b, o, h, ns, r, m), loading(b, o, h, m, e, j + 1)
{
  let n = e[j].1; let s = e[j].0; assert(m.dom().contains(s)); assert(!o.live(n)); assert(new_here(m, n)); assert(b.graph.live(n));
  assert forall|i: int| #![trigger e[i]] 0 <= i < j + 1 implies b.op(e[i].1) == h.operation(e[i].0) && forall|k: Key| #![trigger h.datum(e[i].0, k)] b.meta(e[i].1, k) == h.datum(e[i].0, k) by {
    if i < j { assert(e[i].0 != e[j].0); assert(m.dom().contains(e[i].0)); assert(e[i].1 != e[j].1); assert forall|k: Key| #![trigger h.datum(e[i].0, k)] b.meta(e[i].1, k) == h.datum(e[i].0, k) by { assert(a.meta(e[i].1, k) == h.datum(e[i].0, k)); assert(b.metadata.at(e[i].1) == a.metadata.at(e[i].1)); } } }
  assert forall|x: Idx, k: Key| #![trigger b.meta(x, k)] (o.live(x) || forall|i: int| 0 <= i < j + 1 ==> #[trigger] e[i].1 != x) implies b.meta(x, k) == o.meta(x, k) by { assert(a.meta(x, k) == o.meta(x, k)); if !o.live(x) { assert(e[j].1 != x); } assert(b.metadata.at(x) == a.metadata.at(x)); }
  assert forall|x: Idx| #![trigger b.graph.live(x)] !b.live(x) implies b.par(x) is None && b.kids(x).len() == 0 && b.metadata.at(x) is None by { assert(a.graph.live(x) == b.graph.live(x)); }
  assert(copies(b, o, h, m)); assert(wired(b, o, h, m)); assert(hung(b, o, placed_roots(m, r) + rest_of(h, m, r, ns)));
}
pub proof fn lemma_loaded<N, H: Source<N>>(a: Hugr, o: Hugr, h: H, m: Map<N, Idx>, e: Seq<(N, Idx)>) requires o.wf(), a.wf(), loading(a, o, h, m, e, e.len() as int), lists(m, e) ensures loaded(a, o, h, m)
{
  assert forall|k: N| #![trigger m.dom().contains(k)] m.dom().contains(k) implies a.op(m[k]) == h.operation(k) by { let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j] == (k, m[k]); }
  assert forall|k: N, key: Key| #![trigger h.datum(k, key)] m.dom().contains(k) implies a.meta(m[k], key) == h.datum(k, key) by { let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j] == (k, m[k]); assert(h.datum(e[j].0, key) == a.meta(e[j].1, key)); }
}
pub proof fn lemma_idle<N, H: Source<N>>(a: Hugr, b: Hugr, o: Hugr, h: H, ns: Seq<N>, r: Seq<(N, Idx)>, m: Map<N, Idx>, e: Seq<(N, Idx)>) requires a.wf(), pasted(a, o, h, ns, r, m), bare(a, o), b == (Hugr { extensions: joined(a.extensions, h.registry()), ..a }) ensures b.wf(), pasted(b, o, h, ns, r, m), loading(b, o, h, m, e, 0)
{
  assert(copies(b, o, h, m)); assert(wired(b, o, h, m)); assert(hung(b, o, placed_roots(m, r) + rest_of(h, m, r, ns)));
  assert forall|x: Idx| #![trigger b.op_types.at(x)] o.live(x) implies b.op(x) == o.op(x) by { assert(a.op_types.at(x) == o.op_types.at(x)); }
  assert forall|x: Idx, k: Key| #![trigger b.meta(x, k)] b.meta(x, k) == o.meta(x, k) by { assert(a.meta(x, k) == o.meta(x, k)); }
  assert forall|x: Idx| #![trigger b.graph.live(x)] !b.live(x) implies b.par(x) is None && b.kids(x).len() == 0 && b.metadata.at(x) is None by { assert(a.graph.live(x) == b.graph.live(x)); }
}
"""
FOREST3 = """
/// a map read off a list of pairs: later pairs win
pub open spec fn last_of<N>(s: Seq<(N, Idx)>, n: N) -> Option<Idx> decreases s.len() { if s.len() == 0 { None } else if s.last().0 == n { Some(s.last().1) } else { last_of(s.drop_last(), n) } }
#[verifier::external_body] pub fn collected<N>(s: &Vec<(N, Idx)>) -> (r: NodeMap<N>) ensures forall|n: N| #![trigger r.m().dom().contains(n)] r.m().dom().contains(n) == last_of(s@, n).is_some() && (r.m().dom().contains(n) ==> Some(r.m()[n]) == last_of(s@, n)) { unimplemented!() }
pub proof fn lemma_last<N>(s: Seq<(N, Idx)>, n: N) requires last_of(s, n) is Some ensures exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == (n, last_of(s, n)->0) decreases s.len() { if s.last().0 == n { assert(s[s.len() - 1] == (n, s.last().1)); } else { lemma_last(s.drop_last(), n); let j = choose|j: int| 0 <= j < s.len() - 1 && #[trigger] s.drop_last()[j] == (n, last_of(s.drop_last(), n)->0); assert(s[j] == (n, last_of(s, n)->0)); } }
/// no root lies inside another
pub open spec fn apart(h: Hierarchy, r: Map<Idx, Idx>) -> bool { forall|a: Idx, b: Idx| #![trigger r.dom().contains(a), r.dom().contains(b)] r.dom().contains(a) && r.dom().contains(b) && a != b ==> !h.within(a, b) }
pub proof fn lemma_split(h: Hierarchy, x: Idx, i: nat, j: nat) requires i <= j, h.up(x, i) is Some, h.up(x, j) is Some ensures h.up(h.up(x, i)->0, (j - i) as nat) == h.up(x, j) decreases j { if i < j { lemma_up(h, x, j); lemma_split(h, x, i, (j - 1) as nat); } }
pub proof fn lemma_line(h: Hierarchy, x: Idx, a: Idx, b: Idx) requires h.within(x, a), h.within(x, b) ensures h.within(a, b) || h.within(b, a) { let i = choose|k: nat| #[trigger] h.up(x, k) == Some(a); let j = choose|k: nat| #[trigger] h.up(x, k) == Some(b); if i <= j { lemma_split(h, x, i, j); assert(h.up(a, (j - i) as nat) == Some(b)); } else { lemma_split(h, x, j, i); assert(h.up(b, (i - j) as nat) == Some(a)); } }
pub open spec fn under(h: Hierarchy, e: Seq<(Idx, Idx)>, j: int, x: Idx) -> bool { exists|i: int| 0 <= i < j && h.within(x, #[trigger] e[i].0) }
/// roots.keys().flat_map(|n| other.descendants(*n))
pub fn all_under(other: &Hugr, e: &Vec<(Idx, Idx)>, Ghost(m): Ghost<Map<Idx, Idx>>) -> (r: Vec<Idx>)
  requires other.wf(), lists(m, e@), forall|j: int| #![trigger e@[j]] 0 <= j < e.len() ==> other.live(e@[j].0)
  ensures forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) <==> under(other.hierarchy, e@, e.len() as int, x), apart(other.hierarchy, m) ==> r@.no_duplicates(), forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) ==> other.live(x)
{
  let mut r: Vec<Idx> = Vec::new(); let mut i: usize = 0;
  while i < e.len()
    invariant i <= e.len(), other.wf(), lists(m, e@), forall|j: int| #![trigger e@[j]] 0 <= j < e.len() ==> other.live(e@[j].0), forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) <==> under(other.hierarchy, e@, i as int, x), apart(other.hierarchy, m) ==> r@.no_duplicates(), forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) ==> other.live(x)
    decreases e.len() - i
  {
    let ghost a = r@; let d = Source::<Idx>::descendants(other, e[i].0); let ghost b = d@; let ghost n = e@[i as int].0;
    let mut d2 = d; r.append(&mut d2);
    proof {
      assert(r@ =~= a + b);
      assert forall|x: Idx| #![trigger r@.contains(x)] (r@.contains(x) <==> a.contains(x) || b.contains(x)) by { if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(r@[k] == x); } if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert(r@[a.len() + k] == x); } if r@.contains(x) { let k = choose|k: int| 0 <= k < r@.len() && r@[k] == x; if k < a.len() { assert(a[k] == x); } else { assert(b[k - a.len()] == x); } } }
      assert forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) <==> under(other.hierarchy, e@, i + 1, x) by {
        assert(b.contains(x) <==> other.hierarchy.within(x, n));
        if under(other.hierarchy, e@, i as int, x) { let k = choose|k: int| 0 <= k < i && other.hierarchy.within(x, #[trigger] e@[k].0); assert(other.hierarchy.within(x, e@[k].0)); }
        if under(other.hierarchy, e@, i + 1, x) { let k = choose|k: int| 0 <= k < i + 1 && other.hierarchy.within(x, #[trigger] e@[k].0); if k < i { assert(under(other.hierarchy, e@, i as int, x)); } }
        if b.contains(x) { assert(other.hierarchy.within(x, e@[i as int].0)); } }
      if apart(other.hierarchy, m) { assert forall|p: int, q: int| 0 <= p < r@.len() && 0 <= q < r@.len() && p != q implies r@[p] != r@[q] by {
        if p < a.len() && q < a.len() { assert(a[p] != a[q]); } else if p >= a.len() && q >= a.len() { assert(b[p - a.len()] != b[q - a.len()]); }
        else { let (x, y) = if p < a.len() { (r@[p], r@[q]) } else { (r@[q], r@[p]) }; if x == y { assert(a.contains(x)) by { if p < a.len() { assert(a[p] == x); } else { assert(a[q] == x); } } assert(b.contains(x)) by { if p < a.len() { assert(b[q - a.len()] == x); } else { assert(b[p - a.len()] == x); } }
          let k = choose|k: int| 0 <= k < i && other.hierarchy.within(x, #[trigger] e@[k].0); lemma_line(other.hierarchy, x, e@[k].0, n); assert(e@[k].0 != e@[i as int].0); assert(m.dom().contains(e@[k].0) && m.dom().contains(n)); } } } }
    }
    i = i + 1;
  }
  r
}
/// the proper ancestors of x reached so far
pub open spec fn clear_all(h: Hierarchy, r: Map<Idx, Idx>, s: Idx) -> bool { forall|y: Idx| #![trigger h.within(s, y)] h.within(s, y) && y != s ==> !r.dom().contains(y) }
pub open spec fn keys(m: Map<Idx, Idx>, s: Seq<(Idx, Idx)>) -> bool { forall|n: Idx| #![trigger m.dom().contains(n)] m.dom().contains(n) <==> listed(s, n) }
pub proof fn lemma_keys(m: Map<Idx, Idx>, s: Seq<(Idx, Idx)>) requires forall|n: Idx| #![trigger m.dom().contains(n)] m.dom().contains(n) == last_of(s, n).is_some() ensures keys(m, s) { assert forall|n: Idx| #![trigger m.dom().contains(n)] m.dom().contains(n) <==> listed(s, n) by { if m.dom().contains(n) { lemma_last(s, n); let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (n, last_of(s, n)->0); assert(s[j].0 == n); } if listed(s, n) { lemma_listed(s, n); } } }
pub proof fn lemma_listed(s: Seq<(Idx, Idx)>, n: Idx) requires listed(s, n) ensures last_of(s, n) is Some decreases s.len() { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].0 == n; if s.last().0 != n { assert(s.drop_last()[j].0 == n); lemma_listed(s.drop_last(), n); } }
pub proof fn lemma_chain(h: Hierarchy, s: Idx, n: Idx, p: Idx) requires h.within(s, n), h.par(n) == Some(p) ensures h.within(s, p) { let k = choose|k: nat| #[trigger] h.up(s, k) == Some(n); assert(h.up(s, k + 1) == Some(p)); }
/// `rs` says where each listed root goes (the last word counts), `ns` is all that lies in the listed subtrees
pub open spec fn whole(h: Hugr, rp: Seq<(Idx, Idx)>, rs: Seq<(Idx, Idx)>, ns: Seq<Idx>) -> bool {
  &&& forall|x: Idx| #![trigger ns.contains(x)] ns.contains(x) <==> under(h.hierarchy, rs, rs.len() as int, x)
  &&& forall|j: int| #![trigger rs[j]] 0 <= j < rs.len() ==> last_of(rp, rs[j].0) == Some(rs[j].1)
  &&& forall|i: int, j: int| 0 <= i < j < rs.len() ==> #[trigger] rs[i].0 != #[trigger] rs[j].0
  &&& forall|n: Idx| #![trigger listed(rp, n)] listed(rp, n) ==> exists|j: int| 0 <= j < rs.len() && #[trigger] rs[j].0 == n
}
pub fn one_root<N>(a: N, b: Idx) -> (r: Vec<(N, Idx)>) ensures r@ == seq![(a, b)] { let mut v = Vec::new(); v.push((a, b)); assert(v@ =~= seq![(a, b)]); v }
pub open spec fn all_inside<N, H: Source<N>>(h: H, n: N, ns: Seq<N>) -> bool { forall|x: N| #![trigger ns.contains(x)] ns.contains(x) <==> h.inside(x, n) }
/// `ns` is the subtree at `n`
pub open spec fn subtree(h: Hugr, n: Idx, ns: Seq<Idx>) -> bool { forall|x: Idx| #![trigger ns.contains(x)] ns.contains(x) <==> h.hierarchy.within(x, n) }
pub proof fn lemma_whole_one(h: Hugr, n: Idx, p: Idx, rs: Seq<(Idx, Idx)>, ns: Seq<Idx>) requires whole(h, seq![(n, p)], rs, ns) ensures rs == seq![(n, p)], subtree(h, n, ns)
{
  let rp = seq![(n, p)]; assert(rp.drop_last() =~= Seq::empty()); assert(last_of(rp, n) == Some(p)); assert(rp[0].0 == n); assert(listed(rp, n));
  let j = choose|j: int| 0 <= j < rs.len() && #[trigger] rs[j].0 == n;
  assert forall|i: int| 0 <= i < rs.len() implies #[trigger] rs[i] == (n, p) by { assert(last_of(rp, rs[i].0) == Some(rs[i].1)); lemma_last(rp, rs[i].0); assert(last_of(rp.drop_last(), rs[i].0) is None); }
  if rs.len() > 1 { assert(rs[0].0 == n && rs[1].0 == n); }
  assert(rs =~= rp);
  assert forall|x: Idx| #![trigger ns.contains(x)] ns.contains(x) <==> h.hierarchy.within(x, n) by { if h.hierarchy.within(x, n) { assert(h.hierarchy.within(x, rs[0].0)); assert(under(h.hierarchy, rs, 1, x)); } if under(h.hierarchy, rs, rs.len() as int, x) { let k = choose|k: int| 0 <= k < rs.len() && h.hierarchy.within(x, #[trigger] rs[k].0); } }
}
pub open spec fn clear(h: Hierarchy, r: Map<Idx, Idx>, s: Idx, n: Idx) -> bool { forall|y: Idx| #![trigger h.within(s, y)] h.within(s, y) && y != s && !(h.within(n, y) && y != n) ==> !r.dom().contains(y) }
"""
def tr_fn(m, tr, name):
    return m.fn(name, tr)
def wrappers(u):
    m = src(HM); im = m.impl(r'HugrMut for Hugr\s*\{'); tr = m.block(r'(?m)^pub trait HugrMut\b')
    u.text(FOREST2); u.text(FOREST3)
    u.text('impl Hugr {')
    VIEW = 'vok(*other), '
    OKR = 'r matches Ok(x) ==> copied(*final(self), *old(self), *other, {ns}, {rp}, x.node_map.m())'
    FORS = [(r'for \(&node, &new_node\) in &inserted\.node_map \{', 'let es = inserted.node_map.entries(); let mut n0: usize = 0; while n0 < es.len() { let (node, new_node) = es[n0]; n0 = n0 + 1;')]
    u.fn(m.fn('insert_view_forest', im), OW + f"""{VIEW} forall|j: int| #![trigger root_parents@[j]] 0 <= j < root_parents.len() ==> old(self).live(root_parents@[j].1) && nodes@.contains(root_parents@[j].0), forall|n: N| #![trigger nodes@.contains(n)] nodes@.contains(n) ==> other.has(n),
 ensures final(self).wf(), r is Ok <==> nodes@.no_duplicates(), {OKR.format(ns='nodes@', rp='root_parents@')},""", rules=FORS + [(r'insert_forest_internal\(self, other, nodes, root_parents\.into_iter\(\)\)\?', 'insert_forest_internal(self, other, nodes, root_parents)?'), (r'Some\(meta\.clone\(\)\)', 'Some((*meta).clone())')] + BASE,
         sig='fn insert_view_forest<N: Copy, H: Source<N>>(&mut self, other: &H, nodes: &Vec<N>, root_parents: &Vec<(N, Node)>) -> (r: Result<InsertedForest<N>, InsertForestError<N>>)', pre='let ghost o = *self; let ghost ns = nodes@; let ghost rp = root_parents@;',
         loops=[('invariant o.wf(), self.wf(), vok(*other), m == inserted.node_map.m(), lists(m, es@), n0 <= es.len(), covers(m, ns), forall|n: N| #![trigger ns.contains(n)] ns.contains(n) ==> other.has(n), pasted(*self, o, *other, ns, rp, m), loading(*self, o, *other, m, es@, n0 as int), decreases es.len() - n0,', 'let ghost g = *self; let ghost j = n0 as int; proof { assert(m.dom().contains(es@[j].0)); assert(ns.contains(es@[j].0)); assert(!o.live(es@[j].1)); }')],
         post_rules=[(r'(let inserted = [^;]*;)', r'\1 let ghost m = inserted.node_map.m(); let ghost g1 = *self;'), (r'(let mut n0: usize = 0;)', r'\1 proof { lemma_idle(g1, *self, o, *other, ns, rp, m, es@); }'),
                     (r'(\}\s*\})(\s*Ok\(inserted\))', r'} else { proof { %s } } proof { lemma_load(g, *self, o, o, *other, ns, rp, m, es@, j); } } proof { lemma_loaded(*self, o, *other, m, es@); } \2' % 'assert forall|k: Key| #![trigger other.datum(es@[j].0, k)] self.meta(es@[j].1, k) == other.datum(es@[j].0, k) by { assert(meta.at(k) is None); assert(g.meta(es@[j].1, k) == o.meta(es@[j].1, k)) by { assert forall|i: int| 0 <= i < j implies #[trigger] es@[i].1 != es@[j].1 by { assert(es@[i].0 != es@[j].0); assert(m.dom().contains(es@[i].0)); } } assert(!o.graph.live(es@[j].1)); }')], obligation='insert_view_forest')
    HK = [(r'let roots: HashMap<_, _> = root_parents\.into_iter\(\)\.collect\(\);', 'let roots = collected(root_parents); let rs = roots.entries();'),
          (r'for &subtree in roots\.keys\(\) \{', 'let mut n0: usize = 0; while n0 < rs.len() { let subtree = rs[n0].0; n0 = n0 + 1;'),
          (r'while let Some\((\w+)\) = (other\.get_parent\(n\)) \{', r'loop { let \1 = match \2 { Some(v) => v, None => break };'), (r'roots\.contains_key\(&parent\)', 'roots.get(&parent).is_some()'),
          (r'(?s)roots\.keys\(\)\.flat_map\(\|n\| other\.descendants\(\*n\)\)', '&all_under(&other, &rs, Ghost(rm))'), (r'roots\.iter\(\)\.map\(\|\(r, p\)\| \(\*r, \*p\)\)', '&rs'), (r'self\.extensions\.extend\(other\.extensions\(\)\)', 'self.extensions.extend(Source::<Idx>::extensions(&other))')] 
    u.fn(m.fn('insert_forest', im), OW + f"""other0.wf(), forall|j: int| #![trigger root_parents@[j]] 0 <= j < root_parents.len() ==> other0.live(root_parents@[j].0) && old(self).live(root_parents@[j].1),
 ensures final(self).wf(), (exists|a: Idx, b: Idx| #[trigger] listed(root_parents@, a) && #[trigger] listed(root_parents@, b) && a != b && other0.hierarchy.within(a, b)) ==> r is Err && *final(self) == *old(self), r is Err ==> (exists|a: Idx, b: Idx| #[trigger] listed(root_parents@, a) && #[trigger] listed(root_parents@, b) && a != b && other0.hierarchy.within(a, b)),
  r matches Ok(x) ==> exists|ns: Seq<Idx>, rs: Seq<(Idx, Idx)>| #[trigger] copied(*final(self), *old(self), other0, ns, rs, x.node_map.m()) && ns.no_duplicates() && whole(other0, root_parents@, rs, ns),""",
         rules=HK + FORS + BASE + EXP, sig='fn insert_forest(&mut self, other0: Hugr, root_parents: &Vec<(Node, Node)>) -> (r: Result<InsertedForest<Node>, InsertForestError<Node>>)', pre='let ghost o = *self; let mut other = other0; let ghost h = other; proof { lemma_vok(h); }',
         loops=[('invariant n0 <= rs.len(), h == other0, o == *old(self), o.wf(), rp == root_parents@, other == h, h.wf(), vok::<Idx, Hugr>(h), rm == roots.m(), lists(rm, rs@), *self == o, keys(rm, rp), forall|j: int| #![trigger rs@[j]] 0 <= j < rs.len() ==> h.live(rs@[j].0), forall|j: int| #![trigger rs@[j]] 0 <= j < n0 ==> clear_all(h.hierarchy, rm, rs@[j].0), decreases rs.len() - n0,', 'let ghost s = rs@[n0 as int].0; proof { lemma_step(h.hierarchy, s, s); assert(rm.dom().contains(s)); }'),
                ('invariant other == h, h == other0, o == *old(self), o.wf(), rp == root_parents@, h.wf(), vok::<Idx, Hugr>(h), rm == roots.m(), *self == o, keys(rm, rp), s == subtree, rm.dom().contains(s), h.live(n), h.hierarchy.within(s, n), clear(h.hierarchy, rm, s, n), ensures clear_all(h.hierarchy, rm, s), decreases Source::<Idx>::depth(&h, n),', 'proof { if Source::<Idx>::above(&h, n) is None { assert(h.par(n) is None); assert forall|y: Idx| #![trigger h.hierarchy.within(s, y)] h.hierarchy.within(s, y) && y != s implies !rm.dom().contains(y) by { lemma_step(h.hierarchy, n, y); } } else { let p = Source::<Idx>::above(&h, n)->0; lemma_live(h, n); lemma_chain(h.hierarchy, s, n, p); lemma_no_loop(h.hierarchy, p, n); } }'),
                ('invariant o.wf(), o == *old(self), self.wf(), h.wf(), m == inserted.node_map.m(), lists(m, es@), n0 <= es.len(), pasted(*self, o, h, ns, rs@, m), loading(*self, o, h, m, es@, n0 as int), other.metadata.def() is None, forall|i: int| #![trigger es@[i]] n0 <= i < es.len() ==> other.op_types.at(es@[i].0) == h.op_types.at(es@[i].0) && other.metadata.at(es@[i].0) == h.metadata.at(es@[i].0), decreases es.len() - n0,', 'let ghost g = *self; let ghost j = n0 as int; proof { assert forall|i: int| #![trigger es@[i]] j < i < es.len() implies es@[i].0 != es@[j].0 by {} }')],
         post_rules=[(r'(let rs = roots\.entries\(\);)', r'\1 let ghost rm = roots.m(); let ghost rp = root_parents@; proof { lemma_keys(rm, rp); assert forall|j: int| #![trigger rs@[j]] 0 <= j < rs.len() implies h.live(rs@[j].0) && o.live(rs@[j].1) by { assert(rm.dom().contains(rs@[j].0)); lemma_last(rp, rs@[j].0); } }'),
                     (r'return Err', 'proof { assert(h.hierarchy.within(s, parent)); assert(rm.dom().contains(parent)); assert(listed(rp, s) && listed(rp, parent)); assert(s != parent) by { lemma_no_loop(h.hierarchy, parent, n); if s == parent { assert(h.hierarchy.within(parent, n)); } } } return Err'),
                     (r'n = parent;', r'\g<0> proof { assert forall|y: Idx| #![trigger h.hierarchy.within(s, y)] h.hierarchy.within(s, y) && y != s && !(h.hierarchy.within(n, y) && y != n) implies !rm.dom().contains(y) by { lemma_step(h.hierarchy, n0_, y); } }'), (r'(\blet parent = match)', r'let ghost n0_ = n; \1'),
                     (r'(let inserted = insert_forest_internal)', r'proof { assert forall|a: Idx, b: Idx| #![trigger rm.dom().contains(a), rm.dom().contains(b)] rm.dom().contains(a) && rm.dom().contains(b) && a != b implies !h.hierarchy.within(a, b) by { let j = choose|j: int| 0 <= j < rs.len() && #[trigger] rs@[j] == (a, rm[a]); assert(clear_all(h.hierarchy, rm, rs@[j].0)); } } let inside = all_under(&other, &rs, Ghost(rm)); let ghost ns = inside@; proof { assert forall|j: int| #![trigger rs@[j]] 0 <= j < rs.len() implies ns.contains(rs@[j].0) && o.live(rs@[j].1) by { lemma_step(h.hierarchy, rs@[j].0, rs@[j].0); assert(under(h.hierarchy, rs@, rs.len() as int, rs@[j].0)); } } \1'), (r'&all_under\(&other, &rs, Ghost\(rm\)\),', '&inside,'),
                     (r'(?s)(let inserted = [^;]*;)', r'\1 let ghost m = inserted.node_map.m(); let ghost g1 = *self;'), (r'(let es = [^;]*;)', r'\1 proof { assert(g1.wf()); assert(pasted(g1, o, h, ns, rs@, m)); assert(bare(g1, o)); assert(*self == (Hugr { extensions: joined(g1.extensions, Source::<Idx>::registry(&h)), ..g1 })); lemma_idle(g1, *self, o, h, ns, rs@, m, es@); }'),
                     (r'(self\.metadata\.set\(new_node_pg, meta\);)', r'\1 proof { lemma_load(g, *self, o, o, h, ns, rs@, m, es@, j); }'), (r'Ok\(inserted\)', 'proof { lemma_loaded(*self, o, h, m, es@); assert(copied(*self, o, h, ns, rs@, m)); assert forall|j: int| #![trigger rs@[j]] 0 <= j < rs.len() implies last_of(rp, rs@[j].0) == Some(rs@[j].1) by { assert(rm.dom().contains(rs@[j].0)); } assert forall|n: Idx| #![trigger listed(rp, n)] listed(rp, n) implies exists|j: int| 0 <= j < rs.len() && #[trigger] rs@[j].0 == n by { assert(rm.dom().contains(n)); let j = choose|j: int| 0 <= j < rs.len() && #[trigger] rs@[j] == (n, rm[n]); assert(rs@[j].0 == n); } assert(whole(h, rp, rs@, ns)); } Ok(inserted)')], obligation='insert_forest')
    ONE = [(r'\[\((\w+), (\w+)\)\]', r'&one_root(\1, \2)'), (r'node_map\[&(\w+)\]', r'node_map.index(\1)')]
    REG = 'r.node_map.m().dom().contains({e}) && r.inserted_entrypoint == r.node_map.m()[{e}]'
    u.fn(tr_fn(m, tr, 'insert_region'), OW + f"""old(self).live(root), other.wf(), other.live(region),
 ensures final(self).wf(), {REG.format(e='region')}, exists|ns: Seq<Idx>| #[trigger] copied(*final(self), *old(self), other, ns, seq![(region, root)], r.node_map.m()) && ns.no_duplicates() && subtree(other, region, ns),""",
         rules=ONE + EXP + [(r'(?s)\.expect\("[^"]*"\)', '.done()')] + BASE, sig='fn insert_region(&mut self, root: Node, other: Hugr, region: Node) -> (r: InsertionResult<Node>)', pre='let ghost o = *self; let ghost h = other; proof { lemma_vok(h); lemma_step(h.hierarchy, region, region); }',
         post_rules=[(r'(?s)(let node_map = .*?;)', r"""\1 proof { let (ns, rs) = choose|ns: Seq<Idx>, rs: Seq<(Idx, Idx)>| #[trigger] copied(*self, o, h, ns, rs, node_map.m()) && ns.no_duplicates() && whole(h, seq![(region, root)], rs, ns); lemma_whole_one(h, region, root, rs, ns); assert(ns.contains(region)); assert(covers(node_map.m(), ns)); }""")], obligation='insert_region')
    u.fn(tr_fn(m, tr, 'insert_hugr'), OW + f"""old(self).live(root), other.wf(),
 ensures final(self).wf(), {REG.format(e='other.entrypoint')}, exists|ns: Seq<Idx>| #[trigger] copied(*final(self), *old(self), other, ns, seq![(other.entrypoint, root)], r.node_map.m()) && ns.no_duplicates() && subtree(other, other.entrypoint, ns),""",
         rules=[(r'other\.entrypoint\(\)', 'Source::<Idx>::entrypoint(&other)')] + BASE, sig='fn insert_hugr(&mut self, root: Node, other: Hugr) -> (r: InsertionResult<Node>)', obligation='insert_hugr')
    u.fn(tr_fn(m, tr, 'insert_from_view'), OW + f"""old(self).live(root), vok(*other), other.has(other.entry()),
 ensures final(self).wf(), {REG.format(e='other.entry()')}, exists|ns: Seq<N>| #[trigger] copied(*final(self), *old(self), *other, ns, seq![(other.entry(), root)], r.node_map.m()) && ns.no_duplicates() && all_inside(*other, other.entry(), ns),""",
         rules=[(r'other\.descendants\(ep\), ', '&other.descendants(ep), ')] + ONE + [(r'(?s)\.expect\("[^"]*"\)', '.done()')] + BASE, sig='fn insert_from_view<N: Copy, H: Source<N>>(&mut self, root: Node, other: &H) -> (r: InsertionResult<N>)', pre='let ghost o = *self;',
         post_rules=[(r'(let node_map = self\s*\.insert_view_forest\(other, )&other\.descendants\(ep\)', r'let inside = other.descendants(ep); let ghost ns = inside@; \1&inside'), (r'(?s)(let node_map = .*?;)', r'\1 proof { assert(copied(*self, o, *other, ns, seq![(ep, root)], node_map.m())); assert(ns.contains(ep)); assert(covers(node_map.m(), ns)); assert(all_inside(*other, other.entry(), ns)); assert(ns.no_duplicates()); }')], obligation='insert_from_view')
    u.fn(tr_fn(m, tr, 'insert_subgraph'), OW + f"""old(self).live(root), vok(*other), forall|n: N| #![trigger subgraph.of().contains(n)] subgraph.of().contains(n) ==> other.has(n),
 ensures final(self).wf(), copied(*final(self), *old(self), *other, subgraph.of(), paired_with(subgraph.of(), root), r.m()),""",
         rules=[(r'subgraph\.nodes\(\)\.iter\(\)\.cloned\(\)', '&subgraph.nodes()'), (r'subgraph\.nodes\(\)\.iter\(\)\.map\(\|n\| \(\*n, root\)\)', '&paired(&subgraph.nodes(), root)'), (r'(?s)\.expect\("[^"]*"\)', '.done()')] + BASE, sig='fn insert_subgraph<N: Copy, H: Source<N>>(&mut self, root: Node, other: &H, subgraph: &SiblingSubgraph<N>) -> (r: NodeMap<N>)',
         pre='proof { subgraph.set(); assert forall|j: int| 0 <= j < subgraph.of().len() implies subgraph.of().contains(#[trigger] subgraph.of()[j]) by {} }', obligation='insert_subgraph')
    u.text('}')
TWINS = """
impl Hierarchy {
  /// n and everything below it, n first
  #[verifier::external_body] pub fn descendants(&self, n: Idx) -> (r: Walk) ensures r.rest().len() > 0, r.rest()[0] == n, r.rest().no_duplicates(), forall|x: Idx| #![trigger r.rest().contains(x)] r.rest().contains(x) <==> self.within(x, n) { unimplemented!() }
}
#[verifier::external_body] pub struct Walk { _p: u8 }
impl Walk {
  pub uninterp spec fn rest(&self) -> Seq<Idx>;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Idx>) ensures r == (if old(self).rest().len() > 0 { Some(old(self).rest()[0]) } else { None }), final(self).rest() == (if old(self).rest().len() > 0 { old(self).rest().skip(1) } else { old(self).rest() }) { unimplemented!() }
  #[verifier::external_body] pub fn all(self) -> (r: Vec<Idx>) ensures r@ == self.rest() { unimplemented!() }
}
pub open spec fn img_s(m: Map<Idx, Idx>, l: Link) -> Link { Link { s: m[l.s], ..l } }
pub open spec fn img_t(m: Map<Idx, Idx>, l: Link) -> Link { Link { t: m[l.t], ..l } }
/// new nodes are in the graph: one for each node of m, with the ports of its original; links among the originals are there among the copies,
/// a link to a node outside is there from the copy too
pub open spec fn doubled(g: Graph, o: Graph, m: Map<Idx, Idx>) -> bool {
  &&& forall|a: Idx, b: Idx| #![trigger m.dom().contains(a), m.dom().contains(b)] m.dom().contains(a) && m.dom().contains(b) && a != b ==> m[a] != m[b]
  &&& forall|a: Idx| #![trigger m.dom().contains(a)] m.dom().contains(a) ==> !o.live(m[a]) && g.ins(m[a]) == o.ins(a) && g.outs(m[a]) == o.outs(a)
  &&& forall|x: Idx| #![trigger g.live(x)] g.live(x) <==> (o.live(x) || new_here(m, x))
  &&& forall|x: Idx| #![trigger g.ins(x)] #![trigger g.outs(x)] o.live(x) ==> g.ins(x) == o.ins(x) && g.outs(x) == o.outs(x)
  &&& forall|w: Wire<Idx>| #![trigger img(m, w)] both(m, w) ==> g.cnt(img(m, w)) == o.cnt(Link { s: w.s, o: w.o, t: w.t, i: w.i })
  &&& forall|l: Link| #![trigger img_s(m, l)] m.dom().contains(l.s) && o.live(l.t) ==> g.cnt(img_s(m, l)) == (if m.dom().contains(l.t) { 0 } else { o.cnt(l) })
  &&& forall|l: Link| #![trigger img_t(m, l)] m.dom().contains(l.t) && o.live(l.s) ==> g.cnt(img_t(m, l)) == (if m.dom().contains(l.s) { 0 } else { o.cnt(l) })
  &&& forall|l: Link| #![trigger g.cnt(l)] !new_here(m, l.s) && !new_here(m, l.t) ==> g.cnt(l) == o.cnt(l)
}
impl Graph {
  /// portgraph::view::Subgraph::with_nodes(self, nodes).copy_in_parent()
  #[verifier::external_body] pub fn copy_in_parent(&mut self, nodes: &Vec<Idx>) -> (r: NodeMap<Idx>) requires old(self).wf(), forall|x: Idx| #![trigger nodes@.contains(x)] nodes@.contains(x) ==> old(self).live(x)
    ensures final(self).wf(), covers(r.m(), nodes@), doubled(*final(self), *old(self), r.m()) { unimplemented!() }
}
pub open spec fn new_op(o: OpType, s: Option<Substitution>) -> OpType { match s { None => o, Some(s) => substituted(o, s) } }
/// where the copies of the children of q go, and what was there before
pub open spec fn home(m: Map<Idx, Idx>, root: Idx, np: Idx, q: Idx) -> Idx { if q == root { np } else { m[q] } }
pub open spec fn base(o: Hugr, root: Idx, np: Idx, q: Idx) -> Seq<Idx> { if q == root { o.kids(np) } else { Seq::empty() } }
pub open spec fn mapped(m: Map<Idx, Idx>, s: Seq<Idx>, k: nat) -> Seq<Idx> { Seq::new(k, |i: int| m[s[i]]) }
/// how many children of each node have been dealt with
pub ghost struct Marks { pub f: spec_fn(Idx) -> nat }
impl Marks { pub open spec fn at(&self, q: Idx) -> nat { (self.f)(q) } pub open spec fn bump(self, q: Idx) -> Marks { Marks { f: |x: Idx| if x == q { self.at(q) + 1 } else { self.at(x) } } } }
pub open spec fn no_marks() -> Marks { Marks { f: |x: Idx| 0nat } }
pub open spec fn inner(o: Hugr, root: Idx, m: Map<Idx, Idx>) -> bool { forall|x: Idx| #![trigger m.dom().contains(x)] m.dom().contains(x) <==> o.hierarchy.within(x, root) && x != root }
/// of the children of q, the copies of the first p.at(q) are in their place
pub open spec fn hanging(g: Hugr, o: Hugr, m: Map<Idx, Idx>, root: Idx, np: Idx, p: Marks) -> bool {
  &&& forall|q: Idx| #![trigger p.at(q)] m.dom().contains(q) || q == root ==> p.at(q) <= o.kids(q).len() && g.kids(home(m, root, np, q)) == base(o, root, np, q) + mapped(m, o.kids(q), p.at(q))
  &&& forall|c: Idx| #![trigger m.dom().contains(c)] m.dom().contains(c) ==> o.par(c) is Some && g.par(m[c]) == (if o.kids(o.par(c)->0).take(p.at(o.par(c)->0) as int).contains(c) { Some(home(m, root, np, o.par(c)->0)) } else { None })
  &&& forall|x: Idx| #![trigger g.hierarchy.par(x)] o.live(x) ==> g.par(x) == o.par(x)
  &&& forall|x: Idx| #![trigger g.hierarchy.kids(x)] o.live(x) && x != np ==> g.kids(x) == o.kids(x)
}
/// the first j entries have their operation and metadata
pub open spec fn dressed(g: Hugr, o: Hugr, e: Seq<(Idx, Idx)>, j: int, s: Option<Substitution>) -> bool {
  &&& forall|i: int| #![trigger e[i]] 0 <= i < j ==> g.op(e[i].1) == new_op(o.op(e[i].0), s)
  &&& forall|i: int, k: Key| #![trigger e[i], g.meta(e[i].1, k)] 0 <= i < j ==> g.meta(e[i].1, k) == o.meta(e[i].0, k)
  &&& forall|x: Idx| #![trigger g.op_types.at(x)] o.live(x) ==> g.op(x) == o.op(x)
  &&& forall|x: Idx, k: Key| #![trigger g.meta(x, k)] o.live(x) ==> g.meta(x, k) == o.meta(x, k)
  &&& g.same_ends(&o) && g.metadata.def() is None
}
pub open spec fn duplicated(g: Hugr, o: Hugr, root: Idx, np: Idx, m: Map<Idx, Idx>, s: Option<Substitution>) -> bool {
  &&& inner(o, root, m) && doubled(g.graph, o.graph, m) && g.same_ends(&o)
  &&& forall|c: Idx| #![trigger m.dom().contains(c)] m.dom().contains(c) ==> o.par(c) is Some && g.par(m[c]) == Some(home(m, root, np, o.par(c)->0)) && g.kids(m[c]) == mapped(m, o.kids(c), o.kids(c).len()) && g.op(m[c]) == new_op(o.op(c), s)
  &&& forall|c: Idx, k: Key| #![trigger m.dom().contains(c), g.meta(m[c], k)] m.dom().contains(c) ==> g.meta(m[c], k) == o.meta(c, k)
  &&& forall|x: Idx| #![trigger g.hierarchy.par(x)] o.live(x) ==> g.par(x) == o.par(x)
  &&& forall|x: Idx| #![trigger g.hierarchy.kids(x)] o.live(x) ==> g.kids(x) == (if x == np { o.kids(np) + mapped(m, o.kids(root), o.kids(root).len()) } else { o.kids(x) })
  &&& forall|x: Idx| #![trigger g.op_types.at(x)] o.live(x) ==> g.op(x) == o.op(x)
  &&& forall|x: Idx, k: Key| #![trigger g.meta(x, k)] o.live(x) ==> g.meta(x, k) == o.meta(x, k)
}
"""
TL = {'lemma_below': """
pub proof fn lemma_below(o: Hugr, root: Idx, d: Seq<Idx>, ns: Seq<Idx>) requires o.wf(), o.live(root), d.len() > 0, d[0] == root, d.no_duplicates(), forall|x: Idx| #![trigger d.contains(x)] d.contains(x) <==> o.hierarchy.within(x, root), ns == d.skip(1)
  ensures forall|x: Idx| #![trigger ns.contains(x)] ns.contains(x) <==> o.hierarchy.within(x, root) && x != root, forall|x: Idx| #![trigger ns.contains(x)] ns.contains(x) ==> o.live(x)
{
  assert forall|x: Idx| #![trigger ns.contains(x)] (ns.contains(x) <==> o.hierarchy.within(x, root) && x != root) && (ns.contains(x) ==> o.live(x)) by {
    if ns.contains(x) { let i = choose|i: int| 0 <= i < ns.len() && #[trigger] ns[i] == x; assert(d[i + 1] == x); assert(d.contains(x)); assert(x != d[0]); lemma_step(o.hierarchy, x, root); lemma_live(o, x); }
    if o.hierarchy.within(x, root) && x != root { assert(d.contains(x)); let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == x; assert(i > 0); assert(ns[i - 1] == x); } }
}""",
'lemma_inner_live': """
pub proof fn lemma_inner_live(o: Hugr, root: Idx, m: Map<Idx, Idx>, c: Idx) requires o.wf(), inner(o, root, m), m.dom().contains(c) ensures o.live(c), o.par(c) is Some { lemma_step(o.hierarchy, c, root); lemma_live(o, c); }""",
'lemma_others': """
pub proof fn lemma_others(m: Map<Idx, Idx>, e: Seq<(Idx, Idx)>, k: int) requires lists(m, e), 0 <= k < e.len() ensures forall|i: int| #![trigger e[i]] 0 <= i < e.len() && i != k ==> e[i].0 != e[k].0 { assert forall|i: int| #![trigger e[i]] 0 <= i < e.len() && i != k implies e[i].0 != e[k].0 by { if i < k { assert(e[i].0 != e[k].0); } else { assert(e[k].0 != e[i].0); } } }""",
'lemma_inner_kid': """
pub proof fn lemma_inner_kid(o: Hugr, root: Idx, m: Map<Idx, Idx>, q: Idx, j: int) requires o.wf(), o.live(root), inner(o, root, m), m.dom().contains(q) || q == root, 0 <= j < o.kids(q).len()
  ensures m.dom().contains(o.kids(q)[j]), o.par(o.kids(q)[j]) == Some(q), o.live(o.kids(q)[j])
{ let c = o.kids(q)[j]; assert(o.kids(q).contains(c)); assert(o.par(c) == Some(q)); lemma_live(o, c); lemma_step(o.hierarchy, q, root); lemma_step(o.hierarchy, c, root); assert(o.hierarchy.within(q, root)); assert(o.hierarchy.within(c, root));
  if c == root { lemma_no_loop(o.hierarchy, q, c); } }""",
'lemma_room': """
/// the next copy may be moved where it belongs
pub proof fn lemma_room(g: Hugr, o: Hugr, m: Map<Idx, Idx>, root: Idx, np: Idx, p: Marks, q: Idx)
  requires o.wf(), g.wf(), o.live(root), o.live(np), inner(o, root, m), doubled(g.graph, o.graph, m), g.same_ends(&o), hanging(g, o, m, root, np, p), m.dom().contains(q) || q == root, p.at(q) < o.kids(q).len()
  ensures m.dom().contains(o.kids(q)[p.at(q) as int]), g.live(m[o.kids(q)[p.at(q) as int]]), g.live(home(m, root, np, q)), m[o.kids(q)[p.at(q) as int]] != g.module_root, g.par(m[o.kids(q)[p.at(q) as int]]) is None, !g.hierarchy.within(home(m, root, np, q), m[o.kids(q)[p.at(q) as int]])
{
  let j = p.at(q) as int; let c = o.kids(q)[j]; lemma_inner_kid(o, root, m, q, j); lemma_vok(o);
  assert(new_here(m, m[c])); assert(!o.graph.live(m[c])); assert(o.graph.live(o.module_root)); assert(g.graph.live(m[c])); assert(g.graph.live(np));
  assert(!o.kids(q).take(j).contains(c)) by { if o.kids(q).take(j).contains(c) { let i = choose|i: int| 0 <= i < j && #[trigger] o.kids(q).take(j)[i] == c; assert(o.kids(q)[i] == c); } }
  assert(g.par(m[c]) is None);
  if q == root { lemma_above_old(g, o, np, m[c]); }
  else {
    assert(new_here(m, m[q])); assert(g.graph.live(m[q]));
    assert(shape(g, o, o, m)) by { assert forall|a: Idx| #![trigger m.dom().contains(a)] m.dom().contains(a) implies g.par(m[a]) is None || o.live(g.par(m[a])->0) || (Source::<Idx>::above(&o, a) matches Some(q) && m.dom().contains(q) && g.par(m[a]) == Some(m[q])) by { if g.par(m[a]) is Some { let b = o.par(a)->0; lemma_step(o.hierarchy, a, root); if b != root { assert(m.dom().contains(b)); } } } }
    assert(copies(g, o, o, m)); assert(c != o.module_root);
    lemma_outside(g, o, o, m, c, q);
  }
}""",
'lemma_hang': """
pub proof fn lemma_hang(a: Hugr, b: Hugr, o: Hugr, m: Map<Idx, Idx>, root: Idx, np: Idx, p: Marks, q: Idx)
  requires o.wf(), a.wf(), o.live(root), o.live(np), inner(o, root, m), doubled(a.graph, o.graph, m), a.same_ends(&o), hanging(a, o, m, root, np, p), m.dom().contains(q) || q == root, p.at(q) < o.kids(q).len(),
    b.hierarchy.placed(&a.hierarchy, m[o.kids(q)[p.at(q) as int]], home(m, root, np, q))
  ensures hanging(b, o, m, root, np, p.bump(q))
{
  let j = p.at(q) as int; let c = o.kids(q)[j]; let r = p.bump(q); let n = m[c]; let hq = home(m, root, np, q);
  lemma_room(a, o, m, root, np, p, q); lemma_inner_kid(o, root, m, q, j);
  assert forall|x: Idx| #![trigger a.hierarchy.kids(x)] without(a.kids(x), n) == a.kids(x) by { lemma_without(a.kids(x), n); if a.kids(x).contains(n) { assert(a.par(n) == Some(x)); } }
  assert(!o.live(n));
  assert forall|x: Idx| #![trigger r.at(x)] m.dom().contains(x) || x == root implies r.at(x) <= o.kids(x).len() && b.kids(home(m, root, np, x)) == base(o, root, np, x) + mapped(m, o.kids(x), r.at(x)) by {
    let y = p.at(x); let hx = home(m, root, np, x);
    assert(a.kids(hx) == base(o, root, np, x) + mapped(m, o.kids(x), p.at(x)));
    if x == q { assert(b.hierarchy.kids(hx) == a.kids(hx).push(n)); assert((base(o, root, np, x) + mapped(m, o.kids(x), p.at(x))).push(n) =~= base(o, root, np, x) + mapped(m, o.kids(x), r.at(x))); }
    else { assert(hx != hq) by { if x != root { assert(!o.live(m[x])); } if q != root { assert(!o.live(m[q])); } }; assert(b.hierarchy.kids(hx) == a.kids(hx)); } }
  assert forall|d: Idx| #![trigger m.dom().contains(d)] m.dom().contains(d) implies o.par(d) is Some && b.par(m[d]) == (if o.kids(o.par(d)->0).take(r.at(o.par(d)->0) as int).contains(d) { Some(home(m, root, np, o.par(d)->0)) } else { None }) by {
    let z = o.par(d)->0; assert(b.hierarchy.par(m[d]) == (if m[d] == n { Some(hq) } else { a.par(m[d]) }));
    if d == c { assert(o.kids(q).take(j + 1)[j] == c); }
    else if z == q { let s = o.kids(q); assert(m[d] != n);
      if s.take(j).contains(d) { let i = choose|i: int| 0 <= i < j && #[trigger] s.take(j)[i] == d; assert(s.take(j + 1)[i] == d); }
      if s.take(j + 1).contains(d) { let i = choose|i: int| 0 <= i < j + 1 && #[trigger] s.take(j + 1)[i] == d; assert(s[i] == d); assert(i < j); assert(s.take(j)[i] == d); } }
    else { assert(m[d] != n); assert(r.at(z) == p.at(z)); } }
  assert forall|x: Idx| #![trigger b.hierarchy.par(x)] o.live(x) implies b.par(x) == o.par(x) by { assert(a.hierarchy.par(x) == o.par(x)); }
  assert forall|x: Idx| #![trigger b.hierarchy.kids(x)] o.live(x) && x != np implies b.kids(x) == o.kids(x) by { assert(a.hierarchy.kids(x) == o.kids(x)); if q != root { assert(!o.live(m[q])); } assert(x != hq); }
}""",
'lemma_doubled': """
pub proof fn lemma_doubled(a: Hugr, b: Hugr, o: Hugr, m: Map<Idx, Idx>) requires a.wf(), o.wf(), doubled(a.graph, o.graph, m), b.same_graph(&a) ensures doubled(b.graph, o.graph, m)
{
  assert forall|x: Idx| #![trigger b.graph.live(x)] b.graph.live(x) <==> (o.live(x) || new_here(m, x)) by { assert(a.graph.live(x) == b.graph.live(x)); }
}""",
'lemma_dressed': """
pub proof fn lemma_dressed(a: Hugr, b: Hugr, o: Hugr, m: Map<Idx, Idx>, e: Seq<(Idx, Idx)>, j: int, s: Option<Substitution>)
  requires a.wf(), o.wf(), lists(m, e), doubled(a.graph, o.graph, m), 0 <= j <= e.len(), dressed(a, o, e, j, s), b.wf(), b.same_ops(&a), b.same_meta(&a), b.same_ends(&a) ensures dressed(b, o, e, j, s)
{
  assert forall|i: int| #![trigger e[i]] 0 <= i < j implies b.op(e[i].1) == new_op(o.op(e[i].0), s) by { assert(m.dom().contains(e[i].0)); assert(new_here(m, e[i].1)); assert(a.graph.live(e[i].1)); assert(a.op_types.at(e[i].1) == b.op_types.at(e[i].1)); }
  assert forall|i: int, k: Key| #![trigger e[i], b.meta(e[i].1, k)] 0 <= i < j implies b.meta(e[i].1, k) == o.meta(e[i].0, k) by { assert(m.dom().contains(e[i].0)); assert(new_here(m, e[i].1)); assert(a.graph.live(e[i].1)); assert(a.meta(e[i].1, k) == o.meta(e[i].0, k)); }
  assert forall|x: Idx, k: Key| #![trigger b.meta(x, k)] o.live(x) implies b.meta(x, k) == o.meta(x, k) by { assert(a.graph.live(x)); assert(a.meta(x, k) == o.meta(x, k)); }
  assert forall|x: Idx| #![trigger b.op_types.at(x)] o.live(x) implies b.op(x) == o.op(x) by { assert(a.graph.live(x)); assert(a.op_types.at(x) == o.op(x)); }
}""",
'lemma_dress': """
pub proof fn lemma_dress(a: Hugr, b: Hugr, o: Hugr, m: Map<Idx, Idx>, e: Seq<(Idx, Idx)>, j: int, s: Option<Substitution>)
  requires a.wf(), o.wf(), lists(m, e), doubled(a.graph, o.graph, m), 0 <= j < e.len(), dressed(a, o, e, j, s), b.same_ends(&a), b.graph == a.graph, b.hierarchy == a.hierarchy, b.metadata.def() == a.metadata.def(),
    forall|x: Idx| #![trigger b.op_types.at(x)] b.op_types.at(x) == (if x == e[j].1 { new_op(o.op(e[j].0), s) } else { a.op_types.at(x) }),
    forall|x: Idx| #![trigger b.metadata.at(x)] x != e[j].1 ==> b.metadata.at(x) == a.metadata.at(x), forall|k: Key| #![trigger b.meta(e[j].1, k)] b.meta(e[j].1, k) == o.meta(e[j].0, k)
  ensures dressed(b, o, e, j + 1, s), b.wf()
{
  assert(m.dom().contains(e[j].0)); assert(!o.live(e[j].1)); assert(new_here(m, e[j].1)); assert(a.graph.live(e[j].1));
  assert forall|i: int| #![trigger e[i]] 0 <= i < j + 1 implies b.op(e[i].1) == new_op(o.op(e[i].0), s) by { if i < j { assert(e[i].0 != e[j].0); assert(m.dom().contains(e[i].0)); assert(e[i].1 != e[j].1); assert(a.op(e[i].1) == new_op(o.op(e[i].0), s)); } }
  assert forall|i: int, k: Key| #![trigger e[i], b.meta(e[i].1, k)] 0 <= i < j + 1 implies b.meta(e[i].1, k) == o.meta(e[i].0, k) by { if i < j { assert(e[i].0 != e[j].0); assert(m.dom().contains(e[i].0)); assert(e[i].1 != e[j].1); assert(a.meta(e[i].1, k) == o.meta(e[i].0, k)); } }
  assert forall|x: Idx| #![trigger b.op_types.at(x)] o.live(x) implies b.op(x) == o.op(x) by { assert(a.op_types.at(x) == o.op(x)); }
  assert forall|x: Idx, k: Key| #![trigger b.meta(x, k)] o.live(x) implies b.meta(x, k) == o.meta(x, k) by { assert(a.meta(x, k) == o.meta(x, k)); }
  assert forall|x: Idx| #![trigger b.graph.live(x)] !b.live(x) implies b.par(x) is None && b.kids(x).len() == 0 && b.metadata.at(x) is None by { assert(a.graph.live(x) == b.graph.live(x)); }
}""",
'lemma_twin_start': """
pub proof fn lemma_twin_start(g: Hugr, o: Hugr, m: Map<Idx, Idx>, root: Idx, np: Idx, e: Seq<(Idx, Idx)>, s: Option<Substitution>) requires o.wf(), o.live(root), o.live(np), inner(o, root, m), g.graph.wf(), doubled(g.graph, o.graph, m), g == (Hugr { graph: g.graph, ..o }) ensures g.wf(), hanging(g, o, m, root, np, no_marks()), dressed(g, o, e, 0, s)
{
  let p = no_marks();
  assert(g.graph.live(g.module_root)) by { assert(o.graph.live(o.module_root)); } assert(g.graph.live(g.entrypoint)) by { assert(o.graph.live(o.entrypoint)); }
  assert forall|x: Idx| #![trigger g.graph.live(x)] !g.live(x) implies g.par(x) is None && g.kids(x).len() == 0 && g.metadata.at(x) is None by { assert(!o.graph.live(x)); }
  assert forall|q: Idx| #![trigger p.at(q)] m.dom().contains(q) || q == root implies p.at(q) <= o.kids(q).len() && g.kids(home(m, root, np, q)) == base(o, root, np, q) + mapped(m, o.kids(q), p.at(q)) by { assert(mapped(m, o.kids(q), 0) =~= Seq::empty()); if q != root { assert(!o.graph.live(m[q])); assert(o.kids(m[q]) =~= Seq::empty()); } assert(base(o, root, np, q) + mapped(m, o.kids(q), 0) =~= base(o, root, np, q)); }
  assert forall|c: Idx| #![trigger m.dom().contains(c)] m.dom().contains(c) implies o.par(c) is Some && g.par(m[c]) == (if o.kids(o.par(c)->0).take(p.at(o.par(c)->0) as int).contains(c) { Some(home(m, root, np, o.par(c)->0)) } else { None }) by { lemma_step(o.hierarchy, c, root); assert(!o.graph.live(m[c])); assert(o.kids(o.par(c)->0).take(0) =~= Seq::empty()); }
}""",
'lemma_twin_end': """
pub proof fn lemma_twin_end(g: Hugr, o: Hugr, m: Map<Idx, Idx>, root: Idx, np: Idx, e: Seq<(Idx, Idx)>, s: Option<Substitution>, p: Marks)
  requires o.wf(), g.wf(), o.live(root), o.live(np), inner(o, root, m), doubled(g.graph, o.graph, m), hanging(g, o, m, root, np, p), lists(m, e), dressed(g, o, e, e.len() as int, s), forall|q: Idx| #![trigger p.at(q)] m.dom().contains(q) || q == root ==> p.at(q) == o.kids(q).len()
  ensures duplicated(g, o, root, np, m, s)
{
  assert forall|c: Idx| #![trigger m.dom().contains(c)] m.dom().contains(c) implies o.par(c) is Some && g.par(m[c]) == Some(home(m, root, np, o.par(c)->0)) && g.kids(m[c]) == mapped(m, o.kids(c), o.kids(c).len()) && g.op(m[c]) == new_op(o.op(c), s) by {
    let z = o.par(c)->0; lemma_live(o, c); lemma_step(o.hierarchy, c, root); let y = p.at(z); assert(m.dom().contains(z) || z == root); assert(o.kids(z).take(o.kids(z).len() as int) =~= o.kids(z));
    let w = p.at(c); assert(Seq::<Idx>::empty() + mapped(m, o.kids(c), o.kids(c).len()) =~= mapped(m, o.kids(c), o.kids(c).len()));
    let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j] == (c, m[c]); }
  assert forall|x: Idx| #![trigger g.hierarchy.kids(x)] o.live(x) implies g.kids(x) == (if x == np { o.kids(np) + mapped(m, o.kids(root), o.kids(root).len()) } else { o.kids(x) }) by { let w = p.at(root); }
  assert forall|c: Idx, k: Key| #![trigger m.dom().contains(c), g.meta(m[c], k)] m.dom().contains(c) implies g.meta(m[c], k) == o.meta(c, k) by { let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j] == (c, m[c]); assert(g.meta(e[j].1, k) == o.meta(e[j].0, k)); }
}"""}
def twins(u):
    m = src(HM); im = m.impl(r'HugrMut for Hugr\s*\{')
    u.text(TWINS)
    for n, x in TL.items(): u.lemma(n, x)
    u.trust("portgraph::view::Subgraph::copy_in_parent adds one node for each listed node with its ports, the links among them, and the links to the other nodes")
    u.text('impl Hugr {')
    G = 'o == *old(self), o.wf(), self.wf(), o.live(root), o.live(new_parent), inner(o, root, m), m == node_map.m(), doubled(self.graph, o.graph, m), self.same_ends(&o), lists(m, es@), hanging(*self, o, m, root, new_parent, p), '
    STEP = 'let ghost g0 = *self; proof { lemma_room(*self, o, m, root, new_parent, p, %s); }'
    AFTER = r' proof { lemma_hang(g0, *self, o, m, root, new_parent, p, %s); lemma_doubled(g0, *self, o, m); lemma_dressed(g0, *self, o, m, es@, %s, subst); p = p.bump(%s); }'
    u.fn(m.fn('copy_descendants', im), OW + """old(self).live(root), old(self).live(new_parent), ensures final(self).wf(), duplicated(*final(self), *old(self), root, new_parent, r.m(), subst),""",
         rules=[(r'debug_assert_eq!\([^;]*\);', ''), (r'Vec::from_iter\(descendants\)', 'descendants.all()'), (r'(?s)portgraph::view::Subgraph::with_nodes\(&mut self\.graph, nodes\)\s*\.copy_in_parent\(\)\s*\.expect\("[^"]*"\)', 'self.graph.copy_in_parent(&nodes)'),
                (r'(?s)let node_map =\s*translate_indices\([^;]*;', ''), (r'for \(&node, &new_node\) in &node_map \{', 'let es = node_map.entries(); let mut n0: usize = 0; while n0 < es.len() { let (node, new_node) = es[n0]; n0 = n0 + 1;'),
                (r'for ch in self\.children\(node\)\.collect::<Vec<_>>\(\) \{', 'let v1 = self.children(node); let mut n1: usize = 0; while n1 < v1.len() { let ch = v1[n1]; n1 = n1 + 1;'), (r'\.collect::<Vec<_>>\(\)', ''),
                (r'for node in copied_children \{', 'let mut n2: usize = 0; while n2 < copied_children.len() { let node = copied_children[n2]; n2 = n2 + 1;'), (r'\*node_map\.get\(&(\w+)\)\.unwrap\(\)', r'node_map.index(\1)'),
                (r'(?s)match \(&subst, self\.get_optype\(node\)\) \{\s*\(None, op\) => op\.clone\(\),\s*\(Some\(subst\), op\) => op\.substitute\(subst\),', 'match &subst { None => self.get_optype(node).clone(), Some(subst) => self.get_optype(node).substitute(subst),')] + BASE,
         sig='fn copy_descendants(&mut self, root: Node, new_parent: Node, subst: Option<Substitution>) -> (r: NodeMap<Node>)', pre='let ghost o = *self;',
         loops=[('invariant ' + G + 'n0 <= es.len(), copied_children@ == o.kids(root), p.at(root) == 0, forall|i: int| #![trigger es@[i]] 0 <= i < es.len() ==> p.at(es@[i].0) == (if i < n0 { o.kids(es@[i].0).len() } else { 0 }), dressed(*self, o, es@, n0 as int, subst), decreases es.len() - n0,',
                 'let ghost k = n0 as int; proof { assert(es@[k].0 == es@[k].0); assert(m.dom().contains(es@[k].0)); lemma_inner_live(o, root, m, es@[k].0); assert(self.graph.live(es@[k].0)); assert(self.hierarchy.kids(es@[k].0) == o.kids(es@[k].0)); }'),
                ('invariant ' + G + '0 <= k < es.len(), n0 == k + 1, node == es@[k].0, new_node == es@[k].1, copied_children@ == o.kids(root), p.at(root) == 0, v1@ == o.kids(node), n1 <= v1.len(), p.at(node) == n1, m.dom().contains(node), o.live(node), forall|i: int| #![trigger es@[i]] 0 <= i < es.len() && i != k ==> p.at(es@[i].0) == (if i < k { o.kids(es@[i].0).len() } else { 0 }), dressed(*self, o, es@, k, subst), decreases v1.len() - n1,', STEP % 'node' ),
                ('invariant ' + G + 'n2 <= copied_children.len(), copied_children@ == o.kids(root), p.at(root) == n2, forall|i: int| #![trigger es@[i]] 0 <= i < es.len() ==> p.at(es@[i].0) == o.kids(es@[i].0).len(), dressed(*self, o, es@, es.len() as int, subst), decreases copied_children.len() - n2,', STEP % 'root')],
         post_rules=[(r'(let nodes = [^;]*;)', r'\1 proof { lemma_below(o, root, d0, nodes@); }'), (r'(let mut descendants = [^;]*;)', r'\1 let ghost d0 = descendants.rest();'),
                     (r'(let mut n0: usize = 0;)', r'\1 proof { lemma_twin_start(*self, o, m, root, new_parent, es@, subst); }'), (r'(self\.metadata\.set\([^;]*;)', r'\1 proof { assert forall|key: Key| #![trigger self.meta(es@[k].1, key)] self.meta(es@[k].1, key) == o.meta(es@[k].0, key) by { assert(g2.meta(es@[k].0, key) == o.meta(es@[k].0, key)); } lemma_dress(g2, *self, o, m, es@, k, subst); }'), (r'(let new_optype = )', r'let ghost g2 = *self; \1'),
                     (r'node_map\s*\}\s*$', 'proof { assert forall|q: Idx| #![trigger p.at(q)] m.dom().contains(q) || q == root implies p.at(q) == o.kids(q).len() by { if m.dom().contains(q) { let j = choose|j: int| 0 <= j < es@.len() && #[trigger] es@[j] == (q, m[q]); } } lemma_twin_end(*self, o, m, root, new_parent, es@, subst, p); } node_map }'),
                     (r'(self\.set_parent\(node_map\.index\(ch\), new_node\);)', r'\1' + AFTER % ('node', 'k', 'node') + ' proof { lemma_others(m, es@, k); }'), (r'(self\.set_parent\(node_map\.index\(node\), new_parent\);)', r'\1' + AFTER % ('root', 'es.len() as int', 'root')),
                     (r'(self\.graph\.copy_in_parent\(&nodes\);)', r'\1 let ghost m = node_map.m(); let ghost g1 = *self; let ghost mut p = no_marks();')], obligation='copy_descendants')
    u.text('}')
def setup(u):
    u.text(DATA); u.text(SPEC)
    for n, t in LEM.items(): u.lemma(n, t)
    u.trust('portgraph 0.15.2 (MultiPortGraph, Hierarchy, UnmanagedDenseMap) does what its documentation says: the callee contracts state it node by node, port by port and link by link')
    u.trust('Node wraps portgraph::NodeIndex, Port/IncomingPort/OutgoingPort wrap portgraph::PortOffset: conversions between them are identities')
    u.trust('serde_json::Map and Option::get_or_insert_with hold what was put into them')
    u.trust('operations report their port counts and other-edge ports (O01, O02)')
def views(u):
    s = src(HW); im = s.impl(r'HugrView for Hugr\s*\{')
    R = BASE
    u.text('impl Hugr {')
    for n, c in (('entrypoint', 'ensures r == self.entrypoint,'), ('module_root', 'ensures r == self.module_root,'), ('contains_node', 'ensures r == self.live(node),'),
                 ('get_parent', 'ensures r == (if self.live(node) && node != self.module_root { self.par(node) } else { None }),'), ('get_optype', 'requires self.live(node), ensures *r == self.op(node),'),
                 ('num_nodes', 'ensures r == self.graph.size(),'), ('num_ports', 'ensures r == (match dir { Direction::Incoming => self.graph.ins(node), Direction::Outgoing => self.graph.outs(node) }),'),
                 ('children', 'ensures r@ == self.kids(node),')):
        u.fn(s.fn(n, im), c, rules=R, obligation=f'HugrView for Hugr::{n}')
    i = src(HI); ii = i.impl(r'HugrInternals for Hugr\s*\{')
    u.fn(i.fn('node_metadata_map', ii), 'requires self.live(node), ensures forall|k: Key| #![trigger r.at(k)] r.at(k) == self.meta(node, k),', rules=R + [(r'static EMPTY[^;]*;', ''), (r'(?s)let map = (.*?)\.as_ref\(\);\s*map\.unwrap_or\(EMPTY\.get_or_init\(Default::default\)\)', r'let map = \1; match map { Some(m) => m, None => NodeMetadataMap::none() }')], obligation='HugrInternals for Hugr::node_metadata_map')
    u.text('}')
    for n, c in (('check_valid_non_entrypoint', 'ensures r == (hugr.live(node) && node != hugr.entrypoint),'), ('check_valid_non_root', 'ensures r == (hugr.live(node) && node != hugr.module_root),'),
                 ('panic_invalid_node', 'requires hugr.live(node),'), ('panic_invalid_non_entrypoint', 'requires hugr.live(node), node != hugr.entrypoint,'), ('panic_invalid_port', 'requires hugr.graph.has(node, port),')):
        u.fn(s.fn(n), c, rules=R, obligation=n)
OW = 'requires old(self).wf(), '
def edits(u):
    m = src(HM); im = m.impl(r'HugrMut for Hugr\s*\{'); i = src(HI); ii = i.impl(r'HugrMutInternals for Hugr\s*\{'); g = src(HG)
    u.text('impl Hugr {')
    G0 = 'let ghost o = *self;'
    u.fn(of(g, r'Hugr\s*\{', 'add_node'), OW + 'ensures final(self).wf(), final(self).fresh(old(self), r, nodetype), final(self).same_tree(old(self)),', rules=BASE, obligation='Hugr::add_node')
    u.fn(of(g, r'Hugr\s*\{', 'reserve'), OW + 'links <= usize::MAX / 2, ensures final(self).wf(), final(self).same_but_tree(old(self)), final(self).same_tree(old(self)),', rules=BASE, obligation='Hugr::reserve')
    # ---- nodes and ports
    u.fn(i.fn('set_module_root', ii), OW + 'old(self).live(root), ensures final(self).wf(), final(self).same_graph(old(self)), final(self).same_ops(old(self)), final(self).same_meta(old(self)), final(self).module_root == root, final(self).entrypoint == old(self).entrypoint, final(self).extensions == old(self).extensions, final(self).hierarchy.detached(&old(self).hierarchy, root),', rules=BASE, pre=G0,
         post_rules=[(r'self\.module_root = root;', 'proof { lemma_detached(o.hierarchy, self.hierarchy, root); } self.module_root = root;')], obligation='set_module_root')
    PORTS = 'forall|x: Idx| #![trigger final(self).graph.ins(x)] #![trigger final(self).graph.outs(x)] x != node ==> final(self).graph.ins(x) == old(self).graph.ins(x) && final(self).graph.outs(x) == old(self).graph.outs(x), final(self).same_nodes(old(self)), final(self).same_tree(old(self)), final(self).same_ops(old(self)), final(self).same_meta(old(self)), final(self).same_ends(old(self)),'
    KEPT = 'forall|l: Link| #![trigger final(self).graph.cnt(l)] final(self).graph.cnt(l) == (if l.s == node && l.o >= final(self).graph.outs(node) || l.t == node && l.i >= final(self).graph.ins(node) { 0 } else { old(self).graph.cnt(l) }),'
    u.fn(i.fn('set_num_ports', ii), OW + f'old(self).live(node), ensures final(self).wf(), final(self).graph.ins(node) == incoming, final(self).graph.outs(node) == outgoing, {KEPT} {PORTS}', rules=BASE, obligation='set_num_ports')
    R2 = 'invariant e == o.graph.%s(node), k >= %s, self.wf(), self.live(node), n == node, self.graph.ins(node) == o.graph.ins(node), self.graph.outs(node) == o.graph.outs(node), self.graph.same_nodes(&o.graph), self.graph.same_ports(&o.graph), self.same_tree(&o), self.same_ops(&o), self.same_meta(&o), self.same_ends(&o), forall|l: Link| #![trigger self.graph.cnt(l)] self.graph.cnt(l) == (if %s { 0 } else { o.graph.cnt(l) }), decreases e - k,'
    IN, OUT = 'l.t == node && incoming <= l.i < %s', 'l.s == node && outgoing <= l.o < %s'
    u.fn(of(i, r'Hugr\s*\{', 'resize_ports'), OW + f'old(self).live(node), ensures final(self).wf(), final(self).graph.ins(node) == incoming, final(self).graph.outs(node) == outgoing, {KEPT} {PORTS}', rules=BASE + [(r'for (\w+) in (\w+)\.\.(self\.[^{;]*?\)) \{', r'let mut k = \2; let e = \3; while k < e { let \1 = k; k += 1;')], pre='let ghost o = *self;',
         loops=[R2 % ('ins', 'incoming', IN % 'k'), R2 % ('outs', 'outgoing', 'l.t == node && incoming <= l.i || ' + OUT % 'k')], obligation='Hugr::resize_ports')
    SAME = 'final(self).same_but_tree(old(self)),'
    INC = [(r'(?s)let increment = \|num: &mut usize\| (\{.*?\n\s*\});', '')]
    inc = re.search(INC[0][0], strip_attrs(i.fn('add_ports', ii).body))
    if not inc: raise AnchorLost('add_ports: closure')
    u.text('}')
    u.text('#[verifier::external_body] pub fn saturating_add_signed(n: usize, a: isize) -> (r: usize) ensures r == (if n + a < 0 { 0 } else if n + a > usize::MAX { usize::MAX as int } else { n + a }) { n.saturating_add_signed(a) }\npub open spec fn clamp(x: int) -> int { if x < 0 { 0 } else if x > usize::MAX { usize::MAX as int } else { x } }')
    u.trust('the closure increment of add_ports is verified as a function of its argument and the captured amount')
    f = Fn('increment', 'fn increment(num: &mut usize, amount: isize) -> Range<usize>', subst(inc.group(1), [(r'num\.saturating_add_signed\(amount\)', 'saturating_add_signed(*num, amount)')]).replace('*num..new', '(*num..new)'), i.path, i.fn('add_ports', ii).line)
    u.text('use core::ops::Range;')
    u.fn(f, 'ensures r.start == *old(num), r.end == clamp(*old(num) + amount), *final(num) == r.end,', obligation='add_ports::increment')
    u.text('impl Hugr {')
    NUM = 'old(self).graph.{}(node)'
    u.fn(i.fn('add_ports', ii), OW + f"""old(self).live(node), ensures final(self).wf(), {KEPT} {PORTS}
  r.start == (if direction == Direction::Incoming {{ {NUM.format('ins')} }} else {{ {NUM.format('outs')} }}), r.end == clamp(r.start + amount),
  final(self).graph.ins(node) == (if direction == Direction::Incoming {{ r.end as nat }} else {{ {NUM.format('ins')} }}), final(self).graph.outs(node) == (if direction == Direction::Incoming {{ {NUM.format('outs')} }} else {{ r.end as nat }}),""",
         rules=INC + [(r'increment\(&mut (\w+)\)', r'increment(&mut \1, amount)')] + BASE, obligation='add_ports')
    u.text('}')
    u.lemma('lemma_far', LEM_FAR)
    u.text('impl Hugr {')
    INV = 'old_num_ports == (match direction { Direction::Incoming => o.graph.ins(node), Direction::Outgoing => o.graph.outs(node) }), self.wf(), self.live(node), o.live(node), o.wf(), self.graph.same_nodes(&o.graph), self.graph.same_ports(&a.graph), widened(o.graph, a.graph, node, direction, amount as nat), self.same_tree(&o), self.same_ops(&o), self.same_meta(&o), self.same_ends(&o), old_num_ports + amount <= usize::MAX,'
    u.fn(i.fn('insert_ports', ii), OW + '''old(self).live(node), amount <= isize::MAX, index + amount <= usize::MAX, old(self).graph.ins(node) + amount <= usize::MAX, old(self).graph.outs(node) + amount <= usize::MAX,
  index <= (match direction { Direction::Incoming => old(self).graph.ins(node), Direction::Outgoing => old(self).graph.outs(node) }),
  ensures final(self).wf(), r.start == index, r.end == index + amount, widened(old(self).graph, final(self).graph, node, direction, amount as nat), final(self).same_nodes(old(self)), final(self).same_tree(old(self)), final(self).same_ops(old(self)), final(self).same_meta(old(self)), final(self).same_ends(old(self)),
  forall|l: Link| #![trigger final(self).graph.cnt(l)] final(self).graph.cnt(l) == slid(old(self).graph, l, node, direction, index as int, amount as int),''',
         rules=[(r'for (\w+) in \((\w+)\.\.(\w+)\)\.rev\(\) \{', r'let mut k = \3; while k > \2 { k -= 1; let \1 = k;'), (r'(?s)let \[(\w+), (\w+)\] = \[(\w+), (\w+)\]\.map\(\|p\| (\{.*?\})\);', r'let \1 = { let p = \3; \5 }; let \2 = { let p = \4; \5 };'),
                (r'(?s)\.port_links\((\w+)\)\s*\.map\(\|\(_, (\w+)\)\| \2\.port\(\)\)\s*\.collect_vec\(\)', r'.linked_ports(\1)'), (r'for (\w+) in linked_ports \{', r'let ghost b = *self; let mut j = 0; while j < linked_ports.len() { let \1 = linked_ports[j]; j += 1;')] + BASE + EXP, pre='let ghost o = *self;',
         loops=[('invariant index <= k <= old_num_ports || k == old_num_ports && old_num_ports <= index, ' + INV + ' forall|l: Link| #![trigger self.graph.cnt(l)] self.graph.cnt(l) == slid(o.graph, l, node, direction, k as int, amount as int), decreases k,', 'let ghost c = *self;'),
                ('invariant 0 <= j <= linked_ports.len(), k < old_num_ports, ' + INV + ' to_port_index.at() == (node, Port { dir: direction, at: (k + amount) as usize }), from_port_index.at() == (node, Port { dir: direction, at: k }), forall|i: int| #![trigger linked_ports@[i]] 0 <= i < linked_ports.len() ==> self.graph.has(linked_ports@[i].at().0, linked_ports@[i].at().1) && linked_ports@[i].at().1.dir != direction, forall|l: Link| #![trigger self.graph.cnt(l)] self.graph.cnt(l) == b.graph.cnt(l) + (if at_port(l, node, to_port_index.at().1) { far_count(linked_ports@.take(j as int), to_port_index, l) } else { 0 }), decreases linked_ports.len() - j,', 'proof { assert(linked_ports@.take(j as int + 1).drop_last() =~= linked_ports@.take(j as int)); }')],
         post_rules=[(r'let mut k = ', 'let ghost a = *self; let mut k = '), (r'\}(\s*\}\s*index\.\.)', r'''} proof {
  let v = linked_ports@; let d = amount as int; assert(v.take(j as int) =~= v);
  assert forall|l: Link| #![trigger self.graph.cnt(l)] self.graph.cnt(l) == slid(o.graph, l, node, direction, k as int, d) by {
    assert(c.graph.cnt(l) == slid(o.graph, l, node, direction, k + 1, d));
    if at_port(l, node, to_port_index.at().1) {
      let m = match direction { Direction::Incoming => Link { i: l.i - d, ..l }, Direction::Outgoing => Link { o: l.o - d, ..l } };
      assert(at_port(m, node, from_port_index.at().1)); assert(c.graph.cnt(m) == far_count(v, from_port_index, m)); assert(c.graph.cnt(m) == slid(o.graph, m, node, direction, k + 1, d));
      lemma_far(v, to_port_index, from_port_index, l, m);
    }
  } }\1''')], obligation='insert_ports')
    # ---- the tree
    u.fn(i.fn('set_parent', ii), OW + f'old(self).live(node), old(self).live(parent), node != old(self).module_root, !old(self).hierarchy.within(parent, node), ensures final(self).wf(), {SAME} final(self).hierarchy.placed(&old(self).hierarchy, node, parent),', rules=BASE + EXP, pre=G0,
         post_rules=[(r'self\.hierarchy\.detach\(node\.into_portgraph\(\)\);', r'\g<0> let ghost h = self.hierarchy; proof { lemma_detached(o.hierarchy, h, node); }'), (r'\}\s*$', 'proof { lemma_pushed(h, self.hierarchy, node, parent); } }')], obligation='set_parent')
    for n, a, b in (('move_after_sibling', 'after', 'true'), ('move_before_sibling', 'before', 'false')):
        u.fn(i.fn(n, ii), OW + f'old(self).live(node), old(self).live({a}), node != {a}, node != old(self).module_root, old(self).par({a}) is Some, !old(self).hierarchy.within({a}, node), ensures final(self).wf(), {SAME} exists|h: Hierarchy| #[trigger] h.detached(&old(self).hierarchy, node) && final(self).hierarchy.beside(&h, node, {a}, {b}),', rules=BASE + EXP, pre=G0,
             post_rules=[(r'self\.hierarchy\.detach\(node\.into_portgraph\(\)\);', r'\g<0> let ghost h = self.hierarchy; proof { lemma_detached(o.hierarchy, h, node); lemma_live(o, %s); lemma_step(o.hierarchy, %s, node); }' % (a, a)), (r'\}\s*$', 'proof { lemma_beside(h, self.hierarchy, node, %s, %s); } }' % (a, b))], obligation=n)
    u.fn(m.fn('add_node_with_parent', im), OW + 'old(self).live(parent), ensures final(self).wf(), final(self).fresh(old(self), r, node), final(self).hierarchy.pushed(&old(self).hierarchy, r, parent),', rules=BASE + EXP, pre=G0, sig=lambda s: re.sub(r'-> Node', '-> (r: Node)', s),
         post_rules=[(r'(?s)(\s)node\s*\}\s*$', r'\1proof { lemma_pushed(o.hierarchy, self.hierarchy, node, parent); } node }'), (r'(self\s*\.hierarchy\s*\.push_child)', r'proof { lemma_childless(self.hierarchy, parent, node); lemma_same(o.hierarchy, self.hierarchy, parent, node); } \1')], obligation='add_node_with_parent')
    for n, b in (('add_node_before', 'false'), ('add_node_after', 'true')):
        o_ = 'nodetype' if n == 'add_node_before' else 'op'
        u.fn(m.fn(n, im), OW + f'old(self).par(sibling) is Some, ensures final(self).wf(), final(self).fresh(old(self), r, {o_}), final(self).hierarchy.beside(&old(self).hierarchy, r, sibling, {b}),', rules=BASE + EXP, pre=G0,
             post_rules=[(r'(?s)(\s)node\s*\}\s*$', r'\1proof { lemma_beside(o.hierarchy, self.hierarchy, node, sibling, %s); } node }' % b), (r'(self\s*\.hierarchy\s*\.insert)', r'proof { lemma_live(o, sibling); lemma_childless(self.hierarchy, o.par(sibling)->0, node); lemma_same(o.hierarchy, self.hierarchy, o.par(sibling)->0, node); } \1')], obligation=n)
    u.fn(m.fn('remove_node', im), OW + 'old(self).live(node), node != old(self).entrypoint, node != old(self).module_root, ensures final(self).wf(), final(self).removed(old(self), node), r == old(self).op(node),', rules=BASE, pre=G0,
         post_rules=[(r'self\.graph\.remove_node', 'proof { lemma_gone(o.hierarchy, self.hierarchy, node); } self.graph.remove_node')], obligation='remove_node')
    u.fn(m.fn('remove_subtree', im), OW + 'old(self).live(node), node != old(self).module_root, !old(self).hierarchy.within(old(self).entrypoint, node), ensures final(self).wf(), cut(*final(self), *old(self), node),', pre=G0 + ' proof { lemma_step(o.hierarchy, node, node); }',
         rules=[(r'while let Some\((\w+)\) = (\w+)\.pop_front\(\) \{', r'loop { let \1 = match \2.pop_front() { Some(v) => v, None => break };'), (r'queue\.extend\(([^;]*)\);', r'push_all(&mut queue, \1);')] + BASE,
         loops=[('invariant o.wf(), self.wf(), going(*self, o, queue@, node), !o.hierarchy.within(o.entrypoint, node), node != o.module_root, ensures queue@.len() == 0, decreases self.graph.size(),', 'let ghost c = *self; let ghost q = queue@; proof { reveal(going); if q.len() > 0 { assert(q.contains(q[0])); lemma_step(o.hierarchy, o.module_root, node); } }')],
         post_rules=[(r'(?s)(self\.remove_node\(n\);)(\s*\})(\s*\})\s*$', r'\1 proof { lemma_next(o, c, *self, q, queue@, node); } \2 proof { lemma_end(o, *self, queue@, node); } \3'), (r'(queue\.push_back\(node\);)', r'\1 proof { assert(queue@ =~= seq![node]); lemma_start(o, queue@, node); }')], obligation='remove_subtree')
    # ---- links
    LINK = 'forall|l: Link| #![trigger final(self).graph.cnt(l)] final(self).graph.cnt(l) == old(self).graph.cnt(l) + one(l == (Link { s: src, o: %s as int, t: dst, i: %s as int })), '
    FRAME = 'final(self).same_nodes(old(self)), final(self).graph.same_ports(&old(self).graph), final(self).same_tree(old(self)), final(self).same_ops(old(self)), final(self).same_meta(old(self)), final(self).same_ends(old(self)),'
    u.fn(m.fn('connect', im), OW + 'old(self).graph.has(src, Port { dir: Direction::Outgoing, at: src_port.at }), old(self).graph.has(dst, Port { dir: Direction::Incoming, at: dst_port.at }), ensures final(self).wf(), ' + LINK % ('src_port.at', 'dst_port.at') + FRAME, rules=BASE + EXP, obligation='connect')
    u.fn(m.fn('disconnect', im), OW + 'old(self).graph.has(node, port), ensures final(self).wf(), forall|l: Link| #![trigger final(self).graph.cnt(l)] final(self).graph.cnt(l) == (if at_port(l, node, port) { 0 } else { old(self).graph.cnt(l) }), ' + FRAME, rules=BASE + UNW, obligation='disconnect')
    u.fn(m.fn('add_other_edge', im), OW + """old(self).live(src), old(self).live(dst), other_out(old(self).op(src)) is Some, other_in(old(self).op(dst)) is Some,
  old(self).graph.has(src, Port { dir: Direction::Outgoing, at: other_out(old(self).op(src))->0.at }), old(self).graph.has(dst, Port { dir: Direction::Incoming, at: other_in(old(self).op(dst))->0.at }),
  ensures final(self).wf(), r.0 == other_out(old(self).op(src))->0, r.1 == other_in(old(self).op(dst))->0, """ + LINK % ('r.0.at', 'r.1.at') + FRAME, rules=BASE + UNW, obligation='add_other_edge')
    # ---- what nodes carry
    u.fn(i.fn('optype_mut', ii), OW + 'old(self).live(node), ensures *r == old(self).op(node), final(self).wf(), final(self).op(node) == *final(r), forall|x: Idx| #![trigger final(self).op_types.at(x)] x != node ==> final(self).op(x) == old(self).op(x), final(self).same_graph(old(self)), final(self).same_tree(old(self)), final(self).same_meta(old(self)), final(self).same_ends(old(self)),', rules=BASE, obligation='optype_mut')
    u.fn(i.fn('replace_op', ii), OW + 'old(self).live(node), ensures r == old(self).op(node), final(self).wf(), final(self).op(node) == op, forall|x: Idx| #![trigger final(self).op_types.at(x)] x != node ==> final(self).op(x) == old(self).op(x), final(self).same_graph(old(self)), final(self).same_tree(old(self)), final(self).same_meta(old(self)), final(self).same_ends(old(self)),', rules=BASE, obligation='replace_op')
    MF = 'final(self).same_graph(old(self)), final(self).same_tree(old(self)), final(self).same_ops(old(self)), final(self).same_ends(old(self)),'
    u.fn(i.fn('node_metadata_map_mut', ii), OW + f'old(self).live(node), ensures forall|k: Key| #![trigger r.at(k)] r.at(k) == old(self).meta(node, k), final(self).wf(), forall|x: Idx, k: Key| #![trigger final(self).meta(x, k)] final(self).meta(x, k) == (if x == node {{ final(r).at(k) }} else {{ old(self).meta(x, k) }}), {MF}', rules=BASE + [(r'(?s)(self\s*\.metadata\s*\.get_mut\([^;]*?\))\s*\.get_or_insert_with\(Default::default\)', r'or_empty(\1)')], obligation='node_metadata_map_mut')
    MS = 'forall|x: Idx, k: Key| #![trigger final(self).meta(x, k)] final(self).meta(x, k) == (if x == node && k == *key { %s } else { old(self).meta(x, k) }), '
    u.fn(m.fn('get_metadata_mut', im), OW + 'old(self).live(node), ensures *r == (match old(self).meta(node, *key) { Some(v) => v, None => null() }), final(self).wf(), ' + MS % 'Some(*final(r))' + MF, rules=BASE + [(r'(?s)\.entry\(key\)\s*\.or_insert\(serde_json::Value::Null\)', '.entry_or_null(key)')], obligation='get_metadata_mut')
    u.fn(m.fn('set_metadata', im), OW + 'old(self).live(node), ensures final(self).wf(), ' + MS % 'Some(metadata)' + MF, rules=BASE, obligation='set_metadata')
    u.fn(m.fn('remove_metadata', im), OW + 'old(self).live(node), ensures final(self).wf(), ' + MS % 'None' + MF, rules=BASE, obligation='remove_metadata')
    u.fn(m.fn('set_entrypoint', im), OW + 'old(self).live(root), ensures final(self).wf(), final(self).same_graph(old(self)), final(self).same_tree(old(self)), final(self).same_ops(old(self)), final(self).same_meta(old(self)), final(self).entrypoint == root, final(self).module_root == old(self).module_root, final(self).extensions == old(self).extensions,', rules=BASE, obligation='set_entrypoint')
    u.text('}')
UNW = [(r'(?s)\.expect\(\s*"[^"]*",?\s*\);', '.unwrap();')]
EXP = [(r'(?s)\.expect\(\s*"[^"]*",?\s*\);', '.done();')]
def units():
    u = Unit('h02'); setup(u); views(u); edits(u); forest(u); wrappers(u); twins(u)
    import p_h02c
    return [u, p_h02c.unit()]
