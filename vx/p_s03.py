from typesx import *
from common import *
import p_h02 as H
EXEC = 's03'
TRUSTED = ["portgraph's graph (nodes of a graph nothing was removed from are numbered without gaps), hierarchy, dense maps, port listings and links do what their documentation says", 'HashMap as used for the node numbering', 'the signature, tag and port facts of operations (O01, O02): a dataflow operation has a signature listing at most its ports, the module operation may start a graph, the order port stands after values and the static port']
ASSUMPTIONS = ['a form lists fewer than 2^31 - 2^16 nodes, and a graph written has at most that many; a port list is at most 65536 long (portgraph\'s own limits)', 'the JSON text and the SerHugrLatest structure correspond one to one (derived serde code and serde_json); operations as text are T01-T05 and S01', 'extensions are recomputed after reading (ExtensionRegistry is opaque here)', 'machine arithmetic is checked, except u32 to usize, which is widening on 64-bit']
BOUNDED = ['the JSON text itself: 1500 random graphs (thorough 20000) written, read back, read by an independent reader, reordered and damaged; 300 forms rooted at other operations; 400 graphs with floats of every class']
SER = 'hugr-core/src/hugr/serialize.rs'; HG = H.HG
class Contracts:
    """takes functions of another unit by their contracts only"""
    def __init__(self, u, names): self.u = u; self.names = names
    def text(self, s): self.u.text(s)
    def trust(self, s): self.u.trust(s)
    def lemma(self, n, t): self.u.text(t)
    def fn(self, f, contract='', **k):
        ob = k.get('obligation') or f.name
        if ob not in self.names: return
        t = Unit('x'); t.fn(Fn(f.name, f.sig, '{ unimplemented!() }', f.path, f.line), contract, attrs='#[verifier::external_body]\n', rules=k.get('rules', ()), sig=k.get('sig')); self.u.text(t.parts[-1][2])
FORM = '''
pub struct NodeSer { pub parent: Node, pub op: OpType }
impl Clone for NodeSer { fn clone(&self) -> (r: Self) ensures r == *self { NodeSer { parent: self.parent, op: self.op.clone() } } }
pub type End = (Node, Option<u32>);
#[verifier::external_body] pub struct Text { _p: u8 }
pub struct SerHugrLatest { pub nodes: Vec<NodeSer>, pub edges: Vec<(End, End)>, pub metadata: Option<Vec<Option<NodeMetadataMap>>>, pub encoder: Option<Text>, pub entrypoint: Option<Node> }
pub struct HugrError;
pub enum HUGRSerializationError { Attach(AttachError), Link(LinkError), Hugr(HugrError), MissingPortOffset { node: Node, dir: Direction, op_type: OpType }, UnknownEdgeNode { node: Node }, UnknownNode { node: Node }, NoNodes, UnknownPort { node: Node, dir: Direction, offset: usize }, FirstNodeNotRoot(Node) }
impl vstd::std_specs::convert::FromSpecImpl<AttachError> for HUGRSerializationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: AttachError) -> Self { HUGRSerializationError::Attach(e) } }
impl From<AttachError> for HUGRSerializationError { fn from(e: AttachError) -> Self { HUGRSerializationError::Attach(e) } }
impl vstd::std_specs::convert::FromSpecImpl<LinkError> for HUGRSerializationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: LinkError) -> Self { HUGRSerializationError::Link(e) } }
impl From<LinkError> for HUGRSerializationError { fn from(e: LinkError) -> Self { HUGRSerializationError::Link(e) } }
impl vstd::std_specs::convert::FromSpecImpl<HugrError> for HUGRSerializationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: HugrError) -> Self { HUGRSerializationError::Hugr(e) } }
impl From<HugrError> for HUGRSerializationError { fn from(e: HugrError) -> Self { HUGRSerializationError::Hugr(e) } }
/// a node list read from the front
pub struct Feed { pub v: Vec<NodeSer>, pub at: usize }
impl Feed {
  pub open spec fn ok(&self) -> bool { self.at <= self.v.len() }
  pub fn of(v: Vec<NodeSer>) -> (r: Feed) ensures r.v == v, r.at == 0 { Feed { v, at: 0 } }
  pub fn len(&self) -> (r: usize) requires self.ok() ensures r == self.v.len() - self.at { self.v.len() - self.at }
  pub fn next(&mut self) -> (r: Option<NodeSer>) requires old(self).ok() ensures final(self).ok(), final(self).v == old(self).v,
    old(self).at < old(self).v.len() ==> r == Some(old(self).v@[old(self).at as int]) && final(self).at == old(self).at + 1, old(self).at >= old(self).v.len() ==> r is None && final(self).at == old(self).at
  { if self.at < self.v.len() { let x = self.v[self.at].clone(); self.at = self.at + 1; Some(x) } else { None } }
}
// ---- operations: what the port numbering says (O02) ----
impl OpType {
  #[verifier::external_body] pub fn other_port(&self, dir: Direction) -> (r: Option<Port>) ensures r == other_at(*self, dir) { unimplemented!() }
}
pub open spec fn other_at(o: OpType, dir: Direction) -> Option<Port> { match dir { Direction::Incoming => match other_in(o) { Some(p) => Some(Port { dir, at: p.at }), None => None }, Direction::Outgoing => match other_out(o) { Some(p) => Some(Port { dir, at: p.at }), None => None } } }
impl Port { pub fn index(&self) -> (r: usize) ensures r == self.at { self.at } }
pub open spec fn count(o: OpType, dir: Direction) -> nat { match dir { Direction::Incoming => in_count(o), Direction::Outgoing => out_count(o) } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum OpTag { ModuleRoot, DataflowParent, Cfg, Conditional, ModuleOp, DataflowChild, Other(usize) }
pub uninterp spec fn tag_of(o: OpType) -> OpTag;
pub uninterp spec fn above(a: OpTag, b: OpTag) -> bool;
pub uninterp spec fn module_op() -> OpType;
pub uninterp spec fn is_input(o: OpType) -> bool;
pub uninterp spec fn is_output(o: OpType) -> bool;
pub open spec fn is_module(o: OpType) -> bool { o == module_op() }
impl OpTag { #[verifier::external_body] pub fn is_superset(self, o: OpTag) -> (r: bool) ensures r == above(self, o) { unimplemented!() } }
#[verifier::external_body] pub fn any_superset(v: &Vec<OpTag>, t: OpTag) -> (r: bool) ensures r == exists|i: int| 0 <= i < v.len() && #[trigger] above(v@[i], t) { unimplemented!() }
/// operations a graph can be built around: regions that a module, a function or another dataflow region can hold
pub open spec fn startable(o: OpType) -> bool {
  let t = tag_of(o);
  (above(OpTag::ModuleRoot, t) || above(OpTag::DataflowParent, t) || above(OpTag::Cfg, t) || above(OpTag::Conditional, t)) && (is_module(o) || above(OpTag::ModuleOp, t) || (above(OpTag::DataflowChild, t) && !is_input(o) && !is_output(o)))
}
pub struct TypeRow { pub n: usize }
impl Clone for TypeRow { fn clone(&self) -> (r: Self) ensures r == *self { TypeRow { n: self.n } } }
pub struct Signature { pub input: TypeRow, pub output: TypeRow }
impl Clone for Signature { fn clone(&self) -> (r: Self) ensures r == *self { Signature { input: self.input.clone(), output: self.output.clone() } } }
impl Signature { pub fn input_count(&self) -> (r: usize) ensures r == self.input.n { self.input.n } pub fn output_count(&self) -> (r: usize) ensures r == self.output.n { self.output.n } pub fn into_owned(self) -> (r: Self) ensures r == self { self } }
impl OpType {
  #[verifier::external_body] pub fn tag(&self) -> (r: OpTag) ensures r == tag_of(*self) { unimplemented!() }
  #[verifier::external_body] pub fn module() -> (r: OpType) ensures r == module_op(), in_count(r) == 0, out_count(r) == 0 { unimplemented!() }
  #[verifier::external_body] pub fn is_module(&self) -> (r: bool) ensures r == is_module(*self) { unimplemented!() }
  #[verifier::external_body] pub fn is_input(&self) -> (r: bool) ensures r == is_input(*self) { unimplemented!() }
  #[verifier::external_body] pub fn is_output(&self) -> (r: bool) ensures r == is_output(*self) { unimplemented!() }
  #[verifier::external_body] pub fn used_extensions(&self) -> (r: ExtensionRegistry) { unimplemented!() }
  /// a dataflow operation has a signature, and at least the ports it lists
  #[verifier::external_body] pub fn dataflow_signature(&self) -> (r: Option<Signature>) ensures above(OpTag::DataflowChild, tag_of(*self)) ==> r is Some, r matches Some(s) ==> s.input.n <= in_count(*self) && s.output.n <= out_count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn func_defn(s: Signature) -> (r: OpType) { unimplemented!() }
  #[verifier::external_body] pub fn input(t: TypeRow) -> (r: OpType) ensures out_count(r) >= t.n { unimplemented!() }
  #[verifier::external_body] pub fn output(t: TypeRow) -> (r: OpType) ensures in_count(r) >= t.n { unimplemented!() }
}
pub struct MultiPortGraph; pub struct UnmanagedDenseMap;
impl MultiPortGraph { #[verifier::external_body] pub fn with_capacity(n: usize, p: usize) -> (r: Graph) ensures r.wf(), r.packed(), r.size() == 0, forall|l: Link| #![trigger r.cnt(l)] r.cnt(l) == 0 { unimplemented!() } }
impl Hierarchy { #[verifier::external_body] pub fn new() -> (r: Hierarchy) ensures forall|i: Idx| #![trigger r.par(i)] #![trigger r.kids(i)] r.par(i) is None && r.kids(i) == Seq::<Idx>::empty() { unimplemented!() } }
impl<V> DenseMap<V> { #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures forall|i: Idx| #![trigger r.at(i)] r.at(i) == r.def() { unimplemented!() } }
#[verifier::external_body] pub fn no_data(n: usize) -> (r: DenseMap<Option<NodeMetadataMap>>) ensures r.def() is None, forall|i: Idx| #![trigger r.at(i)] r.at(i) is None { unimplemented!() }
/// a new graph around `op`
pub open spec fn starts(b: Hugr, op: OpType) -> bool {
  let e = b.entrypoint.0;
  &&& b.wf() && b.graph.packed() && e <= 4 && b.graph.size() == e + 1 && b.op(b.entrypoint) == op && b.kids(b.entrypoint).len() == 0 && b.module_root == Idx(0)
  &&& b.graph.ins(b.entrypoint) == in_count(op) && b.graph.outs(b.entrypoint) == out_count(op)
  &&& forall|x: Idx, k: Key| #![trigger b.meta(x, k)] b.meta(x, k) is None
  &&& is_module(op) ==> e == 0
  &&& e == 0 ==> (forall|l: Link| #![trigger b.graph.cnt(l)] b.graph.cnt(l) == 0)
}
// ---- what a form says ----
pub open spec fn anc(ns: Seq<NodeSer>, j: int, k: nat) -> int decreases k { if k == 0 { j } else { let a = anc(ns, j, (k - 1) as nat); if 0 <= a < ns.len() { ns[a].parent.0 as int } else { -1 } } }
/// some node is above itself
pub open spec fn cyclic(ns: Seq<NodeSer>) -> bool { exists|j: int, k: nat| 1 <= j < ns.len() && #[trigger] anc(ns, j, k) == j && k > 0 }
pub open spec fn offset(o: Option<u32>, op: OpType, dir: Direction) -> Option<int> { match o { Some(x) => Some(x as int), None => match other_at(op, dir) { Some(p) => Some(p.at as int), None => None } } }
pub open spec fn end_ok(ns: Seq<NodeSer>, e: End, dir: Direction) -> bool { e.0.0 < ns.len() && (offset(e.1, ns[e.0.0 as int].op, dir) matches Some(o) && o < count(ns[e.0.0 as int].op, dir)) }
pub open spec fn edge_ok(ns: Seq<NodeSer>, e: (End, End)) -> bool { end_ok(ns, e.0, Direction::Outgoing) && end_ok(ns, e.1, Direction::Incoming) }
pub open spec fn moved(n: Idx, pad: int) -> Idx { Idx((n.0 + pad) as usize) }
pub open spec fn link_of(ns: Seq<NodeSer>, pad: int, e: (End, End)) -> Link {
  Link { s: moved(e.0.0, pad), o: offset(e.0.1, ns[e.0.0.0 as int].op, Direction::Outgoing)->0, t: moved(e.1.0, pad), i: offset(e.1.1, ns[e.1.0.0 as int].op, Direction::Incoming)->0 } }
pub open spec fn times(ns: Seq<NodeSer>, pad: int, es: Seq<(End, End)>, l: Link) -> nat decreases es.len() { if es.len() == 0 { 0 } else { times(ns, pad, es.drop_last(), l) + one(link_of(ns, pad, es.last()) == l) } }
/// the listed children of x, in list order; the first entry is nobody's child
pub open spec fn listed_kids(ns: Seq<NodeSer>, pad: int, k: nat, x: Idx) -> Seq<Idx> decreases k
{ if k <= 1 { Seq::empty() } else { let r = listed_kids(ns, pad, (k - 1) as nat, x); if moved(ns[k - 1].parent, pad) == x { r.push(Idx((pad + k - 1) as usize)) } else { r } } }
pub open spec fn bad_parent(ns: Seq<NodeSer>) -> bool { exists|j: int| 1 <= j < ns.len() && (#[trigger] ns[j]).parent.0 >= ns.len() }
pub open spec fn bad_entry(f: SerHugrLatest) -> bool { f.entrypoint matches Some(e) && e.0 >= f.nodes.len() }
pub open spec fn bad_data(n: int, m: Seq<Option<NodeMetadataMap>>) -> bool { exists|j: int| n <= j < m.len() && #[trigger] m[j] is Some }
pub open spec fn bad_edge(ns: Seq<NodeSer>, es: Seq<(End, End)>) -> bool { exists|j: int| 0 <= j < es.len() && !edge_ok(ns, #[trigger] es[j]) }
pub open spec fn malformed(f: SerHugrLatest) -> bool {
  let ns = f.nodes@;
  ns.len() == 0 || ns[0].parent.0 != 0 || !startable(ns[0].op) || bad_parent(ns) || cyclic(ns) || bad_entry(f) || (f.metadata matches Some(m) && bad_data(ns.len() as int, m@)) || bad_edge(ns, f.edges@)
}
pub open spec fn datum_of(f: Option<Vec<Option<NodeMetadataMap>>>, j: int, k: Key) -> Option<Json> { match f { Some(m) => if j < m.len() { match m@[j] { Some(d) => d.at(k), None => None } } else { None }, None => None } }
/// h is the graph the form describes, its first node in the place of the entrypoint of b
pub open spec fn described(h: Hugr, b: Hugr, f: SerHugrLatest) -> bool {
  let ns = f.nodes@; let n = ns.len(); let pad = b.entrypoint.0 as int;
  &&& h.module_root == b.module_root && h.extensions == b.extensions
  &&& forall|x: Idx| #![trigger h.graph.live(x)] h.live(x) <==> x.0 < pad + n
  &&& forall|x: Idx| #![trigger h.op_types.at(x)] (x.0 < pad ==> h.op(x) == b.op(x)) && (pad <= x.0 < pad + n ==> h.op(x) == ns[x.0 - pad].op)
  &&& forall|x: Idx| #![trigger h.graph.ins(x)] #![trigger h.graph.outs(x)] (x.0 < pad ==> h.graph.ins(x) == b.graph.ins(x) && h.graph.outs(x) == b.graph.outs(x)) && (pad <= x.0 < pad + n ==> h.graph.ins(x) == in_count(ns[x.0 - pad].op) && h.graph.outs(x) == out_count(ns[x.0 - pad].op))
  &&& forall|x: Idx| #![trigger h.hierarchy.par(x)] h.par(x) == (if pad < x.0 < pad + n { Some(moved(ns[x.0 - pad].parent, pad)) } else { b.par(x) })
  &&& forall|x: Idx| #![trigger h.hierarchy.kids(x)] h.kids(x) == b.kids(x) + listed_kids(ns, pad, n, x)
  &&& forall|x: Idx, k: Key| #![trigger h.meta(x, k)] h.meta(x, k) == (if pad <= x.0 < pad + n { datum_of(f.metadata, x.0 - pad, k) } else { None })
  &&& forall|l: Link| #![trigger h.graph.cnt(l)] h.graph.cnt(l) == b.graph.cnt(l) + times(ns, pad, f.edges@, l)
  &&& h.entrypoint == (match f.entrypoint { Some(e) => moved(e, pad), None => b.entrypoint })
}
// ---- stages of reading ----
pub open spec fn sized(f: SerHugrLatest) -> bool { f.nodes.len() <= 0x7fff_0000 && f.edges.len() <= usize::MAX / 2 }
pub open spec fn grown(h: Hugr, b: Hugr, ns: Seq<NodeSer>, i: int) -> bool {
  let pad = b.entrypoint.0 as int;
  &&& h.wf() && h.graph.packed() && h.graph.size() == pad + i && h.same_ends(&b) && h.graph.same_links(&b.graph) && h.same_tree(&b)
  &&& forall|x: Idx| #![trigger h.op_types.at(x)] (x.0 < pad ==> h.op(x) == b.op(x)) && (pad <= x.0 < pad + i ==> h.op(x) == ns[x.0 - pad].op)
  &&& forall|x: Idx| #![trigger h.graph.ins(x)] #![trigger h.graph.outs(x)] (x.0 < pad ==> h.graph.ins(x) == b.graph.ins(x) && h.graph.outs(x) == b.graph.outs(x)) && (pad <= x.0 < pad + i ==> h.graph.ins(x) == in_count(ns[x.0 - pad].op) && h.graph.outs(x) == out_count(ns[x.0 - pad].op))
  &&& forall|x: Idx, k: Key| #![trigger h.meta(x, k)] h.meta(x, k) is None
}
pub open spec fn pairs(ps: Seq<(Idx, Idx)>, ns: Seq<NodeSer>, pad: int, i: int) -> bool { ps.len() == i - 1 && forall|j: int| #![trigger ps[j]] 0 <= j < ps.len() ==> ps[j] == (Idx((pad + j + 1) as usize), moved(ns[j + 1].parent, pad)) && ns[j + 1].parent.0 < ns.len() }
pub open spec fn treed(h: Hierarchy, b: Hugr, ns: Seq<NodeSer>, i: int) -> bool {
  let pad = b.entrypoint.0 as int;
  &&& forall|x: Idx| #![trigger h.par(x)] h.par(x) == (if pad < x.0 < pad + i { Some(moved(ns[x.0 - pad].parent, pad)) } else { b.par(x) })
  &&& forall|x: Idx| #![trigger h.kids(x)] h.kids(x) == b.kids(x) + listed_kids(ns, pad, i as nat, x)
}
'''
LEM = {}
STAGE = '''
/// everything but the hierarchy, the metadata, the links and the entrypoint, with the first i nodes of the list there
pub open spec fn grown(h: Hugr, b: Hugr, ns: Seq<NodeSer>, i: int) -> bool {
  let pad = b.entrypoint.0 as int;
  &&& h.wf() && h.graph.packed() && h.graph.size() == pad + i && h.module_root == b.module_root && h.extensions == b.extensions
  &&& forall|x: Idx| #![trigger h.graph.live(x)] h.live(x) <==> x.0 < pad + i
  &&& forall|x: Idx| #![trigger h.op_types.at(x)] (x.0 < pad ==> h.op(x) == b.op(x)) && (pad <= x.0 < pad + i ==> h.op(x) == ns[x.0 - pad].op)
  &&& forall|x: Idx| #![trigger h.graph.ins(x)] #![trigger h.graph.outs(x)] (x.0 < pad ==> h.graph.ins(x) == b.graph.ins(x) && h.graph.outs(x) == b.graph.outs(x)) && (pad <= x.0 < pad + i ==> h.graph.ins(x) == in_count(ns[x.0 - pad].op) && h.graph.outs(x) == out_count(ns[x.0 - pad].op))
}
pub open spec fn datas(h: Hugr, b: Hugr, md: Option<Vec<Option<NodeMetadataMap>>>, n: int, j: int) -> bool { let pad = b.entrypoint.0 as int; forall|x: Idx, k: Key| #![trigger h.meta(x, k)] h.meta(x, k) == (if pad <= x.0 < pad + n && x.0 - pad < j { datum_of(md, x.0 - pad, k) } else { None }) }
pub open spec fn wired(h: Hugr, b: Hugr, ns: Seq<NodeSer>, es: Seq<(End, End)>) -> bool { forall|l: Link| #![trigger h.graph.cnt(l)] h.graph.cnt(l) == b.graph.cnt(l) + times(ns, b.entrypoint.0 as int, es, l) }
'''
LEM['lemma_up_anc'] = '''
/// steps up the part of the hierarchy that is there are steps up the listed parents
pub proof fn lemma_up_anc(h: Hugr, b: Hugr, ns: Seq<NodeSer>, i: int, a: int, c: int, k: nat)
  requires b.wf(), treed(h.hierarchy, b, ns, i), 1 <= i <= ns.len(), 0 <= a < ns.len(), 1 <= c, b.entrypoint.0 + ns.len() <= usize::MAX, b.graph.packed(), b.graph.size() == b.entrypoint.0 + 1, !bad_parent(ns.take(i)) || forall|j: int| #![trigger ns[j]] 1 <= j < i ==> ns[j].parent.0 < ns.len(),
    h.hierarchy.up(Idx((b.entrypoint.0 + a) as usize), k) == Some(Idx((b.entrypoint.0 + c) as usize)), c < ns.len(), forall|j: int| #![trigger ns[j]] 1 <= j < i ==> ns[j].parent.0 < ns.len()
  ensures anc(ns, a, k) == c
  decreases k
{
  let pad = b.entrypoint.0 as int; let x = Idx((pad + a) as usize);
  if k > 0 {
    lemma_up(h.hierarchy, x, k); let y = h.hierarchy.up(x, (k - 1) as nat)->0; assert(h.par(y) == Some(Idx((pad + c) as usize)));
    if pad < y.0 < pad + i { let d = y.0 - pad; assert(moved(ns[d].parent, pad).0 == pad + c); lemma_up_anc(h, b, ns, i, a, d, (k - 1) as nat); }
    else { assert(b.par(y) is Some); lemma_live(b, y); b.graph.numbered(); assert(b.graph.live(b.par(y)->0)); }
  }
}'''
LEM['lemma_cycle'] = '''
pub proof fn lemma_anc_front(ns: Seq<NodeSer>, j: int, k: nat) requires 0 <= j < ns.len() ensures anc(ns, j, k + 1) == anc(ns, ns[j].parent.0 as int, k) decreases k { if k > 0 { lemma_anc_front(ns, j, (k - 1) as nat); } else { reveal_with_fuel(anc, 2); } }
/// the parent of the next node is below it: the listed parents go round
pub proof fn lemma_cycle(h: Hugr, b: Hugr, ns: Seq<NodeSer>, j: int)
  requires b.wf(), treed(h.hierarchy, b, ns, j), 1 <= j < ns.len(), b.entrypoint.0 + ns.len() <= usize::MAX, b.graph.packed(), b.graph.size() == b.entrypoint.0 + 1, forall|i: int| #![trigger ns[i]] 1 <= i < ns.len() ==> ns[i].parent.0 < ns.len(),
    h.hierarchy.within(moved(ns[j].parent, b.entrypoint.0 as int), Idx((b.entrypoint.0 + j) as usize))
  ensures cyclic(ns)
{
  let pad = b.entrypoint.0 as int; let c = Idx((pad + j) as usize); let p = moved(ns[j].parent, pad);
  let k = choose|k: nat| #[trigger] h.hierarchy.up(p, k) == Some(c);
  lemma_up_anc(h, b, ns, j, ns[j].parent.0 as int, j, k); lemma_anc_front(ns, j, k);
  assert(anc(ns, j, k + 1) == j);
}'''
LEM['lemma_acyclic'] = '''
pub proof fn lemma_anc_up(h: Hugr, b: Hugr, ns: Seq<NodeSer>, a: int, k: nat)
  requires treed(h.hierarchy, b, ns, ns.len() as int), 1 <= a < ns.len(), ns[0].parent.0 == 0, b.entrypoint.0 + ns.len() <= usize::MAX, 1 <= anc(ns, a, k) < ns.len()
  ensures h.hierarchy.up(Idx((b.entrypoint.0 + a) as usize), k) == Some(Idx((b.entrypoint.0 + anc(ns, a, k)) as usize))
  decreases k
{
  if k > 0 { let d = anc(ns, a, (k - 1) as nat); assert(0 <= d < ns.len()); assert(d != 0); lemma_anc_up(h, b, ns, a, (k - 1) as nat); let y = Idx((b.entrypoint.0 + d) as usize); assert(h.hierarchy.par(y) == Some(moved(ns[d].parent, b.entrypoint.0 as int))); }
}
pub proof fn lemma_acyclic(h: Hugr, b: Hugr, ns: Seq<NodeSer>)
  requires h.wf(), treed(h.hierarchy, b, ns, ns.len() as int), ns.len() > 0, ns[0].parent.0 == 0, b.entrypoint.0 + ns.len() <= usize::MAX
  ensures !cyclic(ns)
{
  if cyclic(ns) { let (j, k) = choose|j: int, k: nat| 1 <= j < ns.len() && #[trigger] anc(ns, j, k) == j && k > 0; lemma_anc_up(h, b, ns, j, k);
    let r = choose|r: spec_fn(Idx) -> nat| #[trigger] h.hierarchy.rank(r); lemma_ranked(h.hierarchy, r, Idx((b.entrypoint.0 + j) as usize), k); }
}'''
LEM['lemma_grow'] = '''
pub proof fn lemma_grow(g: Hugr, h: Hugr, b: Hugr, ns: Seq<NodeSer>, i: int, r: Idx)
  requires grown(g, b, ns, i), 0 <= i < ns.len(), b.entrypoint.0 + ns.len() <= usize::MAX, h.wf(), h.fresh(&g, r, ns[i].op), h.same_tree(&g)
  ensures grown(h, b, ns, i + 1), r.0 == b.entrypoint.0 + i, h.entrypoint == g.entrypoint, h.graph.same_links(&g.graph)
{ h.graph.numbered(); }'''
LEM['lemma_hang'] = '''
pub proof fn lemma_hang(g: Hugr, h: Hugr, b: Hugr, ns: Seq<NodeSer>, j: int)
  requires treed(g.hierarchy, b, ns, j), 1 <= j < ns.len(), b.entrypoint.0 + ns.len() <= usize::MAX, h.hierarchy.pushed(&g.hierarchy, Idx((b.entrypoint.0 + j) as usize), moved(ns[j].parent, b.entrypoint.0 as int))
  ensures treed(h.hierarchy, b, ns, j + 1)
{
  let pad = b.entrypoint.0 as int; let c = Idx((pad + j) as usize); let p = moved(ns[j].parent, pad);
  assert forall|x: Idx| #![trigger h.kids(x)] h.kids(x) == b.kids(x) + listed_kids(ns, pad, (j + 1) as nat, x) by {
    assert(g.hierarchy.kids(x) == b.kids(x) + listed_kids(ns, pad, j as nat, x)); assert(h.hierarchy.kids(x) == (if x == p { g.hierarchy.kids(x).push(c) } else { g.hierarchy.kids(x) }));
    if x == p { assert(h.kids(x) =~= b.kids(x) + listed_kids(ns, pad, j as nat, x).push(c)); }
  }
  assert forall|x: Idx| #![trigger h.hierarchy.kids(x)] h.hierarchy.kids(x) == b.kids(x) + listed_kids(ns, pad, (j + 1) as nat, x) by { assert(h.kids(x) == b.kids(x) + listed_kids(ns, pad, (j + 1) as nat, x)); }
}'''
LEM['lemma_kept'] = '''
/// what `grown` says survives every step that leaves nodes, ports and operations alone
pub proof fn lemma_kept(g: Hugr, h: Hugr, b: Hugr, ns: Seq<NodeSer>, n: int)
  requires n >= 0, grown(g, b, ns, n), h.wf(), h.graph.same_nodes(&g.graph), h.graph.same_ports(&g.graph), h.module_root == g.module_root, h.extensions == g.extensions, forall|x: Idx| #![trigger h.op_types.at(x)] g.live(x) ==> h.op_types.at(x) == g.op_types.at(x)
  ensures grown(h, b, ns, n)
{ g.graph.numbered(); h.graph.numbered();
  assert forall|x: Idx| #![trigger h.op_types.at(x)] (x.0 < b.entrypoint.0 ==> h.op(x) == b.op(x)) && (b.entrypoint.0 <= x.0 < b.entrypoint.0 + n ==> h.op(x) == ns[x.0 - b.entrypoint.0].op) by { assert(g.graph.live(x) <==> x.0 < b.entrypoint.0 + n); assert(g.op_types.at(x) == g.op(x)); } }'''
LEM['lemma_listed_parents'] = '''
pub proof fn lemma_listed_parents(ps: Seq<(Idx, Idx)>, ns: Seq<NodeSer>, pad: int) requires pairs(ps, ns, pad, ns.len() as int) ensures !bad_parent(ns)
{ assert forall|j: int| 1 <= j < ns.len() implies (#[trigger] ns[j]).parent.0 < ns.len() by { assert(ps[j - 1] == ps[j - 1]); } }'''
LEM['lemma_pair'] = '''
pub proof fn lemma_pair(p: Seq<(Idx, Idx)>, q: Seq<(Idx, Idx)>, ns: Seq<NodeSer>, pad: int, i: int) requires pairs(p, ns, pad, i), 1 <= i < ns.len(), q == p.push((Idx((pad + i) as usize), moved(ns[i].parent, pad))), ns[i].parent.0 < ns.len() ensures pairs(q, ns, pad, i + 1)
{ assert forall|j: int| #![trigger q[j]] 0 <= j < q.len() implies q[j] == (Idx((pad + j + 1) as usize), moved(ns[j + 1].parent, pad)) && ns[j + 1].parent.0 < ns.len() by { if j < p.len() { assert(p[j] == q[j]); } } }'''
LEM['lemma_plain'] = '''
pub proof fn lemma_plain(g: Hugr, h: Hugr) requires g.wf(), h.wf(), h.graph.same_nodes(&g.graph), h.same_meta(&g), forall|x: Idx, k: Key| #![trigger g.meta(x, k)] g.meta(x, k) is None ensures forall|x: Idx, k: Key| #![trigger h.meta(x, k)] h.meta(x, k) is None
{ assert forall|x: Idx, k: Key| #![trigger h.meta(x, k)] h.meta(x, k) is None by { assert(g.meta(x, k) is None); assert(g.graph.live(x) == h.graph.live(x)); } }'''
LEM['lemma_rooted'] = '''
pub proof fn lemma_rooted(h: Hugr, b: Hugr, ns: Seq<NodeSer>) requires h.hierarchy.same(&b.hierarchy) ensures treed(h.hierarchy, b, ns, 1)
{ assert forall|x: Idx| #![trigger h.hierarchy.kids(x)] h.hierarchy.kids(x) == b.kids(x) + listed_kids(ns, b.entrypoint.0 as int, 1, x) by { assert(b.kids(x) + Seq::<Idx>::empty() =~= b.kids(x)); } }'''
LEM['lemma_datas'] = '''
pub proof fn lemma_datas(g: Hugr, h: Hugr, b: Hugr, md: Option<Vec<Option<NodeMetadataMap>>>, n: int, j: int)
  requires datas(g, b, md, n, j), h.wf(), g.wf(), h.same_meta(&g), h.graph.same_nodes(&g.graph) ensures datas(h, b, md, n, j)
{ let pad = b.entrypoint.0 as int; assert forall|x: Idx, k: Key| #![trigger h.meta(x, k)] h.meta(x, k) == (if pad <= x.0 < pad + n && x.0 - pad < j { datum_of(md, x.0 - pad, k) } else { None }) by { assert(g.meta(x, k) == g.meta(x, k)); assert(g.graph.live(x) == h.graph.live(x)); } }
pub proof fn lemma_tree(g: Hugr, h: Hugr, b: Hugr, ns: Seq<NodeSer>, i: int) requires treed(g.hierarchy, b, ns, i), h.same_tree(&g) ensures treed(h.hierarchy, b, ns, i) { }'''
LEM['lemma_stored'] = '''
pub proof fn lemma_stored(g: Hugr, h: Hugr, b: Hugr, md: Vec<Option<NodeMetadataMap>>, n: int, j: int, ns: Seq<NodeSer>)
  requires datas(g, b, Some(md), n, j), grown(g, b, ns, n), 0 <= j < n, j < md.len(), b.entrypoint.0 + n <= usize::MAX, md@[j] is Some, h == (Hugr { metadata: h.metadata, ..g }), h.metadata.def() == g.metadata.def(),
    forall|x: Idx| #![trigger h.metadata.at(x)] h.metadata.at(x) == (if x == (Idx((b.entrypoint.0 + j) as usize)) { md@[j] } else { g.metadata.at(x) })
  ensures datas(h, b, Some(md), n, j + 1), grown(h, b, ns, n), h.hierarchy == g.hierarchy, h.graph == g.graph
{ let pad = b.entrypoint.0 as int; let z = Idx((pad + j) as usize); assert(g.graph.live(z)); assert(h.wf());
  assert forall|x: Idx, k: Key| #![trigger h.meta(x, k)] h.meta(x, k) == (if pad <= x.0 < pad + n && x.0 - pad < j + 1 { datum_of(Some(md), x.0 - pad, k) } else { None }) by { assert(g.meta(x, k) == g.meta(x, k)); } lemma_kept(g, h, b, ns, n); }
pub proof fn lemma_skipped(g: Hugr, b: Hugr, md: Vec<Option<NodeMetadataMap>>, n: int, j: int) requires datas(g, b, Some(md), n, j), 0 <= j < md.len(), md@[j] is None ensures datas(g, b, Some(md), n, j + 1)
{ let pad = b.entrypoint.0 as int; assert forall|x: Idx, k: Key| #![trigger g.meta(x, k)] g.meta(x, k) == (if pad <= x.0 < pad + n && x.0 - pad < j + 1 { datum_of(Some(md), x.0 - pad, k) } else { None }) by { } }
pub proof fn lemma_all_data(h: Hugr, b: Hugr, md: Option<Vec<Option<NodeMetadataMap>>>, n: int) requires datas(h, b, md, n, match md { Some(m) => m.len() as int, None => 0 }) ensures datas(h, b, md, n, n) { }'''
LEM['lemma_linked'] = '''
pub proof fn lemma_linked(g: Hugr, h: Hugr, b: Hugr, ns: Seq<NodeSer>, es: Seq<(End, End)>, j: int)
  requires 0 <= j < es.len(), wired(g, b, ns, es.take(j)), forall|l: Link| #![trigger h.graph.cnt(l)] h.graph.cnt(l) == g.graph.cnt(l) + one(l == link_of(ns, b.entrypoint.0 as int, es[j]))
  ensures wired(h, b, ns, es.take(j + 1))
{ assert(es.take(j + 1).drop_last() =~= es.take(j)); assert(es.take(j + 1).last() == es[j]); assert forall|l: Link| #![trigger h.graph.cnt(l)] h.graph.cnt(l) == b.graph.cnt(l) + times(ns, b.entrypoint.0 as int, es.take(j + 1), l) by { assert(g.graph.cnt(l) == b.graph.cnt(l) + times(ns, b.entrypoint.0 as int, es.take(j), l)); } }'''
LEM['lemma_described'] = '''
pub proof fn lemma_described(h: Hugr, b: Hugr, f: SerHugrLatest)
  requires sized(f), f.nodes.len() > 0, starts(b, f.nodes@[0].op), grown(h, b, f.nodes@, f.nodes.len() as int), treed(h.hierarchy, b, f.nodes@, f.nodes.len() as int), datas(h, b, f.metadata, f.nodes.len() as int, f.nodes.len() as int), wired(h, b, f.nodes@, f.edges@), h.entrypoint == (match f.entrypoint { Some(e) => moved(e, b.entrypoint.0 as int), None => b.entrypoint })
  ensures described(h, b, f)
{ }'''
def closure(body, name):
    """the closure bound to `name`: (body without the binding, parameters, return type, expression)"""
    m = re.search(r'\blet %s\s*=\s*(?:move )?\|' % name, body)
    if not m: raise AnchorLost(f'closure {name}')
    e = body.index('|', m.end()); params = body[m.end():e]; i = e + 1
    r = re.match(r'\s*->\s*([^{]*)\{', body[i:]); ret = None
    if r: ret = r.group(1).strip(); i += r.end() - 1
    d = 0; j = i
    while not (d == 0 and body[j] == ';'):
        if body[j] in '([{': d += 1
        if body[j] in ')]}': d -= 1
        j += 1
    return body[:m.start()] + body[j + 1:], params.strip(), ret, body[i:j].strip()
COMMON = [(r'Self::Error', 'HUGRSerializationError'), (r'portgraph::NodeIndex::new\(((?:[^()]|\([^()]*\))*)\)\.into\(\)', r'Idx::new(\1)'), (r'AttachError::Cycle \{ node, parent \}\.into\(\)', 'HUGRSerializationError::Attach(AttachError)')]
def reading(u):
    s = src(SER); im = s.impl(r'TryFrom<SerHugrLatest> for Hugr\s*\{'); f = s.fn('try_from', im)
    sg = re.sub(r'\s+', ' ', strip_attrs(f.sig))
    m = re.search(r'SerHugrLatest \{([^}]*)\}: SerHugrLatest', sg)
    if not m or [x.strip() for x in m.group(1).strip(' ,').split(',')] != ['nodes', 'edges', 'metadata', 'encoder: _', 'entrypoint']: raise AnchorLost('TryFrom<SerHugrLatest>: parameter')
    body = strip_attrs(f.body)
    body, p1, r1, hn = closure(body, 'hugr_node'); body, p2, r2, kn = closure(body, 'known_node'); body, p3, r3, uo = closure(body, 'unwrap_offset'); body, p4, r4, en = closure(body, 'edge_node')
    CAP = 'num_nodes: usize, padding_nodes: usize'
    THEN = [(r'(?s)^(\{?)\s*(\(.*?\))\s*\.then\(\|\| (.*)\)\s*(\}?)$', r'\1 if \2 { Some(\3) } else { None } \4')]
    CALL = [(r'\bhugr_node\(', 'hugr_node(num_nodes, padding_nodes, '), (r'\bknown_node\(', 'known_node(num_nodes, padding_nodes, '), (r'\bedge_node\(', 'edge_node(num_nodes, padding_nodes, ')]
    def lifted(name, params, ret, expr, contract, rules=(), cap=CAP):
        e = subst(expr if expr.startswith('{') else '{ ' + expr + ' }', rules)
        u.fn(Fn(name, f'fn {name}({cap + ", " if cap else ""}{params}) -> {ret}', e, f.path, f.line), contract, rules=COMMON + H.BASE, obligation='TryFrom<SerHugrLatest>::' + name)
    RNG = 'num_nodes + padding_nodes <= usize::MAX'
    lifted('hugr_node', p1, r1, hn, f'requires {RNG}, ensures r == (if node.0 < num_nodes {{ Some(moved(node, padding_nodes as int)) }} else {{ None }}),', THEN)
    for n, p, x in (('known_node', p2, kn), ('edge_node', p4, en)):
        lifted(n, p, 'Result<Node, HUGRSerializationError>', x, f'requires {RNG}, ensures r is Ok <==> node.0 < num_nodes, r matches Ok(x) ==> x == moved(node, padding_nodes as int),', CALL)
    ps = [x.strip() for x in p3.split(',')]
    if ps != ['node: Node', 'offset', 'dir', 'hugr: &Hugr']: raise AnchorLost('unwrap_offset: parameters')
    lifted('unwrap_offset', 'node: Node, offset: Option<u32>, dir: Direction, hugr: &Hugr', r3, uo, """requires hugr.live(node),
 ensures r is Ok <==> (crate::offset(offset, hugr.op(node), dir) matches Some(o) && o < (match dir { Direction::Incoming => hugr.graph.ins(node), Direction::Outgoing => hugr.graph.outs(node) })), r matches Ok(x) ==> Some(x as int) == crate::offset(offset, hugr.op(node), dir),""", cap='')
    u.trust('the closures of the two conversions are verified as functions of their arguments and captured values; iterator chains as loops in the order the iterators give')
    R = [(r'let mut nodes = nodes\.into_iter\(\);', 'let mut nodes = Feed::of(nodes);'), (r'for node_ser in nodes \{', 'loop { let node_ser = match nodes.next() { Some(v) => v, None => break };'),
         (r'for \(node, parent\) in parents \{', 'let mut n1: usize = 0; while n1 < parents.len() { let (node, parent) = parents[n1]; n1 = n1 + 1;'),
         (r'for \(node_idx, metadata\) in metadata\.into_iter\(\)\.enumerate\(\) \{', 'let md = metadata; let mut n2: usize = 0; while n2 < md.len() { let (node_idx, metadata) = (n2, data_at(&md, n2)); n2 = n2 + 1;'),
         (r'for \[\(src, from_offset\), \(dst, to_offset\)\] in edges \{', 'let mut n3: usize = 0; while n3 < edges.len() { let ((src, from_offset), (dst, to_offset)) = edges[n3]; n3 = n3 + 1;'),
         (r'hugr\.metadata\[(node\.into_portgraph\(\))\] = (Some\(metadata\));', r'hugr.metadata.set(\1, \2);')]
    ENV = 'f0 == f, ns == f.nodes@, es == f.edges@, n == ns.len(), n > 0, num_nodes == n, pad == padding_nodes, starts(b, ns[0].op), pad == b.entrypoint.0, sized(f), ns[0].parent.0 == 0, startable(ns[0].op), '
    u.fn(Fn('load', 'fn load(f: SerHugrLatest) -> Result<Hugr, HUGRSerializationError>', body, f.path, f.line),
      """requires sized(f), f.metadata matches Some(m) ==> m.len() <= 0x7fff_0000,
 ensures r is Err <==> malformed(f), r matches Ok(h) ==> h.wf() && exists|b: Hugr| #[trigger] starts(b, f.nodes@[0].op) && described(h, b, f),""",
      rules=R + CALL + COMMON + H.BASE, obligation='TryFrom<SerHugrLatest> for Hugr',
      pre='let ghost f0 = f; let ghost ns = f.nodes@; let ghost es = f.edges@; let ghost n = ns.len() as int; let SerHugrLatest { nodes, edges, metadata, encoder: _, entrypoint } = f;',
      loops=[(f'invariant {ENV} nodes.ok(), nodes.v@ == ns, nodes.at >= 1, grown(hugr, b, ns, nodes.at as int), hugr.same_tree(&b), hugr.entrypoint == b.entrypoint, datas(hugr, b, f0.metadata, n, 0), hugr.graph.same_links(&b.graph), pairs(parents@, ns, pad, nodes.at as int), ensures nodes.at >= ns.len(), decreases ns.len() - nodes.at,', 'let ghost g = hugr; let ghost i = nodes.at as int;'),
             (f'invariant {ENV} n1 <= parents.len(), pairs(parents@, ns, pad, n), grown(hugr, b, ns, n), treed(hugr.hierarchy, b, ns, n1 + 1), hugr.entrypoint == b.entrypoint, datas(hugr, b, f0.metadata, n, 0), hugr.graph.same_links(&b.graph), !bad_parent(ns), decreases parents.len() - n1,', 'let ghost g = hugr; let ghost j = n1 + 1;'),
             (f'invariant {ENV} f0.metadata == Some(md), n2 <= md.len(), md.len() <= 0x7fff_0000, grown(hugr, b, ns, n), treed(hugr.hierarchy, b, ns, n), hugr.entrypoint == e1, datas(hugr, b, f0.metadata, n, n2 as int), hugr.graph.same_links(&b.graph), forall|j: int| #![trigger md@[j]] n <= j < n2 ==> md@[j] is None, decreases md.len() - n2,', 'let ghost g = hugr;'),
             (f'invariant {ENV} edges@ == es, n3 <= es.len(), grown(hugr, b, ns, n), treed(hugr.hierarchy, b, ns, n), hugr.entrypoint == e1, datas(hugr, b, f0.metadata, n, n), wired(hugr, b, ns, es.take(n3 as int)), forall|j: int| #![trigger es[j]] 0 <= j < n3 ==> edge_ok(ns, es[j]), decreases es.len() - n3,', 'let ghost g = hugr; let ghost j = n3 as int;')],
      post_rules=[(r'(let padding_nodes = )', r'let ghost b = hugr; proof { b.graph.numbered(); } \1'), (r'(let num_nodes = [^;]*;)', r'let ghost pad = padding_nodes as int; \1'),
                  (r'(let node = hugr\.add_node\([^;]*;)', r'\1 proof { lemma_grow(g, hugr, b, ns, i, node); assert(ns[i] == node_ser); }'),
                  (r'(parents\.push\([^;]*;)', r'let ghost ps0 = parents@; \1 proof { lemma_pair(ps0, parents@, ns, pad, i); }'),
                  (r'(let mut n1: usize = 0;)', r'\1 proof { lemma_listed_parents(parents@, ns, pad); lemma_rooted(hugr, b, ns); }'),
                  (r'(if node == parent \{)', r'proof { assert(parents@[n1 - 1] == (node, parent)); } \1 proof { reveal_with_fuel(anc, 2); assert(anc(ns, j, 1) == j); }'),
                  (r'(hugr\.hierarchy\.push_child\(node, parent\)\?;)', r'proof { if b.par(node) is Some { lemma_live(b, node); b.graph.numbered(); } assert(hugr.hierarchy.par(node) is None); if hugr.hierarchy.within(parent, node) { if hugr.hierarchy.kids(node).len() == 0 { lemma_childless(hugr.hierarchy, parent, node); } else { lemma_cycle(hugr, b, ns, j); } } } \1 proof { lemma_pushed(g.hierarchy, hugr.hierarchy, node, parent); lemma_hang(g, hugr, b, ns, j); lemma_kept(g, hugr, b, ns, n); }'),
                  (r'(if let Some\(entrypoint\) = entrypoint \{)', r'let ghost g1 = hugr; \1'),
                  (r'(hugr\.set_entrypoint\([^;]*;)', r'\1 proof { lemma_kept(g1, hugr, b, ns, n); lemma_datas(g1, hugr, b, f0.metadata, n, 0); lemma_tree(g1, hugr, b, ns, n); }'),
                  (r'(if let Some\(metadata\) = metadata \{\s*let md = metadata;)', r'let ghost e1 = hugr.entrypoint; \1'),
                  (r'(hugr\.metadata\.set\([^;]*;)\s*\}', r'\1 proof { lemma_stored(g, hugr, b, md, n, n2 - 1, ns); } } else { proof { lemma_skipped(g, b, md, n, n2 - 1); } }'),
                  (r'(let mut n3: usize = 0;)', r'proof { lemma_all_data(hugr, b, f0.metadata, n); assert(es.take(0) =~= Seq::empty()); } \1'),
                  (r'(let src = edge_node[^;]*;)', r'proof { assert(es[j] == ((src, from_offset), (dst, to_offset))); } let ghost e = es[j]; \1'),
                  (r'(hugr\.graph\.link_nodes\([^;]*;)', r'\1 proof { lemma_kept(g, hugr, b, ns, n); lemma_datas(g, hugr, b, f0.metadata, n, n); lemma_linked(g, hugr, b, ns, es, j); }'),
                  (r'Ok\(hugr\)', 'proof { assert(es.take(n3 as int) =~= es); lemma_acyclic(hugr, b, ns); lemma_described(hugr, b, f0); } Ok(hugr)')])
def starting(u):
    s = src(HG)
    u.text('''pub open spec fn plain(h: Hugr) -> bool { h.wf() && h.graph.packed() && h.module_root == Idx(0) && forall|x: Idx, k: Key| #![trigger h.meta(x, k)] h.meta(x, k) is None }''')
    C = lambda f, t: [(r'hugr\.connect\((\w+), port, (\w+), port\);', r'hugr.connect(\1, OutgoingPort { at: port }, \2, IncomingPort { at: port });')]
    R = [(r'UnmanagedDenseMap::with_capacity\(nodes\),', 'no_data(nodes),'), (r'UnmanagedDenseMap::with_capacity', 'DenseMap::with_capacity'), (r'\.used_extensions\(\)\.unwrap_or_default\(\)', '.used_extensions()'),
         (r'(?s)let container_tags = \[(.*?)\];', r'let container_tags = vec![\1];'), (r'container_tags\.iter\(\)\.any\(\|t\| t\.is_superset\(tag\)\)', 'any_superset(&container_tags, tag)'),
         (r'OpType::Module\(ops::Module::new\(\)\)', 'OpType::module()'), (r'\bop_types\[module\] = ([^;]*);', r'op_types.set(module, \1);'), (r'let module: Node = module\.into\(\);', ''), (r'(?s)debug_assert!\(matches!\(.*?\)\);', ''),
         (r'(?s)\.unwrap_or_else\(\|\| panic!\(.*?\)\)\s*\.into_owned\(\)', '.unwrap().into_owned()'), (r'ops::FuncDefn::new\("main", (signature\.clone\(\))\)', r'OpType::func_defn(\1)'),
         (r'(?s)ops::Input \{\s*types: ([^,}]*),?\s*\}', r'OpType::input(\1)'), (r'(?s)ops::Output \{\s*types: ([^,}]*),?\s*\}', r'OpType::output(\1)')] + C(0, 0)
    K = 'forall|x: Idx| #![trigger hugr.graph.live(x)] hugr.live(x) == g.live(x), hugr.graph.size() == g.graph.size(), hugr.graph.same_ports(&g.graph), hugr.same_tree(&g), hugr.same_ops(&g), hugr.module_root == g.module_root, plain(hugr), '
    u.fn(s.fn('make_module_hugr'), 'ensures r is Some <==> startable(root_op), r matches Some(h) ==> starts(h, root_op),', rules=R + H.BASE, obligation='make_module_hugr',
         loops=[(f'invariant {K} hugr.graph.has(inp, Port {{ dir: Direction::Outgoing, at: (dataflow_inputs - 1) as usize }}) || dataflow_inputs == 0, dataflow_inputs <= hugr.graph.ins(entrypoint), hugr.live(entrypoint),', 'let ghost g1 = hugr;'),
                (f'invariant {K} hugr.graph.has(out, Port {{ dir: Direction::Incoming, at: (dataflow_outputs - 1) as usize }}) || dataflow_outputs == 0, dataflow_outputs <= hugr.graph.outs(entrypoint), hugr.live(entrypoint),', 'let ghost g1 = hugr;')],
         post_rules=[(r'(?s)(let mut hugr = Hugr \{.*?\};)', r'\1 proof { assert(hugr.hierarchy.rank(|x: Idx| 0nat)); hugr.graph.numbered(); assert(hugr.wf()); assert(plain(hugr)); }'), (r'(hugr\.connect\([^;]*;)', r'\1 proof { lemma_plain(g1, hugr); }'), (r'(hugr\.set_entrypoint\((\w+)\);)', r'let ghost g3 = hugr; proof { assert(g3.hierarchy.kids(\2).len() == 0); assert(g3.op_types.at(\2) == root_op); } \1 proof { lemma_plain(g3, hugr); assert(hugr.op_types.at(\2) == root_op); assert(starts(hugr, root_op)); }'), (r'(for port in 0\.\.dataflow_inputs)', r'let ghost g = hugr; \1')])
    f = of(s, r'Hugr\s*\{', 'with_capacity')
    u.text('impl Hugr {')
    u.fn(f, 'ensures r is Ok <==> startable(entrypoint_op), r matches Ok(h) ==> starts(h, entrypoint_op),', rules=[(r'let entrypoint_op: OpType = entrypoint_op\.into\(\);', ''), (r'let op_name = entrypoint_op\.name\(\);', ''), (r'HugrError::UnsupportedEntrypoint \{ op: op_name \}', 'HugrError')] + H.BASE, obligation='Hugr::with_capacity')
    u.text('}')
of = H.of

WFORM = """
pub open spec fn rooted(h: Hugr) -> bool { forall|x: Idx| #![trigger h.graph.live(x)] h.live(x) ==> h.hierarchy.within(x, h.module_root) }
/// the children of x stand together, in order, after x
pub open spec fn block(h: Hugr, w: Seq<Idx>, x: Idx, s: int) -> bool { 0 <= s && s + h.kids(x).len() <= w.len() && (exists|j: int| 0 <= j < s && #[trigger] w[j] == x) && forall|i: int| #![trigger h.kids(x)[i]] 0 <= i < h.kids(x).len() ==> w[s + i] == h.kids(x)[i] }
pub open spec fn has_block(h: Hugr, w: Seq<Idx>, x: Idx) -> bool { exists|s: int| #[trigger] block(h, w, x, s) }
/// each node under root once, root first, the children of every node together and after it
pub open spec fn canon(h: Hugr, root: Idx, w: Seq<Idx>) -> bool {
  &&& w.no_duplicates() && w.len() > 0 && w[0] == root
  &&& forall|x: Idx| #![trigger w.contains(x)] w.contains(x) <==> h.hierarchy.within(x, root)
  &&& forall|x: Idx| #![trigger w.contains(x)] w.contains(x) ==> has_block(h, w, x)
}
pub open spec fn underway(h: Hugr, root: Idx, out: Seq<Idx>, q: Seq<Idx>) -> bool {
  let w = out + q;
  &&& w.no_duplicates() && w.len() > 0 && w[0] == root
  &&& forall|x: Idx| #![trigger w.contains(x)] w.contains(x) ==> h.live(x) && h.hierarchy.within(x, root) && (x == root || (h.par(x) matches Some(p) && out.contains(p)))
  &&& forall|x: Idx| #![trigger out.contains(x)] out.contains(x) ==> has_block(h, w, x)
}
"""
LEM2 = {}
LEM2['lemma_walk'] = """
pub proof fn lemma_walk(h: Hugr, root: Idx, out: Seq<Idx>, q: Seq<Idx>)
  requires h.wf(), h.live(root), underway(h, root, out, q), q.len() > 0
  ensures underway(h, root, out.push(q[0]), q.drop_first() + h.kids(q[0]))
{
  let n = q[0]; let k = h.kids(n); let w = out + q; let o2 = out.push(n); let v = o2 + (q.drop_first() + k);
  assert(v =~= w + k); assert(w[out.len() as int] == n); assert(w.contains(n)); assert(h.hierarchy.kids(n).no_duplicates());
  assert(!out.contains(n)) by { if out.contains(n) { let i = choose|i: int| 0 <= i < out.len() && out[i] == n; assert(w[i] == n); } }
  assert forall|c: Idx| #![trigger k.contains(c)] k.contains(c) implies !w.contains(c) && h.par(c) == Some(n) && h.live(c) && h.hierarchy.within(c, root) by {
    assert(h.hierarchy.kids(n).contains(c)); lemma_live(h, c); lemma_step(h.hierarchy, c, root);
    if w.contains(c) && c == root { lemma_no_loop(h.hierarchy, n, c); }
  }
  assert(v.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by {
    if i >= w.len() { assert(k[i - w.len()] == v[i]); assert(k.contains(v[i])); } else { assert(w[i] == v[i]); assert(w.contains(v[i])); }
    if j >= w.len() { assert(k[j - w.len()] == v[j]); assert(k.contains(v[j])); } else { assert(w[j] == v[j]); assert(w.contains(v[j])); } } }
  assert forall|x: Idx| #![trigger v.contains(x)] v.contains(x) implies h.live(x) && h.hierarchy.within(x, root) && (x == root || (h.par(x) matches Some(p) && o2.contains(p))) by {
    let i = choose|i: int| 0 <= i < v.len() && v[i] == x;
    assert(o2[out.len() as int] == n);
    if i < w.len() { assert(w[i] == x); assert(w.contains(x)); if x != root { let p = h.par(x)->0; let j = choose|j: int| 0 <= j < out.len() && out[j] == p; assert(o2[j] == p); } }
    else { assert(k[i - w.len()] == x); assert(k.contains(x)); }
  }
  assert forall|x: Idx| #![trigger o2.contains(x)] o2.contains(x) implies has_block(h, v, x) by {
    if x == n { assert(v[out.len() as int] == n); assert(block(h, v, n, w.len() as int)); }
    else { let i = choose|i: int| 0 <= i < o2.len() && o2[i] == x; assert(out[i] == x); assert(out.contains(x)); let s = choose|s: int| #[trigger] block(h, w, x, s); let j = choose|j: int| 0 <= j < s && #[trigger] w[j] == x; assert(v[j] == x); assert forall|i: int| #![trigger h.kids(x)[i]] 0 <= i < h.kids(x).len() implies v[s + i] == h.kids(x)[i] by { assert(w[s + i] == h.kids(x)[i]); } assert(block(h, v, x, s)); }
  }
}
pub proof fn lemma_reach(h: Hugr, root: Idx, w: Seq<Idx>, x: Idx, k: nat)
  requires h.wf(), underway(h, root, w, Seq::empty()), h.hierarchy.up(x, k) == Some(root) ensures w.contains(x) decreases k
{
  assert(w + Seq::<Idx>::empty() =~= w);
  if k == 0 { assert(w[0] == x); } else {
    lemma_up(h.hierarchy, x, k); assert(h.hierarchy.up(x, 1) is Some); assert(h.hierarchy.up(x, 1) == h.par(x)) by { reveal_with_fuel(Hierarchy::up, 2); } let p = h.par(x)->0; lemma_shift(h.hierarchy, x, p, (k - 1) as nat); lemma_reach(h, root, w, p, (k - 1) as nat);
    let s = choose|s: int| #[trigger] block(h, w, p, s); assert(h.hierarchy.kids(p).contains(x)); let i = choose|i: int| 0 <= i < h.kids(p).len() && h.kids(p)[i] == x; assert(w[s + i] == x);
  }
}
pub proof fn lemma_walked(h: Hugr, root: Idx, w: Seq<Idx>, q: Seq<Idx>) requires h.wf(), underway(h, root, w, q), q.len() == 0 ensures canon(h, root, w)
{
  assert(q =~= Seq::empty()); assert(w + q =~= w);
  assert forall|x: Idx| #![trigger w.contains(x)] w.contains(x) <==> h.hierarchy.within(x, root) by { if h.hierarchy.within(x, root) { let k = choose|k: nat| #[trigger] h.hierarchy.up(x, k) == Some(root); lemma_reach(h, root, w, x, k); } }
}
pub proof fn lemma_room(h: Hugr, root: Idx, out: Seq<Idx>, q: Seq<Idx>) requires underway(h, root, out, q) ensures out.len() + q.len() <= h.graph.size()
{ let a = h.graph.listing(); let w = out + q; lemma_fits(w, a); }
pub proof fn lemma_fits(w: Seq<Idx>, a: Seq<Idx>) requires w.no_duplicates(), a.no_duplicates(), forall|x: Idx| #![trigger w.contains(x)] w.contains(x) ==> a.contains(x) ensures w.len() <= a.len()
{ w.unique_seq_to_set(); a.unique_seq_to_set(); assert forall|x: Idx| w.to_set().contains(x) implies a.to_set().contains(x) by { assert(w.contains(x)); } vstd::set_lib::lemma_len_subset(w.to_set(), a.to_set()); }"""
def walking(u):
    s = src(HG); f = of(s, r'Hugr\s*\{', 'canonical_order'); body = strip_attrs(f.body)
    m = re.fullmatch(r'(?s)\{(.*?)(?:std::)?iter::from_fn\(move \|\| \{(.*)\}\)\s*\}', body.strip())
    if not m: raise AnchorLost('canonical_order: iterator')
    u.text('impl Graph { pub axiom fn listing(&self) -> (s: Seq<Idx>) ensures s.no_duplicates(), s.len() == self.size(), forall|x: Idx| #![trigger s.contains(x)] s.contains(x) <==> self.live(x); }')
    u.text('pub fn queue_of(n: Idx) -> (r: VecDeque<Idx>) ensures r@ == seq![n] { let mut q = VecDeque::new(); q.push_back(n); proof { assert(q@ =~= seq![n]); } q }')
    u.text(WFORM)
    for n, t in LEM2.items(): u.lemma(n, t)
    u.text('impl Hugr {')
    R = [(r'VecDeque::from\(\[(\w+)\]\)', r'queue_of(\1)'), (r'for child in (self\.children\(node\)) \{', r'let ks = \1; let mut n0: usize = 0; while n0 < ks.len() { let child = ks[n0]; n0 = n0 + 1;'), (r'queue\.extend\(([^;]*)\);', r'push_all(&mut queue, \1);')]
    st = m.group(2)
    u.fn(Fn('canonical_next', 'fn canonical_next(&self, queue: &mut VecDeque<Node>) -> Option<Node>', '{' + st + '}', f.path, f.line), """ensures old(queue)@.len() == 0 ==> r is None && final(queue)@.len() == 0, old(queue)@.len() > 0 ==> r == Some(old(queue)@[0]) && final(queue)@ == old(queue)@.drop_first() + self.kids(old(queue)@[0]),""",
         rules=R + [(r'&mut queue', 'queue')] + H.BASE, loops=[('invariant n0 <= ks.len(), ks@ == self.kids(node), queue@ == old(queue)@.drop_first() + ks@.take(n0 as int), decreases ks.len() - n0,', 'let ghost j = n0 as int; proof { assert(ks@.take(j + 1) =~= ks@.take(j).push(ks@[j])); }')] if 'for child' in st else None,
         post_rules=[(r'(let mut n0: usize = 0;)', r'\1 proof { assert(ks@.take(0) =~= Seq::empty()); assert(queue@ =~= old(queue)@.drop_first() + ks@.take(0)); }'), (r'(queue\.push_back\(child\);)', r'\1 proof { assert(queue@ =~= old(queue)@.drop_first() + ks@.take(j + 1)); }'), (r'Some\(node\)', 'proof { assert(ks@.take(n0 as int) =~= ks@); } Some(node)')], obligation='canonical_order::next')
    u.fn(Fn('canonical_order', 'fn canonical_order(&self, root: Node) -> Vec<Node>', '{' + m.group(1) + ' let mut out: Vec<Node> = Vec::new(); loop { match self.canonical_next(&mut queue) { Some(n) => { out.push(n); } None => { break; } } } out }', f.path, f.line), 'requires self.wf(), self.live(root), ensures canon(*self, root, r@),',
         rules=R + H.BASE, loops=[('invariant self.wf(), self.live(root), underway(*self, root, out@, queue@), ensures queue@.len() == 0, underway(*self, root, out@, queue@), decreases self.graph.size() - out.len(),', 'let ghost q = queue@; let ghost o = out@; proof { lemma_room(*self, root, o, q); }')],
         post_rules=[(r'(let mut out: Vec<Node> = Vec::new\(\);)', r'\1 proof { lemma_step(self.hierarchy, root, root); assert(out@ + queue@ =~= seq![root]); assert(seq![root][0] == root); }'), (r'out\.push\(n\);', r'out.push(n); proof { lemma_walk(*self, root, o, q); assert(out@ == o.push(q[0])); }'), (r'\} out \}', r'} proof { lemma_walked(*self, root, out@, queue@); } out }')], obligation='canonical_order')
    u.text('}')

OUT = """
// ---- links as they are read off a graph ----
pub open spec fn joins(g: Graph, a: (Idx, Port), b: (Idx, Port)) -> nat { match (a.1.dir, b.1.dir) { (Direction::Outgoing, Direction::Incoming) => g.cnt(Link { s: a.0, o: a.1.at as int, t: b.0, i: b.1.at as int }), (Direction::Incoming, Direction::Outgoing) => g.cnt(Link { s: b.0, o: b.1.at as int, t: a.0, i: a.1.at as int }), _ => 0 } }
pub open spec fn occ(v: Seq<(Idx, Port)>, a: (Idx, Port)) -> nat decreases v.len() { if v.len() == 0 { 0 } else { occ(v.drop_last(), a) + one(v.last() == a) } }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct SubPort { _p: u8 }
impl SubPort { pub uninterp spec fn at(&self) -> (Idx, Port); #[verifier::external_body] pub fn port(&self) -> (r: PortIndex) ensures r.at() == self.at() { unimplemented!() } }
pub open spec fn ends(v: Seq<(SubPort, SubPort)>) -> Seq<(Idx, Port)> { Seq::new(v.len(), |j: int| v[j].1.at()) }
impl Graph {
  #[verifier::external_body] pub fn nodes_iter(&self) -> (r: Vec<Idx>) ensures r@.no_duplicates(), forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) <==> self.live(x), r.len() == self.size() { unimplemented!() }
  #[verifier::external_body] pub fn port_offsets(&self, n: Idx, dir: Direction) -> (r: Vec<Port>) ensures r.len() == (match dir { Direction::Incoming => self.ins(n), Direction::Outgoing => self.outs(n) }), forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> r@[j] == (Port { dir, at: j as usize }) && j <= usize::MAX { unimplemented!() }
  #[verifier::external_body] pub fn port_links(&self, p: PortIndex) -> (r: Vec<(SubPort, SubPort)>) ensures forall|a: (Idx, Port)| #![trigger occ(ends(r@), a)] occ(ends(r@), a) == joins(*self, p.at(), a), forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> self.has(r@[j].1.at().0, r@[j].1.at().1) { unimplemented!() }
  #[verifier::external_body] pub fn port_node(&self, p: PortIndex) -> (r: Option<Idx>) ensures r == Some(p.at().0) { unimplemented!() }
  #[verifier::external_body] pub fn port_offset(&self, p: PortIndex) -> (r: Option<Port>) ensures r == Some(p.at().1) { unimplemented!() }
}
pub proof fn lemma_occ_dir(v: Seq<(Idx, Port)>, j: int) requires 0 <= j < v.len() ensures occ(v, v[j]) > 0 decreases v.len() { if j < v.len() - 1 { lemma_occ_dir(v.drop_last(), j); assert(v.drop_last()[j] == v[j]); } }
"""
def mapped(rx_src, rx_pat, body, ty):
    return None
def links_read(u):
    w = src(H.HW); im = w.impl(r'HugrView for Hugr\s*\{')
    u.text(OUT); u.text('impl Hugr {')
    R = H.BASE + [(r'impl Iterator<Item = Node> \+ Clone', 'Vec<Node>'), (r'impl Iterator<Item = Port> \+ Clone', 'Vec<Port>'), (r'impl Iterator<Item = \(Node, Port\)> \+ Clone', 'Vec<(Node, Port)>')]
    u.fn(w.fn('nodes', im), 'ensures r@.no_duplicates(), forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) <==> self.live(x), r.len() == self.graph.size(),', rules=R, obligation='HugrView for Hugr::nodes')
    u.fn(w.fn('node_ports', im), 'ensures r.len() == (match dir { Direction::Incoming => self.graph.ins(node), Direction::Outgoing => self.graph.outs(node) }), forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> r@[j] == (Port { dir, at: j as usize }) && j <= usize::MAX,', rules=R, obligation='HugrView for Hugr::node_ports')
    u.fn(w.fn('linked_ports', im), """requires self.graph.has(node, port),
 ensures forall|a: (Idx, Port)| #![trigger occ(r@, a)] occ(r@, a) == joins(self.graph, (node, port), a), forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> self.graph.has(r@[j].0, r@[j].1),""",
         rules=[(r'(?s)self\.graph\.port_links\(port\)\.map\(\|\(_, link\)\| (\{.*?\n\s*\})\)', r'let v = self.graph.port_links(port); let mut out: Vec<(Node, Port)> = Vec::new(); let mut n0: usize = 0; while n0 < v.len() { let (_, link) = v[n0]; n0 = n0 + 1; let item = \1; out.push(item); } out'), (r'\(node\.into\(\), offset\.into\(\)\)', '(node, offset)'), (r'let port = port\.into\(\);', '')] + R,
         loops=[('invariant n0 <= v.len(), out@ == ends(v@).take(n0 as int), forall|j: int| #![trigger v@[j]] 0 <= j < v.len() ==> self.graph.has(v@[j].1.at().0, v@[j].1.at().1), decreases v.len() - n0,', 'let ghost j = n0 as int;')],
         post_rules=[(r'(let v = [^;]*;)', r'\1 let ghost q = ends(v@);'), (r'(out\.push\(item\);)', r'\1 proof { assert(out@ =~= ends(v@).take(j + 1)); }'), (r'(\}\s*)out(\s*\})\s*$', r'\1 proof { assert(ends(v@).take(n0 as int) =~= ends(v@)); assert forall|j: int| #![trigger out@[j]] 0 <= j < out.len() implies self.graph.has(out@[j].0, out@[j].1) by { assert(v@[j] == v@[j]); assert(out@[j] == ends(v@)[j]); } } out\2'), (r'(let mut n0: usize = 0;)', r'\1 proof { assert(out@ =~= ends(v@).take(0)); }')], obligation='HugrView for Hugr::linked_ports')
    u.text('}')

WRITE = """
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum EdgeKind { StateOrder, Other(usize) }
pub uninterp spec fn values(o: OpType, dir: Direction) -> nat;
pub uninterp spec fn static_at(o: OpType, dir: Direction) -> Option<Port>;
pub uninterp spec fn other_kind(o: OpType, dir: Direction) -> Option<EdgeKind>;
impl OpType {
  #[verifier::external_body] pub fn value_port_count(&self, dir: Direction) -> (r: usize) ensures r == values(*self, dir) { unimplemented!() }
  #[verifier::external_body] pub fn static_port(&self, dir: Direction) -> (r: Option<Port>) ensures r == static_at(*self, dir) { unimplemented!() }
  #[verifier::external_body] pub fn other_port_kind(&self, dir: Direction) -> (r: Option<EdgeKind>) ensures r == other_kind(*self, dir) { unimplemented!() }
}
/// O02: values first, then the static port, then the port for other edges; there is one such port where the other edges are order edges
pub axiom fn laid_out(o: OpType, dir: Direction, i: int) requires 0 <= i < count(o, dir), i >= values(o, dir), !(static_at(o, dir) matches Some(p) && p.at == i), other_kind(o, dir) == Some(EdgeKind::StateOrder) ensures other_at(o, dir) matches Some(p) && p.at == i;
/// the module operation is at the top of the module tags
pub axiom fn module_starts() ensures startable(module_op());
#[verifier::external_body] pub struct Rekey { _p: u8 }
impl Rekey {
  pub uninterp spec fn m(&self) -> Map<Idx, Idx>;
  #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.m() == Map::<Idx, Idx>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, a: Idx, b: Idx) ensures final(self).m() == old(self).m().insert(a, b) { unimplemented!() }
  #[verifier::external_body] pub fn index(&self, a: Idx) -> (r: Idx) requires self.m().dom().contains(a) ensures r == self.m()[a] { unimplemented!() }
}
pub fn nothing<T>(n: usize) -> (r: Vec<Option<T>>) ensures r.len() == n { let mut v: Vec<Option<T>> = Vec::new(); let mut i: usize = 0; while i < n invariant i <= n, v.len() == i decreases n - i { v.push(None); i = i + 1; } v }
pub fn all_there<T: Copies>(v: Vec<Option<T>>) -> (r: Vec<T>) requires forall|j: int| #![trigger v@[j]] 0 <= j < v.len() ==> v@[j] is Some ensures r.len() == v.len(), forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> Some(r@[j]) == v@[j]
{ let mut r: Vec<T> = Vec::new(); let mut i: usize = 0; while i < v.len() invariant i <= v.len(), r.len() == i, forall|j: int| #![trigger v@[j]] 0 <= j < v.len() ==> v@[j] is Some, forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> Some(r@[j]) == v@[j] decreases v.len() - i { match &v[i] { Some(x) => { r.push(x.copied()); } None => { assert(v@[i as int] is Some); } } i = i + 1; } r }
pub trait Copies: Sized { fn copied(&self) -> (r: Self) ensures r == *self; }
impl Copies for NodeSer { fn copied(&self) -> (r: Self) { self.clone() } }
pub fn data_of(m: &Option<NodeMetadataMap>) -> (r: Option<NodeMetadataMap>) ensures r == *m { match m { Some(x) => Some(x.clone()), None => None } }
#[verifier::external_body] pub fn encoder_name() -> (r: Text) { unimplemented!() }
// ---- what writing gives ----
pub open spec fn keys_upto(m: Map<Idx, Idx>, w: Seq<Idx>, j: int) -> bool { (forall|x: Idx| #![trigger m.dom().contains(x)] m.dom().contains(x) <==> w.take(j).contains(x)) && forall|i: int| #![trigger w[i]] 0 <= i < j ==> m[w[i]] == Idx(i as usize) }
pub open spec fn written_offset(o: OpType, at: int, dir: Direction) -> Option<u32> { if at < values(o, dir) || (static_at(o, dir) matches Some(p) && p.at == at) || other_kind(o, dir) != Some(EdgeKind::StateOrder) { Some(at as u32) } else { None } }
pub open spec fn written_link(h: Hugr, m: Map<Idx, Idx>, l: Link) -> (End, End) { ((m[l.s], written_offset(h.op(l.s), l.o, Direction::Outgoing)), (m[l.t], written_offset(h.op(l.t), l.i, Direction::Incoming))) }
pub open spec fn tally(v: Seq<Link>, l: Link) -> nat decreases v.len() { if v.len() == 0 { 0 } else { tally(v.drop_last(), l) + one(v.last() == l) } }
pub open spec fn above_of(h: Hugr, x: Idx) -> Idx { if x == h.module_root { x } else { match h.par(x) { Some(p) => p, None => x } } }
pub open spec fn entry_of(h: Hugr, m: Map<Idx, Idx>, x: Idx) -> NodeSer { NodeSer { parent: m[above_of(h, x)], op: h.op(x) } }
pub open spec fn encoded(h: Hugr, m: Map<Idx, Idx>, es: Seq<(End, End)>, ls: Seq<Link>) -> bool { es.len() == ls.len() && forall|j: int| #![trigger es[j]] 0 <= j < es.len() ==> es[j] == written_link(h, m, ls[j]) }
pub open spec fn every_link(h: Hugr, ls: Seq<Link>) -> bool { forall|l: Link| #![trigger tally(ls, l)] tally(ls, l) == h.graph.cnt(l) }
pub open spec fn written(h: Hugr, f: SerHugrLatest, w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>) -> bool {
  &&& canon(h, h.module_root, w) && keys_upto(m, w, w.len() as int) && w.len() == h.graph.size()
  &&& f.nodes.len() == w.len() && forall|j: int| #![trigger f.nodes@[j]] 0 <= j < w.len() ==> f.nodes@[j] == entry_of(h, m, w[j])
  &&& (f.metadata matches Some(d) && d.len() == w.len() && forall|j: int| #![trigger d@[j]] 0 <= j < w.len() ==> d@[j] == h.metadata.at(w[j]))
  &&& f.entrypoint == Some(m[h.entrypoint])
  &&& encoded(h, m, f.edges@, ls) && every_link(h, ls)
}
pub open spec fn small(h: Hugr) -> bool { h.graph.size() <= 0x7fff_0000 && forall|x: Idx| #![trigger h.graph.ins(x)] #![trigger h.graph.outs(x)] h.graph.ins(x) <= 0x10000 && h.graph.outs(x) <= 0x10000 }
// ---- part of the way through the edges ----
pub open spec fn nodes_read(h: Hugr, ls: Seq<Link>, d: Seq<Idx>) -> bool { forall|l: Link| #![trigger tally(ls, l)] tally(ls, l) == (if d.contains(l.s) { h.graph.cnt(l) } else { 0 }) }
pub open spec fn ports_read(h: Hugr, ls: Seq<Link>, d: Seq<Idx>, n: Idx, k: int) -> bool { forall|l: Link| #![trigger tally(ls, l)] tally(ls, l) == (if d.contains(l.s) || (l.s == n && l.o < k) { h.graph.cnt(l) } else { 0 }) }
pub open spec fn ends_read(h: Hugr, ls: Seq<Link>, d: Seq<Idx>, n: Idx, k: int, v: Seq<(Idx, Port)>) -> bool { forall|l: Link| #![trigger tally(ls, l)] tally(ls, l) == (if d.contains(l.s) || (l.s == n && l.o < k) { h.graph.cnt(l) } else if l.s == n && l.o == k { occ_at(v, l.t, l.i) } else { 0 }) }
pub open spec fn occ_at(v: Seq<(Idx, Port)>, t: Idx, i: int) -> nat decreases v.len() { if v.len() == 0 { 0 } else { occ_at(v.drop_last(), t, i) + one(v.last().0 == t && v.last().1.at == i) } }
"""
LEM3 = {}
LEM3['lemma_keys'] = """
pub proof fn lemma_key(m: Map<Idx, Idx>, n: Map<Idx, Idx>, w: Seq<Idx>, j: int) requires keys_upto(m, w, j), 0 <= j < w.len(), w.no_duplicates(), n == m.insert(w[j], Idx(j as usize)) ensures keys_upto(n, w, j + 1)
{
  assert forall|x: Idx| #![trigger n.dom().contains(x)] n.dom().contains(x) <==> w.take(j + 1).contains(x) by {
    assert(w.take(j + 1)[j] == w[j]); assert(m.dom().contains(x) <==> w.take(j).contains(x));
    if w.take(j).contains(x) { let i = choose|i: int| 0 <= i < j && #[trigger] w.take(j)[i] == x; assert(w.take(j + 1)[i] == x); }
    if w.take(j + 1).contains(x) && x != w[j] { let i = choose|i: int| 0 <= i < j + 1 && #[trigger] w.take(j + 1)[i] == x; assert(w.take(j)[i] == x); } }
}
pub proof fn lemma_keys(m: Map<Idx, Idx>, w: Seq<Idx>, x: Idx) requires keys_upto(m, w, w.len() as int), w.contains(x), w.len() <= usize::MAX, w.no_duplicates() ensures m.dom().contains(x), m[x].0 < w.len(), w[m[x].0 as int] == x
{ assert(w.take(w.len() as int) =~= w); let i = choose|i: int| 0 <= i < w.len() && w[i] == x; assert(m[w[i]] == Idx(i as usize)); }"""
LEM3['lemma_ends'] = """
pub proof fn lemma_occ_at(v: Seq<(Idx, Port)>, t: Idx, i: int) requires forall|j: int| #![trigger v[j]] 0 <= j < v.len() ==> v[j].1.dir == Direction::Incoming
  ensures 0 <= i <= usize::MAX ==> occ_at(v, t, i) == occ(v, (t, Port { dir: Direction::Incoming, at: i as usize })), !(0 <= i <= usize::MAX) ==> occ_at(v, t, i) == 0 decreases v.len()
{ if v.len() > 0 { let w = v.drop_last(); assert forall|j: int| #![trigger w[j]] 0 <= j < w.len() implies w[j].1.dir == Direction::Incoming by { assert(w[j] == v[j]); } lemma_occ_at(w, t, i); assert(v.last() == v[v.len() - 1]); } }
pub proof fn lemma_wend(h: Hugr, l0: Seq<Link>, d: Seq<Idx>, n: Idx, k: int, v: Seq<(Idx, Port)>, j: int)
  requires ends_read(h, l0, d, n, k, v.take(j)), 0 <= j < v.len(), !d.contains(n) ensures ends_read(h, l0.push(Link { s: n, o: k, t: v[j].0, i: v[j].1.at as int }), d, n, k, v.take(j + 1))
{ let l1 = l0.push(Link { s: n, o: k, t: v[j].0, i: v[j].1.at as int }); assert(v.take(j + 1).drop_last() =~= v.take(j)); assert(v.take(j + 1).last() == v[j]); assert(l1.drop_last() =~= l0);
  assert forall|l: Link| #![trigger tally(l1, l)] tally(l1, l) == (if d.contains(l.s) || (l.s == n && l.o < k) { h.graph.cnt(l) } else if l.s == n && l.o == k { occ_at(v.take(j + 1), l.t, l.i) } else { 0 }) by { assert(tally(l0, l) == tally(l1.drop_last(), l)); } }
pub proof fn lemma_wends(h: Hugr, ls: Seq<Link>, d: Seq<Idx>, n: Idx, k: int, v: Seq<(Idx, Port)>)
  requires h.wf(), 0 <= k <= usize::MAX, ends_read(h, ls, d, n, k, v), forall|a: (Idx, Port)| #![trigger occ(v, a)] occ(v, a) == joins(h.graph, (n, Port { dir: Direction::Outgoing, at: k as usize }), a)
  ensures ports_read(h, ls, d, n, k + 1)
{
  assert forall|j: int| #![trigger v[j]] 0 <= j < v.len() implies v[j].1.dir == Direction::Incoming by { lemma_occ_dir(v, j); assert(occ(v, v[j]) == joins(h.graph, (n, Port { dir: Direction::Outgoing, at: k as usize }), v[j])); }
  assert forall|l: Link| #![trigger tally(ls, l)] tally(ls, l) == (if d.contains(l.s) || (l.s == n && l.o < k + 1) { h.graph.cnt(l) } else { 0 }) by {
    lemma_occ_at(v, l.t, l.i); if l.s == n && l.o == k { if 0 <= l.i <= usize::MAX { assert(occ(v, (l.t, Port { dir: Direction::Incoming, at: l.i as usize })) == h.graph.cnt(Link { s: n, o: k, t: l.t, i: l.i })); assert(l == (Link { s: n, o: k, t: l.t, i: l.i })); } else { assert(h.graph.cnt(l) == 0 || l.i < h.graph.ins(l.t)); h.graph.narrow(l.t); } } }
}
pub proof fn lemma_wports(h: Hugr, ls: Seq<Link>, a: Seq<Idx>, j: int, n: Idx)
  requires h.wf(), 0 <= j < a.len(), a[j] == n, ports_read(h, ls, a.take(j), n, h.graph.outs(n) as int) ensures nodes_read(h, ls, a.take(j + 1))
{
  assert forall|l: Link| #![trigger tally(ls, l)] tally(ls, l) == (if a.take(j + 1).contains(l.s) { h.graph.cnt(l) } else { 0 }) by {
    assert(a.take(j + 1)[j] == n); let x = l.s;
    if a.take(j).contains(x) { let i = choose|i: int| 0 <= i < j && #[trigger] a.take(j)[i] == x; assert(a.take(j + 1)[i] == x); }
    if a.take(j + 1).contains(x) && x != n { let i = choose|i: int| 0 <= i < j + 1 && #[trigger] a.take(j + 1)[i] == x; assert(a.take(j)[i] == x); }
    assert(h.graph.cnt(l) > 0 ==> l.o < h.graph.outs(l.s)); }
}"""
def writing(u):
    s = src(SER); im = s.impl(r'TryFrom<&Hugr> for SerHugrLatest\s*\{'); f = s.fn('try_from', im)
    u.text('impl Graph { pub axiom fn narrow(&self, n: Idx) ensures self.ins(n) <= usize::MAX, self.outs(n) <= usize::MAX; }')
    u.text(WRITE)
    for n, t in LEM3.items(): u.lemma(n, t)
    body, ps, rt, fo = closure(strip_attrs(f.body), 'find_offset')
    if rt is not None or [re.sub(r'\s+', ' ', x.strip()) for x in ps.split(',')] != ['node: Node', 'offset: usize', 'dir: Direction', 'hugr: &Hugr']: raise AnchorLost('find_offset')
    KEY = [(r'node_rekey\[&(\w+)\]', r'node_rekey.index(\1)'), (r'node_rekey\[&((?:[^\[\]])*?)\]', r'node_rekey.index(\1)')]
    u.fn(Fn('find_offset', 'fn find_offset(node_rekey: &Rekey, node: Node, offset: usize, dir: Direction, hugr: &Hugr) -> (Node, Option<u32>)', fo, f.path, f.line), """requires hugr.live(node), node_rekey.m().dom().contains(node), offset <= u32::MAX,
 ensures r == (node_rekey.m()[node], written_offset(hugr.op(node), offset as int, dir)),""", rules=[(r'(op\.static_port\(dir\))\.is_some_and\(\|(\w+)\| ([^;]*?)\);', r'(match \1 { Some(\2) => \3, None => false });'), (r'(\w+\.other_port_kind\(dir\)) != Some\(EdgeKind::StateOrder\)', r'!matches!(\1, Some(EdgeKind::StateOrder))'),
         (r'(?s)let offset = (\([^;]*?\))\s*\.then_some\(([^;]*?)\);', r'let offset = if \1 { Some(\2) } else { None };')] + KEY + H.BASE, obligation='TryFrom<&Hugr>::find_offset')
    CH = re.search(r'(?s)let edges: Vec<_> = (hugr\s*\.nodes\(\))\s*\.flat_map\(\|(\w+)\| \{\s*(hugr\.node_ports\([^)]*\))\s*\.enumerate\(\)\s*\.flat_map\(move \|(\([^)]*\))\| \{(.*?)(hugr\.linked_ports\([^)]*\))\.map\(move \|(\([^)]*\))\| \{(.*?)\[(\w+), (\w+)\]\s*\}\)\s*\}\)\s*\}\)\s*\.collect\(\);', body)
    if not CH: raise AnchorLost('TryFrom<&Hugr>: edges')
    a, nv, b, pv, st, c, tv, st2, x, y = CH.groups()
    body = body[:CH.start()] + f"""let mut edges: Vec<(End, End)> = Vec::new(); let v1 = {a}; let mut n1: usize = 0; while n1 < v1.len() {{ let {nv} = v1[n1]; n1 = n1 + 1;
 let v2 = {b}; let mut n2: usize = 0; while n2 < v2.len() {{ let {pv} = (n2, v2[n2]); n2 = n2 + 1; {st}
 let v3 = {c}; let mut n3: usize = 0; while n3 < v3.len() {{ let {tv} = v3[n3]; n3 = n3 + 1; {st2} edges.push(({x}, {y})); }} }} }}""" + body[CH.end():]
    R = [(r'HashMap<Node, Node>', 'Rekey'), (r'HashMap::with_capacity', 'Rekey::with_capacity'), (r'for \((\w+), (\w+)\) in (hugr\.canonical_order\([^{]*\))\.enumerate\(\) \{', r'let vc = \3; let mut nc: usize = 0; while nc < vc.len() { let (\1, \2) = (nc, vc[nc]); nc = nc + 1;'),
         (r'let mut nodes = vec!\[None; ([^;]*)\];', r'let mut nodes: Vec<Option<NodeSer>> = nothing(\1);'), (r'let mut metadata = vec!\[None; ([^;]*)\];', r'let mut metadata: Vec<Option<NodeMetadataMap>> = nothing(\1);'),
         (r'for n in hugr\.nodes\(\) \{', 'let vn = hugr.nodes(); let mut nn: usize = 0; while nn < vn.len() { let n = vn[nn]; nn = nn + 1;'), (r'(?s)nodes\[new_node\] = (Some\(.*?\));', r'nodes.set(new_node, \1);'),
         (r'metadata\[new_node\]\.clone_from\((.*?)\);', r'metadata.set(new_node, data_of(\1));'), (r'(?s)nodes\s*\.into_iter\(\)\s*\.collect::<Option<Vec<_>>>\(\)\s*\.expect\("[^"]*"\)', 'all_there(nodes)'),
         (r'find_offset\(', 'find_offset(&node_rekey, '), (r'format!\([^;]*\)\);', 'encoder_name());'), (r'Ok\(Self \{', 'Ok(SerHugrLatest {'), (r'\.unwrap_or\((\w+)\)', r'.unwrap_or(\1)')]
    W = 'hugr.wf(), rooted(*hugr), small(*hugr), canon(*hugr, hugr.module_root, w), w.len() == hugr.graph.size(), '
    K = W + 'keys_upto(node_rekey.m(), w, w.len() as int), '
    N = K + 'nodes.len() == w.len(), metadata.len() == w.len(), forall|j: int| #![trigger nodes@[j]] 0 <= j < w.len() ==> nodes@[j] == entry_of(*hugr, node_rekey.m(), w[j]), forall|j: int| #![trigger metadata@[j]] 0 <= j < w.len() ==> metadata@[j] == hugr.metadata.at(w[j]), '
    E = W + 'keys_upto(node_rekey.m(), w, w.len() as int), v1@.no_duplicates(), forall|x: Idx| #![trigger v1@.contains(x)] v1@.contains(x) <==> hugr.live(x), encoded(*hugr, node_rekey.m(), edges@, ls), '
    D = 'node == a1[j1], a1 == v1@, 0 <= j1 < a1.len(), n1 == j1 + 1, hugr.live(node), w.contains(node), !a1.take(j1).contains(node), '
    u.fn(Fn('store', 'fn store(hugr: &Hugr) -> Result<SerHugrLatest, HUGRSerializationError>', body, f.path, f.line), """requires hugr.wf(), rooted(*hugr), small(*hugr),
 ensures r matches Ok(f) && exists|w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>| #[trigger] written(*hugr, f, w, m, ls),""",
      rules=R + KEY + COMMON + H.BASE, obligation='TryFrom<&Hugr> for SerHugrLatest',
      loops=[(f'invariant {W} nc <= w.len(), vc@ == w, keys_upto(node_rekey.m(), w, nc as int), decreases w.len() - nc,', 'let ghost m0 = node_rekey.m(); let ghost j = nc as int;'),
             (f'invariant {K} nn <= vn.len(), vn.len() == w.len(), vn@.no_duplicates(), forall|x: Idx| #![trigger vn@.contains(x)] vn@.contains(x) <==> hugr.live(x), nodes.len() == w.len(), metadata.len() == w.len(), forall|i: int| #![trigger vn@[i]] 0 <= i < nn ==> filled(*hugr, node_rekey.m(), nodes@, metadata@, vn@[i]), decreases vn.len() - nn,', 'let ghost j = nn as int; let ghost d0 = nodes@; let ghost e0 = metadata@; proof { assert(vn@.contains(vn@[j])); lemma_wlisted(*hugr, w, vn@[j]); lemma_keys(node_rekey.m(), w, vn@[j]); lemma_wlisted(*hugr, w, above_of(*hugr, vn@[j])); lemma_keys(node_rekey.m(), w, above_of(*hugr, vn@[j])); }'),
             (f'invariant {E} n1 <= v1.len(), nodes_read(*hugr, ls, v1@.take(n1 as int)), decreases v1.len() - n1,', 'let ghost j1 = n1 as int; let ghost a1 = v1@; proof { lemma_wnew(a1, j1); assert(a1.contains(a1[j1])); lemma_wlisted(*hugr, w, a1[j1]); lemma_keys(node_rekey.m(), w, a1[j1]); }'),
             (f'invariant {E} {D} n2 <= v2.len(), v2.len() == hugr.graph.outs(node), forall|j: int| #![trigger v2@[j]] 0 <= j < v2.len() ==> v2@[j] == (Port {{ dir: Direction::Outgoing, at: j as usize }}), ports_read(*hugr, ls, a1.take(j1), node, n2 as int), decreases v2.len() - n2,', 'let ghost j2 = n2 as int; proof { lemma_keys(node_rekey.m(), w, node); }'),
             (f'invariant {E} {D} n3 <= v3.len(), 0 <= j2 < hugr.graph.outs(node), n2 == j2 + 1, src == (node_rekey.m()[node], written_offset(hugr.op(node), j2, Direction::Outgoing)), forall|a: (Idx, Port)| #![trigger occ(v3@, a)] occ(v3@, a) == joins(hugr.graph, (node, Port {{ dir: Direction::Outgoing, at: j2 as usize }}), a), forall|j: int| #![trigger v3@[j]] 0 <= j < v3.len() ==> hugr.graph.has(v3@[j].0, v3@[j].1), ends_read(*hugr, ls, a1.take(j1), node, j2, v3@.take(n3 as int)), decreases v3.len() - n3,',
              'let ghost j3 = n3 as int; proof { lemma_occ_dir(v3@, j3); let z = v3@[j3]; assert(occ(v3@, z) == joins(hugr.graph, (node, Port { dir: Direction::Outgoing, at: j2 as usize }), z)); assert(hugr.graph.has(z.0, z.1)); lemma_wlisted(*hugr, w, z.0); lemma_keys(node_rekey.m(), w, z.0); }')],
      post_rules=[(r'(let vc = [^;]*;)', r'\1 let ghost w = vc@; proof { lemma_wwhole(*hugr, w); assert(w.take(0) =~= Seq::empty()); }'), (r'(node_rekey\.insert\([^;]*;)', r'\1 proof { lemma_key(m0, node_rekey.m(), w, j); }'),
                  (r'(metadata\.set\([^;]*;)', r'\1 proof { lemma_wfilled(*hugr, node_rekey.m(), w, vn@, j, d0, e0, nodes@, metadata@); }'), (r'(let nodes = all_there)', r'proof { lemma_wfull(*hugr, node_rekey.m(), w, vn@, nodes@, metadata@); } let ghost nodes0 = nodes@; \1'),
                  (r'(let mut n1: usize = 0;)', r'let ghost mut ls: Seq<Link> = Seq::empty(); proof { assert(v1@.take(0) =~= Seq::empty()); } \1'), (r'(let mut n2: usize = 0;)', r'proof { lemma_wnone(*hugr, ls, a1.take(j1), node); } \1'), (r'(let mut n3: usize = 0;)', r'proof { assert(v3@.take(0) =~= Seq::empty()); } \1'),
                  (r'(edges\.push\([^;]*;) \}', r'proof { lemma_wencode(*hugr, node_rekey.m(), edges@, ls, (%s, %s), Link { s: node, o: j2, t: v3@[j3].0, i: v3@[j3].1.at as int }); lemma_wend(*hugr, ls, a1.take(j1), node, j2, v3@, j3); ls = ls.push(Link { s: node, o: j2, t: v3@[j3].0, i: v3@[j3].1.at as int }); } \1 } proof { assert(v3@.take(n3 as int) =~= v3@); lemma_wends(*hugr, ls, a1.take(j1), node, j2, v3@); }' % (x, y)),
                  (r'(\}\s*)(\}\s*let encoder)', r'\1 proof { lemma_wports(*hugr, ls, a1, j1, node); } \2'), (r'(let encoder)', r'proof { assert(v1@.take(n1 as int) =~= v1@); assert(every_link(*hugr, ls)); lemma_wlisted(*hugr, w, hugr.entrypoint); lemma_keys(node_rekey.m(), w, hugr.entrypoint); } \1'),
                  (r'(?s)Ok\(SerHugrLatest (\{.*\})\)(\s*\})\s*$', r'let out = SerHugrLatest \1; proof { assert(written(*hugr, out, w, node_rekey.m(), ls)); } Ok(out)\2')])
LEM3['lemma_filled'] = """
pub open spec fn filled(h: Hugr, m: Map<Idx, Idx>, ns: Seq<Option<NodeSer>>, ds: Seq<Option<NodeMetadataMap>>, x: Idx) -> bool { ns[m[x].0 as int] == Some(entry_of(h, m, x)) && ds[m[x].0 as int] == h.metadata.at(x) }
pub proof fn lemma_wlisted(h: Hugr, w: Seq<Idx>, x: Idx) requires h.wf(), rooted(h), canon(h, h.module_root, w), h.live(x) ensures w.contains(x), h.live(above_of(h, x)), x != h.module_root ==> h.par(x) is Some
{ assert(h.hierarchy.within(x, h.module_root)); lemma_step(h.hierarchy, x, h.module_root); if h.par(x) is Some { lemma_live(h, x); } }
pub proof fn lemma_wwhole(h: Hugr, w: Seq<Idx>) requires h.wf(), rooted(h), canon(h, h.module_root, w) ensures w.len() == h.graph.size(), forall|x: Idx| #![trigger w.contains(x)] w.contains(x) <==> h.live(x)
{ let a = h.graph.listing(); assert forall|x: Idx| #![trigger w.contains(x)] w.contains(x) <==> h.live(x) by { if h.live(x) { lemma_wlisted(h, w, x); } else if w.contains(x) { assert(h.hierarchy.within(x, h.module_root)); lemma_step(h.hierarchy, x, h.module_root); assert(h.par(x) is None); } } lemma_fits(w, a); lemma_fits(a, w); }
pub proof fn lemma_wfilled(h: Hugr, m: Map<Idx, Idx>, w: Seq<Idx>, v: Seq<Idx>, j: int, n0: Seq<Option<NodeSer>>, d0: Seq<Option<NodeMetadataMap>>, n1: Seq<Option<NodeSer>>, d1: Seq<Option<NodeMetadataMap>>)
  requires h.wf(), rooted(h), canon(h, h.module_root, w), w.len() <= usize::MAX, keys_upto(m, w, w.len() as int), n0.len() == w.len(), d0.len() == w.len(), v.no_duplicates(), 0 <= j < v.len(), forall|x: Idx| #![trigger v.contains(x)] v.contains(x) <==> h.live(x), forall|i: int| #![trigger v[i]] 0 <= i < j ==> filled(h, m, n0, d0, v[i]),
    n1 == n0.update(m[v[j]].0 as int, Some(entry_of(h, m, v[j]))), d1 == d0.update(m[v[j]].0 as int, h.metadata.at(v[j]))
  ensures forall|i: int| #![trigger v[i]] 0 <= i < j + 1 ==> filled(h, m, n1, d1, v[i])
{
  assert(v.contains(v[j])); lemma_wlisted(h, w, v[j]); lemma_keys(m, w, v[j]);
  assert forall|i: int| #![trigger v[i]] 0 <= i < j + 1 implies filled(h, m, n1, d1, v[i]) by { assert(v.contains(v[i])); lemma_wlisted(h, w, v[i]); lemma_keys(m, w, v[i]); if i < j { assert(v[i] != v[j]); assert(m[v[i]].0 != m[v[j]].0); } }
}
pub proof fn lemma_wfull(h: Hugr, m: Map<Idx, Idx>, w: Seq<Idx>, v: Seq<Idx>, ns: Seq<Option<NodeSer>>, ds: Seq<Option<NodeMetadataMap>>)
  requires h.wf(), rooted(h), canon(h, h.module_root, w), w.len() <= usize::MAX, keys_upto(m, w, w.len() as int), forall|x: Idx| #![trigger v.contains(x)] v.contains(x) <==> h.live(x), forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> filled(h, m, ns, ds, v[i])
  ensures forall|j: int| #![trigger ns[j]] 0 <= j < w.len() ==> ns[j] == Some(entry_of(h, m, w[j])), forall|j: int| #![trigger ds[j]] 0 <= j < w.len() ==> ds[j] == h.metadata.at(w[j])
{
  lemma_wwhole(h, w);
  assert forall|j: int| 0 <= j < w.len() implies #[trigger] ns[j] == Some(entry_of(h, m, w[j])) && ds[j] == h.metadata.at(w[j]) by { assert(w.contains(w[j])); assert(h.graph.live(w[j])); assert(v.contains(w[j])); let i = choose|i: int| 0 <= i < v.len() && v[i] == w[j]; assert(filled(h, m, ns, ds, v[i])); assert(m[w[j]] == Idx(j as usize)); }
  assert forall|j: int| #![trigger ds[j]] 0 <= j < w.len() implies ds[j] == h.metadata.at(w[j]) by { assert(ns[j] == ns[j]); }
}"""
LEM3['lemma_encode'] = """
pub proof fn lemma_wencode(h: Hugr, m: Map<Idx, Idx>, es: Seq<(End, End)>, ls: Seq<Link>, e: (End, End), l: Link) requires encoded(h, m, es, ls), e == written_link(h, m, l) ensures encoded(h, m, es.push(e), ls.push(l)) { }
pub proof fn lemma_wnone(h: Hugr, ls: Seq<Link>, d: Seq<Idx>, n: Idx) requires h.wf(), nodes_read(h, ls, d) ensures ports_read(h, ls, d, n, 0)
{ assert forall|l: Link| #![trigger tally(ls, l)] tally(ls, l) == (if d.contains(l.s) || (l.s == n && l.o < 0) { h.graph.cnt(l) } else { 0 }) by { assert(h.graph.cnt(l) > 0 ==> 0 <= l.o); } }
pub proof fn lemma_wnew(a: Seq<Idx>, j: int) requires a.no_duplicates(), 0 <= j < a.len() ensures !a.take(j).contains(a[j]) { if a.take(j).contains(a[j]) { let i = choose|i: int| 0 <= i < j && #[trigger] a.take(j)[i] == a[j]; assert(a[i] == a[j]); } }"""
LEM3['round_trip'] = """
/// every node has exactly the ports of its operation
pub open spec fn fits(h: Hugr) -> bool { forall|x: Idx| #![trigger h.graph.live(x)] h.live(x) ==> h.graph.ins(x) == in_count(h.op(x)) && h.graph.outs(x) == out_count(h.op(x)) }
pub open spec fn ren(m: Map<Idx, Idx>, l: Link) -> Link { Link { s: m[l.s], o: l.o, t: m[l.t], i: l.i } }
/// g is h with every node x called m[x]
pub open spec fn renamed(h: Hugr, g: Hugr, m: Map<Idx, Idx>) -> bool {
  &&& forall|x: Idx| #![trigger m.dom().contains(x)] m.dom().contains(x) <==> h.live(x)
  &&& forall|x: Idx, y: Idx| #![trigger m[x], m[y]] h.live(x) && h.live(y) && m[x] == m[y] ==> x == y
  &&& forall|y: Idx| #![trigger g.graph.live(y)] g.live(y) <==> exists|x: Idx| h.live(x) && #[trigger] m[x] == y
  &&& forall|x: Idx| #![trigger m[x]] h.live(x) ==> g.op(m[x]) == h.op(x) && g.graph.ins(m[x]) == h.graph.ins(x) && g.graph.outs(m[x]) == h.graph.outs(x)
  &&& forall|x: Idx| #![trigger m[x]] h.live(x) ==> g.par(m[x]) == (match h.par(x) { Some(p) => Some(m[p]), None => None }) && g.kids(m[x]) == h.kids(x).map_values(|c: Idx| m[c])
  &&& forall|x: Idx, k: Key| #![trigger g.meta(m[x], k)] h.live(x) ==> g.meta(m[x], k) == h.meta(x, k)
  &&& forall|l: Link| #![trigger ren(m, l)] h.live(l.s) && h.live(l.t) ==> g.graph.cnt(ren(m, l)) == h.graph.cnt(l)
  &&& g.module_root == m[h.module_root] && g.entrypoint == m[h.entrypoint]
}
pub open spec fn ready(h: Hugr) -> bool { h.wf() && rooted(h) && small(h) && fits(h) && is_module(h.op(h.module_root)) }
/// parents come first
pub proof fn lemma_first(h: Hugr, f: SerHugrLatest, w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>, j: int)
  requires ready(h), written(h, f, w, m, ls), 0 <= j < w.len() ensures f.nodes@[j].op == h.op(w[j]), h.live(w[j]), m[w[j]] == Idx(j as usize), j == 0 ==> f.nodes@[0].parent == Idx(0) && w[0] == h.module_root, j > 0 ==> f.nodes@[j].parent.0 < j && h.par(w[j]) is Some && m[h.par(w[j])->0] == f.nodes@[j].parent, w.contains(w[j])
{
  lemma_wwhole(h, w); let x = w[j]; assert(w.contains(x)); lemma_wlisted(h, w, x); assert(f.nodes@[j] == entry_of(h, m, x)); assert(m[w[j]] == Idx(j as usize)); assert(m[w[0]] == Idx(0));
  if j > 0 { assert(x != w[0]); let y = h.par(x)->0; lemma_live(h, x); assert(h.hierarchy.kids(y).contains(x)); lemma_wlisted(h, w, y); assert(has_block(h, w, y)); let s = choose|s: int| #[trigger] block(h, w, y, s); let i = choose|i: int| 0 <= i < h.kids(y).len() && #[trigger] h.kids(y)[i] == x; assert(w[s + i] == x); assert(s + i == j); let q = choose|q: int| 0 <= q < s && #[trigger] w[q] == y; assert(m[w[q]] == Idx(q as usize)); }
}
pub proof fn lemma_drop(h: Hugr, f: SerHugrLatest, w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>, j: int, k: nat)
  requires ready(h), written(h, f, w, m, ls), 1 <= j < w.len(), k > 0 ensures 0 <= anc(f.nodes@, j, k) < j decreases k
{ if k == 1 { assert(anc(f.nodes@, j, 0) == j); lemma_first(h, f, w, m, ls, j); } else { lemma_drop(h, f, w, m, ls, j, (k - 1) as nat); let a = anc(f.nodes@, j, (k - 1) as nat); lemma_first(h, f, w, m, ls, a); } }
pub proof fn lemma_counted(v: Seq<Link>, j: int) requires 0 <= j < v.len() ensures tally(v, v[j]) > 0 decreases v.len() { if j < v.len() - 1 { lemma_counted(v.drop_last(), j); assert(v.drop_last()[j] == v[j]); } }
pub proof fn lemma_offset(o: OpType, at: int, dir: Direction) requires 0 <= at < count(o, dir), at <= 0x10000 ensures offset(written_offset(o, at, dir), o, dir) == Some(at)
{ if written_offset(o, at, dir) is None { laid_out(o, dir, at); } }
pub proof fn lemma_edge(h: Hugr, f: SerHugrLatest, w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>, j: int)
  requires ready(h), written(h, f, w, m, ls), 0 <= j < ls.len() ensures edge_ok(f.nodes@, f.edges@[j]), link_of(f.nodes@, 0, f.edges@[j]) == ren(m, ls[j]), h.live(ls[j].s), h.live(ls[j].t)
{
  let l = ls[j]; lemma_counted(ls, j); assert(tally(ls, l) == h.graph.cnt(l)); assert(h.graph.live(l.s) && h.graph.live(l.t)); assert(f.edges@[j] == written_link(h, m, l)); lemma_wwhole(h, w);
  lemma_wlisted(h, w, l.s); lemma_keys(m, w, l.s); lemma_first(h, f, w, m, ls, m[l.s].0 as int); lemma_wlisted(h, w, l.t); lemma_keys(m, w, l.t); lemma_first(h, f, w, m, ls, m[l.t].0 as int);
  assert(h.graph.ins(l.t) <= 0x10000 && h.graph.outs(l.s) <= 0x10000);
  lemma_offset(h.op(l.s), l.o, Direction::Outgoing); lemma_offset(h.op(l.t), l.i, Direction::Incoming);
}
/// what is written can be read
pub proof fn lemma_readable(h: Hugr, f: SerHugrLatest, w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>) requires ready(h), written(h, f, w, m, ls) ensures !malformed(f)
{
  let ns = f.nodes@; module_starts(); lemma_wwhole(h, w); lemma_first(h, f, w, m, ls, 0); assert(startable(ns[0].op));
  if bad_parent(ns) { let j = choose|j: int| 1 <= j < ns.len() && (#[trigger] ns[j]).parent.0 >= ns.len(); lemma_first(h, f, w, m, ls, j); }
  if cyclic(ns) { let (j, k) = choose|j: int, k: nat| 1 <= j < ns.len() && #[trigger] anc(ns, j, k) == j && k > 0; lemma_drop(h, f, w, m, ls, j, k); }
  assert(h.graph.live(h.entrypoint)); lemma_wlisted(h, w, h.entrypoint); lemma_keys(m, w, h.entrypoint);
  if bad_edge(ns, f.edges@) { let j = choose|j: int| 0 <= j < f.edges@.len() && !edge_ok(ns, #[trigger] f.edges@[j]); lemma_edge(h, f, w, m, ls, j); }
}
pub proof fn lemma_times(h: Hugr, f: SerHugrLatest, w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>, k: int, l: Link)
  requires ready(h), written(h, f, w, m, ls), 0 <= k <= ls.len(), h.live(l.s), h.live(l.t) ensures times(f.nodes@, 0, f.edges@.take(k), ren(m, l)) == tally(ls.take(k), l) decreases k
{
  let es = f.edges@;
  if k > 0 { lemma_times(h, f, w, m, ls, k - 1, l); assert(es.take(k).drop_last() =~= es.take(k - 1)); assert(ls.take(k).drop_last() =~= ls.take(k - 1)); assert(es.take(k).last() == es[k - 1]); assert(ls.take(k).last() == ls[k - 1]);
    lemma_edge(h, f, w, m, ls, k - 1); let q = ls[k - 1]; lemma_wwhole(h, w); lemma_wlisted(h, w, l.s); lemma_keys(m, w, l.s); lemma_wlisted(h, w, l.t); lemma_keys(m, w, l.t); lemma_wlisted(h, w, q.s); lemma_keys(m, w, q.s); lemma_wlisted(h, w, q.t); lemma_keys(m, w, q.t);
    if ren(m, q) == ren(m, l) { assert(q.s == l.s && q.t == l.t && q.o == ren(m, q).o && l.o == ren(m, l).o); assert(q == l); } }
}
/// which entries of the list are children of x
pub proof fn lemma_entry(h: Hugr, f: SerHugrLatest, w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>, x: Idx, s: int, j: int)
  requires ready(h), written(h, f, w, m, ls), h.live(x), block(h, w, x, s), 1 <= j < w.len() ensures f.nodes@[j].parent == m[x] <==> s <= j < s + h.kids(x).len()
{
  lemma_wwhole(h, w); lemma_first(h, f, w, m, ls, j); let c = w[j]; let y = h.par(c)->0; lemma_live(h, c); lemma_wlisted(h, w, y); lemma_keys(m, w, y); lemma_wlisted(h, w, x); lemma_keys(m, w, x);
  if s <= j < s + h.kids(x).len() { assert(h.kids(x)[j - s] == w[s + (j - s)]); assert(h.hierarchy.kids(x).contains(c)); }
  if y == x { assert(h.hierarchy.kids(x).contains(c)); let i = choose|i: int| 0 <= i < h.kids(x).len() && #[trigger] h.kids(x)[i] == c; assert(w[s + i] == c); }
}
pub proof fn lemma_kids(h: Hugr, f: SerHugrLatest, w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>, x: Idx, s: int, k: int)
  requires ready(h), written(h, f, w, m, ls), h.live(x), block(h, w, x, s), 0 <= k <= w.len()
  ensures listed_kids(f.nodes@, 0, k as nat, m[x]) == h.kids(x).take(if k <= s { 0 } else if k - s < h.kids(x).len() { k - s } else { h.kids(x).len() as int }).map_values(|c: Idx| m[c]) decreases k
{
  let ns = f.nodes@; let v = h.kids(x); let n = v.len() as int; let t = |k: int| if k <= s { 0 } else if k - s < n { k - s } else { n };
  if k <= 1 { assert(v.take(t(k)).map_values(|c: Idx| m[c]) =~= Seq::empty()); }
  else {
    lemma_kids(h, f, w, m, ls, x, s, k - 1); lemma_entry(h, f, w, m, ls, x, s, k - 1); lemma_first(h, f, w, m, ls, k - 1); lemma_wwhole(h, w);
    assert(moved(ns[k - 1].parent, 0) == ns[k - 1].parent);
    let a = v.take(t(k - 1)).map_values(|c: Idx| m[c]); let b = v.take(t(k)).map_values(|c: Idx| m[c]);
    if s <= k - 1 < s + n { assert(v[k - 1 - s] == w[s + (k - 1 - s)]); assert(b =~= a.push(Idx((k - 1) as usize))); } else { assert(b =~= a); }
  }
}
/// writing a graph and reading the result gives the graph again, with the nodes renumbered
pub proof fn round_trip(h: Hugr, f: SerHugrLatest, w: Seq<Idx>, m: Map<Idx, Idx>, ls: Seq<Link>, b: Hugr, g: Hugr)
  requires ready(h), written(h, f, w, m, ls), starts(b, f.nodes@[0].op), described(g, b, f), g.wf() ensures renamed(h, g, m)
{
  let ns = f.nodes@; let n = w.len() as int; lemma_wwhole(h, w); lemma_first(h, f, w, m, ls, 0); b.graph.numbered(); assert(b.entrypoint == Idx(0));
  assert(w.take(n) =~= w);
  assert forall|x: Idx| h.live(x) implies m.dom().contains(x) && #[trigger] m[x].0 < n && w[m[x].0 as int] == x && ns[m[x].0 as int].op == h.op(x) && moved(m[x], 0) == m[x] by { lemma_wlisted(h, w, x); lemma_keys(m, w, x); lemma_first(h, f, w, m, ls, m[x].0 as int); }
  assert forall|y: Idx| #![trigger g.graph.live(y)] g.live(y) <==> exists|x: Idx| h.live(x) && #[trigger] m[x] == y by { if g.live(y) { lemma_first(h, f, w, m, ls, y.0 as int); assert(m[w[y.0 as int]] == y); } }
  assert forall|x: Idx| #![trigger m[x]] h.live(x) implies g.op(m[x]) == h.op(x) && g.graph.ins(m[x]) == h.graph.ins(x) && g.graph.outs(m[x]) == h.graph.outs(x) by { assert(m[x].0 < n); assert(h.graph.live(x)); }
  assert forall|x: Idx| #![trigger m[x]] h.live(x) implies g.par(m[x]) == (match h.par(x) { Some(p) => Some(m[p]), None => None }) && g.kids(m[x]) == h.kids(x).map_values(|c: Idx| m[c]) by {
    let j = m[x].0 as int; lemma_first(h, f, w, m, ls, j); assert(moved(ns[j].parent, 0) == ns[j].parent); assert(has_block(h, w, x)); let s = choose|s: int| #[trigger] block(h, w, x, s); lemma_kids(h, f, w, m, ls, x, s, n);
    assert(h.kids(x).take(h.kids(x).len() as int) =~= h.kids(x)); assert(b.hierarchy.kids(m[x]) =~= Seq::empty()) by { if m[x].0 > 0 { assert(!b.graph.live(m[x])); } }
    assert(g.hierarchy.kids(m[x]) =~= listed_kids(ns, 0, n as nat, m[x])); assert(b.graph.live(Idx(0)));
  }
  assert forall|x: Idx, k: Key| #![trigger g.meta(m[x], k)] h.live(x) implies g.meta(m[x], k) == h.meta(x, k) by { assert(m[x].0 < n); let d = f.metadata->0; assert(d@[m[x].0 as int] == h.metadata.at(w[m[x].0 as int])); }
  assert forall|l: Link| #![trigger ren(m, l)] h.live(l.s) && h.live(l.t) implies g.graph.cnt(ren(m, l)) == h.graph.cnt(l) by { lemma_times(h, f, w, m, ls, ls.len() as int, l); assert(f.edges@.take(ls.len() as int) =~= f.edges@); assert(ls.take(ls.len() as int) =~= ls); assert(tally(ls, l) == h.graph.cnt(l)); }
  assert(h.graph.live(h.entrypoint)); assert(m[h.entrypoint].0 < n); assert(m[h.module_root] == Idx(0));
}"""
def units():
    u = Unit('s03'); k = Contracts(u, ['Hugr::add_node', 'add_node_with_parent', 'connect', 'set_entrypoint', 'HugrView for Hugr::get_optype', 'HugrView for Hugr::get_parent', 'HugrView for Hugr::num_nodes', 'HugrView for Hugr::children', 'HugrView for Hugr::module_root', 'HugrView for Hugr::entrypoint'])
    H.setup(k); H.views(k); H.edits(k)
    u.trust('the contracts of add_node, set_entrypoint and the views of a graph are those proved under H02')
    u.text(FORM.split('// ---- stages of reading ----')[0]); u.text(FORM.split('// ---- stages of reading ----')[1].split('pub open spec fn grown')[0] + 'pub open spec fn pairs' + FORM.split('pub open spec fn pairs')[1]); u.text(STAGE)
    u.text('pub fn data_at(v: &Vec<Option<NodeMetadataMap>>, i: usize) -> (r: Option<NodeMetadataMap>) requires i < v.len() ensures r == v@[i as int] { match &v[i] { Some(x) => Some(x.clone()), None => None } }')
    for n, t in LEM.items(): u.lemma(n, t)
    starting(u); reading(u); walking(u); links_read(u); writing(u)
    return [u]
