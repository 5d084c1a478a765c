import copy
from opsx import *
EXEC = 'v02'
HV = 'hugr-core/src/hugr/validate.rs'
DATA = '''
#[verifier::external_body] pub fn never() -> ! requires false { panic!() }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Node(pub usize);
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Direction { Incoming, Outgoing }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Visibility { Public, Private }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Port { pub dir: Direction, pub at: usize }
impl Port { pub fn direction(&self) -> (r: Direction) ensures r == self.dir { self.dir } pub fn index(&self) -> (r: usize) ensures r == self.at { self.at } }
#[derive(Clone, Copy)] pub struct Text(pub u8);
pub const TEXT: Text = Text(0);
/// types, schemes and parameter lists up to equality
#[verifier::external_body] pub struct Opaque { _p: u8 }
#[verifier::external_body] pub struct Type { _p: u8 }
#[verifier::external_body] pub struct PolyFuncType { _p: u8 }
#[verifier::external_body] pub struct Params { _p: u8 }
#[verifier::external_body] pub struct Args { _p: u8 }
#[verifier::external_body] pub struct TypeArg { _p: u8 }
#[verifier::external_body] pub struct Name { _p: u8 }
#[verifier::external_body] pub struct OpName { _p: u8 }
#[verifier::external_body] pub struct SignatureError { _p: u8 }
#[verifier::external_body] pub struct ConstTypeError { _p: u8 }
#[verifier::external_body] pub struct ChildrenValidationError { _p: u8 }
#[verifier::external_body] pub struct EdgeValidationError { _p: u8 }
#[verifier::external_body] pub struct OpaqueOpError { _p: u8 }
impl OpaqueOpError { #[verifier::external_body] pub fn unresolved() -> Self { unimplemented!() } }
impl Name { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn copyable(t: Type) -> bool;
/// well formed, mentioning only the given parameters
pub uninterp spec fn type_ok(t: Type, d: Params) -> bool;
pub uninterp spec fn scheme_ok(p: PolyFuncType) -> bool;
pub uninterp spec fn no_params() -> Params;
pub uninterp spec fn params_of(p: PolyFuncType) -> Params;
impl Type {
  #[verifier::external_body] pub fn copyable(&self) -> (r: bool) ensures r == copyable(*self) { unimplemented!() }
  #[verifier::external_body] pub fn validate(&self, d: &Params) -> (r: Result<(), SignatureError>) ensures r is Ok == type_ok(*self, *d) { unimplemented!() }
}
impl TypeArg { #[verifier::external_body] pub fn validate(&self, d: &Params) -> (r: Result<(), SignatureError>) ensures r is Ok == arg_ok(*self, *d) { unimplemented!() } }
impl PolyFuncType {
  #[verifier::external_body] pub fn validate(&self) -> (r: Result<(), SignatureError>) ensures r is Ok == scheme_ok(*self) { unimplemented!() }
  #[verifier::external_body] pub fn params(&self) -> (r: &Params) ensures *r == params_of(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn none_declared() -> (r: &'static Params) ensures *r == no_params() { unimplemented!() }
'''
def ops(u):
    V = variants()
    for x in V: u.text(f'pub struct {x} {{ pub type_args: Vec<TypeArg>, pub rest: Opaque }}' if x in ('Call', 'LoadFunction') else f'#[verifier::external_body] pub struct {x} {{ _p: u8 }}')
    u.text('pub enum OpType { ' + ', '.join(f'{x}({x})' for x in V) + ' }')
    for x in ('EdgeKind', 'OpType', 'PolyFuncType', 'Visibility', 'Name'):
        cl = f'impl Clone for {x} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n' if x in ('EdgeKind', 'OpType') else ''
        if x == 'Visibility': continue
        u.text(cl + f'impl vstd::std_specs::cmp::PartialEqSpecImpl for {x} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &{x}) -> bool {{ *self == *other }} }}\nimpl PartialEq for {x} {{ #[verifier::external_body] fn eq(&self, o: &{x}) -> (r: bool) {{ unimplemented!() }} }}')
    u.trust('== on types, schemes and names is equality of what they denote (T04)')
SPEC = '''
// ---- what the rules say, over operations as their own contracts describe them ----
pub uninterp spec fn above(a: OpTag, b: OpTag) -> bool;
pub uninterp spec fn op_tag(o: OpType) -> OpTag;
pub uninterp spec fn flags(o: OpType) -> OpValidityFlags;
/// number of ports and their kinds: O02
pub uninterp spec fn count(o: OpType, d: Direction) -> nat;
pub uninterp spec fn kind(o: OpType, p: Port) -> Option<EdgeKind>;
pub uninterp spec fn const_ok(c: Const) -> bool;
pub uninterp spec fn call_ok(c: Call) -> bool;
pub uninterp spec fn load_ok(c: LoadFunction) -> bool;
/// well formed, mentioning only the given parameters
pub uninterp spec fn arg_ok(a: TypeArg, d: Params) -> bool;
pub open spec fn list_ok(a: Seq<TypeArg>, d: Params) -> bool { forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> arg_ok(a[i], d) }
pub uninterp spec fn args_ok(d: OpDef, a: Args, p: Params) -> bool;
pub uninterp spec fn def_of(e: ExtensionOp) -> OpDef;
pub uninterp spec fn args_of(e: ExtensionOp) -> Args;
pub uninterp spec fn sig_defn(f: FuncDefn) -> PolyFuncType;
pub uninterp spec fn sig_decl(f: FuncDecl) -> PolyFuncType;
pub uninterp spec fn vis_defn(f: FuncDefn) -> Visibility;
pub uninterp spec fn vis_decl(f: FuncDecl) -> Visibility;
pub uninterp spec fn name_defn(f: FuncDefn) -> Name;
pub uninterp spec fn name_decl(f: FuncDecl) -> Name;
#[verifier::external_body] pub struct OpDef { _p: u8 }
pub proof fn op_facts(o: OpType, p: Port) ensures p.at < count(o, p.dir) ==> kind(o, p) is Some, op_tag(o) == OpTag::Case ==> count(o, p.dir) == 0, o is Module ==> count(o, p.dir) == 0 { admit(); }
impl OpType {
  #[verifier::external_body] pub fn tag(&self) -> (r: OpTag) ensures r == op_tag(*self) { unimplemented!() }
  #[verifier::external_body] pub fn validity_flags(&self) -> (r: OpValidityFlags) ensures r == flags(*self) { unimplemented!() }
  #[verifier::external_body] pub fn port_count(&self, d: Direction) -> (r: usize) ensures r == count(*self, d) { unimplemented!() }
  #[verifier::external_body] pub fn port_kind(&self, p: Port) -> (r: Option<EdgeKind>) ensures r == kind(*self, p) { unimplemented!() }
  #[verifier::external_body] pub fn name(&self) -> OpName { unimplemented!() }
}
impl OpTag { #[verifier::external_body] pub fn is_superset(self, o: OpTag) -> (r: bool) ensures r == above(self, o) { unimplemented!() } }
impl Const { #[verifier::external_body] pub fn validate(&self) -> (r: Result<(), ConstTypeError>) ensures r is Ok == const_ok(*self) { unimplemented!() } }
impl Call { #[verifier::external_body] pub fn validate(&self) -> (r: Result<(), SignatureError>) ensures r is Ok == call_ok(*self) { unimplemented!() } }
impl LoadFunction { #[verifier::external_body] pub fn validate(&self) -> (r: Result<(), SignatureError>) ensures r is Ok == load_ok(*self) { unimplemented!() } }
impl OpDef { #[verifier::external_body] pub fn validate_args(&self, a: &Args, p: &Params) -> (r: Result<(), SignatureError>) ensures r is Ok == args_ok(*self, *a, *p) { unimplemented!() } }
impl ExtensionOp { #[verifier::external_body] pub fn def(&self) -> (r: &OpDef) ensures *r == def_of(*self) { unimplemented!() } #[verifier::external_body] pub fn args(&self) -> (r: &Args) ensures *r == args_of(*self) { unimplemented!() } }
impl FuncDefn { #[verifier::external_body] pub fn signature(&self) -> (r: &PolyFuncType) ensures *r == sig_defn(*self) { unimplemented!() } #[verifier::external_body] pub fn visibility(&self) -> (r: &Visibility) ensures *r == vis_defn(*self) { unimplemented!() } #[verifier::external_body] pub fn func_name(&self) -> (r: &Name) ensures *r == name_defn(*self) { unimplemented!() } }
impl FuncDecl { #[verifier::external_body] pub fn signature(&self) -> (r: &PolyFuncType) ensures *r == sig_decl(*self) { unimplemented!() } #[verifier::external_body] pub fn visibility(&self) -> (r: &Visibility) ensures *r == vis_decl(*self) { unimplemented!() } #[verifier::external_body] pub fn func_name(&self) -> (r: &Name) ensures *r == name_decl(*self) { unimplemented!() } }
// ---- the graph, as the view gives it ----
#[verifier::external_body] pub struct Graph { _p: u8 }
impl Graph {
  pub uninterp spec fn root(&self) -> Node;
  pub uninterp spec fn entry(&self) -> Node;
  pub uninterp spec fn all(&self) -> Seq<Node>;
  pub uninterp spec fn parent(&self, n: Node) -> Option<Node>;
  pub uninterp spec fn kids(&self, n: Node) -> Seq<Node>;
  pub uninterp spec fn op(&self, n: Node) -> OpType;
  pub uninterp spec fn ports(&self, n: Node, d: Direction) -> nat;
  pub uninterp spec fn links(&self, n: Node, p: Port) -> Seq<(Node, Port)>;
  pub uninterp spec fn joins(&self, a: Node, b: Node) -> Seq<(Port, Port)>;
  /// within the region of c: b can be reached from the node s, and only through a
  pub uninterp spec fn dom(&self, c: Node, s: Node, a: Node, b: Node) -> bool;
  /// distance from the top, and to the deepest descendant
  pub uninterp spec fn depth(&self, n: Node) -> nat;
  pub uninterp spec fn height(&self, n: Node) -> nat;
  /// the per-container checks: V01
  pub uninterp spec fn kids_ok(&self, n: Node) -> bool;
  #[verifier::external_body] pub fn module_root(&self) -> (r: Node) ensures r == self.root() { unimplemented!() }
  #[verifier::external_body] pub fn entrypoint(&self) -> (r: Node) ensures r == self.entry() { unimplemented!() }
  #[verifier::external_body] pub fn nodes(&self) -> (r: Vec<Node>) ensures r@ == self.all() { unimplemented!() }
  #[verifier::external_body] pub fn get_parent(&self, n: Node) -> (r: Option<Node>) ensures r == self.parent(n) { unimplemented!() }
  #[verifier::external_body] pub fn children(&self, n: Node) -> (r: Nodes) ensures r.rest() == self.kids(n) { unimplemented!() }
  #[verifier::external_body] pub fn get_optype(&self, n: Node) -> (r: &OpType) ensures *r == self.op(n) { unimplemented!() }
  #[verifier::external_body] pub fn num_ports(&self, n: Node, d: Direction) -> (r: usize) ensures r == self.ports(n, d) { unimplemented!() }
  #[verifier::external_body] pub fn node_ports(&self, n: Node, d: Direction) -> (r: Vec<Port>) ensures r@.len() == self.ports(n, d), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i].dir == d && r@[i].at == i { unimplemented!() }
  #[verifier::external_body] pub fn linked_ports(&self, n: Node, p: Port) -> (r: Links) ensures r.at == 0, r.v@ == self.links(n, p) { unimplemented!() }
  #[verifier::external_body] pub fn node_connections(&self, a: Node, b: Node) -> (r: Vec<(Port, Port)>) ensures r@ == self.joins(a, b) { unimplemented!() }
  #[verifier::external_body] pub fn region_portgraph(&self, c: Node) -> (r: (Region, NodeMap)) ensures r.0.of() == (*self, c) { unimplemented!() }
  /// what the view promises
  #[verifier::opaque] pub open spec fn wf(&self) -> bool {
    &&& forall|n: Node, p: Node| #![trigger self.parent(n), self.depth(p)] self.parent(n) == Some(p) ==> self.depth(p) < self.depth(n) && self.kids(p).contains(n)
    &&& forall|n: Node, i: int| #![trigger self.kids(n)[i]] 0 <= i < self.kids(n).len() && self.all().contains(n) ==> self.height(self.kids(n)[i]) < self.height(n) && self.all().contains(self.kids(n)[i])
    &&& forall|n: Node, p: Port, i: int| #![trigger self.links(n, p)[i]] 0 <= i < self.links(n, p).len() ==> self.all().contains(self.links(n, p)[i].0) && self.links(n, p).len() < 0x8000_0000 && self.links(n, p)[i].1.at < self.ports(self.links(n, p)[i].0, self.links(n, p)[i].1.dir)
    &&& self.op(self.root()) is Module && self.all().contains(self.root())
  }
}
/// an iterator over nodes
#[verifier::external_body] pub struct Nodes { _p: u8 }
impl Nodes {
  pub uninterp spec fn rest(&self) -> Seq<Node>;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Node>) ensures match r { Some(n) => old(self).rest().len() > 0 && n == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
  #[verifier::external_body] pub fn nth(&mut self, k: usize) -> (r: Option<Node>) ensures match r { Some(n) => k < old(self).rest().len() && n == old(self).rest()[k as int], None => old(self).rest().len() <= k } { unimplemented!() }
  #[verifier::external_body] pub fn all(self) -> (r: Vec<Node>) ensures r@ == self.rest() { unimplemented!() }
}
/// the linked ports as a peekable iterator
pub struct Links { pub v: Vec<(Node, Port)>, pub at: usize }
impl Links {
  pub fn peekable(self) -> (r: Links) ensures r == self { self }
  pub fn peek(&mut self) -> (r: Option<(Node, Port)>) requires old(self).at <= old(self).v@.len() ensures *final(self) == *old(self), r is Some == (old(self).at < old(self).v@.len()) { if self.at < self.v.len() { Some(self.v[self.at]) } else { None } }
  pub fn nth(&mut self, k: usize) -> (r: Option<(Node, Port)>) requires old(self).at == 0 ensures final(self).v == old(self).v, r is Some == (k < old(self).v@.len()) { self.at = self.v.len(); if k < self.v.len() { Some(self.v[k]) } else { None } }
}
// ---- regions and dominators (portgraph, petgraph) ----
#[verifier::external_body] pub struct Region { _p: u8 }
#[verifier::external_body] pub struct NodeMap { _p: u8 }
#[verifier::external_body] pub struct DomTree { _p: u8 }
#[verifier::external_body] pub struct DomIter { _p: u8 }
#[derive(Clone, Copy)] pub struct PNode { pub n: Node }
impl Region { pub uninterp spec fn of(&self) -> (Graph, Node); }
impl NodeMap { #[verifier::external_body] pub fn to_portgraph(&self, n: Node) -> (r: PNode) ensures r.n == n { unimplemented!() } }
impl DomTree { pub uninterp spec fn of(&self) -> (Graph, Node, Node);
  #[verifier::external_body] pub fn dominators(&self, b: PNode) -> (r: Option<DomIter>) ensures forall|a: Node| #[trigger] self.of().0.dom(self.of().1, self.of().2, a, b.n) <==> r is Some && r->0.has(a) { unimplemented!() } }
impl DomIter { pub uninterp spec fn has(&self, a: Node) -> bool;
  #[verifier::external_body] pub fn contains(&mut self, a: PNode) -> (r: bool) ensures r == old(self).has(a.n) { unimplemented!() } }
#[verifier::external_body] pub fn simple_fast(r: &Region, s: PNode) -> (t: DomTree) ensures t.of() == (r.of().0, r.of().1, s.n) { unimplemented!() }
/// the trees computed so far
#[verifier::external_body] pub struct Trees { _p: u8 }
impl Trees { pub uninterp spec fn view(&self) -> Map<Node, (DomTree, NodeMap)>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Node, (DomTree, NodeMap)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, n: &Node) -> (r: Option<&(DomTree, NodeMap)>) ensures match r { Some(t) => self@.dom().contains(*n) && *t == self@[*n], None => !self@.dom().contains(*n) } { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, n: Node, t: (DomTree, NodeMap)) ensures final(self)@ == old(self)@.insert(n, t) { unimplemented!() } }
pub open spec fn cached(g: Graph, t: Trees) -> bool { forall|n: Node| #![trigger t@[n]] t@.dom().contains(n) ==> t@[n].0.of() == (g, n, g.kids(n)[0]) }
// ---- ancestors ----
pub open spec fn chain(g: Graph, f: Option<Node>) -> Seq<Node> decreases (match f { Some(n) => g.depth(n) + 1, None => 0nat })
{ match f { None => Seq::<Node>::empty(), Some(n) => match g.parent(n) { None => seq![n], Some(p) => if g.depth(p) < g.depth(n) { seq![n] + chain(g, Some(p)) } else { seq![n] } } } }
/// `iter::successors(f, parent).tuple_windows()`
#[verifier::external_body] pub fn parent_pairs(f: Option<Node>, g: &Graph) -> (r: Vec<(Node, Node)>) ensures r@.len() == (if chain(*g, f).len() == 0 { 0 } else { (chain(*g, f).len() - 1) as nat }), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == (chain(*g, f)[i], chain(*g, f)[i + 1]) { unimplemented!() }
proof fn lemma_chain(g: Graph, f: Option<Node>) requires g.wf()
  ensures f is None ==> chain(g, f).len() == 0, f is Some ==> chain(g, f).len() >= 1 && chain(g, f)[0] == f->0,
    forall|i: int, j: int| 0 <= i < j < chain(g, f).len() ==> g.depth(#[trigger] chain(g, f)[j]) < g.depth(#[trigger] chain(g, f)[i]),
    forall|i: int| #![trigger chain(g, f)[i]] 0 <= i < chain(g, f).len() ==> g.parent(chain(g, f)[i]) == (if i + 1 < chain(g, f).len() { Some(chain(g, f)[i + 1]) } else { None })
  decreases (match f { Some(n) => g.depth(n) + 1, None => 0nat })
{ reveal(Graph::wf); if let Some(n) = f { if let Some(p) = g.parent(n) { assert(g.depth(p) < g.depth(n)); lemma_chain(g, Some(p)); let c = chain(g, Some(p)); assert(chain(g, f) =~= seq![n] + c);
    assert forall|i: int, j: int| 0 <= i < j < chain(g, f).len() implies g.depth(#[trigger] chain(g, f)[j]) < g.depth(#[trigger] chain(g, f)[i]) by { assert(chain(g, f)[j] == c[j - 1]); if i > 0 { assert(chain(g, f)[i] == c[i - 1]); } else { assert(c[0] == p); if j > 1 { assert(g.depth(c[j - 1]) < g.depth(c[0])); } } }
    assert forall|i: int| #![trigger chain(g, f)[i]] 0 <= i < chain(g, f).len() implies g.parent(chain(g, f)[i]) == (if i + 1 < chain(g, f).len() { Some(chain(g, f)[i + 1]) } else { None }) by { if i > 0 { assert(chain(g, f)[i] == c[i - 1]); if i < c.len() { assert(chain(g, f)[i + 1] == c[i]); } } else { assert(c[0] == p); } }
  } } }
pub open spec fn order_at(g: Graph, from: Node, a: Node, j: int) -> bool { kind(g.op(from), g.joins(from, a)[j].0) == Some(EdgeKind::StateOrder) }
pub open spec fn ordered(g: Graph, from: Node, a: Node) -> bool { exists|j: int| 0 <= j < g.joins(from, a).len() && #[trigger] order_at(g, from, a, j) }
pub open spec fn is_stat(k: EdgeKind) -> bool { k is Const || k is Function }
/// from a sibling of the ancestor `a` of the target; values need an order edge to that ancestor
pub open spec fn external(g: Graph, from: Node, k: EdgeKind, a: Node) -> bool { g.parent(a) is Some && g.parent(a) == g.parent(from) && (is_stat(k) || ordered(g, from, a)) }
/// from within a block that strictly dominates the block `a` above the target
pub open spec fn dominating(g: Graph, from: Node, k: EdgeKind, a: Node) -> bool
{ let b = g.parent(from)->0; let c = g.parent(b)->0; !is_stat(k) && g.parent(from) is Some && g.parent(b) is Some && a != b && g.parent(a) == Some(c) && op_tag(g.op(c)) == OpTag::Cfg && g.dom(c, g.kids(c)[0], b, a) }
pub open spec fn nonlocal(g: Graph, from: Node, k: EdgeKind, to: Node) -> bool
{ exists|i: int| #![trigger chain(g, g.parent(to))[i]] 0 <= i < chain(g, g.parent(to)).len() && (external(g, from, k, chain(g, g.parent(to))[i]) || dominating(g, from, k, chain(g, g.parent(to))[i])) }
pub open spec fn edge_ok(g: Graph, from: Node, k: EdgeKind, to: Node) -> bool
{ g.parent(from) == g.parent(to) || ((is_stat(k) || (k matches EdgeKind::Value(t) && copyable(t))) && nonlocal(g, from, k, to)) }
pub open spec fn up(g: Graph, to: Node, j: int) -> Option<Node> { Some(chain(g, g.parent(to))[j + 1]) }
/// the ancestor at which an edge out of its region is judged is the only one that can justify it
proof fn lemma_only(g: Graph, from: Node, k: EdgeKind, to: Node, i: int)
  requires g.wf(), g.parent(from) is Some, g.parent(from) != g.parent(to), 0 <= i < chain(g, g.parent(to)).len(), i + 1 < chain(g, g.parent(to)).len(),
    ({ let c = chain(g, g.parent(to)); let fp = g.parent(from)->0; (Some(c[i + 1]) == g.parent(from) || (!is_stat(k) && Some(c[i + 1]) == g.parent(fp))) && forall|j: int| #![trigger up(g, to, j)] 0 <= j < i ==> up(g, to, j) != g.parent(from) })
  ensures nonlocal(g, from, k, to) <==> (external(g, from, k, chain(g, g.parent(to))[i]) || dominating(g, from, k, chain(g, g.parent(to))[i])),
    g.parent(from) != Some(chain(g, g.parent(to))[i]), Some(chain(g, g.parent(to))[i + 1]) == g.parent(from) ==> !dominating(g, from, k, chain(g, g.parent(to))[i]), Some(chain(g, g.parent(to))[i + 1]) != g.parent(from) ==> !external(g, from, k, chain(g, g.parent(to))[i])
{ reveal(Graph::wf); let c = chain(g, g.parent(to)); lemma_chain(g, g.parent(to)); let fp = g.parent(from)->0;
  assert(g.parent(c[i]) == Some(c[i + 1]));
  assert(c[i] != fp) by { if c[i] == fp { if i > 0 { assert(up(g, to, i - 1) != g.parent(from)); assert(c[i - 1 + 1] == fp); assert(g.parent(c[i - 1]) == Some(c[i - 1 + 1])); assert(Some(c[(i - 1) + 1]) != g.parent(from)); } else { assert(c[0] == g.parent(to)->0); } } }
  if Some(c[i + 1]) == g.parent(from) { if g.parent(fp) is Some { assert(g.depth(g.parent(fp)->0) < g.depth(fp)); } }
  assert forall|j: int| #![trigger c[j]] 0 <= j < c.len() && (external(g, from, k, c[j]) || dominating(g, from, k, c[j])) implies j == i by {
    assert(g.parent(c[j]) is Some); assert(j + 1 < c.len()); assert(g.parent(c[j]) == Some(c[j + 1]));
    if external(g, from, k, c[j]) { if j < i { assert(up(g, to, j) != g.parent(from)); } else if j > i { assert(c[j + 1] == fp); if c[i + 1] == fp { assert(g.depth(c[j + 1]) < g.depth(c[i + 1])); } else { assert(g.parent(fp) == Some(c[i + 1])); assert(g.depth(c[i + 1]) < g.depth(fp)); assert(g.depth(c[j + 1]) < g.depth(c[i + 1])); } } }
    else { let cc = g.parent(fp)->0; assert(c[j + 1] == cc); if c[i + 1] == cc { if j < i { assert(g.depth(c[i + 1]) < g.depth(c[j + 1])); } if j > i { assert(g.depth(c[j + 1]) < g.depth(c[i + 1])); } }
      else { assert(c[i + 1] == fp); assert(g.parent(c[i + 1]) == Some(cc)); assert(i + 2 < c.len()) by { assert(g.parent(c[i + 1]) is Some); } assert(c[i + 2] == cc) by { assert(g.parent(c[i + 1]) == Some(c[i + 1 + 1])); } if j < i + 1 { assert(g.depth(c[i + 2]) < g.depth(c[j + 1])); } if j > i + 1 { assert(g.depth(c[j + 1]) < g.depth(c[i + 2])); } assert(j == i + 1); assert(c[j] == fp); } } }
}
proof fn lemma_step(g: Graph, to: Node, i: int) requires g.wf(), 0 <= i, i + 1 < chain(g, g.parent(to)).len() ensures g.parent(chain(g, g.parent(to))[i]) == Some(chain(g, g.parent(to))[i + 1]), g.kids(chain(g, g.parent(to))[i + 1]).len() > 0
{ lemma_chain(g, g.parent(to)); reveal(Graph::wf); let a = chain(g, g.parent(to))[i]; let p = chain(g, g.parent(to))[i + 1]; assert(g.parent(a) == Some(p)); assert(g.depth(p) < g.depth(a)); assert(g.kids(p).contains(a)); }
proof fn lemma_none(g: Graph, from: Node, k: EdgeKind, to: Node) requires g.wf(), g.parent(from) is Some,
  forall|j: int| #![trigger up(g, to, j)] 0 <= j && j + 1 < chain(g, g.parent(to)).len() ==> up(g, to, j) != g.parent(from) && (is_stat(k) || up(g, to, j) != g.parent(g.parent(from)->0))
  ensures !nonlocal(g, from, k, to)
{ let c = chain(g, g.parent(to)); lemma_chain(g, g.parent(to)); assert forall|i: int| #![trigger c[i]] 0 <= i < c.len() implies !external(g, from, k, c[i]) && !dominating(g, from, k, c[i]) by { assert(g.parent(c[i]) == (if i + 1 < c.len() { Some(c[i + 1]) } else { None })); assert(up(g, to, i) == Some(c[i + 1])); } }
// ---- the rules ----
pub open spec fn one_source(k: EdgeKind) -> bool { k is Value || is_stat(k) }
pub open spec fn one_target(k: EdgeKind) -> bool { k is ControlFlow || (k matches EdgeKind::Value(t) && !copyable(t)) }
pub open spec fn kind_ok(k: EdgeKind, d: Params) -> bool { match k { EdgeKind::Value(t) => type_ok(t, d), EdgeKind::Const(t) => type_ok(t, no_params()), EdgeKind::Function(p) => scheme_ok(p), _ => true } }
pub open spec fn link_ok(g: Graph, n: Node, k: EdgeKind, l: (Node, Port)) -> bool { kind(g.op(l.0), l.1) == Some(k) && edge_ok(g, n, k, l.0) }
pub open spec fn port_ok(g: Graph, n: Node, p: Port, d: Params) -> bool
{ let k = kind(g.op(n), p)->0; let l = g.links(n, p);
  if p.dir == Direction::Incoming { one_source(k) ==> l.len() == 1 }
  else { (one_target(k) ==> l.len() == 1) && kind_ok(k, d) && forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> link_ok(g, n, k, l[i]) } }
pub open spec fn node_ok(g: Graph, n: Node) -> bool
{ &&& !(g.op(n) is OpaqueOp)
  &&& g.ports(n, Direction::Incoming) == count(g.op(n), Direction::Incoming) && g.ports(n, Direction::Outgoing) == count(g.op(n), Direction::Outgoing)
  &&& n != g.root() ==> g.parent(n) is Some && above(flags(g.op(g.parent(n)->0)).allowed_children, op_tag(g.op(n)))
  &&& n == g.entry() ==> flags(g.op(n)).allowed_children != OpTag::None
  &&& g.kids_ok(n)
  &&& g.op(n) matches OpType::Const(c) ==> const_ok(c) }
pub open spec fn nodes_ok(g: Graph) -> bool { forall|i: int| #![trigger g.all()[i]] 0 <= i < g.all().len() ==> node_ok(g, g.all()[i]) }
pub open spec fn use_ok(o: OpType, d: Params) -> bool { match o { OpType::ExtensionOp(e) => args_ok(def_of(e), args_of(e), d), OpType::OpaqueOp(_) => false, OpType::Call(c) => list_ok(c.type_args@, d) && call_ok(c), OpType::LoadFunction(c) => list_ok(c.type_args@, d) && load_ok(c), _ => true } }
pub open spec fn within(o: OpType, d: Params) -> Params { match o { OpType::FuncDefn(f) => params_of(sig_defn(f)), _ => d } }
pub open spec fn ports_ok(g: Graph, n: Node, dir: Direction, d: Params, upto: int) -> bool { forall|i: usize| 0 <= i < upto ==> #[trigger] port_ok(g, n, Port { dir, at: i }, d) }
/// the node and everything below it, the closest enclosing function declaring the parameters d
pub open spec fn tree_ok(g: Graph, n: Node, d: Params) -> bool decreases g.height(n)
{ &&& use_ok(g.op(n), d)
  &&& ports_ok(g, n, Direction::Incoming, d, g.ports(n, Direction::Incoming) as int) && ports_ok(g, n, Direction::Outgoing, d, g.ports(n, Direction::Outgoing) as int)
  &&& forall|i: int| #![trigger g.kids(n)[i]] 0 <= i < g.kids(n).len() ==> g.height(g.kids(n)[i]) < g.height(n) && tree_ok(g, g.kids(n)[i], within(g.op(n), d)) }
pub struct Export { pub name: Name, pub sig: PolyFuncType, pub defn: bool }
pub open spec fn exported(o: OpType) -> Option<Export> { match o { OpType::FuncDecl(f) => if vis_decl(f) == Visibility::Public { Some(Export { name: name_decl(f), sig: sig_decl(f), defn: false }) } else { None }, OpType::FuncDefn(f) => if vis_defn(f) == Visibility::Public { Some(Export { name: name_defn(f), sig: sig_defn(f), defn: true }) } else { None }, _ => None } }
pub open spec fn may_share(a: Option<Export>, b: Option<Export>) -> bool { match (a, b) { (Some(x), Some(y)) => x.name == y.name ==> x.sig == y.sig && !x.defn && !y.defn, _ => true } }
pub open spec fn nth_export(g: Graph, i: int) -> Option<Export> { exported(g.op(g.kids(g.root())[i])) }
pub open spec fn listed(g: Graph, i: int, m: Name, v: (Node, PolyFuncType, bool)) -> bool { nth_export(g, i) == Some(Export { name: m, sig: v.1, defn: v.2 }) }
pub open spec fn names_ok(g: Graph, n: int) -> bool { forall|i: int, j: int| #![trigger nth_export(g, i), nth_export(g, j)] 0 <= i < j < n ==> may_share(nth_export(g, i), nth_export(g, j)) }
pub open spec fn accepted(g: Graph) -> bool { g.parent(g.root()) is None && nodes_ok(g) && tree_ok(g, g.root(), no_params()) && names_ok(g, g.kids(g.root()).len() as int) }
proof fn lemma_node(g: Graph, n: Node) requires nodes_ok(g), g.all().contains(n) ensures node_ok(g, n) { let i = choose|i: int| 0 <= i < g.all().len() && g.all()[i] == n; assert(node_ok(g, g.all()[i])); }
proof fn lemma_inner(g: Graph, n: Node, p: Port) requires g.wf(), nodes_ok(g), g.all().contains(n), p.at < g.ports(n, p.dir) ensures g.parent(n) is Some
{ reveal(Graph::wf); lemma_node(g, n); op_facts(g.op(n), p); if n == g.root() { assert(g.op(n) is Module); assert(count(g.op(n), p.dir) == 0); assert(g.ports(n, p.dir) == count(g.op(n), p.dir)) by { match p.dir { Direction::Incoming => {}, Direction::Outgoing => {} } } } }
/// `args.iter().try_for_each(validate)`
pub fn validate_all(a: &Vec<TypeArg>, d: &Params) -> (r: Result<(), SignatureError>) ensures r is Ok <==> list_ok(a@, *d)
{ for i in 0..a.len() invariant forall|j: int| #![trigger a@[j]] 0 <= j < i ==> arg_ok(a@[j], *d), { match a[i].validate(d) { Ok(_) => {}, Err(e) => { return Err(e); } } } Ok(()) }
/// public names seen so far
#[verifier::external_body] pub struct Exports { _p: u8 }
pub struct OccupiedName { pub key: Name, pub value: (Node, PolyFuncType, bool) }
pub struct VacantName { pub key: Name }
pub enum Entry { Occupied(OccupiedName), Vacant(VacantName) }
impl OccupiedName { pub fn get(&self) -> (r: &(Node, PolyFuncType, bool)) ensures *r == self.value { &self.value } }
impl Exports { pub uninterp spec fn view(&self) -> Map<Name, (Node, PolyFuncType, bool)>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Name, (Node, PolyFuncType, bool)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn entry(&self, k: &Name) -> (r: Entry) ensures match r { Entry::Occupied(e) => self@.dom().contains(*k) && e.key == *k && e.value == self@[*k], Entry::Vacant(e) => !self@.dom().contains(*k) && e.key == *k } { unimplemented!() }
  #[verifier::external_body] pub fn put(&mut self, k: Name, v: (Node, &PolyFuncType, bool)) ensures final(self)@ == old(self)@.insert(k, (v.0, *v.1, v.2)) { unimplemented!() } }
'''
def errors(t):
    t = re.sub(r'<N:\s*HugrNode>', '', t)
    t = re.sub(r'\b(ChildrenValidationError|EdgeValidationError|InterGraphEdgeError|OpaqueOpError)<N>', r'\1', t)
    return subst(t, [(r"&'static str", 'Text'), (r'\bN\b', 'Node'), (r'\bString\b', 'Name')])
class Looper:
    """iteration over nodes, ports, links and connections as counted loops"""
    def __init__(self, keyword='for'): self.n = 0
    def __call__(self, m):
        pat, e = m.group(1).strip(), re.sub(r'\s+', ' ', m.group(2)).strip()
        if '..' in e: return m.group(0)
        i = self.n; self.n += 1
        e = re.sub(r'\s*\.map_into\(\)$', '', e)
        mm = re.match(r'iter::successors\((.*?), \|&(\w+)\| self\.hugr\.get_parent\(\2\)\)\s*\.tuple_windows\(\)$', e)
        start = '0'
        if mm: e = f'parent_pairs({mm.group(1)}, self.hugr)'
        elif e == 'Direction::BOTH': e = '[Direction::Incoming, Direction::Outgoing]'
        elif re.search(r'\.children\([^()]*(\([^()]*\))?[^()]*\)$', e): e = f'({e}).all()'
        elif re.match(r'\w+$', e): return f'for n{i} in {e}.at..{e}.v.len() {{ let {pat} = {e}.v[n{i}];'
        return f'let v{i} = {e}; for n{i} in 0..v{i}.len() {{ let {pat} = v{i}[n{i}];'
def loopers(): return [(r'\bfor\s+([^{};]+?)\s+in\s+([^{]+?)\s*\{', Looper())]
BASE = [(r"<'a,\s*N:\s*HugrNode>", "<'a>"), (r'\b(ValidationError|InterGraphEdgeError)<H::Node>', r'\1'), (r'\bH::Node\b', 'Node'), (r'::<Node>', ''), (r'&\[TypeParam\]', '&Params'), (r'&\[\]', 'none_declared()'),
        (r'"[^"]*"', 'TEXT'), (r'\.expect\(TEXT\)', '.unwrap()'), (r'panic!\(\s*TEXT\s*\)', 'never()'),
        (r'(?s)Err\(OpaqueOpError::UnresolvedOp\(.*?\)\)\?;', 'return Err(ValidationError::OpaqueOpError(OpaqueOpError::unresolved()));'),
        (r'\b(c)\.validate\(\)\?;', r'match \1.validate() { Ok(_) => {}, Err(e) => { return Err(ValidationError::ConstTypeError(e)); } }'),
        (r'(?s)self\.validate_edge\(([^;]*)\)\?;', r'match self.validate_edge(\1) { Ok(_) => {}, Err(e) => { return Err(ValidationError::InterGraphEdgeError(e)); } }'),
        (r'dominators::simple_fast', 'simple_fast')]
ARGS = [(r'(\|args: &\[TypeArg\]\|) -> (Result<\(\), SignatureError>) \{', r'|args: &Vec<TypeArg>| -> (o: \2) ensures o is Ok <==> list_ok(args@, *var_decls) {'), (r'(\w+)\.iter\(\)\.try_for_each\(\|(\w+)\| \2\.validate\(var_decls\)\)', r'validate_all(\1, var_decls)'),
        (r'(?s)(\w+)\(&(\w+)\.type_args\)\s*\.and_then\(\|\(\)\| \2\.validate\(\)\)', r'(match \1(&\2.type_args) { Ok(_) => \2.validate(), Err(e) => Err(e) })')]
def uncfg(f):
    """the statements compiled only into the tests are dropped"""
    f = copy.copy(f); b = f.body
    while True:
        m = re.search(r'#\[cfg\(all\(test[^\]]*\)\]\s*\{', b)
        if not m: break
        r = Rust(b); o = m.end() - 1; b = b[:m.start()] + b[r.match[o] + 1:]
    f.body = b; return f
KEEP = 'final(self).hugr == old(self).hugr, cached(*old(self).hugr, old(self).dominators) ==> cached(*final(self).hugr, final(self).dominators),'
G0 = 'let ghost g = *self.hugr;'
ISO = '#[verifier::loop_isolation(false)]\n'
def units():
    tags, par = tag_table()
    u = Unit('v02'); hv = src(HV); ty = src('hugr-core/src/types.rs'); v = src(OPS + '/validate.rs')
    u.text('#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum OpTag { ' + ', '.join(tags) + ' }')
    u.text(DATA)
    u.text(strip_attrs(ty.item(r'pub enum EdgeKind\b')))
    ops(u)
    fl = subst(strip_attrs(v.item(r'pub struct OpValidityFlags\b')), [(r'<N:\s*HugrNode(?:\s*=\s*Node)?>', ''), (r'\n[^\n]*edge_check[^,]*,', ''), (r'pub\((?:super|crate)\) ', 'pub ')])
    u.text('#[derive(Clone, Copy)]\n' + fl)
    u.text(SPEC)
    u.trust('what operations report about themselves (tag, flags, port counts and kinds, their own validation) is the subject of O01, O02, V01, T02, T03 and T05; here these are callee contracts')
    u.trust('the graph view (HugrView): parents, children, links and connections are the lists the graph holds; parents form a tree; linked ports exist')
    u.trust('region_portgraph and petgraph::algo::dominators::simple_fast compute the dominators of the region they are given from the start node they are given; iter::successors with tuple_windows yields consecutive pairs')
    u.text('impl EdgeKind {')
    ki = ty.impl(r'EdgeKind\s*\{')
    for n, c in (('is_linear', '(*self matches EdgeKind::Value(t) && !copyable(t))'), ('is_static', 'is_stat(*self)'), ('is_value', '(*self is Value)'), ('is_const', '(*self is Const)'), ('is_function', '(*self is Function)'), ('is_control_flow', '(*self is ControlFlow)'), ('is_state_order', '(*self is StateOrder)')):
        u.fn(ty.fn(n, ki), f'ensures r == {c},', obligation=f'EdgeKind::{n}')
    u.text('}')
    u.text(errors(strip_attrs(hv.item(r'pub enum ValidationError\b'))))
    u.text(errors(strip_attrs(hv.item(r'pub enum InterGraphEdgeError\b'))))
    im = hv.impl(r"<'a, H: HugrView> ValidationContext<'a, H>\s*\{")
    u.text("""pub struct ValidationContext<'a> { pub hugr: &'a Graph, pub dominators: Trees }
impl<'a> ValidationContext<'a> {
/// decided by V01
#[verifier::external_body] fn validate_children(&self, node: Node, op_type: &OpType) -> (r: Result<(), ValidationError>) requires *op_type == self.hugr.op(node) ensures r is Ok <==> self.hugr.kids_ok(node) { unimplemented!() }""")
    u.fn(hv.fn('new', im), 'ensures *r.hugr == *hugr, cached(*hugr, r.dominators),', rules=[(r'HashMap::new\(\)', 'Trees::new()'), (r"&'a H\b", "&'a Graph")], obligation='ValidationContext::new')
    u.fn(hv.fn('compute_dominator', im), 'requires self.hugr.kids(parent).len() > 0, ensures r.0.of() == (*self.hugr, parent, self.hugr.kids(parent)[0]),',
         rules=BASE, sig='fn compute_dominator(&self, parent: Node) -> (r: (DomTree, NodeMap))', obligation='ValidationContext::compute_dominator')
    u.fn(hv.fn('validate_port_kind', im), 'ensures r is Ok <==> kind_ok(*port_kind, *var_decls),', rules=BASE + [(r'match &port_kind', 'match port_kind')], obligation='ValidationContext::validate_port_kind')
    u.fn(hv.fn('validate_node', im), 'requires self.hugr.wf(), ensures r is Ok <==> node_ok(*self.hugr, node),', rules=loopers() + BASE, pre=G0,
         loops=[('invariant n0 >= 1 ==> g.ports(node, Direction::Incoming) == count(g.op(node), Direction::Incoming), n0 >= 2 ==> g.ports(node, Direction::Outgoing) == count(g.op(node), Direction::Outgoing),', '')], attrs=ISO, obligation='ValidationContext::validate_node')
    # ---- edges
    ed = hv.fn('validate_edge', im)
    FIND = [(r'(?s)self\s*\.hugr\s*\.node_connections\(([^()]*)\)\s*\.find\(\|&\[(\w+), _\]\| (.*?)\)\s*\.ok_or\((.*?)\)\?;', r'let joined = self.hugr.node_connections(\1); let mut found = false; for q in 0..joined.len() { let (\2, _) = joined[q]; if \3 { found = true; } } if !found { return Err(\4); }'),
            (r'(?s)\.is_some_and\(\|mut (\w+)\| \1\.any\(\|(\w+)\| \2 == (.*?)\)\)', r'.ANY(\3)'), (r'(?s)if !(\w+)\s*\.dominators\(([^;{}]*?)\)\s*\.ANY\((.*?)\)\s*\{', r'let above_it = match \1.dominators(\2) { Some(mut ds) => ds.contains(\3), None => false }; proof { let t = \1.of(); let b = g.parent(from)->0; assert(t.0 == g && t.2 == g.kids(t.1)[0]); assert(above_it == g.dom(t.1, g.kids(t.1)[0], b, at.0)); assert(t.1 == at.1); } if !above_it {')]
    c = 'chain(g, g.parent(to))'
    u.fn(ed, f"""requires old(self).hugr.wf(), nodes_ok(*old(self).hugr), old(self).hugr.all().contains(from), *from_optype == old(self).hugr.op(from), from_offset.at < old(self).hugr.ports(from, from_offset.dir), cached(*old(self).hugr, old(self).dominators),
 ensures {KEEP} r is Ok <==> edge_ok(*old(self).hugr, from, kind(*from_optype, from_offset)->0, to),""", rules=FIND + loopers() + [(r'(?s)(for \w+ in [^{]*\{ let )(\w+) = (v\d+)\[(\w+)\];(?=\s*if ancestor_parent)', r'\1\2 = \3[\4];')] + BASE, attrs=ISO,
         pre=G0 + 'proof { lemma_node(g, from); lemma_inner(g, from, from_offset); op_facts(g.op(from), from_offset); } let ghost k = kind(*from_optype, from_offset)->0;',
         loops=[(f'invariant self.hugr == old(self).hugr, *self.hugr == g, cached(g, self.dominators), from_parent_parent == g.parent(from_parent), forall|j: int| #![trigger up(g, to, j)] 0 <= j < n0 ==> up(g, to, j) != g.parent(from) && (is_stat(k) || up(g, to, j) != g.parent(from_parent)),', f'let ghost at = v0@[n0 as int]; proof {{ let ancestor_parent = at.1; let c = chain(g, g.parent(to)); assert(to_parent == g.parent(to)); assert(v0@[n0 as int] == (c[n0 as int], c[n0 + 1])); lemma_step(g, to, n0 as int); if Some(ancestor_parent) == g.parent(from) || (!is_stat(k) && Some(ancestor_parent) == g.parent(from_parent)) {{ lemma_only(g, from, k, to, n0 as int); }} }}'),
                (f'invariant found == (exists|j: int| 0 <= j < q && #[trigger] order_at(g, from, ancestor, j)),', 'assert(order_at(g, from, ancestor, q as int) <==> kind(*from_optype, joined[q as int].0) == Some(EdgeKind::StateOrder));')],
         post_rules=[(r'Err\(InterGraphEdgeError::NoRelation', 'proof { lemma_none(g, from, k, to); } Err(InterGraphEdgeError::NoRelation')], obligation='ValidationContext::validate_edge')
    # ---- ports
    u.fn(hv.fn('validate_port', im), f"""requires old(self).hugr.wf(), nodes_ok(*old(self).hugr), old(self).hugr.all().contains(node), *op_type == old(self).hugr.op(node), port.at < old(self).hugr.ports(node, port.dir), cached(*old(self).hugr, old(self).dominators),
 ensures {KEEP} r is Ok <==> port_ok(*old(self).hugr, node, port, *var_decls),""", rules=loopers() + BASE, attrs=ISO,
         pre=G0 + 'proof { lemma_node(g, node); op_facts(g.op(node), port); reveal(Graph::wf); }',
         loops=[('invariant link_cnt == n0, *self.hugr == g, self.hugr == old(self).hugr, cached(g, self.dominators), one_target(port_kind) && n0 > 0 ==> n0 == 1, forall|i: int| #![trigger links.v@[i]] 0 <= i < n0 ==> link_ok(g, node, port_kind, links.v@[i]),', 'proof { let l = links.v@[n0 as int]; assert(l == g.links(node, port)[n0 as int]); lemma_node(g, l.0); op_facts(g.op(l.0), l.1); }')],
         obligation='ValidationContext::validate_port')
    # ---- the tree
    u.fn(hv.fn('validate_subtree', im), f"""requires old(self).hugr.wf(), nodes_ok(*old(self).hugr), old(self).hugr.all().contains(node), cached(*old(self).hugr, old(self).dominators),
 ensures {KEEP} r is Ok <==> tree_ok(*old(self).hugr, node, *var_decls), decreases old(self).hugr.height(node)""", rules=loopers() + BASE + ARGS + [(r'(\|ext_op: &ExtensionOp\|) -> (Result<\(\), ValidationError>) \{', r'\1 -> (o: \2) ensures o is Ok <==> args_ok(def_of(*ext_op), args_of(*ext_op), *var_decls) {')], attrs=ISO,
         pre=G0 + 'proof { reveal(Graph::wf); } let ghost d = *var_decls; let ghost inn = Direction::Incoming; let ghost outn = Direction::Outgoing;',
         loops=[('invariant *self.hugr == g, self.hugr == old(self).hugr, cached(g, self.dominators), *var_decls == d, n0 >= 1 ==> ports_ok(g, node, inn, d, g.ports(node, inn) as int), n0 >= 2 ==> ports_ok(g, node, outn, d, g.ports(node, outn) as int),', ''),
                ('invariant *self.hugr == g, self.hugr == old(self).hugr, cached(g, self.dominators), *var_decls == d, ports_ok(g, node, dir, d, n1 as int),', 'proof { assert(v1@[n1 as int] == (Port { dir, at: n1 })); }'),
                ('invariant *self.hugr == g, self.hugr == old(self).hugr, cached(g, self.dominators), *var_decls == within(g.op(node), d), forall|i: int| #![trigger g.kids(node)[i]] 0 <= i < n2 ==> g.height(g.kids(node)[i]) < g.height(node) && tree_ok(g, g.kids(node)[i], within(g.op(node), d)),', 'proof { assert(v2@[n2 as int] == g.kids(node)[n2 as int]); }')],
         obligation='ValidationContext::validate_subtree')
    # ---- names
    K = 'g.kids(g.root())'
    u.fn(hv.fn('validate_linkage', im), 'requires self.hugr.wf(), ensures r is Ok <==> names_ok(*self.hugr, self.hugr.kids(self.hugr.root()).len() as int),', attrs=ISO, pre=G0,
         rules=[(r'(?s)for (\w+) in (self\.hugr\.children\(self\.hugr\.module_root\(\)\)) \{', r'let v0 = (\2).all(); let mut n0: usize = 0; let ghost mut seen = Map::<Name, int>::empty(); while n0 < v0.len() { let \1 = v0[n0]; n0 = n0 + 1; let ghost at = n0 - 1; let ghost here = nth_export(g, at); proof { assert(here == exported(g.op(\1))); assert(forall|m: Name, v: (Node, PolyFuncType, bool)| listed(g, at, m, v) <==> here == Some(Export { name: m, sig: v.1, defn: v.2 })); }'), (r'HashMap::new\(\)', 'Exports::new()'), (r'node_sig_defn\.entry\((\w+)\)', r'node_sig_defn.entry(\1)'), (r'(\w+)\.insert\(\((\w+), (\w+), (\w+)\)\);', r'let ghost key = \1.key; node_sig_defn.put(\1.key, (\2, \3, \4)); proof { seen = seen.insert(key, at); assert(listed(g, at, key, node_sig_defn@[key])); }'), (r'prev_sig != &sig', 'prev_sig != sig'), (r'prev_sig == &sig', 'prev_sig == sig')] + BASE,
         loops=[(f'''invariant n0 <= v0@.len(), v0@ == {K}, names_ok(g, n0 as int), forall|i: int| #![trigger nth_export(g, i)] 0 <= i < n0 && nth_export(g, i) is Some ==> node_sig_defn@.dom().contains((nth_export(g, i)->0).name),
  forall|m: Name| #![trigger node_sig_defn@.dom().contains(m)] node_sig_defn@.dom().contains(m) ==> 0 <= seen[m] < n0 && listed(g, seen[m], m, node_sig_defn@[m]), decreases v0@.len() - n0''', '')], obligation='ValidationContext::validate_linkage')
    u.fn(uncfg(hv.fn('validate', im)), f"""requires old(self).hugr.wf(), cached(*old(self).hugr, old(self).dominators),
 ensures {KEEP} r is Ok <==> accepted(*old(self).hugr),""", rules=loopers() + BASE, attrs=ISO, pre=G0 + 'proof { reveal(Graph::wf); }',
         loops=[('invariant *self.hugr == g, forall|i: int| #![trigger g.all()[i]] 0 <= i < n0 ==> node_ok(g, g.all()[i]),', '')], obligation='ValidationContext::validate')
    u.text('}')
    return [u]
