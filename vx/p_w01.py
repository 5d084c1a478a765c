from typesx import *
from common import *
import p_h02 as H, p_s03 as S
EXEC = 'w01'
PD = 'hugr-core/src/hugr/patch/'
TRUSTED = ["portgraph's graph, hierarchy, links and neighbour listings do what their documentation says", 'the port facts of operations (O02): a constant load has one output and a static input, value ports come first', 'a view is instantiated at Hugr itself', 'itertools: exactly_one, at_most_one, unique']
ASSUMPTIONS = ['the graph a rewrite is applied to is valid where the contract says so: every node has the ports of its operation, every value or static input has one source', 'copying the inside of a node (copy_descendants) is specified through H02 and executed there']
BOUNDED = ['applying SimpleReplacement, Replacement, InlineDFG, InlineCall, PeelTailLoop, OutlineCfg and InsertCut: executed on 300 random valid graphs at every place of each (thorough 4000) against a plain model of the result, with the validity of the result, verify compared with apply, and the graph compared when a rewrite is refused; not proved']
DATA = """
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Type { _p: u8 }
pub enum EdgeKind { Value(Type), Other(u64) }
pub enum RemoveError { InvalidNode(Node), ValueUsed(Node) }
pub enum IdentityInsertionError { InvalidParentNode, InvalidNode(), InvalidPortKind(Option<EdgeKind>) }
pub struct RemoveLoadConstant(pub Node);
pub struct RemoveConst(pub Node);
pub struct IdentityInsertion { pub post_node: Node, pub post_port: IncomingPort }
pub uninterp spec fn loads(o: OpType) -> bool;
pub uninterp spec fn constant(o: OpType) -> bool;
pub uninterp spec fn out_row(o: OpType) -> Seq<Type>;
pub uninterp spec fn static_in(o: OpType) -> Option<IncomingPort>;
pub uninterp spec fn in_kind(o: OpType, i: int) -> Option<EdgeKind>;
pub uninterp spec fn noop(t: Type) -> OpType;
impl OpType {
  #[verifier::external_body] pub fn is_load_constant(&self) -> (r: bool) ensures r == loads(*self), r ==> out_row(*self).len() == 1 && out_count(*self) >= 1 && static_in(*self) is Some { unimplemented!() }
  #[verifier::external_body] pub fn is_const(&self) -> (r: bool) ensures r == constant(*self) { unimplemented!() }
  #[verifier::external_body] pub fn static_input_port(&self) -> (r: Option<IncomingPort>) ensures r == static_in(*self), r matches Some(p) ==> p.at < in_count(*self) { unimplemented!() }
  #[verifier::external_body] pub fn in_port_kind(&self, p: IncomingPort) -> (r: Option<EdgeKind>) ensures r == in_kind(*self, p.at as int), r is Some ==> p.at < in_count(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn Noop(t: Type) -> (r: OpType) ensures r == noop(t), in_count(r) >= 1, out_count(r) >= 1 { unimplemented!() }
// ---- iterators as lists ----
#[derive(Debug)] pub struct Several;
pub trait Few<T>: Sized { spec fn all(&self) -> Seq<T>;
  fn exactly_one(self) -> (r: Result<T, Several>) ensures r is Ok <==> self.all().len() == 1, r matches Ok(x) ==> x == self.all()[0];
  fn first_one(self) -> (r: Option<T>) ensures r is Some <==> self.all().len() > 0, r matches Some(x) ==> x == self.all()[0];
}
impl<T: Copy> Few<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ }
  fn exactly_one(self) -> (r: Result<T, Several>) { if self.len() == 1 { Ok(self[0]) } else { Err(Several) } }
  fn first_one(self) -> (r: Option<T>) { if self.len() > 0 { Some(self[0]) } else { None } }
}
// ---- links seen from one end ----
impl Port {
  pub fn as_outgoing(self) -> (r: Result<OutgoingPort, Several>) ensures r is Ok <==> self.dir == Direction::Outgoing, r matches Ok(p) ==> p.at == self.at { match self.dir { Direction::Outgoing => Ok(OutgoingPort { at: self.at }), Direction::Incoming => Err(Several) } }
  pub fn as_incoming(self) -> (r: Result<IncomingPort, Several>) ensures r is Ok <==> self.dir == Direction::Incoming, r matches Ok(p) ==> p.at == self.at { match self.dir { Direction::Incoming => Ok(IncomingPort { at: self.at }), Direction::Outgoing => Err(Several) } }
}
pub open spec fn outp(i: int) -> Port { Port { dir: Direction::Outgoing, at: i as usize } }
pub open spec fn inp(i: int) -> Port { Port { dir: Direction::Incoming, at: i as usize } }
/// l is the only link into its target port
pub open spec fn sole(g: Graph, l: Link) -> bool { g.cnt(l) == 1 && forall|k: Link| #![trigger g.cnt(k)] k.t == l.t && k.i == l.i && g.cnt(k) > 0 ==> k == l }
pub open spec fn sole_out(g: Graph, l: Link) -> bool { g.cnt(l) == 1 && forall|k: Link| #![trigger g.cnt(k)] k.s == l.s && k.o == l.o && g.cnt(k) > 0 ==> k == l }
pub open spec fn adjacent(g: Graph, n: Idx, dir: Direction, x: Idx) -> bool { match dir { Direction::Outgoing => exists|l: Link| #[trigger] g.cnt(l) > 0 && l.s == n && l.t == x, Direction::Incoming => exists|l: Link| #[trigger] g.cnt(l) > 0 && l.t == n && l.s == x } }
pub open spec fn feeds(g: Graph, s: Idx, n: Idx, i: int) -> bool { exists|l: Link| #[trigger] g.cnt(l) > 0 && l.s == s && l.t == n && l.i == i }
pub open spec fn idle(g: Graph, n: Idx) -> bool { forall|l: Link| #![trigger g.cnt(l)] l.s == n ==> g.cnt(l) == 0 }
/// every node has the ports of its operation
pub open spec fn fits(h: Hugr) -> bool { forall|x: Idx| #![trigger h.graph.live(x)] h.live(x) ==> h.graph.ins(x) == in_count(h.op(x)) && h.graph.outs(x) == out_count(h.op(x)) }
impl Graph {
  #[verifier::external_body] pub fn neighbours(&self, n: Idx, dir: Direction) -> (r: Vec<Idx>) ensures forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) <==> adjacent(*self, n, dir, x), r.len() > 0 ==> adjacent(*self, n, dir, r@[0]), r.len() == 0 ==> forall|x: Idx| !#[trigger] adjacent(*self, n, dir, x) { unimplemented!() }
}
"""
LEM = {}
LEM['lemma_occurs'] = """
pub proof fn lemma_occurs(v: Seq<(Idx, Port)>, a: (Idx, Port)) ensures occ(v, a) > 0 <==> v.contains(a), occ(v, a) <= v.len() decreases v.len()
{ if v.len() > 0 { lemma_occurs(v.drop_last(), a); let w = v.drop_last(); if w.contains(a) { let i = choose|i: int| 0 <= i < w.len() && w[i] == a; assert(v[i] == a); } if v.contains(a) && v.last() != a { let i = choose|i: int| 0 <= i < v.len() && v[i] == a; assert(w[i] == a); } if v.last() == a { assert(v[v.len() - 1] == a); } } }
pub proof fn lemma_all(v: Seq<(Idx, Port)>, a: (Idx, Port)) requires forall|j: int| #![trigger v[j]] 0 <= j < v.len() ==> v[j] == a ensures occ(v, a) == v.len() decreases v.len()
{ if v.len() > 0 { let w = v.drop_last(); assert forall|j: int| #![trigger w[j]] 0 <= j < w.len() implies w[j] == a by { assert(v[j] == a); } lemma_all(w, a); assert(v[v.len() - 1] == a); } }
pub open spec fn ends_of(g: Graph, n: Idx, p: Port, v: Seq<(Idx, Port)>) -> bool { forall|a: (Idx, Port)| #![trigger occ(v, a)] occ(v, a) == joins(g, (n, p), a) }
pub proof fn lemma_ends(g: Graph, n: Idx, p: Port, v: Seq<(Idx, Port)>)
  requires g.wf(), ends_of(g, n, p, v), g.has(n, p), forall|j: int| #![trigger v[j]] 0 <= j < v.len() ==> g.has(v[j].0, v[j].1)
  ensures forall|j: int| #![trigger v[j]] 0 <= j < v.len() ==> v[j].1.dir != p.dir,
    p.dir == Direction::Incoming ==> (v.len() == 1 <==> exists|l: Link| l.t == n && l.i == p.at && #[trigger] sole(g, l)) && (forall|l: Link| #![trigger sole(g, l)] l.t == n && l.i == p.at && sole(g, l) ==> v.len() == 1 && l.s == v[0].0 && l.o == v[0].1.at),
    p.dir == Direction::Outgoing ==> (v.len() == 0 <==> forall|l: Link| #![trigger g.cnt(l)] l.s == n && l.o == p.at ==> g.cnt(l) == 0),
    p.dir == Direction::Incoming ==> (v.len() == 0 <==> forall|l: Link| #![trigger g.cnt(l)] l.t == n && l.i == p.at ==> g.cnt(l) == 0),
    p.dir == Direction::Incoming && v.len() > 0 ==> g.cnt(Link { s: v[0].0, o: v[0].1.at as int, t: n, i: p.at as int }) > 0,
{
  assert forall|j: int| #![trigger v[j]] 0 <= j < v.len() implies v[j].1.dir != p.dir && joins(g, (n, p), v[j]) > 0 by { lemma_occurs(v, v[j]); assert(v.contains(v[j])); }
  if v.len() > 0 { assert(joins(g, (n, p), v[0]) > 0); }
  match p.dir {
    Direction::Incoming => {
      assert forall|l: Link| #![trigger g.cnt(l)] l.t == n && l.i == p.at && g.cnt(l) > 0 implies v.contains((l.s, outp(l.o))) && 0 <= l.o <= usize::MAX by { g.narrow(l.s); let a = (l.s, outp(l.o)); assert(occ(v, a) == joins(g, (n, p), a)); lemma_occurs(v, a); }
      if v.len() == 1 { let l = Link { s: v[0].0, o: v[0].1.at as int, t: n, i: p.at as int }; lemma_occurs(v, v[0]); assert(occ(v, v[0]) == g.cnt(l)); assert(sole(g, l)) by { assert forall|k: Link| #![trigger g.cnt(k)] k.t == l.t && k.i == l.i && g.cnt(k) > 0 implies k == l by { assert(v.contains((k.s, outp(k.o)))); } } }
      assert forall|l: Link| #![trigger sole(g, l)] l.t == n && l.i == p.at && sole(g, l) implies v.len() == 1 && l.s == v[0].0 && l.o == v[0].1.at by {
        let a = (l.s, outp(l.o)); assert(g.cnt(l) > 0); assert(v.contains(a));
        assert forall|j: int| #![trigger v[j]] 0 <= j < v.len() implies v[j] == a by { let k = Link { s: v[j].0, o: v[j].1.at as int, t: n, i: p.at as int }; assert(joins(g, (n, p), v[j]) > 0); assert(g.cnt(k) > 0); }
        lemma_all(v, a); assert(occ(v, a) == g.cnt(l)); }
      if v.len() == 0 { assert forall|l: Link| #![trigger g.cnt(l)] l.t == n && l.i == p.at implies g.cnt(l) == 0 by { if g.cnt(l) > 0 { assert(v.contains((l.s, outp(l.o)))); } } }
    }
    Direction::Outgoing => {
      if v.len() == 0 { assert forall|l: Link| #![trigger g.cnt(l)] l.s == n && l.o == p.at implies g.cnt(l) == 0 by { if g.cnt(l) > 0 { g.narrow(l.t); let a = (l.t, inp(l.i)); assert(occ(v, a) == joins(g, (n, p), a)); lemma_occurs(v, a); } } }
    }
  }
}"""
V = [(r'Self::Node', 'Node'), (r'&\s*impl HugrView(?:<Node = \w+>)?', '&Hugr'), (r'&mut impl HugrMut<Node = \w+>', '&mut Hugr'), (r'\bN\b', 'Node'), (r'(\w+Error)<Node>', r'\1'), (r'\.next\(\)', '.first_one()')]
UNW = [(r'(?s)\.expect\(\s*"[^"]*",?\s*\)', '.unwrap()')]
def views(u):
    w = src(H.HW); im = w.impl(r'HugrView for Hugr\s*\{'); tr = w.block(r'(?m)^pub trait HugrView\b')
    u.text('impl Graph { pub axiom fn narrow(&self, n: Idx) ensures self.ins(n) <= usize::MAX, self.outs(n) <= usize::MAX; }')
    u.text(DATA)
    for n, t in LEM.items(): u.lemma(n, t)
    R = [(r'impl Iterator<Item = (.*?)>( \+ Clone)?$', r'Vec<\1>')] + V + H.BASE + [(r'port\.into\(\)', 'port')]
    u.text('impl Hugr {')
    u.fn(w.fn('neighbours', im), 'ensures forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) <==> adjacent(self.graph, node, dir, x), r.len() > 0 ==> adjacent(self.graph, node, dir, r@[0]), r.len() == 0 ==> forall|x: Idx| !#[trigger] adjacent(self.graph, node, dir, x),', rules=R, obligation='HugrView for Hugr::neighbours')
    for n, d in (('input_neighbours', 'Incoming'), ('output_neighbours', 'Outgoing')):
        u.fn(w.fn(n, tr), f'ensures forall|x: Idx| #![trigger r@.contains(x)] r@.contains(x) <==> adjacent(self.graph, node, Direction::{d}, x), r.len() > 0 ==> adjacent(self.graph, node, Direction::{d}, r@[0]), r.len() == 0 ==> forall|x: Idx| !#[trigger] adjacent(self.graph, node, Direction::{d}, x),', rules=R, obligation=f'HugrView::{n}')
    u.fn(w.fn('single_linked_port', tr), 'requires self.wf(), self.graph.has(node, port), ensures port.dir == Direction::Incoming ==> (r is Some <==> exists|l: Link| l.t == node && l.i == port.at && #[trigger] sole(self.graph, l)) && (forall|l: Link| #![trigger sole(self.graph, l)] l.t == node && l.i == port.at && sole(self.graph, l) ==> r == Some((l.s, outp(l.o)))), r matches Some(x) ==> x.1.dir != port.dir,',
         rules=R, pre='let v = self.linked_ports(node, port); proof { lemma_ends(self.graph, node, port, v@); self.graph.narrow(node); if v.len() == 1 { self.graph.narrow(v[0].0); } }', post_rules=[(r'\}\s*$', '}'), (r'(?<!let v = )self\.linked_ports\(node, port\)', 'v')], obligation='HugrView::single_linked_port')
    u.fn(w.fn('single_linked_output', tr), 'requires self.wf(), self.graph.has(node, Port { dir: Direction::Incoming, at: port.at }), ensures r is Some <==> exists|l: Link| l.t == node && l.i == port.at && #[trigger] sole(self.graph, l), forall|l: Link| #![trigger sole(self.graph, l)] l.t == node && l.i == port.at && sole(self.graph, l) ==> r == Some((l.s, OutgoingPort { at: l.o as usize })),',
         rules=[(r'port\.into\(\)', 'port.port()'), (r'(?s)(self\.single_linked_port\([^;]*?\)\))\s*\.map\(\|\((\w+), (\w+)\)\| (.*)\)', r'match \1 { Some((\2, \3)) => Some(\4), None => None }')] + R, obligation='HugrView::single_linked_output')
    for n, d, o, conv in (('linked_outputs', 'Incoming', 'outgoing', 'OutgoingPort'), ('linked_inputs', 'Outgoing', 'incoming', 'IncomingPort')):
        E = ('r.len() == 0 <==> forall|l: Link| #![trigger self.graph.cnt(l)] l.s == node && l.o == port.at ==> self.graph.cnt(l) == 0,' if d == 'Outgoing' else
             'r.len() == 0 <==> (forall|l: Link| #![trigger self.graph.cnt(l)] l.t == node && l.i == port.at ==> self.graph.cnt(l) == 0), r.len() == 1 <==> (exists|l: Link| l.t == node && l.i == port.at && #[trigger] sole(self.graph, l)), r.len() > 0 ==> self.graph.cnt(Link { s: r@[0].0, o: r@[0].1.at as int, t: node, i: port.at as int }) > 0,')
        u.fn(w.fn(n, tr), f'requires self.wf(), self.graph.has(node, Port {{ dir: Direction::{d}, at: port.at }}), ensures {E}',
             rules=[(r'port\.into\(\)', 'port.port()'), (r'(?s)(self\.linked_ports\([^;]*?\)\))\s*\.map\(\|(\(\w+, \w+\))\| (.*)\)\s*\}$', r'let v = \1; let mut out: Vec<(Node, %s)> = Vec::new(); let mut n0: usize = 0; while n0 < v.len() { let \2 = v[n0]; n0 = n0 + 1; let item = \3; out.push(item); } out }' % conv)] + R,
             loops=[(f'invariant n0 <= v.len(), out.len() == n0, forall|j: int| #![trigger v@[j]] 0 <= j < v.len() ==> v@[j].1.dir == Direction::{conv[:8]}, forall|j: int| #![trigger out@[j]] 0 <= j < n0 ==> out@[j].0 == v@[j].0 && out@[j].1.at == v@[j].1.at, decreases v.len() - n0,'.replace('Direction::Outgoing', 'Direction::Outgoing'), 'let ghost j = n0 as int; proof { assert(v@[j] == v@[j]); }')],
             post_rules=[(r'(let v = [^;]*;)', r'\1 proof { lemma_ends(self.graph, node, Port { dir: Direction::%s, at: port.at }, v@); }' % d)], obligation=f'HugrView::{n}')
    u.fn(w.fn('static_source', tr), """requires self.wf(), fits(*self), self.live(node),
 ensures static_in(self.op(node)) is None ==> r is None, static_in(self.op(node)) matches Some(p) ==> (r is None <==> (forall|l: Link| #![trigger self.graph.cnt(l)] l.t == node && l.i == p.at ==> self.graph.cnt(l) == 0)), r matches Some(s) ==> feeds(self.graph, s, node, static_in(self.op(node))->0.at as int),""",
         rules=[(r'\.map\(\|\((\w+), _\)\| \1\)', '.first_of()')] + R, post_rules=[], obligation='HugrView::static_source')
    u.text('#[verifier::external_body] pub fn out_value_types(&self, node: Node) -> (r: Vec<(OutgoingPort, Type)>) requires self.live(node) ensures r.len() == out_row(self.op(node)).len(), forall|j: int| #![trigger r@[j]] 0 <= j < r.len() ==> r@[j].0.at == j && r@[j].1 == out_row(self.op(node))[j] { unimplemented!() }')
    u.text('}')
    u.text('pub trait Pair<A> { spec fn it(&self) -> Option<A>; fn first_of(self) -> (r: Option<A>) where Self: Sized ensures r == self.it(); } impl<A, B> Pair<A> for Option<(A, B)> { open spec fn it(&self) -> Option<A> { match *self { Some(x) => Some(x.0), None => None } } fn first_of(self) -> (r: Option<A>) { match self { Some(x) => Some(x.0), None => None } } }')
OW = 'old(h).wf(), fits(*old(h)), '
def consts(u):
    m = src(PD + 'consts.rs')
    R = [(r'Result<\(\), Self::Error>', 'Result<(), RemoveError>'), (r'Result<Self::Outcome, Self::Error>', 'Result<Node, RemoveError>'), (r'\.first_one\(\)\.is_some\(\)', '.first_one().is_some()')] + V + UNW + H.BASE
    u.text('pub open spec fn idle_at(g: Graph, n: Node) -> bool { forall|l: Link| #![trigger g.cnt(l)] l.s == n && l.o == 0 ==> g.cnt(l) == 0 }')
    OKL = '{h}.live(self.0) && loads({h}.op(self.0)) && idle_at({h}.graph, self.0)'
    ER = 'r matches Err(RemoveError::InvalidNode(x)) ==> x == self.0 && !({h}.live(self.0) && {k}({h}.op(self.0))), r matches Err(RemoveError::ValueUsed(x)) ==> x == self.0 && {h}.live(self.0) && {k}({h}.op(self.0)),'
    for ty, k, ok in (('RemoveLoadConstant', 'loads', OKL), ('RemoveConst', 'constant', '{h}.live(self.0) && constant({h}.op(self.0)) && idle({h}.graph, self.0)')):
        u.text(f'impl {ty} {{'); v = m.impl(rf'<[^>]*>\s*PatchVerification for {ty}<N>\s*\{{'); a = m.impl(rf'<[^>]*>\s*PatchHugrMut for {ty}<N>\s*\{{')
        u.fn(m.fn('verify', v), 'requires h.wf(), fits(*h), ensures r is Ok <==> ' + ok.format(h='h') + ', ' + ER.format(h='h', k=k), rules=R, obligation=f'{ty}::verify',
             post_rules=[(r'(if h\.output_neighbours\(node\))', r'proof { let v = h.graph; assert(idle(v, node) <==> forall|x: Idx| !#[trigger] adjacent(v, node, Direction::Outgoing, x)) by { if !idle(h.graph, node) { let l = choose|l: Link| l.s == node && h.graph.cnt(l) != 0; assert(adjacent(h.graph, node, Direction::Outgoing, l.t)); } } } \1')] if k == 'constant' else ())
        pre = ('(loads(old(h).op(self.0)) && old(h).live(self.0) ==> exists|l: Link| #[trigger] old(h).graph.cnt(l) > 0 && l.t == self.0 && Some(l.i) == (match static_in(old(h).op(self.0)) { Some(p) => Some(p.at as int), None => None }))' if k == 'loads' else '(old(h).live(self.0) ==> old(h).par(self.0) is Some)')
        src_ = ('feeds(old(h).graph, x, self.0, static_in(old(h).op(self.0))->0.at as int)' if k == 'loads' else 'old(h).par(self.0) == Some(x)')
        u.fn(m.fn('apply_hugr_mut', a), f'requires {OW} self.0 != old(h).entrypoint, self.0 != old(h).module_root, {pre}, ensures final(h).wf(), r is Ok <==> ' + ok.format(h='old(h)') + f', r matches Ok(x) ==> final(h).removed(old(h), self.0) && {src_}, r is Err ==> *final(h) == *old(h), ' + ER.format(h='old(h)', k=k),
             rules=R, obligation=f'{ty}::apply', pre='let ghost o = *h;')
        u.text('}')
def identity(u):
    m = src(PD + 'insert_identity.rs'); v = m.impl(r'<[^>]*>\s*PatchVerification for IdentityInsertion<N>\s*\{'); a = m.impl(r'<[^>]*>\s*PatchHugrMut for IdentityInsertion<N>\s*\{')
    R = [(r'Self::Outcome', 'Node'), (r'\.port_kind\(', '.in_port_kind('), (r'h\.disconnect\(self\.post_node, self\.post_port\)', 'h.disconnect(self.post_node, self.post_port.port())'), (r'!matches!\((\w+), Some\(EdgeKind::Value\(_\)\)\)', r'!(match \1 { Some(EdgeKind::Value(_)) => true, _ => false })'), (r', 0\)', ', IncomingPort { at: 0 })'), (r'new_node, 0,', 'new_node, OutgoingPort { at: 0 },')] + V + UNW + H.BASE
    OK = '({h}.par(self.post_node) is Some && self.post_node != {h}.module_root && above(OpTag::DataflowParent, tag_of({h}.op({h}.par(self.post_node)->0))) && in_kind({h}.op(self.post_node), self.post_port.at as int) matches Some(EdgeKind::Value(_)))'
    u.text('impl IdentityInsertion {')
    u.fn(m.fn('verify', v), 'requires h.wf(), h.live(self.post_node), ensures r is Ok <==> ' + OK.format(h='h') + ',', rules=R, obligation='IdentityInsertion::verify', pre='proof { if h.par(self.post_node) is Some { lemma_live(*h, self.post_node); } }')
    u.fn(m.fn('apply_hugr_mut', a), f"""requires {OW} old(h).live(self.post_node), in_kind(old(h).op(self.post_node), self.post_port.at as int) matches Some(EdgeKind::Value(_)) ==> exists|l: Link| l.t == self.post_node && l.i == self.post_port.at && #[trigger] sole(old(h).graph, l),
 ensures final(h).wf(), r is Ok <==> {OK.format(h='old(h)')}, r is Err ==> *final(h) == *old(h),
  r matches Ok(n) ==> {{ let o = *old(h); let ty = in_kind(o.op(self.post_node), self.post_port.at as int)->0->Value_0; final(h).fresh_but_links(&o, n, noop(ty)) }}, r matches Ok(n) ==> {{ let o = *old(h); final(h).hierarchy.pushed(&o.hierarchy, n, o.par(self.post_node)->0) }}, r matches Ok(n) ==> {{ let o = *old(h);
   forall|l: Link, k: Link| #![trigger sole(o.graph, l), final(h).graph.cnt(k)] l.t == self.post_node && l.i == self.post_port.at && sole(o.graph, l) ==> final(h).graph.cnt(k) == (if k == l {{ 0 }} else {{ o.graph.cnt(k) }}) + one(k == (Link {{ s: l.s, o: l.o, t: n, i: 0 }})) + one(k == (Link {{ s: n, o: 0, t: l.t, i: l.i }})) }},""",
         rules=R, post_rules=[(r'(?s)(let \(pre_node, pre_port\) = [^;]*;)', r'\1 proof { assert forall|l: Link| #![trigger sole(o.graph, l)] l.t == self.post_node && l.i == self.post_port.at && sole(o.graph, l) implies l.s == pre_node && l.o == pre_port.at by { assert(o.graph.cnt(l) > 0); o.graph.narrow(l.s); } }')], obligation='IdentityInsertion::apply', pre='let ghost o = *h; proof { if o.par(self.post_node) is Some { lemma_live(o, self.post_node); } }')
    u.text('}')
def units():
    u = Unit('w01'); k = S.Contracts(u, ['add_node_with_parent', 'connect', 'disconnect', 'remove_node', 'HugrView for Hugr::get_optype', 'HugrView for Hugr::get_parent', 'HugrView for Hugr::children', 'HugrView for Hugr::contains_node', 'HugrView for Hugr::linked_ports'])
    H.setup(k); H.views(k); H.edits(k); S.links_read(k)
    u.trust('the contracts of the edits and views of a graph are those proved under H02 and S03')
    u.text(FRESH); views(u); consts(u); identity(u)
    return [u]
FRESH = """
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum OpTag { ModuleRoot, DataflowParent, Cfg, Conditional, ModuleOp, DataflowChild, Other(usize) }
pub uninterp spec fn tag_of(o: OpType) -> OpTag;
pub uninterp spec fn above(a: OpTag, b: OpTag) -> bool;
impl OpTag { #[verifier::external_body] pub fn is_superset(self, o: OpTag) -> (r: bool) ensures r == above(self, o) { unimplemented!() } }
impl OpType { #[verifier::external_body] pub fn tag(&self) -> (r: OpTag) ensures r == tag_of(*self) { unimplemented!() } }
impl Hugr {
  /// n is new, with the ports of its operation and no metadata; every other node is as it was; links aside
  pub open spec fn fresh_but_links(&self, o: &Hugr, n: Node, op: OpType) -> bool {
    &&& !o.live(n) && self.graph.size() == o.graph.size() + 1 && self.same_ends(o)
    &&& forall|x: Idx| #![trigger self.graph.live(x)] self.live(x) == (x == n || o.live(x))
    &&& forall|x: Idx| #![trigger self.graph.ins(x)] #![trigger self.graph.outs(x)] self.graph.ins(x) == (if x == n { in_count(op) } else { o.graph.ins(x) }) && self.graph.outs(x) == (if x == n { out_count(op) } else { o.graph.outs(x) })
    &&& forall|x: Idx| #![trigger self.op_types.at(x)] x == n || o.live(x) ==> self.op(x) == (if x == n { op } else { o.op(x) })
    &&& forall|x: Idx, k: Key| #![trigger self.meta(x, k)] x == n || o.live(x) ==> self.meta(x, k) == (if x == n { None } else { o.meta(x, k) })
  }
}
"""
