from common import *
EXEC = 'm01'
D = 'hugr-model/src/v0/scope/'
COMMON = '''
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct NodeId(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct RegionId(pub u32);
/// names are compared by content only: the extraction abstracts `&'a str` to an opaque type with equality
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Name(pub u64);
'''
SYM = '''
pub open spec fn resolves(binds: Seq<(Name, NodeId)>, n: Name, i: int) -> bool {
  0 <= i < binds.len() && binds[i].0 == n && forall|j: int| i < j < binds.len() ==> (#[trigger] binds[j]).0 != n }
pub struct UnknownSymbolError(pub Name);
pub struct DuplicateSymbolError(pub Name, pub NodeId, pub NodeId);
type SB = Seq<(Name, usize)>;
type BB = Seq<(NodeId, Binding)>;
type CC = Seq<(RegionId, Scope)>;
pub closed spec fn ok_sym(s: SB, b: BB, k: int) -> bool { 0 <= k < s.len() ==> s[k].1 < b.len() && b[s[k].1 as int].1.symbol_index == k }
pub closed spec fn ok_bind(s: SB, b: BB, i: int) -> bool { 0 <= i < b.len() ==> b[i].1.symbol_index < s.len() && i <= s[b[i].1.symbol_index as int].1
   && match b[i].1.shadows { Some(j) => j < i && b[j as int].1.symbol_index == b[i].1.symbol_index, None => true } }
pub closed spec fn ok_pair(b: BB, i: int, k: int) -> bool { 0 <= k < i < b.len() ==>
   match b[i].1.shadows { Some(j) => j < k ==> b[k].1.symbol_index != b[i].1.symbol_index, None => b[k].1.symbol_index < b[i].1.symbol_index } }
/// representation invariant of the symbol and binding stacks: the symbol entry points to the latest
/// binding of its name, shadowed bindings are chained, symbols are numbered in order of first binding
#[verifier::opaque]
pub closed spec fn inv_sb(s: SB, b: BB) -> bool {
  distinct(s) && distinct(b) && (forall|k: int| #[trigger] ok_sym(s, b, k)) && (forall|i: int| #[trigger] ok_bind(s, b, i)) && (forall|i: int, k: int| #[trigger] ok_pair(b, i, k)) }
pub closed spec fn ok_depth(c: CC, b: BB, i: int) -> bool { 0 <= i < b.len() ==> { let d = b[i].1.scope_depth as int;
   d < c.len() && c[d].1.binding_stack <= i && (d + 1 < c.len() ==> i < c[d + 1].1.binding_stack) } }
pub closed spec fn ok_scope(c: CC, b: BB, i: int, j: int) -> bool { 0 <= i <= j < c.len() ==> c[i].1.binding_stack <= c[j].1.binding_stack <= b.len() }
/// representation invariant of the scope stack: every binding lies in the scope it names
#[verifier::opaque]
pub closed spec fn inv_scopes(c: CC, b: BB) -> bool {
  distinct(c) && c.len() <= 0xffff && (c.len() == 0 ==> b.len() == 0) && (c.len() > 0 ==> c[0].1.binding_stack == 0)
  && (forall|i: int, j: int| #[trigger] ok_scope(c, b, i, j)) && (forall|i: int| #[trigger] ok_depth(c, b, i)) }
#[verifier::opaque]
pub closed spec fn binds_of(s: SB, b: BB) -> Seq<(Name, NodeId)> { Seq::new(b.len(), |i: int| (s[b[i].1.symbol_index as int].0, b[i].0)) }
pub open spec fn fresh_in(binds: Seq<(Name, NodeId)>, from: int, n: Name) -> bool { forall|i: int| from <= i < binds.len() ==> (#[trigger] binds[i]).0 != n }
pub open spec fn bound(binds: Seq<(Name, NodeId)>, node: NodeId) -> bool { exists|i: int| 0 <= i < binds.len() && (#[trigger] binds[i]).1 == node }

proof fn lemma_binds(s: SB, b: BB) ensures binds_of(s, b).len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] binds_of(s, b)[i] == (s[b[i].1.symbol_index as int].0, b[i].0) { reveal(binds_of); }
/// removing the latest binding
proof fn lemma_pop(s: SB, b: BB) requires inv_sb(s, b), b.len() > 0
  ensures b.last().1.symbol_index < s.len(), match b.last().1.shadows {
    Some(j) => inv_sb(s.update(b.last().1.symbol_index as int, (s[b.last().1.symbol_index as int].0, j)), b.drop_last()) && binds_of(s.update(b.last().1.symbol_index as int, (s[b.last().1.symbol_index as int].0, j)), b.drop_last()) =~= binds_of(s, b).drop_last(),
    None => s.len() > 0 && s.last().1 == b.len() - 1 && inv_sb(s.drop_last(), b.drop_last()) && binds_of(s.drop_last(), b.drop_last()) =~= binds_of(s, b).drop_last() }
{ reveal(inv_sb); let l = b.len() - 1; let si = b.last().1.symbol_index as int; assert(ok_bind(s, b, l)); let b2 = b.drop_last();
  let s2 = match b.last().1.shadows { Some(j) => s.update(si, (s[si].0, j)), None => s.drop_last() };
  if b.last().1.shadows is None { let k = s.len() - 1; assert(ok_sym(s, b, k)); assert(ok_pair(b, l, s[k].1 as int)); assert(si == k); }
  assert forall|k: int| #[trigger] ok_sym(s2, b2, k) by { assert(ok_sym(s, b, k)); if k == si { if let Some(j) = b.last().1.shadows { } } }
  assert forall|i: int| #[trigger] ok_bind(s2, b2, i) by { assert(ok_bind(s, b, i)); assert(ok_pair(b, l, i)); }
  assert forall|i: int, k: int| #[trigger] ok_pair(b2, i, k) by { assert(ok_pair(b, i, k)); }
  lemma_binds(s, b); lemma_binds(s2, b2);
  assert forall|i: int| 0 <= i < b2.len() implies binds_of(s2, b2)[i] == binds_of(s, b)[i] by { assert(ok_bind(s, b, i)); assert(ok_bind(s2, b2, i)); }
}
/// the symbol map after `insert_full(name, number of bindings)`, and a new binding recorded for it
proof fn lemma_push(s: SB, b: BB, s1: SB, name: Name, node: NodeId, depth: ScopeDepth, si: usize, prev: Option<usize>)
  requires inv_sb(s, b), put(s, s1, name, b.len() as usize, si as int, prev), !has_key(b, node), b.len() < usize::MAX, distinct(s1),
  ensures inv_sb(s1, b.push((node, Binding { scope_depth: depth, shadows: prev, symbol_index: si }))),
    binds_of(s1, b.push((node, Binding { scope_depth: depth, shadows: prev, symbol_index: si }))) =~= binds_of(s, b).push((name, node)),
{ reveal(inv_sb); let b1 = b.push((node, Binding { scope_depth: depth, shadows: prev, symbol_index: si })); let l = b.len() as int;
  assert(distinct(b1)) by { assert forall|i: int, j: int| #![trigger b1[i], b1[j]] 0 <= i < j < b1.len() implies b1[i].0 != b1[j].0 by { if j == l && b[i].0 == node { assert(at_key(b, node, i)); } } }
  assert forall|k: int| #[trigger] ok_sym(s1, b1, k) by { assert(ok_sym(s, b, k)); }
  assert forall|i: int| #[trigger] ok_bind(s1, b1, i) by { assert(ok_bind(s, b, i)); if i == l { assert(ok_sym(s, b, si as int)); } }
  assert forall|i: int, k: int| #[trigger] ok_pair(b1, i, k) by { assert(ok_pair(b, i, k)); assert(ok_bind(s, b, k)); if i == l && prev is Some { assert(ok_bind(s, b, k)); } }
  lemma_binds(s, b); lemma_binds(s1, b1);
  assert forall|i: int| 0 <= i < b.len() implies binds_of(s1, b1)[i] == binds_of(s, b)[i] by { assert(ok_bind(s, b, i)); }
}
/// the entry of a name in the symbol map is its resolution
proof fn lemma_top(s: SB, b: BB, n: Name) requires inv_sb(s, b)
  ensures forall|k: int| #[trigger] at_key(s, n, k) ==> s[k].1 < b.len() && resolves(binds_of(s, b), n, s[k].1 as int),
    !has_key(s, n) ==> forall|i: int| !#[trigger] resolves(binds_of(s, b), n, i),
    forall|i: int, j: int| #![trigger resolves(binds_of(s, b), n, i), resolves(binds_of(s, b), n, j)] resolves(binds_of(s, b), n, i) && resolves(binds_of(s, b), n, j) ==> i == j
{ reveal(inv_sb); lemma_binds(s, b); let bs = binds_of(s, b);
  assert forall|k: int| #[trigger] at_key(s, n, k) implies s[k].1 < b.len() && resolves(bs, n, s[k].1 as int) by {
    assert(ok_sym(s, b, k)); let i = s[k].1 as int;
    assert forall|j: int| i < j < bs.len() implies (#[trigger] bs[j]).0 != n by { assert(ok_bind(s, b, j)); let m = b[j].1.symbol_index as int; if m < k { assert(s[m].0 != s[k].0); } else if k < m { assert(s[k].0 != s[m].0); } } }
  if !has_key(s, n) { assert forall|i: int| !#[trigger] resolves(bs, n, i) by { if resolves(bs, n, i) { assert(ok_bind(s, b, i)); assert(at_key(s, n, b[i].1.symbol_index as int)); } } }
  assert forall|i: int, j: int| #![trigger resolves(bs, n, i), resolves(bs, n, j)] resolves(bs, n, i) && resolves(bs, n, j) implies i == j by { if i < j { assert(bs[j].0 != n); } if j < i { assert(bs[i].0 != n); } } }
/// a binding belongs to the current scope exactly when it was made after the scope was opened
proof fn lemma_depth(c: CC, b: BB, i: int) requires inv_scopes(c, b), 0 <= i < b.len()
  ensures b[i].1.scope_depth < c.len(), c.len() > 0, b[i].1.scope_depth as int == c.len() - 1 <==> i >= c.last().1.binding_stack
{ reveal(inv_scopes); assert(ok_depth(c, b, i)); let d = b[i].1.scope_depth as int; if d + 1 < c.len() { assert(ok_scope(c, b, d + 1, c.len() - 1)); } }
proof fn lemma_bind_scope(c: CC, b: BB, x: (NodeId, Binding)) requires inv_scopes(c, b), c.len() > 0, x.1.scope_depth == c.len() - 1 ensures inv_scopes(c, b.push(x))
{ reveal(inv_scopes); let b1 = b.push(x); assert(ok_scope(c, b, c.len() - 1, c.len() - 1));
  assert forall|i: int, j: int| #[trigger] ok_scope(c, b1, i, j) by { assert(ok_scope(c, b, i, j)); }
  assert forall|i: int| #[trigger] ok_depth(c, b1, i) by { assert(ok_depth(c, b, i)); } }
proof fn lemma_open(c: CC, b: BB, r: RegionId, n: usize) requires inv_scopes(c, b), !has_key(c, r), c.len() < 0xffff, n == b.len(), ensures inv_scopes(c.push((r, Scope { binding_stack: n })), b)
{ reveal(inv_scopes); let c1 = c.push((r, Scope { binding_stack: n }));
  assert(distinct(c1)) by { assert forall|i: int, j: int| #![trigger c1[i], c1[j]] 0 <= i < j < c1.len() implies c1[i].0 != c1[j].0 by { if j == c.len() && c[i].0 == r { assert(at_key(c, r, i)); } } }
  assert forall|i: int, j: int| #[trigger] ok_scope(c1, b, i, j) by { assert(ok_scope(c, b, i, j)); assert(ok_scope(c, b, i, i)); }
  assert forall|i: int| #[trigger] ok_depth(c1, b, i) by { assert(ok_depth(c, b, i)); } }
proof fn lemma_close(c: CC, b: BB) requires inv_scopes(c, b), c.len() > 0 ensures c.last().1.binding_stack <= b.len(), inv_scopes(c.drop_last(), b.take(c.last().1.binding_stack as int))
{ reveal(inv_scopes); assert(ok_scope(c, b, c.len() - 1, c.len() - 1)); let c1 = c.drop_last(); let b1 = b.take(c.last().1.binding_stack as int);
  assert forall|i: int, j: int| #[trigger] ok_scope(c1, b1, i, j) by { assert(ok_scope(c, b, i, j)); assert(ok_scope(c, b, j, c.len() - 1)); }
  assert forall|i: int| #[trigger] ok_depth(c1, b1, i) by { assert(ok_depth(c, b, i)); } }
proof fn lemma_regions(t: SymbolTable) ensures t.regions().len() == t.scopes.e().len(), t.starts().len() == t.scopes.e().len(), forall|i: int| 0 <= i < t.scopes.e().len() ==> #[trigger] t.regions()[i] == t.scopes.e()[i].0,
  forall|i: int| 0 <= i < t.scopes.e().len() ==> #[trigger] t.starts()[i] == t.scopes.e()[i].1.binding_stack, forall|r: RegionId| t.regions().contains(r) <==> #[trigger] has_key(t.scopes.e(), r)
{ assert forall|r: RegionId| t.regions().contains(r) <==> #[trigger] has_key(t.scopes.e(), r) by {
    if has_key(t.scopes.e(), r) { let i = choose|i: int| at_key(t.scopes.e(), r, i); assert(t.regions()[i] == r); }
    if t.regions().contains(r) { let i = choose|i: int| 0 <= i < t.regions().len() && t.regions()[i] == r; assert(at_key(t.scopes.e(), r, i)); } } }
broadcast proof fn b_pop(s: SB, b: BB) requires #[trigger] inv_sb(s, b), b.len() > 0
  ensures #[trigger] b.drop_last() == b.drop_last(), b.last().1.symbol_index < s.len(), match b.last().1.shadows {
    Some(j) => inv_sb(s.update(b.last().1.symbol_index as int, (s[b.last().1.symbol_index as int].0, j)), b.drop_last()) && binds_of(s.update(b.last().1.symbol_index as int, (s[b.last().1.symbol_index as int].0, j)), b.drop_last()) == binds_of(s, b).drop_last(),
    None => s.len() > 0 && s.last().1 == b.len() - 1 && inv_sb(s.drop_last(), b.drop_last()) && binds_of(s.drop_last(), b.drop_last()) == binds_of(s, b).drop_last() }
{ lemma_pop(s, b); }
broadcast proof fn b_push(s: SB, b: BB, s1: SB, name: Name, node: NodeId, v: usize, x: Binding, si: int, prev: Option<usize>, b1: BB, bi: int, bp: Option<Binding>)
  requires #[trigger] inv_sb(s, b), #[trigger] put(s, s1, name, v, si, prev), v == b.len(), #[trigger] put(b, b1, node, x, bi, bp), distinct(s1), distinct(b1),
  ensures !has_key(b, node) && x.shadows == prev && x.symbol_index == si && b.len() < usize::MAX ==> inv_sb(s1, b1) && binds_of(s1, b1) == binds_of(s, b).push((name, node))
{ if !has_key(b, node) && x.shadows == prev && x.symbol_index == si && b.len() < usize::MAX { lemma_push(s, b, s1, name, node, x.scope_depth, si as usize, prev); } }
broadcast proof fn b_restore(s: SB, s1: SB, s2: SB, n: Name, v: usize, i: int, prev: Option<usize>, w: usize, j: int, p2: Option<usize>)
  requires #[trigger] put(s, s1, n, v, i, prev), #[trigger] put(s1, s2, n, w, j, p2), prev == Some(w), distinct(s), distinct(s1)
  ensures s2 == s
{ assert(at_key(s, n, i)); assert(at_key(s1, n, i)); if j < i { assert(s1[j].0 != s1[i].0); } if i < j { assert(s1[i].0 != s1[j].0); } assert(s2 =~= s); }
broadcast group syms { IndexMap::keys_distinct, b_push, b_restore }
broadcast group syms_pop { IndexMap::keys_distinct, b_pop }
broadcast proof fn b_empty_sb(s: SB, b: BB) requires s.len() == 0, b.len() == 0 ensures #[trigger] inv_sb(s, b) { reveal(inv_sb); }
proof fn lemma_empty() ensures forall|s: SB, b: BB| s.len() == 0 && b.len() == 0 ==> #[trigger] inv_sb(s, b), forall|s: SB, b: BB| s.len() == 0 && b.len() == 0 ==> #[trigger] binds_of(s, b) == Seq::<(Name, NodeId)>::empty(),
  forall|c: CC, b: BB| c.len() == 0 && b.len() == 0 ==> #[trigger] inv_scopes(c, b), forall|t: SymbolTable| t.scopes.e().len() == 0 ==> #[trigger] t.regions() == Seq::<RegionId>::empty() && #[trigger] t.starts() == Seq::<int>::empty()
{ reveal(inv_sb); reveal(inv_scopes);
  assert forall|s: SB, b: BB| s.len() == 0 && b.len() == 0 implies #[trigger] binds_of(s, b) == Seq::<(Name, NodeId)>::empty() by { lemma_binds(s, b); assert(binds_of(s, b) =~= Seq::<(Name, NodeId)>::empty()); }
  assert forall|t: SymbolTable| t.scopes.e().len() == 0 implies #[trigger] t.regions() == Seq::<RegionId>::empty() && #[trigger] t.starts() == Seq::<int>::empty() by { assert(t.regions() =~= Seq::<RegionId>::empty()); assert(t.starts() =~= Seq::<int>::empty()); } }
/// what `insert` needs to know about the table it starts from
proof fn lemma_insert(t: SymbolTable, name: Name, node: NodeId) requires t.inv(), t.scopes.e().len() > 0, !bound(t.binds(), node), t.bindings.e().len() <= isize::MAX
  ensures !has_key(t.bindings.e(), node), t.bindings.e().len() < usize::MAX || true,
    forall|x: (NodeId, Binding)| x.1.scope_depth == t.scopes.e().len() - 1 ==> inv_scopes(t.scopes.e(), #[trigger] t.bindings.e().push(x)), t.scopes.e().len() <= 0xffff,
    has_key(t.symbols.e(), name) ==> forall|k: int| #[trigger] at_key(t.symbols.e(), name, k) ==> ({ let i = t.symbols.e()[k].1 as int; 0 <= i < t.bindings.e().len() && resolves(t.binds(), name, i) && t.binds()[i] == (name, t.bindings.e()[i].0)
       && (fresh_in(t.binds(), t.starts().last(), name) <==> t.bindings.e()[i].1.scope_depth != t.scopes.e().len() - 1) }),
    !has_key(t.symbols.e(), name) ==> fresh_in(t.binds(), t.starts().last(), name),
{ let s = t.symbols.e(); let b = t.bindings.e(); let c = t.scopes.e(); lemma_binds(s, b); lemma_top(s, b, name); lemma_regions(t); reveal(inv_scopes);
  assert(!has_key(b, node)) by { if has_key(b, node) { let i = choose|i: int| at_key(b, node, i); assert(t.binds()[i].1 == node); } }
  assert forall|x: (NodeId, Binding)| x.1.scope_depth == c.len() - 1 implies inv_scopes(c, #[trigger] b.push(x)) by { lemma_bind_scope(c, b, x); }
  if !has_key(s, name) { assert forall|i: int| t.starts().last() <= i < b.len() implies (#[trigger] t.binds()[i]).0 != name by { assert(ok_scope(c, b, c.len() - 1, c.len() - 1));
     assert(!resolves(t.binds(), name, i)); lemma_absent(t, name, i); } }
  assert forall|k: int| #[trigger] at_key(s, name, k) implies ({ let i = s[k].1 as int; 0 <= i < b.len() && resolves(t.binds(), name, i) && t.binds()[i] == (name, b[i].0) && (fresh_in(t.binds(), t.starts().last(), name) <==> b[i].1.scope_depth != c.len() - 1) }) by {
     let i = s[k].1 as int; assert(resolves(binds_of(s, b), name, i)); lemma_depth(c, b, i);
     assert(t.binds()[i] == (name, b[i].0));
     if i < c.last().1.binding_stack { assert forall|j: int| t.starts().last() <= j < t.binds().len() implies (#[trigger] t.binds()[j]).0 != name by { } } } }
proof fn lemma_absent(t: SymbolTable, name: Name, i: int) requires t.inv(), !has_key(t.symbols.e(), name), 0 <= i < t.bindings.e().len() ensures t.binds()[i].0 != name
{ reveal(inv_sb); lemma_binds(t.symbols.e(), t.bindings.e()); assert(ok_bind(t.symbols.e(), t.bindings.e(), i)); if t.binds()[i].0 == name { assert(at_key(t.symbols.e(), name, t.bindings.e()[i].1.symbol_index as int)); } }
/// a bound node is visible exactly when the symbol entry of its binding points back to the binding
proof fn lemma_visible(t: SymbolTable, node: NodeId) requires t.inv()
  ensures !has_key(t.bindings.e(), node) ==> !exists|i: int, n: Name| #[trigger] resolves(t.binds(), n, i) && t.binds()[i].1 == node,
    forall|i: int| #[trigger] at_key(t.bindings.e(), node, i) ==> t.bindings.e()[i].1.symbol_index < t.symbols.e().len() && (t.symbols.e()[t.bindings.e()[i].1.symbol_index as int].1 == i <==> exists|j: int, n: Name| #[trigger] resolves(t.binds(), n, j) && t.binds()[j].1 == node)
{ let s = t.symbols.e(); let b = t.bindings.e(); reveal(inv_sb); lemma_binds(s, b);
  if !has_key(b, node) { assert forall|i: int, n: Name| !(#[trigger] resolves(t.binds(), n, i) && t.binds()[i].1 == node) by { if resolves(t.binds(), n, i) && t.binds()[i].1 == node { assert(at_key(b, node, i)); } } }
  assert forall|i: int| #[trigger] at_key(b, node, i) implies b[i].1.symbol_index < s.len() && (s[b[i].1.symbol_index as int].1 == i <==> exists|j: int, n: Name| #[trigger] resolves(t.binds(), n, j) && t.binds()[j].1 == node) by {
    assert(ok_bind(s, b, i)); let k = b[i].1.symbol_index as int; let n = s[k].0; lemma_top(s, b, n); assert(at_key(s, n, k)); assert(resolves(t.binds(), n, s[k].1 as int));
    if s[k].1 == i { assert(resolves(t.binds(), n, i) && t.binds()[i].1 == node); }
    assert forall|j: int, m: Name| #[trigger] resolves(t.binds(), m, j) && t.binds()[j].1 == node implies s[k].1 == i by { if i < j { assert(b[i].0 != b[j].0); } if j < i { assert(b[j].0 != b[i].0); } assert(m == n); } } }
impl SymbolTable {
  /// the regions of the open scopes, outermost first
  pub closed spec fn regions(&self) -> Seq<RegionId> { Seq::new(self.scopes.e().len(), |i: int| self.scopes.e()[i].0) }
  /// the number of bindings that existed when each scope was opened
  pub closed spec fn starts(&self) -> Seq<int> { Seq::new(self.scopes.e().len(), |i: int| self.scopes.e()[i].1.binding_stack as int) }
  /// all bindings of the open scopes in the order of their insertion
  pub closed spec fn binds(&self) -> Seq<(Name, NodeId)> { binds_of(self.symbols.e(), self.bindings.e()) }
  pub closed spec fn inv(&self) -> bool { inv_sb(self.symbols.e(), self.bindings.e()) && inv_scopes(self.scopes.e(), self.bindings.e()) }
'''
def rewrite(s):
    """map[i] = v  ->  map.set_at(i, v);  map[i]  ->  (*map.at(i))"""
    s = re.sub(r'self\.symbols\[([^\[\]]+)\]\s*=(?!=)\s*([^;]+);', r'self.symbols.set_at(\1, \2);', s)
    return re.sub(r'self\.symbols\[([^\[\]]+)\]', r'(*self.symbols.at(\1))', s)
class F:  # run a function body through rewrite
    def __new__(cls, f): f.body = rewrite(f.body); return f

def symbols():
    u = Unit('m01_symbols')
    s = src(D + 'symbol.rs')
    rl = [(r"&'a str", 'Name'), (r"<'_>", ''), (r"<'a>", ''), (r'FxIndexMap<', 'IndexMap<'), (r'name\.into\(\)', 'name'), (r'\bSelf::default\(\)', 'SymbolTable { symbols: IndexMap::new(), bindings: IndexMap::new(), scopes: IndexMap::new() }'),
          (r'debug_assert_eq!\(', 'debug_equal('), (r'debug_assert_ne!\(', 'debug_different('), (r'debug_assert!\(', 'debug_true('), (r'\.get\(name\)', '.get(&name)'), (r'\?\s*as _\)', '? as ScopeDepth)'), (r'\(depth as _\)', '(depth as usize)'), (r'\bfor _ in\b', 'for _i in it:')]
    u.text(lib('index.rs')).text(COMMON)
    u.text('fn debug_equal(a: usize, b: usize) requires a == b {}\nfn debug_different(a: usize, b: usize) requires a != b {}\nfn debug_true(a: bool) requires a {}')
    for t in ('type BindingIndex', 'type SymbolIndex', 'pub type ScopeDepth'): u.text(s.item(t + r'\b'))
    for t in ('struct Binding', 'struct Scope'): u.text('#[derive(Clone, Copy)] pub ' + re.sub(r'(?m)^(\s*)(\w+:)', r'\1pub \2', strip_attrs(s.item(t + r'\b'))))
    u.text(subst(strip_attrs(s.item(r'pub struct SymbolTable\b')), rl))
    u.text(SYM)
    im = s.impl(r"<'a>\s*SymbolTable<'a>\s*\{")
    g = 'broadcast use syms;'; gp = 'broadcast use syms_pop;'
    fn = lambda n, c, **k: u.fn(F(s.fn(n, im)), c, rules=rl, obligation='SymbolTable::' + n, **k)
    fn('new', 'ensures r.inv(), r.regions() == Seq::<RegionId>::empty(), r.starts() == Seq::<int>::empty(), r.binds() == Seq::<(Name, NodeId)>::empty(),',
       sig='pub fn new() -> (r: Self)', pre='proof { lemma_empty(); }')
    fn('enter', '''requires old(self).inv(), old(self).regions().len() < 0xffff, !old(self).regions().contains(region),
   ensures final(self).inv(), final(self).regions() =~= old(self).regions().push(region), final(self).starts() =~= old(self).starts().push(old(self).binds().len() as int), final(self).binds() == old(self).binds(),''',
       pre=g + ''' proof { lemma_len(self.bindings); lemma_regions(*self); lemma_open(self.scopes.e(), self.bindings.e(), region, self.bindings.e().len() as usize); lemma_binds(self.symbols.e(), self.bindings.e()); }''')
    fn('exit', '''requires old(self).inv(), old(self).regions().len() > 0,
   ensures final(self).inv(), final(self).regions() =~= old(self).regions().drop_last(), final(self).starts() =~= old(self).starts().drop_last(), final(self).binds() =~= old(self).binds().take(old(self).starts().last()),''',
       pre=gp + ' let ghost o = *self; proof { lemma_len(self.bindings); lemma_regions(*self); lemma_close(self.scopes.e(), self.bindings.e()); lemma_binds(self.symbols.e(), self.bindings.e()); }',
       loops=[('''invariant it.snapshot.end == o.bindings.e().len(), o.inv(), self.scopes.e() == o.scopes.e().drop_last(), o.scopes.e().len() > 0, scope == o.scopes.e().last().1, scope.binding_stack <= o.bindings.e().len(),
     inv_sb(self.symbols.e(), self.bindings.e()), self.bindings.e() =~= o.bindings.e().take(o.bindings.e().len() - (_i - scope.binding_stack)),
     binds_of(self.symbols.e(), self.bindings.e()) =~= binds_of(o.symbols.e(), o.bindings.e()).take(o.bindings.e().len() - (_i - scope.binding_stack)), binds_of(o.symbols.e(), o.bindings.e()).len() == o.bindings.e().len(),''', gp)])
    fn('insert', '''requires old(self).inv(), old(self).regions().len() > 0, !bound(old(self).binds(), node),
   ensures final(self).inv(), final(self).regions() == old(self).regions(), final(self).starts() == old(self).starts(),
     r is Ok <==> fresh_in(old(self).binds(), old(self).starts().last(), name),
     r is Ok ==> final(self).binds() =~= old(self).binds().push((name, node)),
     // a refused insertion reports the earlier binding and leaves the table as it was
     r matches Err(e) ==> final(self).binds() =~= old(self).binds() && e.0 == name && e.1 == node && exists|i: int| #[trigger] resolves(old(self).binds(), name, i) && old(self).binds()[i] == (name, e.2),''', pre=g + ' proof { lemma_len(self.bindings); lemma_regions(*self); lemma_insert(*self, name, node); }')
    fn('is_visible', 'requires self.inv(), ensures r <==> exists|i: int, n: Name| #[trigger] resolves(self.binds(), n, i) && self.binds()[i].1 == node,', pre=g + ' proof { lemma_visible(*self, node); }')
    fn('resolve', '''requires self.inv(),
   ensures match r { Ok(node) => exists|i: int| #[trigger] resolves(self.binds(), name, i) && self.binds()[i].1 == node, Err(_) => forall|i: int| !(#[trigger] resolves(self.binds(), name, i)) },''', pre=g + ' proof { lemma_top(self.symbols.e(), self.bindings.e(), name); lemma_binds(self.symbols.e(), self.bindings.e()); }')
    fn('region_to_depth', '''requires self.inv(), ensures match r { Some(d) => d < self.regions().len() && self.regions()[d as int] == region, None => !self.regions().contains(region) },''', pre=g + ' proof { reveal(inv_scopes); lemma_regions(*self); }')
    fn('depth_to_region', '''requires self.inv(), ensures match r { Some(x) => depth < self.regions().len() && self.regions()[depth as int] == x, None => depth >= self.regions().len() },''', pre=g + ' proof { lemma_regions(*self); }')
    fn('clear', 'ensures final(self).inv(), final(self).regions() =~= Seq::<RegionId>::empty(), final(self).starts() =~= Seq::<int>::empty(), final(self).binds() =~= Seq::<(Name, NodeId)>::empty(),', pre=g + ' proof { lemma_empty(); }')
    u.text('''}
#[verifier::external_body] proof fn lemma_len<K, V>(m: IndexMap<K, V>) ensures m.e().len() <= isize::MAX {}
''')
    return u

STACK = """
/// a Vec used as a stack (the part of the Vec interface these tables use)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Stack<T> { v: Vec<T> }
impl<T> Stack<T> {
  pub uninterp spec fn e(&self) -> Seq<T>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.e() == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, x: T) ensures final(self).e() == old(self).e().push(x) { unimplemented!() }
  #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<T>)
    ensures match r { Some(x) => old(self).e().len() > 0 && x == old(self).e().last() && final(self).e() == old(self).e().drop_last(), None => old(self).e().len() == 0 && final(self).e() == old(self).e() } { unimplemented!() }
  #[verifier::external_body] pub fn last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.e().len() > 0 && *x == self.e().last(), None => self.e().len() == 0 } { unimplemented!() }
  #[verifier::external_body] pub fn last_mut(&mut self) -> (r: Option<&mut T>)
    ensures match r { Some(x) => old(self).e().len() > 0 && *x == old(self).e().last() && final(self).e() == old(self).e().drop_last().push(*final(x)), None => old(self).e().len() == 0 && final(self).e() == old(self).e() } { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.e().len() { unimplemented!() }
  #[verifier::external_body] pub fn clear(&mut self) ensures final(self).e().len() == 0 { unimplemented!() }
}
"""
VAR = """
pub type VarIndex = u16;
#[derive(Clone, Copy)] pub struct VarId(pub NodeId, pub VarIndex);
pub struct DuplicateVarError(pub NodeId, pub Name);
pub enum UnknownVarError { WithinNode(NodeId, Name), Root(Name) }
type VV = Seq<(NodeId, Name)>;
type SS = Seq<VarScope>;
pub closed spec fn end(c: SS, n: int, j: int) -> int { if j + 1 < c.len() { c[j + 1].var_stack as int } else { n } }
/// a scope's variables are exactly the entries of its node, and they are contiguous
pub closed spec fn ok_scope(c: SS, v: VV, j: int) -> bool { 0 <= j < c.len() ==> c[j].var_stack <= end(c, v.len() as int, j) <= v.len() && c[j].var_count == end(c, v.len() as int, j) - c[j].var_stack
   && forall|k: int| 0 <= k < c.len() && k != j ==> (#[trigger] c[k]).node != c[j].node }
pub closed spec fn ok_var(c: SS, v: VV, i: int, j: int) -> bool { 0 <= i < v.len() && 0 <= j < c.len() ==> (v[i].0 == c[j].node <==> c[j].var_stack <= i < end(c, v.len() as int, j)) }
pub closed spec fn open_node(c: SS, n: NodeId) -> bool { exists|j: int| 0 <= j < c.len() && (#[trigger] c[j]).node == n }
pub closed spec fn ok_open(c: SS, v: VV, i: int) -> bool { 0 <= i < v.len() ==> open_node(c, v[i].0) }
pub closed spec fn inv_v(c: SS, v: VV) -> bool { sdistinct(v) && (c.len() > 0 ==> c[0].var_stack == 0) && (c.len() == 0 ==> v.len() == 0)
   && (forall|j: int| #[trigger] ok_scope(c, v, j)) && (forall|i: int, j: int| #[trigger] ok_var(c, v, i, j)) && (forall|i: int| #[trigger] ok_open(c, v, i)) }
impl VarTable {
  pub closed spec fn inv(&self) -> bool { inv_v(self.scopes.e(), self.vars.e()) }
  /// the nodes of the open scopes, outermost first
  pub closed spec fn nodes(&self) -> Seq<NodeId> { Seq::new(self.scopes.e().len(), |i: int| self.scopes.e()[i].node) }
  pub closed spec fn starts(&self) -> Seq<int> { Seq::new(self.scopes.e().len(), |i: int| self.scopes.e()[i].var_stack as int) }
  /// all variables of the open scopes in the order of their insertion
  pub closed spec fn vs(&self) -> Seq<(NodeId, Name)> { self.vars.e() }
  /// the i-th variable of the innermost scope
  pub open spec fn var(&self, i: int, n: Name) -> bool { 0 <= i && self.nodes().len() > 0 && self.starts().last() + i < self.vs().len() && self.vs()[self.starts().last() + i] == (self.nodes().last(), n) }
"""
def unit_vars():
    u = Unit('m01_vars'); s = src(D + 'vars.rs')
    rl = [(r"&'a str", 'Name'), (r"<'_>", ''), (r"<'a>", ''), (r'FxIndexSet<', 'IndexSet<'), (r'\bVec<', 'Stack<'), (r'\bSelf::default\(\)', 'VarTable { vars: IndexSet::new(), scopes: Stack::new() }'), (r'\.drain\((\w[\w.]*)\.\.\)', r'.drain_from(\1)')]
    u.text(lib('index.rs')).text(COMMON).text(STACK)
    u.text('pub ' + re.sub(r'(?m)^(\s*)(\w+:)', r'\1pub \2', strip_attrs(s.item(r'struct VarScope\b'))))
    u.text(subst(strip_attrs(s.item(r'pub struct VarTable\b')), rl)).text(VAR)
    im = s.impl(r"<'a>\s*VarTable<'a>\s*\{")
    g = 'broadcast use IndexSet::members_distinct;'
    fn = lambda n, c, **k: u.fn(s.fn(n, im), c, rules=rl, obligation='VarTable::' + n, **k)
    fn('new', 'ensures r.inv(), r.nodes() =~= Seq::<NodeId>::empty(), r.starts() =~= Seq::<int>::empty(), r.vs() =~= Seq::<(NodeId, Name)>::empty(),', sig='pub fn new() -> (r: Self)', pre=g)
    fn('enter', "requires old(self).inv(), !old(self).nodes().contains(node), ensures final(self).inv(), final(self).nodes() =~= old(self).nodes().push(node), final(self).starts() =~= old(self).starts().push(old(self).vs().len() as int), final(self).vs() == old(self).vs(),", pre=g + ' proof { lemma_vlen(self.vars); lemma_enter(*self, node); }')
    fn('exit', "requires old(self).inv(), old(self).nodes().len() > 0, ensures final(self).inv(), final(self).nodes() =~= old(self).nodes().drop_last(), final(self).starts() =~= old(self).starts().drop_last(), final(self).vs() =~= old(self).vs().take(old(self).starts().last()),", pre=g + ' proof { lemma_exit(self.scopes.e(), self.vars.e()); }')
    fn('resolve', """requires self.inv(), self.vs().len() - self.starts().last() <= 0xffff,
   ensures match r { Ok(id) => self.nodes().len() > 0 && id.0 == self.nodes().last() && self.var(id.1 as int, name),
      Err(_) => forall|i: int| !(#[trigger] self.var(i, name)) },""", pre=g + ' proof { lemma_resolve(*self, name); }')
    fn('is_visible', """requires self.inv(), ensures r <==> self.nodes().len() > 0 && var.0 == self.nodes().last() && self.starts().last() + var.1 < self.vs().len(),""", pre=g + ' proof { lemma_resolve(*self, Name(0)); }')
    fn('insert', """requires old(self).inv(), old(self).nodes().len() > 0, old(self).vs().len() - old(self).starts().last() < 0xffff,
   ensures final(self).inv(), final(self).nodes() =~= old(self).nodes(), final(self).starts() =~= old(self).starts(),
     r is Ok <==> forall|i: int| !(#[trigger] old(self).var(i, name)), r is Err ==> final(self).vs() == old(self).vs(),
     r matches Ok(id) ==> final(self).vs() =~= old(self).vs().push((old(self).nodes().last(), name)) && id.0 == old(self).nodes().last() && old(self).starts().last() + id.1 == old(self).vs().len(),""", pre=g + ' proof { lemma_resolve(*self, name); lemma_vinsert(*self, name); }')
    fn('clear', 'ensures final(self).inv(), final(self).nodes() =~= Seq::<NodeId>::empty(), final(self).starts() =~= Seq::<int>::empty(), final(self).vs() =~= Seq::<(NodeId, Name)>::empty(),', pre=g)
    u.text("""}
#[verifier::external_body] proof fn lemma_vlen<K>(m: IndexSet<K>) ensures m.e().len() <= isize::MAX {}
proof fn lemma_enter(t: VarTable, node: NodeId) requires t.inv(), !t.nodes().contains(node) ensures forall|x: VarScope| x.node == node && x.var_count == 0 && x.var_stack == t.vars.e().len() ==> inv_v(#[trigger] t.scopes.e().push(x), t.vars.e())
{ let c = t.scopes.e(); let v = t.vars.e();
  assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).node != node by { assert(t.nodes()[j] == c[j].node); }
  assert forall|x: VarScope| x.node == node && x.var_count == 0 && x.var_stack == v.len() implies inv_v(#[trigger] c.push(x), v) by { let c1 = c.push(x);
    assert forall|j: int| #[trigger] ok_scope(c1, v, j) by { assert(ok_scope(c, v, j)); }
    assert forall|i: int, j: int| #[trigger] ok_var(c1, v, i, j) by { assert(ok_var(c, v, i, j)); assert(ok_open(c, v, i)); }
    assert forall|i: int| #[trigger] ok_open(c1, v, i) by { assert(ok_open(c, v, i)); if 0 <= i < v.len() { let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).node == v[i].0; assert(c1[j].node == v[i].0); } } } }
proof fn lemma_exit(c: SS, v: VV) requires inv_v(c, v), c.len() > 0 ensures c.last().var_stack <= v.len(), inv_v(c.drop_last(), v.take(c.last().var_stack as int))
{ let l = c.len() - 1; assert(ok_scope(c, v, l)); let c1 = c.drop_last(); let v1 = v.take(c.last().var_stack as int);
  assert forall|j: int| #[trigger] ok_scope(c1, v1, j) by { assert(ok_scope(c, v, j)); if 0 <= j < l { lemma_mono(c, v, j + 1, l); } }
  assert forall|i: int, j: int| #[trigger] ok_var(c1, v1, i, j) by { assert(ok_var(c, v, i, j)); }
  assert forall|i: int| #[trigger] ok_open(c1, v1, i) by { assert(ok_open(c, v, i)); assert(ok_var(c, v, i, l)); if 0 <= i < v1.len() { let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).node == v[i].0; assert(c1[j].node == v1[i].0); } } }
proof fn lemma_mono(c: SS, v: VV, i: int, j: int) requires inv_v(c, v), 0 <= i <= j < c.len() ensures c[i].var_stack <= c[j].var_stack decreases j - i { if i < j { assert(ok_scope(c, v, i)); lemma_mono(c, v, i + 1, j); } }
proof fn lemma_resolve(t: VarTable, name: Name) requires t.inv() ensures t.scopes.e().len() == 0 ==> forall|i: int| !(#[trigger] t.var(i, name)),
   t.scopes.e().len() > 0 ==> t.nodes().last() == t.scopes.e().last().node && t.starts().last() == t.scopes.e().last().var_stack && t.scopes.e().last().var_count == t.vars.e().len() - t.scopes.e().last().var_stack
     && (forall|i: int| 0 <= i < t.vars.e().len() && #[trigger] t.vars.e()[i] == (t.scopes.e().last().node, name) ==> t.scopes.e().last().var_stack <= i && t.var(i - t.starts().last(), name))
     && (forall|i: int| #[trigger] t.var(i, name) ==> t.vars.e().contains((t.scopes.e().last().node, name)))
{ let c = t.scopes.e(); let v = t.vars.e(); if c.len() > 0 { let l = c.len() - 1; assert(ok_scope(c, v, l));
    assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] == (c.last().node, name) implies c.last().var_stack <= i && t.var(i - t.starts().last(), name) by { assert(ok_var(c, v, i, l)); }
    assert forall|i: int| #[trigger] t.var(i, name) implies v.contains((c.last().node, name)) by { assert(v[t.starts().last() + i] == (c.last().node, name)); } } }
proof fn lemma_vinsert(t: VarTable, name: Name) requires t.inv(), t.scopes.e().len() > 0
  ensures !t.vars.e().contains((t.scopes.e().last().node, name)) ==> forall|x: VarScope| x.node == t.scopes.e().last().node && x.var_stack == t.scopes.e().last().var_stack && x.var_count == t.scopes.e().last().var_count + 1 ==> inv_v(#[trigger] t.scopes.e().drop_last().push(x), t.vars.e().push((t.scopes.e().last().node, name))),
    t.vars.e().contains((t.scopes.e().last().node, name)) ==> exists|i: int| #[trigger] t.var(i, name), t.scopes.e().drop_last().push(t.scopes.e().last()) == t.scopes.e()
{ let c = t.scopes.e(); let v = t.vars.e(); let l = c.len() - 1; let k = (c.last().node, name); let v1 = v.push(k); assert(c.drop_last().push(c.last()) =~= c); assert(ok_scope(c, v, l));
  if v.contains(k) { let i = choose|i: int| 0 <= i < v.len() && v[i] == k; assert(ok_var(c, v, i, l)); assert(t.var(i - t.starts().last(), name)); }
  else { assert forall|x: VarScope| x.node == c.last().node && x.var_stack == c.last().var_stack && x.var_count == c.last().var_count + 1 implies inv_v(#[trigger] c.drop_last().push(x), v1) by { let c1 = c.drop_last().push(x);
    assert forall|j: int| #[trigger] ok_scope(c1, v1, j) by { assert(ok_scope(c, v, j)); if 0 <= j < l { lemma_mono(c, v, j + 1, l); assert forall|k: int| 0 <= k < c1.len() && k != j implies (#[trigger] c1[k]).node != c1[j].node by { assert(c[k].node != c[j].node); } } if j == l { assert forall|k: int| 0 <= k < c1.len() && k != j implies (#[trigger] c1[k]).node != c1[j].node by { assert(c[k].node != c[j].node); } } }
    assert forall|i: int, j: int| #[trigger] ok_var(c1, v1, i, j) by { assert(ok_var(c, v, i, j)); assert(ok_scope(c, v, j)); if i == v.len() && 0 <= j < l { lemma_mono(c, v, j + 1, l); assert(c[l].node != c[j].node); } }
    assert forall|i: int| #[trigger] ok_open(c1, v1, i) by { assert(ok_open(c, v, i)); if 0 <= i < v.len() { let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).node == v[i].0; assert(c1[j].node == v[i].0); } else if i == v.len() { assert(c1[l].node == v1[i].0); } } } } }
""")
    return u

LINK = """
pub type LinkIndex = usize;
type LL<K> = Seq<(RegionId, K)>;
type SS = Seq<LinkScope>;
pub closed spec fn end(c: SS, n: int, j: int) -> int { if j + 1 < c.len() { c[j + 1].link_stack as int } else { n } }
/// a scope's links are exactly the entries of its region, and they are contiguous
pub closed spec fn ok_scope<K>(c: SS, v: LL<K>, j: int) -> bool { 0 <= j < c.len() ==> c[j].link_stack <= end(c, v.len() as int, j) <= v.len() && c[j].link_count == end(c, v.len() as int, j) - c[j].link_stack
   && forall|k: int| 0 <= k < c.len() && k != j ==> (#[trigger] c[k]).region != c[j].region }
pub closed spec fn ok_link<K>(c: SS, v: LL<K>, i: int, j: int) -> bool { 0 <= i < v.len() && 0 <= j < c.len() ==> (v[i].0 == c[j].region <==> c[j].link_stack <= i < end(c, v.len() as int, j)) }
pub closed spec fn open_region(c: SS, n: RegionId) -> bool { exists|j: int| 0 <= j < c.len() && (#[trigger] c[j]).region == n }
pub closed spec fn ok_open<K>(c: SS, v: LL<K>, i: int) -> bool { 0 <= i < v.len() ==> open_region(c, v[i].0) }
pub closed spec fn inv_l<K>(c: SS, v: LL<K>) -> bool { sdistinct(v) && (c.len() > 0 ==> c[0].link_stack == 0) && (c.len() == 0 ==> v.len() == 0)
   && (forall|j: int| #[trigger] ok_scope(c, v, j)) && (forall|i: int, j: int| #[trigger] ok_link(c, v, i, j)) && (forall|i: int| #[trigger] ok_open(c, v, i)) }
impl<K: Copy> LinkTable<K> {
  pub closed spec fn inv(&self) -> bool { inv_l(self.scopes.e(), self.links.e()) }
  pub closed spec fn regions(&self) -> Seq<RegionId> { Seq::new(self.scopes.e().len(), |i: int| self.scopes.e()[i].region) }
  pub closed spec fn starts(&self) -> Seq<int> { Seq::new(self.scopes.e().len(), |i: int| self.scopes.e()[i].link_stack as int) }
  pub closed spec fn counts(&self) -> Seq<(int, int)> { Seq::new(self.scopes.e().len(), |i: int| (self.scopes.e()[i].link_count as int, self.scopes.e()[i].port_count as int)) }
  pub closed spec fn ls(&self) -> Seq<(RegionId, K)> { self.links.e() }
  /// link i of the innermost region is the one with this key
  pub open spec fn link(&self, i: int, k: K) -> bool { 0 <= i && self.regions().len() > 0 && self.starts().last() + i < self.ls().len() && self.ls()[self.starts().last() + i] == (self.regions().last(), k) }
"""
def unit_links():
    u = Unit('m01_links'); s = src(D + 'link.rs')
    rl = [(r'FxIndexSet<', 'IndexSet<'), (r'\bVec<', 'Stack<'), (r'\bVec::', 'Stack::'), (r'FxIndexSet::default\(\)', 'IndexSet::new()'), (r'\.drain\((\w[\w.]*)\.\.\)', r'.drain_from(\1)'), (r'debug_assert_eq!\(', 'debug_equal('), (r'LinkIndex::new\(', 'link_index('), (r'debug_assert_ne!\(', 'debug_different('), (r'debug_assert!\(', 'debug_true(')]
    u.text(lib('index.rs')).text(COMMON).text(STACK).text('fn debug_equal(a: usize, b: usize) requires a == b {}\nfn debug_different(a: usize, b: usize) requires a != b {}\nfn debug_true(a: bool) requires a {}\nfn link_index(i: usize) -> (r: usize) ensures r == i { i }')
    u.text('pub ' + re.sub(r'(?m)^(\s*)(\w+:)', r'\1pub \2', strip_attrs(s.item(r'struct LinkScope\b'))))
    u.text('#[verifier::reject_recursive_types(K)]\n' + subst(strip_attrs(s.item(r'pub struct LinkTable\b')), rl)).text(LINK)
    im = s.impl(r"<K>\s*LinkTable<K>")
    g = 'broadcast use IndexSet::members_distinct;'
    fn = lambda n, c, **k: u.fn(s.fn(n, im), c, rules=rl, obligation='LinkTable::' + n, **k)
    fn('new', 'ensures r.inv(), r.regions() =~= Seq::<RegionId>::empty(), r.starts() =~= Seq::<int>::empty(), r.ls() =~= Seq::<(RegionId, K)>::empty(),', sig='pub fn new() -> (r: Self)', pre=g)
    fn('enter', "requires old(self).inv(), !old(self).regions().contains(region), ensures final(self).inv(), final(self).regions() =~= old(self).regions().push(region), final(self).starts() =~= old(self).starts().push(old(self).ls().len() as int), final(self).counts() =~= old(self).counts().push((0, 0)), final(self).ls() == old(self).ls(),", pre=g + ' proof { lemma_vlen(self.links); lemma_enter(*self, region); }')
    fn('exit', """requires old(self).inv(), old(self).regions().len() > 0,
   ensures final(self).inv(), final(self).regions() =~= old(self).regions().drop_last(), final(self).starts() =~= old(self).starts().drop_last(), final(self).counts() =~= old(self).counts().drop_last(), final(self).ls() =~= old(self).ls().take(old(self).starts().last()),
     // the counts reported are the number of distinct links and of uses in the region
     (r.0 as int, r.1 as int) == old(self).counts().last(), r.0 == old(self).ls().len() - old(self).starts().last(),""", pre=g + ' proof { lemma_exit(self.scopes.e(), self.links.e()); }')
    fn('use_link', """requires old(self).inv(), old(self).regions().len() > 0, old(self).counts().last().1 < u32::MAX, old(self).ls().len() - old(self).starts().last() < u32::MAX,
   ensures final(self).inv(), final(self).regions() =~= old(self).regions(), final(self).starts() =~= old(self).starts(),
     final(self).link(r as int, key), final(self).counts().len() == old(self).counts().len(), final(self).counts().drop_last() =~= old(self).counts().drop_last(), final(self).counts().last().1 == old(self).counts().last().1 + 1,
     // a key already used in the region keeps its link; a new one gets the next index
     (exists|i: int| #[trigger] old(self).link(i, key)) ==> final(self).ls() == old(self).ls(),
     (forall|i: int| !(#[trigger] old(self).link(i, key))) ==> final(self).ls() =~= old(self).ls().push((old(self).regions().last(), key)),""", pre=g + ' proof { lemma_resolve(*self, key); lemma_use(*self, key); }')
    fn('clear', 'ensures final(self).inv(), final(self).regions() =~= Seq::<RegionId>::empty(), final(self).starts() =~= Seq::<int>::empty(), final(self).ls() =~= Seq::<(RegionId, K)>::empty(),', pre=g)
    u.text("""}
#[verifier::external_body] proof fn lemma_vlen<K>(m: IndexSet<K>) ensures m.e().len() <= isize::MAX {}
proof fn lemma_enter<K: Copy>(t: LinkTable<K>, region: RegionId) requires t.inv(), !t.regions().contains(region) ensures forall|x: LinkScope| x.region == region && x.link_count == 0 && x.link_stack == t.links.e().len() ==> inv_l(#[trigger] t.scopes.e().push(x), t.links.e())
{ let c = t.scopes.e(); let v = t.links.e();
  assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).region != region by { assert(t.regions()[j] == c[j].region); }
  assert forall|x: LinkScope| x.region == region && x.link_count == 0 && x.link_stack == v.len() implies inv_l(#[trigger] c.push(x), v) by { let c1 = c.push(x);
    assert forall|j: int| #[trigger] ok_scope(c1, v, j) by { assert(ok_scope(c, v, j)); }
    assert forall|i: int, j: int| #[trigger] ok_link(c1, v, i, j) by { assert(ok_link(c, v, i, j)); assert(ok_open(c, v, i)); }
    assert forall|i: int| #[trigger] ok_open(c1, v, i) by { assert(ok_open(c, v, i)); if 0 <= i < v.len() { let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).region == v[i].0; assert(c1[j].region == v[i].0); } } } }
proof fn lemma_exit<K>(c: SS, v: LL<K>) requires inv_l(c, v), c.len() > 0 ensures c.last().link_stack <= v.len(), c.last().link_count == v.len() - c.last().link_stack, inv_l(c.drop_last(), v.take(c.last().link_stack as int))
{ let l = c.len() - 1; assert(ok_scope(c, v, l)); let c1 = c.drop_last(); let v1 = v.take(c.last().link_stack as int);
  assert forall|j: int| #[trigger] ok_scope(c1, v1, j) by { assert(ok_scope(c, v, j)); if 0 <= j < l { lemma_mono(c, v, j + 1, l); } }
  assert forall|i: int, j: int| #[trigger] ok_link(c1, v1, i, j) by { assert(ok_link(c, v, i, j)); }
  assert forall|i: int| #[trigger] ok_open(c1, v1, i) by { assert(ok_open(c, v, i)); assert(ok_link(c, v, i, l)); if 0 <= i < v1.len() { let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).region == v[i].0; assert(c1[j].region == v1[i].0); } } }
proof fn lemma_mono<K>(c: SS, v: LL<K>, i: int, j: int) requires inv_l(c, v), 0 <= i <= j < c.len() ensures c[i].link_stack <= c[j].link_stack decreases j - i { if i < j { assert(ok_scope(c, v, i)); lemma_mono(c, v, i + 1, j); } }
proof fn lemma_resolve<K: Copy>(t: LinkTable<K>, key: K) requires t.inv() ensures t.scopes.e().len() == 0 ==> forall|i: int| !(#[trigger] t.link(i, key)),
   t.scopes.e().len() > 0 ==> t.scopes.e().last().link_count == t.links.e().len() - t.scopes.e().last().link_stack
     && (forall|i: int| 0 <= i < t.links.e().len() && #[trigger] t.links.e()[i] == (t.scopes.e().last().region, key) ==> t.scopes.e().last().link_stack <= i && t.link(i - t.starts().last(), key))
     && (forall|i: int| #[trigger] t.link(i, key) ==> t.links.e().contains((t.scopes.e().last().region, key)))
{ let c = t.scopes.e(); let v = t.links.e(); if c.len() > 0 { let l = c.len() - 1; assert(ok_scope(c, v, l));
    assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] == (c.last().region, key) implies c.last().link_stack <= i && t.link(i - t.starts().last(), key) by { assert(ok_link(c, v, i, l)); }
    assert forall|i: int| #[trigger] t.link(i, key) implies v.contains((c.last().region, key)) by { assert(v[t.starts().last() + i] == (c.last().region, key)); } } }
proof fn lemma_use<K: Copy>(t: LinkTable<K>, key: K) requires t.inv(), t.scopes.e().len() > 0
  ensures !t.links.e().contains((t.scopes.e().last().region, key)) ==> forall|x: LinkScope| x.region == t.scopes.e().last().region && x.link_stack == t.scopes.e().last().link_stack && x.link_count == t.scopes.e().last().link_count + 1 ==> inv_l(#[trigger] t.scopes.e().drop_last().push(x), t.links.e().push((t.scopes.e().last().region, key))),
    t.links.e().contains((t.scopes.e().last().region, key)) ==> (exists|i: int| #[trigger] t.link(i, key)) && forall|x: LinkScope| x.region == t.scopes.e().last().region && x.link_stack == t.scopes.e().last().link_stack && x.link_count == t.scopes.e().last().link_count ==> inv_l(#[trigger] t.scopes.e().drop_last().push(x), t.links.e()),
{ let c = t.scopes.e(); let v = t.links.e(); let l = c.len() - 1; let k = (c.last().region, key); let v1 = v.push(k); assert(c.drop_last().push(c.last()) =~= c); assert(ok_scope(c, v, l));
  if v.contains(k) { let i = choose|i: int| 0 <= i < v.len() && v[i] == k; assert(ok_link(c, v, i, l)); assert(t.link(i - t.starts().last(), key)); }
  let w = if v.contains(k) { v } else { v1 }; let d = w.len() - v.len();
  assert forall|x: LinkScope| x.region == c.last().region && x.link_stack == c.last().link_stack && x.link_count == c.last().link_count + d implies inv_l(#[trigger] c.drop_last().push(x), w) by { let c1 = c.drop_last().push(x);
    assert forall|j: int| #[trigger] ok_scope(c1, w, j) by { assert(ok_scope(c, v, j)); if 0 <= j < l { lemma_mono(c, v, j + 1, l); } if 0 <= j <= l { assert forall|k: int| 0 <= k < c1.len() && k != j implies (#[trigger] c1[k]).region != c1[j].region by { assert(c[k].region != c[j].region); } } }
    assert forall|i: int, j: int| #[trigger] ok_link(c1, w, i, j) by { assert(ok_link(c, v, i, j)); assert(ok_scope(c, v, j)); if i == v.len() && 0 <= j < l { lemma_mono(c, v, j + 1, l); assert(c[l].region != c[j].region); } }
    assert forall|i: int| #[trigger] ok_open(c1, w, i) by { assert(ok_open(c, v, i)); if 0 <= i < v.len() { let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).region == v[i].0; assert(c1[j].region == v[i].0); } else if i == v.len() && d == 1 { assert(c1[l].region == w[i].0); } } } }
""")
    return u
def units():
    return [symbols(), unit_vars(), unit_links()]

TRUSTED = ['indexmap::IndexMap / IndexSet behave as insertion-ordered sequences of entries with distinct keys (assumed contracts of vx/lib/index.rs)', 'Vec used as a stack (push, pop, last, last_mut, len, clear)',
  'names (&str) are abstracted to an opaque type with equality; error texts are dropped', 'a table holds fewer than isize::MAX entries']
ASSUMPTIONS = ['a region or node is not opened again while it is still open, a node that is already bound is not bound again, at most 65535 scopes are open at once, a node has fewer than 65535 variables and a region fewer than 2^32 links and uses',
  'with the representation invariant kept by every operation, each operation history is decided by the per-operation contracts']
