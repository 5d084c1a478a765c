"""H02, continued: Hugr::canonicalize_nodes, over the contract of canonical_order (proved under S03, and again here)"""
import p_h02 as H
import p_s03 as S
from common import Unit
of = S.of
PERM = """
/// `at` tells which node of the old graph a place now holds, `back` where that node is
pub ghost struct Perm { pub at: spec_fn(Idx) -> Idx, pub back: spec_fn(Idx) -> Idx }
impl Perm {
  pub open spec fn a(&self, x: Idx) -> Idx { (self.at)(x) }
  pub open spec fn b(&self, x: Idx) -> Idx { (self.back)(x) }
  pub open spec fn ok(&self) -> bool { (forall|x: Idx| #![trigger self.a(x)] self.b(self.a(x)) == x) && (forall|x: Idx| #![trigger self.b(x)] self.a(self.b(x)) == x) }
  pub open spec fn swap(self, s: Idx, t: Idx) -> Perm { Perm { at: |x: Idx| self.a(swapped(s, t, x)), back: |x: Idx| swapped(s, t, self.b(x)) } }
}
pub open spec fn still() -> Perm { Perm { at: |x: Idx| x, back: |x: Idx| x } }
pub open spec fn was(p: Perm, l: Link) -> Link { Link { s: p.a(l.s), t: p.a(l.t), ..l } }
pub open spec fn now_at(p: Perm, s: Seq<Idx>) -> Seq<Idx> { Seq::new(s.len(), |i: int| p.b(s[i])) }
/// g is o with its nodes renumbered; entrypoint and root not looked at
pub open spec fn shuffled(g: Hugr, o: Hugr, p: Perm) -> bool {
  &&& p.ok() && g.graph.size() == o.graph.size() && g.metadata.def() == o.metadata.def() && g.extensions == o.extensions
  &&& forall|x: Idx| #![trigger g.graph.live(x)] g.live(x) == o.live(p.a(x))
  &&& forall|x: Idx| #![trigger g.graph.ins(x)] #![trigger g.graph.outs(x)] g.graph.ins(x) == o.graph.ins(p.a(x)) && g.graph.outs(x) == o.graph.outs(p.a(x))
  &&& forall|l: Link| #![trigger g.graph.cnt(l)] g.graph.cnt(l) == o.graph.cnt(was(p, l))
  &&& forall|x: Idx| #![trigger g.op_types.at(x)] g.op(x) == o.op(p.a(x))
  &&& forall|x: Idx| #![trigger g.metadata.at(x)] g.metadata.at(x) == o.metadata.at(p.a(x))
  &&& forall|x: Idx| #![trigger g.hierarchy.par(x)] g.par(x) == (match o.par(p.a(x)) { Some(q) => Some(p.b(q)), None => None })
  &&& forall|x: Idx| #![trigger g.hierarchy.kids(x)] g.kids(x) == now_at(p, o.kids(p.a(x)))
}
/// the nodes of o, in the order w, are the nodes 0, 1, 2, ... of g
pub open spec fn numbered_as(g: Hugr, o: Hugr, w: Seq<Idx>, p: Perm) -> bool {
  &&& shuffled(g, o, p) && w.len() == o.graph.size()
  &&& forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> p.b(w[i]) == Idx(i as usize)
  &&& forall|x: Idx| #![trigger g.graph.live(x)] g.live(x) <==> x.0 < w.len()
  &&& g.module_root == Idx(0) && g.entrypoint == p.b(o.entrypoint)
}
/// where the search for node z passes after k steps
pub open spec fn trail(w: Seq<Idx>, z: Idx, k: nat) -> Idx decreases k { if k == 0 { z } else { w[trail(w, z, (k - 1) as nat).0 as int] } }
pub open spec fn leads(w: Seq<Idx>, n: int, z: Idx, y: Idx, k: nat) -> bool { trail(w, z, k) == y && forall|j: nat| #![trigger trail(w, z, j)] j < k ==> trail(w, z, j).0 < n }
/// the nodes not yet placed are found by following their trail to the first place not dealt with
pub open spec fn found(w: Seq<Idx>, n: int, p: Perm) -> bool { forall|z: Idx| #![trigger p.b(z)] (forall|i: int| #![trigger w[i]] 0 <= i < n ==> w[i] != z) ==> p.b(z).0 >= n && exists|k: nat| #[trigger] leads(w, n, z, p.b(z), k) }
pub open spec fn placed_upto(w: Seq<Idx>, n: int, p: Perm) -> bool { forall|i: int| #![trigger w[i]] 0 <= i < n ==> p.b(w[i]) == Idx(i as usize) }
/// calls of `rekey`: each node that got another index, in order
pub open spec fn moved_calls(w: Seq<Idx>, n: int) -> Seq<(Idx, Idx)> decreases n { if n <= 0 { Seq::empty() } else if w[n - 1] != Idx((n - 1) as usize) { moved_calls(w, n - 1).push((w[n - 1], Idx((n - 1) as usize))) } else { moved_calls(w, n - 1) } }
#[verifier::external_body] pub struct Rekeyer { _p: u8 }
impl Rekeyer { pub uninterp spec fn calls(&self) -> Seq<(Idx, Idx)>; #[verifier::external_body] pub fn call(&mut self, a: Idx, b: Idx) ensures final(self).calls() == old(self).calls().push((a, b)) { unimplemented!() } }
pub open spec fn entry_seen(w: Seq<Idx>, n: int, e: Idx, r: Option<Idx>) -> bool { match r { Some(x) => x.0 < n && w[x.0 as int] == e, None => forall|i: int| #![trigger w[i]] 0 <= i < n ==> w[i] != e } }
"""
LEM = {'lemma_trail': """
pub proof fn lemma_trail(w: Seq<Idx>, z: Idx, a: nat, b: nat) ensures trail(w, trail(w, z, a), b) == trail(w, z, a + b) decreases b { if b > 0 { lemma_trail(w, z, a, (b - 1) as nat); assert(a + b - 1 == a + (b - 1)); } }""",
'lemma_still': """
pub proof fn lemma_still(o: Hugr, w: Seq<Idx>) ensures shuffled(o, o, still()), found(w, 0, still()), placed_upto(w, 0, still())
{
  let p = still();
  assert forall|x: Idx| #![trigger o.hierarchy.kids(x)] o.kids(x) == now_at(p, o.kids(p.a(x))) by { assert(now_at(p, o.kids(x)) =~= o.kids(x)); }
  assert forall|l: Link| #![trigger o.graph.cnt(l)] o.graph.cnt(l) == o.graph.cnt(was(p, l)) by { assert(was(p, l) == l); }
  assert forall|z: Idx| #![trigger p.b(z)] p.b(z).0 >= 0 && exists|k: nat| #[trigger] leads(w, 0, z, p.b(z), k) by { assert(leads(w, 0, z, p.b(z), 0)); }
}""",
'lemma_shuffle': """
pub proof fn lemma_shuffle(a: Hugr, b: Hugr, o: Hugr, p: Perm, s: Idx, t: Idx)
  requires shuffled(a, o, p), b.extensions == a.extensions, b.graph.size() == a.graph.size(), b.metadata.def() == a.metadata.def(),
    forall|x: Idx| #![trigger b.graph.live(x)] b.live(x) == a.live(swapped(s, t, x)),
    forall|x: Idx| #![trigger b.graph.ins(x)] #![trigger b.graph.outs(x)] b.graph.ins(x) == a.graph.ins(swapped(s, t, x)) && b.graph.outs(x) == a.graph.outs(swapped(s, t, x)),
    forall|l: Link| #![trigger b.graph.cnt(l)] b.graph.cnt(l) == a.graph.cnt(Link { s: swapped(s, t, l.s), t: swapped(s, t, l.t), ..l }),
    forall|x: Idx| #![trigger b.op_types.at(x)] b.op(x) == a.op(swapped(s, t, x)),
    forall|x: Idx| #![trigger b.metadata.at(x)] b.metadata.at(x) == a.metadata.at(swapped(s, t, x)),
    forall|x: Idx| #![trigger b.hierarchy.par(x)] b.par(x) == (match a.par(swapped(s, t, x)) { Some(q) => Some(swapped(s, t, q)), None => None }),
    forall|x: Idx| #![trigger b.hierarchy.kids(x)] b.kids(x) == a.kids(swapped(s, t, x)).map_values(|y: Idx| swapped(s, t, y)),
  ensures shuffled(b, o, p.swap(s, t))
{
  let q = p.swap(s, t);
  assert forall|x: Idx| #![trigger q.a(x)] q.b(q.a(x)) == x by { assert(p.b(p.a(swapped(s, t, x))) == swapped(s, t, x)); }
  assert forall|x: Idx| #![trigger q.b(x)] q.a(q.b(x)) == x by { assert(p.a(p.b(x)) == x); assert(swapped(s, t, swapped(s, t, p.b(x))) == p.b(x)); }
  assert forall|x: Idx| #![trigger b.hierarchy.kids(x)] b.kids(x) == now_at(q, o.kids(q.a(x))) by { assert(a.kids(swapped(s, t, x)) == now_at(p, o.kids(p.a(swapped(s, t, x))))); assert(b.kids(x) =~= now_at(q, o.kids(q.a(x)))); }
  assert forall|l: Link| #![trigger b.graph.cnt(l)] b.graph.cnt(l) == o.graph.cnt(was(q, l)) by { let k = Link { s: swapped(s, t, l.s), t: swapped(s, t, l.t), ..l }; assert(was(p, k) == was(q, l)); }
}""",
'lemma_place': """
/// position n gets the node w[n], found at s
pub proof fn lemma_place(w: Seq<Idx>, n: int, p: Perm, s: Idx)
  requires p.ok(), w.no_duplicates(), 0 <= n < w.len(), w.len() <= usize::MAX, found(w, n, p), placed_upto(w, n, p), s == p.b(w[n])
  ensures ({ let q = p.swap(Idx(n as usize), s); found(w, n + 1, q) && placed_upto(w, n + 1, q) })
{
  let t = Idx(n as usize); let q = p.swap(t, s);
  assert forall|i: int| 0 <= i < n implies #[trigger] w[i] != w[n] by {}
  assert(s.0 >= n);
  let ks = choose|k: nat| #[trigger] leads(w, n, w[n], s, k);
  assert forall|i: int| #![trigger w[i]] 0 <= i < n + 1 implies q.b(w[i]) == Idx(i as usize) by { if i < n { assert(p.b(w[i]) == Idx(i as usize)); assert(p.b(w[i]) != s); } else { assert(q.b(w[n]) == swapped(t, s, s)); } }
  assert forall|z: Idx| #![trigger q.b(z)] (forall|i: int| #![trigger w[i]] 0 <= i < n + 1 ==> w[i] != z) implies q.b(z).0 >= n + 1 && exists|k: nat| #[trigger] leads(w, n + 1, z, q.b(z), k) by {
    assert(forall|i: int| #![trigger w[i]] 0 <= i < n ==> w[i] != z); let y = p.b(z); assert(y.0 >= n); let k = choose|k: nat| #[trigger] leads(w, n, z, y, k);
    assert(z != w[n]); assert(y != s) by { if y == s { assert(p.a(p.b(z)) == z); assert(p.a(p.b(w[n])) == w[n]); } }
    if y == t {
      assert(q.b(z) == s); assert(s != t); let kk = (k + 1 + ks) as nat;
      assert(trail(w, z, k + 1) == w[n]);
      lemma_trail(w, z, k + 1, ks);
      assert forall|j: nat| #![trigger trail(w, z, j)] j < kk implies trail(w, z, j).0 < n + 1 by { if j < k { } else if j == k { } else { let d = (j - (k + 1)) as nat; lemma_trail(w, z, k + 1, d); assert(trail(w, w[n], d).0 < n); } }
      assert(leads(w, n + 1, z, q.b(z), kk));
    } else {
      assert(q.b(z) == y); assert(y.0 != n);
      assert(leads(w, n + 1, z, q.b(z), k));
    }
  }
}""",
'lemma_order': """
pub proof fn lemma_order(o: Hugr, w: Seq<Idx>) requires o.wf(), rooted(o), canon(o, o.module_root, w) ensures w.len() == o.graph.size(), forall|x: Idx| #![trigger w.contains(x)] w.contains(x) <==> o.live(x)
{ let a = o.graph.listing(); assert forall|x: Idx| #![trigger w.contains(x)] w.contains(x) <==> o.live(x) by { if o.live(x) { assert(o.hierarchy.within(x, o.module_root)); } else if w.contains(x) { assert(o.hierarchy.within(x, o.module_root)); lemma_step(o.hierarchy, x, o.module_root); assert(o.par(x) is None); } } lemma_fits(w, a); lemma_fits(a, w); }""",
'lemma_all_placed': """
pub proof fn lemma_all_placed(g: Hugr, o: Hugr, w: Seq<Idx>, p: Perm) requires o.wf(), rooted(o), canon(o, o.module_root, w), shuffled(g, o, p), placed_upto(w, w.len() as int, p), w.len() <= usize::MAX
  ensures forall|x: Idx| #![trigger g.graph.live(x)] g.live(x) <==> x.0 < w.len()
{
  lemma_order(o, w);
  assert forall|x: Idx| #![trigger g.graph.live(x)] g.live(x) <==> x.0 < w.len() by {
    if g.live(x) { assert(w.contains(p.a(x))); let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == p.a(x); assert(p.b(w[i]) == Idx(i as usize)); assert(p.b(p.a(x)) == x); }
    if x.0 < w.len() { assert(p.b(w[x.0 as int]) == x); assert(p.a(p.b(w[x.0 as int])) == w[x.0 as int]); assert(w.contains(w[x.0 as int])); } }
}""",
'lemma_shuffled_wf': """
pub proof fn lemma_shuffled_wf(g: Hugr, o: Hugr, w: Seq<Idx>, p: Perm) requires o.wf(), numbered_as(g, o, w, p), w.len() > 0, w[0] == o.module_root ensures g.wf()
{
  assert forall|q: Idx, c: Idx| #![trigger g.hierarchy.kids(q).contains(c)] g.hierarchy.kids(q).contains(c) <==> g.hierarchy.par(c) == Some(q) by {
    let s = o.kids(p.a(q)); assert(g.kids(q) == now_at(p, s)); assert(p.b(p.a(q)) == q); assert(p.b(p.a(c)) == c); let ghost r = g.hierarchy.par(c);
    if g.kids(q).contains(c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] now_at(p, s)[i] == c; assert(p.b(s[i]) == c); assert(p.a(p.b(s[i])) == s[i]); assert(s.contains(p.a(c))); }
    if r == Some(q) { let u = o.par(p.a(c))->0; assert(p.b(u) == q); assert(p.a(p.b(u)) == u); assert(s.contains(p.a(c))); let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == p.a(c); assert(now_at(p, s)[i] == c); assert(g.kids(q)[i] == c); } }
  assert forall|q: Idx| #![trigger g.hierarchy.kids(q)] g.hierarchy.kids(q).no_duplicates() by { let s = o.kids(p.a(q)); assert(o.hierarchy.kids(p.a(q)).no_duplicates()); assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies now_at(p, s)[i] != now_at(p, s)[j] by { assert(s[i] != s[j]); assert(p.a(p.b(s[i])) == s[i] && p.a(p.b(s[j])) == s[j]); } }
  let h = choose|h: spec_fn(Idx) -> nat| #[trigger] o.hierarchy.rank(h);
  let h2 = |x: Idx| h(p.a(x));
  assert(g.hierarchy.rank(h2)) by { assert forall|x: Idx| #![trigger g.hierarchy.par(x)] g.hierarchy.par(x) matches Some(y) implies h2(g.hierarchy.par(x)->0) < h2(x) by { let u = o.par(p.a(x))->0; assert(o.hierarchy.par(p.a(x)) == Some(u)); assert(p.a(p.b(u)) == u); } }
  assert forall|l: Link| #![trigger g.graph.cnt(l)] g.graph.cnt(l) > 0 implies g.graph.live(l.s) && g.graph.live(l.t) && 0 <= l.o < g.graph.outs(l.s) && 0 <= l.i < g.graph.ins(l.t) by { assert(o.graph.cnt(was(p, l)) > 0); }
  assert forall|n: Idx| #![trigger g.graph.live(n)] !g.graph.live(n) implies g.graph.ins(n) == 0 && g.graph.outs(n) == 0 by { assert(!o.graph.live(p.a(n))); }
  assert forall|n: Idx| #![trigger g.graph.live(n)] !g.live(n) implies g.par(n) is None && g.kids(n).len() == 0 && g.metadata.at(n) is None by { assert(!o.graph.live(p.a(n))); }
  assert(p.b(w[0]) == Idx(0)); assert(p.a(p.b(w[0])) == w[0]); assert(p.a(p.b(o.entrypoint)) == o.entrypoint); assert(g.graph.live(Idx(0))); assert(g.hierarchy.par(Idx(0)) is None); assert(g.graph.live(g.entrypoint)); 
}"""}
def unit():
    u = Unit('h02c'); k = S.Contracts(u, ['HugrView for Hugr::num_nodes', 'HugrView for Hugr::children', 'HugrView for Hugr::module_root', 'HugrView for Hugr::entrypoint'])
    H.setup(k); H.views(k); S.walking(u)
    u.text(PERM)
    for n, t in LEM.items(): u.lemma(n, t)
    s = H.src(S.HG); f = of(s, r'Hugr\s*\{', 'canonicalize_nodes')
    u.text('impl Hugr {')
    G = 'o == *old(self), o.wf(), rooted(o), w == ordered@, canon(o, o.module_root, w), w.len() == o.graph.size(), w.len() <= usize::MAX, self.entrypoint == o.entrypoint, '
    u.fn(f, """requires old(self).wf(), rooted(*old(self)), old(rekey).calls() == Seq::<(Idx, Idx)>::empty(),
 ensures final(self).wf(), exists|w: Seq<Idx>, p: Perm| canon(*old(self), old(self).module_root, w) && #[trigger] numbered_as(*final(self), *old(self), w, p) && final(rekey).calls() == moved_calls(w, w.len() as int),""",
        sig='pub fn canonicalize_nodes(&mut self, rekey: &mut Rekeyer)', pre='let ghost o = *self; let ghost mut p = still();',
        rules=[(r'(?s)let ordered = \{\s*let mut v = Vec::with_capacity\(self\.num_nodes\(\)\);\s*v\.extend\((self\.canonical_order\(self\.module_root\(\)\))\);\s*v\s*\};', r'let ordered = \1;'),
               (r'let mut new_entrypoint = None;', 'let mut new_entrypoint: Option<Idx> = None;'), (r'for position in 0\.\.ordered\.len\(\) \{', 'let mut n0: usize = 0; while n0 < ordered.len() { let position = n0; n0 = n0 + 1;'),
               (r'portgraph::NodeIndex::new\((\w+)\)', r'Idx(\1)'), (r'let old = new_entrypoint\.replace\((\w+)\);', r'new_entrypoint = Some(\1);'), (r'debug_assert!\(old\.is_none\(\)\);', ''), (r'rekey\((ordered\[position\]), pg_target\.into\(\)\)', r'rekey.call(\1, pg_target)'), (r'compact_nodes\(\|_, _\| \{\}\)', 'compact_nodes()')] + H.BASE,
        loops=[('invariant ' + G + 'n0 <= ordered.len(), shuffled(*self, o, p), found(w, n0 as int, p), placed_upto(w, n0 as int, p), entry_seen(w, n0 as int, o.entrypoint, new_entrypoint), rekey.calls() == moved_calls(w, n0 as int), decreases ordered.len() - n0,',
                'let ghost n = n0 as int; let ghost g0 = *self; let ghost z = w[n]; proof { assert forall|i: int| 0 <= i < n implies #[trigger] w[i] != z by {} }'),
               ('invariant position == n, 0 <= n < w.len(), w == ordered@, w.len() <= usize::MAX, leads(w, n, z, p.b(z), k), j <= k, source == trail(w, z, j), p.b(z).0 >= n, ensures source == p.b(z), decreases k - j,', 'proof { if j < k { assert(trail(w, z, j).0 < n); j = j + 1; } }')],
        post_rules=[(r'(let mut new_entrypoint: Option<Idx> = None;)', r'\1 let ghost w = ordered@; proof { lemma_order(o, w); lemma_still(o, w); }'),
                    (r'(while position > source\.index\(\))', r'let ghost k = { let b = p.b(z); choose|k: nat| #[trigger] leads(w, n, z, p.b(z), k) }; let ghost mut j: nat = 0; \1'),
                    (r'(self\.hierarchy\.swap_nodes\(pg_target, pg_source\);)', r'\1 proof { lemma_shuffle(g0, *self, o, p, pg_target, pg_source); }'),
                    (r'(if ordered\[position\]\S* != pg_target)', r'proof { lemma_place(w, n, p, pg_source); if pg_target == pg_source { lemma_same_place(*self, o, w, n, p, pg_source); } else { p = p.swap(pg_target, pg_source); } } \1'),
                    (r'(self\.module_root = Idx\(0\);)', r'proof { lemma_all_placed(*self, o, w, p); assert(w.contains(o.entrypoint)); let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == o.entrypoint; } let ghost g1 = *self; \1'),
                    (r'(self\.graph\.compact_nodes\(\);)', r'\1 proof { lemma_compacted(g1, *self, o, w, p); lemma_shuffled_wf(*self, o, w, p); }')], obligation='canonicalize_nodes')
    i = H.src(H.HI); ii = i.impl(r'HugrMutInternals for Hugr\s*\{'); m = H.src(H.HM); im = m.impl(r'HugrMut for Hugr\s*\{')
    u.fn(i.fn('extensions_mut', ii), 'ensures *r == old(self).extensions, *final(self) == (Hugr { extensions: *final(r), ..*old(self) }),', rules=H.BASE)
    u.fn(m.fn('use_extension', im), 'ensures *final(self) == (Hugr { extensions: with_ext(old(self).extensions, extension), ..*old(self) }),', rules=H.BASE, sig='fn use_extension(&mut self, extension: Extension)')
    u.fn(m.fn('use_extensions', im), 'ensures *final(self) == (Hugr { extensions: joined(old(self).extensions, registry), ..*old(self) }),', rules=[(r'\.extend\(registry\)', '.extend(&registry)')] + H.BASE, sig='fn use_extensions(&mut self, registry: ExtensionRegistry)')
    u.text('}')
    return u
LEM['lemma_same_place'] = """
pub proof fn lemma_same_place(g: Hugr, o: Hugr, w: Seq<Idx>, n: int, p: Perm, s: Idx) requires p.ok(), found(w, n + 1, p.swap(s, s)), placed_upto(w, n + 1, p.swap(s, s)) ensures found(w, n + 1, p), placed_upto(w, n + 1, p)
{ let q = p.swap(s, s); assert forall|x: Idx| #![trigger p.b(x)] p.b(x) == q.b(x) by {}
  assert forall|z: Idx| #![trigger p.b(z)] (forall|i: int| #![trigger w[i]] 0 <= i < n + 1 ==> w[i] != z) implies p.b(z).0 >= n + 1 && exists|k: nat| #[trigger] leads(w, n + 1, z, p.b(z), k) by { assert(q.b(z) == p.b(z)); }
  assert forall|i: int| #![trigger w[i]] 0 <= i < n + 1 implies p.b(w[i]) == Idx(i as usize) by { assert(q.b(w[i]) == Idx(i as usize)); } }"""
LEM['lemma_compacted'] = """
pub proof fn lemma_compacted(a: Hugr, b: Hugr, o: Hugr, w: Seq<Idx>, p: Perm) requires shuffled(a, o, p), w.len() == o.graph.size(), placed_upto(w, w.len() as int, p), forall|x: Idx| #![trigger a.graph.live(x)] a.live(x) <==> x.0 < w.len(), b.graph.same_nodes(&a.graph), b.graph.same_ports(&a.graph), b.graph.same_links(&a.graph), b.hierarchy == a.hierarchy, b.op_types == a.op_types, b.metadata == a.metadata, b.extensions == a.extensions, b.module_root == Idx(0), b.entrypoint == p.b(o.entrypoint) ensures numbered_as(b, o, w, p)
{ assert forall|x: Idx| #![trigger b.graph.live(x)] b.live(x) == o.live(p.a(x)) && (b.live(x) <==> x.0 < w.len()) by { assert(b.graph.live(x) == a.graph.live(x)); } }"""
