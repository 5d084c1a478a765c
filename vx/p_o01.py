from opsx import *
EXEC = 'o01'
def prepare(build):
    os.makedirs(os.path.join(build, 'gen'), exist_ok=True)
    out = os.path.join(build, 'gen', 'o01_tags.rs')
    try:
        tags, par = tag_table()
        txt = 'const TAGS: &[(OpTag, &[OpTag])] = &[\n' + ''.join(f"  (OpTag::{t}, &[{', '.join('OpTag::' + p for p in par[t])}]),\n" for t in tags) + '];\n'
    except AnchorLost: txt = lib('o01_tags.rs')
    open(out, 'w').write(txt)

LEMMAS = [
('tags_antisymmetric', '''
/// the is-a relation is a partial order (reflexive by definition)
proof fn tags_antisymmetric(a: OpTag, b: OpTag) requires above(a, b), above(b, a) ensures a == b { lemma_rises(a, b); lemma_rises(b, a); }'''),
('tags_transitive', '''
proof fn tags_transitive(a: OpTag, b: OpTag, c: OpTag) requires above(a, b), above(b, c) ensures above(a, c) decreases height(c)
{ lemma_height(); if b != c { let i = choose|i: int| #![trigger links(c)[i]] 0 <= i < links(c).len() && height(links(c)[i]) < height(c) && above(b, links(c)[i]); tags_transitive(a, b, links(c)[i]); } }'''),
('any_is_greatest', '''
proof fn any_is_greatest(t: OpTag) ensures above(OpTag::Any, t), above(t, OpTag::Any) ==> t == OpTag::Any decreases height(t)
{ lemma_height(); if t != OpTag::Any { assert(links(t).len() > 0); let p = links(t)[0]; assert(height(p) < height(t)); any_is_greatest(p); }
  if above(t, OpTag::Any) && t != OpTag::Any { assert(links(OpTag::Any).len() == 0); } }'''),
('none_covers_only_itself', '''
proof fn none_covers_only_itself(t: OpTag) ensures above(OpTag::None, t) ==> t == OpTag::None decreases height(t)
{ lemma_height(); if t != OpTag::None && above(OpTag::None, t) {
    let i = choose|i: int| #![trigger links(t)[i]] 0 <= i < links(t).len() && height(links(t)[i]) < height(t) && above(OpTag::None, links(t)[i]);
    none_covers_only_itself(links(t)[i]); assert(links(t)[i] == OpTag::None); assert(false); } }'''),
('smallest_relation_with_the_links', '''
/// `above` holds the declared links, and is within every reflexive and transitive relation that holds them
proof fn smallest_relation_with_the_links(r: spec_fn(OpTag, OpTag) -> bool, a: OpTag, b: OpTag)
  requires forall|x: OpTag| #[trigger] r(x, x), forall|x: OpTag, y: OpTag, z: OpTag| #[trigger] r(x, y) && #[trigger] r(y, z) ==> r(x, z), forall|x: OpTag, i: int| #![trigger links(x)[i]] 0 <= i < links(x).len() ==> r(links(x)[i], x)
  ensures above(a, b) ==> r(a, b), forall|i: int| 0 <= i < links(b).len() ==> above(#[trigger] links(b)[i], b) decreases height(b)
{ lemma_height();
  assert forall|i: int| 0 <= i < links(b).len() implies above(#[trigger] links(b)[i], b) by { let p = links(b)[i]; assert(height(p) < height(b)); assert(above(p, p)); }
  if above(a, b) && a != b { let i = choose|i: int| #![trigger links(b)[i]] 0 <= i < links(b).len() && height(links(b)[i]) < height(b) && above(a, links(b)[i]); smallest_relation_with_the_links(r, a, links(b)[i]); assert(r(links(b)[i], b)); } }'''),
]
def units():
    tags, par = tag_table()
    u = Unit('o01_tags')
    tag_spec(u, tags, par); unfold(u)
    u.text('proof fn lemma_rises(a: OpTag, b: OpTag) requires above(a, b) ensures height(a) <= height(b), height(a) == height(b) ==> a == b decreases height(b) { if a != b { let i = choose|i: int| #![trigger links(b)[i]] 0 <= i < links(b).len() && height(links(b)[i]) < height(b) && above(a, links(b)[i]); lemma_rises(a, links(b)[i]); } }')
    u.lemma('links_are_acyclic', 'proof fn links_are_acyclic(b: OpTag, i: int) requires 0 <= i < links(b).len() ensures height(links(b)[i]) < height(b) { }')
    for n, t in LEMMAS: u.lemma(n, t)
    s = src(TAGF); im = s.impl(r'OpTag\s*\{')
    rl = [(r'\bmatches!\(self, &OpTag::None\)', 'matches!(*self, OpTag::None)')]
    u.text('impl OpTag {')
    u.fn(s.fn('eq', im), 'ensures r == (self == other),', obligation='OpTag::eq')
    u.fn(s.fn('is_empty', im), 'ensures r == (*self == OpTag::None),', rules=rl, obligation='OpTag::is_empty')
    u.fn(s.fn('immediate_supersets', im), 'ensures r@ =~= links(self),', obligation='OpTag::immediate_supersets')
    superset(u, s, im)
    u.text('}')
    # typed handles
    h = src(OPS + '/handle.rs'); ht = h.block(r'pub trait NodeHandle\b')
    u.text('''
pub struct Node(pub usize);
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Node {}
/// a typed handle: a static tag and the node it stands for (`From<N>` wraps the node)
pub trait Handle: Sized { spec fn stag() -> OpTag; spec fn at(&self) -> Node; fn tag_const() -> (r: OpTag) ensures r == Self::stag(); fn node(&self) -> (r: Node) ensures r == self.at(); fn from_node(n: Node) -> (r: Self) ensures r.at() == n; }
pub trait HasTag { spec fn rtag(&self) -> OpTag; fn tag(&self) -> (r: OpTag) ensures r == self.rtag(); }''')
    hr = [(r'\b([TH])::TAG\b', r'\1::tag_const()'), (r'\bSelf::TAG\b', 'S::tag_const()'), (r'\bself\b', 'self_'),
          (r'\.then\(\|\| (\w+(?:\.node\(\))?)\.into\(\)\)', lambda m: f".then(|| -> (x: {{H}}) ensures x.at() == {m.group(1).replace('.node()', '.at()')} {{ {{H}}::from_node({m.group(1)}) }})")]
    def rules(H): return [(a, (lambda m, b=b, H=H: b(m).replace('{H}', H).replace('{{', '{').replace('}}', '}')) if callable(b) else b) for a, b in hr]
    u.fn(h.fn('try_cast', ht), 'ensures r is Some <==> above(T::stag(), S::stag()), r matches Some(x) ==> x.at() == self_.at(),', rules=rules('T'),
         sig='pub fn try_cast<S: Handle, T: Handle>(self_: &S) -> (r: Option<T>)', obligation='NodeHandle::try_cast')
    u.fn(h.fn('can_hold', ht), 'ensures r == above(S::stag(), tag),', rules=rules('S'), sig='pub fn can_hold<S: Handle>(tag: OpTag) -> (r: bool)', obligation='NodeHandle::can_hold')
    so, to = trait('OpTrait')
    u.fn(so.fn('try_node_handle', to), '''ensures // a typed handle exactly when the handle's tag covers the operation's tag
   r is Some <==> above(H::stag(), self_.rtag()), r matches Some(x) ==> x.at() == node,''', rules=rules('H'),
         sig='pub fn try_node_handle<O: HasTag, H: Handle>(self_: &O, node: Node) -> (r: Option<H>)', obligation='OpTrait::try_node_handle')
    u.trust('a handle type wraps the node it is made from (`From<N>`, `node()`)')
    # run-time tag within the static tag, operation by operation
    w = Unit('o01_ops')
    tag_spec(w, tags, par)
    unfold(w)
    for c in ('StaticInput', 'StaticOutput', 'DataflowParent', 'DataflowChild'): tag_table_lemma(w, tags, par, c)
    data(w)
    w.text('pub uninterp spec fn any_type() -> Type;\nimpl Const { #[verifier::external_body] pub fn get_type(&self) -> (r: Type) { unimplemented!() } }\nimpl TypeRow { #[verifier::external_body] pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() } }\nimpl Signature { pub fn default() -> (r: Self) ensures r.input@.len() == 0, r.output@.len() == 0 { Signature { input: TypeRow::new(), output: TypeRow::new() } } }\nimpl PolyFuncType { pub fn body(&self) -> (r: &Signature) { &self.body } }')
    for x in variants():
        w.text(f'pub uninterp spec fn rows_{x}(x: {x}) -> (Seq<Type>, Seq<Type>);')
        w.text(f'impl {x} {{ {tag_consts(x)}')
        w.fn(resolve(x, 'tag'), f'ensures above({x}::TAG, r),', rules=[(r'\bT::TAG', f'{x}::DF_TAG'), (r'<Self as (Static|DataflowOp)T\w+>::TAG', 'Self::TAG'), (r'super::', '')], sig='pub fn tag(&self) -> (r: OpTag)', obligation=f'{x}::tag')
        # category tags: exactly the operations that have such a port or such children
        for xx, n, fld in (('LoadConstant', 'constant_type', 'datatype'), ('Call', 'called_function_type', 'func_sig'), ('LoadFunction', 'function_type', 'func_sig')):
            if x == xx: dfs = src(OPS + '/dataflow.rs'); w.text(subst(strip_attrs('pub ' + dfs.fn(n, dfs.impl(x + r'\s*\{')).sig.replace('pub ', '') + dfs.fn(n, dfs.impl(x + r'\s*\{')).body), []))
        pre = lambda c: f'proof {{ lemma_above_{c}(); }}'
        emit(w, x, 'static_input', f'ensures r is Some <==> above(OpTag::StaticInput, {x}::TAG),', pre=pre('StaticInput'))
        emit(w, x, 'static_output', f'ensures r is Some <==> above(OpTag::StaticOutput, {x}::TAG),', pre=pre('StaticOutput'))
        dk = '' if x == 'Const' else f'r is Some <==> above(OpTag::DataflowChild, {x}::TAG),'
        if x == 'Const': dk = f'r is None, above(OpTag::DataflowChild, {x}::TAG),'
        emit(w, x, 'dataflow_signature', (f'ensures {dk}', ''), pre=pre('DataflowChild'), opaque=True)
        f, g = inner(x)
        if g: w.text('#[verifier::external_body] pub fn inner_signature(&self) -> (r: Signature) { unimplemented!() }')
        w.fn(f, f'ensures r is Some <==> above(OpTag::DataflowParent, {x}::TAG),', rules=RULES, pre=pre('DataflowParent'), sig='pub fn inner_function_type(&self) -> (r: Option<Signature>)', obligation=f'{x}::inner_function_type')
        w.text('}')
    w.trust('trait methods resolve to the implementation or the trait default (resolved statically by vx/opsx.py)')
    return [u, w]
