"""extraction of the operations: static resolution of the operation traits, one inherent
function per operation and method, and the dispatch over the operation enum."""
from common import *
OPS = 'hugr-core/src/ops'
FILES = ['hugr-core/src/ops.rs'] + [f'{OPS}/{f}.rs' for f in ('dataflow', 'controlflow', 'module', 'constant', 'sum', 'custom')]
TAGF = OPS + '/tag.rs'

def tag_table():
    """tags and their declared parents, from the current text of `immediate_supersets`"""
    s = src(TAGF)
    enum = strip_attrs(s.item(r'pub enum OpTag\b'))
    tags = [t for t in re.findall(r'\b([A-Z]\w*)\b', enum[enum.index('{'):])]
    f = s.fn('immediate_supersets', s.impl(r'OpTag\s*\{'))
    body = strip_attrs(f.body)
    arms = re.findall(r'((?:OpTag::|Self::)\w+(?:\s*\|\s*(?:OpTag::|Self::)\w+)*)\s*=>\s*\{?\s*(?:const\s*)?&\[([^\]]*)\]', body)
    par = {}
    for pats, ps in arms:
        for p in re.findall(r'::(\w+)', pats): par.setdefault(p, re.findall(r'::(\w+)', ps))
    if set(par) != set(tags): raise AnchorLost(f'{TAGF}: the parent links are not a table over the tags')
    return tags, par

def heights(tags, par):
    """length of the longest chain of declared links above each tag (capped: a cycle fails its decreases obligation)"""
    h = {t: 0 for t in tags}
    for _ in range(len(tags) + 1):
        for t in tags:
            for p in par[t]:
                if p in h: h[t] = max(h[t], min(h[p] + 1, len(tags) + 1))
    return h

def closure(tags, par):
    up = {t: {t} for t in tags}
    ch = True
    while ch:
        ch = False
        for t in tags:
            for p in par[t]:
                n = up[t] | up[p]
                if n != up[t]: up[t] = n; ch = True
    return up          # up[t]: everything above t

def tag_spec(u, tags, par):
    h = heights(tags, par)
    u.text('#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum OpTag { ' + ', '.join(tags) + ' }')
    u.text('pub open spec fn links(t: OpTag) -> Seq<OpTag> { match t { ' + ', '.join(f"OpTag::{t} => seq![{', '.join('OpTag::' + p for p in par[t])}]" for t in tags) + ' } }')
    u.text('pub open spec fn height(t: OpTag) -> nat { match t { ' + ', '.join(f'OpTag::{t} => {h[t]}' for t in tags) + ' } }')
    u.text('''
/// the is-a relation: reflexive and transitive closure of the declared links
pub open spec fn above(a: OpTag, b: OpTag) -> bool decreases height(b)
{ a == b || (exists|i: int| #![trigger links(b)[i]] 0 <= i < links(b).len() && height(links(b)[i]) < height(b) && above(a, links(b)[i])) }
proof fn lemma_height() ensures forall|b: OpTag, i: int| #![trigger links(b)[i]] 0 <= i < links(b).len() ==> height(links(b)[i]) < height(b)
{ assert forall|b: OpTag, i: int| #![trigger links(b)[i]] 0 <= i < links(b).len() implies height(links(b)[i]) < height(b) by { } }
''')

def tag_table_lemma(u, tags, par, of):
    """explicit extension of `above(of, .)`, proved by unfolding"""
    up = closure(tags, par)
    m = ' || '.join(f't == OpTag::{t}' for t in tags if of in up[t])
    # proved bottom-up along the declared links, one tag at a time
    h = heights(tags, par)
    steps = ''.join(f"assert(above(OpTag::{of}, OpTag::{t}) == {'true' if of in up[t] else 'false'}) by {{ lemma_unfold(OpTag::{of}, OpTag::{t}); " + ''.join(f"assert(links(OpTag::{t})[{i}] == OpTag::{p}); " for i, p in enumerate(par[t])) + '}\n' for t in sorted(tags, key=lambda t: h[t]))
    u.text(f'proof fn lemma_above_{of}() ensures forall|t: OpTag| #[trigger] above(OpTag::{of}, t) <==> ({m}) {{\n{steps} }}')

def unfold(u):
    u.text('''proof fn lemma_unfold(a: OpTag, b: OpTag) ensures above(a, b) <==> (a == b || exists|i: int| #![trigger links(b)[i]] 0 <= i < links(b).len() && above(a, links(b)[i])) { lemma_height(); }''')

def superset(u, s, im):
    f = s.fn('is_superset', im)
    pv = re.search(r'let (\w+) = other\.immediate_supersets\(\)', f.body); iv = re.search(r'while (\w+) < ', f.body)
    pv = pv.group(1) if pv else 'parents'; iv = iv.group(1) if iv else 'i'
    ann = f'''invariant {pv}@ == links(other), self != other, {iv} <= {pv}@.len(), forall|j: int| 0 <= j < {iv} ==> !above(self, #[trigger] links(other)[j]), decreases {pv}.len() - {iv}'''
    u.fn(f, 'ensures r == above(self, other), decreases height(other)', loops=[(ann, '')] if len(f.loops()) == 1 else None, pre='proof { lemma_height(); lemma_unfold(self, other); }', obligation='OpTag::is_superset')

def variants():
    s = src(FILES[0])
    e = strip_attrs(s.item(r'pub enum OpType\b'))
    return re.findall(r'\b([A-Z]\w*)\b', e[e.index('{'):])

def where(rx):
    for f in FILES:
        s = src(f)
        if next(iter(s.finditer(r'(?m)^impl\b\s*' + rx)), None): return s, s.impl(rx)
    return None
def has_fn(s, name, span):
    try: return s.fn(name, span)
    except AnchorLost: return None
def trait(name):
    for f in FILES:
        s = src(f)
        if next(iter(s.finditer(r'pub trait ' + name + r'\b')), None): return s, s.block(r'pub trait ' + name + r'\b')
    raise AnchorLost(f'trait {name}')
def df_impl(x): return where(r'DataflowOpTrait for ' + x + r'\s*\{')
def own_impl(x, t='OpTrait'): return where(t + r' for ' + x + r'\s*\{')
def blanket(): 
    b = where(r'<T:[^>]*>\s*OpTrait for T\s*\{')
    if not b: raise AnchorLost('blanket implementation of OpTrait')
    return b
def resolve(x, m):
    """the function that `OpTrait::m` runs for operation x: (fn, prefixing needed)"""
    d = df_impl(x)
    if d:
        s, sp = blanket(); f = has_fn(s, m, sp)
        if f: return f
    else:
        o = own_impl(x)
        if not o: raise AnchorLost(f'no OpTrait implementation for {x}')
        f = has_fn(*[o[0], m, o[1]])
        if f: return f
    s, sp = trait('OpTrait'); return s.fn(m, sp)
def resolve_df(x, m):
    d = df_impl(x); f = has_fn(d[0], m, d[1])
    if f: return f
    s, sp = trait('DataflowOpTrait'); return s.fn(m, sp)
def const_in(s, span, name):
    m = next((m for m in s.finditer(r'const ' + name + r'\s*:\s*OpTag\s*=\s*([^;]+);', span[1], span[2])), None)
    if not m: raise AnchorLost(f'{s.path}: no const {name}')
    return m.group(1)
def tag_consts(x):
    """text of the tag constants of an operation"""
    d = df_impl(x)
    if d:
        df = const_in(d[0], d[1], 'TAG')
        b = where(r'<T:\s*DataflowOpTrait>\s*StaticTag for T\s*\{')
        if not b: raise AnchorLost('blanket implementation of StaticTag')
        st = const_in(b[0], b[1], 'TAG')
        st = st.replace('T::TAG', x + '::DF_TAG')
        return f'pub const DF_TAG: OpTag = {df}; pub const TAG: OpTag = {st};'
    o = own_impl(x, 'StaticTag')
    if not o: raise AnchorLost(f'no static tag for {x}')
    return f'pub const TAG: OpTag = {const_in(o[0], o[1], "TAG")};'

OPAQUE = {'String', 'SmolStr', 'Arc<OpDef>', 'ExtensionId', 'OpName', 'Visibility'}
def struct(u, x):
    for f in FILES:
        s = src(f)
        if next(iter(s.finditer(r'pub struct ' + x + r'\b')), None): break
    else: raise AnchorLost(f'struct {x}')
    t = strip_attrs(s.item(r'pub struct ' + x + r'\b'))
    body = t[t.index('{') + 1:t.rindex('}')]
    out = []
    for fld in re.findall(r'(\w+)\s*:\s*([^,]+?)\s*(?:,|$)', body.strip()):
        n, ty = fld
        ty = 'Opaque' if ty.strip() in OPAQUE else ty.strip()
        out.append(f'pub {n}: {ty}')
    u.text(f"pub struct {x} {{ {', '.join(out)} }}")

RULES = [(r"Cow<'_,\s*Signature>", 'Signature'), (r'Cow::Owned\(', '('), (r'Cow::Borrowed\(([^()]*(?:\(\))?[^()]*)\)', r'Signature::clone(\1)'),
         (r'<Self as StaticTag>::TAG', 'Self::TAG'), (r'\btype_row!\[\]', 'TypeRow::new()'),
         (r'DataflowOpTrait::(other_input|other_output|static_input)\(self\)', r'self.df_\1()'), (r'DataflowOpTrait::signature\(self\)', 'self.signature()'),
         (r'DataflowParent::inner_signature\(self\)', 'self.inner_signature()'), (r'usize::from\(', 'usize_from_bool('),
         (r'\.extend_from_slice\(&self\.(\w+)\)', r'.EXT(&self.\1)'), (r'(\w+)\.EXT\(', r'extend_row(&mut \1, '),
         (r'self\s*\.(\w+)\s*\.get\(([\w.]+)\)', r'vget(&self.\1, \2)'), (r'self\.(sum_rows|variants)\.clone\(\)', r'clone_rows(&self.\1)'),
         (r'let \[(\w+), (\w+)\]\s*=\s*\[([^,\]]+),([^,\]]+)\]\s*\.map\(\|(\w+)\| ([^;]+)\);', r'let \1 = { let \5 =\3; \6 }; let \2 = { let \5 =\4; \6 };'),
         (r'TypeRow::from\(', 'IntoRow::into_row('), (r'\.into\(\)', '.into_row()'), (r'super::OpTag', 'OpTag'), (r'portgraph::Direction', 'Direction')]

def data(u, kinds=True):
    s = src('hugr-core/src/types.rs')
    u.text(lib('ops.rs'))
    u.text('#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Direction { Incoming, Outgoing }')
    u.text(strip_attrs(s.item(r'pub enum EdgeKind\b')))
    for x in variants(): struct(u, x)
    u.text('pub enum OpType { ' + ', '.join(f'{x}({x})' for x in variants()) + ' }')
    u.trust('derived Clone of types, rows and signatures gives an equal value; Cow<Signature> is the signature it holds; TypeRow delegates len/get/to_mut/iter to its vector')
    u.trust('enum_dispatch calls the variant\'s implementation; trait methods resolve to the implementation or the trait default (resolved statically by vx/opsx.py)')

DFM = ('other_input', 'other_output', 'static_input')
def emit(u, x, m, contract, pre='', prefix=None, opaque=False):
    """the function run for `OpTrait::m` on operation x, as an inherent function; dataflow operations go
    through the blanket implementation to their own method `df_m` (or `signature`), emitted with the same contract"""
    f = resolve(x, m); d = df_impl(x)
    rl = [(r'\bT::TAG', f'{x}::DF_TAG')] + RULES
    sg = lambda name: (lambda s: re.sub(r'fn \w+', 'fn ' + name, re.sub(r'->\s*(.*?)\s*$', r'-> (r: \1)', s.strip() if s.strip().startswith('pub') else 'pub ' + s.strip(), flags=re.S)))
    if d and m in DFM:
        g = resolve_df(x, m)
        u.fn(g, contract, rules=rl, pre=pre, sig=sg('df_' + m), obligation=f'{x}::{m} (DataflowOpTrait)')
    if d and m == 'dataflow_signature':
        g = resolve_df(x, 'signature')
        c = contract.replace('r is Some', 'true').replace('(r->0)', 'r') if isinstance(contract, str) else contract[1]
        if opaque: u.text(f'#[verifier::external_body] pub fn signature(&self) -> (r: Signature) ensures same_sig2(r, rows_{x}(*self)) {{ unimplemented!() }}')
        else: u.fn(g, c, rules=rl, pre=pre, sig=sg('signature'), obligation=f'{x}::signature')
    c = contract if isinstance(contract, str) else contract[0]
    u.fn(f, c, rules=rl, pre=pre, sig=sg(m), obligation=f'{x}::{m}')

def dispatch(u, m, ret, contract, args=''):
    """`OpTrait::m` on the operation enum (what enum_dispatch generates)"""
    sg = ''.join(f', {a}: {t}' for a, t in args) if args else ''
    call = ', '.join(a for a, _ in args) if args else ''
    u.text(f'pub fn {m}(&self{sg}) -> (r: {ret}) {contract} {{ match self {{ ' + ', '.join(f'OpType::{x}(x) => x.{m}({call})' for x in variants()) + ' } }')

def inner(x):
    """(`OpParent::inner_function_type` for x, `inner_signature` when x is a dataflow parent)"""
    p = where(r'(?:dataflow::)?DataflowParent for ' + x + r'\s*\{')
    o = where(r'(?:super::)?OpParent for ' + x + r'\s*\{')
    if p:
        b = where(r'<T:\s*DataflowParent>\s*OpParent for T\s*\{')
        if not b: raise AnchorLost('blanket implementation of OpParent')
        return b[0].fn('inner_function_type', b[1]), p[0].fn('inner_signature', p[1])
    if not o: raise AnchorLost(f'no OpParent implementation for {x}')
    f = has_fn(o[0], 'inner_function_type', o[1])
    if not f: s, sp = trait('OpParent'); f = s.fn('inner_function_type', sp)
    return f, None
