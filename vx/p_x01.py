from common import *
EXEC = 'x01'
F = 'hugr-core/src/extension.rs'
def opaque(*ns): return '\n'.join(f'#[verifier::external_body] pub struct {n} {{ x: u8 }}\nimpl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}' for n in ns)
SPEC = opaque('Name', 'Version', 'PolyFuncTypeRV', 'Validator', 'CustomSignatureFunc', 'Description', 'Rest', 'SignatureError', 'Params', 'TypeDefBound') + '''
pub type ExtensionId = Name; pub type OpName = Name; pub type TypeName = Name;
/// a weak reference: what it points at while that is alive
#[verifier::external_body] pub struct Weak { x: u8 }
impl Clone for Weak { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// a shared reference: immutable, so it is its content; `get_mut` on a fresh one gives access to the content
pub struct Arc<X> { pub it: X }
impl<X> Arc<X> { pub fn new(x: X) -> (r: Self) ensures r.it == x { Arc { it: x } }
#[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- the order of versions is total ----
pub uninterp spec fn vle(a: Version, b: Version) -> bool;
#[verifier::external_body] pub proof fn versions_are_ordered() ensures forall|a: Version| #[trigger] vle(a, a), forall|a: Version, b: Version, c: Version| #[trigger] vle(a, b) && #[trigger] vle(b, c) ==> vle(a, c), forall|a: Version, b: Version| #[trigger] vle(a, b) || vle(b, a), forall|a: Version, b: Version| #[trigger] vle(a, b) && vle(b, a) ==> a == b { }
pub open spec fn vlt(a: Version, b: Version) -> bool { vle(a, b) && a != b }
#[verifier::external_body] pub fn lt(a: &Version, b: &Version) -> (r: bool) ensures r == vlt(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn gt(a: &Version, b: &Version) -> (r: bool) ensures r == vlt(*b, *a) { unimplemented!() }
#[verifier::external_body] pub fn le(a: &Version, b: &Version) -> (r: bool) ensures r == vle(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn ge(a: &Version, b: &Version) -> (r: bool) ensures r == vle(*b, *a) { unimplemented!() }
#[verifier::external_body] pub fn eq(a: &Version, b: &Version) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn name_eq(a: &Name, b: &Name) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
// ---- std::collections::BTreeMap keyed by names ----
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct BTreeMap<V> { x: core::marker::PhantomData<V> }
pub struct OccupiedEntry<V> { pub key: Name, pub value: V }
pub struct VacantEntry { pub key: Name }
pub enum Entry<V> { Occupied(OccupiedEntry<V>), Vacant(VacantEntry) }
pub open spec fn values_of<V>(m: Map<Name, V>, v: Seq<V>) -> bool { (forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> exists|k: Name| m.dom().contains(k) && #[trigger] m[k] == v[i]) && (forall|k: Name| #![trigger m[k]] m.dom().contains(k) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == m[k]) }
impl<V> BTreeMap<V> {
pub uninterp spec fn view(&self) -> Map<Name, V>;
#[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Name, V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
#[verifier::external_body] pub fn get(&self, k: &Name) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
#[verifier::external_body] pub fn contains_key(&self, k: &Name) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
#[verifier::external_body] pub fn insert(&mut self, k: Name, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn remove(&mut self, k: &Name) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
#[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<Name>::empty()) { unimplemented!() }
/// looking a key up for update: the entry is written back through `put`
#[verifier::external_body] pub fn entry(&self, k: Name) -> (r: Entry<V>) ensures match r { Entry::Occupied(e) => self@.dom().contains(k) && e.key == k && e.value == self@[k], Entry::Vacant(e) => !self@.dom().contains(k) && e.key == k } { unimplemented!() }
pub fn put(&mut self, k: Name, v: V) ensures final(self)@ == old(self)@.insert(k, v) { let _ = self.insert(k, v); }
/// the values in the order of their keys
#[verifier::external_body] pub fn values(&self) -> (r: Vec<&V>) ensures values_of(self@, Seq::new(r@.len(), |i: int| *r@[i])) { unimplemented!() }
}
impl<V> OccupiedEntry<V> { pub fn get(&self) -> (r: &V) ensures *r == self.value { &self.value } }
'''
MODEL = '''
// ---- what the containers promise ----
/// a type scheme all of whose types are well formed in the scope of its parameters
pub uninterp spec fn scheme_ok(p: PolyFuncTypeRV) -> bool;
impl PolyFuncTypeRV { #[verifier::external_body] pub fn validate(&self) -> (r: Result<(), SignatureError>) ensures r is Ok == scheme_ok(*self) { unimplemented!() } }
/// an operation that declares its type scheme declares a valid one
pub open spec fn op_ok(op: OpDef) -> bool { match op.signature_func { SignatureFunc::PolyFuncType(p) => scheme_ok(p), SignatureFunc::CustomValidator(c) => scheme_ok(c.poly_func), SignatureFunc::MissingValidateFunc(p) => scheme_ok(p), _ => true } }
/// every definition is filed under its own name and belongs to the extension
pub open spec fn coherent(e: Extension) -> bool { (forall|n: Name| #![trigger e.operations@[n]] e.operations@.dom().contains(n) ==> e.operations@[n].it.name == n && e.operations@[n].it.extension == e.name) && (forall|n: Name| #![trigger e.types@[n]] e.types@.dom().contains(n) ==> e.types@[n].name == n && e.types@[n].extension == e.name) }
pub open spec fn ext_ok(e: Extension) -> bool { forall|n: Name| #![trigger e.operations@[n]] e.operations@.dom().contains(n) ==> op_ok(e.operations@[n].it) }
pub type Exts = Map<Name, Arc<Extension>>;
pub open spec fn all_ok(m: Exts) -> bool { forall|n: Name| #![trigger m[n]] m.dom().contains(n) ==> ext_ok(m[n].it) }
/// filed under their own names, and the mark left by a validation is still justified
pub open spec fn filed(m: Exts) -> bool { forall|n: Name| #![trigger m[n]] m.dom().contains(n) ==> m[n].it.name == n }
pub open spec fn sound(r: ExtensionRegistry) -> bool { filed(r.exts@) && (r.valid ==> all_ok(r.exts@)) }
/// keeping the more recent definition
pub open spec fn updated(m: Exts, e: Arc<Extension>) -> Exts { if m.dom().contains(e.it.name) && !vlt(m[e.it.name].it.version, e.it.version) { m } else { m.insert(e.it.name, e) } }
pub open spec fn after(m: Exts, es: Seq<Arc<Extension>>) -> Exts decreases es.len() { if es.len() == 0 { m } else { updated(after(m, es.drop_last()), es.last()) } }
/// the definition kept of a name is one that was registered, at the highest version registered, and the first at that version
pub open spec fn is_best(m: Exts, es: Seq<Arc<Extension>>, n: Name, i: int) -> bool { 0 <= i < es.len() && es[i].it.name == n && m.dom().contains(n) && m[n] == es[i] && (forall|j: int| #![trigger es[j]] 0 <= j < es.len() && es[j].it.name == n ==> vle(es[j].it.version, es[i].it.version) && (j < i ==> es[j].it.version != es[i].it.version)) }
'''
LEMMAS = {'histories_keep_the_first_definition_of_the_highest_version': '''pub proof fn histories_keep_the_first_definition_of_the_highest_version(es: Seq<Arc<Extension>>, n: Name)
 ensures after(Map::empty(), es).dom().contains(n) == (exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).it.name == n), after(Map::empty(), es).dom().contains(n) ==> exists|i: int| #[trigger] is_best(after(Map::empty(), es), es, n, i), filed(after(Map::empty(), es)) decreases es.len()
{ versions_are_ordered(); let e0: Exts = Map::empty(); if es.len() > 0 { let b = es.drop_last(); let m = after(e0, b); let x = es.last(); let k = es.len() - 1; histories_keep_the_first_definition_of_the_highest_version(b, n);
  let m2 = after(e0, es); assert(m2 == updated(m, x)); assert forall|i: int| 0 <= i < k implies b[i] == es[i] by {}
  if m.dom().contains(n) { let i = choose|i: int| #[trigger] is_best(m, b, n, i); assert(es[i].it.name == n);
     if x.it.name == n { if vlt(m[n].it.version, x.it.version) { assert forall|j: int| #![trigger es[j]] 0 <= j < es.len() && es[j].it.name == n implies vle(es[j].it.version, es[k].it.version) && (j < k ==> es[j].it.version != es[k].it.version) by { if j < k { assert(b[j].it.name == n); assert(vle(b[j].it.version, b[i].it.version)); } } assert(is_best(m2, es, n, k)); }
        else { assert forall|j: int| #![trigger es[j]] 0 <= j < es.len() && es[j].it.name == n implies vle(es[j].it.version, es[i].it.version) && (j < i ==> es[j].it.version != es[i].it.version) by { if j < k { assert(b[j].it.name == n); } } assert(is_best(m2, es, n, i)); } }
     else { assert forall|j: int| #![trigger es[j]] 0 <= j < es.len() && es[j].it.name == n implies vle(es[j].it.version, es[i].it.version) && (j < i ==> es[j].it.version != es[i].it.version) by { if j < k { assert(b[j].it.name == n); } } assert(is_best(m2, es, n, i)); } }
  else { if x.it.name == n { assert(es[k].it.name == n); assert forall|j: int| #![trigger es[j]] 0 <= j < es.len() && es[j].it.name == n implies j == k by { if j < k { assert(b[j].it.name == n); } } assert(is_best(m2, es, n, k)); }
     else { assert forall|j: int| 0 <= j < es.len() implies (#[trigger] es[j]).it.name != n by { if j < k { assert(b[j].it.name != n); } } } }
 } }''',
'updates_do_not_depend_on_the_order_of_different_versions': '''pub proof fn updates_do_not_depend_on_the_order_of_different_versions(m: Exts, a: Arc<Extension>, b: Arc<Extension>) requires filed(m), a.it.name != b.it.name || a.it.version != b.it.version ensures updated(updated(m, a), b) =~= updated(updated(m, b), a) { versions_are_ordered(); }''',
'registering_again_changes_nothing': '''pub proof fn registering_again_changes_nothing(m: Exts, a: Arc<Extension>) ensures updated(updated(m, a), a) == updated(m, a) { versions_are_ordered(); }''',
'updates_keep_registries_sound': '''pub proof fn updates_keep_registries_sound(m: Exts, e: Arc<Extension>) requires filed(m) ensures filed(updated(m, e)) { assert forall|n: Name| #![trigger updated(m, e)[n]] updated(m, e).dom().contains(n) implies updated(m, e)[n].it.name == n by { if n != e.it.name { assert(m[n].it.name == n); } } }'''}
SETS = '''
// ---- std::collections::BTreeSet of names ----
#[verifier::external_body] pub struct BTreeSet { x: u8 }
impl BTreeSet {
pub uninterp spec fn view(&self) -> Set<Name>;
#[verifier::external_body] pub const fn new() -> (r: Self) ensures r@ == Set::<Name>::empty() { unimplemented!() }
#[verifier::external_body] pub fn insert(&mut self, k: Name) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
#[verifier::external_body] pub fn contains(&self, k: &Name) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
#[verifier::external_body] pub fn is_subset(&self, o: &Self) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
#[verifier::external_body] pub fn is_superset(&self, o: &Self) -> (r: bool) ensures r == o@.subset_of(self@) { unimplemented!() }
#[verifier::external_body] pub fn is_disjoint(&self, o: &Self) -> (r: bool) ensures r == self@.disjoint(o@) { unimplemented!() }
#[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Name>::empty()) { unimplemented!() }
#[verifier::external_body] pub fn extend(&mut self, o: Self) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
#[verifier::external_body] pub fn difference(&self, o: &Self) -> (r: Vec<Name>) ensures r@.to_set() == self@.difference(o@) { unimplemented!() }
#[verifier::external_body] pub fn intersection(&self, o: &Self) -> (r: Vec<Name>) ensures r@.to_set() == self@.intersect(o@) { unimplemented!() }
#[verifier::external_body] pub fn from_iter(v: Vec<Name>) -> (r: Self) ensures r@ == v@.to_set() { unimplemented!() }
}
/// what the sets hold together
pub open spec fn together(v: Seq<ExtensionSet>) -> Set<Name> decreases v.len() { if v.len() == 0 { Set::empty() } else { together(v.drop_last()).union(v.last().0@) } }
'''
WEAK = '''
pub uninterp spec fn alive(w: Weak) -> Option<Arc<Extension>>;
pub uninterp spec fn weak_to(e: Arc<Extension>) -> Weak;
#[verifier::external_body] pub fn downgrade(e: &Arc<Extension>) -> (r: Weak) ensures r == weak_to(*e) { unimplemented!() }
'''
ENTRY = [(r'btree_map::Entry', 'Entry'), (r'(?s)match (self\.\w+)\.entry\((.*?)\) \{', r'match \1.entry(\2) {')]
CMP = [(r'([\w.()]+\.version\(\)) (<=|>=|<|>|==) ([\w.()]+\.version\(\))', lambda m: {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq'}[m.group(2)] + f'({m.group(1)}, {m.group(3)})')]
FLAG = [(r'self\.valid\.load\(Ordering::\w+\)', 'self.valid'), (r'self\.valid\.store\((\w+), Ordering::\w+\)', r'self.valid = \1')]
def entries(field):
    return [(r'btree_map::Entry', 'Entry'), (r'\*(\w+)\.get_mut\(\) = ([^;]*?);', rf'{field}.put(\1.key.clone(), \2);'), (r'(\w+)\.insert\((extension(?:\.clone\(\))?)\);', rf'{field}.put(\1.key.clone(), \2);'), (r'Entry::Occupied\(mut ', 'Entry::Occupied(')]
DEREF = [(r'(\w+|\w+\.get\(\))\.(name|version)\(\)', r'\1.it.\2()')]
def units():
    u = Unit('x01'); s = src(F); od = src('hugr-core/src/extension/op_def.rs'); td = src('hugr-core/src/extension/type_def.rs'); w = src('hugr-core/src/extension/resolution/weak_registry.rs')
    u.text(SPEC)
    u.trust('BTreeMap/BTreeSet keyed by names are finite maps/sets (assumed contracts; entries are read, then written back through the map); Arc is its immutable content; Weak::upgrade/downgrade are opaque; versions are totally ordered (semver::Version: Ord); the validation mark (AtomicBool) is read and written as a plain field, i.e. by one thread at a time')
    T = [(r'BTreeMap<\w+, ', 'BTreeMap<'), (r'AtomicBool', 'bool'), (r'Weak<Extension>', 'Weak'), (r'Arc<op_def::OpDef>', 'Arc<OpDef>'), (r'String\b', 'Description'), (r'Vec<TypeParam>', 'Params'), (r'(HashMap<String, serde_json::Value>|Vec<LowerFunc>|Option<Arc<dyn ConstFold>>)', 'Rest'), (r'pub\((?:super|crate)\) ', 'pub '), (r'(?m)^(\s+)(\w+): ', r'\1pub \2: ')]
    for f, n in ((td, 'pub struct TypeDef'), (od, 'pub struct OpDef'), (s, 'pub struct Extension '), (s, 'pub struct ExtensionRegistry ')):
        t = strip_attrs(f.item(re.escape(n.strip()) + r' \{'))
        u.text(subst(t, [(r'misc: [^,]*(?:<[^>]*>)?,\n', 'misc: Rest,\n'), (r'lower_funcs: [^\n]*\n', 'lower_funcs: Rest,\n'), (r'constant_folder: [^\n]*\n', 'constant_folder: Rest,\n')] + T))
    t = subst(strip_attrs(od.item(r'pub enum SignatureFunc \{')), [(r'Box<dyn CustomSignatureFunc>', 'CustomSignatureFunc')]); u.text(t)
    t = subst(strip_attrs(od.item(r'pub struct CustomValidator \{')), [(r'Box<dyn ValidateTypeArgs>', 'Validator'), (r'(?m)^(\s+)(?:pub(?:\([^)]*\))? )?(\w+): ', r'\1pub \2: ')]); u.text(t)
    u.text('pub enum ExtensionBuildError { OpDefExists(OpName), TypeDefExists(TypeName) }\npub enum ExtensionRegistryError { AlreadyRegistered(ExtensionId, Box<Version>, Box<Version>), InvalidSignature(ExtensionId, SignatureError) }')
    u.text(MODEL)
    for n, t in LEMMAS.items(): u.lemma(n, t)
    u.text('impl Rest { #[verifier::external_body] pub fn default() -> Rest { unimplemented!() } }')
    u.text('impl OpDef {'); u.fn(od.fn('validate', od.impl(r'OpDef \{')), 'ensures r is Ok == op_ok(*self),', obligation='OpDef::validate'); u.text('}')
    E = r'Extension \{'
    u.text('impl Extension {')
    for n in ('name', 'version'): u.fn(s.fn(n, s.impl(E)), f'ensures *r == self.{n},', obligation=f'Extension::{n}')
    u.fn(s.fn('new', s.impl(E)), 'ensures r.name == name, r.version == version, r.operations@ == Map::<Name, Arc<OpDef>>::empty(), r.types@ == Map::<Name, TypeDef>::empty(), coherent(r),', obligation='Extension::new', rules=[(r'Default::default\(\)', 'BTreeMap::new()')])
    u.fn(s.fn('get_op', s.impl(E)), 'ensures match r { Some(x) => self.operations@.dom().contains(*name) && *x == self.operations@[*name], None => !self.operations@.dom().contains(*name) },', obligation='Extension::get_op', sig='pub fn get_op(&self, name: &OpName) -> (r: Option<&Arc<OpDef>>)')
    u.fn(s.fn('get_type', s.impl(E)), 'ensures match r { Some(x) => self.types@.dom().contains(*type_name) && *x == self.types@[*type_name], None => !self.types@.dom().contains(*type_name) },', obligation='Extension::get_type', sig='pub fn get_type(&self, type_name: &TypeName) -> (r: Option<&TypeDef>)')
    u.fn(s.fn('validate', s.impl(E)), 'ensures r is Ok == ext_ok(*self),', obligation='Extension::validate', rules=[(r'for (\w+) in self\.operations\.values\(\) \{', r'let all = self.operations.values(); let ghost listed = Seq::new(all@.len(), |i: int| *all@[i]); for i in 0..all.len() { let \1 = all[i]; proof { assert(listed[i as int] == *\1); }'), (r'op_def\.validate\(\)\?;', 'match op_def.it.validate() { Ok(()) => {}, Err(e) => { proof { let k = choose|k: Name| self.operations@.dom().contains(k) && #[trigger] self.operations@[k] == listed[i as int]; assert(!op_ok(self.operations@[k].it)); } return Err(e); } }'),
         (r'Ok\(\(\)\)\s*\}\s*$', 'proof { assert forall|n: Name| #![trigger self.operations@[n]] self.operations@.dom().contains(n) implies op_ok(self.operations@[n].it) by { let i = choose|i: int| 0 <= i < listed.len() && #[trigger] listed[i] == self.operations@[n]; assert(op_ok(listed[i].it)); } } Ok(()) }')],
         loops=['invariant listed == Seq::new(all@.len(), |i: int| *all@[i]), values_of(self.operations@, listed), forall|j: int| #![trigger listed[j]] 0 <= j < i ==> op_ok(listed[j].it),'])
    A = [(r'extension_ref: &Weak<Extension>', 'extension_ref: &Weak'), (r'signature_func\.into\(\)', 'signature_func'), (r'Default::default\(\)', 'Rest::default()'), (r'Entry::Occupied\(_\)', 'Entry::Occupied(_)')]
    u.fn(od.fn('add_op', od.impl(E)), '''requires coherent(*old(self)), ensures coherent(*final(self)), final(self).name == old(self).name, final(self).version == old(self).version, final(self).types@ == old(self).types@, r is Ok == !old(self).operations@.dom().contains(name),
  match r { Ok(()) => final(self).operations@.dom() == old(self).operations@.dom().insert(name) && (forall|n: Name| #![trigger final(self).operations@[n]] n != name ==> final(self).operations@[n] == old(self).operations@[n]) && final(self).operations@[name].it.signature_func == signature_func, Err(e) => *final(self) == *old(self) && e == ExtensionBuildError::OpDefExists(name) },''', obligation='Extension::add_op',
         sig='pub fn add_op(&mut self, name: OpName, description: Description, signature_func: SignatureFunc, extension_ref: &Weak) -> (r: Result<(), ExtensionBuildError>)',
         rules=A + [(r'Ok\(Arc::get_mut\((\w+)\.insert\((Arc::new\(op\))\)\)\.unwrap\(\)\)', r'{ self.operations.put(\1.key.clone(), \2); Ok(()) }')])
    u.fn(td.fn('add_type', td.impl(E)), '''requires coherent(*old(self)), ensures coherent(*final(self)), final(self).name == old(self).name, final(self).version == old(self).version, final(self).operations@ == old(self).operations@, r is Ok == !old(self).types@.dom().contains(name),
  match r { Ok(()) => final(self).types@.dom() == old(self).types@.dom().insert(name) && (forall|n: Name| #![trigger final(self).types@[n]] n != name ==> final(self).types@[n] == old(self).types@[n]) && final(self).types@[name].bound == bound && final(self).types@[name].params == params, Err(e) => *final(self) == *old(self) && e == ExtensionBuildError::TypeDefExists(name) },''', obligation='Extension::add_type',
         sig='pub fn add_type(&mut self, name: TypeName, params: Params, description: Description, bound: TypeDefBound, extension_ref: &Weak) -> (r: Result<(), ExtensionBuildError>)',
         rules=A + [(r'Ok\((\w+)\.insert\(ty\)\)', r'{ self.types.put(\1.key.clone(), ty); Ok(()) }')])
    u.fn(s.fn('eq', s.impl(r'PartialEq for Extension \{')), 'ensures r == (self.name == other.name && self.version == other.version),', obligation='Extension::eq', rules=[(r'self\.name == other\.name', 'name_eq(&self.name, &other.name)'), (r'self\.version == other\.version', 'eq(&self.version, &other.version)')])
    u.text('}')
    # ---- the registry ----
    R = r'ExtensionRegistry \{'; I = s.impl(R)
    u.text('impl ExtensionRegistry {\npub fn default() -> (r: Self) ensures r.exts@ == Map::<Name, Arc<Extension>>::empty(), !r.valid { ExtensionRegistry { exts: BTreeMap::new(), valid: false } }')
    reg = entries('self.exts') + CMP + FLAG + [(r'let extension = extension\.into\(\);', ''), (r'(\bextension|\bprev\.get\(\))\.(name|version)\(\)', r'\1.it.\2()')]
    KEEP = 'requires sound(*old(self)), ensures sound(*final(self)), final(self).exts@ == updated(old(self).exts@, {e}),'
    PRE = 'proof { versions_are_ordered(); updates_keep_registries_sound(old(self).exts@, %s); }'
    u.fn(s.fn('register_updated', I), KEEP.format(e='extension'), obligation='ExtensionRegistry::register_updated', rules=reg, pre=PRE % 'extension', sig='pub fn register_updated(&mut self, extension: Arc<Extension>)')
    u.fn(s.fn('register_updated_ref', I), KEEP.format(e='*extension'), obligation='ExtensionRegistry::register_updated_ref', rules=reg, pre=PRE % '*extension', sig='pub fn register_updated_ref(&mut self, extension: &Arc<Extension>)')
    u.fn(s.fn('register', I), '''requires sound(*old(self)), ensures sound(*final(self)), r is Ok == !old(self).exts@.dom().contains(extension.it.name),
  match r { Ok(()) => final(self).exts@ == old(self).exts@.insert(extension.it.name, extension), Err(e) => final(self).exts@ == old(self).exts@ && final(self).valid == old(self).valid && (e matches ExtensionRegistryError::AlreadyRegistered(n, a, b) && n == extension.it.name && *a == old(self).exts@[n].it.version && *b == extension.it.version) },''', obligation='ExtensionRegistry::register', rules=reg, sig='pub fn register(&mut self, extension: Arc<Extension>) -> (r: Result<(), ExtensionRegistryError>)')
    STEP = 'proof { assert(%s@.take(i + 1).drop_last() =~= %s@.take(i as int)); }'
    u.fn(s.fn('new', I), 'ensures sound(r), r.exts@ == after(Map::empty(), extensions@),', obligation='ExtensionRegistry::new', sig='pub fn new(extensions: Vec<Arc<Extension>>) -> (r: Self)', pre='proof { assert(extensions@.take(0) =~= Seq::empty()); }',
         rules=[(r'Self::default\(\)', 'ExtensionRegistry::default()'), (r'for ext in extensions \{', 'for i in 0..extensions.len() { let ext = extensions[i].clone(); ' + STEP % ('extensions', 'extensions')), (r'res\s*\}\s*$', 'proof { assert(extensions@.take(extensions@.len() as int) =~= extensions@); } res }')],
         loops=['invariant sound(res), res.exts@ == after(Map::empty(), extensions@.take(i as int)),'])
    u.fn(s.fn('get', I), 'requires sound(*self), ensures match r { Some(x) => self.exts@.dom().contains(*name) && *x == self.exts@[*name] && x.it.name == *name, None => !self.exts@.dom().contains(*name) },', obligation='ExtensionRegistry::get', sig='pub fn get(&self, name: &Name) -> (r: Option<&Arc<Extension>>)')
    u.fn(s.fn('contains', I), 'ensures r == self.exts@.dom().contains(*name),', obligation='ExtensionRegistry::contains', sig='pub fn contains(&self, name: &Name) -> (r: bool)')
    u.fn(s.fn('len', I), 'ensures r == self.exts@.dom().len(),', obligation='ExtensionRegistry::len')
    u.fn(s.fn('is_empty', I), 'ensures r == (self.exts@.dom() == Set::<Name>::empty()),', obligation='ExtensionRegistry::is_empty')
    u.fn(s.fn('remove_extension', I), 'requires sound(*old(self)), ensures sound(*final(self)), final(self).exts@ == old(self).exts@.remove(*name), r == (if old(self).exts@.dom().contains(*name) { Some(old(self).exts@[*name]) } else { None }),', obligation='ExtensionRegistry::remove_extension', rules=FLAG)
    u.fn(s.fn('validate', I), 'requires sound(*old(self)), ensures sound(*final(self)), final(self).exts@ == old(self).exts@, r is Ok == all_ok(old(self).exts@),', obligation='ExtensionRegistry::validate', sig='pub fn validate(&mut self) -> (r: Result<(), ExtensionRegistryError>)',
         rules=FLAG + [(r'for ext in self\.exts\.values\(\) \{', 'let all = self.exts.values(); let ghost listed = Seq::new(all@.len(), |i: int| *all@[i]); for i in 0..all.len() { let ext = all[i]; proof { assert(listed[i as int] == *ext); }'),
                (r'(?s)ext\.validate\(\)\s*\.map_err\(\|e\| (.*?)\)\?;', r'match ext.it.validate() { Ok(()) => {}, Err(e) => { proof { let k = choose|k: Name| self.exts@.dom().contains(k) && #[trigger] self.exts@[k] == listed[i as int]; assert(!ext_ok(self.exts@[k].it)); } return Err(\1); } }'), (r'ext\.name\(\)', 'ext.it.name()'),
                (r'(self\.valid = \w+;)\s*Ok\(\(\)\)\s*\}\s*$', r'proof { assert forall|n: Name| #![trigger self.exts@[n]] self.exts@.dom().contains(n) implies ext_ok(self.exts@[n].it) by { let i = choose|i: int| 0 <= i < listed.len() && #[trigger] listed[i] == self.exts@[n]; assert(ext_ok(listed[i].it)); } } \1 Ok(()) }')],
         loops=['invariant sound(*old(self)), *self == *old(self), listed == Seq::new(all@.len(), |i: int| *all@[i]), values_of(self.exts@, listed), forall|j: int| #![trigger listed[j]] 0 <= j < i ==> ext_ok(listed[j].it),'])
    u.fn(s.fn('clone', s.impl(r'Clone for ExtensionRegistry \{')), 'ensures r.exts@ == self.exts@, sound(*self) ==> sound(r),', obligation='ExtensionRegistry::clone', rules=FLAG + [(r'self\.valid\.into\(\)', 'self.valid'), (r'\bSelf \{', 'ExtensionRegistry {')])
    for hd, nm, ref in ((r"<'a> Extend<&'a Arc<Extension>> for ExtensionRegistry \{", 'extend_ref', '&'), (r'Extend<Arc<Extension>> for ExtensionRegistry \{', 'extend', '')):
        u.fn(s.fn('extend', s.impl(hd)), 'requires sound(*old(self)), ensures sound(*final(self)), final(self).exts@ == after(old(self).exts@, iter@),', obligation=f'ExtensionRegistry::{nm}', sig=f'pub fn {nm}(&mut self, iter: Vec<Arc<Extension>>)',
             rules=[(r'for ext in iter \{', f'proof {{ assert(iter@.take(0) =~= Seq::empty()); }} for i in 0..iter.len() {{ let ext = {"&iter[i]" if ref else "iter[i].clone()"}; ' + STEP % ('iter', 'iter')), (r'\}\s*\}\s*$', '} proof { assert(iter@.take(iter@.len() as int) =~= iter@); } }')],
             loops=['invariant sound(*self), self.exts@ == after(old(self).exts@, iter@.take(i as int)),'])
    u.text('}')
    # ---- weak registries ----
    u.text(WEAK); u.text('pub struct WeakExtensionRegistry { pub exts: BTreeMap<Weak> }\nimpl WeakExtensionRegistry {\npub fn default() -> (r: Self) ensures r.exts@ == Map::<Name, Weak>::empty() { WeakExtensionRegistry { exts: BTreeMap::new() } }')
    WI = w.impl(r'WeakExtensionRegistry \{')
    u.fn(w.fn('get', WI), 'ensures match r { Some(x) => self.exts@.dom().contains(*name) && *x == self.exts@[*name], None => !self.exts@.dom().contains(*name) },', obligation='WeakExtensionRegistry::get', sig='pub fn get(&self, name: &Name) -> (r: Option<&Weak>)')
    u.fn(w.fn('contains', WI), 'ensures r == self.exts@.dom().contains(*name),', obligation='WeakExtensionRegistry::contains', sig='pub fn contains(&self, name: &Name) -> (r: bool)')
    u.fn(w.fn('register', WI), 'ensures final(self).exts@ == old(self).exts@.insert(id, ext), r == !old(self).exts@.dom().contains(id),', obligation='WeakExtensionRegistry::register', rules=[(r'ext\.into\(\)', 'ext')], sig='pub fn register(&mut self, id: ExtensionId, ext: Weak) -> (r: bool)')
    u.text('}')
    # ---- sets of names ----
    u.text('pub struct ExtensionSet(pub BTreeSet);'); u.text(SETS); SI = s.impl(r'ExtensionSet \{')
    u.text('impl ExtensionSet {')
    X = lambda n, c, **k: u.fn(s.fn(n, SI), c, obligation=f'ExtensionSet::{n}', **k)
    X('new', 'ensures r.0@ == Set::<Name>::empty(),'); X('insert', 'ensures final(self).0@ == old(self).0@.insert(extension),'); X('contains', 'ensures r == self.0@.contains(*extension),')
    X('is_subset', 'ensures r == self.0@.subset_of(other.0@),'); X('is_superset', 'ensures r == other.0@.subset_of(self.0@),'); X('singleton', 'ensures r.0@ == Set::<Name>::empty().insert(extension),')
    X('union', 'ensures r.0@ == self.0@.union(other.0@),', sig='pub fn union(self, other: Self) -> (r: Self)', rules=[(r'\bself\.0\.', 'me.0.'), (r'\bself\s*\}\s*$', 'me }')], pre='let mut me = self;')
    u.fn(s.fn('from_iter', s.impl(r'FromIterator<ExtensionId> for ExtensionSet \{')), 'ensures r.0@ == iter@.to_set(),', obligation='ExtensionSet::from_iter', sig='pub fn from_iter(iter: Vec<Name>) -> (r: Self)', rules=[(r'Self\(', 'ExtensionSet(')])
    X('union_over', 'ensures r.0@ == together(sets@),', sig='pub fn union_over(sets: Vec<ExtensionSet>) -> (r: Self)', pre='proof { assert(sets@.take(0) =~= Seq::empty()); } let mut sets = sets; let ghost given = sets@;', rules=[(r'for s in sets \{', 'let n = sets.len(); for i in 0..n { let s = sets.remove(0); proof { assert(given.take(i + 1).drop_last() =~= given.take(i as int)); } '), (r'res\s*\}\s*$', 'proof { assert(given.take(given.len() as int) =~= given); } res }')],
      loops=['invariant n == given.len(), sets@ == given.skip(i as int), res.0@ == together(given.take(i as int)),'])
    X('missing_from', 'ensures r.0@ == other.0@.difference(self.0@),', rules=[(r'\.cloned\(\)', '')])
    X('is_empty', 'ensures r == (self.0@ == Set::<Name>::empty()),')
    u.fn(s.fn('from', s.impl(r'From<ExtensionId> for ExtensionSet \{')), 'ensures r.0@ == Set::<Name>::empty().insert(id),', obligation='ExtensionSet::from', rules=[(r'Self::', 'ExtensionSet::')])
    u.text('}')
    return [u]
ASSUMPTIONS = ['extensions are not changed once they are shared (they sit behind Arc)', 'whether a type scheme is well formed (PolyFuncType::validate) is a function of the scheme']
BOUNDED = ['iteration, serialization and formatting of registries; conversions between registries and weak registries: exercised by the executable layer only']
