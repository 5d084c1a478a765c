from typesx import *
EXEC = 't01'
SPEC = '''
pub open spec fn join(a: TypeBound, b: TypeBound) -> TypeBound { if a == TypeBound::Linear || b == TypeBound::Linear { TypeBound::Linear } else { TypeBound::Copyable } }
pub open spec fn any_linear(s: Seq<TypeBound>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == TypeBound::Linear }
pub open spec fn lub(s: Seq<TypeBound>) -> TypeBound { if any_linear(s) { TypeBound::Linear } else { TypeBound::Copyable } }
/// the documented classification, by recursion over the structure of the type: no cached bound is consulted
pub open spec fn linear(t: Type) -> bool decreases t { linear_e(t.0) }
pub open spec fn linear_e(e: TypeEnum) -> bool decreases e
{ match e { TypeEnum::Extension(c) => c.bound == TypeBound::Linear, TypeEnum::Alias(a) => a.bound == TypeBound::Linear, TypeEnum::Function(_) => false,
   TypeEnum::Variable(_, b) => b == TypeBound::Linear, TypeEnum::RowVar(r) => r.1 == TypeBound::Linear,
   TypeEnum::Sum(SumType::Unit { .. }) => false, TypeEnum::Sum(SumType::General { rows }) => exists|i: int| #![trigger rows@[i]] 0 <= i < rows@.len() && linear_row(rows@[i]) } }
pub open spec fn linear_row(r: TypeRow) -> bool decreases r { exists|j: int| #![trigger r.types@[j]] 0 <= j < r.types@.len() && linear(r.types@[j]) }
pub open spec fn bound_e(e: TypeEnum) -> TypeBound { if linear_e(e) { TypeBound::Linear } else { TypeBound::Copyable } }
pub open spec fn bound_of(t: Type) -> TypeBound { if linear(t) { TypeBound::Linear } else { TypeBound::Copyable } }
/// every cached bound inside the type agrees with the classification
pub open spec fn wf(t: Type) -> bool decreases t
{ t.1 == bound_of(t) && match t.0 { TypeEnum::Extension(c) => forall|i: int| #![trigger c.args@[i]] 0 <= i < c.args@.len() ==> wf_term(c.args@[i]),
   TypeEnum::Function(f) => wf_row(f.input) && wf_row(f.output),
   TypeEnum::Sum(SumType::General { rows }) => forall|i: int| #![trigger rows@[i]] 0 <= i < rows@.len() ==> wf_row(rows@[i]), _ => true } }
pub open spec fn wf_row(r: TypeRow) -> bool decreases r { forall|j: int| #![trigger r.types@[j]] 0 <= j < r.types@.len() ==> wf(r.types@[j]) }
pub open spec fn wf_term(t: Term) -> bool decreases t
{ match t { Term::Runtime(ty) => wf(ty), Term::ConstType(ty) => wf(*ty), Term::ListType(x) => wf_term(*x), Term::TupleType(x) => wf_term(*x),
   Term::List(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> wf_term(v@[i]), Term::Tuple(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> wf_term(v@[i]),
   Term::ListConcat(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> wf_term(v@[i]), Term::TupleConcat(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> wf_term(v@[i]),
   Term::Variable(v) => wf_term(*v.cached_decl), _ => true } }
pub open spec fn wf_enum(e: TypeEnum) -> bool
{ match e { TypeEnum::Extension(c) => forall|i: int| #![trigger c.args@[i]] 0 <= i < c.args@.len() ==> wf_term(c.args@[i]), TypeEnum::Function(f) => wf_row(f.input) && wf_row(f.output),
   TypeEnum::Sum(SumType::General { rows }) => forall|i: int| #![trigger rows@[i]] 0 <= i < rows@.len() ==> wf_row(rows@[i]), _ => true } }
pub open spec fn wf_rows(v: Seq<TypeRow>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> wf_row(v[i]) }
pub open spec fn linear_rows(v: Seq<TypeRow>) -> bool { exists|i: int| #![trigger v[i]] 0 <= i < v.len() && linear_row(v[i]) }
proof fn t() { }
'''

FOLD = (r'(?s)\btags\.fold_while\(([^,]+), \|(\w+), (\w+)\| (\{.*\})\)\s*\.into_inner\(\)',
        r'{ let mut \2 = \1; let mut at: usize = 0; let mut done = false; while at < tags.len() && !done { let \3 = tags[at]; let step = \4; at = at + 1; match step { Done(x) => { \2 = x; done = true; }, Continue(x) => { \2 = x; } } } \2 }')
ITERS = '''
pub enum FoldWhile { Continue(TypeBound), Done(TypeBound) }
use FoldWhile::{Continue, Done};
/// `rows.iter().flat_map(TypeRowRV::iter).map(TypeRV::least_upper_bound)`, run to its end
pub fn bounds_of_rows(rows: &Vec<TypeRow>) -> (r: Vec<TypeBound>) requires wf_rows(rows@) ensures any_linear(r@) == linear_rows(rows@)
{ let mut v: Vec<TypeBound> = Vec::new(); let ghost mut any = false;
  for i in 0..rows.len() invariant wf_rows(rows@), any == any_linear(v@), any == linear_rows(rows@.take(i as int)) {
    let row = &rows[i]; let ghost before = any; let ghost mut here = false; assert(wf_row(*row));
    for j in 0..row.types.len() invariant wf_row(*row), any == any_linear(v@), here == (exists|k: int| #![trigger row.types@[k]] 0 <= k < j && linear(row.types@[k])), any == (before || here) {
      let b = row.types[j].least_upper_bound(); let ghost o = v@; v.push(b);
      proof { assert(wf(row.types@[j as int])); if b == TypeBound::Linear { here = true; any = true; assert(v@[o.len() as int] == TypeBound::Linear); }
        if any_linear(o) { let k = choose|k: int| 0 <= k < o.len() && o[k] == TypeBound::Linear; assert(v@[k] == TypeBound::Linear); }
        if any_linear(v@) { let k = choose|k: int| 0 <= k < v@.len() && v@[k] == TypeBound::Linear; if k < o.len() { assert(o[k] == TypeBound::Linear); } } } }
    proof { let a = rows@.take(i as int); let b = rows@.take(i as int + 1); assert(linear_row(*row) == here);
      if linear_rows(a) { let k = choose|k: int| #![trigger a[k]] 0 <= k < a.len() && linear_row(a[k]); assert(b[k] == a[k]); }
      if here { assert(b[i as int] == *row); }
      if linear_rows(b) { let k = choose|k: int| #![trigger b[k]] 0 <= k < b.len() && linear_row(b[k]); if k < a.len() { assert(a[k] == b[k]); } } } }
  proof { assert(rows@.take(rows@.len() as int) =~= rows@); } v }
pub fn all_empty(rows: &Vec<TypeRow>) -> (r: bool) ensures r == (forall|i: int| #![trigger rows@[i]] 0 <= i < rows@.len() ==> rows@[i]@ == Seq::<Type>::empty())
{ for i in 0..rows.len() invariant forall|k: int| #![trigger rows@[k]] 0 <= k < i ==> rows@[k]@ == Seq::<Type>::empty() { if rows[i].types.len() != 0 { assert(rows@[i as int]@.len() != 0); return false; } assert(rows@[i as int]@ =~= Seq::<Type>::empty()); } true }
pub fn fits_u8(n: usize) -> (r: bool) ensures r == (n <= 255) { n <= 255 }
'''
SUMRULES = FN + [(r'\bvariants\.into_iter\(\)\.map\(Into::into\)\.collect_vec\(\)', 'variants'), (r'u8::try_from\((\w+)\)\.is_ok\(\)', r'fits_u8(\1)'), (r'rows\.iter\(\)\.all\(TypeRow::is_empty\)', 'all_empty(&rows)'),
    (r'(\w+)\.iter\(\)\s*\.flat_map\(TypeRow::iter\)\s*\.map\(Type::least_upper_bound\)', r'bounds_of_rows(\1)'), (r'\buse TypeBound::\{[^}]*\};', ''), (r'(?<![:\w])(Linear|Copyable)\b', r'TypeBound::\1')]
GEN = 'pub open spec fn rows_of(s: SumType) -> Seq<Seq<Type>> { match s { SumType::Unit { size } => Seq::new(size as nat, |i: int| Seq::empty()), SumType::General { rows } => Seq::new(rows@.len(), |i: int| rows@[i]@) } }'
HELP = '''
proof fn lemma_lub_step(s: Seq<TypeBound>, i: int) requires 0 <= i < s.len() ensures lub(s.take(i + 1)) == join(lub(s.take(i)), s[i]), s[i] == TypeBound::Linear ==> lub(s) == TypeBound::Linear
{ let a = s.take(i); let b = s.take(i + 1);
  if any_linear(a) { let k = choose|k: int| 0 <= k < a.len() && a[k] == TypeBound::Linear; assert(b[k] == TypeBound::Linear); }
  if s[i] == TypeBound::Linear { assert(b[i] == TypeBound::Linear); }
  if any_linear(b) { let k = choose|k: int| 0 <= k < b.len() && b[k] == TypeBound::Linear; if k < i { assert(a[k] == TypeBound::Linear); } } }
proof fn lemma_sum(t: TypeEnum) ensures t matches TypeEnum::Sum(s) ==> linear_e(t) == linear_sum(s) { match t { TypeEnum::Sum(SumType::General { rows }) => assert(linear_e(t) == linear_rows(rows@)), _ => {} } }
pub open spec fn rows_view(v: Seq<TypeRow>) -> Seq<Seq<Type>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn wf_sum(s: SumType) -> bool { match s { SumType::Unit { .. } => true, SumType::General { rows } => wf_rows(rows@) } }
pub open spec fn linear_sum(s: SumType) -> bool { match s { SumType::Unit { .. } => false, SumType::General { rows } => linear_rows(rows@) } }
pub fn empty_row() -> (r: TypeRow) ensures r@.len() == 0 { TypeRow { types: Vec::new() } }
pub fn tget(v: &Vec<Term>, i: usize) -> (r: Option<&Term>) ensures match r { Some(x) => i < v@.len() && *x == v@[i as int], None => i >= v@.len() } { if i < v.len() { Some(&v[i]) } else { None } }
'''
def self_unit(s):
    m = next((m for m in s.finditer(r'pub const UNIT: Self = Self\(')), None)
    if not m: raise AnchorLost('Type::UNIT')
    e = m.end() - 1
    return 'Type' + s.t[e:s.match[e] + 1]
TRANS = '''
pub fn bool_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub open spec fn wf_args(v: Seq<Term>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> wf_term(v[i]) }
/// a caller's replacement of extension types: any answer, as long as a type it returns was built by the constructors
pub trait TypeTransformer { fn apply_custom(&self, t: &CustomType) -> (r: Result<Option<Type>, SignatureError>) ensures r matches Ok(Some(t)) ==> wf(t); }
/// `ty.get_type_def(&ty.get_extension()?)?.instantiate(ty.args())`: the extension and the definition are looked up outside the types
#[verifier::external_body] pub fn reinstantiate(t: &CustomType) -> (r: Result<CustomType, SignatureError>) requires wf_args(t.args@) ensures r matches Ok(c) ==> wf_args(c.args@) { unimplemented!() }
#[verifier::external_body] pub fn try_from_rv(v: RowVariable) -> (r: Result<RowVariable, RowVariable>) ensures r matches Ok(x) ==> x == v { unimplemented!() }
#[verifier::external_body] pub fn qb_t() -> (r: Type) ensures wf(r) { unimplemented!() }
#[verifier::external_body] pub fn usize_t() -> (r: Type) ensures wf(r) { unimplemented!() }
// `for item in slice { any_change |= item.transform(tr)?; }` over each element type
'''
for n, (t, e, w, get) in {'terms': ('Vec<Term>', 'Term', 'wf_term', 'v'), 'rows': ('Vec<TypeRow>', 'TypeRow', 'wf_row', 'v'), 'types': ('TypeRow', 'Type', 'wf', 'v.types')}.items():
    TRANS += f'''#[verifier::exec_allows_no_decreases_clause] pub fn transform_{n}<X: TypeTransformer>(v: &mut {t}, tr: &X) -> (r: Result<bool, SignatureError>)
 requires forall|i: int| #![trigger old({get.split('.')[0]}){get[1:]}@[i]] 0 <= i < old(v){get[1:]}@.len() ==> {w}(old(v){get[1:]}@[i]) ensures r is Ok ==> forall|i: int| #![trigger final(v){get[1:]}@[i]] 0 <= i < final(v){get[1:]}@.len() ==> {w}(final(v){get[1:]}@[i])
{{ let mut any_change = false; let mut i: usize = 0;
  while i < {get}.len() invariant i <= {get}@.len(), forall|k: int| #![trigger {get}@[k]] 0 <= k < {get}@.len() ==> {w}({get}@[k]) {{ let ch = {get}[i].transform(tr)?; any_change = any_change || ch; i = i + 1; }}
  Ok(any_change) }}
'''
LUB = '''ensures r == lub(tags@),'''
def units():
    u = Unit('t01'); data(u); u.text(SPEC); u.text(ITERS); u.text(GEN); u.text(HELP)
    s = src('hugr-core/src/types.rs'); tr = src(T + '/type_row.rs'); rv = src(T + '/row_var.rs'); cu = src(T + '/custom.rs'); td = src('hugr-core/src/extension/type_def.rs'); se = src(T + '/serialize.rs')
    R = SUMRULES
    u.text('impl TypeBound {')
    b = s.impl(r'TypeBound\s*\{')
    u.fn(s.fn('contains', b), 'ensures r == (self == TypeBound::Linear || other == TypeBound::Copyable),', rules=R + [(r'matches!\((.*?), (\(TypeBound::Linear, _\) \| \(_, TypeBound::Copyable\))\)', r'(match \1 { \2 => true, _ => false })')], obligation='TypeBound::contains')
    u.fn(s.fn('union', b), 'ensures r == join(self, other),', rules=R + [(r'debug_assert!\(([^;]*)\);', r'let dbg = \1; assert(dbg);')], obligation='TypeBound::union')
    u.text('}')
    u.fn(s.fn('least_upper_bound'), LUB, rules=R + [FOLD],
         sig='pub fn least_upper_bound(tags: Vec<TypeBound>) -> (r: TypeBound)',
         pre='proof { assert(tags@.take(tags@.len() as int) =~= tags@); }', loops=[('''invariant at <= tags.len(), tags@.take(tags@.len() as int) == tags@, !done ==> acc == lub(tags@.take(at as int)), done ==> acc == lub(tags@) && any_linear(tags@), done || acc == TypeBound::Copyable || acc == TypeBound::Linear
 ensures acc == lub(tags@)
 decreases tags.len() - at''', 'proof { lemma_lub_step(tags@, at as int); assert(tags@.take(tags@.len() as int) =~= tags@); }')], obligation='least_upper_bound')

    ok = lambda res, e: f'ensures {res}.0 == ({e}), {res}.1 == bound_of({res}), wf({res}),'
    u.text('impl RowVariable {')
    u.fn(rv.fn('bound', rv.impl(r'MaybeRV for RowVariable\s*\{')), 'ensures r == self.1,', rules=R, sig='pub fn bound(&self) -> (r: TypeBound)', obligation='RowVariable::bound')
    u.text('}\nimpl CustomType {')
    c = cu.impl(r'CustomType\s*\{')
    u.fn(cu.fn('bound', c), 'ensures r == self.bound,', rules=R, obligation='CustomType::bound')
    u.fn(cu.fn('args', c), 'ensures r@ == self.args@,', rules=R, sig='pub fn args(&self) -> (r: &Vec<Term>)', obligation='CustomType::args')
    u.fn(cu.fn('new', c), 'ensures r.bound == bound, r.args == args,', rules=R + [(r'\bid: id\.into\(\)', 'id'), (r'args\.into\(\)', 'args'), (r'extension_ref\.clone\(\)', '*extension_ref')],
         sig='pub fn new(id: Opaque, args: Vec<Term>, extension: Opaque, bound: TypeBound, extension_ref: &Opaque) -> (r: CustomType)', obligation='CustomType::new')
    u.text('}\nimpl TypeEnum {')
    u.fn(imp(s, r'<RV: MaybeRV>\s*TypeEnum<RV>\s*\{', 'least_upper_bound'), 'requires wf_enum(*self), ensures r == bound_e(*self),', rules=R, obligation='TypeEnum::least_upper_bound',
         pre='proof { lemma_sum(*self); }')
    u.text('}\nimpl SumType {')
    st = s.impl(r'SumType\s*\{')
    u.fn(s.fn('new_unary', st), 'ensures r == (SumType::Unit { size }),', rules=R, obligation='SumType::new_unary')
    u.fn(s.fn('new', st), 'requires wf_rows(variants@), ensures rows_of(r) =~= rows_view(variants@), wf_sum(r), match r { SumType::Unit { .. } => !linear_rows(variants@), SumType::General { rows } => rows == variants },', rules=R,
         sig='pub fn new(variants: Vec<TypeRow>) -> (r: SumType)', obligation='SumType::new')
    one = [(r'Self::new\(\[types\.into\(\)\]\)', 'Self::new(vec![types])'), (r'Self::new\(\[vec!\[\]\.into\(\), types\.into\(\)\]\)', '{ let e = empty_row(); proof { assert(e@ =~= Seq::empty()); } let v = vec![e, types]; proof { assert(rows_view(v@) =~= seq![Seq::empty(), types@]); } Self::new(v) }')]
    u.fn(s.fn('new_tuple', st), 'requires wf_row(types), ensures rows_of(r) =~= seq![types@], wf_sum(r),', rules=R + one, sig='pub fn new_tuple(types: TypeRow) -> (r: SumType)', obligation='SumType::new_tuple')
    u.fn(s.fn('new_option', st), 'requires wf_row(types), ensures rows_of(r) =~= seq![Seq::empty(), types@], wf_sum(r),', rules=R + one, sig='pub fn new_option(types: TypeRow) -> (r: SumType)', obligation='SumType::new_option')
    u.text('}\nimpl Type {')
    f = lambda n: imp(s, TB, n)
    u.fn(f('new'), 'requires wf_enum(type_e), ' + ok('r', 'type_e'), rules=R, sig='pub fn new(type_e: TypeEnum) -> (r: Type)', obligation='Type::new')
    u.fn(f('least_upper_bound'), 'ensures r == self.1, wf(*self) ==> r == bound_of(*self),', rules=R, obligation='Type::least_upper_bound')
    u.fn(f('copyable'), 'ensures wf(*self) ==> r == !linear(*self),', rules=R, obligation='Type::copyable')
    u.fn(f('as_type_enum'), 'ensures *r == self.0,', rules=R, sig='pub fn as_type_enum(&self) -> (r: &TypeEnum)', obligation='Type::as_type_enum')
    u.fn(f('new_function'), 'requires wf_row(fun_ty.input), wf_row(fun_ty.output), ensures r.0 matches TypeEnum::Function(b) && *b == fun_ty, !linear(r), wf(r),', rules=R + [(r'fun_ty\.into\(\)', 'fun_ty')], sig='pub fn new_function(fun_ty: FuncValueType) -> (r: Type)', obligation='Type::new_function')
    u.fn(f('new_extension'), 'requires forall|i: int| #![trigger opaque.args@[i]] 0 <= i < opaque.args@.len() ==> wf_term(opaque.args@[i]), ' + ok('r', 'TypeEnum::Extension(opaque)') , rules=R, sig='pub fn new_extension(opaque: CustomType) -> (r: Type)', obligation='Type::new_extension')
    u.fn(f('new_alias'), ok('r', 'TypeEnum::Alias(alias)'), rules=R, sig='pub fn new_alias(alias: AliasDecl) -> (r: Type)', obligation='Type::new_alias')
    u.fn(f('new_unit_sum'), 'ensures r.0 == TypeEnum::Sum(SumType::Unit { size }), !linear(r), wf(r),', rules=R, sig='pub fn new_unit_sum(size: u8) -> (r: Type)', obligation='Type::new_unit_sum')
    u.fn(f('new_var_use'), ok('r', 'TypeEnum::Variable(idx, bound)'), rules=R, sig='pub fn new_var_use(idx: usize, bound: TypeBound) -> (r: Type)', obligation='Type::new_var_use')
    SUMOK = 'ensures r.0 matches TypeEnum::Sum(sm) && rows_of(sm) =~= rows_view({v}), linear(r) == linear_rows({v}), wf(r),'
    u.fn(f('new_sum'), 'requires wf_rows(variants@), ' + SUMOK.format(v='variants@'), rules=R, sig='pub fn new_sum(variants: Vec<TypeRow>) -> (r: Type)', obligation='Type::new_sum',
         post_rules=[(r'Self::new\((TypeEnum::Sum\(SumType::new\(variants\)\))\)', r'{ let ghost vs = variants@; let e = \1; let r = Self::new(e); proof { lemma_sum(r.0); } r }')])
    u.text('pub fn unit() -> (r: Type) ensures ' + 'r.0 == TypeEnum::Sum(SumType::Unit { size: 1 }), !linear(r), wf(r) { ' + self_unit(s) + ' }')
    u.fn(f('new_tuple'), 'requires wf_row(types), ensures r.0 matches TypeEnum::Sum(sm) && rows_of(sm) =~= seq![types@], linear(r) == linear_row(types), wf(r),',
         rules=R + [(r'types\.into\(\)', 'types'), (r'row\.len\(\)', '({ proof { if row.types@.len() == 0 { assert(row.types@ =~= Seq::empty()); } } row.types.len() })'), (r'Self::UNIT', 'Self::unit()'), (r'Self::new_sum\(\[row\]\)', '{ let v = vec![row]; let r = Self::new_sum(v); assert(linear_rows(v@) == linear_row(row)) by { assert(v@[0] == row); } assert(rows_view(v@) =~= seq![row@]); r }')], sig='pub fn new_tuple(types: TypeRow) -> (r: Type)', obligation='Type::new_tuple')
    u.fn(imp(s, r'TypeRV\s*\{', 'new_row_var_use'), ok('r', 'TypeEnum::RowVar(RowVariable(idx, bound))'), rules=R, sig='pub fn new_row_var_use(idx: usize, bound: TypeBound) -> (r: Type)', obligation='Type::new_row_var_use')
    u.fn(f('into_'), 'ensures r == self,', rules=R + [(r'rv\.into\(\)', 'rv')], sig='pub fn into_(self) -> (r: Type)', obligation='Type::into_')
    u.fn(f('try_into_type'), 'ensures match r { Ok(t) => t == self && !(self.0 is RowVar), Err(v) => self.0 == TypeEnum::RowVar(v) },', rules=R + [(r'TypeEnum::RowVar\(rv\) => Err\(rv\.as_rv\(\)\.clone\(\)\)\?', 'TypeEnum::RowVar(rv) => return Err(rv.clone())')], sig='pub fn try_into_type(self) -> (r: Result<Type, RowVariable>)', obligation='Type::try_into_type')
    u.fn(s.fn('from', s.impl(r'<RV: MaybeRV>\s*From<SumType> for TypeBase<RV>\s*\{')), 'requires wf_sum(sum), ensures r.0 matches TypeEnum::Sum(sm) && rows_of(sm) =~= rows_of(sum), linear(r) == linear_sum(sum), wf(r),', rules=R, sig='pub fn from_sum(sum: SumType) -> (r: Type)', obligation='Type::from<SumType>')
    u.text('}')
    u.text(strip_attrs(td.item(r'pub enum TypeDefBound\b')))
    t = strip_attrs(td.item(r'pub struct TypeDef\b')); u.text(re.sub(r'(?m)^(\s*)(?:pub )?(\w+\s*:)', r'\1pub \2', subst(t, [(r'\bTypeParam\b', 'Term')] + DATA)))
    u.text('''pub open spec fn def_bound(d: TypeDefBound, args: Seq<Term>) -> TypeBound { match d { TypeDefBound::Explicit { bound } => bound,
  TypeDefBound::FromParams { indices } => if indices@.len() == 0 || (exists|i: int| #![trigger indices@[i]] 0 <= i < indices@.len() && linear(args[indices@[i] as int]->Runtime_0)) { TypeBound::Linear } else { TypeBound::Copyable } } }
/// the declared indices refer to arguments that are types
pub open spec fn refers_to_types(d: TypeDefBound, args: Seq<Term>) -> bool { match d { TypeDefBound::Explicit { .. } => true, TypeDefBound::FromParams { indices } => forall|i: int| #![trigger indices@[i]] 0 <= i < indices@.len() ==> indices@[i] < args.len() && args[indices@[i] as int] is Runtime } }
/// arguments that pass the kind check are types where the bound refers to them (T02 decides the check itself)
pub uninterp spec fn accepted(args: Seq<Term>, params: Seq<Term>) -> bool;
pub open spec fn typed_args_ok(d: TypeDef, args: Seq<Term>) -> bool { accepted(args, d.params@) ==> refers_to_types(d.bound, args) }
#[verifier::external_body] pub fn check_term_types(a: &Vec<Term>, p: &Vec<Term>) -> (r: Result<(), SignatureError>) ensures r is Ok ==> accepted(a@, p@) { unimplemented!() }
impl TypeDef {''')
    d = td.impl(r'TypeDef\s*\{')
    MAP = (r'(?s)least_upper_bound\(indices\.iter\(\)\.map\(\|(\w+)\| (\{.*?\n\s*\})\)\)',
           r'''{ let mut v: Vec<TypeBound> = Vec::new(); let mut at: usize = 0;
   while at < indices.len() invariant at <= indices.len(), v@.len() == at, refers_to_types(self.bound, args@), self.bound == (TypeDefBound::FromParams { indices: *indices }), forall|k: int| #![trigger args@[k]] 0 <= k < args@.len() ==> wf_term(args@[k]),
     forall|k: int| #![trigger v@[k]] 0 <= k < at ==> (v@[k] == TypeBound::Linear <==> linear(args@[indices@[k] as int]->Runtime_0)) decreases indices.len() - at
   { let \1 = &indices[at]; assert(indices@[at as int] < args@.len() && args@[indices@[at as int] as int] is Runtime && wf_term(args@[indices@[at as int] as int])); let b = \2; v.push(b); at = at + 1; }
   proof { if any_linear(v@) { let k = choose|k: int| 0 <= k < v@.len() && v@[k] == TypeBound::Linear; assert(linear(args@[indices@[k] as int]->Runtime_0)); }
     if exists|i: int| #![trigger indices@[i]] 0 <= i < indices@.len() && linear(args@[indices@[i] as int]->Runtime_0) { let k = choose|i: int| #![trigger indices@[i]] 0 <= i < indices@.len() && linear(args@[indices@[i] as int]->Runtime_0); assert(v@[k] == TypeBound::Linear); } }
   least_upper_bound(v) }''')
    u.fn(td.fn('bound', d), 'requires refers_to_types(self.bound, args@), forall|k: int| #![trigger args@[k]] 0 <= k < args@.len() ==> wf_term(args@[k]), ensures r == def_bound(self.bound, args@),', 
         post_rules=[MAP], rules=R + [(r'let args: Vec<_> = args\.iter\(\)\.collect\(\);', ''), (r'args\.get\(\*i\)', 'tget(args, *i)'), (r'panic!\([^)]*\)', '{ assert(false); TypeBound::Linear }')], sig='pub fn bound(&self, args: &Vec<Term>) -> (r: TypeBound)', obligation='TypeDef::bound')
    u.fn(td.fn('instantiate', d), 'requires typed_args_ok(*self, args@), forall|k: int| #![trigger args@[k]] 0 <= k < args@.len() ==> wf_term(args@[k]), ensures r matches Ok(t) ==> wf_args(t.args@) && t.args@ == args@ && t.bound == def_bound(self.bound, args@),',
         rules=R + [(r'let args = args\.into\(\);', ''), (r'self\.name\(\)\.clone\(\)', 'self.name'), (r'self\.extension_id\(\)\.clone\(\)', 'self.extension')], sig='pub fn instantiate(&self, args: Vec<Term>) -> (r: Result<CustomType, SignatureError>)', obligation='TypeDef::instantiate')
    u.text('}')
    # transformation keeps every cached bound right
    u.text(TRANS)
    TRR = R + [(r'Result<bool, T::Err>', 'Result<bool, SignatureError>'), (r'<T: TypeTransformer>', '<X: TypeTransformer>'), (r'&T\b', '&X')]
    def tf(f, contract, name, owner, extra=()):
        u.text(f'impl {owner} {{')
        u.fn(f, contract, rules=TRR + list(extra), sig=f'#[verifier::exec_allows_no_decreases_clause] pub fn transform<X: TypeTransformer>(&mut self, tr: &X) -> (r: Result<bool, SignatureError>)', obligation=name)
        u.text('}')
    ENS = 'ensures r is Ok ==> {w}(*final(self)),'
    tf(s.fn('transform', s.impl(r'<RV: MaybeRV>\s*Transformable for TypeBase<RV>\s*\{')), 'requires wf(*old(self)), ' + ENS.format(w='wf'), 'Type::transform', 'Type',
       [(r'custom_type\.args_mut\(\)\.transform\(tr\)', 'transform_terms(custom_type.args_mut(), tr)'),
        (r'custom_type\s*\.get_type_def\(&custom_type\.get_extension\(\)\?\)\?\s*\.instantiate\(custom_type\.args\(\)\)\?', 'reinstantiate(custom_type)?')])
    tf(s.fn('transform', s.impl(r'Transformable for SumType\s*\{')), 'requires wf_sum(*old(self)), ' + ENS.format(w='wf_sum'), 'SumType::transform', 'SumType', [(r'rows\.transform\(tr\)', 'transform_rows(rows, tr)')])
    tf(imp(tr, r'<RV: MaybeRV>\s*Transformable for TypeRowBase<RV>\s*\{', 'transform'), 'requires wf_row(*old(self)), ' + ENS.format(w='wf_row'), 'TypeRow::transform', 'TypeRow', [(r'self\.to_mut\(\)\.transform\(tr\)', 'transform_types(self, tr)')])
    sg = src(T + '/signature.rs')
    tf(imp(sg, r'<RV: MaybeRV>\s*Transformable for FuncTypeBase<RV>\s*\{', 'transform'), 'requires wf_row(old(self).input), wf_row(old(self).output), ensures r is Ok ==> wf_row(final(self).input) && wf_row(final(self).output),', 'FuncValueType::transform', 'FuncValueType', [(r'Ok\((.*?)\? \| (.*?)\?\)$', r'Ok(bool_or(\1?, \2?))'), (r'(self\.\w+\.transform\(tr\)\?)\s*\|\s*(self\.\w+\.transform\(tr\)\?)', r'bool_or(\1, \2)')])
    tp = src(T + '/type_param.rs')
    tf(tp.fn('transform', tp.impl(r'Transformable for Term\s*\{')), 'requires wf_term(*old(self)), ' + ENS.format(w='wf_term'), 'Term::transform', 'Term', [(r'(elems|lists|tuples)\.transform\(tr\)', r'transform_terms(\1, tr)')])
    u.text('impl CustomType {')
    u.fn(cu.fn('args_mut', cu.impl(r'CustomType\s*\{')), 'ensures *r == old(self).args, final(self).args == *final(r), final(self).bound == old(self).bound,', rules=R, sig='pub fn args_mut(&mut self) -> (r: &mut Vec<Term>)', obligation='CustomType::args_mut')
    u.text('}')
    # reading a type back
    t = strip_attrs(se.item(r'enum SerSimpleType\b')); u.text('pub ' + subst(t, DATA))
    u.text('impl Type {')
    u.fn(imp(se, r'<RV: MaybeRV>\s*TryFrom<SerSimpleType> for TypeBase<RV>\s*\{', 'try_from'), '''requires match value { SerSimpleType::G(f) => wf_row(f.input) && wf_row(f.output), SerSimpleType::Sum(sm) => wf_sum(sm), SerSimpleType::Opaque(c) => wf_args(c.args@), _ => true }, ensures r matches Ok(t) ==> wf(t),''',
         rules=R + [(r'st\.into\(\)', 'Type::from_sum(st)'), (r'RV::try_from_rv\(RowVariable\(i, b\)\)\s*\.map_err\((?:[^()]|\([^()]*\))*\)\?', '(match try_from_rv(RowVariable(i, b)) { Ok(x) => x, Err(_) => return Err(SignatureError(0)) })')], sig='pub fn read_back(value: SerSimpleType) -> (r: Result<Type, SignatureError>)', obligation='Type::try_from<SerSimpleType>')
    u.text('}')
    return [u]
ASSUMPTIONS = []
