from p_t04 import *
import p_t04
EXEC = 't05'
SPEC = '''
// ---- constants ----
/// an extension constant and a program, as far as this property sees them
pub struct OpaqueValue(pub u64);
pub struct Hugr(pub u64);
pub struct CustomCheckFailure(pub u64);
/// the type an extension constant reports, and whether it accepts itself
pub uninterp spec fn ext_type(e: OpaqueValue) -> Type;
pub uninterp spec fn ext_ok(e: OpaqueValue) -> bool;
/// the monomorphic function type a program defines, if it does
pub uninterp spec fn mono(h: Hugr) -> Option<FuncValueType>;
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SumType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl OpaqueValue {
#[verifier::external_body] pub fn get_type(&self) -> (r: Type) ensures r == ext_type(*self), !(r.0 is RowVar) /* what a method returning `Type` gives is a type, not a row variable: `Type` rules those out statically */ { unimplemented!() }
#[verifier::external_body] pub fn check(&self) -> (r: Result<(), CustomCheckFailure>) ensures r is Ok == ext_ok(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn mono_fn_type(h: &Hugr) -> (r: Result<FuncValueType, ConstTypeError>) ensures match r { Ok(f) => mono(*h) == Some(f), Err(_) => mono(*h) is None } { unimplemented!() }
// ---- the type of a constant and what it means to inhabit one ----
pub open spec fn typed(v: Value) -> bool { v matches Value::Function { hugr } ==> mono(*hugr) is Some }
pub open spec fn has_type(v: Value, t: Type) -> bool { match v { Value::Extension { e } => same(ext_type(e), t), Value::Sum(s) => same(Type(TypeEnum::Sum(s.sum_type), bound_spec(TypeEnum::Sum(s.sum_type))), t), Value::Function { hugr } => same(Type(TypeEnum::Function(Box::new(mono(*hugr)->0)), TypeBound::Copyable), t) } }
pub open spec fn all_typed(v: Seq<Value>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> typed(v[i]) }
/// no row variables: the variant is a row of types
pub open spec fn concrete(r: Seq<Type>) -> bool { forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> !(r[i].0 is RowVar) }
/// the values are an instance of variant `tag`
pub open spec fn instance(s: SumType, tag: usize, vs: Seq<Value>) -> bool { tag < count(s) && concrete(nth(s, tag as int)) && vs.len() == nth(s, tag as int).len() && forall|i: int| #![trigger vs[i]] 0 <= i < vs.len() ==> has_type(vs[i], nth(s, tag as int)[i]) }
/// a constant that inhabits its type, all the way down
pub open spec fn inhabits(v: Value) -> bool decreases v { typed(v) && match v { Value::Sum(s) => instance(s.sum_type, s.tag, s.values@) && forall|i: int| #![trigger s.values@[i]] 0 <= i < s.values@.len() ==> inhabits(s.values@[i]), _ => true } }
/// what the check looks at
pub open spec fn accepted(v: Value) -> bool decreases v { match v { Value::Extension { e } => ext_ok(e), Value::Function { hugr } => mono(*hugr) is Some, Value::Sum(s) => instance(s.sum_type, s.tag, s.values@) && forall|i: int| #![trigger s.values@[i]] 0 <= i < s.values@.len() ==> accepted(s.values@[i]) } }
pub open spec fn all_accepted_to(v: Seq<Value>, n: int) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < n ==> accepted(v[i]) }
pub proof fn each_is_valid(v: Seq<Value>) requires all_accepted_to(v, v.len() as int) ensures all_typed(v), all_inhabit(v) { assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies typed(v[i]) && inhabits(v[i]) by { what_the_check_accepts_inhabits_its_type(v[i]); } }
pub open spec fn all_inhabit(v: Seq<Value>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> inhabits(v[i]) }
pub proof fn lemma_has_type(v: Value, a: Type, b: Type) requires same(a, b) ensures has_type(v, a) == has_type(v, b)
{ let x = match v { Value::Extension { e } => ext_type(e), Value::Sum(s) => Type(TypeEnum::Sum(s.sum_type), bound_spec(TypeEnum::Sum(s.sum_type))), Value::Function { hugr } => Type(TypeEnum::Function(Box::new(mono(*hugr)->0)), TypeBound::Copyable) };
  equality_is_symmetric(a, b); if same(x, a) { equality_is_transitive(x, a, b); } if same(x, b) { equality_is_transitive(x, b, a); } }
/// `row.into_owned().into_iter().map(TryInto::try_into).collect::<Result<Vec<_>, _>>()`
pub fn try_types(row: TypeRow) -> (r: Result<Vec<Type>, RowVariable>) ensures match r { Ok(v) => v@ == row@ && concrete(row@), Err(x) => exists|i: int| 0 <= i < row@.len() && row@[i].0 == TypeEnum::RowVar(x) }
{ let mut v: Vec<Type> = Vec::new(); for i in 0..row.types.len() invariant v@ =~= row@.take(i as int), forall|k: int| #![trigger row@[k]] 0 <= k < i ==> !(row@[k].0 is RowVar) { match row.types[i].clone().try_into_type() { Ok(t) => { v.push(t); }, Err(x) => { assert(row@[i as int].0 == TypeEnum::RowVar(x)); return Err(x); } } }
  proof { assert(row@.take(row@.len() as int) =~= row@); } Ok(v) }
/// `values.iter().map(Value::get_type).collect_vec()`
pub fn types_of(values: &Vec<Value>) -> (r: Vec<Type>) requires all_typed(values@) ensures r@.len() == values@.len(), concrete(r@), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> has_type(values@[i], r@[i])
{ let mut v: Vec<Type> = Vec::new(); for i in 0..values.len() invariant all_typed(values@), v@.len() == i, concrete(v@), forall|k: int| #![trigger v@[k]] 0 <= k < i ==> has_type(values@[k], v@[k]) { assert(typed(values@[i as int])); let t = values[i].get_type(); v.push(t); } v }
pub enum RowError { RowVarWhereTypeExpected { var: RowVariable }, Other }
pub fn row_from(types: Vec<Type>) -> (r: TypeRow) ensures r@ == types@ { TypeRow { types } }
/// itertools::zip_eq panics when the lengths differ
pub fn equal_lengths(a: usize, b: usize) requires a == b { }
pub fn expect_ok<T, E>(r: Result<T, E>) -> (x: T) requires r is Ok ensures r == Ok::<T, E>(x) { match r { Ok(x) => x, Err(_) => vstd::pervasive::unreached() } }
'''
LEMMA = {'what_the_check_accepts_inhabits_its_type': '''pub proof fn what_the_check_accepts_inhabits_its_type(v: Value) requires accepted(v) ensures inhabits(v), typed(v) decreases v
{ if let Value::Sum(s) = v { assert forall|i: int| #![trigger s.values@[i]] 0 <= i < s.values@.len() implies inhabits(s.values@[i]) by { what_the_check_accepts_inhabits_its_type(s.values@[i]); } } }''',
'values_built_from_inhabitants_inhabit_their_type': '''pub proof fn values_built_from_inhabitants_inhabit_their_type(tag: usize, values: Vec<Value>, s: SumType) requires instance(s, tag, values@), all_inhabit(values@) ensures inhabits(Value::Sum(Sum { tag, values, sum_type: s }))
{ let v = Value::Sum(Sum { tag, values, sum_type: s }); assert forall|i: int| #![trigger values@[i]] 0 <= i < values@.len() implies inhabits(values@[i]) by {} }'''}
def units():
    u = Unit('t05'); data(u); emit(u)
    for t in p_t04.LEMMAS.values(): u.text(t)
    s = src('hugr-core/src/types.rs'); ck = src(T + '/check.rs'); co = src('hugr-core/src/ops/constant.rs'); tr = src(T + '/type_row.rs')
    V = co.impl(r'Value\s*\{')
    val = co.fn('validate', V)
    u.text(SPEC)
    fields = lambda t: re.sub(r'(?m)^(\s*)(?:pub )?(\w+\s*:)', r'\1pub \2', t)
    u.text(subst(strip_attrs(ck.item(r'pub enum SumTypeError\b')), DATA))
    u.text(subst(strip_attrs(co.item(r'pub struct Sum\b')), DATA)); u.text(subst(strip_attrs(co.item(r'pub enum Value\b')), DATA))
    u.text('pub enum ConstTypeError { SumType(SumTypeError), CustomCheckFailure(CustomCheckFailure), Other }')
    u.trust('an extension constant reports one type; a program defines a monomorphic function type or not (mono_fn_type); extraction of SumTypeError, Sum and Value keeps their fields')
    R = FN
    u.text('impl TypeRow {')
    u.fn(tr.fn('try_from', tr.impl(r'TryFrom<TypeRowRV> for TypeRow\s*\{')), 'ensures match r { Ok(x) => x@ == value@ && concrete(value@), Err(e) => !concrete(value@) && e is RowVarWhereTypeExpected },', sig='pub fn try_from(value: TypeRow) -> (r: Result<TypeRow, RowError>)', obligation='TypeRow::try_from<TypeRowRV>',
         rules=R + [(r'Self::from\(\s*value\s*\.into_owned\(\)\s*\.into_iter\(\)\s*\.map\(std::convert::TryInto::try_into\)\s*\.collect::<Result<Vec<_>, _>>\(\)\s*\.map_err\(\|(\w+)\| (SignatureError::\w+ \{ \w+ \})\)\?,?\s*\)', r'row_from(match try_types(value) { Ok(x) => x, Err(\1) => return Err(\2) })'), (r'\bSignatureError\b', 'RowError')])
    u.text('}\nimpl Type {')
    f = lambda n: imp(s, TB, n)
    u.fn(f('try_into_type'), 'ensures match r { Ok(t) => t == self && !(self.0 is RowVar), Err(v) => self.0 == TypeEnum::RowVar(v) },', rules=R + [(r'TypeEnum::RowVar\(rv\) => Err\(rv\.as_rv\(\)\.clone\(\)\)\?', 'TypeEnum::RowVar(rv) => return Err(rv.clone())')], sig='pub fn try_into_type(self) -> (r: Result<Type, RowVariable>)', obligation='TypeBase::try_into_type')
    u.fn(f('new_function'), 'ensures r.0 matches TypeEnum::Function(b) && *b == fun_ty && r.1 == TypeBound::Copyable,', rules=R + [(r'fun_ty\.into\(\)', 'fun_ty')], sig='pub fn new_function(fun_ty: FuncValueType) -> (r: Type)', obligation='TypeBase::new_function')
    u.text('}\nimpl SumType {')
    st = s.impl(r'SumType\s*\{')
    u.text('/// `Self::new([rows..])`: an array of rows collected\npub fn new1(a: TypeRow) -> (r: SumType) ensures count(r) == 1, nth(r, 0) == a@ { let mut v = Vec::new(); v.push(a); Self::new(v) }\npub fn new2(a: TypeRow, b: TypeRow) -> (r: SumType) ensures count(r) == 2, nth(r, 0) == a@, nth(r, 1) == b@ { let mut v = Vec::new(); v.push(a); v.push(b); Self::new(v) }')
    u.fn(s.fn('new_tuple', st), 'ensures count(r) == 1, nth(r, 0) == types@,', rules=R + [(r'Self::new\(\[types\.into\(\)\]\)', 'Self::new1(types)')], sig='pub fn new_tuple(types: TypeRow) -> (r: SumType)', obligation='SumType::new_tuple')
    u.fn(s.fn('new_option', st), 'ensures count(r) == 2, nth(r, 0).len() == 0, nth(r, 1) == types@,', rules=R + [(r'Self::new\(\[vec!\[\]\.into\(\), types\.into\(\)\]\)', 'Self::new2(row_from(Vec::new()), types)')], sig='pub fn new_option(types: TypeRow) -> (r: SumType)', obligation='SumType::new_option')
    u.fn(ck.fn('check_type', ck.impl(r'super::SumType\s*\{')), 'requires all_typed(val@), ensures r is Ok <==> instance(*self, tag, val@), r matches Err(e) ==> match e { SumTypeError::InvalidTag { tag: t, num_variants } => t == tag && num_variants == count(*self) && tag >= count(*self), SumTypeError::WrongVariantLength { tag: t, expected, found } => t == tag && tag < count(*self) && expected == nth(*self, tag as int).len() && found == val@.len() && expected != found, SumTypeError::InvalidValueType { tag: t, index, .. } => t == tag && index < val@.len(), SumTypeError::VariantNotConcrete { tag: t, .. } => t == tag && tag < count(*self) && !concrete(nth(*self, tag as int)) },',
         sig='pub fn check_type(&self, tag: usize, val: &[Value]) -> (r: Result<(), SumTypeError>)', obligation='SumType::check_type',
         rules=R + [(r'(?s)self\s*\.get_variant\(tag\)\s*\.ok_or_else\(\|\| (SumTypeError::\w+ \{.*?\})\)\?;', r'(match self.get_variant(tag) { Some(x) => x, None => return Err(\1) });'),
                    (r'(?s)variant\.clone\(\)\.try_into\(\)\.map_err\(\|(\w+)\| (\{.*?\n\s*\})\)\?;', r'(match TypeRow::try_from(variant.clone()) { Ok(x) => x, Err(\1) => return Err(\2) });'),
                    (r'\bSignatureError::', 'RowError::'), (r'panic!\([^;]*\)', '{ assert(false); return Ok(()); }'), (r'variant\.len\(\)', 'variant.types.len()'),
                    (r'(?s)\bErr\((SumTypeError::\w+ \{(?:[^{}]|\{[^{}]*\})*\})\)\?;', r'return Err(\1);'),
                    (r'for \((\w+), \((\w+), (\w+)\)\) in itertools::zip_eq\(variant\.iter\(\), val\.iter\(\)\)\.enumerate\(\) \{', r'equal_lengths(variant.types.len(), val.len()); for \1 in 0..variant.types.len() { let \2 = &variant.types[\1]; let \3 = &val[\1]; assert(typed(val@[\1 as int]));'),
                    (r'if (\w+)\.get_type\(\) != \*(\w+) \{', r'let found_type = \1.get_type(); proof { if same(found_type, *\2) { lemma_has_type(*\1, found_type, *\2); } else if has_type(*\1, *\2) { lemma_unique(*\1, found_type, *\2); } } if !found_type.eq(\2) { assert(!has_type(val@[index as int], nth(*self, tag as int)[index as int]));')],
         loops=['invariant tag < count(*self), variant@ == nth(*self, tag as int), concrete(variant@), variant.types@.len() == val@.len(), all_typed(val@), forall|k: int| #![trigger val@[k]] 0 <= k < index ==> has_type(val@[k], variant@[k])'])
    u.text('''}
proof fn lemma_unique(v: Value, a: Type, b: Type) requires has_type(v, a), has_type(v, b) ensures same(a, b)
{ let x = match v { Value::Extension { e } => ext_type(e), Value::Sum(s) => Type(TypeEnum::Sum(s.sum_type), bound_spec(TypeEnum::Sum(s.sum_type))), Value::Function { hugr } => Type(TypeEnum::Function(Box::new(mono(*hugr)->0)), TypeBound::Copyable) };
  equality_is_symmetric(x, a); equality_is_transitive(a, x, b); }
impl Value {''')
    v = lambda n: co.fn(n, V)
    u.fn(v('get_type'), 'requires typed(*self), ensures has_type(*self, r), !(r.0 is RowVar),', sig='pub fn get_type(&self) -> (r: Type)', obligation='Value::get_type',
         rules=R + [(r'e\.get_type\(\)', '{ let r = e.get_type(); proof { every_type_equals_itself(r); } r }'), (r'sum_type\.clone\(\)\.into\(\)', '{ let r = Type::from_sum(sum_type.clone()); proof { let t = Type(TypeEnum::Sum(*sum_type), bound_spec(TypeEnum::Sum(*sum_type))); equality_is_symmetric(r, t); } r }'),
                    (r'mono_fn_type\(hugr\)\.unwrap_or_else\(\|e\| panic!\("\{\}", e\)\)', 'expect_ok(mono_fn_type(hugr))'), (r'Type::new_function\((\w+)\.into_owned\(\)\)', r'{ let r = Type::new_function(\1); proof { every_type_equals_itself(r); } r }')])
    OK = 'instance(%s, tag, items@)'
    u.fn(v('sum'), 'requires all_typed(items@), ensures r is Ok <==> instance(typ, tag, items@), r matches Ok(x) ==> x == Value::Sum(Sum { tag, values: items, sum_type: typ }) && (all_inhabit(items@) ==> inhabits(x)),', sig='pub fn sum(tag: usize, items: Vec<Value>, typ: SumType) -> (r: Result<Value, ConstTypeError>)', obligation='Value::sum',
         rules=R + [(r'items\.into_iter\(\)\.collect\(\)', 'items'), (r'typ\.check_type\(tag, &values\)\?;', 'match typ.check_type(tag, values.as_slice()) { Ok(_) => {}, Err(e) => return Err(ConstTypeError::SumType(e)) } proof { if all_inhabit(values@) { values_built_from_inhabitants_inhabit_their_type(tag, values, typ); } }')])
    EX = [(r'Self::sum\((.*)\)\s*\.(?:expect\("[^"]*"\)|unwrap\(\))', r'expect_ok(Self::sum(\1))'), (r'(\w+)\.into_iter\(\)(?:\.map\(Into::into\))?\.collect_vec\(\)', r'\1'), (r'(\w+)\.iter\(\)\.map\((?:Self|Value)::get_type\)\.collect_vec\(\)', r'types_of(&\1)'),
          (r'SumType::(new_tuple|new_option)\((\w+)\)', r'SumType::\1(row_from(\2))'), (r'self\.into\b', 'self')]
    INH = '(all_inhabit({v}@) ==> inhabits(r))'
    u.fn(v('tuple'), 'requires all_typed(items@), ensures r matches Value::Sum(s) && s.tag == 0 && s.values@ == items@ && count(s.sum_type) == 1, ' + INH.format(v='items') + ',', sig='pub fn tuple(items: Vec<Value>) -> (r: Value)', rules=R + EX, obligation='Value::tuple')
    u.fn(v('some'), 'requires all_typed(values@), ensures r matches Value::Sum(s) && s.tag == 1 && s.values@ == values@ && count(s.sum_type) == 2, ' + INH.format(v='values') + ',', sig='pub fn some(values: Vec<Value>) -> (r: Value)', rules=R + EX, obligation='Value::some')
    u.fn(v('none'), 'ensures inhabits(r), r matches Value::Sum(s) && s.tag == 0 && count(s.sum_type) == 2 && nth(s.sum_type, 0).len() == 0 && nth(s.sum_type, 1) == value_types@,', sig='pub fn none(value_types: TypeRow) -> (r: Value)', rules=R + [(r'Self::sum\(0, \[\], SumType::new_option\(value_types\)\)\.unwrap\(\)', 'expect_ok(Self::sum(0, Vec::new(), SumType::new_option(value_types)))')], obligation='Value::none')
    u.fn(v('unit'), 'ensures inhabits(r), r matches Value::Sum(s) && s.tag == 0 && s.values@.len() == 0 && count(s.sum_type) == 1,', sig='pub fn unit() -> (r: Value)', rules=R + [(r'vec!\[\]', 'Vec::new()')], obligation='Value::unit')
    u.fn(v('unit_sum'), 'ensures r is Ok <==> tag < size, r matches Ok(x) ==> inhabits(x) && (x matches Value::Sum(s) && s.tag == tag && s.sum_type is Unit && s.sum_type->size == size && s.values@.len() == 0),', rules=R + [(r'Self::sum\(tag, \[\], ', 'Self::sum(tag, Vec::new(), ')], sig='pub fn unit_sum(tag: usize, size: u8) -> (r: Result<Value, ConstTypeError>)', obligation='Value::unit_sum')
    US = lambda t, n: f'ensures inhabits(r), r matches Value::Sum(s) && s.tag == {t} && s.sum_type is Unit && s.sum_type->size == {n} && s.values@.len() == 0,'
    for n, t, k in (('unary_unit_sum', 0, 1), ('true_val', 1, 2), ('false_val', 0, 2)):
        u.fn(v(n), US(t, k), rules=R + [(r'(Self::unit_sum\(\w+, \w+\))\.(?:expect\("[^"]*"\)|unwrap\(\))', r'expect_ok(\1)')], sig=f'pub fn {n}() -> (r: Value)', obligation='Value::' + n)
    u.fn(v('from_bool'), 'ensures inhabits(r), r matches Value::Sum(s) && s.tag == (if b { 1int } else { 0 }) && s.sum_type is Unit && s.sum_type->size == 2 && s.values@.len() == 0,', rules=R, sig='pub fn from_bool(b: bool) -> (r: Value)', obligation='Value::from_bool')
    u.fn(v('function'), 'ensures r is Ok <==> mono(hugr) is Some, r matches Ok(x) ==> typed(x) && (x matches Value::Function { hugr: h } && *h == hugr),', rules=R + [(r'let hugr = hugr\.into\(\);', ''), (r'mono_fn_type\(&hugr\)\?;', 'let checked = mono_fn_type(&hugr)?;')], sig='pub fn function(hugr: Hugr) -> (r: Result<Value, ConstTypeError>)', obligation='Value::function')
    VALIDATE(u, val, R)
    S = co.impl(r'Sum\s*\{')
    u.fn(v('as_tuple'), 'ensures match r { Some(x) => (self matches Value::Sum(s) && count(s.sum_type) == 1 && x@ == s.values@), None => !(self matches Value::Sum(s) && count(s.sum_type) == 1) },', rules=R, sig='pub fn as_tuple(&self) -> (r: Option<&[Value]>)', obligation='Value::as_tuple')
    u.text('}\nimpl Sum {')
    u.fn(co.fn('as_tuple', S), 'ensures match r { Some(x) => count(self.sum_type) == 1 && x@ == self.values@, None => count(self.sum_type) != 1 },', rules=R + [(r'self\.sum_type\.as_tuple\(\)\.map\(\|_\| self\.values\.as_ref\(\)\)', '(match self.sum_type.as_tuple() { Some(_) => Some(self.values.as_slice()), None => None })')], sig='pub fn as_tuple(&self) -> (r: Option<&[Value]>)', obligation='Sum::as_tuple')
    u.text('}')
    for n, t in LEMMA.items(): u.lemma(n, t)
    return [u]
def VALIDATE(u, val, R):
    u.fn(val, 'ensures r is Ok <==> accepted(*self), r is Ok ==> inhabits(*self),', sig='#[verifier::exec_allows_no_decreases_clause] pub fn validate(&self) -> (r: Result<(), ConstTypeError>)', obligation='Value::validate',
         rules=R + [(r'Ok\(e\.value\(\)\.validate\(\)\?\)', 'match e.check() { Ok(_) => Ok(()), Err(e) => Err(ConstTypeError::CustomCheckFailure(e)) }'), (r'mono_fn_type\(hugr\)\?;', 'let checked = mono_fn_type(hugr)?;'), (r'sum_type\.check_type\(\*tag, values\)\?;', 'proof { assert(all_accepted_to(values@, values@.len() as int)); each_is_valid(values@); } match sum_type.check_type(*tag, values.as_slice()) { Ok(_) => {}, Err(e) => return Err(ConstTypeError::SumType(e)) }'),
            (r'for value in values \{\s*value\.validate\(\)\?;', 'for i in 0..values.len() { match values[i].validate() { Ok(_) => {}, Err(e) => { assert(!accepted(self->Sum_0.values@[i as int])); return Err(e); } } assert(accepted(values@[i as int]));')],
         loops=['invariant self is Sum, self->Sum_0.values@ == values@, all_accepted_to(values@, i as int),'])
ASSUMPTIONS = ['values given to a constructor report a type (programs used as function constants are monomorphic)']
