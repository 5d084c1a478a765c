from typesx import *
EXEC = 't04'
def pairwise(x, y, f): return f'({x}@.len() == {y}@.len() && forall|i: int| #![trigger {x}@[i]] #![trigger {y}@[i]] 0 <= i < {x}@.len() ==> {f}({x}@[i], {y}@[i]))'
SPEC = '''
// ---- what "denote the same" means, by recursion over the structure; a unit sum is its list of empty rows ----
pub open spec fn same(a: Type, b: Type) -> bool decreases a { a.1 == b.1 && same_e(a.0, b.0) }
pub open spec fn same_e(a: TypeEnum, b: TypeEnum) -> bool decreases a
{ match (a, b) { (TypeEnum::Extension(x), TypeEnum::Extension(y)) => same_custom(x, y), (TypeEnum::Alias(x), TypeEnum::Alias(y)) => x == y,
   (TypeEnum::Function(x), TypeEnum::Function(y)) => same_func(*x, *y), (TypeEnum::Variable(i, x), TypeEnum::Variable(j, y)) => i == j && x == y,
   (TypeEnum::RowVar(x), TypeEnum::RowVar(y)) => x == y, (TypeEnum::Sum(x), TypeEnum::Sum(y)) => same_sum(x, y), _ => false } }
pub open spec fn same_func(a: FuncValueType, b: FuncValueType) -> bool decreases a { same_row(a.input, b.input) && same_row(a.output, b.output) }
pub open spec fn same_custom(a: CustomType, b: CustomType) -> bool decreases a { a.extension == b.extension && a.id == b.id && %s && a.bound == b.bound }
pub open spec fn same_row(a: TypeRow, b: TypeRow) -> bool decreases a { %s }
pub open spec fn all_unit(v: Seq<TypeRow>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i]@.len() == 0 }
pub open spec fn same_sum(a: SumType, b: SumType) -> bool decreases a
{ match (a, b) { (SumType::Unit { size: m }, SumType::Unit { size: n }) => m == n, (SumType::Unit { size: m }, SumType::General { rows }) => m == rows@.len() && all_unit(rows@),
   (SumType::General { rows }, SumType::Unit { size: n }) => n == rows@.len() && all_unit(rows@), (SumType::General { rows: v }, SumType::General { rows: w }) => %s } }
/// what the derived equality of terms compares
pub open spec fn same_term(a: Term, b: Term) -> bool decreases a
{ match (a, b) { (Term::Runtime(x), Term::Runtime(y)) => same(x, y), (Term::ConstType(x), Term::ConstType(y)) => same(*x, *y),
   (Term::ListType(x), Term::ListType(y)) => same_term(*x, *y), (Term::TupleType(x), Term::TupleType(y)) => same_term(*x, *y),
   (Term::List(x), Term::List(y)) => %s, (Term::Tuple(x), Term::Tuple(y)) => %s,
   (Term::ListConcat(x), Term::ListConcat(y)) => %s, (Term::TupleConcat(x), Term::TupleConcat(y)) => %s,
   (Term::Variable(x), Term::Variable(y)) => x.idx == y.idx && same_term(*x.cached_decl, *y.cached_decl),
   (Term::RuntimeType(x), Term::RuntimeType(y)) => x == y, (Term::BoundedNatType(x), Term::BoundedNatType(y)) => x == y, (Term::BoundedNat(x), Term::BoundedNat(y)) => x == y,
   (Term::String(x), Term::String(y)) => x == y, (Term::Bytes(x), Term::Bytes(y)) => x == y, (Term::Float(x), Term::Float(y)) => x == y,
   (Term::StaticType, Term::StaticType) => true, (Term::StringType, Term::StringType) => true, (Term::BytesType, Term::BytesType) => true, (Term::FloatType, Term::FloatType) => true, _ => false } }
// ---- the list of variants a sum denotes ----
pub open spec fn count(s: SumType) -> nat { match s { SumType::Unit { size } => size as nat, SumType::General { rows } => rows@.len() } }
pub open spec fn nth(s: SumType, i: int) -> Seq<Type> { match s { SumType::Unit { .. } => Seq::empty(), SumType::General { rows } => rows@[i]@ } }
pub open spec fn same_types(a: Seq<Type>, b: Seq<Type>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> same(a[i], b[i]) }
// ---- what is fed to a hasher ----
pub enum Tok { Len(nat), Disc(int), Num(int), Name(Opaque), Bound(TypeBound), Limit(UpperBound) }
pub open spec fn h_type(t: Type) -> Seq<Tok> decreases t { h_enum(t.0).push(Tok::Bound(t.1)) }
pub open spec fn h_enum(e: TypeEnum) -> Seq<Tok> decreases e
{ match e { TypeEnum::Extension(c) => seq![Tok::Disc(0)] + h_custom(c), TypeEnum::Alias(a) => seq![Tok::Disc(1), Tok::Name(a.name), Tok::Bound(a.bound)], TypeEnum::Function(f) => seq![Tok::Disc(2)] + h_func(*f),
   TypeEnum::Variable(i, b) => seq![Tok::Disc(3), Tok::Num(i as int), Tok::Bound(b)], TypeEnum::RowVar(v) => seq![Tok::Disc(4), Tok::Num(v.0 as int), Tok::Bound(v.1)], TypeEnum::Sum(s) => seq![Tok::Disc(5)] + h_sum(s) } }
pub open spec fn h_func(f: FuncValueType) -> Seq<Tok> decreases f { h_row(f.input) + h_row(f.output) }
pub open spec fn h_custom(c: CustomType) -> Seq<Tok> decreases c { (seq![Tok::Name(c.extension), Tok::Name(c.id), Tok::Len(c.args@.len())] + h_terms(c.args, c.args@.len())).push(Tok::Bound(c.bound)) }
pub open spec fn h_row(r: TypeRow) -> Seq<Tok> decreases r { seq![Tok::Len(r.types@.len())] + h_types(r.types, r.types@.len()) }
pub open spec fn h_types(v: Vec<Type>, n: nat) -> Seq<Tok> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { h_types(v, (n - 1) as nat) + h_type(v@[n - 1]) } }
pub open spec fn h_rows(v: Vec<TypeRow>, n: nat) -> Seq<Tok> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { h_rows(v, (n - 1) as nat) + h_row(v@[n - 1]) } }
pub open spec fn h_units(n: nat) -> Seq<Tok> decreases n { if n == 0 { Seq::empty() } else { h_units((n - 1) as nat).push(Tok::Len(0)) } }
pub open spec fn h_sum(s: SumType) -> Seq<Tok> decreases s { match s { SumType::Unit { size } => h_units(size as nat), SumType::General { rows } => h_rows(rows, rows@.len()) } }
pub open spec fn h_terms(v: Vec<Term>, n: nat) -> Seq<Tok> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { h_terms(v, (n - 1) as nat) + h_term(v@[n - 1]) } }
pub open spec fn h_term(t: Term) -> Seq<Tok> decreases t
{ match t { Term::Runtime(x) => seq![Tok::Disc(10)] + h_type(x), Term::ConstType(x) => seq![Tok::Disc(11)] + h_type(*x), Term::ListType(x) => seq![Tok::Disc(12)] + h_term(*x), Term::TupleType(x) => seq![Tok::Disc(13)] + h_term(*x),
   Term::List(v) => seq![Tok::Disc(14), Tok::Len(v@.len())] + h_terms(v, v@.len()), Term::Tuple(v) => seq![Tok::Disc(15), Tok::Len(v@.len())] + h_terms(v, v@.len()), Term::ListConcat(v) => seq![Tok::Disc(16), Tok::Len(v@.len())] + h_terms(v, v@.len()), Term::TupleConcat(v) => seq![Tok::Disc(17), Tok::Len(v@.len())] + h_terms(v, v@.len()),
   Term::Variable(v) => seq![Tok::Disc(18), Tok::Num(v.idx as int)] + h_term(*v.cached_decl), Term::RuntimeType(b) => seq![Tok::Disc(19), Tok::Bound(b)], Term::BoundedNatType(u) => seq![Tok::Disc(20), Tok::Limit(u)], Term::BoundedNat(n) => seq![Tok::Disc(21), Tok::Num(n as int)],
   Term::String(x) => seq![Tok::Disc(22), Tok::Name(x)], Term::Bytes(x) => seq![Tok::Disc(23), Tok::Name(x)], Term::Float(x) => seq![Tok::Disc(24), Tok::Name(x)],
   Term::StaticType => seq![Tok::Disc(25)], Term::StringType => seq![Tok::Disc(26)], Term::BytesType => seq![Tok::Disc(27)], Term::FloatType => seq![Tok::Disc(28)] } }
/// a hasher, seen as the sequence it is fed
pub struct Feed { pub fed: Ghost<Seq<Tok>> }
impl Feed {
#[verifier::external_body] pub fn name(&mut self, x: &Opaque) ensures final(self).fed@ == old(self).fed@.push(Tok::Name(*x)) { unimplemented!() }
#[verifier::external_body] pub fn bound(&mut self, x: &TypeBound) ensures final(self).fed@ == old(self).fed@.push(Tok::Bound(*x)) { unimplemented!() }
/// derived `Hash` of a vector of terms and of a row (length, then every element)
#[verifier::external_body] pub fn terms(&mut self, x: &Vec<Term>) ensures final(self).fed@ == old(self).fed@ + (seq![Tok::Len(x@.len())] + h_terms(*x, x@.len())) { unimplemented!() }
#[verifier::external_body] pub fn row(&mut self, x: &TypeRow) ensures final(self).fed@ == old(self).fed@ + h_row(*x) { unimplemented!() }
}
/// derived `PartialEq` of terms, row variables and aliases, used through vectors
#[verifier::external_body] pub fn eq_terms(a: &Vec<Term>, b: &Vec<Term>) -> (r: bool) ensures r == %s { unimplemented!() }
pub fn eq_rowvar(a: &RowVariable, b: &RowVariable) -> (r: bool) ensures r == (*a == *b) { a.0 == b.0 && a.1 == b.1 }
pub fn eq_alias(a: &AliasDecl, b: &AliasDecl) -> (r: bool) ensures r == (*a == *b) { a.name == b.name && a.bound == b.bound }
// ---- iterators as the sequence of the references they yield ----
pub open spec fn views(v: Seq<&TypeRow>) -> Seq<Seq<Type>> { Seq::new(v.len(), |i: int| v[i]@) }
pub fn repeat_n<'a>(x: &'a TypeRow, n: usize) -> (r: Vec<&'a TypeRow>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { let mut v = Vec::new(); for i in 0..n invariant v@.len() == i, forall|k: int| 0 <= k < i ==> v@[k] == x { v.push(x); } v }
pub fn refs<'a>(x: &'a Vec<TypeRow>) -> (r: Vec<&'a TypeRow>) ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> *(#[trigger] r@[i]) == x@[i] { let mut v: Vec<&TypeRow> = Vec::new(); for i in 0..x.len() invariant v@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] v@[k]) == x@[k] { v.push(&x[i]); } v }
/// `a.eq(b)` of iterators over rows
#[verifier::exec_allows_no_decreases_clause] pub fn eq_each(a: Vec<&TypeRow>, b: Vec<&TypeRow>) -> (r: bool)
 ensures r == (a@.len() == b@.len() && forall|i: int| #![trigger a@[i]] #![trigger b@[i]] 0 <= i < a@.len() ==> same_row(*a@[i], *b@[i]))
{ if a.len() != b.len() { return false; } for i in 0..a.len() invariant a@.len() == b@.len(), forall|k: int| #![trigger a@[k]] #![trigger b@[k]] 0 <= k < i ==> same_row(*a@[k], *b@[k]) { if !a[i].eq(b[i]) { assert(!same_row(*a@[i as int], *b@[i as int])); return false; } } true }
/// `xs.iter().zip(ys.iter()).all(|(x, y)| x == y)`: the elements of the shorter
#[verifier::exec_allows_no_decreases_clause] pub fn all_equal(a: &Vec<Type>, b: &Vec<Type>) -> (r: bool)
 ensures r == (forall|i: int| #![trigger a@[i]] #![trigger b@[i]] 0 <= i < a@.len() && i < b@.len() ==> same(a@[i], b@[i]))
{ let mut i: usize = 0; while i < a.len() && i < b.len() invariant i <= a@.len(), i <= b@.len(), forall|k: int| #![trigger a@[k]] #![trigger b@[k]] 0 <= k < i ==> same(a@[k], b@[k]) { if !a[i].eq(&b[i]) { assert(!same(a@[i as int], b@[i as int])); return false; } i = i + 1; } true }
#[verifier::external_body] pub fn EMPTY_TYPEROW_REF() -> (r: &'static TypeRow) ensures r@.len() == 0 { unimplemented!() }
pub fn rget(v: &Vec<TypeRow>, i: usize) -> (r: Option<&TypeRow>) ensures match r { Some(x) => i < v@.len() && *x == v@[i as int], None => i >= v@.len() } { if i < v.len() { Some(&v[i]) } else { None } }
pub fn only(v: &TypeRow) -> (r: Option<&Type>) ensures match r { Some(x) => v@.len() == 1 && *x == v@[0], None => v@.len() != 1 } { if v.types.len() == 1 { Some(&v.types[0]) } else { None } }
pub fn all_empty(rows: &Vec<TypeRow>) -> (r: bool) ensures r == all_unit(rows@)
{ for i in 0..rows.len() invariant forall|k: int| #![trigger rows@[k]] 0 <= k < i ==> rows@[k]@.len() == 0 { if rows[i].types.len() != 0 { assert(rows@[i as int]@.len() != 0); return false; } } true }
pub fn fits_u8(n: usize) -> (r: bool) ensures r == (n <= 255) { n <= 255 }
/// the bound of a type with these components, from the bounds they carry (that those are right: T01)
pub open spec fn bound_spec(e: TypeEnum) -> TypeBound { match e { TypeEnum::Extension(c) => c.bound, TypeEnum::Alias(a) => a.bound, TypeEnum::Function(_) => TypeBound::Copyable, TypeEnum::Variable(_, b) => b, TypeEnum::RowVar(v) => v.1,
   TypeEnum::Sum(s) => if some_linear(s) { TypeBound::Linear } else { TypeBound::Copyable } } }
pub open spec fn some_linear(s: SumType) -> bool { exists|i: int, j: int| #![trigger nth(s, i)[j]] 0 <= i < count(s) && 0 <= j < nth(s, i).len() && nth(s, i)[j].1 == TypeBound::Linear }
pub open spec fn any_linear(s: Seq<TypeBound>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == TypeBound::Linear }
/// `rows.iter().flat_map(TypeRowRV::iter).map(TypeRV::least_upper_bound)`, run to its end
pub fn bounds_of_rows(rows: &Vec<TypeRow>) -> (r: Vec<TypeBound>) ensures forall|s: SumType| s matches SumType::General { rows: w } && w == *rows ==> any_linear(r@) == some_linear(s)
{ let mut v: Vec<TypeBound> = Vec::new(); let ghost g = SumType::General { rows: *rows };
  for i in 0..rows.len() invariant g == (SumType::General { rows: *rows }), forall|a: int, b: int| #![trigger nth(g, a)[b]] 0 <= a < i && 0 <= b < nth(g, a).len() && nth(g, a)[b].1 == TypeBound::Linear ==> any_linear(v@), any_linear(v@) ==> some_linear(g) {
    let row = &rows[i]; assert(nth(g, i as int) == row.types@);
    for j in 0..row.types.len() invariant g == (SumType::General { rows: *rows }), i < rows@.len(), *row == rows@[i as int], nth(g, i as int) == row.types@, any_linear(v@) ==> some_linear(g),
      forall|a: int, b: int| #![trigger nth(g, a)[b]] 0 <= a < i && 0 <= b < nth(g, a).len() && nth(g, a)[b].1 == TypeBound::Linear ==> any_linear(v@), forall|b: int| #![trigger nth(g, i as int)[b]] 0 <= b < j && nth(g, i as int)[b].1 == TypeBound::Linear ==> any_linear(v@) {
      let b = row.types[j].least_upper_bound(); let ghost o = v@; v.push(b);
      proof { assert(nth(g, i as int)[j as int].1 == b); if b == TypeBound::Linear { assert(v@[o.len() as int] == TypeBound::Linear); assert(some_linear(g)); }
        if any_linear(o) { let k = choose|k: int| 0 <= k < o.len() && o[k] == TypeBound::Linear; assert(v@[k] == TypeBound::Linear); }
        if any_linear(v@) && !any_linear(o) { let k = choose|k: int| 0 <= k < v@.len() && v@[k] == TypeBound::Linear; if k < o.len() { assert(o[k] == TypeBound::Linear); } } } } }
  proof { if some_linear(g) { let (a, b) = choose|a: int, b: int| #![trigger nth(g, a)[b]] 0 <= a < count(g) && 0 <= b < nth(g, a).len() && nth(g, a)[b].1 == TypeBound::Linear; assert(any_linear(v@)); } } v }
pub enum FoldWhile { Continue(TypeBound), Done(TypeBound) }
use FoldWhile::{Continue, Done};
''' % (pairwise('a.args', 'b.args', 'same_term'), pairwise('a.types', 'b.types', 'same'), pairwise('v', 'w', 'same_row'), *[pairwise('x', 'y', 'same_term')] * 4, pairwise('a', 'b', 'same_term'))
LEMMAS = {}
# reflexive / symmetric / transitive, by the same recursion
def law(name, args, req, ens, rec):
    """one proof per data type: `rec` writes the call for a component"""
    pass
KINDS = [('type', 'Type', 'same'), ('enum', 'TypeEnum', 'same_e'), ('func', 'FuncValueType', 'same_func'), ('custom', 'CustomType', 'same_custom'), ('row', 'TypeRow', 'same_row'), ('sum', 'SumType', 'same_sum'), ('term', 'Term', 'same_term')]
def each(vs, call, g):
    """component-wise step over vectors vs (first one is the trigger)"""
    x = vs[0]
    trig = ' '.join(f'#![trigger {v}@[i]]' for v in vs)
    return f'assert forall|i: int| {trig} 0 <= i < {x}@.len() implies {g} by {{ {call} }}'
LEMMAS['every_type_equals_itself'] = '\n'.join([
 'pub proof fn every_type_equals_itself(a: Type) ensures same(a, a) decreases a { refl_enum(a.0); }',
 'proof fn refl_enum(a: TypeEnum) ensures same_e(a, a) decreases a { match a { TypeEnum::Extension(x) => refl_custom(x), TypeEnum::Function(x) => refl_func(*x), TypeEnum::Sum(x) => refl_sum(x), _ => {} } }',
 'proof fn refl_func(a: FuncValueType) ensures same_func(a, a) decreases a { refl_row(a.input); refl_row(a.output); }',
 'proof fn refl_custom(a: CustomType) ensures same_custom(a, a) decreases a { ' + each(['a.args'], 'refl_term(a.args@[i]);', 'same_term(a.args@[i], a.args@[i])') + ' }',
 'proof fn refl_row(a: TypeRow) ensures same_row(a, a) decreases a { ' + each(['a.types'], 'every_type_equals_itself(a.types@[i]);', 'same(a.types@[i], a.types@[i])') + ' }',
 'proof fn refl_sum(a: SumType) ensures same_sum(a, a) decreases a { match a { SumType::General { rows } => { ' + each(['rows'], 'refl_row(rows@[i]);', 'same_row(rows@[i], rows@[i])') + ' }, _ => {} } }',
 'proof fn refl_term(a: Term) ensures same_term(a, a) decreases a { match a { Term::Runtime(x) => every_type_equals_itself(x), Term::ConstType(x) => every_type_equals_itself(*x), Term::ListType(x) => refl_term(*x), Term::TupleType(x) => refl_term(*x), Term::Variable(x) => refl_term(*x.cached_decl), '
   + ', '.join(f'Term::{k}(x) => {{ ' + each(['x'], 'refl_term(x@[i]);', 'same_term(x@[i], x@[i])') + ' }' for k in ('List', 'Tuple', 'ListConcat', 'TupleConcat')) + ', _ => {} } }'])
LEMMAS['equality_is_symmetric'] = '\n'.join([
 'pub proof fn equality_is_symmetric(a: Type, b: Type) requires same(a, b) ensures same(b, a) decreases a { sym_enum(a.0, b.0); }',
 'proof fn sym_enum(a: TypeEnum, b: TypeEnum) requires same_e(a, b) ensures same_e(b, a) decreases a { match (a, b) { (TypeEnum::Extension(x), TypeEnum::Extension(y)) => sym_custom(x, y), (TypeEnum::Function(x), TypeEnum::Function(y)) => { sym_row(x.input, y.input); sym_row(x.output, y.output); }, (TypeEnum::Sum(x), TypeEnum::Sum(y)) => sym_sum(x, y), _ => {} } }',
 'proof fn sym_custom(a: CustomType, b: CustomType) requires same_custom(a, b) ensures same_custom(b, a) decreases a { ' + each(['a.args', 'b.args'], 'sym_term(a.args@[i], b.args@[i]);', 'same_term(b.args@[i], a.args@[i])') + ' }',
 'proof fn sym_row(a: TypeRow, b: TypeRow) requires same_row(a, b) ensures same_row(b, a) decreases a { ' + each(['a.types', 'b.types'], 'equality_is_symmetric(a.types@[i], b.types@[i]);', 'same(b.types@[i], a.types@[i])') + ' }',
 'proof fn sym_sum(a: SumType, b: SumType) requires same_sum(a, b) ensures same_sum(b, a) decreases a { match (a, b) { (SumType::General { rows: v }, SumType::General { rows: w }) => { ' + each(['v', 'w'], 'sym_row(v@[i], w@[i]);', 'same_row(w@[i], v@[i])') + ' }, _ => {} } }',
 'proof fn sym_term(a: Term, b: Term) requires same_term(a, b) ensures same_term(b, a) decreases a { match (a, b) { (Term::Runtime(x), Term::Runtime(y)) => equality_is_symmetric(x, y), (Term::ConstType(x), Term::ConstType(y)) => equality_is_symmetric(*x, *y), (Term::ListType(x), Term::ListType(y)) => sym_term(*x, *y), (Term::TupleType(x), Term::TupleType(y)) => sym_term(*x, *y), (Term::Variable(x), Term::Variable(y)) => sym_term(*x.cached_decl, *y.cached_decl), '
   + ', '.join(f'(Term::{k}(x), Term::{k}(y)) => {{ ' + each(['x', 'y'], 'sym_term(x@[i], y@[i]);', 'same_term(y@[i], x@[i])') + ' }' for k in ('List', 'Tuple', 'ListConcat', 'TupleConcat')) + ', _ => {} } }'])
LEMMAS['equality_is_transitive'] = '\n'.join([
 'pub proof fn equality_is_transitive(a: Type, b: Type, c: Type) requires same(a, b), same(b, c) ensures same(a, c) decreases a { trans_enum(a.0, b.0, c.0); }',
 'proof fn trans_enum(a: TypeEnum, b: TypeEnum, c: TypeEnum) requires same_e(a, b), same_e(b, c) ensures same_e(a, c) decreases a { match (a, b, c) { (TypeEnum::Extension(x), TypeEnum::Extension(y), TypeEnum::Extension(z)) => trans_custom(x, y, z), (TypeEnum::Function(x), TypeEnum::Function(y), TypeEnum::Function(z)) => { trans_row(x.input, y.input, z.input); trans_row(x.output, y.output, z.output); }, (TypeEnum::Sum(x), TypeEnum::Sum(y), TypeEnum::Sum(z)) => trans_sum(x, y, z), _ => {} } }',
 'proof fn trans_custom(a: CustomType, b: CustomType, c: CustomType) requires same_custom(a, b), same_custom(b, c) ensures same_custom(a, c) decreases a { ' + each(['a.args', 'c.args'], 'assert(same_term(a.args@[i], b.args@[i])); trans_term(a.args@[i], b.args@[i], c.args@[i]);', 'same_term(a.args@[i], c.args@[i])') + ' }',
 'proof fn trans_row(a: TypeRow, b: TypeRow, c: TypeRow) requires same_row(a, b), same_row(b, c) ensures same_row(a, c) decreases a { ' + each(['a.types', 'c.types'], 'assert(same(a.types@[i], b.types@[i])); equality_is_transitive(a.types@[i], b.types@[i], c.types@[i]);', 'same(a.types@[i], c.types@[i])') + ' }',
 '''proof fn trans_sum(a: SumType, b: SumType, c: SumType) requires same_sum(a, b), same_sum(b, c) ensures same_sum(a, c) decreases a
{ match (a, b, c) { (SumType::General { rows: u }, SumType::General { rows: v }, SumType::General { rows: w }) => { ''' + each(['u', 'w'], 'assert(same_row(u@[i], v@[i])); trans_row(u@[i], v@[i], w@[i]);', 'same_row(u@[i], w@[i])') + ''' },
   (SumType::General { rows: u }, SumType::Unit { .. }, SumType::General { rows: w }) => { ''' + each(['u', 'w'], 'assert(u@[i]@.len() == 0 && w@[i]@.len() == 0);', 'same_row(u@[i], w@[i])') + ''' },
   (SumType::General { rows: u }, SumType::General { rows: v }, SumType::Unit { .. }) => { ''' + each(['u', 'v'], 'assert(same_row(u@[i], v@[i])); assert(v@[i]@.len() == 0);', 'u@[i]@.len() == 0') + ''' },
   (SumType::Unit { .. }, SumType::General { rows: v }, SumType::General { rows: w }) => { ''' + each(['w', 'v'], 'assert(same_row(v@[i], w@[i])); assert(v@[i]@.len() == 0);', 'w@[i]@.len() == 0') + ' }, _ => {} } }',
 'proof fn trans_term(a: Term, b: Term, c: Term) requires same_term(a, b), same_term(b, c) ensures same_term(a, c) decreases a { match (a, b, c) { (Term::Runtime(x), Term::Runtime(y), Term::Runtime(z)) => equality_is_transitive(x, y, z), (Term::ConstType(x), Term::ConstType(y), Term::ConstType(z)) => equality_is_transitive(*x, *y, *z), (Term::ListType(x), Term::ListType(y), Term::ListType(z)) => trans_term(*x, *y, *z), (Term::TupleType(x), Term::TupleType(y), Term::TupleType(z)) => trans_term(*x, *y, *z), (Term::Variable(x), Term::Variable(y), Term::Variable(z)) => trans_term(*x.cached_decl, *y.cached_decl, *z.cached_decl), '
   + ', '.join(f'(Term::{k}(x), Term::{k}(y), Term::{k}(z)) => {{ ' + each(['x', 'z'], 'assert(same_term(x@[i], y@[i])); trans_term(x@[i], y@[i], z@[i]);', 'same_term(x@[i], z@[i])') + ' }' for k in ('List', 'Tuple', 'ListConcat', 'TupleConcat')) + ', _ => {} } }'])
LEMMAS['equal_types_hash_equally'] = '\n'.join([
 'pub proof fn equal_types_hash_equally(a: Type, b: Type) requires same(a, b) ensures h_type(a) == h_type(b) decreases a, 0nat { hash_enum(a.0, b.0); }',
 'proof fn hash_enum(a: TypeEnum, b: TypeEnum) requires same_e(a, b) ensures h_enum(a) == h_enum(b) decreases a, 0nat { match (a, b) { (TypeEnum::Extension(x), TypeEnum::Extension(y)) => hash_terms(x.args, y.args, x.args@.len()), (TypeEnum::Function(x), TypeEnum::Function(y)) => { hash_row(x.input, y.input); hash_row(x.output, y.output); }, (TypeEnum::Sum(x), TypeEnum::Sum(y)) => hash_sum(x, y), _ => {} } }',
 'proof fn hash_row(a: TypeRow, b: TypeRow) requires same_row(a, b) ensures h_row(a) == h_row(b) decreases a, 0nat { hash_types(a.types, b.types, a.types@.len()); }',
 'proof fn hash_types(v: Vec<Type>, w: Vec<Type>, n: nat) requires n <= v@.len(), ' + pairwise('v', 'w', 'same') + ' ensures h_types(v, n) == h_types(w, n) decreases v, n { if n > 0 { hash_types(v, w, (n - 1) as nat); equal_types_hash_equally(v@[n - 1], w@[n - 1]); } }',
 'proof fn hash_rows(v: Vec<TypeRow>, w: Vec<TypeRow>, n: nat) requires n <= v@.len(), ' + pairwise('v', 'w', 'same_row') + ' ensures h_rows(v, n) == h_rows(w, n) decreases v, n { if n > 0 { hash_rows(v, w, (n - 1) as nat); hash_row(v@[n - 1], w@[n - 1]); } }',
 'proof fn hash_units(v: Vec<TypeRow>, n: nat) requires n <= v@.len(), all_unit(v@) ensures h_rows(v, n) == h_units(n) decreases n { if n > 0 { hash_units(v, (n - 1) as nat); let r = v@[n - 1]; assert(r@.len() == 0); assert(h_types(r.types, 0) =~= Seq::empty()); assert(h_row(r) =~= seq![Tok::Len(0)]); assert(h_rows(v, n) =~= h_units((n - 1) as nat).push(Tok::Len(0))); } }',
 'pub proof fn hash_sum(a: SumType, b: SumType) requires same_sum(a, b) ensures h_sum(a) == h_sum(b) decreases a, 0nat { match (a, b) { (SumType::General { rows: v }, SumType::General { rows: w }) => hash_rows(v, w, v@.len()), (SumType::General { rows: v }, _) => hash_units(v, v@.len()), (_, SumType::General { rows: v }) => hash_units(v, v@.len()), _ => {} } }',
 'proof fn hash_terms(v: Vec<Term>, w: Vec<Term>, n: nat) requires n <= v@.len(), ' + pairwise('v', 'w', 'same_term') + ' ensures h_terms(v, n) == h_terms(w, n) decreases v, n { if n > 0 { hash_terms(v, w, (n - 1) as nat); hash_term(v@[n - 1], w@[n - 1]); } }',
 'proof fn hash_term(a: Term, b: Term) requires same_term(a, b) ensures h_term(a) == h_term(b) decreases a, 0nat { match (a, b) { (Term::Runtime(x), Term::Runtime(y)) => equal_types_hash_equally(x, y), (Term::ConstType(x), Term::ConstType(y)) => equal_types_hash_equally(*x, *y), (Term::ListType(x), Term::ListType(y)) => hash_term(*x, *y), (Term::TupleType(x), Term::TupleType(y)) => hash_term(*x, *y), (Term::Variable(x), Term::Variable(y)) => hash_term(*x.cached_decl, *y.cached_decl), '
   + ', '.join(f'(Term::{k}(x), Term::{k}(y)) => hash_terms(x, y, x@.len())' for k in ('List', 'Tuple', 'ListConcat', 'TupleConcat')) + ', _ => {} } }'])
LEMMAS['sums_are_equal_exactly_when_their_variants_are'] = '''pub proof fn sums_are_equal_exactly_when_their_variants_are(a: SumType, b: SumType)
 ensures same_sum(a, b) <==> count(a) == count(b) && forall|i: int| #![trigger nth(a, i)] #![trigger nth(b, i)] 0 <= i < count(a) ==> same_types(nth(a, i), nth(b, i))
{ match (a, b) { (SumType::General { rows: v }, SumType::General { rows: w }) => {
     if same_sum(a, b) { assert forall|i: int| #![trigger nth(a, i)] #![trigger nth(b, i)] 0 <= i < count(a) implies same_types(nth(a, i), nth(b, i)) by { assert(same_row(v@[i], w@[i])); } }
     if v@.len() == w@.len() && forall|i: int| #![trigger nth(a, i)] #![trigger nth(b, i)] 0 <= i < count(a) ==> same_types(nth(a, i), nth(b, i)) { assert forall|i: int| #![trigger v@[i]] #![trigger w@[i]] 0 <= i < v@.len() implies same_row(v@[i], w@[i]) by { assert(same_types(nth(a, i), nth(b, i))); } } },
   (SumType::General { rows: v }, SumType::Unit { .. }) => { if v@.len() == count(b) && forall|i: int| #![trigger nth(a, i)] #![trigger nth(b, i)] 0 <= i < count(a) ==> same_types(nth(a, i), nth(b, i)) { assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies v@[i]@.len() == 0 by { assert(same_types(nth(a, i), nth(b, i))); } } },
   (SumType::Unit { .. }, SumType::General { rows: v }) => { if v@.len() == count(a) && forall|i: int| #![trigger nth(a, i)] #![trigger nth(b, i)] 0 <= i < count(a) ==> same_types(nth(a, i), nth(b, i)) { assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies v@[i]@.len() == 0 by { assert(same_types(nth(a, i), nth(b, i))); } } }, _ => {} } }'''
LEMMAS['two_ways_of_building_a_sum_agree'] = '''/// rows given to the constructor and the same rows stored directly are one type, and a unit sum of n is the sum of n empty rows
pub proof fn two_ways_of_building_a_sum_agree(rows: Vec<TypeRow>, s: SumType) requires count(s) == rows@.len(), forall|i: int| 0 <= i < count(s) ==> nth(s, i) == rows@[i]@ ensures same_sum(s, SumType::General { rows })
{ let g = SumType::General { rows }; sums_are_equal_exactly_when_their_variants_are(s, g);
  assert forall|i: int| #![trigger nth(s, i)] #![trigger nth(g, i)] 0 <= i < count(s) implies same_types(nth(s, i), nth(g, i)) by { assert(nth(s, i) == rows@[i]@); assert forall|j: int| 0 <= j < rows@[i]@.len() implies same(rows@[i]@[j], rows@[i]@[j]) by { every_type_equals_itself(rows@[i]@[j]); } } }'''
FOLD = (r'(?s)\btags\.fold_while\(([^,]+), \|(\w+), (\w+)\| (\{.*\})\)\s*\.into_inner\(\)',
        r'{ let mut \2 = \1; let mut at: usize = 0; let mut done = false; while at < tags.len() && !done { let \3 = tags[at]; let step = \4; at = at + 1; match step { Done(x) => { \2 = x; done = true; }, Continue(x) => { \2 = x; } } } \2 }')
BR = [(r'(\w+)\.iter\(\)\s*\.flat_map\(TypeRow::iter\)\s*\.map\(Type::least_upper_bound\)', r'bounds_of_rows(\1)'), (r'\buse TypeBound::\{[^}]*\};', ''), (r'(?<![:\w])(Linear|Copyable)\b', r'TypeBound::\1')]
LEMMAS['equal_sums_make_equal_types'] = '''pub proof fn equal_sums_make_equal_types(a: SumType, b: SumType) requires same_sum(a, b) ensures bound_spec(TypeEnum::Sum(a)) == bound_spec(TypeEnum::Sum(b))
{ sums_are_equal_exactly_when_their_variants_are(a, b);
  assert forall|i: int| 0 <= i < count(a) implies #[trigger] same_types(nth(a, i), nth(b, i)) by {}
  if some_linear(a) { let (x, y) = choose|x: int, y: int| #![trigger nth(a, x)[y]] 0 <= x < count(a) && 0 <= y < nth(a, x).len() && nth(a, x)[y].1 == TypeBound::Linear; assert(same_types(nth(a, x), nth(b, x))); assert(same(nth(a, x)[y], nth(b, x)[y])); assert(nth(b, x)[y].1 == TypeBound::Linear); }
  if some_linear(b) { let (x, y) = choose|x: int, y: int| #![trigger nth(b, x)[y]] 0 <= x < count(b) && 0 <= y < nth(b, x).len() && nth(b, x)[y].1 == TypeBound::Linear; assert(same_types(nth(a, x), nth(b, x))); assert(same(nth(a, x)[y], nth(b, x)[y])); assert(nth(a, x)[y].1 == TypeBound::Linear); } }'''
def units():
    u = Unit('t04'); data(u); emit(u)
    for n, t in LEMMAS.items(): u.lemma(n, t)
    return [u]
def emit(u):
    u.text(SPEC)
    u.trust('derived PartialEq/Hash of terms, row variables, aliases, type rows, function types and the type enum compare and feed their fields in order')
    s = src('hugr-core/src/types.rs'); tr = src(T + '/type_row.rs'); cu = src(T + '/custom.rs'); sg = src(T + '/signature.rs')
    # the derives the contracts of the hashing side stand for
    for f, rx in ((s, r'#\[derive\([^\]]*\bHash\b[^\]]*\)\]\s*(?:///[^\n]*\n\s*|#\[[^\]]*\]\s*|//[^\n]*\n\s*)*pub enum TypeEnum'), (s, r'#\[derive\([^\]]*\bHash\b[^\]]*\)\]\s*(?:///[^\n]*\n\s*|#\[[^\]]*\]\s*|#\[serde\((?:[^()]|\([^()]*\))*\)\]\s*)*pub struct TypeBase'), (tr, r'#\[derive\([^\]]*\bHash\b[^\]]*\)\]\s*(?:///[^\n]*\n\s*|#\[[^\]]*\]\s*)*pub struct TypeRowBase'), (sg, r'#\[derive\([^\]]*\bHash\b[^\]]*\)\]\s*(?:///[^\n]*\n\s*|#\[(?:[^\[\]]|\[[^\]]*\])*\]\s*)*pub struct FuncTypeBase')):
        if not re.search(rx, f.raw): raise AnchorLost(f'{f.path}: Hash is no longer derived ({rx[-24:]})')
    m = re.search(r'const EMPTY_TYPEROW_REF: &\'static TypeRowBase<RV> = &Self::EMPTY_TYPEROW;', s.t)
    e = re.search(r'pub const EMPTY_TYPEROW: TypeRowBase<RV> = ([^;]*);', s.t)
    if not m or not e: raise AnchorLost('EMPTY_TYPEROW')
    R = FN + [(r'\bType::EMPTY_TYPEROW_REF\b', 'EMPTY_TYPEROW_REF()'), (r'\brows\.get\(tag\)', 'rget(rows, tag)'), (r'\brow\.iter\(\)\.exactly_one\(\)\.ok\(\)', 'only(row)'), (r'(\w+)\[(\d)\]\.is_empty\(\)', r'(\1[\2].types.len() == 0)'),
              (r'itertools::repeat_n', 'repeat_n'), (r'Either::Left\(\s*(repeat_n\([^;]*?\)),?\s*\),(?=\s*SumType)', r'\1,'), (r'Either::Right\(rows\.iter\(\)\)', 'refs(rows)')]
    AT = '#[verifier::exec_allows_no_decreases_clause] '
    EQ = [(r'\bself == other\b', 'self.eq(other)')]
    u.text('impl TypeBound {')
    u.fn(s.fn('contains', s.impl(r'TypeBound\s*\{')), 'ensures r == (self == TypeBound::Linear || other == TypeBound::Copyable),', rules=FN + BR + [(r'matches!\((.*?), (\(TypeBound::Linear, _\) \| \(_, TypeBound::Copyable\))\)', r'(match \1 { \2 => true, _ => false })')], obligation='TypeBound::contains')
    u.fn(s.fn('union', s.impl(r'TypeBound\s*\{')), 'ensures r == (if self == TypeBound::Linear || other == TypeBound::Linear { TypeBound::Linear } else { TypeBound::Copyable }),', rules=FN + BR + [(r'debug_assert!\(([^;]*)\);', '')], obligation='TypeBound::union')
    u.text('}')
    u.fn(s.fn('least_upper_bound'), 'ensures r == (if any_linear(tags@) { TypeBound::Linear } else { TypeBound::Copyable }),', rules=FN + BR + [FOLD], sig='pub fn least_upper_bound(tags: Vec<TypeBound>) -> (r: TypeBound)', obligation='least_upper_bound',
         loops=['''invariant at <= tags.len(), !done ==> (acc == TypeBound::Linear) == (exists|k: int| 0 <= k < at && tags@[k] == TypeBound::Linear), done ==> acc == TypeBound::Linear && any_linear(tags@), done || acc == TypeBound::Copyable || acc == TypeBound::Linear
 ensures (acc == TypeBound::Linear) == any_linear(tags@)
 decreases tags.len() - at'''])
    u.text('impl RowVariable {')
    rv = src(T + '/row_var.rs')
    u.fn(rv.fn('bound', rv.impl(r'MaybeRV for RowVariable\s*\{')), 'ensures r == self.1,', rules=R, sig='pub fn bound(&self) -> (r: TypeBound)', obligation='RowVariable::bound')
    u.text('}')
    u.text('impl TypeRow {')
    u.fn(tr.fn('eq', tr.impl(r'<RV1: MaybeRV, RV2: MaybeRV>\s*PartialEq<TypeRowBase<RV1>>\s*for\s*TypeRowBase<RV2>\s*\{')), 'ensures r == same_row(*self, *other),', sig=AT + 'pub fn eq(&self, other: &TypeRow) -> (r: bool)', obligation='TypeRow::eq',
         rules=R + [(r'self\s*\.types\s*\.iter\(\)\s*\.zip\(other\.types\.iter\(\)\)\s*\.all\(\|\((\w+), (\w+)\)\| (?:\1 == \2|\2 == \1)\)', 'all_equal(&self.types, &other.types)')])
    u.fn(imp(tr, r'<RV: MaybeRV>\s*TypeRowBase<RV>\s*\{', 'new'), 'ensures r@.len() == 0,', rules=FN + [(r'Cow::Owned\(Vec::new\(\)\)|Cow::Borrowed\(&\[\]\)', 'Vec::new()')], sig='pub fn new() -> (r: TypeRow)', obligation='TypeRow::new')
    u.text('}')
    u.parts.append(('fn', 'EMPTY_TYPEROW', 'pub fn EMPTY_TYPEROW() -> (r: TypeRow) ensures r@.len() == 0 { %s }\n' % subst(e.group(1), FN + [(r'TypeRowBase::<\w+>', 'TypeRow')]))); u.fns.append({'obligation': 'EMPTY_TYPEROW', 'source': 'hugr-core/src/types.rs'})
    u.text('impl CustomType {')
    u.fn(cu.fn('bound', cu.impl(r'CustomType\s*\{')), 'ensures r == self.bound,', rules=R, obligation='CustomType::bound')
    u.fn(cu.fn('eq', cu.impl(r'PartialEq for CustomType\s*\{')), 'ensures r == same_custom(*self, *other),', sig=AT + 'pub fn eq(&self, other: &CustomType) -> (r: bool)', rules=R + [(r'\bself\.args == other\.args', 'eq_terms(&self.args, &other.args)')], obligation='CustomType::eq')
    u.fn(cu.fn('hash', cu.impl(r'std::hash::Hash for CustomType\s*\{')), 'ensures final(state).fed@ == old(state).fed@ + h_custom(*self),', sig='pub fn hash(&self, state: &mut Feed)', obligation='CustomType::hash',
         rules=R + [(r'self\.(extension|id)\.hash\(state\)', r'state.name(&self.\1)'), (r'self\.args\.hash\(state\)', 'state.terms(&self.args)'), (r'self\.bound\.hash\(state\);', 'state.bound(&self.bound); proof { assert(state.fed@ =~= old(state).fed@ + h_custom(*self)); }')])
    u.text('}\nimpl FuncValueType {')
    u.fn(sg.fn('eq', sg.impl(r'<RV1: MaybeRV, RV2: MaybeRV>\s*PartialEq<FuncTypeBase<RV1>>\s*for\s*FuncTypeBase<RV2>\s*\{')), 'ensures r == same_func(*self, *other),', sig=AT + 'pub fn eq(&self, other: &FuncValueType) -> (r: bool)', rules=R + [(r'self\.(\w+) == other\.(\w+)', r'self.\1.eq(&other.\2)')], obligation='FuncTypeBase::eq')
    u.text('}\nimpl TypeEnum {')
    u.fn(s.fn('eq', s.impl(r'<RV1: MaybeRV, RV2: MaybeRV>\s*PartialEq<TypeEnum<RV1>>\s*for\s*TypeEnum<RV2>\s*\{')), 'ensures r == same_e(*self, *other),', sig=AT + 'pub fn eq(&self, other: &TypeEnum) -> (r: bool)', obligation='TypeEnum::eq',
         rules=R + [(r'\b([es]1) == ([es]2)\b', r'\1.eq(\2)'), (r'\ba1 == a2\b', 'eq_alias(a1, a2)'), (r'\bf1 == f2\b', '(&**f1).eq(&**f2)'), (r'\b([ib]1) == ([ib]2)\b', r'*\1 == *\2'), (r'\bv1\.as_rv\(\) == v2\.as_rv\(\)', 'eq_rowvar(v1, v2)')])
    u.fn(imp(s, r'<RV: MaybeRV>\s*TypeEnum<RV>\s*\{', 'least_upper_bound'), 'ensures r == bound_spec(*self),', rules=R + BR, obligation='TypeEnum::least_upper_bound')
    u.text('}\nimpl Type {')
    u.fn(imp(s, TB, 'least_upper_bound'), 'ensures r == self.1,', rules=R, obligation='TypeBase::least_upper_bound')
    u.fn(s.fn('from', s.impl(r'<RV: MaybeRV>\s*From<SumType> for TypeBase<RV>\s*\{')), 'ensures r.0 matches TypeEnum::Sum(x) && same_sum(x, sum) && r.1 == bound_spec(TypeEnum::Sum(sum)),', rules=R + [(r'(?s)(\{.*\})', r'{ let ghost whole = sum; let made = \1; proof { lemma_made(whole, made); } made }')], sig='pub fn from_sum(sum: SumType) -> (r: Type)', obligation='TypeBase::from<SumType>')
    u.fn(s.fn('eq', s.impl(r'<RV1: MaybeRV, RV2: MaybeRV>\s*PartialEq<TypeBase<RV1>>\s*for\s*TypeBase<RV2>\s*\{')), 'ensures r == same(*self, *other),', sig=AT + 'pub fn eq(&self, other: &Type) -> (r: bool)', rules=R + [(r'self\.0 == other\.0', 'self.0.eq(&other.0)')], obligation='TypeBase::eq')
    f = lambda n: imp(s, TB, n)
    u.fn(f('new'), 'ensures r.0 == type_e, r.1 == bound_spec(type_e),', rules=R, sig='pub fn new(type_e: TypeEnum) -> (r: Type)', obligation='TypeBase::new')
    u.fn(f('new_unit_sum'), 'ensures r.0 == TypeEnum::Sum(SumType::Unit { size }), r.1 == TypeBound::Copyable,', rules=R, sig='pub fn new_unit_sum(size: u8) -> (r: Type)', obligation='TypeBase::new_unit_sum')
    NEW = 'count({}) == variants@.len(), forall|i: int| 0 <= i < count({}) ==> nth({}, i) == variants@[i]@,'
    u.fn(f('new_sum'), 'ensures r.0 matches TypeEnum::Sum(s) && count(s) == variants@.len() && (forall|i: int| 0 <= i < count(s) ==> nth(s, i) == variants@[i]@) && r.1 == bound_spec(r.0),', rules=R, sig='pub fn new_sum(variants: Vec<TypeRow>) -> (r: Type)', obligation='TypeBase::new_sum')
    u.fn(f('as_sum'), 'ensures r == (match self.0 { TypeEnum::Sum(s) => Some(&s), _ => None }),', rules=R, obligation='TypeBase::as_sum', sig='pub fn as_sum(&self) -> (r: Option<&SumType>)')
    u.text('}\nimpl SumType {')
    st = s.impl(r'SumType\s*\{')
    u.fn(s.fn('eq', s.impl(r'PartialEq for SumType\s*\{')), 'ensures r == same_sum(*self, *other),', sig=AT + 'pub fn eq(&self, other: &SumType) -> (r: bool)', obligation='SumType::eq',
         rules=R + [(r'self\.variants\(\)\.eq\(other\.variants\(\)\)', 'self.equal_variants(other)')])
    u.text(AT + '''/// `self.variants().eq(other.variants())`
pub fn equal_variants(&self, other: &SumType) -> (r: bool) ensures r == same_sum(*self, *other)
{ let a = self.variants(); let b = other.variants(); let r = eq_each(a, b); proof { lemma_rows(*self, *other, a@, b@); } r }''')
    u.fn(s.fn('hash', s.impl(r'std::hash::Hash for SumType\s*\{')), 'ensures final(state).fed@ == old(state).fed@ + h_sum(*self),', sig='pub fn hash(&self, state: &mut Feed)', obligation='SumType::hash',
         rules=R + [(r'self\.variants\(\)\.for_each\(\|(\w+)\| \1\.hash\(state\)\);', r'let all = self.variants(); for at in 0..all.len() { let \1 = all[at]; state.row(\1); proof { lemma_feed(*self, all@, at as nat); assert(state.fed@ =~= old(state).fed@ + h_upto(*self, at as nat + 1)); } } proof { assert(old(state).fed@ + Seq::empty() =~= old(state).fed@); }')],
         loops=['invariant all@.len() == count(*self), listed(*self, all@), state.fed@ == old(state).fed@ + h_upto(*self, at as nat)'], pre='proof { assert(old(state).fed@ + h_upto(*self, 0) =~= old(state).fed@); }')
    u.fn(s.fn('new', st), 'ensures ' + NEW.format('r', 'r', 'r'), sig='pub fn new(variants: Vec<TypeRow>) -> (r: SumType)', obligation='SumType::new',
         rules=R + [(r'\bvariants\.into_iter\(\)\.map\(Into::into\)\.collect_vec\(\)', 'variants'), (r'u8::try_from\((\w+)\)\.is_ok\(\)', r'fits_u8(\1)'), (r'rows\.iter\(\)\.all\(TypeRow::is_empty\)', 'all_empty(&rows)')],
         pre='proof { assert forall|i: int| #![trigger variants@[i]] 0 <= i < variants@.len() && variants@[i]@.len() == 0 implies variants@[i]@ == Seq::<Type>::empty() by { assert(variants@[i]@ =~= Seq::empty()); } }')
    u.fn(s.fn('new_unary', st), 'ensures r == (SumType::Unit { size }),', rules=R, obligation='SumType::new_unary')
    u.fn(s.fn('num_variants', st), 'ensures r == count(*self),', rules=R, obligation='SumType::num_variants')
    u.fn(s.fn('get_variant', st), 'ensures match r { Some(x) => tag < count(*self) && x@ =~= nth(*self, tag as int), None => tag >= count(*self) },', rules=R, obligation='SumType::get_variant')
    u.fn(s.fn('variants', st), 'ensures r@.len() == count(*self), listed(*self, r@),', rules=R, sig="pub fn variants(&self) -> (r: Vec<&TypeRow>)", obligation='SumType::variants')
    u.fn(s.fn('as_tuple', st), 'ensures match r { Some(x) => count(*self) == 1 && x@ =~= nth(*self, 0), None => count(*self) != 1 },', rules=R, obligation='SumType::as_tuple')
    OPT = 'count(*self) == 2 && nth(*self, 0).len() == 0'
    u.fn(s.fn('as_option', st), f'ensures match r {{ Some(x) => {OPT} && x@ =~= nth(*self, 1), None => !({OPT}) }},', rules=R, obligation='SumType::as_option')
    u.fn(s.fn('as_unary_option', st), f'ensures match r {{ Some(x) => {OPT} && nth(*self, 1).len() == 1 && *x == nth(*self, 1)[0], None => !({OPT} && nth(*self, 1).len() == 1) }},', obligation='SumType::as_unary_option',
         rules=R + [(r'self\.as_option\(\)\s*\.and_then\(\|(\w+)\| only\(\1\)\)', r'(match self.as_option() { Some(\1) => only(\1), None => None })')])
    u.text('''}
proof fn lemma_made(s: SumType, t: Type) requires t.0 matches TypeEnum::Sum(x) && count(x) == count(s) && (forall|i: int| 0 <= i < count(s) ==> nth(x, i) == nth(s, i)), t.1 == bound_spec(t.0) ensures same_sum(t.0->Sum_0, s), t.1 == bound_spec(TypeEnum::Sum(s))
{ let x = t.0->Sum_0; sums_are_equal_exactly_when_their_variants_are(x, s);
  assert forall|i: int| #![trigger nth(x, i)] #![trigger nth(s, i)] 0 <= i < count(x) implies same_types(nth(x, i), nth(s, i)) by { assert(nth(x, i) == nth(s, i)); assert forall|j: int| 0 <= j < nth(x, i).len() implies same(nth(x, i)[j], nth(s, i)[j]) by { every_type_equals_itself(nth(x, i)[j]); } }
  if some_linear(x) { let (a, b) = choose|a: int, b: int| #![trigger nth(x, a)[b]] 0 <= a < count(x) && 0 <= b < nth(x, a).len() && nth(x, a)[b].1 == TypeBound::Linear; assert(nth(s, a)[b].1 == TypeBound::Linear); }
  if some_linear(s) { let (a, b) = choose|a: int, b: int| #![trigger nth(s, a)[b]] 0 <= a < count(s) && 0 <= b < nth(s, a).len() && nth(s, a)[b].1 == TypeBound::Linear; assert(nth(x, a)[b].1 == TypeBound::Linear); } }
pub open spec fn listed(s: SumType, v: Seq<&TypeRow>) -> bool { v.len() == count(s) && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> match s { SumType::General { rows } => *v[i] == rows@[i], _ => v[i]@.len() == 0 } }
pub open spec fn h_upto(s: SumType, n: nat) -> Seq<Tok> { match s { SumType::Unit { .. } => h_units(n), SumType::General { rows } => h_rows(rows, n) } }
proof fn lemma_feed(s: SumType, v: Seq<&TypeRow>, n: nat) requires listed(s, v), n < v.len() ensures h_upto(s, n) + h_row(*v[n as int]) =~= h_upto(s, n + 1)
{ let r = *v[n as int]; if r@.len() == 0 { assert(h_types(r.types, 0) =~= Seq::empty()); assert(h_row(r) =~= seq![Tok::Len(0)]); } }
proof fn lemma_rows(x: SumType, y: SumType, a: Seq<&TypeRow>, b: Seq<&TypeRow>) requires listed(x, a), listed(y, b)
 ensures same_sum(x, y) == (a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> same_row(*a[i], *b[i]))
{ if a.len() == b.len() {
    if same_sum(x, y) { assert forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() implies same_row(*a[i], *b[i]) by { match (x, y) { (SumType::General { rows: v }, SumType::General { rows: w }) => assert(same_row(v@[i], w@[i])), (SumType::General { rows: v }, _) => assert(v@[i]@.len() == 0), (_, SumType::General { rows: w }) => assert(w@[i]@.len() == 0), _ => {} } } }
    if forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> same_row(*a[i], *b[i]) { match (x, y) {
       (SumType::General { rows: v }, SumType::General { rows: w }) => assert forall|i: int| #![trigger v@[i]] #![trigger w@[i]] 0 <= i < v@.len() implies same_row(v@[i], w@[i]) by { assert(same_row(*a[i], *b[i])); },
       (SumType::General { rows: v }, _) => assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies v@[i]@.len() == 0 by { assert(same_row(*a[i], *b[i])); assert(b[i]@.len() == 0); },
       (_, SumType::General { rows: w }) => assert forall|i: int| #![trigger w@[i]] 0 <= i < w@.len() implies w@[i]@.len() == 0 by { assert(same_row(*a[i], *b[i])); assert(a[i]@.len() == 0); }, _ => {} } } } }''')
ASSUMPTIONS = ['equality of types includes the cached bound; that equal structure has equal bounds is T01']
