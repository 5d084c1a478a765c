// ---- data of the operations: types are opaque, sums and function types are named by what they are made of ----
#[verifier::external_body] pub struct Type { _p: u8 }
pub uninterp spec fn sum_of(rows: Seq<Seq<Type>>) -> Type;
pub uninterp spec fn func_of(input: Seq<Type>, output: Seq<Type>) -> Type;
pub struct TypeParam(pub u8);
pub struct TypeArg(pub u8);
pub struct TypeBound(pub u8);
pub struct Value(pub u8);
pub struct Opaque(pub u8);
pub struct SignatureError(pub u8);
pub struct TypeRow { pub types: Vec<Type> }
impl View for TypeRow { type V = Seq<Type>; closed spec fn view(&self) -> Seq<Type> { self.types@ } }
pub struct Signature { pub input: TypeRow, pub output: TypeRow }
pub struct PolyFuncType { pub params: Vec<TypeParam>, pub body: Signature }
pub open spec fn same_sig(a: Signature, b: Signature) -> bool { a.input@ == b.input@ && a.output@ == b.output@ }
pub open spec fn same_sig2(s: Signature, r: (Seq<Type>, Seq<Type>)) -> bool { s.input@ == r.0 && s.output@ == r.1 }
pub open spec fn rows_view(v: Seq<TypeRow>) -> Seq<Seq<Type>> { Seq::new(v.len(), |i: int| v[i]@) }
pub trait Rows: Sized { spec fn rows(&self) -> Seq<Seq<Type>>; }
impl Rows for Vec<TypeRow> { open spec fn rows(&self) -> Seq<Seq<Type>> { rows_view(self@) } }
impl Rows for [TypeRow; 2] { open spec fn rows(&self) -> Seq<Seq<Type>> { rows_view(self@) } }
// derived Clone gives an equal value
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for TypeRow { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Signature { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for PolyFuncType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn clone_rows(v: &Vec<TypeRow>) -> (r: Vec<TypeRow>) ensures r@ == v@ { unimplemented!() }
impl Type {
  #[verifier::external_body] pub fn new_sum<R: Rows>(rows: R) -> (r: Type) ensures r == sum_of(rows.rows()) { unimplemented!() }
  #[verifier::external_body] pub fn new_function(s: Signature) -> (r: Type) ensures r == func_of(s.input@, s.output@) { unimplemented!() }
}
/// conversions into a row: `impl Into<TypeRow>` arguments
pub trait IntoRow: Sized { spec fn row(&self) -> Seq<Type>; fn into_row(self) -> (r: TypeRow) ensures r@ == self.row(); }
impl IntoRow for TypeRow { open spec fn row(&self) -> Seq<Type> { self@ } fn into_row(self) -> (r: TypeRow) { self } }
impl IntoRow for Vec<Type> { open spec fn row(&self) -> Seq<Type> { self@ } fn into_row(self) -> (r: TypeRow) { TypeRow { types: self } } }
impl IntoRow for [Type; 1] { open spec fn row(&self) -> Seq<Type> { self@ } #[verifier::external_body] fn into_row(self) -> (r: TypeRow) { unimplemented!() } }
impl IntoRow for Type { open spec fn row(&self) -> Seq<Type> { seq![*self] } fn into_row(self) -> (r: TypeRow) { let mut v = Vec::new(); v.push(self); assert(v@ =~= seq![self]); TypeRow { types: v } } }
/// `a.iter().chain(b).cloned().collect_vec()` as a loop
pub fn chain_cloned(a: &Vec<Type>, b: &Vec<Type>) -> (r: Vec<Type>) ensures r@ =~= a@ + b@
{ let mut v: Vec<Type> = Vec::new();
  for i in 0..a.len() invariant v@ =~= a@.take(i as int) { v.push(a[i].clone()); }
  for i in 0..b.len() invariant v@ =~= a@ + b@.take(i as int) { v.push(b[i].clone()); } v }
/// `v.extend_from_slice(&row)` as a loop
pub fn extend_row(v: &mut Vec<Type>, b: &TypeRow) ensures final(v)@ =~= old(v)@ + b@
{ let ghost o = v@; for i in 0..b.types.len() invariant v@ =~= o + b@.take(i as int) { v.push(b.types[i].clone()); } }
pub fn vget(v: &Vec<TypeRow>, i: usize) -> (r: Option<&TypeRow>) ensures match r { Some(x) => i < v@.len() && *x == v@[i as int], None => i >= v@.len() } { if i < v.len() { Some(&v[i]) } else { None } }
pub fn usize_from_bool(b: bool) -> (r: usize) ensures r == (if b { 1usize } else { 0usize }) { if b { 1 } else { 0 } }
impl TypeRow {
  // delegated to the vector of types
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.types.len() }
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.types.len() == 0 }
  pub fn get(&self, i: usize) -> (r: Option<&Type>) ensures match r { Some(t) => i < self@.len() && *t == self@[i as int], None => i >= self@.len() } { if i < self.types.len() { Some(&self.types[i]) } else { None } }
  pub fn to_mut(&mut self) -> (r: &mut Vec<Type>) ensures r@ == old(self)@, final(self)@ == final(r)@ { &mut self.types }
  pub fn iter(&self) -> (r: &TypeRow) ensures r == self { self }
}
pub fn sig_or_default(o: Option<Signature>) -> (r: Signature) ensures match o { Some(s) => r == s, None => r.input@.len() == 0 && r.output@.len() == 0 } { match o { Some(s) => s, None => Signature::default() } }
pub uninterp spec fn const_type(v: Value) -> Type;
/// the instantiation of a polymorphic signature with type arguments (property T02/T03 for what it is)
pub uninterp spec fn instantiated(f: PolyFuncType, args: Seq<TypeArg>) -> Option<(Seq<Type>, Seq<Type>)>;
