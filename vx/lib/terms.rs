#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Opaque(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct NonZeroU64 { pub v: u64 }
pub struct SignatureError(pub u8);
impl View for TypeRow { type V = Seq<Type>; open spec fn view(&self) -> Seq<Type> { self.types@ } }
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for TypeRow { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Term { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for CustomType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RowVariable { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
