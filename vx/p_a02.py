from common import *
EXEC = 'a02'
BASE = 'hugr-core/src/std_extensions/arithmetic/int_types.rs'
ERR = [(r'ConstTypeError::CustomCheckFail\(\s*crate::types::CustomCheckFailure::Message\(\s*"[^"]*"\s*\.to_owned\(\)\s*,?\s*\)\s*,?\s*\)', 'const_type_error()'),
       (r'crate::types::', '')]
CONST_INT = '''
#[derive(Debug)] pub struct ConstTypeError;
pub fn const_type_error() -> ConstTypeError { ConstTypeError }
'''
VALID = 'ensures r == (n <= 6),'
NEW_U = 'ensures r is Ok <==> in_u(log_width as int, value as int), r matches Ok(c) ==> c.lw() == log_width && c.v() == value,'
NEW_S = 'ensures r is Ok <==> in_s(log_width as int, value as int), r matches Ok(c) ==> c.lw() == log_width && c.v() == wrap(log_width as int, value as int),'

def const_int(u):
    """the real ConstInt with its constructors and readings under contract"""
    s = src(BASE)
    u.text(lib('ints.rs')).text(CONST_INT)
    st = s.item(r'pub struct ConstInt\b')
    if not re.fullmatch(r'pub struct ConstInt \{\s*log_width: u8,\s*value: u64,\s*\}', strip_attrs(st).strip()):
        raise AnchorLost('ConstInt has other fields than log_width, value')
    u.text(strip_attrs(st))
    for c in ('LOG_WIDTH_MAX', 'LOG_WIDTH_BOUND'):
        u.text(s.item(r'pub const ' + c + r'\b'))
    u.fn(s.fn('is_valid_log_width'), VALID)
    im = s.impl(r'ConstInt\s*\{')
    u.text('''impl ConstInt {
  pub closed spec fn lw(&self) -> int { self.log_width as int }
  pub closed spec fn v(&self) -> int { self.value as int }
  /// representation invariant, kept by every constructor
  #[verifier::type_invariant]
  closed spec fn inv(&self) -> bool { in_u(self.log_width as int, self.value as int) }
  pub broadcast proof fn use_inv(tracked &self) ensures #![trigger self.lw()] #![trigger self.v()] in_u(self.lw(), self.v()) { use_type_invariant(self); }
'''.replace('  pub broadcast proof fn use_inv(tracked &self) ensures #![trigger self.lw()] #![trigger self.v()] in_u(self.lw(), self.v()) { use_type_invariant(self); }\n', ''))
    g = 'broadcast use ints;'
    u.fn(s.fn('new_u', im), NEW_U, rules=ERR, pre=g, obligation='ConstInt::new_u')
    u.fn(s.fn('new_s', im), NEW_S, rules=ERR, pre=g + ' proof { if in_s(log_width as int, value as int) { lemma_wrap_s(log_width as int, value as int); } }', obligation='ConstInt::new_s')
    u.fn(s.fn('log_width', im), 'ensures r == self.lw(), in_u(self.lw(), self.v()),', pre='proof { use_type_invariant(self); }', obligation='ConstInt::log_width')
    u.fn(s.fn('value_u', im), 'ensures r == self.v(), in_u(self.lw(), self.v()),', pre='proof { use_type_invariant(self); }', obligation='ConstInt::value_u')
    u.fn(s.fn('value_s', im), 'ensures r == sread(self.lw(), self.v()), in_u(self.lw(), self.v()),', pre='proof { use_type_invariant(self); } ' + g, obligation='ConstInt::value_s')
    u.text('}')
    return u

GET_LOG_WIDTH = '''ensures r is Ok <==> (arg matches TypeArg::BoundedNat(n) && n <= 6), r matches Ok(w) ==> arg == TypeArg::BoundedNat(w as u64),'''
GLW_RULES = [(r'Err\(TermTypeError::TypeMismatch\s*\{.*?\}\s*\)\s*,', 'Err(term_type_error()),'),]
def get_log_width(u):
    s = src(BASE)
    u.text('''
/// the kinds of type argument the code distinguishes here: a bounded natural or anything else
pub enum TypeArg { BoundedNat(u64), Other(Other) }
pub struct Other;
#[derive(Debug)] pub struct TermTypeError;
pub fn term_type_error() -> TermTypeError { TermTypeError }
''')
    f = s.fn('get_log_width')
    f.body = re.sub(r'Err\(TermTypeError::TypeMismatch\s*\{.*?\}\)', 'Err(term_type_error())', f.body, flags=re.S)
    u.fn(f, GET_LOG_WIDTH, pre='broadcast use ints;')

def units():
    u = Unit('a02')
    const_int(u)
    get_log_width(u)
    # deserialisation goes through new_u
    s = src(BASE)
    im = s.impl(r'TryFrom<SerializedConstInt> for ConstInt')
    u.text('pub ' + strip_attrs(s.item(r'struct SerializedConstInt\b')))
    u.text('impl ConstInt {')
    u.fn(s.fn('try_from', im), 'ensures r is Ok <==> in_u(value.log_width as int, value.value as int), r matches Ok(c) ==> c.lw() == value.log_width && c.v() == value.value,', rules=[(r'Self::Error', 'ConstTypeError'), (r'\bfn try_from', 'fn deserialized')], obligation='ConstInt::try_from')
    u.text('}')
    u.lemma('readings_agree', '''
/// the signed reading is the unique value of the signed range with the constant's bit pattern,
/// and building from the signed reading gives back the same constant
proof fn readings_agree(lw: int, v: int) requires in_u(lw, v)
  ensures in_s(lw, sread(lw, v)), wrap(lw, sread(lw, v)) == v, forall|x: int| in_s(lw, x) && wrap(lw, x) == v ==> x == sread(lw, v)
{ lemma_sread(lw, v); }
''')
    u.lemma('equal_iff_same_bits', '''
/// derived equality: equal exactly when width and bit pattern are
proof fn equal_iff_same_bits(a: ConstInt, b: ConstInt) ensures (a == b) <==> (a.lw() == b.lw() && a.v() == b.v()) { }
''')
    if not re.search(r'derive\([^)]*\bPartialEq\b[^)]*\)\]\s*(#\[[^\]]*\]\s*)*pub struct ConstInt\b', s.t):
        raise AnchorLost('ConstInt no longer derives PartialEq')
    u.trust('#[derive(PartialEq)] on ConstInt compares field by field')
    u.trust('error values of ConstTypeError / TermTypeError are opaque (their text is dropped by the extraction)')
    return [u]
