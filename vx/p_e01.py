from common import *
EXEC = 'e01'
H = 'hugr-core/src/envelope/header.rs'
PRE = '''
pub struct HeaderError;
pub fn header_error() -> HeaderError { HeaderError }
/// a byte source: `rest` is what it will still deliver, `reliable` when it has no I/O errors of its own
pub trait Read: Sized {
  spec fn rest(&self) -> Seq<u8>;
  spec fn reliable(&self) -> bool;
  fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<(), HeaderError>)
    ensures final(self).reliable() == old(self).reliable(),
      r is Ok ==> old(self).rest().len() >= N && final(buf)@ == old(self).rest().take(N as int) && final(self).rest() == old(self).rest().skip(N as int),
      old(self).reliable() && old(self).rest().len() >= N ==> r is Ok;
}
/// a byte sink: `sent` is everything written so far
pub trait Write: Sized {
  spec fn sent(&self) -> Seq<u8>;
  spec fn reliable(&self) -> bool;
  fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), HeaderError>)
    ensures final(self).reliable() == old(self).reliable(), r is Ok ==> final(self).sent() == old(self).sent() + buf@, old(self).reliable() ==> r is Ok;
}
/// documented flags byte: bits 7,6 are 0,1; bit 0 says whether the payload is compressed; all others must be 0
pub open spec fn flags_byte(zstd: bool) -> u8 { if zstd { 0x41u8 } else { 0x40u8 } }
pub open spec fn header_bytes(h: EnvelopeHeader) -> Seq<u8> { magic() + seq![code(h.format), flags_byte(h.zstd)] }
proof fn lemma_bits() ensures (0x40u8 | 0x01u8) == 0x41u8, forall|f: u8| ((f ^ 0x40u8) & !0x01u8) == 0 <==> (f == 0x40 || f == 0x41), forall|f: u8| (f & 0x01u8) != 0 <==> f % 2 == 1
{ assert((0x40u8 | 0x01u8) == 0x41u8) by(bit_vector);
  assert forall|f: u8| ((f ^ 0x40u8) & !0x01u8) == 0 <==> (f == 0x40 || f == 0x41) by { assert(((f ^ 0x40u8) & !0x01u8) == 0 <==> (f == 0x40 || f == 0x41)) by(bit_vector); }
  assert forall|f: u8| (f & 0x01u8) != 0 <==> f % 2 == 1 by { assert((f & 0x01u8) != 0 <==> f % 2 == 1) by(bit_vector); } }
'''
def units():
    u = Unit('e01')
    s = src(H)
    m = re.search(r'pub const MAGIC_NUMBERS: &\[u8\] = "((?:[^"\\])*)"\.as_bytes\(\);', s.t)
    if not m: raise AnchorLost('MAGIC_NUMBERS is not given as a plain string')
    magic = list(m.group(1).encode())
    if len(magic) != 8: raise AnchorLost('magic number is not eight bytes')
    e = strip_attrs(s.item(r'pub enum EnvelopeFormat\b'))
    body = e[e.index('{') + 1:e.rindex('}')]
    var = []; d = -1
    for v in [x.strip() for x in body.split(',') if x.strip()]:
        mm = re.fullmatch(r'(\w+)(?:\s*=\s*(\d+))?', v)
        if not mm: raise AnchorLost('EnvelopeFormat has a variant with data')
        d = int(mm.group(2)) if mm.group(2) else d + 1
        var.append((mm.group(1), d))
    if len({d for _, d in var}) != len(var) or max(d for _, d in var) > 255: raise AnchorLost('EnvelopeFormat discriminants')
    u.text('#[derive(Clone, Copy)] pub enum EnvelopeFormat { ' + ', '.join(n for n, _ in var) + ' }')
    u.text('pub open spec fn code(f: EnvelopeFormat) -> u8 { match f { ' + ', '.join(f'EnvelopeFormat::{n} => {d}u8' for n, d in var) + ' } }')
    u.text('pub fn format_as_u8(f: EnvelopeFormat) -> (r: u8) ensures r == code(f) { match f { ' + ', '.join(f'EnvelopeFormat::{n} => {d}u8' for n, d in var) + ' } }')
    u.text('impl EnvelopeFormat { pub fn from_repr(d: usize) -> (r: Option<EnvelopeFormat>) ensures match r { Some(f) => code(f) == d, None => forall|f: EnvelopeFormat| code(f) != d } { '
           + ' else '.join(f'if d == {d} {{ Some(EnvelopeFormat::{n}) }}' for n, d in var) + ' else { None } } }')
    u.trust('strum::FromRepr and `as u8` on EnvelopeFormat follow the discriminants of its declaration (both are re-generated from the declaration)')
    u.text('pub open spec fn magic() -> Seq<u8> { seq![' + ', '.join(f'{b}u8' for b in magic) + '] }')
    u.text('pub fn magic_numbers() -> (r: [u8; 8]) ensures r@ =~= magic() { [' + ', '.join(f'{b}u8' for b in magic) + '] }\n#[verifier::external_body] pub fn bytes_ne(a: &[u8; 8], b: &[u8; 8]) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }')
    u.trust('array comparison compares the bytes; From conversions into HeaderError and the content of errors are dropped')
    st = strip_attrs(s.item(r'pub struct EnvelopeHeader\b'))
    if re.sub(r'\s', '', st) != 'pubstructEnvelopeHeader{pubformat:EnvelopeFormat,pubzstd:bool,}': raise AnchorLost('EnvelopeHeader has other fields')
    u.text('pub struct EnvelopeHeader { pub format: EnvelopeFormat, pub zstd: bool }')
    for c in ('DEFAULT_FLAGS', 'ZSTD_FLAG'): u.text(s.item(r'const ' + c + r'\b'))
    u.text(PRE)
    im = s.impl(r'EnvelopeHeader\s*\{', nth=0)
    rules = [(r'\bMAGIC_NUMBERS\b', 'magic_numbers()'), (r'magic != magic_numbers\(\)', 'bytes_ne(&magic, &magic_numbers())'), (r'write_all\(magic_numbers\(\)\)', 'write_all(&magic_numbers())'),
             (r'self\.format as u8', 'format_as_u8(self.format)'), (r'HeaderErrorInner::\w+\s*\{[^}]*\}\s*\.into\(\)', 'header_error()'),
             (r'let flag_ids = \(0\.\.8\)[^;]*;', ''), (r'flags \|= ZSTD_FLAG', 'flags = flags | ZSTD_FLAG'),
             (r'let mut (\w+) = \[0; (\d+)\];', r'let mut \1: [u8; \2] = [0; \2];')]
    u.text('impl EnvelopeHeader {')
    u.fn(s.fn('write', im), '''ensures r is Ok ==> final(writer).sent() =~= old(writer).sent() + header_bytes(*self), old(writer).reliable() ==> r is Ok,''',
         rules=rules, pre='proof { lemma_bits(); }', sig='pub fn write<W: Write>(&self, writer: &mut W) -> (r: Result<(), HeaderError>)', obligation='EnvelopeHeader::write')
    u.fn(s.fn('read', im), '''ensures
   // only a well-formed header is accepted, with exactly its ten bytes consumed
   r matches Ok(h) ==> old(reader).rest().len() >= 10 && old(reader).rest().take(10) =~= header_bytes(h) && final(reader).rest() =~= old(reader).rest().skip(10),
   // and every well-formed header is accepted
   old(reader).reliable() && old(reader).rest().len() >= 10 && (exists|h: EnvelopeHeader| old(reader).rest().take(10) == #[trigger] header_bytes(h)) ==> r is Ok,''',
         rules=rules, pre='proof { lemma_bits(); lemma_header(old(reader).rest()); }', sig='pub fn read<R: Read>(reader: &mut R) -> (r: Result<EnvelopeHeader, HeaderError>)', obligation='EnvelopeHeader::read')
    u.text('}')
    u.text('''
proof fn lemma_header(s: Seq<u8>)
  ensures forall|h: EnvelopeHeader| s.len() >= 10 && s.take(10) == #[trigger] header_bytes(h) ==> s.take(8) == magic() && s[8] == code(h.format) && s[9] == flags_byte(h.zstd)
{ assert forall|h: EnvelopeHeader| s.len() >= 10 && s.take(10) == #[trigger] header_bytes(h) implies s.take(8) == magic() && s[8] == code(h.format) && s[9] == flags_byte(h.zstd) by {
    assert(s.take(10).len() == 10); let b = header_bytes(h);
    assert(s[8] == s.take(10)[8] && s[9] == s.take(10)[9]); assert(b[8] == code(h.format) && b[9] == flags_byte(h.zstd));
    assert(s.take(8) =~= s.take(10).take(8)); assert(b.take(8) =~= magic()); } }
''')
    u.lemma('round_trip', '''
/// reading back a written header gives the same header: the bytes determine it
proof fn round_trip(a: EnvelopeHeader, b: EnvelopeHeader) requires header_bytes(a) =~= header_bytes(b) ensures a == b
{ assert(header_bytes(a)[8] == code(a.format) && header_bytes(b)[8] == code(b.format)); assert(header_bytes(a)[9] == flags_byte(a.zstd) && header_bytes(b)[9] == flags_byte(b.zstd)); }
''')
    return [u]
ASSUMPTIONS = ['a reader or writer obeys the Read::read_exact / Write::write_all contract of the standard library']
