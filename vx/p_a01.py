from common import *
import p_a02
EXEC = 'a01'
CF = 'hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs'
PRE = '''
// ---- opaque runtime values: what the folders can build, and how it reads back ----
pub enum TY { Int(int), Error, Pair(Box<TY>, Box<TY>), Other }
pub enum VV { Int{lw: int, v: int}, Bool(bool), Error{signal: int}, Pair(Box<VV>, Box<VV>), Sum{tag: int, ok: TY, val: Box<VV>}, Other }
pub open spec fn vty(v: VV) -> TY decreases v { match v { VV::Int{lw, ..} => TY::Int(lw), VV::Error{..} => TY::Error,
  VV::Pair(a, b) => TY::Pair(Box::new(vty(*a)), Box::new(vty(*b))), _ => TY::Other } }
#[verifier::external_body] pub struct Value { x: u8 }
#[verifier::external_body] pub struct Type { x: u8 }
#[verifier::external_body] pub struct SumType { x: u8 }
pub struct IncomingPort(pub usize);
pub type ConstFoldResult = Option<Vec<(usize, Value)>>;
pub struct ConstError { pub signal: u32, pub message: () }
impl Type { pub uninterp spec fn view(&self) -> TY;
  #[verifier::external_body] pub fn new_tuple(v: Vec<Type>) -> (r: Type) ensures v.len() == 2 ==> r@ == TY::Pair(Box::new(v@[0]@), Box::new(v@[1]@)) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Type) ensures r@ == self@ { unimplemented!() }
}
impl SumType { pub uninterp spec fn view(&self) -> TY; }
#[verifier::external_body] pub fn int_types_at(i: usize) -> (r: Type) requires i <= 6 ensures r@ == TY::Int(i as int) { unimplemented!() }
#[verifier::external_body] pub fn sum_with_error(t: Type) -> (r: SumType) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body] pub fn error_type() -> (r: Type) ensures r@ == TY::Error { unimplemented!() }
#[verifier::external_body] pub fn const_ok(v: Value, e: Type) -> (r: Value) ensures e@ == TY::Error ==> r@ == (VV::Sum{tag: 1, ok: vty(v@), val: Box::new(v@)}) { unimplemented!() }
impl ConstError {
  #[verifier::external_body] pub fn as_either(self, ok: Type) -> (r: Value) ensures r@ == (VV::Sum{tag: 0, ok: ok@, val: Box::new(VV::Error{signal: self.signal as int})}) { unimplemented!() }
  #[verifier::external_body] pub fn into_value(self) -> (r: Value) ensures r@ == (VV::Error{signal: self.signal as int}) { unimplemented!() }
}
impl ConstInt { #[verifier::external_body] pub fn into_value(self) -> (r: Value) ensures r@ == (VV::Int{lw: self.lw(), v: self.v()}) { unimplemented!() } 
  #[verifier::external_body] pub fn clone(&self) -> (r: ConstInt) ensures r == *self { unimplemented!() } }
/// the custom constant of (Rust) type T held by a value, if any
pub uninterp spec fn as_custom<T>(v: Value) -> Option<T>;
impl Value { pub uninterp spec fn view(&self) -> VV;
  #[verifier::external_body] pub fn get_custom_value<T>(&self) -> (r: Option<&T>) ensures match r { Some(x) => as_custom::<T>(*self) == Some(*x), None => as_custom::<T>(*self) is None } { unimplemented!() }
  #[verifier::external_body] pub fn from_bool(b: bool) -> (r: Value) ensures r@ == VV::Bool(b) { unimplemented!() }
  #[verifier::external_body] pub fn extension(c: ConstInt) -> (r: Value) ensures r@ == (VV::Int{lw: c.lw(), v: c.v()}) { unimplemented!() }
  #[verifier::external_body] pub fn tuple(v: Vec<Value>) -> (r: Value) ensures v.len() == 2 ==> r@ == VV::Pair(Box::new(v@[0]@), Box::new(v@[1]@)) { unimplemented!() }
  /// (decided by T05)
  #[verifier::external_body] pub fn sum(tag: usize, v: [Value; 1], t: SumType) -> (r: Result<Value, ConstTypeError>)
    ensures r is Ok <==> (tag == 0 && vty(v@[0]@) == TY::Error || tag == 1 && vty(v@[0]@) == t@),
      r matches Ok(x) ==> x@ == (VV::Sum{tag: tag as int, ok: t@, val: Box::new(v@[0]@)}) { unimplemented!() }
}
// ---- what a folder is given ----
pub open spec fn width(t: TypeArg) -> int { match t { TypeArg::BoundedNat(n) => if n <= 6 { n as int } else { -1 }, _ => -1 } }
pub open spec fn all_ints(cs: Seq<(IncomingPort, Value)>, n: int) -> bool { cs.len() == n && (forall|i: int| 0 <= i < n ==> as_custom::<ConstInt>((#[trigger] cs[i]).1) is Some) }
pub open spec fn cint(cs: Seq<(IncomingPort, Value)>, i: int) -> ConstInt { as_custom::<ConstInt>(cs[i].1)->0 }
/// arguments and constants of an operation on n integers of one width
pub open spec fn well_formed(ta: Seq<TypeArg>, cs: Seq<(IncomingPort, Value)>, n: int) -> bool {
  ta.len() == 1 && width(ta[0]) >= 0 && all_ints(cs, n) && (forall|i: int| 0 <= i < n ==> #[trigger] cint(cs, i).lw() == width(ta[0])) }
pub open spec fn well_formed_conv(ta: Seq<TypeArg>, cs: Seq<(IncomingPort, Value)>) -> bool {
  ta.len() == 2 && width(ta[0]) >= 0 && width(ta[1]) >= 0 && all_ints(cs, 1) && cint(cs, 0).lw() == width(ta[0]) }
pub open spec fn is1(r: ConstFoldResult, v: VV) -> bool { r is Some && r->0@.len() == 1 && r->0@[0].0 == 0 && r->0@[0].1@ == v }
pub open spec fn is2(r: ConstFoldResult, v: VV, w: VV) -> bool { r is Some && r->0@.len() == 2 && r->0@[0].0 == 0 && r->0@[0].1@ == v && r->0@[1].0 == 1 && r->0@[1].1@ == w }
pub open spec fn vi(lw: int, v: int) -> VV { VV::Int{lw, v} }
pub open spec fn ok1(lw: int, v: int) -> VV { VV::Sum{tag: 1, ok: TY::Int(lw), val: Box::new(vi(lw, v))} }
pub open spec fn err1(lw: int) -> VV { VV::Sum{tag: 0, ok: TY::Int(lw), val: Box::new(VV::Error{signal: 0})} }
pub open spec fn pair_ty(lw: int) -> TY { TY::Pair(Box::new(TY::Int(lw)), Box::new(TY::Int(lw))) }
pub open spec fn ok2(lw: int, q: int, r: int) -> VV { VV::Sum{tag: 1, ok: pair_ty(lw), val: Box::new(VV::Pair(Box::new(vi(lw, q)), Box::new(vi(lw, r))))} }
pub open spec fn err2(lw: int) -> VV { VV::Sum{tag: 0, ok: pair_ty(lw), val: Box::new(VV::Error{signal: 0})} }
'''
TRUST = ['Value / Type / SumType constructors (Value::extension, from_bool, tuple, sum, const_ok, ConstError::as_either, Type::new_tuple, INT_TYPES, sum_with_error) behave as their views say; Value::sum is decided separately in T05',
         'Value::get_custom_value returns the custom constant of the requested type, if the value holds one',
         'core::cmp::{max,min}, u64::overflowing_{add,sub,mul,neg}, i64::unsigned_abs, bool::then_some: assumed contracts (vx/lib/std.rs)',
         'error messages dropped (ConstError::message is ())']
TA = r'type_args'
def common_rules():
    return [
      (r'\b(\d+)\.into\(\)', r'\1'),
      (r'let \[(\w+), (\w+)\] = type_args else \{\s*return None;\s*\};', r'if type_args.len() != 2 { return None; } let \1 = &type_args[0]; let \2 = &type_args[1];'),
      (r'let \[(\w+)\] = type_args else \{\s*return None;\s*\};', r'if type_args.len() != 1 { return None; } let \1 = &type_args[0];'),
      (r'let \[\(_, (\w+)\), \(_, (\w+)\)\] = consts else \{\s*return None;\s*\};', r'if consts.len() != 2 { return None; } let \1 = &consts[0].1; let \2 = &consts[1].1;'),
      (r'let \[\(_, (\w+)\)\] = consts else \{\s*return None;\s*\};', r'if consts.len() != 1 { return None; } let \1 = &consts[0].1;'),
      (r'"(?:[^"\\]|\\.)*"\.to_string\(\)', '()'),
      (r'INT_TYPES\[(\w+) as usize\]\.clone\(\)', r'int_types_at(\1 as usize)'),
      (r'INARROW_ERROR_VALUE\.clone\(\)', 'INARROW_ERROR_VALUE()'),
      (r'\.map\(Into::into\)', '.map(|c: ConstInt| -> (v: Value) ensures v@ == (VV::Int{lw: c.lw(), v: c.v()}) { c.into_value() })'),
      (r'\.into\(\)', '.into_value()'),
      (r'assert!\(', 'exec_assert!('),
    ]
def inline_closures(body):
    """a let-bound closure is inlined at its calls (parameters become lets)"""
    while True:
        r = Rust(body)
        m = next(iter(r.finditer(r'let (\w+) = \|([^|]*)\| \{')), None)
        if not m: return body
        name, params = m.group(1), m.group(2)
        o = m.end() - 1; c = r.match[o]
        blk = body[o:c + 1]
        end = body.index(';', c) + 1
        if body[c + 1:end].strip() != ';': raise AnchorLost(f'closure {name} has an unexpected shape')
        rest = body[:m.start()] + body[end:]
        ps = [p.strip() for p in split_args(params)] if params.strip() else []
        out = ''; i = 0; rr = Rust(rest)
        for k in rr.finditer(r'\b' + name + r'\('):
            o2 = k.end() - 1; c2 = rr.match[o2]
            args = split_args(rest[o2 + 1:c2]) if rest[o2 + 1:c2].strip() else []
            if len(args) != len(ps): raise AnchorLost(f'closure {name} called with {len(args)} arguments')
            lets = ''.join(f'let {p} = {a};\n' for p, a in zip(ps, args))
            out += rest[i:k.start()] + '{\n' + lets + blk[1:]
            i = c2 + 1
        body = out + rest[i:]
def split_args(s):
    r = Rust(s); out = []; i = 0; j = 0; ang = 0
    while j < len(s):
        ch = s[j]
        if r.mask[j]: j += 1; continue
        if ch in '([{': j = r.match[j] + 1; continue
        if ch == '<': ang += 1
        if ch == '>' and s[j-1] not in '-=': ang -= 1
        if ch == ',' and ang <= 0: out.append(s[i:j].strip()); i = j + 1
        j += 1
    if s[i:].strip(): out.append(s[i:].strip())
    return out
def desugar(body):
    """Result::and_then / unwrap_or_else(panic) become matches; panic! and assert! become obligations"""
    body = re.sub(r'mb_v\.and_then\(\|v\| (Value::sum\([^)]*\))\)\s*\.unwrap_or_else\(\|e\| panic!\([^)]*\)\)',
                  r'match mb_v { Ok(v) => match \1 { Ok(x) => x, Err(e) => { assert(false); unreached() } }, Err(e) => { assert(false); unreached() } }', body)
    body = re.sub(r'let mb_v: Result<Value, _> =', 'let mb_v: Result<Value, ConstTypeError> =', body)
    return body

class Closure:
    pass
def folder(s, setf, op):
    """the closure registered for IntOpDef::op, as a function"""
    ms = [m for m in s.finditer(r'IntOpDef::' + op + r'\s*=>\s*Folder\s*\{', setf[1], setf[2])]
    if len(ms) != 1: raise AnchorLost(f'no unique arm for {op}')
    o = ms[0].end() - 1; c = s.match[o]
    m = next(iter(s.finditer(r'folder:\s*Box::new\(\s*\|(\w+): &\[TypeArg\], (\w+): &\[\(IncomingPort, Value\)\]\| -> ConstFoldResult\s*\{', o, c)), None)
    if not m: raise AnchorLost(f'{op}: the folder is not a closure of the expected signature')
    b = m.end() - 1
    if re.sub(r'[\s,]', '', s.t[s.match[b] + 1:c]) != ')': raise AnchorLost(f'{op}: unexpected text after the closure')
    return Fn('fold_' + op, f'fn fold_{op}({m.group(1)}: &[TypeArg], {m.group(2)}: &[(IncomingPort, Value)]) -> ConstFoldResult', s.t[b:s.match[b] + 1], s.path, s.raw.count('\n', 0, b) + 1)

def c2(exp, n=2, none=None, lets=True):
    """contract of an operation on n integers of one width"""
    a = 'let lw = width(type_args@[0]); let a = cint(consts@, 0).v(); let b = cint(consts@, 1).v(); let sa = sread(lw, a); let sb = sread(lw, b);'
    if n == 1: a = 'let lw = width(type_args@[0]); let a = cint(consts@, 0).v(); let sa = sread(lw, a);'
    body = exp if none is None else f'if {none} {{ r is None }} else {{ {exp} }}'
    return f'ensures !well_formed(type_args@, consts@, {n}) ==> r is None,\n  well_formed(type_args@, consts@, {n}) ==> ({{ {a} {body} }}),'
def cv(exp, cond):
    return (f'ensures !well_formed_conv(type_args@, consts@) ==> r is None, well_formed_conv(type_args@, consts@) ==> '
            f'({{ let l0 = width(type_args@[0]); let l1 = width(type_args@[1]); let a = cint(consts@, 0).v(); let sa = sread(l0, a); if {cond} {{ {exp} }} else {{ r is None }} }}),')
I1 = lambda e: f'is1(r, vi(lw, {e}))'
B = lambda e: f'is1(r, VV::Bool({e}))'
OPS = {
 'ieq': c2(B('a == b')), 'ine': c2(B('a != b')),
 'ilt_u': c2(B('a < b')), 'igt_u': c2(B('a > b')), 'ile_u': c2(B('a <= b')), 'ige_u': c2(B('a >= b')),
 'ilt_s': c2(B('sa < sb')), 'igt_s': c2(B('sa > sb')), 'ile_s': c2(B('sa <= sb')), 'ige_s': c2(B('sa >= sb')),
 'imax_u': c2(I1('if a >= b { a } else { b }')), 'imin_u': c2(I1('if a <= b { a } else { b }')),
 'imax_s': c2(I1('if sa >= sb { a } else { b }')), 'imin_s': c2(I1('if sa <= sb { a } else { b }')),
 'iadd': c2(I1('wrap(lw, a + b)')), 'isub': c2(I1('wrap(lw, a - b)')), 'imul': c2(I1('wrap(lw, a * b)')),
 'ineg': c2(I1('wrap(lw, -a)'), 1),
 'ipow': c2(I1('wrap(lw, vstd::arithmetic::power::pow(a, b as nat))')),
 'iabs': c2(I1('if sa < 0 { -sa } else { sa }'), 1),
 'iand': c2(I1('((a as u64) & (b as u64)) as int')), 'ior': c2(I1('((a as u64) | (b as u64)) as int')), 'ixor': c2(I1('((a as u64) ^ (b as u64)) as int')),
 'inot': c2(I1('modulus(lw) - 1 - a'), 1),
 'ishl': c2(I1('wrap(lw, a * p2(b))')), 'ishr': c2(I1('a / p2(b)')),
 'irotl': c2(I1('rotl(lw, a, b % nbits(lw))')), 'irotr': c2(I1('rotl(lw, a, (nbits(lw) - b % nbits(lw)) % nbits(lw))')),
 'is_to_u': None, 'iu_to_s': None,
 'idivmod_u': c2('is2(r, vi(lw, a / b), vi(lw, a % b))', none='b == 0'),
 'idiv_u': c2(I1('a / b'), none='b == 0'), 'imod_u': c2(I1('a % b'), none='b == 0'),
 'idivmod_checked_u': c2('is1(r, if b == 0 { err2(lw) } else { ok2(lw, a / b, a % b) })'),
 'idiv_checked_u': c2('is1(r, if b == 0 { err1(lw) } else { ok1(lw, a / b) })'),
 'imod_checked_u': c2('is1(r, if b == 0 { err1(lw) } else { ok1(lw, a % b) })'),
 'idivmod_s': c2('is2(r, vi(lw, wrap(lw, sa / b)), vi(lw, sa % b))', none='b == 0'),
 'idiv_s': c2(I1('wrap(lw, sa / b)'), none='b == 0'), 'imod_s': c2(I1('sa % b'), none='b == 0'),
 'idivmod_checked_s': c2('is1(r, if b == 0 { err2(lw) } else { ok2(lw, wrap(lw, sa / b), sa % b) })'),
 'idiv_checked_s': c2('is1(r, if b == 0 { err1(lw) } else { ok1(lw, wrap(lw, sa / b)) })'),
 'imod_checked_s': c2('is1(r, if b == 0 { err1(lw) } else { ok1(lw, sa % b) })'),
 'iwiden_u': cv('is1(r, vi(l1, a))', 'l0 <= l1'),
 'iwiden_s': cv('is1(r, vi(l1, wrap(l1, sa)))', 'l0 <= l1'),
 'inarrow_u': cv('is1(r, if in_u(l1, a) { ok1(l1, a) } else { err1(l1) })', 'l0 >= l1'),
 'inarrow_s': cv('is1(r, if in_s(l1, sa) { ok1(l1, wrap(l1, sa)) } else { err1(l1) })', 'l0 >= l1'),
}
OPS['is_to_u'] = OPS['iu_to_s'] = 'requires well_formed(type_args@, consts@, 1) ==> sread(width(type_args@[0]), cint(consts@, 0).v()) >= 0,\n' + c2(I1('a'), 1)

HELPERS = {
 'bitmask_from_width': ('requires width == 1 || width == 2 || width == 4 || width == 8 || width == 16 || width == 32 || width == 64,\n ensures r == (if width == 64 { m64() } else { p2(width as int) }) - 1, r == (if width == 1 { 1int } else if width == 2 { 3 } else if width == 4 { 15 } else if width == 8 { 255 } else if width == 16 { 65535 } else if width == 32 { 0xffff_ffff } else { m64() - 1 }),',
    'broadcast use ints; proof { vstd::arithmetic::power2::lemma2_to64(); }'),
 'bitmask_from_logwidth': ('requires logwidth <= 6, ensures r == modulus(logwidth as int) - 1,', 'broadcast use ints;'),
 'divmod_s': ('requires m > 0, ensures r.0 == n as int / m as int, r.1 == n as int % m as int,', 'broadcast use ints;'),
 'wrapping_pow': ('ensures r == pow(n as int, k as int) % m64(),', 'broadcast use bits; broadcast use ints;'),
 'shl_or_zero': ('ensures r == (n * p2(k as int)) % m64(), k < 64 ==> r == (n << k), k >= 64 ==> r == 0,', 'proof { if k < 64 { lemma_shl(n, k); } else { lemma_shl_big(n as int, k as int); } }'),
 'shr_or_zero': ('ensures r == n as int / p2(k as int), k < 64 ==> r == (n >> k), k >= 64 ==> r == 0,', 'proof { if k < 64 { lemma_shr(n, k); } else { lemma_shl_big(n as int, k as int); } }'),
 'ok_value': ('ensures r@ == (VV::Sum{tag: 1, ok: vty(value@), val: Box::new(value@)}),', ''),
}
def rename_panics(body):
    out = ''; i = 0; r = Rust(body)
    for m in r.finditer(r'\b(panic|assert|debug_assert)!\('):
        o = m.end() - 1; c = r.match[o]
        out += body[i:m.start()]
        out += 'unreached()' if m.group(1) == 'panic' else f'exec_assert({split_args(body[o+1:c])[0]})'
        i = c + 1
    return out + body[i:]
def prepared(f):
    f.body = strip_attrs(f.body)
    f.body = rename_panics(inline_closures(f.body))
    f.body = re.sub(r'\bmb_v: Result<Value, _>', 'mb_v: Result<Value, ConstTypeError>', f.body)
    f.body = re.sub(r'mb_v\s*\.and_then\(\|v\| (Value::sum\([^)]*\))\)\s*\.unwrap_or_else\(\|e\| unreached\(\)\)',
                  r'match mb_v { Ok(v) => match \1 { Ok(x) => x, Err(e) => unreached() }, Err(e) => unreached() }', f.body)
    return f

def units():
    u = Unit('a01', '#![feature(const_destruct)]')
    p_a02.const_int(u); p_a02.get_log_width(u)
    u.text(lib('std.rs')).text(lib('bits.rs')).text(PRE)
    u.text('''
#[verifier::external_body] pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }
pub fn exec_assert(b: bool) requires b { }
''')
    u.text(HINTS + BOUNDS + HINTS_DIV)
    for t in TRUST: u.trust(t)
    rules = common_rules()
    cu = src('hugr-core/src/ops/constant/custom.rs')
    u.fn(prepared(cu.fn('get_single_input_value')), 'ensures match r { Some(x) => consts@.len() == 1 && as_custom::<T>(consts@[0].1) == Some(*x), None => consts@.len() != 1 || as_custom::<T>(consts@[0].1) is None },', rules=rules + [(r'<T: CustomConst>', '<T>')])
    u.fn(prepared(cu.fn('get_pair_of_input_values')), 'ensures match r { Some(x) => consts@.len() == 2 && as_custom::<T>(consts@[0].1) == Some(*x.0) && as_custom::<T>(consts@[1].1) == Some(*x.1), None => consts@.len() != 2 || as_custom::<T>(consts@[0].1) is None || as_custom::<T>(consts@[1].1) is None },', rules=rules + [(r'<T: CustomConst>', '<T>')])
    s = src(CF)
    for h, (c, pre) in HELPERS.items():
        f = prepared(s.fn(h))
        if h == 'wrapping_pow':
            u.fn(f, c, pre=pre + ' let ghost n0 = n as int; let ghost k0 = k as int; proof { assert(1 * pow(n0, k0) == pow(n0, k0)); }', rules=rules,
                 loops=['invariant (result * pow(base as int, k as int)) % m64() == pow(n0, k0) % m64(), decreases k,'],
                 post_rules=[(r'(while k > 0\s*(?:invariant[^{]*?decreases k,)\s*\{)', r'\1 broadcast use bits; let ghost (r1, b1, k1) = (result as int, base as int, k as int);'),
                             (r'(k >>= 1;)', r'\1 proof { lemma_pow_round(r1, b1, k1, pow(n0, k0), result as int, base as int); }'),
                             (r'result\s*\}\s*$', 'proof { reveal(vstd::arithmetic::power::pow); assert(k == 0); assert(pow(base as int, 0) == 1); assert(result * 1 == result); } result }')])
        elif h == 'divmod_s':
            u.fn(f, c, pre=pre + DIVMOD_HINT, rules=rules)
        else: u.fn(f, c, pre=pre, rules=rules)
    iv = s.item(r'static INARROW_ERROR_VALUE\b')
    m = re.search(r'LazyLock::new\(\|\| (\{.*\})\);?\s*$', iv, re.S)
    if not m: raise AnchorLost('INARROW_ERROR_VALUE is not a lazily built value')
    f = Fn('INARROW_ERROR_VALUE', 'fn INARROW_ERROR_VALUE() -> Value', m.group(1), s.path, 0)
    u.fn(f, 'ensures r@ == (VV::Error{signal: 0}),', rules=rules)
    setf = s.block(r'pub\(super\) fn set_fold\b')
    for op, c in OPS.items():
        pre = 'broadcast use {ints, bits, pair_type}; proof { if well_formed(type_args@, consts@, 1) || well_formed(type_args@, consts@, 2) { hints(width(type_args@[0]), cint(consts@, 0).v(), cint(consts@, 1).v()); ' + HINT.get(op, '') + ' } }'
        if op in ('iwiden_u', 'iwiden_s', 'inarrow_u', 'inarrow_s'):
            pre = 'broadcast use {ints, bits, pair_type}; proof { if well_formed_conv(type_args@, consts@) { hints(width(type_args@[0]), cint(consts@, 0).v(), 0); ' + HINT.get(op, '') + ' } }'
        u.fn(prepared(folder(s, setf, op)), c, rules=rules, pre=pre, obligation='fold_' + op)
    return [u]
DIVMOD_HINT = ' proof { divmod_hint(n as int, m as int); }'
HINTS_DIV = '''
/// what truncated division of |n| (or of -2^63) says about floor division
proof fn divmod_hint(n: int, m: int)
  requires -0x8000_0000_0000_0000 <= n <= 0x7fff_ffff_ffff_ffff, 0 < m < m64()
  ensures
    n >= 0 ==> 0 <= n / m <= n,
    n < 0 ==> ({ let a = -n; let q = a / m; let r = a % m; 0 <= q <= a && 0 <= r < m && a == q * m + r && (r == 0 ==> n / m == -q && n % m == 0) && (r != 0 ==> n / m == -q - 1 && n % m == m - r) && (m > 1 ==> q < a) }),
    n == -0x8000_0000_0000_0000 && m >= 0x8000_0000_0000_0000 ==> n / m == -1 && n % m == m - 0x8000_0000_0000_0000,
{
  let a = if n < 0 { -n } else { n };
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, m);
  let q = a / m; let r = a % m;
  assert(a == q * m + r) by(nonlinear_arith) requires a == m * q + r;
  assert(q >= 0) by(nonlinear_arith) requires a == q * m + r, r < m, a >= 0, m > 0;
  assert(q <= a) by(nonlinear_arith) requires a == q * m + r, r >= 0, q >= 0, m >= 1;
  if m > 1 && a > 0 { assert(q < a) by(nonlinear_arith) requires a == q * m + r, r >= 0, q >= 0, m >= 2, a > 0; }
  if n < 0 { 
    assert(-a == (-q) * m - r) by(nonlinear_arith) requires a == q * m + r;
    assert(-a == (-q - 1) * m + (m - r)) by(nonlinear_arith) requires a == q * m + r;
    if r == 0 { lemma_mod_is(n, m, -q, 0); } else { lemma_mod_is(n, m, -q - 1, m - r); }
    if a == 0x8000_0000_0000_0000 && m >= a { lemma_mod_is(n, m, -1, m - a); }
  }
}
'''
HINT = {
 **{k: 'bound_divs(width(type_args@[0]), cint(consts@, 0).v(), cint(consts@, 1).v());' for k in ('idivmod_s', 'idiv_s', 'imod_s', 'idivmod_checked_s', 'idiv_checked_s', 'imod_checked_s')},
 'isub': 'lemma_mod_mod(width(type_args@[0]), cint(consts@, 0).v() - cint(consts@, 1).v());',
 'iadd': 'lemma_mod_mod(width(type_args@[0]), cint(consts@, 0).v() + cint(consts@, 1).v());',
 'imul': 'lemma_mod_mod(width(type_args@[0]), cint(consts@, 0).v() * cint(consts@, 1).v());',
 'ineg': 'lemma_mod_mod(width(type_args@[0]), -cint(consts@, 0).v());',
 'ipow': 'lemma_mod_mod(width(type_args@[0]), pow(cint(consts@, 0).v(), cint(consts@, 1).v()));',
 'ishl': 'lemma_mod_mod(width(type_args@[0]), cint(consts@, 0).v() * p2(cint(consts@, 1).v()));',
 'ishr': 'bound_shr(width(type_args@[0]), cint(consts@, 0).v(), cint(consts@, 1).v());',
 'ior': 'bound_or(width(type_args@[0]), cint(consts@, 0).v(), cint(consts@, 1).v());',
 'ixor': 'bound_or(width(type_args@[0]), cint(consts@, 0).v(), cint(consts@, 1).v());',
 'inot': 'bound_not(width(type_args@[0]), cint(consts@, 0).v());',
 'irotl': 'bound_rot(width(type_args@[0]), cint(consts@, 0).v(), cint(consts@, 1).v());',
 'irotr': 'bound_rot(width(type_args@[0]), cint(consts@, 0).v(), cint(consts@, 1).v());',
}
HINTS = '''
/// facts about two patterns of width lw used by every folder's proof
proof fn hints(lw: int, a: int, b: int)
  ensures in_u(lw, a) ==> in_s(lw, sread(lw, a)) && wrap(lw, sread(lw, a)) == a && wrap(lw, a) == a,
    in_u(lw, b) ==> in_s(lw, sread(lw, b)) && wrap(lw, sread(lw, b)) == b && wrap(lw, b) == b,
    forall|x: int| 0 <= lw <= 6 ==> 0 <= #[trigger] wrap(lw, x) < modulus(lw),
{
  if in_u(lw, a) { lemma_sread(lw, a); lemma_mod_is(a, modulus(lw), 0, a); }
  if in_u(lw, b) { lemma_sread(lw, b); lemma_mod_is(b, modulus(lw), 0, b); }
  assert forall|x: int| 0 <= lw <= 6 implies 0 <= #[trigger] wrap(lw, x) < modulus(lw) by { vstd::arithmetic::div_mod::lemma_mod_bound(x, modulus(lw)); }
}
'''
BOUNDS = '''
proof fn bound_divs(lw: int, a: int, b: int)
  ensures in_u(lw, a) && in_u(lw, b) && b > 0 ==> in_s(lw, sread(lw, a) / b) && in_u(lw, sread(lw, a) % b)
{ if in_u(lw, a) && in_u(lw, b) && b > 0 { lemma_sread(lw, a); let n = sread(lw, a);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, b);
  let q = n / b; let r = n % b;
  assert(q <= n || q <= 0) by(nonlinear_arith) requires n == b * q + r, 0 <= r < b, b >= 1;
  assert(q >= n || q >= 0) by(nonlinear_arith) requires n == b * q + r, 0 <= r < b, b >= 1;
  assert(q >= -1 || q >= n) by(nonlinear_arith) requires n == b * q + r, 0 <= r < b, b >= 1;
} }
broadcast proof fn pair_type(lw: int, q: int, r: int)
  ensures #![trigger ok2(lw, q, r)] vty(VV::Pair(Box::new(vi(lw, q)), Box::new(vi(lw, r)))) == pair_ty(lw)
{ reveal_with_fuel(vty, 3); }

proof fn bound_or(lw: int, a: int, b: int) ensures in_u(lw, a) && in_u(lw, b) ==> in_u(lw, ((a as u64) | (b as u64)) as int) && in_u(lw, ((a as u64) ^ (b as u64)) as int)
{ if in_u(lw, a) && in_u(lw, b) { lemma_or_bound(lw, a as u64, b as u64); } }
proof fn bound_not(lw: int, a: int) ensures in_u(lw, a) ==> (((modulus(lw) - 1) as u64) & !(a as u64)) == modulus(lw) - 1 - a
{ if in_u(lw, a) { lemma_not((modulus(lw) - 1) as u64, a as u64); } }
proof fn bound_shr(lw: int, a: int, b: int) ensures in_u(lw, a) && b >= 0 ==> in_u(lw, a / p2(b))
{ if in_u(lw, a) && b >= 0 { lemma_p2_pos(b); let d = p2(b); let q = a / d;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, d);
  let r = a % d;
  assert(0 <= q <= a) by(nonlinear_arith) requires a == d * q + r, 0 <= r < d, d >= 1, a >= 0; } }
proof fn bound_rot(lw: int, a: int, b: int)
  ensures in_u(lw, a) && b >= 0 ==> ({ let w = nbits(lw); let k = b % w; let j = (w - k) % w; let m = (modulus(lw) - 1) as u64; let n = a as u64;
    &&& in_u(lw, rotl(lw, a, k)) &&& in_u(lw, rotl(lw, a, j))
    &&& k == 0 ==> rotl(lw, a, 0) == a && j == 0 && (((n << 0u64) & m) | (if w < 64 { n >> (w as u64) } else { 0u64 })) == n && (((if w < 64 { n << (w as u64) } else { 0u64 }) & m) | (n >> 0u64)) == n
    &&& k > 0 ==> j == w - k && (((n << (k as u64)) & m) | (n >> (j as u64))) == rotl(lw, a, k) && (((n << (j as u64)) & m) | (n >> (k as u64))) == rotl(lw, a, j)
  })
{ if in_u(lw, a) && b >= 0 { let w = nbits(lw); let k = b % w; let j = (w - k) % w; let m = (modulus(lw) - 1) as u64;
   if k == 0 { lemma_mod_is(w, w, 1, 0); } else { lemma_mod_is(w - k, w, 0, w - k); }
   lemma_rotl(lw, a as u64, k as u64, w as u64, m); lemma_rotl(lw, a as u64, j as u64, w as u64, m); 
   lemma_shl_big(a, 64); } }
'''
