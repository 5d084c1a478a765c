from common import *
import p_a01, p_a02
EXEC = 'a03'
CV = 'hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs'
LG = 'hugr-core/src/std_extensions/logic.rs'
FL = 'hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs'
def prelude():
    p = p_a01.PRE
    p = p.replace('pub enum VV { ', 'pub enum VV { Float(f64), Str(Seq<char>), Usize(int), ')
    i = p.index('impl ConstInt { #[verifier::external_body] pub fn into_value'); j = p.index('/// the custom constant of')
    p = p[:i] + '''
impl ConstInt { #[verifier::external_body] pub fn clone(&self) -> (r: ConstInt) ensures r == *self { unimplemented!() } }
/// custom constants and the value they make
pub trait CustomConst: Sized { spec fn vv(&self) -> VV;
  fn into_value(self) -> (r: Value) ensures r@ == self.vv(); }
impl CustomConst for ConstInt { open spec fn vv(&self) -> VV { VV::Int{lw: self.lw(), v: self.v()} } #[verifier::external_body] fn into_value(self) -> (r: Value) { unimplemented!() } }
#[verifier::external_body] pub struct ConstF64 { x: f64 }
#[verifier::external_body] pub struct ConstString { x: u8 }
#[verifier::external_body] pub struct ConstUsize { x: u64 }
impl ConstF64 { pub uninterp spec fn f(&self) -> f64;
  /// panics on NaN and infinities
  #[verifier::external_body] pub fn new(f: f64) -> (r: ConstF64) requires finite(f) ensures r.f() == f { unimplemented!() }
  #[verifier::external_body] pub fn value(&self) -> (r: f64) ensures r == self.f() { unimplemented!() } }
impl ConstString { pub uninterp spec fn s(&self) -> Seq<char>; #[verifier::external_body] pub fn new(s: String) -> (r: ConstString) ensures r.s() == s@ { unimplemented!() } }
impl ConstUsize { pub uninterp spec fn n(&self) -> u64; #[verifier::external_body] pub fn new(n: u64) -> (r: ConstUsize) ensures r.n() == n { unimplemented!() }
  #[verifier::external_body] pub fn value(&self) -> (r: u64) ensures r == self.n() { unimplemented!() } }
impl CustomConst for ConstF64 { open spec fn vv(&self) -> VV { VV::Float(self.f()) } #[verifier::external_body] fn into_value(self) -> (r: Value) { unimplemented!() } }
impl CustomConst for ConstString { open spec fn vv(&self) -> VV { VV::Str(self.s()) } #[verifier::external_body] fn into_value(self) -> (r: Value) { unimplemented!() } }
impl CustomConst for ConstUsize { open spec fn vv(&self) -> VV { VV::Usize(self.n() as int) } #[verifier::external_body] fn into_value(self) -> (r: Value) { unimplemented!() } }
''' + p[j:]
    p = p.replace('pub fn extension(c: ConstInt) -> (r: Value) ensures r@ == (VV::Int{lw: c.lw(), v: c.v()})',
       'pub fn true_val() -> (r: Value) ensures r@ == VV::Bool(true) { unimplemented!() }\n  #[verifier::external_body] pub fn false_val() -> (r: Value) ensures r@ == VV::Bool(false) { unimplemented!() }\n  #[verifier::external_body] pub fn extension<C: CustomConst>(c: C) -> (r: Value) ensures r@ == c.vv()')
    return p + '''
// ---- floats: only what the contracts need ----
pub uninterp spec fn finite(f: f64) -> bool;
/// the integer obtained from a finite float by dropping its fraction
pub uninterp spec fn truncated(f: f64) -> int;
/// finite and without fraction; then `truncated` is its exact value
pub uninterp spec fn integral(f: f64) -> bool;
/// the float nearest to an integer (round to nearest even)
pub uninterp spec fn nearest(x: int) -> f64;
#[verifier::external_body] pub fn f64_is_finite(f: f64) -> (r: bool) ensures r == finite(f) { unimplemented!() }
#[verifier::external_body] pub fn f64_trunc(f: f64) -> (r: f64) ensures finite(f) ==> finite(r) && integral(r) && truncated(r) == truncated(f) { unimplemented!() }
#[verifier::external_body] pub fn f64_zero() -> (r: f64) ensures finite(r), integral(r), truncated(r) == 0 { unimplemented!() }
#[verifier::external_body] pub fn f64_neg(f: f64) -> (r: f64) ensures integral(f) ==> integral(r) && truncated(r) == -truncated(f) { unimplemented!() }
#[verifier::external_body] pub fn f64_double(f: f64) -> (r: f64) ensures integral(f) && -p2(1000) < truncated(f) < p2(1000) ==> integral(r) && truncated(r) == 2 * truncated(f) { unimplemented!() }
/// range membership of integral floats is that of their values
#[verifier::external_body] pub fn f64_in(lo: f64, hi: f64, f: f64) -> (r: bool) ensures integral(lo) && integral(hi) && integral(f) ==> r == (truncated(lo) <= truncated(f) < truncated(hi)) { unimplemented!() }
/// `as` truncates, and saturates outside the range
#[verifier::external_body] pub fn f64_as_u64(f: f64) -> (r: u64) ensures finite(f) ==> r == (if truncated(f) < 0 { 0 } else if truncated(f) >= m64() { m64() - 1 } else { truncated(f) }) { unimplemented!() }
#[verifier::external_body] pub fn f64_as_i64(f: f64) -> (r: i64) ensures finite(f) ==> r == (if truncated(f) < -0x8000_0000_0000_0000 { -0x8000_0000_0000_0000 } else if truncated(f) >= 0x8000_0000_0000_0000 { 0x7fff_ffff_ffff_ffff } else { truncated(f) }) { unimplemented!() }
#[verifier::external_body] pub fn u64_as_f64(x: u64) -> (r: f64) ensures r == nearest(x as int), finite(r), x == 0x8000_0000_0000_0000 ==> integral(r) && truncated(r) == x { unimplemented!() }
#[verifier::external_body] pub fn i64_as_f64(x: i64) -> (r: f64) ensures r == nearest(x as int), finite(r) { unimplemented!() }
/// decimal notation
pub uninterp spec fn decimal(x: int) -> Seq<char>;
#[verifier::external_body] pub fn u64_to_string(x: u64) -> (r: String) ensures r@ == decimal(x as int) { unimplemented!() }
#[verifier::external_body] pub fn i64_to_string(x: i64) -> (r: String) ensures r@ == decimal(x as int) { unimplemented!() }
pub fn u64_from_bool(b: bool) -> (r: u64) ensures r == (if b { 1int } else { 0 }) { if b { 1 } else { 0 } }
/// equality of values is equality of what they denote
#[verifier::external_body] pub fn value_eq(a: &Value, b: &Value) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub open spec fn as_bool(v: Value) -> Option<bool> { match v@ { VV::Bool(b) => Some(b), _ => None } }
/// the constants in port order
pub uninterp spec fn sorted(cs: Seq<(IncomingPort, Value)>) -> Seq<Value>;
#[verifier::external_body] pub fn sorted_consts(consts: &[(IncomingPort, Value)]) -> (r: Vec<&Value>) ensures r@.len() == sorted(consts@).len(), sorted(consts@).len() == consts@.len(), forall|i: int| #![trigger r@[i]] #![trigger sorted(consts@)[i]] 0 <= i < r@.len() ==> *(r@[i]) == sorted(consts@)[i] { unimplemented!() }
pub open spec fn custom<T>(cs: Seq<(IncomingPort, Value)>) -> Option<T> { if cs.len() == 1 { as_custom::<T>(cs[0].1) } else { None } }
pub open spec fn one_width(ta: Seq<TypeArg>) -> bool { ta.len() == 1 && width(ta[0]) >= 0 }
pub open spec fn opt_flat<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
'''
TRUST = [t for t in p_a01.TRUST] + ['f64::{is_finite, trunc, as u64, as i64}, u64/i64 as f64, float comparison: assumed contracts over uninterpreted float readings (Verus has no float semantics)',
   'u64/i64::to_string gives the decimal notation', 'Iterator::{all, any, fold, reduce, map+collect}: assumed contracts (vx/lib/iter.rs)', 'PartialEq of Value decides equality of the denoted values', 'sorted_consts orders the constants by port (vector sort)']
RULES = [
  (r'\bops::Value\b', 'Value'), (r'crate::types::TypeArg', 'TypeArg'), (r'crate::ops::constant::', ''),
  (r'\binps\.iter\(\)\.all\(\|x\| ([^|]*?)\);', r'iter_all(&inps, |x: &bool| -> (b: bool) ensures b == (\1) { \1 });'),
  (r'\binps\.iter\(\)\.any\(\|x\| ([^|]*?)\);', r'iter_any(&inps, |x: &bool| -> (b: bool) ensures b == (\1) { \1 });'),
  (r'\binps\.iter\(\)\.fold\((\w+), \|acc, x\| ([^|]*?)\);', r'iter_fold(&inps, \1, |acc: bool, x: &bool| -> (b: bool) ensures b == (\2) { \2 });'),
  (r'\binps\.iter\(\)\.copied\(\)\.reduce\(\|a, b\| ([^|]*?)\)\?;', r'iter_reduce(&inps, |a: bool, b: bool| -> (c: bool) ensures c == (\1) { \1 })?;'),
  (r'sorted_consts\(consts\)\s*\.into_iter\(\)\s*\.map\(\|c\| \{', r'map_collect_option(sorted_consts(consts), |c: &Value| -> (o: Option<bool>) ensures o == as_bool(*c) {'),
  (r'\}\)\s*\.collect\(\);', '});'),
  (r'\bc == &(\w+)', r'value_eq(c, &\1)'),
  (r'\bb0\.clone\(\) == Value::true_val\(\)', 'value_eq(b0, &Value::true_val())'),
  (r'\bu64::from\(', 'u64_from_bool('),
  (r'\bn0\.value_u\(\)\.to_string\(\)', 'u64_to_string(n0.value_u())'), (r'\bn0\.value_s\(\)\.to_string\(\)', 'i64_to_string(n0.value_s())'),
  (r'\bu\.value_u\(\) as f64', 'u64_as_f64(u.value_u())'), (r'\bu\.value_s\(\) as f64', 'i64_as_f64(u.value_s())'),
  (r'\bf as u64', 'f64_as_u64(f)'), (r'\bf as i64', 'f64_as_i64(f)'), (r'\bf\.is_finite\(\)', 'f64_is_finite(f)'), (r'\bf\.trunc\(\)', 'f64_trunc(f)'), (r'\bx\.is_finite\(\)', 'f64_is_finite(x)'),
  (r'\(1u64 << 63\) as f64', 'u64_as_f64(1u64 << 63u64)'), (r'\b2\.0 \* (\w+)', r'f64_double(\1)'),
  (r'-TWO_POW_63\b', 'f64_neg(TWO_POW_63)'), (r'\bTWO_POW_(63|64)\b', r'TWO_POW_\1()'), (r'\b0\.0\b', 'f64_zero()'),
  (r'\((\S+?)\.\.(\S+?)\)\s*\.contains\(&f\)\s*\.then\(\|\| ([^|]*?)\)\s*\.flatten\(\)', r'(if f64_in(\1, \2, f) { \3 } else { None })'),
]
def closure_contract(signed):
    rd = 'in_s(log_width as int, truncated(f))' if signed else 'in_u(log_width as int, truncated(f))'
    return [(r'\|f, log_width\| \{', f'|f: f64, log_width: u8| -> (o: Option<ConstInt>) requires log_width <= 6, finite(f), integral(f) ensures o is Some <==> {rd}, o matches Some(c) ==> c.lw() == log_width && c.v() == wrap(log_width as int, truncated(f)) {{ proof {{ hints(log_width as int, truncated(f), 0); }}')]
FOLD_SIG = lambda name: (lambda sg: f'fn {name}(type_args: &[TypeArg], consts: &[(IncomingPort, Value)]) -> (r: ConstFoldResult)')

def units():
    u = Unit('a03', '#![feature(const_destruct)]')
    p_a02.const_int(u); p_a02.get_log_width(u)
    u.text(lib('std.rs')).text(lib('bits.rs')).text(prelude()).text(lib('iter.rs'))
    u.text('\n#[verifier::external_body] pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }\npub fn exec_assert(b: bool) requires b { }\n')
    u.text(p_a01.HINTS)
    for t in TRUST: u.trust(t)
    rules = RULES + p_a01.common_rules()
    prep = p_a01.prepared
    cu = src('hugr-core/src/ops/constant/custom.rs')
    u.fn(prep(cu.fn('get_single_input_value')), 'ensures match r { Some(x) => custom::<T>(consts@) == Some(*x), None => custom::<T>(consts@) is None },', rules=rules + [(r'<T: CustomConst>', '<T>')])
    # ---- logic ----
    s = src(LG)
    e = s.item(r'pub enum LogicOp\b')
    if re.sub(r'\s', '', e) != 'pubenumLogicOp{And,Or,Eq,Not,Xor,}': raise AnchorLost('LogicOp has other variants than And, Or, Eq, Not, Xor')
    u.text(e)
    u.fn(prep(s.fn('read_inputs')), '''ensures match r { Some(v) => v@.len() == sorted(consts@).len() && (forall|i: int| 0 <= i < v@.len() ==> as_bool(#[trigger] sorted(consts@)[i]) == Some(v@[i])) && (forall|i: int| 0 <= i < v@.len() ==> as_bool(sorted(consts@)[i]) == Some(#[trigger] v@[i])),
   None => exists|i: int| 0 <= i < sorted(consts@).len() && as_bool(#[trigger] sorted(consts@)[i]) is None },''', rules=rules)
    f = prep(s.fn('fold', s.impl(r'ConstFold for LogicOp')))
    u.text('impl LogicOp {')
    u.fn(f, '''ensures ({ let s = sorted(consts@); let all_bool = forall|i: int| 0 <= i < s.len() ==> as_bool(#[trigger] s[i]) is Some;
      let some = |b: bool| exists|i: int| 0 <= i < s.len() && as_bool(#[trigger] s[i]) == Some(b);
      let b0 = as_bool(s[0])->0; let b1 = as_bool(s[1])->0;
      if !all_bool { r is None } else { match *self {
        // a known input may settle the result; otherwise both inputs must be known
        LogicOp::And => if some(false) { is1(r, VV::Bool(false)) } else if s.len() == 2 { is1(r, VV::Bool(true)) } else { r is None },
        LogicOp::Or => if some(true) { is1(r, VV::Bool(true)) } else if s.len() == 2 { is1(r, VV::Bool(false)) } else { r is None },
        LogicOp::Eq => if s.len() == 2 { is1(r, VV::Bool(b0 == b1)) } else { r is None },
        LogicOp::Xor => if s.len() == 2 { is1(r, VV::Bool(b0 != b1)) } else { r is None },
        LogicOp::Not => if s.len() == 1 { is1(r, VV::Bool(!b0)) } else if s.len() == 0 { r is None } else { true } } } }),''',
      rules=rules, sig='pub fn fold(&self, _type_args: &[TypeArg], consts: &[(IncomingPort, Value)]) -> (r: ConstFoldResult)', obligation='LogicOp::fold')
    u.text('}')
    # ---- conversions ----
    s = src(CV)
    for n, v in (('63', '0x8000_0000_0000_0000'), ('64', '0x1_0000_0000_0000_0000')):
        it = s.item(r'const TWO_POW_' + n + r'\b')
        m = re.fullmatch(r'const TWO_POW_\d+: f64 = (.*);', it.strip())
        if not m: raise AnchorLost('TWO_POW constants changed')
        u.fn(Fn('TWO_POW_' + n, f'fn TWO_POW_{n}_() -> f64', '{ ' + m.group(1) + ' }', s.path, 0), f'ensures integral(r), truncated(r) == {v},', rules=rules, sig=f'fn TWO_POW_{n}() -> (r: f64)',
             pre='broadcast use ints; proof { assert((1u64 << 63u64) == 0x8000_0000_0000_0000u64) by(bit_vector); lemma_p2_big(1000); lemma_p2_big(936); lemma_p2_pos(872); big_p2(); }')
    u.text('''
proof fn big_p2() ensures p2(1000) > 0x8000_0000_0000_0000 { lemma_p2_big(1000); }
''')
    f = prep(s.fn('fold_trunc'))
    u.fn(f, '''requires forall|g: f64, w: u8| finite(g) && integral(g) && w <= 6 ==> #[trigger] call_requires(convert, (g, w)),
   forall|g: f64, w: u8, o: Option<ConstInt>| #[trigger] call_ensures(convert, (g, w), o) ==> (o matches Some(c) ==> c.lw() == w),
 ensures !(one_width(type_args@) && custom::<ConstF64>(consts@) is Some) ==> r is None,
  one_width(type_args@) && custom::<ConstF64>(consts@) is Some ==> ({ let lw = width(type_args@[0]); let f = custom::<ConstF64>(consts@)->0.f();
    if finite(f) { exists|g: f64, w: u8, o: Option<ConstInt>| w == lw && finite(g) && integral(g) && truncated(g) == truncated(f) && #[trigger] call_ensures(convert, (g, w), o) && is1(r, match o { Some(c) => ok1(lw, c.v()), None => err1(lw) }) } else { is1(r, err1(lw)) } }),''',
      rules=rules, pre='broadcast use ints;', sig='fn fold_trunc<F: Fn(f64, u8) -> Option<ConstInt>>(type_args: &[TypeArg], consts: &[(IncomingPort, Value)], convert: F) -> (r: ConstFoldResult)')
    for nm, signed in (('TruncU', False), ('TruncS', True)):
        f = prep(s.fn('fold', s.impl(f'ConstFold for {nm}')))
        rd = 'in_s(lw, truncated(f))' if signed else 'in_u(lw, truncated(f))'
        u.fn(f, f'''ensures !(one_width(type_args@) && custom::<ConstF64>(consts@) is Some) ==> r is None,
  one_width(type_args@) && custom::<ConstF64>(consts@) is Some ==> ({{ let lw = width(type_args@[0]); let f = custom::<ConstF64>(consts@)->0.f();
    is1(r, if finite(f) && {rd} {{ ok1(lw, wrap(lw, truncated(f))) }} else {{ err1(lw) }}) }}),''', rules=rules + closure_contract(signed), sig=FOLD_SIG(nm + '_fold'), obligation=nm + '::fold', pre='broadcast use ints;')
    CI = 'custom::<ConstInt>(consts@)'
    simple = {
     'ConvertU': f'ensures match {CI} {{ Some(c) => is1(r, VV::Float(nearest(c.v()))), None => r is None }},',
     'ConvertS': f'ensures match {CI} {{ Some(c) => is1(r, VV::Float(nearest(sread(c.lw(), c.v())))), None => r is None }},',
     'IToBool': f'ensures match {CI} {{ Some(c) => if type_args@.len() == 0 && c.lw() == 0 {{ is1(r, VV::Bool(c.v() == 1)) }} else {{ r is None }}, None => r is None }},',
     'IFromBool': 'ensures type_args@.len() != 0 || consts@.len() != 1 ==> r is None, type_args@.len() == 0 && consts@.len() == 1 ==> (as_bool(consts@[0].1) matches Some(b) ==> is1(r, vi(0, if b { 1 } else { 0 }))),',
     'IToStringU': f'ensures match {CI} {{ Some(c) => if one_width(type_args@) && width(type_args@[0]) == c.lw() {{ is1(r, VV::Str(decimal(c.v()))) }} else {{ r is None }}, None => r is None }},',
     'IToStringS': f'ensures match {CI} {{ Some(c) => if one_width(type_args@) && width(type_args@[0]) == c.lw() {{ is1(r, VV::Str(decimal(sread(c.lw(), c.v())))) }} else {{ r is None }}, None => r is None }},',
     'IToUsize': f'ensures match {CI} {{ Some(c) => if type_args@.len() == 0 && c.lw() == 6 {{ is1(r, VV::Usize(c.v())) }} else {{ r is None }}, None => r is None }},',
     'IFromUsize': 'ensures match custom::<ConstUsize>(consts@) { Some(c) => if type_args@.len() == 0 { is1(r, vi(6, c.n() as int)) } else { r is None }, None => r is None },',
    }
    for nm, c in simple.items():
        f = prep(s.fn('fold', s.impl(f'ConstFold for {nm}')))
        if '_type_args' in f.sig: c = c.replace('type_args@', '_type_args@')
        u.fn(f, c, rules=rules, sig=(lambda sg, nm=nm: f'fn {nm}_fold(' + ('_' if '_type_args' in sg else '') + 'type_args: &[TypeArg], consts: &[(IncomingPort, Value)]) -> (r: ConstFoldResult)'), obligation=nm + '::fold', pre='broadcast use ints;')
    # ---- floats: the folded operation is a parameter, whatever it is only finite results come out ----
    s = src(FL)
    u.text('''
pub open spec fn floats(cs: Seq<(IncomingPort, Value)>) -> bool { forall|i: int| 0 <= i < sorted(cs).len() ==> as_custom::<ConstF64>(#[trigger] sorted(cs)[i]) is Some }
pub open spec fn fl(cs: Seq<(IncomingPort, Value)>, i: int) -> f64 { as_custom::<ConstF64>(sorted(cs)[i])->0.f() }
#[verifier::external_body] fn get_floats2(consts: &[(IncomingPort, Value)]) -> (r: Option<(f64, f64)>) requires floats(consts@)
  ensures r is Some <==> sorted(consts@).len() == 2, r matches Some(p) ==> p.0 == fl(consts@, 0) && p.1 == fl(consts@, 1) { unimplemented!() }
#[verifier::external_body] fn get_floats1(consts: &[(IncomingPort, Value)]) -> (r: Option<f64>) requires floats(consts@)
  ensures r is Some <==> sorted(consts@).len() == 1, r matches Some(p) ==> p == fl(consts@, 0) { unimplemented!() }
pub struct BinaryFold<F>(F); pub struct UnaryFold<F>(F); pub struct CmpFold<F>(F); pub struct ToStringFold<F>(F);
''')
    fr = [(r'let \[f1, f2\] = get_floats\(consts\)\?;', 'let (f1, f2) = get_floats2(consts)?;'), (r'let \[(f1|f)\] = get_floats\(consts\)\?;', r'let \1 = get_floats1(consts)?;')]
    two = '(fl(consts@, 0), fl(consts@, 1))'; one = '(fl(consts@, 0),)'
    for nm, fty, n, args, out in (('BinaryFold', 'Fn(f64, f64) -> f64', 2, two, 'if finite(x) { is1(r, VV::Float(x)) } else { r is None }'),
                                  ('UnaryFold', 'Fn(f64) -> f64', 1, one, 'if finite(x) { is1(r, VV::Float(x)) } else { r is None }'),
                                  ('CmpFold', 'Fn(f64, f64) -> bool', 2, two, 'is1(r, VV::Bool(x))'),
                                  ('ToStringFold', 'Fn(f64) -> String', 1, one, 'is1(r, VV::Str(x@))')):
        xt = fty.split('-> ')[1]
        it = strip_attrs(s.item(r'struct ' + nm + r'\b'))
        if re.sub(r'\s', '', it) != re.sub(r'\s', '', f'struct {nm}(Box<dyn {fty} + Send + Sync>);'): raise AnchorLost(f'{nm} is not a boxed function')
        u.text(f'impl<F: {fty}> {nm}<F> {{')
        u.fn(prep(s.fn('fold', s.impl(f'ConstFold for {nm}'))), f'''requires floats(consts@), forall|a: {'f64, b: f64' if n == 2 else 'f64'}| #[trigger] call_requires(self.0, ({'a, b' if n == 2 else 'a,'})),
 ensures sorted(consts@).len() != {n} ==> r is None, sorted(consts@).len() == {n} ==> exists|x: {xt}| #[trigger] call_ensures(self.0, {args}, x) && ({out}),''',
          rules=rules + fr, sig='fn fold(&self, _type_args: &[TypeArg], consts: &[(IncomingPort, Value)]) -> (r: ConstFoldResult)', obligation=nm + '::fold')
        u.text('}')
    u.trust('get_floats returns the float constants in port order when there are exactly as many as asked for')
    return [u]
BOUNDED = ['the tables BinaryFold/CmpFold/UnaryFold::from_op (which machine operation folds which float operation): IEEE results compared on sampled operands', 'get_floats (const-generic array conversion)']
