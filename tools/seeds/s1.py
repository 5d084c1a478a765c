CF='hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs'
FOLD='''
use hugr_core::extension::simple_op::MakeRegisteredOp;
use hugr_core::ops::Value;
use hugr_core::std_extensions::arithmetic::int_ops::IntOpDef;
use hugr_core::std_extensions::arithmetic::int_types::ConstInt;
use hugr_core::IncomingPort;
fn fold(op: IntOpDef, w: u8, ins: &[ConstInt]) -> Option<Vec<Value>> {
    let e = op.with_log_width(w).to_extension_op().unwrap();
    let c: Vec<(IncomingPort, Value)> = ins.iter().enumerate().map(|(i, v)| (i.into(), v.clone().into())).collect();
    e.constant_fold(&c).map(|r| r.into_iter().map(|x| x.1).collect())
}
fn u(w: u8, v: u64) -> ConstInt { ConstInt::new_u(w, v).unwrap() }
fn s(w: u8, v: i64) -> ConstInt { ConstInt::new_s(w, v).unwrap() }
'''
seed('a01-negdiv-bigdivisor', 'A01', 'signed 64-bit division of a negative number other than -2^63 by a divisor of at least 2^63',
 'floor division with a divisor whose top bit is set gives a wrong quotient and remainder',
 [(CF, '''        let n_u = (-n) as u64;
        let q = (n_u / m) as i64;
        let r = n_u % m;
        if r == 0 { (-q, 0) } else { (-q - 1, m - r) }''', '''        let m_s = m as i64;
        (n.div_euclid(m_s), n.rem_euclid(m_s) as u64)''')],
 FOLD + '''
fn main() {
    for (n, m) in [(-7i64, 1u64 << 63), (-1, u64::MAX), (i64::MIN + 1, (1 << 63) + 5), (-10, 3)] {
        let q = (n as i128).div_euclid(m as i128) as i64; let r = (n as i128).rem_euclid(m as i128) as u64;
        assert_eq!(fold(IntOpDef::idivmod_s, 6, &[s(6, n), u(6, m)]), Some(vec![s(6, q).into(), u(6, r).into()]), "{n} / {m}");
    }
}''')
seed('a01-rotl-full', 'A01', 'a rotation by a nonzero multiple of the width',
 'rotating left by the width (or a multiple) of an integer narrower than 64 bits no longer gives the same value',
 [(CF, '''                        let k = n1.value_u() % w; // equivalent rotation amount
                        Some(vec![(
                            0.into(),
                            Value::extension(
                                ConstInt::new_u(
                                    logwidth0,
                                    (shl_or_zero(n, k)''', '''                        let k = std::cmp::min(n1.value_u(), w - 1); // equivalent rotation amount
                        Some(vec![(
                            0.into(),
                            Value::extension(
                                ConstInt::new_u(
                                    logwidth0,
                                    (shl_or_zero(n, k)''')],
 FOLD + '''
fn main() {
    for w in 2..=6u8 { let bits = 1u64 << w; for k in [0, 1, bits - 1, bits, bits + 1] {
        if w < 6 && k > (1u64 << bits) - 1 { continue; }
        let v = 0b1001 & ((1u128 << bits) - 1) as u64; let kk = (k % bits) as u32;
        let want = (((v as u128) << kk | (v as u128) >> (bits as u32 - kk)) & ((1u128 << bits) - 1)) as u64;
        assert_eq!(fold(IntOpDef::irotl, w, &[u(w, v), u(w, k)]), Some(vec![u(w, want).into()]), "width {bits} rotl {k}");
    } }
}''')
seed('a01-iwiden-neg', 'A01', 'signed comparison of integers narrower than 64 bits with opposite signs',
 'imax_s compares the unsigned readings when both operands have the sign bit set differently only at the narrow widths',
 [(CF, '''ConstInt::new_s(logwidth, max(n0.value_s(), n1.value_s())).unwrap(),''', '''ConstInt::new_s(
                                    logwidth,
                                    if n0.value_s().checked_sub(n1.value_s()).is_some_and(|d| d < 0)
                                    {
                                        n1.value_s()
                                    } else {
                                        n0.value_s()
                                    },
                                )
                                .unwrap(),''')],
 FOLD + '''
fn main() {
    for (a, b) in [(i64::MIN, 1i64), (-5, i64::MAX), (i64::MIN, i64::MAX), (3, 4), (4, -3)] {
        assert_eq!(fold(IntOpDef::imax_s, 6, &[s(6, a), s(6, b)]), Some(vec![s(6, a.max(b)).into()]), "max {a} {b}");
    }
}''')
IT='hugr-core/src/std_extensions/arithmetic/int_types.rs'
seed('a02-reading-min', 'A02', 'the minimum signed value of a width below 64 (bit pattern 10...0)',
 'the signed reading of the most negative constant of a width is positive',
 [(IT, "            if ((self.value << 1) >> width) == 0 {\n                self.value as i64\n", "            if self.value <= 1u64 << (width - 1) {\n                self.value as i64\n")],
 """
use hugr_core::std_extensions::arithmetic::int_types::ConstInt;
fn main() {
    for w in 0..=6u8 { let bits = 1u32 << w; let m = 1i128 << (bits - 1);
        for v in [-m, -m + 1, -1, 0, m - 1] { let Ok(x) = i64::try_from(v) else { continue };
            if v < -m || v >= m { continue; }
            assert_eq!(ConstInt::new_s(w, x).unwrap().value_s(), x, "width {bits} value {x}"); } }
}""")
seed('a02-unsigned-limit', 'A02', 'an unsigned value just out of range for the 32-bit width only',
 'a 32-bit constant holding a value of more than 32 bits can be created',
 [(IT, "if (log_width <= 5) && (value >= (1u64 << (1u8 << log_width))) {", "if (log_width <= 5) && ((value >> 1) >= (1u64 << ((1u8 << log_width) - u8::from(log_width < 5)))) {")],
 """
use hugr_core::std_extensions::arithmetic::int_types::ConstInt;
fn main() {
    for w in 0..6u8 { let lim = 1u64 << (1u32 << w);
        assert!(ConstInt::new_u(w, lim - 1).is_ok()); 
        for v in [lim, lim + 1, 2 * lim - 1, 2 * lim] { assert!(ConstInt::new_u(w, v).is_err(), "width {} accepts {v}", 1u32 << w); } }
}""")
FC='hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs'
FOLDF="""
use hugr_core::extension::simple_op::MakeRegisteredOp;
use hugr_core::ops::Value;
use hugr_core::IncomingPort;
use hugr_core::std_extensions::arithmetic::{float_ops::FloatOps, float_types::ConstF64, int_types::ConstInt, conversions::ConvertOpDef};
#[allow(unused)]
fn ff(op: FloatOps, ins: &[f64]) -> Option<Vec<Value>> {
    let c: Vec<(IncomingPort, Value)> = ins.iter().enumerate().map(|(i, v)| (i.into(), ConstF64::new(*v).into())).collect();
    op.to_extension_op().unwrap().constant_fold(&c).map(|r| r.into_iter().map(|x| x.1).collect())
}
#[allow(unused)]
fn conv(op: ConvertOpDef, w: u8, x: Value) -> Option<Vec<Value>> {
    op.with_log_width(w).to_extension_op().unwrap().constant_fold(&[(0.into(), x)]).map(|r| r.into_iter().map(|x| x.1).collect())
}
"""
seed('a03-round-ties', 'A03', 'rounding a value exactly halfway between two integers with even integer part',
 'fround no longer rounds half away from zero',
 [(FC, "fround => f64::round,", "fround => |x: f64| (x + 0.5f64.copysign(x)).trunc(),")],
 FOLDF + """
fn main() {
    for x in [0.5f64, 1.5, 2.5, -2.5, 0.49999999999999994, 4503599627370497.0, -0.49999999999999994] {
        let r = ff(FloatOps::fround, &[x]).unwrap();
        assert_eq!(r[0].get_custom_value::<ConstF64>().unwrap().value(), x.round(), "round {x}");
    }
}""")
seed('a03-convert-u-top', 'A03', 'converting an unsigned 64-bit integer of at least 2^63',
 'convert_u of integers with the top bit set gives a float off by rounding twice',
 [('hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs', "let f = u.value_u() as f64;", "let v = u.value_u();\n        let f = f64::from((v >> 32) as u32) * 4_294_967_296.0 + f64::from(v as u32 & !1) + f64::from(v as u32 & 1);")],
 FOLDF + """
fn main() {
    for v in [0u64, 1, u64::MAX, (1 << 63) + 1, (1 << 53) + 1, (1 << 54) + 3, 9007199254740993, (1 << 63) + 1025, (1<<60) + 129, (1u64 << 53) | 3] {
        let r = conv(ConvertOpDef::convert_u, 6, ConstInt::new_u(6, v).unwrap().into()).unwrap();
        assert_eq!(r[0].get_custom_value::<ConstF64>().unwrap().value(), v as f64, "{v}");
    }
}""")
seed('e01-flags-default-bit', 'E01', 'a header whose flags byte has the marker bit 6 cleared',
 'headers whose flag byte lacks the marker bit are accepted',
 [('hugr-core/src/envelope/header.rs', "(flags ^ DEFAULT_FLAGS) & !ZSTD_FLAG", "flags & !(ZSTD_FLAG | DEFAULT_FLAGS)")],
 """
use hugr_core::envelope::{EnvelopeHeader, EnvelopeFormat};
fn main() {
    let mut ok = vec![]; EnvelopeHeader { format: EnvelopeFormat::PackageJson, zstd: false }.write(&mut ok).unwrap();
    for f in 0..=255u8 { let mut b = ok.clone(); b[9] = f; assert_eq!(EnvelopeHeader::read(&mut &b[..]).is_ok(), f == 0x40 || f == 0x41, "flags {f:#x}"); }
}""")
SY='hugr-model/src/v0/scope/'
seed('m01-duplicate-unrestored', 'M01', 'resolving or exiting after an insertion was refused as a duplicate',
 'a refused insertion leaves the name pointing at the next binding',
 [(SY+'symbol.rs', "                self.symbols.insert(name, shadowed);\n", "                debug_assert_ne!(shadowed, self.bindings.len());\n")],
 """
use hugr_model::v0::scope::SymbolTable;
use hugr_model::v0::table::{NodeId, RegionId};
fn main() {
    let mut t = SymbolTable::new();
    t.enter(RegionId(0)); t.insert("a", NodeId(0)).unwrap(); t.insert("b", NodeId(1)).unwrap();
    assert!(t.insert("a", NodeId(2)).is_err());
    t.insert("c", NodeId(3)).unwrap();
    assert_eq!(t.resolve("a").unwrap(), NodeId(0));
    assert!(t.is_visible(NodeId(0)));
}""", deps=('model',))
seed('m01-var-count', 'M01', 'a visibility query after a refused duplicate variable',
 'a variable that was never defined is reported visible after a duplicate insertion was refused',
 [(SY+'vars.rs', "        if !inserted {\n            return Err(DuplicateVarError(scope.node, name));\n        }\n\n        let var_index = scope.var_count;\n        scope.var_count += 1;\n", "        let var_index = scope.var_count;\n        scope.var_count += 1;\n\n        if !inserted {\n            return Err(DuplicateVarError(scope.node, name));\n        }\n")],
 """
use hugr_model::v0::scope::VarTable;
use hugr_model::v0::table::{NodeId, VarId};
fn main() {
    let mut t = VarTable::new();
    t.enter(NodeId(0)); t.insert("a").unwrap(); assert!(t.insert("a").is_err());
    assert!(!t.is_visible(VarId(NodeId(0), 1)));
    assert_eq!(t.insert("b").unwrap(), VarId(NodeId(0), 1));
}""", deps=('model',))
seed('m01-link-nested-index', 'M01', 'a link first used in a nested region after links of the outer region, then the outer region used again',
 'link indices of a region are counted from the wrong base when the key was used before',
 [(SY+'link.rs', "        LinkIndex::new(map_index - scope.link_stack)", "        LinkIndex::new(if inserted {\n            scope.link_count as usize - 1\n        } else {\n            map_index % (scope.link_stack + scope.link_count as usize)\n        })")],
 """
use hugr_model::v0::scope::LinkTable;
use hugr_model::v0::table::RegionId;
fn main() {
    let mut t = LinkTable::new();
    t.enter(RegionId(0)); t.use_link("a"); t.use_link("b");
    t.enter(RegionId(1)); let x = t.use_link("x"); assert_eq!(x, t.use_link("x"));
}""", deps=('model',))
