//! A03 - contracts of the conversion, boolean and floating-point folders.
use hugr_core::IncomingPort;
use hugr_core::core::PortIndex;
use hugr_core::extension::prelude::{ConstError, ConstString, ConstUsize};
use hugr_core::extension::simple_op::MakeRegisteredOp;
use hugr_core::ops::custom::ExtensionOp;
use hugr_core::ops::{DataflowOpTrait, Value};
use hugr_core::std_extensions::arithmetic::conversions::ConvertOpDef;
use hugr_core::std_extensions::arithmetic::float_ops::FloatOps;
use hugr_core::std_extensions::arithmetic::float_types::ConstF64;
use hugr_core::std_extensions::arithmetic::int_types::ConstInt;
use hugr_core::std_extensions::logic::LogicOp;
use hx::{Ctx, ensure};
use strum::IntoEnumIterator;

type In = Vec<(IncomingPort, Value)>;
/// fold; check arity, ports, declared output types and finiteness of floats
fn fold(op: &ExtensionOp, ins: &In) -> Result<Option<Vec<Value>>, String> {
    let Some(mut g) = op.constant_fold(ins) else { return Ok(None) };
    g.sort_by_key(|(p, _)| *p);
    let sig = op.signature();
    ensure!(g.len() == sig.output.len(), "{} outputs instead of {}", g.len(), sig.output.len());
    for (k, (p, v)) in g.iter().enumerate() {
        ensure!(p.index() == k, "output port {p:?} at {k}");
        ensure!(v.get_type() == sig.output[k], "output {k} of type {} instead of the declared {}", v.get_type(), sig.output[k]);
        if let Some(f) = v.get_custom_value::<ConstF64>() { ensure!(f.value().is_finite(), "illegal float {}", f.value()); }
    }
    Ok(Some(g.into_iter().map(|x| x.1).collect()))
}
fn fl(x: f64) -> Value { ConstF64::new(x).into() }
fn int(lw: u8, v: u64) -> Value { ConstInt::new_u(lw, v).unwrap().into() }
fn f_of(v: &Value) -> Option<f64> { v.get_custom_value::<ConstF64>().map(|f| f.value()) }
fn i_of(v: &Value) -> Option<(u8, u64)> { v.get_custom_value::<ConstInt>().map(|f| (f.log_width(), f.value_u())) }
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
fn sread(lw: u8, x: u64) -> i64 { let w = 1u32 << lw; let x = x as i128; (if x >= 1i128 << (w - 1) { x - (1i128 << w) } else { x }) as i64 }
fn mask(lw: u8) -> u64 { let w = 1u32 << lw; if w == 64 { u64::MAX } else { (1u64 << w) - 1 } }
/// the integer part of a finite float, from its bits (None: beyond 2^100, certainly out of range)
fn trunc_exact(f: f64) -> Option<i128> {
    let b = f.to_bits(); let e = ((b >> 52) & 0x7ff) as i32; let m = (b & ((1 << 52) - 1)) as i128;
    if e == 0 { return Some(0); }
    let m = m | (1i128 << 52); let sh = e - 1075;
    let a = if sh >= 0 { if sh > 60 { return None } m << sh } else if sh <= -64 { 0 } else { m >> (-sh) };
    Some(if b >> 63 == 1 { -a } else { a })
}
fn trunc_case(op: &ExtensionOp, signed: bool, lw: u8, f: f64) -> Result<(), String> {
    let g = fold(op, &vec![(0.into(), fl(f))])?.ok_or("left unfolded")?;
    let w = 1u32 << lw;
    let rep = trunc_exact(f).filter(|t| if signed { -(1i128 << (w - 1)) <= *t && *t < (1i128 << (w - 1)) } else { 0 <= *t && *t < (1i128 << w) });
    let Value::Sum(s) = &g[0] else { return Err(format!("not a sum: {:?}", g[0])) };
    ensure!(s.values.len() == 1, "malformed result");
    match rep {
        Some(t) => {
            // between -1 and 0 both "0" and "error" are documented readings
            if !signed && t == 0 && f < 0.0 && s.tag == 0 { return Ok(()); }
            ensure!(s.tag == 1, "error although {t} is representable");
            let want = t.rem_euclid(1i128 << w) as u64;
            ensure!(i_of(&s.values[0]) == Some((lw, want)), "value {:?} instead of {t}", s.values[0]);
        }
        None => {
            ensure!(s.tag == 0 && s.values[0].get_custom_value::<ConstError>().is_some(), "{:?} although {f} is not representable", s.values[0]);
        }
    }
    Ok(())
}
fn floats(c: &mut Ctx, n: u64) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 2.5, -2.5, 0.1, 1e-300, -1e-300, 5e-324, -5e-324, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 0.49999999999999994, -0.49999999999999994, 4503599627370497.5, 9007199254740993.0, 3.0, 4.0, 10.0, 0.9999999999999999, -0.9999999999999999];
    for lw in 0..=6 { for h in [(1u64 << lw) as i32, (1u64 << lw) as i32 - 1] { for s in [1.0, -1.0] {
        let p = s * 2f64.powi(h);
        for d in [-1.0, -0.5, 0.0, 0.5, 1.0] { v.push(p + d); }
        v.push(f64::from_bits(p.to_bits() + 1)); v.push(f64::from_bits(p.to_bits() - 1)); } } }
    for _ in 0..n {
        let x = f64::from_bits(c.rng.next()); if x.is_finite() { v.push(x); }
        let s = c.rng.below(64); let y = (c.rng.next() >> s) as i64 as f64 / [1.0, 2.0, 3.0, 1000.0][c.rng.below(4)]; v.push(y); v.push(-y);
    }
    v
}
fn main() {
    let mut c = Ctx::from_env("A03");
    let n = c.n(60, 3000);
    let fs = floats(&mut c, n);
    for (op, signed) in [(ConvertOpDef::trunc_u, false), (ConvertOpDef::trunc_s, true)] {
        let name: &'static str = (&op).into();
        for lw in 0..=6u8 {
            let eo = op.with_log_width(lw).to_extension_op().unwrap();
            for &f in &fs { c.case(name, || format!("{name}<{lw}>({f:?})"), || trunc_case(&eo, signed, lw, f)); }
            c.case(name, || format!("{name}<{lw}> no input"), || { ensure!(fold(&eo, &vec![])?.is_none(), "folded"); Ok(()) });
            c.case(name, || format!("{name}<{lw}> non-float"), || { ensure!(fold(&eo, &vec![(0.into(), int(6, 3))])?.is_none(), "folded"); Ok(()) });
        }
    }
    // integers
    let mut us: Vec<u64> = vec![0, 1, 2, u64::MAX, u64::MAX - 1];
    for k in 0..64u32 { for d in [-2i128, -1, 0, 1, 2] { let x = (1i128 << k) + d; if x >= 0 { us.push(x as u64); } us.push((-x) as u64); } }
    for _ in 0..n * 4 { let s = c.rng.below(64); us.push(c.rng.next() >> s); }
    us.sort(); us.dedup();
    for op in [ConvertOpDef::convert_u, ConvertOpDef::convert_s, ConvertOpDef::itostring_u, ConvertOpDef::itostring_s] {
        let name: &'static str = (&op).into();
        for lw in 0..=6u8 {
            let eo = op.with_log_width(lw).to_extension_op().unwrap();
            for &u in us.iter().filter(|u| **u <= mask(lw)) {
                c.case(name, || format!("{name}<{lw}>({u})"), || {
                    let g = fold(&eo, &vec![(0.into(), int(lw, u))])?.ok_or("left unfolded")?;
                    let s = sread(lw, u);
                    match op {
                        ConvertOpDef::convert_u | ConvertOpDef::convert_s => {
                            let exact: i128 = if op == ConvertOpDef::convert_u { u as i128 } else { s as i128 };
                            let got = f_of(&g[0]).ok_or("not a float")?;
                            let t = trunc_exact(got).ok_or("huge")?;
                            // nearest float: exact below 2^53, otherwise within half a unit in the last place, ties to even
                            let bits = 128 - exact.unsigned_abs().leading_zeros() as i128;
                            let ulp = if bits > 53 { 1i128 << (bits - 53) } else { 0 };
                            ensure!(got.fract() == 0.0 && 2 * (t - exact).abs() <= ulp, "{exact} converted to {got}");
                            if ulp > 0 && 2 * (t - exact).abs() == ulp { ensure!(got.to_bits() & 1 == 0, "tie of {exact} not rounded to even"); }
                        }
                        _ => {
                            let want = if op == ConvertOpDef::itostring_u { format!("{u}") } else { format!("{s}") };
                            let got = g[0].get_custom_value::<ConstString>().ok_or("not a string")?;
                            ensure!(got.value() == want, "string {:?} instead of {want:?}", got.value());
                        }
                    }
                    Ok(()) });
            }
            if matches!(op, ConvertOpDef::itostring_u | ConvertOpDef::itostring_s) {
                c.case(name, || format!("{name}<{lw}> on another width"), || { ensure!(fold(&eo, &vec![(0.into(), int((lw + 1) % 7, 1))])?.is_none(), "folded"); Ok(()) });
            }
        }
    }
    for op in ConvertOpDef::iter() {
        let name: &'static str = (&op).into();
        let mk = || op.without_log_width().to_extension_op().unwrap();
        match op {
            ConvertOpDef::itobool => for u in 0..2 { let eo = mk(); c.case(name, || format!("{name}({u})"), || { let g = fold(&eo, &vec![(0.into(), int(0, u))])?.ok_or("left unfolded")?; ensure!(g[0] == Value::from_bool(u == 1), "{:?}", g[0]); Ok(()) }); },
            ConvertOpDef::ifrombool => for u in 0..2 { let eo = mk(); c.case(name, || format!("{name}({u})"), || { let g = fold(&eo, &vec![(0.into(), Value::from_bool(u == 1))])?.ok_or("left unfolded")?; ensure!(i_of(&g[0]) == Some((0, u)), "{:?}", g[0]); Ok(()) }); },
            ConvertOpDef::itousize => { let eo = mk(); for &u in &us { c.case(name, || format!("{name}({u})"), || { let g = fold(&eo, &vec![(0.into(), int(6, u))])?.ok_or("left unfolded")?; ensure!(g[0].get_custom_value::<ConstUsize>().map(|x| x.value()) == Some(u), "{:?}", g[0]); Ok(()) }); } }
            ConvertOpDef::ifromusize => { let eo = mk(); for &u in &us { c.case(name, || format!("{name}({u})"), || { let g = fold(&eo, &vec![(0.into(), ConstUsize::new(u).into())])?.ok_or("left unfolded")?; ensure!(i_of(&g[0]) == Some((6, u)), "{:?}", g[0]); Ok(()) }); } }
            ConvertOpDef::bytecast_int64_to_float64 => { let eo = mk(); let mut b = us.clone(); b.extend(fs.iter().map(|f| f.to_bits())); for u in b { c.case(name, || format!("{name}({u})"), || { if let Some(g) = fold(&eo, &vec![(0.into(), int(6, u))])? { ensure!(f_of(&g[0]).map(f64::to_bits) == Some(u), "{:?}", g[0]); } Ok(()) }); } }
            ConvertOpDef::bytecast_float64_to_int64 => { let eo = mk(); for &f in &fs { c.case(name, || format!("{name}({f:?})"), || { if let Some(g) = fold(&eo, &vec![(0.into(), fl(f))])? { ensure!(i_of(&g[0]) == Some((6, f.to_bits())), "{:?}", g[0]); } Ok(()) }); } }
            _ => {}
        }
    }
    // logic: a partially known input may fold only if the result is forced
    for op in LogicOp::iter() {
        let name: &'static str = (&op).into();
        let eo = op.to_extension_op().unwrap();
        let k = if op == LogicOp::Not { 1 } else { 2 };
        let tt = |v: &[bool]| match op { LogicOp::And => v[0] && v[1], LogicOp::Or => v[0] || v[1], LogicOp::Eq => v[0] == v[1], LogicOp::Xor => v[0] != v[1], LogicOp::Not => !v[0], _ => unreachable!() };
        for code in 0..3usize.pow(k as u32) { for rev in [false, true] {
            let known: Vec<Option<bool>> = (0..k).map(|i| match code / 3usize.pow(i as u32) % 3 { 0 => None, x => Some(x == 2) }).collect();
            let ins: In = known.iter().enumerate().filter_map(|(i, b)| b.map(|b| (i.into(), Value::from_bool(b)))).collect();
            let ins: In = if rev { ins.into_iter().rev().collect() } else { ins };
            let mut results = vec![];
            for m in 0..(1 << k) { let v: Vec<bool> = (0..k).map(|i| m >> i & 1 == 1).collect(); if known.iter().zip(&v).all(|(a, b)| a.is_none_or(|a| a == *b)) { results.push(tt(&v)); } }
            results.sort(); results.dedup();
            c.case(name, || format!("{name}({known:?}) reversed:{rev}"), || {
                match fold(&eo, &ins)? {
                    None => ensure!(known.iter().any(|x| x.is_none()), "left unfolded with all inputs known"),
                    Some(g) => ensure!(results.len() == 1 && g[0] == Value::from_bool(results[0]), "{:?} but the possible results are {results:?}", g[0]),
                }
                Ok(()) });
        } }
    }
    // floats
    let small: Vec<f64> = { let mut v: Vec<f64> = fs.iter().copied().take(29).collect(); for _ in 0..c.n(30, 200) { v.push(fs[c.rng.below(fs.len())]); } v };
    for op in FloatOps::iter() {
        use FloatOps::*;
        let name: &'static str = (&op).into();
        let eo = op.to_extension_op().unwrap();
        let key = |x: f64| { let b = x.to_bits() as i64; let b = if b < 0 { -(b & i64::MAX) } else { b }; b }; // IEEE order on finite floats, -0 = +0
        match op {
            fneg | fabs | ffloor | fceil | fround | ftostring => for &x in &fs {
                c.case(name, || format!("{name}({x:?})"), || {
                    let g = fold(&eo, &vec![(0.into(), fl(x))])?.ok_or("left unfolded")?;
                    if op == ftostring { let s = g[0].get_custom_value::<ConstString>().ok_or("not a string")?; ensure!(s.value().parse::<f64>().is_ok_and(|y| same(x, y)), "{:?}", s.value()); return Ok(()); }
                    let y = f_of(&g[0]).ok_or("not a float")?;
                    let ok = match op {
                        fneg => y.to_bits() == x.to_bits() ^ (1 << 63), fabs => y.to_bits() == x.to_bits() & !(1 << 63),
                        _ => {
                            let (lo, hi) = match trunc_exact(x) { Some(t) if (t as f64) == x => (t, t), Some(t) => if x > 0.0 { (t, t + 1) } else { (t - 1, t) }, None => { return if same(x, y) { Ok(()) } else { Err(format!("{y}")) } } };
                            let t = trunc_exact(y).ok_or("huge")?;
                            y.fract() == 0.0 && match op { ffloor => t == lo, fceil => t == hi,
                                _ => { if lo == hi { t == lo } else { let fr = x.abs().fract(); let away = if x > 0.0 { hi } else { lo }; let toward = if x > 0.0 { lo } else { hi }; if fr == 0.5 { t == away || t == toward } else if fr > 0.5 { t == away } else { t == toward } } } }
                        } };
                    ensure!(ok, "result {y:?}"); Ok(()) });
            },
            _ => for &x in &small { for &y in &small { for rev in [false, true] {
                c.case(name, || format!("{name}({x:?},{y:?}) reversed:{rev}"), || {
                    let mut ins: In = vec![(0.into(), fl(x)), (1.into(), fl(y))]; if rev { ins.reverse(); }
                    let g = fold(&eo, &ins)?;
                    let cmp = match op { feq => Some(key(x) == key(y)), fne => Some(key(x) != key(y)), flt => Some(key(x) < key(y)), fgt => Some(key(x) > key(y)), fle => Some(key(x) <= key(y)), fge => Some(key(x) >= key(y)), _ => None };
                    if let Some(b) = cmp { let g = g.ok_or("left unfolded")?; ensure!(g[0] == Value::from_bool(b), "{:?}", g[0]); return Ok(()); }
                    let want: f64 = match op { fmax => if key(x) >= key(y) { x } else { y }, fmin => if key(x) <= key(y) { x } else { y },
                        fadd => x + y, fsub => x - y, fmul => x * y, fdiv => x / y, fpow => x.powf(y), _ => unreachable!() };
                    match g {
                        None => ensure!(!want.is_finite(), "left unfolded, expected {want}"),
                        Some(g) => { let r = f_of(&g[0]).ok_or("not a float")?; ensure!(want.is_finite() && (same(r, want) || (matches!(op, fmax | fmin) && r == want)), "{r:?} instead of {want:?}"); }
                    }
                    Ok(()) });
            } } },
        }
        if op != ftostring { c.case(name, || format!("{name} no input"), || { ensure!(fold(&eo, &vec![])?.is_none(), "folded"); Ok(()) }); }
    }
    c.finish()
}
