//! A02 - contracts of `ConstInt` and of the log-width argument.
use hugr_core::extension::simple_op::HasConcrete;
use hugr_core::ops::Value;
use hugr_core::ops::constant::CustomConst;
use hugr_core::std_extensions::arithmetic::int_ops::IntOpDef;
use hugr_core::std_extensions::arithmetic::int_types::{ConstInt, INT_TYPES, LOG_WIDTH_TYPE_PARAM, int_type, is_valid_log_width};
use hugr_core::types::type_param::{TypeArg, check_term_type};
use hx::{Ctx, ensure};

fn in_u(lw: u8, v: u64) -> bool { lw <= 6 && (lw == 6 || (v as u128) < (1u128 << (1u32 << lw))) }
fn in_s(lw: u8, v: i64) -> bool { lw <= 6 && { let h = 1i128 << ((1u32 << lw) - 1); -h <= v as i128 && (v as i128) < h } }
fn sread(lw: u8, x: u64) -> i64 { let w = 1u32 << lw; let x = x as i128; (if x >= 1i128 << (w - 1) { x - (1i128 << w) } else { x }) as i64 }
fn wrap(lw: u8, x: i64) -> u64 { (x as i128).rem_euclid(1i128 << (1u32 << lw)) as u64 }

fn check_u(lw: u8, v: u64) -> Result<(), String> {
    let r = ConstInt::new_u(lw, v);
    ensure!(r.is_ok() == in_u(lw, v), "new_u gives {r:?}, representable: {}", in_u(lw, v));
    if let Ok(c) = r {
        ensure!(c.log_width() == lw && c.value_u() == v, "new_u stored {c:?}");
        ensure!(c.value_s() == sread(lw, v), "value_s is {}, expected {}", c.value_s(), sread(lw, v));
        ensure!(c.get_type() == INT_TYPES[lw as usize], "type {}", c.get_type());
        let s = ConstInt::new_s(lw, c.value_s());
        ensure!(s.as_ref().ok() == Some(&c), "new_s(value_s) = {s:?} differs from {c:?}");
        let j = serde_json::to_value(&c).unwrap();
        let back: Result<ConstInt, _> = serde_json::from_value(j);
        ensure!(back.as_ref().ok() == Some(&c), "serialisation round trip gives {back:?}");
    }
    let j = serde_json::json!({"log_width": lw, "value": v});
    let d: Result<ConstInt, _> = serde_json::from_value(j);
    ensure!(d.is_ok() == in_u(lw, v), "loading gives {d:?}, representable: {}", in_u(lw, v));
    Ok(())
}
fn check_s(lw: u8, v: i64) -> Result<(), String> {
    let r = ConstInt::new_s(lw, v);
    ensure!(r.is_ok() == in_s(lw, v), "new_s gives {r:?}, representable: {}", in_s(lw, v));
    if let Ok(c) = r {
        ensure!(c.log_width() == lw && c.value_u() == wrap(lw, v), "new_s stored {c:?}, two's complement image {}", wrap(lw, v));
        ensure!(c.value_s() == v, "value_s is {}, created with {v}", c.value_s());
    }
    Ok(())
}
fn main() {
    let mut c = Ctx::from_env("A02");
    let mut us: Vec<u64> = vec![0, 1, 2, 3, u64::MAX, u64::MAX - 1];
    for k in 0..64u32 { for d in [-2i128, -1, 0, 1, 2] { let x = (1i128 << k) + d; if x >= 0 { us.push(x as u64); } us.push((-x) as u64); } }
    for _ in 0..c.n(2000, 200000) { let s = c.rng.below(64); us.push(c.rng.next() >> s); }
    us.sort(); us.dedup();
    for lw in (0..=12u8).chain([63, 64, 65, 127, 128, 254, 255]) {
        for &v in &us {
            c.case("new_u", || format!("new_u({lw},{v})"), || check_u(lw, v));
            c.case("new_s", || format!("new_s({lw},{})", v as i64), || check_s(lw, v as i64));
        }
    }
    for lw in 0..=255u8 { c.case("valid_width", || format!("is_valid_log_width({lw})"), || { ensure!(is_valid_log_width(lw) == (lw <= 6), "wrong"); Ok(()) }); }
    let small: Vec<ConstInt> = (0..=6u8).flat_map(|l| us.iter().copied().filter(move |v| in_u(l, *v)).take(12).filter_map(move |v| ConstInt::new_u(l, v).ok())).collect();
    for a in &small { for b in &small {
        c.case("equality", || format!("{a:?} == {b:?}"), || {
            let want = a.log_width() == b.log_width() && a.value_u() == b.value_u();
            ensure!((a == b) == want, "== gives {}", a == b);
            ensure!(a.equal_consts(b) == want, "equal_consts gives {}", a.equal_consts(b));
            ensure!((Value::from(a.clone()) == Value::from(b.clone())) == want, "Value equality");
            Ok(()) });
    } }
    let mut ns: Vec<u64> = (0..600).collect(); ns.extend(&us);
    for n in ns {
        c.case("width_arg", || format!("width argument {n}"), || {
            let a: TypeArg = n.into();
            ensure!(check_term_type(&a, &LOG_WIDTH_TYPE_PARAM).is_ok() == (n <= 6), "parameter check accepts: {}", n > 6);
            let r = IntOpDef::iadd.instantiate(&[a.clone()]);
            ensure!(r.is_ok() == (n <= 6), "operation instantiation gives {r:?}");
            if let Ok(r) = r { ensure!(r.log_widths == vec![n as u8], "{r:?}"); }
            if n <= 6 { ensure!(int_type(a) == INT_TYPES[n as usize], "int_type"); }
            Ok(()) });
    }
    for (i, a) in [TypeArg::from("x"), TypeArg::new_list([]), TypeArg::from(hugr_core::extension::prelude::usize_t())].into_iter().enumerate() {
        c.case("width_arg", || format!("non-number argument {i}"), || { ensure!(IntOpDef::iadd.instantiate(&[a]).is_err(), "accepted"); Ok(()) });
    }
    c.finish()
}
