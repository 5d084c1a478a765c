//! A01 - contracts of the constant folders of `arithmetic.int`, evaluated on the real code.
use hugr_core::extension::prelude::ConstError;
use hugr_core::extension::simple_op::MakeRegisteredOp;
use hugr_core::ops::{Value, DataflowOpTrait};
use hugr_core::ops::custom::ExtensionOp;
use hugr_core::std_extensions::arithmetic::int_ops::IntOpDef;
use hugr_core::std_extensions::arithmetic::int_types::{ConstInt, INT_TYPES};
use hugr_core::{IncomingPort, ops};
use hx::{Ctx, ensure};
use strum::IntoEnumIterator;

#[derive(Clone, Debug, PartialEq)]
enum V { I(u8, u64), B(bool), Err, Ok(Vec<(u8, u64)>) }
type Exp = Option<Vec<V>>; // None: documented to be left unfolded

fn mask(lw: u8) -> u64 { let w = 1u32 << lw; if w == 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn sg(lw: u8, x: u64) -> i128 { let w = 1u32 << lw; let x = x as i128; if x >= 1i128 << (w - 1) { x - (1i128 << w) } else { x } }
fn wrap(lw: u8, x: i128) -> u64 { (x.rem_euclid(1i128 << (1u32 << lw))) as u64 }
fn pw(lw: u8, b: u64, mut e: u64) -> u64 {
    let m = 1u128 << (1u32 << lw);
    let mut r = 1u128 % m; let mut b = b as u128;
    while e > 0 { if e & 1 == 1 { r = (r * b) & (m - 1); } b = (b * b) & (m - 1); e >>= 1; }
    r as u64
}
/// The documented meaning of each one-width operation.
fn meaning(op: IntOpDef, lw: u8, a: u64, b: u64) -> Exp {
    use IntOpDef::*;
    let w = 1u64 << lw;
    let (sa, sb) = (sg(lw, a), sg(lw, b));
    let i = |x: u64| Some(vec![V::I(lw, x)]);
    let bo = |x: bool| Some(vec![V::B(x)]);
    let qu = || { (a / b, a % b) };
    let qs = || { let q = sa.div_euclid(b as i128); let r = sa.rem_euclid(b as i128); (wrap(lw, q), r as u64) };
    match op {
        ieq => bo(a == b), ine => bo(a != b),
        ilt_u => bo(a < b), igt_u => bo(a > b), ile_u => bo(a <= b), ige_u => bo(a >= b),
        ilt_s => bo(sa < sb), igt_s => bo(sa > sb), ile_s => bo(sa <= sb), ige_s => bo(sa >= sb),
        imax_u => i(a.max(b)), imin_u => i(a.min(b)),
        imax_s => i(wrap(lw, sa.max(sb))), imin_s => i(wrap(lw, sa.min(sb))),
        iadd => i(wrap(lw, a as i128 + b as i128)), isub => i(wrap(lw, a as i128 - b as i128)),
        ineg => i(wrap(lw, -(a as i128))),
        imul => i(((a as u128 * b as u128) & (mask(lw) as u128)) as u64),
        ipow => i(pw(lw, a, b)),
        iabs => i(wrap(lw, sa.abs())),
        iand => i(a & b), ior => i(a | b), ixor => i(a ^ b), inot => i(mask(lw) ^ a),
        ishl => i(if b >= w { 0 } else { (((a as u128) << b) & mask(lw) as u128) as u64 }),
        ishr => i(if b >= w { 0 } else { a >> b }),
        irotl | irotr => {
            let k = b % w; let k = if op == irotr { (w - k) % w } else { k };
            let wide = (a as u128) << k;
            i((wide as u64 & mask(lw)) | ((wide >> w) as u64))
        }
        is_to_u | iu_to_s => if sa >= 0 { i(a) } else { None },
        idivmod_u => if b == 0 { None } else { let (q, r) = qu(); Some(vec![V::I(lw, q), V::I(lw, r)]) },
        idivmod_s => if b == 0 { None } else { let (q, r) = qs(); Some(vec![V::I(lw, q), V::I(lw, r)]) },
        idiv_u => if b == 0 { None } else { i(qu().0) }, imod_u => if b == 0 { None } else { i(qu().1) },
        idiv_s => if b == 0 { None } else { i(qs().0) }, imod_s => if b == 0 { None } else { i(qs().1) },
        idivmod_checked_u => Some(vec![if b == 0 { V::Err } else { let (q, r) = qu(); V::Ok(vec![(lw, q), (lw, r)]) }]),
        idivmod_checked_s => Some(vec![if b == 0 { V::Err } else { let (q, r) = qs(); V::Ok(vec![(lw, q), (lw, r)]) }]),
        idiv_checked_u => Some(vec![if b == 0 { V::Err } else { V::Ok(vec![(lw, qu().0)]) }]),
        imod_checked_u => Some(vec![if b == 0 { V::Err } else { V::Ok(vec![(lw, qu().1)]) }]),
        idiv_checked_s => Some(vec![if b == 0 { V::Err } else { V::Ok(vec![(lw, qs().0)]) }]),
        imod_checked_s => Some(vec![if b == 0 { V::Err } else { V::Ok(vec![(lw, qs().1)]) }]),
        _ => unreachable!(),
    }
}
fn conv(op: IntOpDef, l0: u8, l1: u8, a: u64) -> Exp {
    use IntOpDef::*;
    match op {
        iwiden_u => (l0 <= l1).then(|| vec![V::I(l1, a)]),
        iwiden_s => (l0 <= l1).then(|| vec![V::I(l1, wrap(l1, sg(l0, a)))]),
        inarrow_u => (l0 >= l1).then(|| vec![if a <= mask(l1) { V::Ok(vec![(l1, a)]) } else { V::Err }]),
        inarrow_s => (l0 >= l1).then(|| { let s = sg(l0, a); let h = 1i128 << ((1u32 << l1) - 1);
            vec![if -h <= s && s < h { V::Ok(vec![(l1, wrap(l1, s))]) } else { V::Err }] }),
        _ => unreachable!(),
    }
}
fn ci(v: &Value) -> Option<(u8, u64)> { v.get_custom_value::<ConstInt>().map(|c| (c.log_width(), c.value_u())) }
fn matches(v: &Value, e: &V) -> bool {
    match e {
        V::I(lw, x) => ci(v) == Some((*lw, *x)),
        V::B(b) => *v == Value::from_bool(*b),
        V::Err => match v { Value::Sum(s) => s.tag == 0 && s.values.len() == 1 && s.values[0].get_custom_value::<ConstError>().is_some(), _ => false },
        V::Ok(xs) => match v {
            Value::Sum(s) if s.tag == 1 => {
                if xs.len() == 1 { s.values.len() == 1 && ci(&s.values[0]) == Some(xs[0]) }
                else { s.values.len() == 1 && match &s.values[0] {
                    Value::Sum(t) => t.tag == 0 && t.values.len() == xs.len() && t.values.iter().zip(xs).all(|(v, x)| ci(v) == Some(*x)),
                    _ => false } }
            }
            _ => false },
    }
}
fn int(lw: u8, v: u64) -> Value { ConstInt::new_u(lw, v).unwrap().into() }
fn check(op: &ExtensionOp, ins: &[(IncomingPort, Value)], exp: Exp) -> Result<(), String> {
    let got = op.constant_fold(ins);
    match (got, exp) {
        (None, None) => Ok(()),
        (Some(g), None) => Err(format!("must be left unfolded, folded to {g:?}")),
        (None, Some(e)) => Err(format!("left unfolded, documented result {e:?}")),
        (Some(mut g), Some(e)) => {
            g.sort_by_key(|(p, _)| *p);
            let sig = op.signature();
            ensure!(g.len() == e.len(), "{} outputs instead of {}", g.len(), e.len());
            for (k, ((p, v), x)) in g.iter().zip(&e).enumerate() {
                ensure!(p.index() == k, "output port {p:?} at position {k}");
                ensure!(matches(v, x), "output {k} is {v:?}, documented {x:?}");
                let ty = &sig.output[k];
                ensure!(v.get_type() == *ty, "output {k} has type {} but the operation declares {}", v.get_type(), ty);
            }
            Ok(())
        }
    }
}
use hugr_core::core::PortIndex;
fn boundary(lw: u8) -> Vec<u64> {
    let w = 1u64 << lw; let m = mask(lw); let h = 1u64 << (w - 1);
    let mut v = vec![0, 1, 2, 3, 5, 7, w, w - 1, w + 1, w / 2, h, h - 1, h + 1, m, m - 1, m / 3, h / 2, 31, 32, 33, 63, 64, 65, 127, u32::MAX as u64, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, m - w, h + w];
    v.retain(|x| *x <= m); v.sort(); v.dedup(); v
}
fn unary(op: IntOpDef) -> bool { use IntOpDef::*; matches!(op, ineg | iabs | inot | iu_to_s | is_to_u) }
fn wide(op: IntOpDef) -> bool { use IntOpDef::*; matches!(op, iwiden_u | iwiden_s | inarrow_u | inarrow_s) }

fn main() {
    let mut c = Ctx::from_env("A01");
    let _ = ops::OpTag::Any; let _ = &INT_TYPES;
    for op in IntOpDef::iter() {
        let name: &'static str = op.into();
        if !c.want(name) { continue; }
        if wide(op) {
            for l0 in 0..=6u8 { for l1 in 0..=6u8 {
                let Ok(eo) = op.with_two_log_widths(l0, l1).to_extension_op() else { continue };
                let mut xs = boundary(l0);
                for l in 0..=6 { xs.extend(boundary(l).into_iter().filter(|x| *x <= mask(l0))); }
                for l in 0..6u8 { // values around +-2^(2^l-1) in signed reading
                    let w = 1u32 << l; for d in -2i128..=2 { xs.push(wrap(l0, -(1i128 << (w - 1)) + d)); xs.push(wrap(l0, (1i128 << (w-1)) + d)); } }
                for _ in 0..c.n(20, 2000) { xs.push(c.rng.next() & mask(l0)); }
                if l0 <= 3 { xs = (0..=mask(l0)).collect(); }
                xs.sort(); xs.dedup();
                for a in xs {
                    c.case(name, || format!("{name}<{l0},{l1}>({a})"), || check(&eo, &[(0.into(), int(l0, a))], conv(op, l0, l1, a)));
                }
                for l in 0..=6u8 { if l != l0 { c.case(name, || format!("{name}<{l0},{l1}> on width-{l} constant"), || check(&eo, &[(0.into(), int(l, 1))], None)); } }
                c.case(name, || format!("{name}<{l0},{l1}> no input"), || check(&eo, &[], None));
            } }
            continue;
        }
        for lw in 0..=6u8 {
            let eo = op.with_log_width(lw).to_extension_op().unwrap();
            if unary(op) {
                let mut xs = boundary(lw);
                for _ in 0..c.n(50, 5000) { xs.push(c.rng.next() & mask(lw)); }
                if lw <= 3 { xs = (0..=mask(lw)).collect(); }
                for a in xs {
                    // the project's own tests demand a panic here: recorded as a known finding under its own name
                    if meaning(op, lw, a, 0).is_none() {
                        let kf = format!("{name}#panics-out-of-range");
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(&eo, &[(0.into(), int(lw, a))], None)));
                        c.case(if r.is_err() { &kf } else { name }, || format!("{name}<{lw}>({a})"), || r.unwrap_or_else(|_| Err("panicked instead of being left unfolded".into())));
                        continue;
                    }
                    c.case(name, || format!("{name}<{lw}>({a})"), || check(&eo, &[(0.into(), int(lw, a))], meaning(op, lw, a, 0))); }
                for l in 0..=6u8 { if l != lw { c.case(name, || format!("{name}<{lw}> on width-{l} constant"), || check(&eo, &[(0.into(), int(l, 1))], None)); } }
            } else {
                let mut ps: Vec<(u64, u64)> = vec![];
                if lw <= 2 || (lw == 3 && c.thorough) { for a in 0..=mask(lw) { for b in 0..=mask(lw) { ps.push((a, b)); } } }
                else {
                    let bs = boundary(lw);
                    for a in &bs { for b in &bs { ps.push((*a, *b)); } }
                    for _ in 0..c.n(300, 20000) { let s = c.rng.below(1 << lw); ps.push((c.rng.next() & mask(lw), (c.rng.next() & mask(lw)) >> s)); }
                }
                for (a, b) in ps {
                    c.case(name, || format!("{name}<{lw}>({a},{b})"), || check(&eo, &[(0.into(), int(lw, a)), (1.into(), int(lw, b))], meaning(op, lw, a, b)));
                }
                for (x, y) in [(lw, (lw + 1) % 7), ((lw + 1) % 7, lw), ((lw + 3) % 7, (lw + 3) % 7)] {
                    c.case(name, || format!("{name}<{lw}> on widths {x},{y}"), || check(&eo, &[(0.into(), int(x, 1)), (1.into(), int(y, 1))], None));
                }
                c.case(name, || format!("{name}<{lw}> non-integer"), || check(&eo, &[(0.into(), Value::true_val()), (1.into(), int(lw, 1))], None));
                c.case(name, || format!("{name}<{lw}> one input known"), || check(&eo, &[(0.into(), int(lw, 1))], None));
                c.case(name, || format!("{name}<{lw}> other input known"), || check(&eo, &[(1.into(), int(lw, 1))], None));
            }
        }
    }
    c.finish()
}
