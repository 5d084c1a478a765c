//! T05: executable contracts of constants: which are accepted at which sum types, at any nesting.
use hugr_core::builder::{Dataflow, DFGBuilder, DataflowHugr, FunctionBuilder};
use hugr_core::extension::prelude::{ConstExternalSymbol, ConstString, ConstUsize, bool_t, usize_t};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::constant::Sum;
use hugr_core::ops::{self, Value};
use hugr_core::std_extensions::arithmetic::float_types::ConstF64;
use hugr_core::std_extensions::arithmetic::int_types::ConstInt;
use hugr_core::std_extensions::collections::array::ArrayValue;
use hugr_core::std_extensions::collections::list::ListValue;
use hugr_core::std_extensions::collections::static_array::StaticArrayValue;
use hugr_core::types::{PolyFuncType, Signature, SumType, Type, TypeBound, TypeRV, TypeRow, TypeRowRV};
use hugr_core::{Hugr, HugrView, types::SumTypeError};
use hx::{Ctx, Rng, ensure, generators as g, keys::{key, rkey, rows_of}};

fn tk(t: &Type) -> String { key(&t.clone().into()) }
fn func(poly: bool) -> Hugr {
    if poly {
        let b = FunctionBuilder::new("p", PolyFuncType::new([TypeBound::Copyable.into()], Signature::new_endo(bool_t()))).unwrap();
        let w: Vec<_> = b.input_wires().collect();
        b.finish_hugr_with_outputs(w).unwrap()
    } else {
        let b = DFGBuilder::new(Signature::new_endo(vec![bool_t(), usize_t()])).unwrap();
        let w: Vec<_> = b.input_wires().collect();
        b.finish_hugr_with_outputs(w).unwrap()
    }
}
/// the program's function type when it is monomorphic
fn mono(h: &Hugr) -> Option<Signature> {
    match h.poly_func_type() { Some(p) => p.params().is_empty().then(|| p.body().clone()), None => h.inner_function_type().map(|s| s.into_owned()) }
}
/// the elements and element type of a collection constant
fn collection(v: &Value) -> Option<(&[Value], &Type)> {
    if let Some(l) = v.get_custom_value::<ListValue>() { return Some((l.get_contents(), l.get_element_type())); }
    if let Some(a) = v.get_custom_value::<ArrayValue>() { return Some((a.get_contents(), a.get_element_type())); }
    v.get_custom_value::<StaticArrayValue>().map(|a| (a.get_contents(), a.get_element_type()))
}
/// The type a constant is given, if it has one.
fn type_of(v: &Value) -> Option<String> {
    match v {
        Value::Function { hugr } => mono(hugr).map(|s| tk(&Type::new_function(s))),
        Value::Sum(s) => Some(key(&TypeRV::from(s.sum_type.clone()))),
        Value::Extension { e } => Some(tk(&e.value().get_type())),
    }
}
/// `values` is an instance of variant `tag`
fn instance(s: &SumType, tag: usize, values: &[Value]) -> bool {
    let rows = rows_of(s);
    tag < rows.len() && rows[tag].len() == values.len() && rows[tag].iter().all(|t| !t.is_row_var()) && rows[tag].iter().zip(values).all(|(t, v)| type_of(v).as_deref() == Some(&key(t)))
}
/// Reference: does the constant inhabit its type, at every level?
fn inhabits(v: &Value) -> bool {
    match v {
        Value::Function { hugr } => mono(hugr).is_some(),
        Value::Sum(s) => instance(&s.sum_type, s.tag, &s.values) && s.values.iter().all(inhabits),
        Value::Extension { e } => match collection(v) {
            Some((vs, t)) => vs.iter().all(|v| inhabits(v) && type_of(v).as_deref() == Some(&tk(t))),
            None => e.value().downcast_ref::<ConstExternalSymbol>().is_none_or(|c| format!("{:?}", c) != format!("{:?}", ConstExternalSymbol::new("", c.get_type_of(), false)) && format!("{:?}", c) != format!("{:?}", ConstExternalSymbol::new("", c.get_type_of(), true))),
        },
    }
}
/// float constants are never equal, so constants are compared by their text
fn alike(a: &[Value], b: &[Value]) -> bool { format!("{a:?}") == format!("{b:?}") }
trait Ty { fn get_type_of(&self) -> Type; }
impl Ty for ConstExternalSymbol { fn get_type_of(&self) -> Type { hugr_core::ops::constant::CustomConst::get_type(self) } }

struct Gen { bad: usize, poly: bool }
impl Gen {
    fn oops(&self, r: &mut Rng) -> bool { self.bad > 0 && r.below(self.bad) == 0 }
    fn leaf(&self, r: &mut Rng) -> Value {
        match r.below(9) {
            0 => ConstUsize::new(r.next()).into(), 1 => ConstInt::new_u(5, r.below(1000) as u64).unwrap().into(), 2 => ConstInt::new_s(6, -3).unwrap().into(),
            3 => ConstF64::new(1.5).into(), 4 => ConstString::new("s".into()).into(), 5 => Value::from_bool(r.bool()), 6 => Value::unit(),
            7 => if self.oops(r) { ConstExternalSymbol::new("", usize_t(), r.bool()).into() } else { ConstExternalSymbol::new("x", usize_t(), r.bool()).into() },
            _ => Value::Function { hugr: Box::new(func(self.poly && self.oops(r))) },
        }
    }
    fn values(&self, r: &mut Rng, depth: usize) -> Vec<Value> { (0..r.below(4)).map(|_| self.value(r, depth)).collect() }
    fn types(&self, vs: &[Value]) -> Vec<Type> {
        vs.iter().map(|v| match v { Value::Function { hugr } => mono(hugr).map_or(usize_t(), Type::new_function), Value::Sum(s) => s.sum_type.clone().into(), v => v.get_type() }).collect()
    }
    fn value(&self, r: &mut Rng, depth: usize) -> Value {
        if depth == 0 { return self.leaf(r); }
        match r.below(7) {
            0 => self.leaf(r),
            1 => { // a collection of like values
                let n = r.below(4);
                let first = self.value(r, depth - 1);
                let ty = self.types(std::slice::from_ref(&first)).remove(0);
                let mut vs = vec![first; n];
                if self.oops(r) && n > 0 { vs[r.below(n)] = self.value(r, depth - 1); }
                match r.below(3) { 0 => ListValue::new(ty, vs).into(), 1 => ArrayValue::new(ty, vs).into(), _ => StaticArrayValue::try_new("a", ty, vs).map_or(Value::unit(), Into::into) }
            }
            _ => {
                let vs = self.values(r, depth - 1);
                let (tag, rows) = self.rows(r, &vs);
                self.sum(r, tag, vs, rows)
            }
        }
    }
    /// a list of variants in which these values are one
    fn rows(&self, r: &mut Rng, vs: &[Value]) -> (usize, Vec<TypeRowRV>) {
        let mut rows: Vec<TypeRowRV> = (0..r.below(3)).map(|_| if r.bool() { TypeRowRV::new() } else { g::row(r, 1, &vec![]).into() }).collect();
        let tag = r.below(rows.len() + 1);
        rows.insert(tag, TypeRow::from(self.types(vs)).into());
        (tag, rows)
    }
    fn sum(&self, r: &mut Rng, mut tag: usize, mut vs: Vec<Value>, mut rows: Vec<TypeRowRV>) -> Value {
        if self.oops(r) { self.spoil(r, &mut tag, &mut vs, &mut rows); }
        let sum_type = if rows.iter().all(|x| x.is_empty()) && r.bool() { SumType::new_unary(rows.len() as u8) } else if r.bool() { SumType::General { rows } } else { SumType::new(rows) };
        Value::Sum(Sum { tag, values: vs, sum_type })
    }
    fn spoil(&self, r: &mut Rng, tag: &mut usize, vs: &mut Vec<Value>, rows: &mut Vec<TypeRowRV>) {
        match r.below(8) {
            0 => *tag = rows.len(), 1 => *tag = r.below(rows.len() + 2), 2 => { vs.push(self.leaf(r)); }, 3 => { vs.pop(); },
            4 => { if vs.len() > 1 { let i = r.below(vs.len() - 1); vs.swap(i, i + 1); } }
            5 => { if !vs.is_empty() { let i = r.below(vs.len()); vs[i] = self.leaf(r); } }
            6 => { if let Some(x) = rows.get_mut(*tag) { x.to_mut().push(TypeRV::new_row_var_use(0, TypeBound::Copyable)); } }
            _ => { *tag = usize::MAX - r.below(2); }
        }
    }
}
fn show(v: &Value) -> String { format!("{v:?}").chars().take(400).collect() }
fn one(c: &mut Ctx, obl: &str, what: String, f: impl FnOnce() -> Result<(), String>) { c.case(obl, || what, f) }

/// the check accepts exactly the instances, with the right reason otherwise
fn check(s: &SumType, tag: usize, vs: &[Value]) -> Result<(), String> {
    let rows = rows_of(s);
    let want = instance(s, tag, vs);
    let got = s.check_type(tag, vs);
    ensure!(got.is_ok() == want, "check_type gives {:?}, the values {} variant {tag}", got.as_ref().err().map(|e| e.to_string()), if want { "are an instance of" } else { "are no instance of" });
    if let Err(e) = &got {
        let ok = match e {
            SumTypeError::InvalidTag { tag: t, num_variants } => *t == tag && *num_variants == rows.len() && tag >= rows.len(),
            SumTypeError::WrongVariantLength { tag: t, expected, found } => *t == tag && tag < rows.len() && *expected == rows[tag].len() && *found == vs.len() && expected != found,
            SumTypeError::VariantNotConcrete { tag: t, .. } => *t == tag && tag < rows.len() && rows[tag].iter().any(|t| t.is_row_var()),
            SumTypeError::InvalidValueType { tag: t, index, expected, found } => *t == tag && tag < rows.len() && rows[tag].len() == vs.len() && tk(expected) == key(&rows[tag][*index]) && alike(std::slice::from_ref(&**found), &vs[*index..=*index]) && type_of(found).as_deref() != Some(&key(&rows[tag][*index])),
            _ => true,
        };
        ensure!(ok, "the error {e:?} does not describe the mismatch");
    }
    Ok(())
}
fn main() {
    let mut c = Ctx::from_env("T05");
    let mut r = c.rng.clone();
    // the constructors
    for size in 0..=20u8 { for tag in (0..24usize).chain([255, 256, 257, 512, usize::MAX]) {
        one(&mut c, "Value::unit_sum", format!("unit_sum({tag}, {size})"), || {
            let got = Value::unit_sum(tag, size);
            ensure!(got.is_ok() == (tag < size as usize), "gives {}", got.is_ok());
            if let Ok(v) = got { ensure!(inhabits(&v), "does not inhabit its type: {v:?}"); ensure!(matches!(&v, Value::Sum(s) if s.tag == tag && rows_of(&s.sum_type).len() == size as usize), "gives {v:?}"); }
            Ok(())
        });
    } }
    for (n, v, tag, k) in [("unit", Value::unit(), 0, 1), ("unary_unit_sum", Value::unary_unit_sum(), 0, 1), ("true_val", Value::true_val(), 1, 2), ("false_val", Value::false_val(), 0, 2), ("from_bool", Value::from_bool(true), 1, 2), ("from_bool", Value::from_bool(false), 0, 2)] {
        one(&mut c, &format!("Value::{n}"), format!("{n} {tag}"), || { ensure!(inhabits(&v) && v.validate().is_ok(), "{v:?}"); ensure!(matches!(&v, Value::Sum(s) if s.tag == tag && s.values.is_empty() && rows_of(&s.sum_type).len() == k), "{v:?}"); Ok(()) });
    }
    let good = Gen { bad: 0, poly: false };
    for i in 0..c.n(400, 4000) {
        let vs = good.values(&mut r, (i % 4) as usize);
        let tys: String = rkey(&TypeRow::from(good.types(&vs)).into());
        let inp = || format!("{} values of types {tys}", vs.len());
        c.case("Value::tuple", inp, || {
            let v = Value::tuple(vs.clone());
            ensure!(v.as_tuple().is_some_and(|x| alike(x, &vs)), "as_tuple gives {:?}", v.as_tuple());
            ensure!(inhabits(&v) && v.validate().is_ok(), "a tuple constant does not inhabit its type");
            ensure!(tk(&v.get_type()) == key(&TypeRV::from(SumType::new_tuple(good.types(&vs)))), "it has type {}", v.get_type()); Ok(())
        });
        c.case("Value::some", inp, || {
            let v = Value::some(vs.clone());
            ensure!(inhabits(&v) && v.validate().is_ok(), "it does not inhabit its type");
            ensure!(matches!(&v, Value::Sum(s) if s.tag == 1 && alike(&s.values, &vs) && { let x = rows_of(&s.sum_type); x.len() == 2 && x[0].is_empty() && rkey(&x[1]) == tys }), "it is {v:?}"); Ok(())
        });
        c.case("Value::none", inp, || {
            let v = Value::none(good.types(&vs));
            ensure!(inhabits(&v) && v.validate().is_ok(), "it does not inhabit its type");
            ensure!(matches!(&v, Value::Sum(s) if s.tag == 0 && s.values.is_empty() && { let x = rows_of(&s.sum_type); x.len() == 2 && x[0].is_empty() && rkey(&x[1]) == tys }), "it is {v:?}"); Ok(())
        });
    }
    for poly in [false, true] { one(&mut c, "Value::function", format!("polymorphic: {poly}"), || { ensure!(Value::function(func(poly)).is_ok() != poly, "accepted: {}", poly); Ok(()) }); }
    // arbitrary constants, well and ill typed
    for i in 0..c.n(4000, 60000) {
        let gen_ = Gen { bad: [0, 4, 12, 30][(i % 4) as usize], poly: i % 3 == 0 };
        // at the top: the check with values that have types
        let flat = Gen { bad: gen_.bad, poly: false };
        let vs = flat.values(&mut r, (i % 3) as usize);
        let (mut tag, mut rows) = flat.rows(&mut r, &vs);
        let mut ws = vs.clone();
        if r.below(3) > 0 { flat.spoil(&mut r, &mut tag, &mut ws, &mut rows); }
        let s = if rows.iter().all(|x| x.is_empty()) && r.bool() { SumType::new_unary(rows.len() as u8) } else { SumType::General { rows } };
        let inp = || format!("tag {tag}, type {s}, values {ws:?}").chars().take(500).collect();
        c.case("SumType::check_type", inp, || check(&s, tag, &ws));
        c.case("Value::sum", inp, || {
            let got = Value::sum(tag, ws.clone(), s.clone());
            ensure!(got.is_ok() == instance(&s, tag, &ws), "gives {:?}", got.as_ref().map(|_| ()));
            if let Ok(v) = got {
                ensure!(matches!(&v, Value::Sum(x) if x.tag == tag && alike(&x.values, &ws) && x.sum_type == s), "gives {v:?}");
                ensure!(tk(&v.get_type()) == key(&TypeRV::from(s.clone())), "the type reported is {}", v.get_type());
                let want = (rows_of(&s).len() == 1).then_some(&ws[..]);
                ensure!(format!("{:?}", v.as_tuple()) == format!("{want:?}"), "as_tuple gives {:?}", v.as_tuple());
            }
            Ok(())
        });
        // at any depth
        let v = gen_.value(&mut r, 1 + (i % 4) as usize);
        let want = inhabits(&v);
        c.case("Value::validate", || show(&v), || {
            let got = v.validate();
            ensure!(got.is_ok() == want, "validate gives {}, the constant {} its type", if got.is_ok() { "Ok" } else { "an error" }, if want { "inhabits" } else { "does not inhabit" }); Ok(())
        });
        if want { c.case("Value::get_type", || show(&v), || { ensure!(Some(tk(&v.get_type())) == type_of(&v), "the type reported is {}", v.get_type()); Ok(()) }); }
        if i % 4 == 1 && type_of(&v).is_some() {
            c.case("Hugr::validate", || show(&v), || {
                let mut h = Hugr::new();
                h.add_node_with_parent(h.module_root(), ops::Const::new(v.clone()));
ensure!(want || h.validate().is_err(), "a program with this constant validates, but the constant does not inhabit its type"); Ok(())
            });
        }
    }
    c.finish()
}
