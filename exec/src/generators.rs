//! Seeded generators of HUGR terms, types, rows, signatures and operations.
use crate::Rng;
use hugr_core::extension::prelude::{bool_t, qb_t, usize_t};
use hugr_core::extension::{Extension, ExtensionId, TypeDefBound, Version};
use hugr_core::ops::dataflow::IOTrait;
use hugr_core::ops::{self, OpType, Value};
use hugr_core::types::type_param::{Term, TypeParam};
use hugr_core::types::{CustomType, FuncValueType, PolyFuncType, Signature, SumType, Type, TypeBound, TypeRV, TypeRow, TypeRowRV};
use std::num::NonZeroU64;
use std::sync::{Arc, LazyLock};

pub static EXT_ID: ExtensionId = ExtensionId::new_static_unchecked("hx.ext");
/// an extension with a copyable type, a linear type and a type whose bound follows its argument
pub static EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(EXT_ID.clone(), Version::new(1, 0, 0), |e, r| {
        e.add_type("C".into(), vec![], String::new(), TypeDefBound::copyable(), r).unwrap();
        e.add_type("L".into(), vec![], String::new(), TypeDefBound::any(), r).unwrap();
        e.add_type("P".into(), vec![TypeBound::Linear.into()], String::new(), TypeDefBound::from_params(vec![0]), r).unwrap();
        e.add_type("Q".into(), vec![TypeBound::Linear.into(), Term::max_nat_type(), TypeBound::Linear.into(), TypeBound::Linear.into()], String::new(), TypeDefBound::from_params(vec![3, 0, 2]), r).unwrap();
    })
});

/// What variables a generated type may mention: their declarations.
pub type Decls = Vec<TypeParam>;

pub fn bound(r: &mut Rng) -> TypeBound {
    if r.bool() { TypeBound::Linear } else { TypeBound::Copyable }
}
/// an opaque type of the test extension carrying arbitrary arguments
pub fn custom(name: &str, args: Vec<Term>, b: TypeBound) -> Type {
    Type::new_extension(CustomType::new(name, args, EXT_ID.clone(), b, &Arc::downgrade(&EXT)))
}
fn vars(d: &Decls, f: impl Fn(&TypeParam) -> bool) -> Vec<usize> {
    (0..d.len()).filter(|i| f(&d[*i])).collect()
}
pub fn row_bound(p: &TypeParam) -> Option<TypeBound> {
    match p {
        Term::ListType(i) => match **i {
            Term::RuntimeType(b) => Some(b),
            _ => None,
        },
        _ => None,
    }
}
pub fn ty(r: &mut Rng, depth: usize, d: &Decls) -> Type {
    let leaf = depth == 0;
    match r.below(if leaf { 7 } else { 14 }) {
        0 => bool_t(),
        1 => qb_t(),
        2 => usize_t(),
        3 => custom("C", vec![], TypeBound::Copyable),
        4 => custom("L", vec![], TypeBound::Linear),
        5 | 6 => {
            let vs = vars(d, |p| matches!(p, Term::RuntimeType(_)));
            if vs.is_empty() {
                return Type::new_unit_sum(r.below(4) as u8);
            }
            let i = *r.pick(&vs);
            let Term::RuntimeType(b) = d[i] else { unreachable!() };
            Type::new_var_use(i, b)
        }
        7 => Type::new_function(func(r, depth - 1, d)),
        8 => {
            let t = ty(r, depth - 1, d);
            let b = t.least_upper_bound();
            custom("P", vec![t.into()], b)
        }
        13 => {
            let ts: Vec<Type> = (0..3).map(|_| ty(r, depth - 1, d)).collect();
            let b = if ts.iter().all(crate::reference::copyable) { TypeBound::Copyable } else { TypeBound::Linear };
            let a: Vec<Term> = ts.into_iter().map(Term::from).collect();
            custom("Q", vec![a[0].clone(), 3u64.into(), a[1].clone(), a[2].clone()], b)
        }
        9 => {
            let n = r.below(3);
            let args = (0..n).map(|_| wterm(r, d)).collect();
            if r.bool() { custom("C", args, TypeBound::Copyable) } else { custom("L", args, TypeBound::Linear) }
        }
        _ => Type::new_sum(rows(r, depth - 1, d)),
    }
}
pub fn rows(r: &mut Rng, depth: usize, d: &Decls) -> Vec<TypeRowRV> {
    let n = r.below(4);
    (0..n).map(|_| row_rv(r, depth, d)).collect()
}
pub fn type_rv(r: &mut Rng, depth: usize, d: &Decls) -> TypeRV {
    let vs = vars(d, |p| row_bound(p).is_some());
    if !vs.is_empty() && r.below(4) == 0 {
        let i = *r.pick(&vs);
        return TypeRV::new_row_var_use(i, row_bound(&d[i]).unwrap());
    }
    ty(r, depth, d).into()
}
pub fn row_rv(r: &mut Rng, depth: usize, d: &Decls) -> TypeRowRV {
    let n = r.below(4);
    (0..n).map(|_| type_rv(r, depth, d)).collect::<Vec<_>>().into()
}
pub fn row(r: &mut Rng, depth: usize, d: &Decls) -> TypeRow {
    let n = r.below(4);
    (0..n).map(|_| ty(r, depth, d)).collect::<Vec<_>>().into()
}
pub fn row_n(r: &mut Rng, n: usize, depth: usize, d: &Decls) -> TypeRow {
    (0..n).map(|_| ty(r, depth, d)).collect::<Vec<_>>().into()
}
pub fn func(r: &mut Rng, depth: usize, d: &Decls) -> FuncValueType {
    FuncValueType::new(row_rv(r, depth, d), row_rv(r, depth, d))
}
pub fn sig(r: &mut Rng, depth: usize, d: &Decls) -> Signature {
    Signature::new(row(r, depth, d), row(r, depth, d))
}
/// an arbitrary (not necessarily well-kinded) term
pub fn term(r: &mut Rng, depth: usize, d: &Decls) -> Term {
    let leaf = depth == 0;
    match r.below(if leaf { 13 } else { 21 }) {
        0 => Term::RuntimeType(bound(r)),
        1 => Term::StaticType,
        2 => nat_kind(r),
        3 => Term::StringType,
        4 => Term::BytesType,
        5 => Term::FloatType,
        6 => Term::BoundedNat(r.below(4) as u64),
        7 => Term::new_string(["", "a", "b"][r.below(3)]),
        8 => Term::Bytes(vec![r.below(3) as u8; r.below(3)].into()),
        9 => Term::Float([0.5, 1.0, 2.5][r.below(3)].into()),
        10 | 11 => {
            if d.is_empty() { return Term::BoundedNat(7); }
            let i = r.below(d.len());
            Term::new_var_use(i, d[i].clone())
        }
        12 => ty(r, depth, d).into(),
        13 | 14 => Term::List(terms(r, depth - 1, d)),
        15 => Term::Tuple(terms(r, depth - 1, d)),
        16 => Term::ListType(Box::new(term(r, depth - 1, d))),
        17 => Term::TupleType(Box::new(term(r, depth - 1, d))),
        18 => Term::ConstType(Box::new(ty(r, depth - 1, d))),
        19 => Term::ListConcat(terms(r, depth - 1, d)),
        _ => Term::TupleConcat(terms(r, depth - 1, d)),
    }
}
/// a term whose lists are all lists of types, or lists without row variables
pub fn wterm(r: &mut Rng, d: &Decls) -> Term {
    match r.below(6) {
        0 => { let k = kind(r, 2); k }
        1 => Term::new_const(ty(r, 1, d)),
        2 => Term::new_list_type(wterm(r, d)),
        3 => { let n = r.below(3); Term::new_tuple_type(Term::List((0..n).map(|_| match wterm(r, d) { Term::Variable(_) | Term::Runtime(_) => Term::StringType, t => t }).collect())) }
        _ => { if !d.is_empty() && r.bool() { let i = r.below(d.len()); return Term::new_var_use(i, d[i].clone()); }
            let k = kind(r, 3); arg_of(r, &k, 2, d).unwrap_or(k) }
    }
}
pub fn terms(r: &mut Rng, depth: usize, d: &Decls) -> Vec<Term> {
    let n = r.below(4);
    (0..n).map(|_| term(r, depth, d)).collect()
}
pub fn nat_kind(r: &mut Rng) -> Term {
    match r.below(4) {
        0 => Term::max_nat_type(),
        k => Term::bounded_nat_type(NonZeroU64::new([1, 2, 5][k - 1]).unwrap()),
    }
}
/// a kind: a term that can classify arguments
pub fn kind(r: &mut Rng, depth: usize) -> Term {
    let d = Decls::new();
    match r.below(if depth == 0 { 7 } else { 11 }) {
        0 | 1 => Term::RuntimeType(bound(r)),
        2 => nat_kind(r),
        3 => Term::StringType,
        4 => Term::BytesType,
        5 => Term::FloatType,
        6 => Term::StaticType,
        7 | 8 => Term::new_list_type(kind(r, depth - 1)),
        9 => {
            let n = r.below(3);
            Term::new_tuple_type(Term::List((0..n).map(|_| kind(r, depth - 1)).collect()))
        }
        _ => Term::new_const(ty(r, 1, &d)),
    }
}
/// declarations of the kinds variables are commonly given
pub fn decls(r: &mut Rng) -> Decls {
    let n = r.below(5);
    (0..n)
        .map(|_| match r.below(8) {
            0 | 1 => Term::RuntimeType(bound(r)),
            2 | 3 => Term::new_list_type(bound(r)),
            4 => Term::max_nat_type(),
            5 => Term::new_list_type(Term::max_nat_type()),
            6 => kind(r, 2),
            _ => Term::new_tuple_type(Term::List(vec![Term::RuntimeType(bound(r)), Term::StringType])),
        })
        .collect()
}
/// a type within a bound
pub fn ty_within(r: &mut Rng, b: TypeBound, depth: usize, d: &Decls) -> Type {
    for _ in 0..20 {
        let t = ty(r, depth, d);
        if b.contains(t.least_upper_bound()) { return t; }
    }
    bool_t()
}
/// an argument of the given kind (None when the kind has no closed inhabitants here)
pub fn arg_of(r: &mut Rng, k: &Term, depth: usize, d: &Decls) -> Option<Term> {
    let vs = vars(d, |p| p == k);
    if !vs.is_empty() && r.below(3) == 0 {
        return Some(Term::new_var_use(*r.pick(&vs), k.clone()));
    }
    Some(match k {
        Term::RuntimeType(b) => ty_within(r, *b, depth, d).into(),
        Term::BoundedNatType(u) => match u.value() {
            Some(n) => Term::BoundedNat(r.below(n.get().min(1000) as usize) as u64),
            None => Term::BoundedNat(r.next()),
        },
        Term::StringType => Term::new_string(["", "x", "yz"][r.below(3)]),
        Term::BytesType => Term::Bytes(vec![1, 2].into()),
        Term::FloatType => Term::Float(1.5.into()),
        Term::StaticType => kind(r, 1),
        Term::ListType(e) => {
            let n = r.below(4);
            let mut v = vec![];
            for _ in 0..n {
                let rv = vars(d, |p| match (&**e, row_bound(p)) { (Term::RuntimeType(b), Some(c)) => b.contains(c), _ => false });
                if !rv.is_empty() && r.below(3) == 0 {
                    let i = *r.pick(&rv);
                    v.push(Term::new_var_use(i, d[i].clone()));
                } else {
                    let mut t = arg_of(r, e, depth.saturating_sub(1), d)?;
                    // a row variable as an item of a list of rows is ambiguous (see KNOWN_FINDINGS)
                    if row_bound(e).is_some() && matches!(t, Term::Variable(_)) { t = Term::List(vec![]); }
                    v.push(t);
                }
            }
            match r.below(6) {
                0 => {
                    let j = r.below(v.len() + 1);
                    let tail = v.split_off(j);
                    let mut parts = vec![Term::List(v), Term::List(tail)];
                    if !vs.is_empty() && r.bool() { let i = r.below(3); parts.insert(i, Term::new_var_use(*r.pick(&vs), k.clone())); }
                    if r.bool() { parts = vec![Term::ListConcat(parts)]; }
                    Term::ListConcat(parts)
                }
                _ => Term::List(v),
            }
        }
        Term::TupleType(es) => match &**es {
            Term::List(es) => {
                let mut v = vec![];
                for e in es { v.push(arg_of(r, e, depth.saturating_sub(1), d)?); }
                if r.below(5) == 0 {
                    let j = r.below(v.len() + 1);
                    let tail = v.split_off(j);
                    Term::TupleConcat(vec![Term::Tuple(v), Term::TupleConcat(vec![Term::Tuple(tail)])])
                } else { Term::Tuple(v) }
            }
            _ => return None,
        },
        _ => return None,
    })
}
pub fn args_for(r: &mut Rng, ks: &[Term], d: &Decls) -> Option<Vec<Term>> {
    ks.iter().map(|k| arg_of(r, k, 2, d)).collect()
}
/// one of the core operations, with random payload
pub fn op(r: &mut Rng) -> OpType {
    let d = Decls::new();
    let rowc = |r: &mut Rng| row(r, 1, &d);
    match r.below(22) {
        0 => ops::Module::default().into(),
        1 => ops::FuncDefn::new("f", sig(r, 1, &d)).into(),
        2 => ops::FuncDecl::new("g", sig(r, 1, &d)).into(),
        3 => ops::AliasDecl::new("a", bound(r)).into(),
        4 => ops::AliasDefn { name: "b".into(), definition: ty(r, 1, &d) }.into(),
        5 => ops::Const::new([Value::unit(), Value::true_val(), Value::tuple([Value::false_val()])][r.below(3)].clone()).into(),
        6 => ops::Input::new(rowc(r)).into(),
        7 => ops::Output::new(rowc(r)).into(),
        8 => {
            let p = poly(r);
            let Some(a) = args_for(r, p.params(), &d) else { return ops::ExitBlock { cfg_outputs: rowc(r) }.into() };
            match ops::Call::try_new(p, a) { Ok(c) => c.into(), Err(_) => ops::ExitBlock { cfg_outputs: rowc(r) }.into() }
        }
        9 => ops::CallIndirect { signature: sig(r, 1, &d) }.into(),
        10 => ops::LoadConstant { datatype: ty(r, 1, &d) }.into(),
        11 => {
            let p = poly(r);
            let Some(a) = args_for(r, p.params(), &d) else { return ops::ExitBlock { cfg_outputs: rowc(r) }.into() };
            match ops::LoadFunction::try_new(p, a) { Ok(c) => c.into(), Err(_) => ops::ExitBlock { cfg_outputs: rowc(r) }.into() }
        }
        12 => ops::DFG { signature: sig(r, 1, &d) }.into(),
        13 => hugr_core::extension::prelude::Noop::new(ty(r, 1, &d)).into(),
        14 => ops::OpaqueOp::new(EXT_ID.clone(), "op", vec![], sig(r, 1, &d)).into(),
        15 => {
            let n = 1 + r.below(3);
            let v: Vec<TypeRow> = (0..n).map(|_| row(r, 1, &d)).collect();
            ops::Tag::new(r.below(n), v).into()
        }
        16 | 17 => {
            let n = r.below(4);
            ops::DataflowBlock { inputs: rowc(r), other_outputs: rowc(r), sum_rows: (0..n).map(|_| row(r, 1, &d)).collect() }.into()
        }
        18 => ops::ExitBlock { cfg_outputs: rowc(r) }.into(),
        19 => ops::TailLoop { just_inputs: rowc(r), just_outputs: rowc(r), rest: rowc(r) }.into(),
        20 => if r.bool() { ops::CFG { signature: sig(r, 1, &d) }.into() } else { ops::Case { signature: sig(r, 1, &d) }.into() },
        _ => {
            let n = r.below(4);
            ops::Conditional { sum_rows: (0..n).map(|_| row(r, 1, &d)).collect(), other_inputs: rowc(r), outputs: rowc(r) }.into()
        }
    }
}
pub fn poly(r: &mut Rng) -> PolyFuncType {
    let d: Decls = decls(r);
    let s = sig(r, 2, &d);
    PolyFuncType::new(d, s)
}
pub fn sum(r: &mut Rng, depth: usize) -> SumType {
    let d = Decls::new();
    if r.below(3) == 0 { SumType::new_unary(r.below(4) as u8) } else { SumType::new(rows(r, depth, &d)) }
}
