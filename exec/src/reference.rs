//! Independent reference semantics of types and terms (what the documentation says),
//! used as the oracle of the executable contracts.
use crate::generators as g;
use hugr_core::types::type_param::Term;
use hugr_core::types::{FuncValueType, Signature, Type, TypeBound, TypeEnum, TypeRV, TypeRow, TypeRowRV};

/// declared bound of an extension type of the test or prelude extension, from its components
pub fn copyable(t: &Type) -> bool { copyable_rv(&t.clone().into()) }
pub fn copyable_rv(t: &TypeRV) -> bool {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => match c.name().as_str() {
            "C" => true, "L" => false,
            "P" | "Q" => c.args().iter().all(|a| match a { Term::Runtime(t) => copyable(t), _ => true }),
            "qubit" => false, "usize" => true,
            _ => c.bound() == TypeBound::Copyable,
        },
        TypeEnum::Alias(a) => a.bound == TypeBound::Copyable,
        TypeEnum::Function(_) => true,
        TypeEnum::Variable(_, b) => *b == TypeBound::Copyable,
        TypeEnum::RowVar(v) => { v.1 == TypeBound::Copyable }
        TypeEnum::Sum(s) => s.variants().all(|r| r.iter().all(copyable_rv)),
    }
}
pub fn within(sub: TypeBound, sup: TypeBound) -> bool { sup == TypeBound::Linear || sub == TypeBound::Copyable }

/// sub-kind relation: `a` is at least as permissive as `b`
pub fn above(a: &Term, b: &Term) -> bool {
    let all = |x: &[Term], y: &[Term]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| above(p, q));
    match (a, b) {
        (Term::RuntimeType(x), Term::RuntimeType(y)) => within(*y, *x),
        (Term::BoundedNatType(x), Term::BoundedNatType(y)) => match (x.value(), y.value()) { (None, _) => true, (Some(_), None) => false, (Some(m), Some(n)) => n <= m },
        (Term::ListType(x), Term::ListType(y)) | (Term::TupleType(x), Term::TupleType(y)) => above(x, y),
        (Term::List(x), Term::List(y)) | (Term::Tuple(x), Term::Tuple(y)) | (Term::ListConcat(x), Term::ListConcat(y)) | (Term::TupleConcat(x), Term::TupleConcat(y)) => all(x, y),
        _ => a == b,
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Part { Item(Term), Splice(Term) }
pub fn list_parts(t: &Term) -> Vec<Part> {
    match t {
        Term::List(v) => v.iter().map(|x| Part::Item(x.clone())).collect(),
        Term::ListConcat(v) => v.iter().flat_map(list_parts).collect(),
        t => vec![Part::Splice(t.clone())],
    }
}
pub fn tuple_parts(t: &Term) -> Vec<Part> {
    match t {
        Term::Tuple(v) => v.iter().map(|x| Part::Item(x.clone())).collect(),
        Term::TupleConcat(v) => v.iter().flat_map(tuple_parts).collect(),
        t => vec![Part::Splice(t.clone())],
    }
}
/// is `t` an inhabitant of kind `k`?  None: open tuples, for which checking is not defined
pub fn inhabits(t: &Term, k: &Term, d: &g::Decls) -> Option<bool> {
    if let Some((_, decl)) = as_var(t, d) { return Some(above(k, &decl)); }
    let all = |v: &[Term], k: &Term, item: bool| -> Option<bool> {
        let mut ok = true;
        for e in v {
            let row = item && match (as_var(e, d), k) { (Some((_, d)), Term::RuntimeType(b)) => g::row_bound(&d).is_some_and(|c| within(c, *b)), _ => false };
            ok &= row || inhabits(e, k, d)?;
        }
        Some(ok)
    };
    match (t, k) {
        (Term::Runtime(ty), Term::RuntimeType(b)) => Some(*b == TypeBound::Linear || copyable(ty)),
        (Term::List(v), Term::ListType(e)) => all(v, e, true),
        (Term::ListConcat(v), Term::ListType(_)) => all(v, k, false),
        (Term::Tuple(_) | Term::TupleConcat(_), Term::TupleType(ks)) => {
            let (a, b) = (tuple_parts(t), list_parts(ks));
            if a.iter().chain(&b).any(|p| matches!(p, Part::Splice(_))) { return None; }
            let mut ok = a.len() == b.len();
            for (x, y) in a.iter().zip(&b) { if let (Part::Item(x), Part::Item(y)) = (x, y) { ok &= inhabits(x, y, d)?; } }
            Some(ok)
        }
        (Term::BoundedNat(n), Term::BoundedNatType(u)) => Some(u.value().is_none_or(|m| *n < m.get())),
        (Term::String(_), Term::StringType) | (Term::Bytes(_), Term::BytesType) | (Term::Float(_), Term::FloatType) => Some(true),
        (k, Term::StaticType) => Some(matches!(k, Term::StaticType | Term::StringType | Term::BytesType | Term::FloatType | Term::BoundedNatType(_) | Term::ListType(_) | Term::TupleType(_) | Term::RuntimeType(_) | Term::ConstType(_))),
        _ => Some(false),
    }
}
/// index and declared kind of a variable
pub fn as_var(t: &Term, d: &g::Decls) -> Option<(usize, Term)> {
    match t {
        Term::Variable(v) => Some((v.index(), d[v.index()].clone())),
        Term::Runtime(ty) => match ty.as_type_enum() { TypeEnum::Variable(i, b) => Some((*i, Term::RuntimeType(*b))), _ => None },
        _ => None,
    }
}
fn is_row(t: &Term) -> bool { matches!(t, Term::Variable(v) if v.bound_if_row_var().is_some()) }

// ---- substitution -------------------------------------------------------
pub fn s_row(row: &TypeRowRV, a: &[Term]) -> TypeRowRV { row.iter().flat_map(|t| s_rv(t, a)).collect::<Vec<_>>().into() }
pub fn s_row1(row: &TypeRow, a: &[Term]) -> TypeRow { row.iter().map(|t| s_ty(t, a)).collect::<Vec<_>>().into() }
fn arg_row(t: &Term) -> Vec<TypeRV> {
    match t {
        Term::List(v) => v.iter().flat_map(|e| match e { Term::Runtime(t) => vec![t.clone().into()], e => arg_row(e) }).collect(),
        Term::ListConcat(v) => v.iter().flat_map(arg_row).collect(),
        Term::Variable(v) => vec![TypeRV::new_row_var_use(v.index(), v.bound_if_row_var().expect("row"))],
        t => panic!("reference: {t:?} is not a row"),
    }
}
pub fn s_rv(t: &TypeRV, a: &[Term]) -> Vec<TypeRV> {
    match t.as_type_enum() {
        TypeEnum::RowVar(v) => arg_row(&a[v.0]),
        _ => vec![s_ty(&t.clone().try_into_type().unwrap(), a).into()],
    }
}
pub fn s_func(f: &FuncValueType, a: &[Term]) -> FuncValueType { FuncValueType::new(s_row(&f.input, a), s_row(&f.output, a)) }
pub fn s_sig(f: &Signature, a: &[Term]) -> Signature { Signature::new(s_row1(&f.input, a), s_row1(&f.output, a)) }
pub fn s_ty(t: &Type, a: &[Term]) -> Type {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => {
            if c.args().is_empty() { return t.clone(); }
            let args: Vec<Term> = c.args().iter().map(|x| s_term(x, a)).collect();
            let b = match c.name().as_str() { "P" | "Q" => if args.iter().all(|a| match a { Term::Runtime(t) => copyable(t), _ => true }) { TypeBound::Copyable } else { TypeBound::Linear }, _ => c.bound() };
            g::custom(c.name(), args, b)
        }
        TypeEnum::Alias(_) => t.clone(),
        TypeEnum::Function(f) => Type::new_function(s_func(f, a)),
        TypeEnum::Variable(i, _) => match &a[*i] { Term::Runtime(t) => t.clone(), x => panic!("reference: {x:?} is not a type") },
        TypeEnum::Sum(s) => Type::new_sum(s.variants().map(|r| s_row(r, a)).collect::<Vec<_>>()),
        TypeEnum::RowVar(_) => unreachable!(),
    }
}
pub fn regroup(parts: Vec<Part>, list: bool) -> Term {
    let items = |v: Vec<Term>| if list { Term::List(v) } else { Term::Tuple(v) };
    if parts.iter().all(|p| matches!(p, Part::Item(_))) {
        return items(parts.into_iter().map(|p| match p { Part::Item(t) | Part::Splice(t) => t }).collect());
    }
    let mut out = vec![]; let mut cur = vec![];
    for p in parts {
        match p { Part::Item(t) => cur.push(t), Part::Splice(t) => { if !cur.is_empty() { out.push(items(std::mem::take(&mut cur))); } out.push(t); } }
    }
    if !cur.is_empty() { out.push(items(cur)); }
    if list { Term::ListConcat(out) } else { Term::TupleConcat(out) }
}
pub fn s_term(t: &Term, a: &[Term]) -> Term {
    let parts = |v: &[Term], list: bool| -> Term { regroup(v.iter().flat_map(|e| { let e = s_term(e, a); if list { list_parts(&e) } else { tuple_parts(&e) } }).collect(), list) };
    match t {
        Term::Runtime(ty) => s_ty(ty, a).into(),
        // a row variable inside a list of types stands for several elements
        Term::List(v) => regroup(v.iter().flat_map(|e| { let s = s_term(e, a); if is_row(e) && !matches!(s, Term::Variable(_)) { list_parts(&s) } else { vec![Part::Item(s)] } }).collect(), true),
        Term::Tuple(v) => Term::Tuple(v.iter().map(|e| s_term(e, a)).collect()),
        Term::ListConcat(v) => parts(v, true),
        Term::TupleConcat(v) => parts(v, false),
        Term::Variable(v) => a[v.index()].clone(),
        Term::ListType(k) => Term::new_list_type(s_term(k, a)),
        Term::TupleType(k) => Term::new_tuple_type(s_term(k, a)),
        Term::ConstType(ty) => Term::new_const(s_ty(ty, a)),
        t => t.clone(),
    }
}
