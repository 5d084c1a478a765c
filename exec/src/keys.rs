//! What a type denotes, written out as text: a sum is its list of rows, however it is stored.
use hugr_core::types::type_param::Term;
use hugr_core::types::{SumType, TypeEnum, TypeRV, TypeRowRV};
pub fn key(t: &TypeRV) -> String {
    let b = t.least_upper_bound();
    match t.as_type_enum() {
        TypeEnum::Extension(c) => format!("X<{}|{}|{}|{:?}>", c.extension(), c.name(), c.args().iter().map(tkey).collect::<Vec<_>>().join(","), c.bound()),
        TypeEnum::Alias(a) => format!("A<{}|{:?}>", a.name, a.bound),
        TypeEnum::Function(f) => format!("F<{}->{}>", rkey(&f.input), rkey(&f.output)),
        TypeEnum::Variable(i, b) => format!("V<{i}|{b:?}>"),
        TypeEnum::RowVar(v) => format!("R<{}|{:?}>", v.0, v.1),
        TypeEnum::Sum(s) => format!("S<{}>:{b:?}", skey(s)),
    }
}
pub fn rkey(r: &TypeRowRV) -> String { format!("[{}]", r.iter().map(key).collect::<Vec<_>>().join(",")) }
pub fn rows_of(s: &SumType) -> Vec<TypeRowRV> { match s { SumType::Unit { size } => vec![TypeRowRV::new(); *size as usize], SumType::General { rows } => rows.clone(), _ => unreachable!() } }
pub fn skey(s: &SumType) -> String { rows_of(s).iter().map(rkey).collect::<Vec<_>>().join("+") }
pub fn tkey(t: &Term) -> String {
    let l = |v: &[Term]| v.iter().map(tkey).collect::<Vec<_>>().join(",");
    match t {
        Term::Runtime(t) => format!("t{}", key(&t.clone().into())), Term::ConstType(t) => format!("c{}", key(&(**t).clone().into())),
        Term::List(v) => format!("l({})", l(v)), Term::Tuple(v) => format!("u({})", l(v)), Term::ListConcat(v) => format!("lc({})", l(v)), Term::TupleConcat(v) => format!("uc({})", l(v)),
        Term::ListType(t) => format!("lt({})", tkey(t)), Term::TupleType(t) => format!("ut({})", tkey(t)),
        t => format!("{t:?}"),
    }
}
