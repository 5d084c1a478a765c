//! T04: executable contracts of the equality of sum types, over both ways of representing them.
use hugr_core::extension::prelude::{bool_t, qb_t, usize_t};
use hugr_core::types::type_param::Term;
use hugr_core::types::{CustomType, FuncValueType, SumType, Type, TypeEnum, TypeRV, TypeRow, TypeRowRV};
use hx::{Ctx, Rng, ensure, generators as g};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// what a type denotes, written out: a sum is its list of rows
fn key(t: &TypeRV) -> String {
    let b = t.least_upper_bound();
    match t.as_type_enum() {
        TypeEnum::Extension(c) => format!("X<{}|{}|{}|{:?}>", c.extension(), c.name(), c.args().iter().map(tkey).collect::<Vec<_>>().join(","), c.bound()),
        TypeEnum::Alias(a) => format!("A<{}|{:?}>", a.name, a.bound),
        TypeEnum::Function(f) => format!("F<{}->{}>", rkey(&f.input), rkey(&f.output)),
        TypeEnum::Variable(i, b) => format!("V<{i}|{b:?}>"),
        TypeEnum::RowVar(v) => format!("R<{}|{:?}>", v.0, v.1),
        TypeEnum::Sum(s) => format!("S<{}>:{b:?}", skey(s)),
    }
}
fn rkey(r: &TypeRowRV) -> String { format!("[{}]", r.iter().map(key).collect::<Vec<_>>().join(",")) }
fn rows_of(s: &SumType) -> Vec<TypeRowRV> { match s { SumType::Unit { size } => vec![TypeRowRV::new(); *size as usize], SumType::General { rows } => rows.clone(), _ => unreachable!() } }
fn skey(s: &SumType) -> String { rows_of(s).iter().map(rkey).collect::<Vec<_>>().join("+") }
fn tkey(t: &Term) -> String {
    let l = |v: &[Term]| v.iter().map(tkey).collect::<Vec<_>>().join(",");
    match t {
        Term::Runtime(t) => format!("t{}", key(&t.clone().into())), Term::ConstType(t) => format!("c{}", key(&(**t).clone().into())),
        Term::List(v) => format!("l({})", l(v)), Term::Tuple(v) => format!("u({})", l(v)), Term::ListConcat(v) => format!("lc({})", l(v)), Term::TupleConcat(v) => format!("uc({})", l(v)),
        Term::ListType(t) => format!("lt({})", tkey(t)), Term::TupleType(t) => format!("ut({})", tkey(t)),
        t => format!("{t:?}"),
    }
}
fn h(t: &impl Hash) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
/// the same type with the sums inside it re-represented
fn other(r: &mut Rng, s: &SumType) -> SumType {
    let rows = rows_of(s);
    match s {
        SumType::Unit { size } => if r.bool() { SumType::General { rows } } else { SumType::new_unary(*size) },
        _ => if rows.len() < 256 && rows.iter().all(|x| x.is_empty()) && r.bool() { SumType::new_unary(rows.len() as u8) } else { SumType::General { rows: rows.iter().map(|x| other_row(r, x)).collect() } },
    }
}
fn other_row(r: &mut Rng, x: &TypeRowRV) -> TypeRowRV { x.iter().map(|t| other_ty(r, t)).collect::<Vec<_>>().into() }
fn other_term(r: &mut Rng, t: &Term) -> Term {
    match t {
        Term::Runtime(t) => Term::Runtime(TypeRV::from(t.clone()).pipe(|t| other_ty(r, &t)).try_into().unwrap()),
        Term::List(v) => Term::List(v.iter().map(|t| other_term(r, t)).collect()), Term::Tuple(v) => Term::Tuple(v.iter().map(|t| other_term(r, t)).collect()),
        t => t.clone(),
    }
}
trait Pipe: Sized { fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T { f(self) } }
impl<T> Pipe for T {}
fn other_ty(r: &mut Rng, t: &TypeRV) -> TypeRV {
    let mut n = t.clone();
    match n.as_type_enum_mut() {
        TypeEnum::Sum(s) => { *s = other(r, s); }
        TypeEnum::Function(f) => { **f = FuncValueType::new(other_row(r, &f.input), other_row(r, &f.output)); }
        TypeEnum::Extension(c) => { *c = CustomType::new(c.name().clone(), c.args().iter().map(|a| other_term(r, a)).collect::<Vec<_>>(), c.extension().clone(), c.bound(), &std::sync::Arc::downgrade(&g::EXT)); }
        _ => {}
    }
    n
}
/// a list of variants close to the given one
fn near(r: &mut Rng, rows: &[TypeRowRV]) -> Vec<TypeRowRV> {
    let mut v = rows.to_vec();
    match r.below(8) {
        0 => { v.push(TypeRowRV::new()); }
        1 => { v.pop(); }
        2 => { let i = r.below(v.len() + 1); v.insert(i, TypeRowRV::new()); }
        3 => { if v.len() > 1 { let i = r.below(v.len() - 1); v.swap(i, i + 1); } }
        4 => { if !v.is_empty() { let i = r.below(v.len()); v[i].to_mut().push(usize_t().into()); } }
        5 => { if !v.is_empty() { let i = r.below(v.len()); v[i].to_mut().pop(); } }
        6 => { if !v.is_empty() { let i = r.below(v.len()); if let Some(t) = v[i].to_mut().first_mut() { *t = bool_t().into(); } } }
        _ => { if v.len() > 1 { let i = r.below(v.len() - 1); let t = v[i].to_mut().pop(); if let Some(t) = t { v[i + 1].to_mut().insert(0, t); } } }
    }
    v
}
fn faces(s: &SumType) -> Result<(), String> {
    let rows = rows_of(s);
    ensure!(s.num_variants() == rows.len(), "num_variants {}", s.num_variants());
    ensure!(s.variants().map(rkey).collect::<Vec<_>>() == rows.iter().map(rkey).collect::<Vec<_>>(), "variants() gives {:?}", s.variants().map(rkey).collect::<Vec<_>>());
    for tag in (0..rows.len() + 3).chain([255, 256, 257, 511, 512, usize::MAX]) {
        ensure!(s.get_variant(tag).map(rkey) == rows.get(tag).map(rkey), "get_variant({tag}) = {:?}", s.get_variant(tag));
    }
    ensure!(s.as_tuple().map(rkey) == (if rows.len() == 1 { Some(rkey(&rows[0])) } else { None }), "as_tuple {:?}", s.as_tuple());
    let opt = if rows.len() == 2 && rows[0].is_empty() { Some(rows[1].clone()) } else { None };
    ensure!(s.as_option().map(rkey) == opt.as_ref().map(rkey), "as_option {:?}", s.as_option());
    let un = opt.and_then(|r| if r.iter().count() == 1 { r.iter().next().cloned() } else { None });
    ensure!(s.as_unary_option().map(key) == un.as_ref().map(key), "as_unary_option {:?}", s.as_unary_option());
    let t: TypeRV = s.clone().into();
    ensure!(t.as_sum().map(skey) == Some(skey(s)), "as a type: {t:?}");
    Ok(())
}
fn compare(a: &SumType, b: &SumType) -> Result<(), String> {
    let same = skey(a) == skey(b) && a.num_variants() == b.num_variants();
    ensure!((a == b) == same && (b == a) == same && (a != b) == !same, "{a:?} == {b:?} is {} / {}, != is {}", a == b, b == a, a != b);
    let (ta, tb): (TypeRV, TypeRV) = (a.clone().into(), b.clone().into());
    ensure!((ta == tb) == same && (tb == ta) == same, "as types: {}", ta == tb);
    if same {
        ensure!(h(a) == h(b), "equal, but hashes differ"); ensure!(h(&ta) == h(&tb), "equal types, but hashes differ");
        ensure!(a.as_tuple() == b.as_tuple() && a.as_option() == b.as_option() && a.as_unary_option() == b.as_unary_option(), "readings differ");
        for i in 0..a.num_variants() + 1 { ensure!(a.get_variant(i) == b.get_variant(i), "variant {i} differs"); }
    }
    if let (Ok(x), Ok(y)) = (Type::try_from(ta.clone()), Type::try_from(tb.clone())) {
        ensure!((x == y) == same && (x == tb) == same && (ta == y) == same, "comparison of a type with row variables ruled out");
        ensure!(!same || h(&x) == h(&y), "hash of types");
        let (p, q) = (TypeRow::from(vec![usize_t(), x.clone()]), TypeRow::from(vec![usize_t(), y.clone()]));
        ensure!((p == q) == same && (!same || h(&p) == h(&q)), "in a row");
        let (p, q) = (Type::new_function(FuncValueType::new(vec![ta.clone()], TypeRowRV::new())), Type::new_function(FuncValueType::new(vec![tb.clone()], TypeRowRV::new())));
        ensure!((p == q) == same && (!same || h(&p) == h(&q)), "in a function type");
        let (p, q) = (g::custom("P", vec![x.clone().into()], x.least_upper_bound()), g::custom("P", vec![y.clone().into()], x.least_upper_bound()));
        ensure!((p == q) == same && (!same || h(&p) == h(&q)), "as an argument of an extension type");
    }
    Ok(())
}
fn main() {
    let mut c = Ctx::from_env("T04");
    let sh = |s: String| s.chars().take(300).collect::<String>();
    // every unit sum, in both representations, against its neighbours
    for n in 0..=260usize {
        let gen_ = SumType::General { rows: vec![TypeRowRV::new(); n] };
        let made = SumType::new(vec![TypeRowRV::new(); n]);
        let mut all = vec![gen_, made];
        if n < 256 { all.push(SumType::new_unary(n as u8)); }
        c.case("unit_sum", || format!("{n} empty variants"), || { for a in &all { faces(a)?; for b in &all { compare(a, b)?; } } Ok(()) });
        c.case("unit_sum_neighbours", || format!("{n} empty variants"), || {
            for m in [n.wrapping_sub(1), n + 1, n + 256, 2 * n + 1] { if m > 1000 { continue; }
                let b = [SumType::new(vec![TypeRowRV::new(); m]), SumType::General { rows: vec![TypeRowRV::new(); m] }];
                for a in &all { for b in &b { compare(a, b)?; } } }
            let mut rows = vec![TypeRowRV::new(); n]; if n > 0 { for i in [0, n / 2, n - 1] { rows[i] = vec![TypeRV::from(usize_t())].into(); let b = SumType::new(rows.clone()); faces(&b)?; for a in &all { compare(a, &b)?; } rows[i] = TypeRowRV::new(); } }
            Ok(()) });
    }
    // every sum of up to three variants over short rows, pairwise
    let leaves: Vec<TypeRV> = vec![usize_t().into(), qb_t().into(), TypeRV::new_row_var_use(0, hugr_core::types::TypeBound::Copyable)];
    let mut rs: Vec<TypeRowRV> = vec![TypeRowRV::new()];
    for a in &leaves { rs.push(vec![a.clone()].into()); }
    rs.push(vec![leaves[0].clone(), leaves[1].clone()].into()); rs.push(vec![leaves[1].clone(), leaves[0].clone()].into());
    let mut all: Vec<Vec<TypeRowRV>> = vec![vec![]];
    for a in &rs { all.push(vec![a.clone()]); for b in &rs { all.push(vec![a.clone(), b.clone()]); for d in &rs[..2] { all.push(vec![a.clone(), b.clone(), d.clone()]); } } }
    for x in &all { c.case("small_pairs", || format!("{:?}", x.iter().map(rkey).collect::<Vec<_>>()), || {
        for s in [SumType::new(x.clone()), SumType::General { rows: x.clone() }] { faces(&s)?;
            for y in &all { compare(&s, &SumType::new(y.clone()))?; } }
        Ok(()) }); }
    let mut r = c.rng.clone();
    for _ in 0..c.n(3000, 40000) {
        let d = g::decls(&mut r);
        let rows: Vec<TypeRowRV> = if r.bool() { g::rows(&mut r, 3, &d) } else { (0..r.below(4)).map(|_| g::row_rv(&mut r, 1, &d)).collect() };
        let s = if r.bool() { SumType::new(rows.clone()) } else { SumType::General { rows: rows.clone() } };
        let (o, o2) = (other(&mut r, &s), other(&mut r, &s)); let nb = SumType::new(near(&mut r, &rows)); let nb2 = SumType::General { rows: near(&mut r, &rows_of(&nb)) };
        let far = g::sum(&mut r, 2);
        c.case("random", || sh(format!("{s:?} / {o:?} / {nb:?}")), || { for x in [&s, &o, &nb, &nb2] { faces(x)?; } 
            ensure!(s == o && o == o2 && s == o2, "re-represented sums compare unequal");
            for (x, y) in [(&s, &s), (&s, &o), (&o, &o2), (&s, &nb), (&o, &nb), (&nb, &nb2), (&s, &nb2), (&s, &far)] { compare(x, y)?; } Ok(()) });
        c.case("canonical", || sh(format!("{rows:?}")), || {
            let n = SumType::new(rows.clone()); ensure!(rows_of(&n).len() == rows.len() && rows_of(&n).iter().zip(&rows).all(|(a, b)| rkey(a) == rkey(b)), "SumType::new changed the rows: {n:?}");
            if rows.len() == 1 { if let Ok(t) = TypeRow::try_from(rows[0].clone()) { compare(&SumType::new_tuple(t.clone()), &s)?; compare(&SumType::new_option(t.clone()), &SumType::General { rows: vec![TypeRowRV::new(), rows[0].clone()] })?;
                let (a, b) = (Type::new_tuple(t), TypeRV::new_sum(rows.clone())); ensure!(a == b && h(&TypeRV::from(a)) == h(&b), "tuple type"); } }
            Ok(()) });
    }
    c.finish()
}
