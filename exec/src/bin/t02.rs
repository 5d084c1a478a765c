//! T02: executable contracts of kind checking.
use hugr_core::types::type_param::{Term, check_term_type, check_term_types};
use hugr_core::types::{Type, TypeBound, TypeRV};
use hx::reference::{above, inhabits};
use hx::{Ctx, Rng, ensure, generators as g};
use std::num::NonZeroU64;

fn sh(t: &impl std::fmt::Debug) -> String { format!("{t:?}").chars().take(260).collect() }
/// change one thing in an argument
fn mutate(r: &mut Rng, t: &Term, d: &g::Decls) -> Term {
    match t {
        Term::List(v) | Term::Tuple(v) if r.below(3) > 0 => {
            let mut v = v.clone();
            match r.below(4) {
                0 => v.push(g::term(r, 1, d)),
                1 => { v.pop(); }
                _ => if !v.is_empty() { let i = r.below(v.len()); v[i] = mutate(r, &v[i], d); }
            }
            if matches!(t, Term::List(_)) { Term::List(v) } else { Term::Tuple(v) }
        }
        Term::List(v) if v.len() > 1 => { let k = r.below(v.len() + 1); Term::ListConcat(vec![Term::List(v[..k].to_vec()), Term::List(v[k..].to_vec())]) }
        Term::Tuple(v) if v.len() > 1 => { let k = r.below(v.len() + 1); Term::TupleConcat(vec![Term::Tuple(v[..k].to_vec()), Term::Tuple(v[k..].to_vec())]) }
        Term::BoundedNat(n) => Term::BoundedNat([n.wrapping_add(1), n.wrapping_sub(1), 1, 2, 5, u64::MAX][r.below(6)]),
        _ => g::term(r, 2, d),
    }
}
fn main() {
    let mut c = Ctx::from_env("T02");
    // naturals and bounds, exhaustively around the limits
    let lim = [1u64, 2, 3, 7, 255, u64::MAX - 1, u64::MAX];
    for m in lim { for n in [0u64, 1, 2, 3, 6, 7, 8, 254, 255, 256, u64::MAX - 2, u64::MAX - 1, u64::MAX] {
        c.case("natural_limit", || format!("{n} below {m}"), || {
            let k = Term::bounded_nat_type(NonZeroU64::new(m).unwrap());
            ensure!(check_term_type(&Term::BoundedNat(n), &k).is_ok() == (n < m), "accepted {}", check_term_type(&Term::BoundedNat(n), &k).is_ok());
            ensure!(check_term_type(&Term::BoundedNat(n), &Term::max_nat_type()).is_ok(), "refused without limit"); Ok(()) });
    } }
    let mut kinds: Vec<Term> = vec![TypeBound::Linear.into(), TypeBound::Copyable.into(), Term::StringType, Term::BytesType, Term::FloatType, Term::StaticType, Term::max_nat_type()];
    for m in lim { kinds.push(Term::bounded_nat_type(NonZeroU64::new(m).unwrap())); }
    let base = kinds.clone();
    for k in &base { kinds.push(Term::new_list_type(k.clone())); }
    for k in &base[..4] { kinds.push(Term::new_list_type(Term::new_list_type(k.clone()))); for l in &base[..4] { kinds.push(Term::new_tuple_type(Term::List(vec![k.clone(), l.clone()]))); } }
    kinds.push(Term::new_tuple_type(Term::List(vec![])));
    for t in [hugr_core::extension::prelude::bool_t(), hugr_core::extension::prelude::qb_t(), Type::UNIT] { kinds.push(Term::new_const(t)); }
    // variables: accepted exactly at super-kinds of their declared kind
    for decl in &kinds {
        for k in &kinds {
            c.case("variable_at_kind", || format!("{} at {}", sh(decl), sh(k)), || {
                let v = Term::new_var_use(0, decl.clone());
                let got = check_term_type(&v, k).is_ok();
                let want = above(k, decl);
                ensure!(got == want, "accepted: {got}"); Ok(()) });
        }
        c.case("subkind_reflexive", || sh(decl), || { ensure!(check_term_type(&Term::new_var_use(3, decl.clone()), decl).is_ok(), "not a sub-kind of itself"); Ok(()) });
    }
    // row variables inside lists of types
    for b in [TypeBound::Linear, TypeBound::Copyable] { for kb in [TypeBound::Linear, TypeBound::Copyable] { for pos in 0..3 {
        c.case("row_variable_in_list", || format!("{b:?} row in list of {kb:?}, position {pos}"), || {
            let mut v: Vec<Term> = vec![Type::UNIT.into(), Type::UNIT.into()]; v.insert(pos, TypeRV::new_row_var_use(0, b).into());
            let ok = check_term_type(&Term::List(v), &Term::new_list_type(kb)).is_ok();
            ensure!(ok == (kb == TypeBound::Linear || b == TypeBound::Copyable), "accepted: {ok}"); Ok(()) });
    } } }
    let mut r = c.rng.clone();
    for i in 0..c.n(12000, 200000) {
        let d = g::decls(&mut r);
        let k = if i % 4 == 3 { r.pick(&kinds).clone() } else { g::kind(&mut r, 3) };
        let arg = match i % 3 { 0 => g::arg_of(&mut r, &k, 2, &d), 1 => g::arg_of(&mut r, &k, 2, &d).map(|t| mutate(&mut r, &t, &d)), _ => None };
        let arg = arg.unwrap_or_else(|| g::term(&mut r, 3, &d));
        let Some(want) = inhabits(&arg, &k, &d) else { continue };
        c.case("argument_at_kind", || format!("{} at {} given {}", sh(&arg), sh(&k), sh(&d)), || {
            let got = check_term_type(&arg, &k);
            ensure!(got.is_ok() == want, "{got:?}, expected accepted={want}"); Ok(()) });
        // an accepted argument is accepted at every super-kind
        let k2 = if r.bool() { r.pick(&kinds).clone() } else { g::kind(&mut r, 3) };
        if want && above(&k2, &k) && inhabits(&arg, &k2, &d).is_some() {
            c.case("accepted_at_superkind", || format!("{} at {} above {}", sh(&arg), sh(&k2), sh(&k)), || { ensure!(check_term_type(&arg, &k2).is_ok(), "refused at the super-kind"); Ok(()) });
        }
    }
    for _ in 0..c.n(3000, 40000) {
        let d = g::decls(&mut r);
        let n = r.below(4);
        let ks: Vec<Term> = (0..n).map(|_| g::kind(&mut r, 2)).collect();
        let Some(mut args) = g::args_for(&mut r, &ks, &d) else { continue };
        match r.below(5) { 0 => { args.push(Term::BoundedNat(0)); } 1 => { args.pop(); } 2 => if n > 0 { let i = r.below(n); args[i] = mutate(&mut r, &args[i], &d); } 3 => if n > 1 { args.swap(0, n - 1); } _ => {} }
        let mut want = Some(args.len() == ks.len());
        if want == Some(true) { for (a, k) in args.iter().zip(&ks) { match inhabits(a, k, &d) { None => { want = None; break; } Some(b) => if !b { want = want.map(|_| false); } } } }
        let Some(want) = want else { continue };
        c.case("argument_lists", || format!("{} for {}", sh(&args), sh(&ks)), || {
            let got = check_term_types(&args, &ks);
            ensure!(got.is_ok() == want, "{got:?}, expected accepted={want}"); Ok(()) });
    }
    c.finish()
}
