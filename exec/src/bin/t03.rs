//! T03: executable contracts of substitution.
use hugr_core::extension::prelude::{bool_t, qb_t, usize_t};
use hugr_core::types::type_param::{SeqPart, Term};
use hugr_core::types::{FuncValueType, PolyFuncType, PolyFuncTypeRV, Signature, Type, TypeBound, TypeRV, TypeRow};
use hx::reference::{self as rf, Part};
use hx::{Ctx, ensure, generators as g};

fn sh(t: &impl std::fmt::Debug) -> String { format!("{t:?}").chars().take(300).collect() }
fn has_concat(t: &Term) -> bool { let s = format!("{t:?}"); s.contains("ListConcat") || s.contains("TupleConcat") }
/// substitution as the public interface offers it: the instantiated one-output signature
fn subst(t: &Type, decls: &g::Decls, args: &[Term]) -> Result<Type, String> {
    let p = PolyFuncType::new(decls.clone(), Signature::new(vec![], vec![t.clone()]));
    p.instantiate(args).map(|s| s.output[0].clone()).map_err(|e| format!("instantiation failed: {e}"))
}
fn main() {
    let mut c = Ctx::from_env("T03");
    let mut r = c.rng.clone();
    for _ in 0..c.n(6000, 80000) {
        let d = g::decls(&mut r);
        let outer = if r.bool() { g::decls(&mut r) } else { vec![] };
        let t = g::ty(&mut r, 4, &d);
        let Some(args) = g::args_for(&mut r, &d, &outer) else { continue };
        let show = || format!("{} at {}", sh(&t), sh(&args));
        c.case("substituted_type", show, || { let (got, want) = (subst(&t, &d, &args)?, rf::s_ty(&t, &args));
            ensure!(got == want, "{got:?} instead of {want:?}"); ensure!(got.copyable() == rf::copyable(&got), "bound of the result"); Ok(()) });
        let idents: Vec<Term> = d.iter().enumerate().map(|(i, k)| Term::new_var_use(i, k.clone())).collect();
        if !format!("{t:?}").contains("Concat") {
            c.case("identity_on_types", || sh(&t), || { let got = subst(&t, &d, &idents)?; ensure!(got == t, "changed to {got:?}"); Ok(()) });
        }
        // signatures keep the order of their rows; rows splice row variables in place
        let f: FuncValueType = g::func(&mut r, 3, &d);
        c.case("substituted_row", || format!("{} at {}", sh(&f), sh(&args)), || {
            let got = PolyFuncTypeRV::new(d.clone(), f.clone()).instantiate(&args).map_err(|e| e.to_string())?;
            let want = rf::s_func(&f, &args);
            ensure!(got == want, "{got:?} instead of {want:?}"); Ok(()) });
        let s = g::sig(&mut r, 3, &d);
        c.case("substituted_signature", || format!("{} at {}", sh(&s), sh(&args)), || {
            let got = PolyFuncType::new(d.clone(), s.clone()).instantiate(&args).map_err(|e| e.to_string())?;
            ensure!(got == rf::s_sig(&s, &args), "{got:?} instead of {:?}", rf::s_sig(&s, &args)); Ok(()) });
        // terms and kinds, as arguments of an extension type
        let x = g::wterm(&mut r, &d);
        let carrier = g::custom("C", vec![x.clone()], TypeBound::Copyable);
        c.case("substituted_term", || format!("{} at {}", sh(&x), sh(&args)), || {
            let got = subst(&carrier, &d, &args)?; let want = rf::s_term(&x, &args);
            let got = got.as_extension().unwrap().args()[0].clone();
            ensure!(got == want, "{got:?} instead of {want:?}"); Ok(()) });
        if !has_concat(&x) {
            c.case("identity_on_terms", || sh(&x), || { let got = subst(&carrier, &d, &idents)?; ensure!(got == carrier, "changed to {got:?}"); Ok(()) });
        }
    }
    // lists and tuples from parts are flattened in order
    for _ in 0..c.n(3000, 40000) {
        let d = g::Decls::new();
        let n = r.below(5);
        let parts: Vec<(bool, Term)> = (0..n).map(|_| { let t = match r.below(5) { 0 => Term::List(g::terms(&mut r, 1, &d)), 1 => Term::ListConcat(g::terms(&mut r, 2, &d)), 2 => Term::Tuple(g::terms(&mut r, 1, &d)), 3 => Term::TupleConcat(g::terms(&mut r, 2, &d)), _ => Term::new_var_use(0, Term::new_list_type(Term::StringType)) }; (r.bool(), t) }).collect();
        let seq = || parts.iter().map(|(i, t)| if *i { SeqPart::Item(t.clone()) } else { SeqPart::Splice(t.clone()) });
        let fl = |list: bool| -> Vec<Part> { parts.iter().flat_map(|(i, t)| if *i { vec![Part::Item(t.clone())] } else if list { rf::list_parts(t) } else { rf::tuple_parts(t) }).collect() };
        c.case("from_parts", || sh(&parts), || {
            let (l, u) = (Term::new_list_from_parts(seq()), Term::new_tuple_from_parts(seq()));
            ensure!(l == rf::regroup(fl(true), true), "list {l:?} instead of {:?}", rf::regroup(fl(true), true));
            ensure!(u == rf::regroup(fl(false), false), "tuple {u:?} instead of {:?}", rf::regroup(fl(false), false)); Ok(()) });
        for (_, t) in &parts {
            c.case("into_parts", || sh(t), || {
                let cv = |p: SeqPart<Term>| match p { SeqPart::Item(t) => Part::Item(t), SeqPart::Splice(t) => Part::Splice(t) };
                let (l, u): (Vec<Part>, Vec<Part>) = (t.clone().into_list_parts().map(cv).collect(), t.clone().into_tuple_parts().map(cv).collect());
                ensure!(l == rf::list_parts(t), "list parts {l:?}"); ensure!(u == rf::tuple_parts(t), "tuple parts {u:?}"); Ok(()) });
        }
    }
    // a row variable is replaced in place by rows of every length, at every position
    let elems = [bool_t(), qb_t(), usize_t(), Type::new_tuple(vec![bool_t()])];
    for n in 0..4usize { for pos in 0..=n { for len in 0..4usize {
        c.case("row_in_place", || format!("row of {len} at {pos} of {n}"), || {
            let row: Vec<Term> = elems[..len].iter().cloned().map(Term::from).collect();
            let mut ts: Vec<TypeRV> = elems[..n].iter().cloned().map(TypeRV::from).collect();
            ts.insert(pos, TypeRV::new_row_var_use(0, TypeBound::Linear));
            let f = FuncValueType::new(ts.clone(), ts);
            let got = PolyFuncTypeRV::new(vec![Term::new_list_type(TypeBound::Linear)], f).instantiate(&[Term::List(row)]).map_err(|e| e.to_string())?;
            let want: Vec<Type> = elems[..pos].iter().chain(&elems[..len]).chain(&elems[pos..n]).cloned().collect();
            let want: TypeRow = want.into();
            ensure!(got.input == want && got.output == want, "{got:?}"); Ok(()) });
    } } }
    // an item of a list of rows stays an item
    c.case("row_variable_as_list_item", || "[#0] with #0 := [bool, qubit], as a list of rows".into(), || {
        let k = Term::new_list_type(TypeBound::Linear);
        let x = Term::List(vec![Term::new_var_use(0, k.clone())]);
        let row = Term::List(vec![bool_t().into(), qb_t().into()]);
        let got = subst(&g::custom("C", vec![x], TypeBound::Copyable), &vec![k], &[row.clone()])?;
        let got = &got.as_extension().unwrap().args()[0];
        ensure!(*got == Term::List(vec![row.clone()]), "the list of rows became {got:?}"); Ok(()) });
    c.finish()
}
