//! T01: executable contracts of the copyable/linear classification.
use hugr_core::extension::prelude::{bool_t, qb_t, usize_t};
use hugr_core::ops::AliasDecl;
use hugr_core::types::type_param::Term;
use hugr_core::types::{CustomType, FuncValueType, SumType, Transformable, Type, TypeBound, TypeRV, TypeRowRV, TypeTransformer};
use hx::reference::{copyable, copyable_rv};
use hx::{Ctx, ensure, generators as g};
use hugr_core::extension::SignatureError;

const B: [TypeBound; 2] = [TypeBound::Copyable, TypeBound::Linear];
fn want(c: bool) -> TypeBound { if c { TypeBound::Copyable } else { TypeBound::Linear } }
/// replaces the test extension's leaf types by others, possibly changing their bound
struct Swap(Type, Type, Type);
impl TypeTransformer for Swap {
    type Err = SignatureError;
    fn apply_custom(&self, t: &CustomType) -> Result<Option<Type>, SignatureError> {
        Ok(match t.name().as_str() { "C" => Some(self.0.clone()), "L" => Some(self.1.clone()), "qubit" => Some(self.2.clone()), _ => None })
    }
}
fn main() {
    let mut c = Ctx::from_env("T01");
    for a in B {
        for b in B {
            let lin = a == TypeBound::Linear || b == TypeBound::Linear;
            c.case("contains", || format!("{a:?} {b:?}"), || { ensure!(a.contains(b) == (a == TypeBound::Linear || b == TypeBound::Copyable), "contains {}", a.contains(b)); Ok(()) });
            c.case("union", || format!("{a:?} {b:?}"), || { ensure!(a.union(b) == want(!lin), "union {:?}", a.union(b)); ensure!(a.union(b).contains(a) && a.union(b).contains(b), "not an upper bound"); Ok(()) });
        }
    }
    // every way of placing up to six bounds in up to three variants
    let leaf = |b: TypeBound, k: usize| -> TypeRV { match (b, k % 4) {
        (_, 1) => TypeRV::new_var_use(k, b), (_, 2) => TypeRV::new_row_var_use(k, b), (_, 3) => Type::new_alias(AliasDecl::new("a", b)).into(),
        (TypeBound::Copyable, _) => usize_t().into(), _ => qb_t().into() } };
    for n in 0..6usize { for m in 0..1u32 << n { for cut in 0..=n { for kind in 0..4 {
        let row: Vec<TypeRV> = (0..n).map(|i| leaf(B[(m >> i & 1) as usize], kind + i)).collect();
        let rows: Vec<TypeRowRV> = vec![row[..cut].to_vec().into(), TypeRowRV::new(), row[cut..].to_vec().into()];
        c.case("sum_of_bounds", || format!("{n} components, linear mask {m:b}, cut {cut}, kind {kind}"), || {
            let w = want(m == 0);
            for t in [Type::new_sum(rows.clone()), Type::from(SumType::General { rows: rows.clone() }), Type::new_tuple(row.clone()), Type::new_sum(rows.iter().rev().cloned().collect::<Vec<_>>()), Type::from(SumType::new(rows.clone()))] {
                ensure!(t.least_upper_bound() == w, "{t:?} is classified {:?}", t.least_upper_bound());
                ensure!(t.copyable() == (m == 0), "copyable() of {t:?}");
            }
            let f = Type::new_function(FuncValueType::new(row.clone(), row.clone()));
            ensure!(f.copyable() && f.least_upper_bound() == TypeBound::Copyable, "function type");
            Ok(()) });
    } } } }
    for b in B { for i in [0, 1, 7, usize::MAX] {
        c.case("declared_bound", || format!("{b:?} {i}"), || {
            ensure!(Type::new_var_use(i, b).least_upper_bound() == b, "variable"); ensure!(TypeRV::new_row_var_use(i, b).least_upper_bound() == b, "row variable");
            ensure!(Type::new_alias(AliasDecl::new("x", b)).least_upper_bound() == b, "alias");
            ensure!(g::custom("X", vec![], b).least_upper_bound() == b, "extension type"); Ok(()) });
    } }
    for n in 0..=255u8 { c.case("unit_sum", || format!("{n}"), || { ensure!(Type::new_unit_sum(n).copyable() && Type::from(SumType::new_unary(n)).copyable(), "unit sum"); Ok(()) }); }
    let mut r = c.rng.clone();
    for _ in 0..c.n(3000, 40000) {
        let d = g::decls(&mut r);
        let t = g::ty(&mut r, 4, &d);
        let sh = || format!("{t:?}").chars().take(300).collect::<String>();
        c.case("random_type", sh, || {
            ensure!(t.least_upper_bound() == want(copyable(&t)), "classified {:?}", t.least_upper_bound()); 
            ensure!(t.copyable() == copyable(&t), "copyable()");
            let u: TypeRV = t.clone().into();
            ensure!(u.least_upper_bound() == t.least_upper_bound() && copyable_rv(&u) == copyable(&t), "conversion to a row element");
            ensure!(Type::try_from(u).ok().as_ref() == Some(&t), "conversion back");
            Ok(()) });
        c.case("serialised_type", sh, || {
            let js = serde_json::to_value(&t).map_err(|e| e.to_string())?;
            let u: Type = serde_json::from_value(js).map_err(|e| e.to_string())?;
            ensure!(u.least_upper_bound() == t.least_upper_bound(), "read back as {:?}", u.least_upper_bound()); Ok(()) });
        // the extension types with a computed bound
        let ts: Vec<Type> = (0..3).map(|_| g::ty(&mut r, 2, &d)).collect();
        c.case("computed_bound", || format!("{ts:?}").chars().take(300).collect(), || {
            let a: Vec<Term> = ts.iter().cloned().map(Term::from).collect();
            let p = g::EXT.get_type("P").unwrap().instantiate([a[0].clone()]).map_err(|e| e.to_string())?;
            ensure!(p.bound() == want(copyable(&ts[0])), "P is {:?}", p.bound());
            let q = g::EXT.get_type("Q").unwrap().instantiate([a[0].clone(), 1u64.into(), a[1].clone(), a[2].clone()]).map_err(|e| e.to_string())?;
            ensure!(q.bound() == want(ts.iter().all(copyable)), "Q is {:?}", q.bound());
            ensure!(Type::new_extension(q.clone()).least_upper_bound() == q.bound(), "type of Q");
            Ok(()) });
        // classification after transforming components
        let (x, y, z) = (g::ty(&mut r, 1, &d), g::ty(&mut r, 1, &d), [bool_t(), qb_t(), g::ty(&mut r, 1, &d)][r.below(3)].clone());
        c.case("transformed_type", || format!("C->{x:?} L->{y:?} qubit->{z:?} in {t:?}").chars().take(500).collect(), || {
            let mut u = t.clone();
            let Ok(changed) = u.transform(&Swap(x.clone(), y.clone(), z.clone())) else { return Ok(()) };
            ensure!(u.least_upper_bound() == want(copyable(&u)), "{u:?} is classified {:?}", u.least_upper_bound());
            ensure!(changed || u == t, "changed without saying so"); Ok(()) });
    }
    c.finish()
}
