//! X01: executable contracts of extension registries, extensions and extension sets.
use hugr_core::Extension;
use hugr_core::{Hugr, HugrView};
use hugr_core::extension::resolution::WeakExtensionRegistry;
use hugr_core::extension::{ExtensionId, ExtensionRegistry, ExtensionRegistryError, ExtensionSet, TypeDefBound, Version};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::types::{PolyFuncType, Signature, Type, TypeBound};
use hx::{Ctx, Rng, ensure};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const NAMES: [&str; 7] = ["a", "b", "a.b", "a.b.c", "ab", "B", "z_9"];
fn id(n: &str) -> ExtensionId { ExtensionId::new(n).unwrap() }
fn version(r: &mut Rng) -> Version {
    match r.below(10) {
        0 => Version::parse("1.0.0-alpha").unwrap(), 1 => Version::parse("1.0.0-alpha.1").unwrap(), 2 => Version::parse("1.0.0-beta.2").unwrap(), 3 => Version::parse("1.0.0-beta.11").unwrap(),
        4 => Version::new(1, 0, 0), 5 => Version::new(0, r.below(12) as u64, r.below(3) as u64), 6 => Version::new(10, 0, 0), 7 => Version::new(2, r.below(2) as u64, 11), 8 => Version::new(u64::MAX, 0, 0),
        _ => Version::new(r.below(3) as u64, r.below(3) as u64, r.below(3) as u64),
    }
}
/// one definition; `good` says whether its operations are valid
fn define(r: &mut Rng) -> (Arc<Extension>, bool) {
    let n = id(*r.pick(&NAMES));
    let v = version(r);
    let kind = r.below(6);
    let e = Extension::new_arc(n, v, |e, w| {
        if kind > 0 { e.add_op("fine".into(), String::new(), Signature::new_endo(hugr_core::extension::prelude::bool_t()), w).unwrap(); }
        if kind == 2 { e.add_op("bad".into(), String::new(), PolyFuncType::new([], Signature::new_endo(Type::new_var_use(0, TypeBound::Linear))), w).unwrap(); }
        if kind == 3 { e.add_type("T".into(), vec![], String::new(), TypeDefBound::copyable(), w).unwrap(); }
    });
    (e, kind != 2)
}
/// The reference: name -> definition
#[derive(Clone, Default)]
struct Model(BTreeMap<String, (Arc<Extension>, bool)>);
impl Model {
    fn update(&mut self, e: &(Arc<Extension>, bool)) {
        let n = e.0.name().to_string();
        match self.0.get(&n) { Some(x) if x.0.version() >= e.0.version() => {} _ => { self.0.insert(n, e.clone()); } }
    }
    fn agree(&self, reg: &ExtensionRegistry) -> Result<(), String> {
        ensure!(reg.len() == self.0.len() && reg.is_empty() == self.0.is_empty(), "{} definitions, {} expected", reg.len(), self.0.len());
        for n in NAMES {
            let want = self.0.get(n);
            ensure!(reg.contains(n) == want.is_some(), "contains({n})");
            match (reg.get(n), want) { (Some(a), Some((b, _))) => ensure!(Arc::ptr_eq(a, b), "{n}: version {} kept, expected {}", a.version(), b.version()), (None, None) => {} (a, _) => return Err(format!("get({n}) gives {:?}", a.map(|a| a.version().clone()))) }
        }
        let all: Vec<String> = reg.iter().map(|e| e.name().to_string()).collect();
        let ids: Vec<String> = reg.ids().map(|e| e.to_string()).collect();
        let want: Vec<String> = self.0.keys().cloned().collect();
        ensure!(all == want && ids == want, "iterates over {all:?} / {ids:?}, expected {want:?}");
        Ok(())
    }
    fn good(&self) -> bool { self.0.values().all(|x| x.1) }
}
fn history(seed: u64, steps: usize) -> Result<(), String> {
    let mut r = Rng(seed);
    let mut reg = ExtensionRegistry::default();
    let mut m = Model::default();
    for step in 0..steps {
        let d = define(&mut r);
        let n = d.0.name().to_string();
        let op = r.below(10);
        let what = format!("step {step} op {op} on {n} {}", d.0.version());
        let with = |e: String| format!("{what}: {e}");
        match op {
            0 | 1 => { reg.register_updated(d.0.clone()); m.update(&d); }
            2 => { reg.register_updated_ref(&d.0); m.update(&d); }
            3 | 4 => {
                let got = reg.register(d.0.clone());
                match m.0.get(&n) {
                    Some(x) => { let ok = matches!(&got, Err(ExtensionRegistryError::AlreadyRegistered(i, a, b)) if i == d.0.name() && **a == *x.0.version() && **b == *d.0.version()); ensure!(ok, "{what}: register gives {got:?}") }
                    None => { ensure!(got.is_ok(), "{what}: register gives {got:?}"); m.0.insert(n.clone(), d.clone()); }
                }
            }
            5 => {
                let ds: Vec<_> = (0..r.below(5)).map(|_| define(&mut r)).collect();
                if r.bool() { reg.extend(ds.iter().map(|d| &d.0)); } else { reg.extend(ds.iter().map(|d| d.0.clone())); }
                for d in &ds { m.update(d); }
            }
            6 => {
                let got = reg.remove_extension(&id(&n));
                let want = m.0.remove(&n);
                ensure!(match (&got, &want) { (Some(a), Some((b, _))) => Arc::ptr_eq(a, b), (None, None) => true, _ => false }, "{what}: remove gives {:?}", got.map(|g| g.version().clone()));
            }
            7 => { let c = reg.clone(); ensure!(c == reg, "{what}: a clone differs"); reg = c; }
            8 => {
                let es: Vec<_> = reg.into_iter().collect();
                let weak: WeakExtensionRegistry = (&ExtensionRegistry::new(es.clone())).into();
                reg = ExtensionRegistry::try_from(&weak).map_err(|_| format!("{what}: all extensions are alive"))?;
            }
            _ => {
                let got = reg.validate();
                ensure!(got.is_ok() == m.good(), "{what}: validate gives {got:?}");
                if let Err(ExtensionRegistryError::InvalidSignature(i, _)) = &got { ensure!(m.0.get(&i.to_string()).is_some_and(|x| !x.1), "{what}: {i} is reported"); }
            }
        }
        m.agree(&reg).map_err(with)?;
        if op != 9 && r.below(4) == 0 { let c = reg.clone(); let got = c.validate(); ensure!(got.is_ok() == m.good(), "{what}: validate gives {got:?}"); }
    }
    // the same definitions in any order of different versions
    Ok(())
}
fn hugr_history(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let mut h = Hugr::new();
    let mut m = Model::default();
    for e in h.extensions().clone() { m.0.insert(e.name().to_string(), (e, true)); }
    for _ in 0..6 {
        let ds: Vec<_> = (0..r.below(4)).map(|_| define(&mut r)).collect();
        if r.bool() { h.use_extensions(ds.iter().map(|d| &d.0)); } else { for d in &ds { h.use_extension(d.0.clone()); } }
        for d in &ds { m.update(d); }
        m.agree(h.extensions())?;
    }
    Ok(())
}
fn sets(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let mk = |r: &mut Rng| { let n = r.below(6); let v: Vec<&str> = (0..n).map(|_| *r.pick(&NAMES)).collect(); v };
    let (a, b, c) = (mk(&mut r), mk(&mut r), mk(&mut r));
    let set = |v: &[&str]| v.iter().map(|n| id(n)).collect::<ExtensionSet>();
    let by_insert = |v: &[&str]| { let mut s = ExtensionSet::new(); for n in v { s.insert(id(n)); } s };
    let m = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<BTreeSet<String>>();
    let same = |s: &ExtensionSet, m: &BTreeSet<String>| s.iter().map(|x| x.to_string()).collect::<Vec<_>>() == m.iter().cloned().collect::<Vec<_>>() && s.is_empty() == m.is_empty() && NAMES.iter().all(|n| s.contains(&id(n)) == m.contains(*n));
    let (sa, sb, sc) = (set(&a), set(&b), set(&c));
    let (ma, mb, mc) = (m(&a), m(&b), m(&c));
    ensure!(same(&sa, &ma) && same(&by_insert(&b), &mb) && by_insert(&a) == sa, "construction from {a:?}");
    ensure!((sa == sb) == (ma == mb), "equality of {a:?} and {b:?}");
    ensure!(same(&sa.clone().union(sb.clone()), &ma.union(&mb).cloned().collect()), "union of {a:?} and {b:?} is {}", sa.clone().union(sb.clone()));
    ensure!(same(&ExtensionSet::union_over([sa.clone(), sb.clone(), sc.clone()]), &ma.union(&mb).cloned().collect::<BTreeSet<_>>().union(&mc).cloned().collect()), "union over {a:?}, {b:?}, {c:?}");
    ensure!(same(&sa.missing_from(&sb), &mb.difference(&ma).cloned().collect()), "missing from {a:?} of {b:?} is {}", sa.missing_from(&sb));
    ensure!(sa.is_subset(&sb) == ma.is_subset(&mb) && sa.is_superset(&sb) == ma.is_superset(&mb), "inclusion of {a:?} and {b:?}");
    for n in NAMES { let s: ExtensionSet = id(n).into(); ensure!(s == ExtensionSet::singleton(id(n)) && same(&s, &m(&[n])), "singleton {n}"); }
    Ok(())
}
fn definitions(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let mut err = Ok(());
    let e = Extension::new_arc(id("x.y"), Version::new(0, 1, 0), |e, w| {
        let (mut ops, mut tys): (BTreeMap<String, String>, BTreeMap<String, (String, usize)>) = Default::default();
        for i in 0..8 {
            let n = *r.pick(&["p", "q", "P", "p.q", ""]);
            let d = format!("def {i}");
            let fresh = if r.bool() {
                let got = e.add_op(n.into(), d.clone(), Signature::new_endo(vec![hugr_core::extension::prelude::bool_t(); i]), w).is_ok();
                let fresh = !ops.contains_key(n);
                if fresh { ops.insert(n.into(), d); }
                got == fresh
            } else {
                let got = e.add_type(n.into(), vec![TypeBound::Copyable.into(); i], d.clone(), TypeDefBound::copyable(), w).is_ok();
                let fresh = !tys.contains_key(n);
                if fresh { tys.insert(n.into(), (d, i)); }
                got == fresh
            };
            let good = e.operations().count() == ops.len() && e.types().count() == tys.len()
                && ops.iter().all(|(n, d)| e.get_op(n.as_str()).is_some_and(|o| o.description() == d && o.name().as_str() == n && o.extension_id() == e.name()))
                && tys.iter().all(|(n, (_, k))| e.get_type(n.as_str()).is_some_and(|t| t.name().as_str() == n && t.params().len() == *k && t.extension_id() == e.name()));
            if !(fresh && good) { err = Err(format!("definition {i} under {n:?}: fresh as reported {fresh}, definitions as expected {good}")); return; }
        }
    });
    err?;
    ensure!(e.operations().all(|(_, o)| o.extension().upgrade().is_some_and(|x| Arc::ptr_eq(&x, &e))), "an operation's parent is not the extension");
    Ok(())
}
fn main() {
    let mut c = Ctx::from_env("X01");
    for i in 0..c.n(1500, 30000) { let s = c.seed.wrapping_mul(1_000_003) ^ i; c.case("registry history", || format!("seed {s}, 12 steps"), || history(s, 12)); }
    for i in 0..c.n(60, 1000) { let s = c.seed.wrapping_mul(77_003) ^ i; c.case("registry history", || format!("seed {s}, 60 steps"), || history(s, 60)); }
    for i in 0..c.n(200, 3000) { let s = c.seed.wrapping_mul(991) ^ i; c.case("use_extensions", || format!("seed {s}"), || hugr_history(s)); }
    for i in 0..c.n(1500, 30000) { let s = c.seed.wrapping_mul(31_337) ^ i; c.case("extension sets", || format!("seed {s}"), || sets(s)); }
    for i in 0..c.n(600, 8000) { let s = c.seed.wrapping_mul(4_001) ^ i; c.case("definitions in an extension", || format!("seed {s}"), || definitions(s)); }
    c.finish();
}
