//! D01: executable contracts of the dataflow value domain.
use ascent::Lattice;
use ascent::lattice::BoundedLattice;
use hugr_core::ops::constant::Sum as _Unused;
use hugr_core::types::type_param::TypeArg;
use hugr_core::types::{SumType, Type};
use hugr_passes::dataflow::{AbstractValue, AsConcrete, LoadedFunction, PartialSum, PartialValue, Sum};
use hx::{Ctx, Rng, ensure};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

#[allow(dead_code)]
type Unused = _Unused;
/// an underlying domain without order: values join only with themselves
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Flat(u8);
impl AbstractValue for Flat {}
/// an underlying domain with an order of its own: non-empty sets of at most 3 of 4 things
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Bits(u8);
impl AbstractValue for Bits {
    fn try_join(self, o: Self) -> Option<(Self, bool)> { let j = self.0 | o.0; (j != 15).then_some((Bits(j), j != self.0)) }
    fn try_meet(self, o: Self) -> Option<(Self, bool)> { let m = self.0 & o.0; (m != 0).then_some((Bits(m), m != self.0)) }
}
trait Dom: AbstractValue { fn make(r: &mut Rng) -> Self; fn le(&self, o: &Self) -> bool; fn all() -> Vec<Self>; const FLAT: bool; }
impl Dom for Flat { fn make(r: &mut Rng) -> Self { Flat(r.below(3) as u8) } fn le(&self, o: &Self) -> bool { self == o } fn all() -> Vec<Self> { (0..3).map(Flat).collect() } const FLAT: bool = true; }
impl Dom for Bits { fn make(r: &mut Rng) -> Self { Bits(1 + r.below(14) as u8) } fn le(&self, o: &Self) -> bool { self.0 & o.0 == self.0 } fn all() -> Vec<Self> { vec![Bits(1), Bits(2), Bits(3), Bits(7)] } const FLAT: bool = false; }

type PV<V> = PartialValue<V, usize>;
/// the reference domain: the same values, by structure
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum R<V> { Bot, Val(V), Fun(usize, Vec<TypeArgKey>, ), Sum(BTreeMap<usize, Vec<R<V>>>), Top }
type TypeArgKey = u64;
fn args(ks: &[u64]) -> Vec<TypeArg> { ks.iter().map(|k| (*k).into()).collect() }
impl<V: Dom> R<V> {
    fn real(&self) -> PV<V> {
        match self {
            R::Bot => PV::Bottom, R::Top => PV::Top, R::Val(v) => PV::Value(v.clone()), R::Fun(n, a) => PV::new_load(*n, args(a)),
            R::Sum(m) => PartialSum(m.iter().map(|(k, v)| (*k, v.iter().map(R::real).collect())).collect::<HashMap<_, _>>()).into(),
        }
    }
    fn of(p: &PV<V>) -> R<V> {
        match p {
            PV::Bottom => R::Bot, PV::Top => R::Top, PV::Value(v) => R::Val(v.clone()),
            PV::LoadedFunction(LoadedFunction { func_node, args }) => R::Fun(*func_node, args.iter().map(|a| a.as_nat().unwrap()).collect()),
            PV::PartialSum(s) => R::Sum(s.0.iter().map(|(k, v)| (*k, v.iter().map(R::of).collect())).collect()),
        }
    }
    fn le(&self, o: &R<V>) -> bool {
        match (self, o) {
            (R::Bot, _) | (_, R::Top) => true, (R::Val(a), R::Val(b)) => a.le(b), (R::Fun(..), R::Fun(..)) => self == o,
            (R::Sum(a), R::Sum(b)) => a.iter().all(|(k, v)| b.get(k).is_some_and(|w| rle(v, w))),
            _ => false,
        }
    }
    fn join(&self, o: &R<V>) -> R<V> {
        match (self, o) {
            (R::Bot, x) | (x, R::Bot) => x.clone(),
            (R::Val(a), R::Val(b)) => a.clone().try_join(b.clone()).map_or(R::Top, |x| R::Val(x.0)),
            (R::Fun(..), R::Fun(..)) if self == o => self.clone(),
            (R::Sum(a), R::Sum(b)) => {
                if a.iter().any(|(k, v)| b.get(k).is_some_and(|w| v.len() != w.len())) { return R::Top; }
                let mut m = a.clone();
                for (k, w) in b { let v = m.entry(*k).or_insert(w.clone()); for (x, y) in v.iter_mut().zip(w) { *x = x.join(y); } }
                R::Sum(m)
            }
            _ => R::Top,
        }
    }
    fn meet(&self, o: &R<V>) -> R<V> {
        match (self, o) {
            (R::Top, x) | (x, R::Top) => x.clone(),
            (R::Val(a), R::Val(b)) => a.clone().try_meet(b.clone()).map_or(R::Bot, |x| R::Val(x.0)),
            (R::Fun(..), R::Fun(..)) if self == o => self.clone(),
            (R::Sum(a), R::Sum(b)) => {
                let m: BTreeMap<usize, Vec<R<V>>> = a.iter().filter_map(|(k, v)| b.get(k).map(|w| (*k, v.iter().zip(w).map(|(x, y)| x.meet(y)).collect()))).collect();
                if m.is_empty() { R::Bot } else { R::Sum(m) }
            }
            _ => R::Bot,
        }
    }
    /// rows of the same tag have the same number of values, at every level
    fn alike(&self, o: &R<V>) -> bool {
        match (self, o) { (R::Sum(a), R::Sum(b)) => a.iter().all(|(k, v)| b.get(k).is_none_or(|w| v.len() == w.len() && v.iter().zip(w).all(|(x, y)| x.alike(y)))), _ => true }
    }
    fn has_bottom(&self) -> bool { match self { R::Bot => true, R::Sum(m) => m.values().all(|v| v.iter().any(R::has_bottom)), _ => false } }
}
fn rle<V: Dom>(v: &[R<V>], w: &[R<V>]) -> bool { v.len() == w.len() && v.iter().zip(w).all(|(a, b)| a.le(b)) }
struct Gen { wild: bool }
impl Gen {
    fn value<V: Dom>(&self, r: &mut Rng, depth: usize) -> R<V> {
        match r.below(if depth == 0 { 7 } else { 14 }) {
            0 => R::Bot, 1 => R::Top, 2..=4 => R::Val(V::make(r)), 5 => R::Fun(r.below(2), vec![]), 6 => R::Fun(r.below(2), vec![r.below(2) as u64]),
            _ => { let n = 1 + r.below(3); let mut m = BTreeMap::new(); for _ in 0..n { let t = if r.below(20) == 0 { 300 } else { r.below(4) }; let len = if self.wild { r.below(3) } else { t % 3 }; let row = (0..len).map(|_| self.value(r, depth - 1)).collect(); m.insert(t, row); } R::Sum(m) }
        }
    }
    /// something close to `a`
    fn near<V: Dom>(&self, r: &mut Rng, a: &R<V>, depth: usize) -> R<V> {
        match r.below(6) {
            0 => self.value(r, depth), 1 => a.clone(),
            _ => match a {
                R::Sum(m) => {
                    let mut m = m.clone();
                    match r.below(5) {
                        0 => { let k = *m.keys().next().unwrap(); if m.len() > 1 { m.remove(&k); } }
                        1 => { let k = *m.keys().last().unwrap(); if m.len() > 1 { m.remove(&k); } }
                        2 => { let t = r.below(4); let len = if self.wild { r.below(3) } else { t % 3 }; m.entry(t).or_insert((0..len).map(|_| self.value(r, depth.saturating_sub(1))).collect()); }
                        _ => { for v in m.values_mut() { for x in v.iter_mut() { if r.below(3) > 0 { *x = self.near(r, x, depth.saturating_sub(1)); } } } }
                    }
                    R::Sum(m)
                }
                R::Val(_) => R::Val(V::make(r)),
                _ => if r.bool() { R::Top } else { R::Bot },
            },
        }
    }
}
fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn pair<V: Dom>(a: &R<V>, b: &R<V>) -> Result<(), String> {
    let (pa, pb) = (a.real(), b.real());
    ensure!(R::of(&pa) == *a && (pa == pb) == (a == b), "equality");
    ensure!(a != b || (hash(&pa) == hash(&pb) && hash(&a.real()) == hash(&a.clone().real())), "equal values hash differently");
    // join
    let mut x = pa.clone();
    let ch = x.join_mut(pb.clone());
    let j = R::of(&x);
    ensure!(j == a.join(b), "join is {j:?}, expected {:?}", a.join(b));
    ensure!(ch == (j != *a), "join reports changed = {ch}; it is {j:?}");
    ensure!(a.le(&j) && b.le(&j), "the join {j:?} is no upper bound");
    ensure!(x == pb.clone().join(pa.clone()), "join does not commute");
    ensure!(pa.clone().join(pa.clone()) == pa, "join with itself");
    ensure!(R::of(&x.clone().join(pb.clone())) == j && { let mut y = x.clone(); !y.join_mut(pa.clone()) }, "joining again changes the value");
    ensure!(PV::bottom().join(pa.clone()) == pa && pa.clone().join(PV::bottom()) == pa && pa.clone().join(PV::top()) == PV::Top, "bottom and top under join");
    for t in [0usize, 1, 2, 3, 300] {
        let have = |p: &PV<V>| p.supports_tag(t);
        ensure!(!(have(&pa) || have(&pb)) || have(&x), "tag {t} is lost in the join");
        ensure!(have(&pa) == match a { R::Top => true, R::Sum(m) => m.contains_key(&t), _ => false }, "supports_tag({t})");
        if let R::Sum(m) = a {
            let PV::PartialSum(s) = &pa else { return Err("not a sum".into()) };
            ensure!(s.num_variants() == m.len() && s.supports_tag(t) == m.contains_key(&t) && s.variant_values(t).map(|v| v.iter().map(R::of).collect::<Vec<_>>()).as_ref() == m.get(&t), "variants of {s:?}");
        }
        let len = match a { R::Sum(m) => m.get(&t).map_or(1, Vec::len), _ => 2 };
        let want = match a { R::Top => Some(vec![R::Top; len]), R::Sum(m) => m.get(&t).cloned(), _ => None };
        ensure!(pa.variant_values(t, len).map(|v| v.iter().map(R::of).collect::<Vec<_>>()) == want, "variant_values({t}, {len})");
    }
    ensure!(pa.contains_bottom() == a.has_bottom(), "contains_bottom");
    // meet
    let mut y = pa.clone();
    let ch = y.meet_mut(pb.clone());
    let m = R::of(&y);
    ensure!(ch == (m != *a), "meet reports changed = {ch}; it is {m:?}");
    ensure!(m.le(a) && m.le(b), "the meet {m:?} is no lower bound");
    ensure!(pa.clone().meet(pa.clone()) == pa && PV::top().meet(pa.clone()) == pa && pa.clone().meet(PV::bottom()) == PV::Bottom && pa.clone().meet(PV::top()) == pa, "bottom and top under meet");
    if a.alike(b) {
        ensure!(m == a.meet(b), "meet is {m:?}, expected {:?}", a.meet(b));
        ensure!(y == pb.clone().meet(pa.clone()), "meet does not commute");
        ensure!(pa.clone().join(pa.clone().meet(pb.clone())) == pa && pa.clone().meet(pa.clone().join(pb.clone())) == pa, "absorption");
    }
    if V::FLAT {
        let want = match (a.le(b), b.le(a)) { (true, true) => Some(Ordering::Equal), (true, false) => Some(Ordering::Less), (false, true) => Some(Ordering::Greater), _ => None };
        ensure!(pa.partial_cmp(&pb) == want, "partial_cmp gives {:?}, expected {want:?}", pa.partial_cmp(&pb));
    }
    Ok(())
}
fn triple<V: Dom>(a: &R<V>, b: &R<V>, c: &R<V>) -> Result<(), String> {
    let (pa, pb, pc) = (a.real(), b.real(), c.real());
    let l = pa.clone().join(pb.clone()).join(pc.clone());
    let r = pa.clone().join(pb.clone().join(pc.clone()));
    ensure!(l == r, "join is not associative: {l:?} and {r:?}");
    ensure!(!(a.le(c) && b.le(c)) || R::of(&pa.clone().join(pb.clone())).le(c), "the join is not the least upper bound");
    if a.alike(b) && b.alike(c) && a.alike(c) {
        let l = pa.clone().meet(pb.clone()).meet(pc.clone());
        let r = pa.clone().meet(pb.clone().meet(pc.clone()));
        ensure!(l == r, "meet is not associative: {l:?} and {r:?}");
        ensure!(!(c.le(a) && c.le(b)) || c.le(&R::of(&pa.meet(pb))), "the meet is not the greatest lower bound");
    }
    Ok(())
}
fn sums<V: Dom>(a: &R<V>, b: &R<V>) -> Result<(), String> {
    let (PV::PartialSum(sa), PV::PartialSum(sb)) = (a.real(), b.real()) else { return Ok(()) };
    let mut x = sa.clone();
    match (x.try_join_mut(sb.clone()), a.join(b)) {
        (Ok(ch), want @ R::Sum(_)) => { let got = R::of(&PV::PartialSum(x)); ensure!(got == want && ch == (got != *a), "try_join_mut gives {got:?}, changed {ch}"); }
        (Err(t), R::Top) => ensure!(x == sa && sa.variant_values(t).map(|v| v.len()) != sb.variant_values(t).map(|v| v.len()), "failed try_join_mut({t}) leaves {x:?}"),
        (r, _) => return Err(format!("try_join_mut gives {r:?}")),
    }
    let mut x = sa.clone();
    let common = sa.0.keys().filter(|k| sb.0.contains_key(k)).count();
    let clash = sa.0.iter().any(|(k, v)| sb.0.get(k).is_some_and(|w| w.len() != v.len()));
    match x.try_meet_mut(sb.clone()) {
        Ok(ch) => { let got = R::of(&PV::PartialSum(x)); ensure!(!clash && common > 0 && got == a.meet(b) || !a.alike(b), "try_meet_mut gives {got:?}"); ensure!(ch == (got != *a), "try_meet_mut reports changed = {ch}: {got:?}"); }
        Err(None) => ensure!(x == sa && common == 0, "failed try_meet_mut leaves {x:?}"),
        Err(Some(t)) => ensure!(x == sa && sa.0[&t].len() != sb.0[&t].len(), "failed try_meet_mut({t}) leaves {x:?}"),
    }
    Ok(())
}
/// concrete values: exactly those with one possibility throughout
#[derive(Clone, Debug, PartialEq)]
enum Conc<V> { Val(V), Fun(usize), Sum(usize, Vec<Conc<V>>) }
#[derive(Debug)]
struct No;
impl std::fmt::Display for No { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "no") } }
impl std::error::Error for No {}
impl<V: Dom> AsConcrete<V, usize> for Conc<V> {
    type ValErr = No; type SumErr = No;
    fn from_value(v: V) -> Result<Self, No> { Ok(Conc::Val(v)) }
    fn from_sum(s: Sum<Self>) -> Result<Self, No> { Ok(Conc::Sum(s.tag, s.values)) }
    fn from_func(f: LoadedFunction<usize>) -> Result<Self, LoadedFunction<usize>> { Ok(Conc::Fun(f.func_node)) }
}
fn conc<V: Dom>(a: &R<V>) -> Option<Conc<V>> {
    match a { R::Val(v) => Some(Conc::Val(v.clone())), R::Fun(n, _) => Some(Conc::Fun(*n)), R::Sum(m) if m.len() == 1 => { let (k, v) = m.iter().next().unwrap(); Some(Conc::Sum(*k, v.iter().map(conc).collect::<Option<Vec<_>>>()?)) } _ => None }
}
/// a type with the shape of the value
fn type_of<V: Dom>(a: &R<V>) -> Type {
    match a { R::Sum(m) => { let top = *m.keys().last().unwrap(); SumType::new((0..=top).map(|t| m.get(&t).map_or(vec![], |v| v.iter().map(type_of).collect()))).into() } _ => hugr_core::extension::prelude::usize_t() }
}
fn concrete<V: Dom>(a: &R<V>, ty: &Type, fits: bool) -> Result<(), String> {
    let got = a.real().try_into_concrete::<Conc<V>>(ty);
    match conc(a) {
        Some(c) if fits => ensure!(got.as_ref().ok() == Some(&c), "concrete value {got:?}, expected {c:?}"),
        Some(c) => ensure!(got.is_err() || got.as_ref().ok() == Some(&c), "concrete value {got:?}, expected {c:?}"),
        None => ensure!(got.is_err(), "made concrete: {got:?}"),
    }
    Ok(())
}
fn rename<V>(s: &str, v: std::marker::PhantomData<V>) -> String { let _ = v; format!("{s} ({})", std::any::type_name::<V>().rsplit("::").next().unwrap()) }
fn run<V: Dom>(c: &mut Ctx) {
    let nm = |s: &str| rename(s, std::marker::PhantomData::<V>);
    // all pairs of shallow values
    let mut small: Vec<R<V>> = vec![R::Bot, R::Top, R::Fun(0, vec![]), R::Fun(1, vec![]), R::Fun(0, vec![1])];
    small.extend(V::all().into_iter().map(R::Val));
    let base = small.clone();
    for (t, rows) in [(0, 0), (1, 1), (2, 1)] { for x in if rows == 0 { &base[..1] } else { &base[..] } { small.push(R::Sum(BTreeMap::from([(t, if rows == 0 { vec![] } else { vec![x.clone()] })]))); } }
    for x in &base[..4] { small.push(R::Sum(BTreeMap::from([(0, vec![]), (1, vec![x.clone()])]))); small.push(R::Sum(BTreeMap::from([(1, vec![x.clone()]), (2, vec![x.clone()])]))); small.push(R::Sum(BTreeMap::from([(3, vec![x.clone(), base[5].clone()])]))); }
    for a in &small { for b in &small { c.case(&nm("join and meet of two values"), || format!("{a:?} with {b:?}"), || pair(a, b)); c.case(&nm("sums"), || format!("{a:?} with {b:?}"), || sums(a, b)); } }
    for i in 0..c.n(4000, 80000) {
        let mut r = c.rng.clone();
        let g = Gen { wild: i % 5 == 0 };
        let d = 1 + r.below(3);
        let a = g.value::<V>(&mut r, d);
        let b = if r.below(4) == 0 { g.value(&mut r, d) } else { g.near(&mut r, &a, d) };
        let x = if r.bool() { g.near(&mut r, &a, d) } else { a.join(&g.near(&mut r, &b, d)) };
        let ty = if r.bool() { type_of(&a) } else { type_of(&b) };
        c.rng = r;
        let has = |s: &R<V>| !matches!(s, R::Sum(m) if m.is_empty());
        if !has(&a) || !has(&b) || !has(&x) { continue; }
        c.case(&nm("join and meet of two values"), || format!("{a:?} with {b:?}"), || pair(&a, &b));
        c.case(&nm("sums"), || format!("{a:?} with {b:?}"), || sums(&a, &b));
        c.case(&nm("three values"), || format!("{a:?}, {b:?}, {x:?}"), || triple(&a, &b, &x));
        c.case(&nm("three values"), || format!("{b:?}, {x:?}, {a:?}"), || triple(&b, &x, &a));
        c.case(&nm("concrete"), || format!("{a:?} at {ty}"), || concrete(&a, &ty, ty == type_of(&a)));
    }
}
fn main() {
    let mut c = Ctx::from_env("D01");
    run::<Flat>(&mut c);
    run::<Bits>(&mut c);
    c.finish();
}
