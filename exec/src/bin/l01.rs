//! L01: executable contracts of the layout of sums, on the functions cut from hugr-llvm (see p_l01.py `prepare`).
#![allow(unused_imports, dead_code)]
use hx::{Ctx, ensure};
mod cut {
    include!(concat!(env!("HX_GEN"), "/l01.rs"));
    pub fn layout(v: &[Vec<i32>], e: impl Fn(&i32) -> bool) -> (Vec<i32>, Vec<Vec<Option<usize>>>) { layout_variants_impl(v.to_vec(), e) }
    pub fn ranges(v: &[Vec<i32>], e: impl Fn(&i32) -> bool) -> (Vec<i32>, Vec<(i32, std::ops::Range<usize>)>) {
        let (f, m) = layout_fields(v, e);
        (f, m.into_iter().collect())
    }
    pub fn tag_width(n: usize) -> u32 { tag_width_for_num_variants(n) }
}
fn elided(t: &i32) -> bool { *t % 4 == 0 }
fn count(v: &[i32], t: i32) -> usize { v.iter().filter(|x| **x == t).count() }
fn check(vs: &[Vec<i32>]) -> Result<(), String> {
    let (fields, layout) = cut::layout(vs, elided);
    ensure!(layout.len() == vs.len(), "{} layouts for {} variants", layout.len(), vs.len());
    for (v, l) in vs.iter().zip(&layout) {
        ensure!(l.len() == v.len(), "{} slots for {} fields", l.len(), v.len());
        let mut seen = std::collections::HashSet::new();
        for (t, s) in v.iter().zip(l) {
            ensure!(s.is_none() == elided(t), "field {t} has slot {s:?}");
            if let Some(s) = s {
                ensure!(fields.get(*s) == Some(t), "field of type {t} in slot {s} of {fields:?}");
                ensure!(seen.insert(*s), "two fields share slot {s}");
            }
        }
    }
    for t in vs.iter().flatten().chain(&fields) {
        let most = if elided(t) { 0 } else { vs.iter().map(|v| count(v, *t)).max().unwrap_or(0) };
        ensure!(count(&fields, *t) == most, "{} slots of type {t}, {most} needed", count(&fields, *t));
    }
    Ok(())
}
fn ranges(vs: &[Vec<i32>]) -> Result<(), String> {
    let (fields, m) = cut::ranges(vs, elided);
    for (t, r) in &m {
        ensure!(r.clone().all(|i| fields.get(i) == Some(t)), "range {r:?} of type {t} in {fields:?}");
        ensure!(r.len() == count(&fields, *t), "range {r:?} does not cover type {t} in {fields:?}");
    }
    ensure!(fields.iter().all(|t| m.iter().any(|(x, _)| x == t)), "a field without a range");
    Ok(())
}
fn main() {
    let mut c = Ctx::from_env("L01");
    let mut go = |c: &mut Ctx, vs: Vec<Vec<i32>>| {
        c.case("layout_variants_impl", || format!("{vs:?}"), || check(&vs));
        c.case("layout_fields", || format!("{vs:?}"), || ranges(&vs));
    };
    // every list of at most 2 variants of at most 3 fields over 3 types, one of them elided
    let mut rows: Vec<Vec<i32>> = vec![vec![]];
    for n in 1..=3usize { for i in 0..3usize.pow(n as u32) { rows.push((0..n).map(|k| (i / 3usize.pow(k as u32) % 3) as i32).collect()); } }
    go(&mut c, vec![]);
    for a in &rows { go(&mut c, vec![a.clone()]); for b in &rows { go(&mut c, vec![a.clone(), b.clone()]); } }
    for _ in 0..c.n(3000, 60000) {
        let mut r = c.rng.clone();
        let kinds = 1 + r.below(9);
        let vs: Vec<Vec<i32>> = (0..r.below(7)).map(|_| (0..r.below(9)).map(|_| r.below(kinds) as i32 - 3).collect()).collect();
        c.rng = r;
        go(&mut c, vs);
    }
    let mut ns: Vec<usize> = (1..2000).collect();
    for b in 11..64 { for d in [-1i64, 0, 1] { ns.push((1u64 << b).wrapping_add(d as u64) as usize); } }
    ns.push(usize::MAX);
    for n in ns {
        c.case("tag_width_for_num_variants", || format!("{n} variants"), || {
            let w = cut::tag_width(n);
            ensure!(w >= 1 && w <= 64 && (n - 1) as u128 >> w == 0, "width {w} does not hold the tags");
            ensure!(n <= 2 || (n - 1) as u128 >> (w - 1) != 0, "width {w} is more than needed");
            Ok(())
        });
    }
    c.finish();
}
