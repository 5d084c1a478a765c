//! M01 - contracts of the model's symbol, variable and link tables over operation histories,
//! against association-list models.
use hugr_model::v0::scope::{LinkTable, SymbolTable, VarTable};
use hugr_model::v0::table::{NodeId, RegionId, VarId};
use hx::{Ctx, Rng, ensure};

const NAMES: [&str; 7] = ["a", "b", "c", "d", "e", "f", "g"];

fn sym_history(rng: &mut Rng, len: usize, names: usize, log: &mut Vec<String>) -> Result<(), String> {
    let mut t = SymbolTable::new();
    let mut m: Vec<(u32, Vec<(&'static str, u32)>)> = vec![];
    let (mut nr, mut nn) = (0u32, 0u32);
    let mut old_nodes: Vec<u32> = vec![]; let mut old_regions: Vec<u32> = vec![];
    for _ in 0..len {
        match rng.below(10) {
            0 | 1 => {
                let r = if !old_regions.is_empty() && rng.bool() { old_regions.swap_remove(rng.below(old_regions.len())) } else { nr += 1; nr - 1 };
                log.push(format!("enter({r})")); t.enter(RegionId::new(r as usize)); m.push((r, vec![]));
            }
            2 if !m.is_empty() => {
                log.push("exit".into()); t.exit();
                let (r, b) = m.pop().unwrap(); old_regions.push(r); old_nodes.extend(b.iter().map(|x| x.1));
            }
            3 if rng.below(30) == 0 => { log.push("clear".into()); t.clear(); for (r, b) in m.drain(..) { old_regions.push(r); old_nodes.extend(b.iter().map(|x| x.1)); } }
            _ if !m.is_empty() => {
                let n = NAMES[rng.below(names)];
                let node = if !old_nodes.is_empty() && rng.bool() { old_nodes.swap_remove(rng.below(old_nodes.len())) } else { nn += 1; nn - 1 };
                log.push(format!("insert({n},{node})"));
                let top = &mut m.last_mut().unwrap().1;
                let dup = top.iter().find(|x| x.0 == n).map(|x| x.1);
                match (t.insert(n, NodeId::new(node as usize)), dup) {
                    (Ok(()), None) => top.push((n, node)),
                    (Err(e), Some(d)) => { ensure!(e.0 == n && e.1 == NodeId::new(node as usize) && e.2 == NodeId::new(d as usize), "wrong duplicate error {e:?}"); old_nodes.push(node); }
                    (Ok(()), Some(_)) => return Err("duplicate accepted".into()),
                    (Err(e), None) => return Err(format!("refused: {e:?}")),
                }
            }
            _ => {}
        }
        let res = |n: &str| m.iter().rev().find_map(|(_, b)| b.iter().rev().find(|x| x.0 == n).map(|x| x.1));
        for n in &NAMES[..names] {
            let got = t.resolve(n).ok().map(|x| x.index() as u32);
            ensure!(got == res(n), "{n} resolves to {got:?} instead of {:?}", res(n));
        }
        for node in 0..nn {
            let bound = m.iter().flat_map(|(_, b)| b).find(|x| x.1 == node).map(|x| x.0);
            let vis = bound.is_some_and(|n| res(n) == Some(node));
            ensure!(t.is_visible(NodeId::new(node as usize)) == vis, "node {node} reported visible: {}, its name resolves to it: {vis}", !vis);
        }
        for r in 0..nr {
            let d = m.iter().position(|x| x.0 == r);
            ensure!(t.region_to_depth(RegionId::new(r as usize)).map(|x| x as usize) == d, "depth of region {r}");
        }
        for d in 0..m.len() + 2 { ensure!(t.depth_to_region(d as u16).map(|x| x.index() as u32) == m.get(d).map(|x| x.0), "region at depth {d}"); }
    }
    Ok(())
}
fn var_history(rng: &mut Rng, len: usize, log: &mut Vec<String>) -> Result<(), String> {
    let mut t = VarTable::new();
    let mut m: Vec<(u32, Vec<&'static str>)> = vec![];
    let mut nn = 0u32; let mut old = vec![];
    for _ in 0..len {
        match rng.below(8) {
            0 | 1 => { let n = if !old.is_empty() && rng.bool() { old.swap_remove(rng.below(old.len())) } else { nn += 1; nn - 1 }; log.push(format!("enter({n})")); t.enter(NodeId::new(n as usize)); m.push((n, vec![])); }
            2 if !m.is_empty() => { log.push("exit".into()); t.exit(); old.push(m.pop().unwrap().0); }
            3 if rng.below(30) == 0 => { log.push("clear".into()); t.clear(); old.extend(m.drain(..).map(|x| x.0)); }
            _ if !m.is_empty() => {
                let v = NAMES[rng.below(7)]; log.push(format!("insert({v})"));
                let (node, vs) = m.last_mut().unwrap();
                match (t.insert(v), vs.contains(&v)) {
                    (Ok(id), false) => { ensure!(id == VarId(NodeId::new(*node as usize), vs.len() as u16), "inserted as {id:?}"); vs.push(v); }
                    (Err(_), true) => {}
                    (r, d) => return Err(format!("insert gives {r:?}, duplicate: {d}")),
                }
            }
            _ => {}
        }
        for v in NAMES {
            let want = m.last().and_then(|(n, vs)| vs.iter().position(|x| *x == v).map(|i| VarId(NodeId::new(*n as usize), i as u16)));
            let got = t.resolve(v).ok();
            ensure!(got == want, "{v} resolves to {got:?} instead of {want:?}");
        }
        for n in 0..nn { for i in 0..8u16 {
            let want = m.last().is_some_and(|(x, vs)| *x == n && (i as usize) < vs.len());
            ensure!(t.is_visible(VarId(NodeId::new(n as usize), i)) == want, "variable {i} of node {n} visible: {}", !want);
        } }
    }
    Ok(())
}
fn link_history(rng: &mut Rng, len: usize, log: &mut Vec<String>) -> Result<(), String> {
    let mut t: LinkTable<u8> = LinkTable::new();
    let mut m: Vec<(u32, Vec<u8>, u32)> = vec![];
    let mut nr = 0u32; let mut old = vec![];
    for _ in 0..len {
        match rng.below(9) {
            0 | 1 => { let n = if !old.is_empty() && rng.bool() { old.swap_remove(rng.below(old.len())) } else { nr += 1; nr - 1 }; log.push(format!("enter({n})")); t.enter(RegionId::new(n as usize)); m.push((n, vec![], 0)); }
            2 if !m.is_empty() => { log.push("exit".into()); let (r, ks, p) = m.pop().unwrap(); old.push(r); let got = t.exit(); ensure!(got == (ks.len() as u32, p), "region {r} closed with counts {got:?} instead of {:?}", (ks.len(), p)); }
            3 if rng.below(40) == 0 => { log.push("clear".into()); t.clear(); old.extend(m.drain(..).map(|x| x.0)); }
            _ if !m.is_empty() => {
                let k = rng.below(6) as u8; log.push(format!("use({k})"));
                let (_, ks, p) = m.last_mut().unwrap();
                let want = ks.iter().position(|x| *x == k).unwrap_or_else(|| { ks.push(k); ks.len() - 1 }); *p += 1;
                let got = t.use_link(k).index();
                ensure!(got == want, "link {k} has index {got} instead of {want}");
            }
            _ => {}
        }
    }
    Ok(())
}
fn main() {
    let mut c = Ctx::from_env("M01");
    for k in 0..c.n(4000, 200000) {
        let mut rng = Rng(c.rng.next());
        let len = 3 + rng.below(if k % 10 == 0 { 80 } else { 22 }); let names = 1 + rng.below(7);
        for which in ["symbols", "variables", "links"] {
            let mut log = vec![];
            let mut r2 = rng.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match which {
                "symbols" => sym_history(&mut r2, len, names, &mut log),
                "variables" => var_history(&mut r2, len, &mut log),
                _ => link_history(&mut r2, len, &mut log) }));
            let r = r.unwrap_or_else(|p| Err(format!("panicked: {:?}", p.downcast_ref::<String>())));
            c.case(which, || log.join(" "), || r);
        }
    }
    c.finish()
}
