//! S03: executable contracts of the JSON form of a graph: what is written is the graph, what is read is what is written there, and what is malformed is refused.
use hugr_core::envelope::EnvelopeConfig;
use hugr_core::extension::ExtensionRegistry;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals};
use hugr_core::ops::OpType;
use hugr_core::std_extensions::arithmetic::float_types::ConstF64;
use hugr_core::{Direction, Hugr, HugrView, Node, PortIndex};
use hx::generators as generate;
use hx::{Ctx, Rng, ensure};
use serde_json::{Value as J, json};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

type Meta = BTreeMap<String, String>;
type End = (usize, usize);
/// a graph, its nodes numbered: parents, operations, metadata, children in order, links between ports
#[derive(Clone, Debug, PartialEq)]
struct G { nodes: Vec<(Option<usize>, OpType, Meta, usize, usize)>, kids: Vec<Vec<usize>>, links: Vec<(End, End)>, entry: usize }
/// numbered by walking the hierarchy, children in order
fn observe(h: &Hugr) -> Result<G, String> {
    let mut order = vec![]; let mut todo = vec![h.module_root()];
    while let Some(n) = todo.pop() { order.push(n); ensure!(order.len() <= h.num_nodes(), "the hierarchy has a cycle"); let mut c: Vec<_> = h.children(n).collect(); c.reverse(); todo.extend(c); }
    ensure!(order.len() == h.num_nodes(), "{} of {} nodes are reached", order.len(), h.num_nodes());
    let at: BTreeMap<Node, usize> = order.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let mut g = G { nodes: vec![], kids: vec![], links: vec![], entry: at[&h.entrypoint()] };
    for n in &order {
        let meta = h.node_metadata_map(*n).iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
        g.nodes.push((h.get_parent(*n).map(|p| at[&p]), h.get_optype(*n).clone(), meta, h.num_inputs(*n), h.num_outputs(*n)));
        g.kids.push(h.children(*n).map(|c| at[&c]).collect());
        for p in h.node_outputs(*n) { for (m, q) in h.linked_inputs(*n, p) { g.links.push(((at[n], p.index()), (at[&m], q.index()))); } }
    }
    g.links.sort();
    Ok(g)
}
fn same(want: &G, got: &G) -> Result<(), String> {
    ensure!(want.nodes.len() == got.nodes.len(), "{} nodes, expected {}", got.nodes.len(), want.nodes.len());
    for (i, (w, x)) in want.nodes.iter().zip(&got.nodes).enumerate() {
        ensure!(w.1 == x.1, "node {i} is {:?}, expected {:?}", x.1, w.1);
        ensure!(w.0 == x.0 && want.kids[i] == got.kids[i], "node {i} ({}) has parent {:?}, children {:?}, expected {:?}, {:?}", w.1, x.0, got.kids[i], w.0, want.kids[i]);
        ensure!(w.2 == x.2, "node {i} ({}) has metadata {:?}, expected {:?}", w.1, x.2, w.2);
        ensure!((w.3, w.4) == (x.3, x.4), "node {i} ({}) has ports {}/{}, expected {}/{}", w.1, x.3, x.4, w.3, w.4);
    }
    ensure!(want.entry == got.entry, "the entrypoint is {}, expected {}", got.entry, want.entry);
    ensure!(want.links == got.links, "links {:?}, expected {:?}", got.links, want.links);
    Ok(())
}
fn op(r: &mut Rng) -> OpType { loop { let o = generate::op(r); if !matches!(o, OpType::OpaqueOp(_) | OpType::Module(_)) { return o; } } }
/// any tree of nodes in any order of creation, some removed again; any links; any metadata; any entrypoint
fn graph(r: &mut Rng) -> Hugr {
    let mut h = Hugr::new(); let mut ns = vec![h.module_root()];
    for _ in 0..r.below(14) {
        let a = *r.pick(&ns); let o = op(r);
        let n = match r.below(4) { 0 if a != ns[0] => h.add_node_before(a, o), 1 if a != ns[0] => h.add_node_after(a, o), _ => h.add_node_with_parent(a, o) };
        ns.push(n);
        if r.below(6) == 0 { let x = *r.pick(&ns); if x != ns[0] { h.remove_subtree(x); ns.retain(|n| h.contains_node(*n)); } }
    }
    for _ in 0..r.below(5) { if ns.len() > 2 { let x = ns[1 + r.below(ns.len() - 1)]; let p = *r.pick(&ns); let mut q = Some(p); while q.is_some() && q != Some(x) { q = h.get_parent(q.unwrap()); } if q.is_none() { h.set_parent(x, p); } } }
    for _ in 0..r.below(16) {
        let (a, b) = (*r.pick(&ns), *r.pick(&ns)); let (o, i) = (h.num_outputs(a), h.num_inputs(b));
        if o > 0 && i > 0 { h.connect(a, r.below(o), b, r.below(i)); }
    }
    for n in &ns { for _ in 0..r.below(3) { let k = format!("k{}", r.below(3)); let v = match r.below(4) { 0 => J::Null, 1 => json!(r.below(9)), 2 => json!({"a": [1, "b\u{e9}"]}), _ => json!("x") }; h.set_metadata(*n, k, v); } }
    if r.bool() { let n = *r.pick(&ns); h.set_entrypoint(n); }
    h
}
fn reg() -> ExtensionRegistry { ExtensionRegistry::new([hugr_core::extension::PRELUDE.clone(), hugr_core::std_extensions::arithmetic::float_types::EXTENSION.clone(), generate::EXT.clone()]) }
fn write(h: &Hugr) -> Result<String, String> { h.store_str(EnvelopeConfig::text()).map_err(|e| format!("not written: {e}")) }
fn parts(s: &str) -> Result<(String, J), String> { let i = s.find('{').ok_or("no JSON")?; Ok((s[..i].into(), serde_json::from_str(&s[i..]).map_err(|e| e.to_string())?)) }
fn read(s: &str, reg: &ExtensionRegistry) -> Result<Result<Hugr, String>, String> {
    let p = catch_unwind(AssertUnwindSafe(|| Hugr::load_str(s, Some(reg)))).map_err(|e| format!("reading panics: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))?;
    Ok(p.map_err(|e| { let mut t = e.to_string(); let mut s: &dyn std::error::Error = &e; while let Some(n) = s.source() { t += &format!(": {n}"); s = n; } t }))
}
/// the nodes listed, along the hierarchy; None unless they form one tree below the first
fn walk(j: &J) -> Option<Vec<usize>> {
    let nodes = j["nodes"].as_array()?; let n = nodes.len(); let mut kids = vec![vec![]; n];
    for i in 1..n { kids.get_mut(nodes[i]["parent"].as_u64()? as usize)?.push(i); }
    let mut order = vec![]; let mut todo = vec![0]; while let Some(x) = todo.pop() { order.push(x); todo.extend(kids[x].iter().rev()); }
    (order.len() == n).then_some(order)
}
/// what a form says, read independently: operations given, everything else from the JSON; None when it is malformed
fn says(j: &J, ops: &[OpType]) -> Option<G> {
    let nodes = j["nodes"].as_array()?; let n = nodes.len();
    if n == 0 || nodes[0]["parent"] != json!(0) { return None; }
    let idx = |v: &J| -> Option<usize> { let i = v.as_u64()? as usize; (i < n).then_some(i) };
    let par: Vec<usize> = nodes.iter().map(|x| idx(&x["parent"])).collect::<Option<_>>()?;
    let order = walk(j)?;
    let entry = if j["entrypoint"].is_null() { 0 } else { idx(&j["entrypoint"])? };
    let mut meta = vec![Meta::new(); n];
    if let Some(m) = j["metadata"].as_array() { for (i, m) in m.iter().enumerate() { if let Some(m) = m.as_object() { *meta.get_mut(i)? = m.iter().map(|(k, v)| (k.clone(), v.to_string())).collect(); } } }
    let mut links = vec![];
    for e in j["edges"].as_array()? {
        let mut ends = vec![];
        for (k, d) in [(0, Direction::Outgoing), (1, Direction::Incoming)] {
            let i = idx(&e[k][0])?;
            let p = if e[k][1].is_null() { ops[i].other_port(d)?.index() } else { e[k][1].as_u64()? as usize };
            if p >= ops[i].port_count(d) { return None; }
            ends.push((i, p));
        }
        links.push((ends[0], ends[1]));
    }
    // numbered along the hierarchy
    let mut kids = vec![vec![]; n]; for i in 1..n { kids[par[i]].push(i); }
    let mut at = vec![0; n]; for (i, x) in order.iter().enumerate() { at[*x] = i; }
    let mut l: Vec<_> = links.iter().map(|(a, b): &(End, End)| ((at[a.0], a.1), (at[b.0], b.1))).collect(); l.sort();
    let pc = |o: &OpType, d| o.port_count(d);
    Some(G { nodes: order.iter().map(|x| ((*x != 0).then(|| at[par[*x]]), ops[*x].clone(), meta[*x].clone(), pc(&ops[*x], Direction::Incoming), pc(&ops[*x], Direction::Outgoing))).collect(),
             kids: order.iter().map(|x| kids[*x].iter().map(|c| at[*c]).collect()).collect(), links: l, entry: at[entry] })
}
/// the same form with its nodes listed in another order (the root first)
fn shuffle(r: &mut Rng, j: &J, ops: &[OpType]) -> (J, Vec<OpType>) {
    let n = ops.len(); let mut p: Vec<usize> = (0..n).collect(); for i in (2..n).rev() { let k = 1 + r.below(i); p.swap(i, k); }
    let mut at = vec![0; n]; for (i, x) in p.iter().enumerate() { at[*x] = i; }
    let mut out = j.clone();
    let to = |v: &J| json!(at[v.as_u64().unwrap() as usize]);
    out["nodes"] = J::Array(p.iter().map(|x| { let mut y = j["nodes"][*x].clone(); y["parent"] = to(&y["parent"]); y }).collect());
    out["metadata"] = J::Array(p.iter().map(|x| j["metadata"][*x].clone()).collect());
    for e in out["edges"].as_array_mut().unwrap() { for k in 0..2 { e[k][0] = to(&e[k][0]); } }
    out["entrypoint"] = to(&j["entrypoint"]);
    (out, p.iter().map(|x| ops[*x].clone()).collect())
}
fn damage(r: &mut Rng, j: &mut J, ops: &mut Vec<OpType>) -> String {
    let n = ops.len(); let far = |r: &mut Rng| json!([n, n + 1, 2 * n + 7, 1000, 0, n.saturating_sub(1), 0x7fff_ffff, 0x7fff_fffe, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000][r.below(11)]);
    let ne = j["edges"].as_array().unwrap().len();
    match r.below(12) {
        0 => { j["nodes"] = json!([]); ops.clear(); "no nodes".into() }
        1 => { j["nodes"][0]["parent"] = far(r); "parent of the root".into() }
        2 | 3 => { let i = r.below(n); j["nodes"][i]["parent"] = if r.bool() { json!(r.below(n)) } else { far(r) }; format!("parent of {i}") }
        4 => { j["entrypoint"] = if r.bool() { J::Null } else { far(r) }; "entrypoint".into() }
        5 => { let m = j["metadata"].as_array_mut().unwrap(); for _ in 0..1 + r.below(2) { m.push(if r.bool() { J::Null } else { json!({"a": 1}) }); } "longer metadata".into() }
        6 => { let m = j["metadata"].as_array_mut().unwrap(); m.truncate(r.below(n + 1)); "shorter metadata".into() }
        7 | 8 if ne > 0 => { let (e, k) = (r.below(ne), r.below(2)); j["edges"][e][k][0] = if r.bool() { far(r) } else { json!(r.below(n)) }; format!("node of edge {e}") }
        9 | 10 if ne > 0 => { let (e, k) = (r.below(ne), r.below(2)); j["edges"][e][k][1] = match r.below(3) { 0 => J::Null, 1 => json!(r.below(6)), _ => json!([7, 100, 70000, u32::MAX][r.below(4)]) }; format!("offset of edge {e}") }
        _ => { let (a, b) = (r.below(n), r.below(n)); j["edges"].as_array_mut().unwrap().push(json!([[a, r.below(3)], [b, if r.bool() { J::Null } else { json!(r.below(3)) }]])); "one more edge".into() }
    }
}
fn case(r: &mut Rng, reg: &ExtensionRegistry) -> Result<(), String> {
    let h = graph(r); let want = observe(&h)?;
    let s = write(&h)?;
    let got = read(&s, reg)?.map_err(|e| format!("the form of a graph is refused: {e}"))?;
    same(&want, &observe(&got)?).map_err(|e| format!("written and read back: {e}"))?;
    ensure!(observe(&h)? == want, "writing changed the graph");
    ensure!(write(&got)? == s || observe(&got)? == want, "written again");
    let (head, pkg) = parts(&s)?; let j = pkg["modules"][0].clone();
    let order = walk(&j).ok_or_else(|| format!("the hierarchy written is not a tree: {j}"))?;
    ensure!(order.len() == want.nodes.len(), "{} nodes are written, there are {}", order.len(), want.nodes.len());
    let mut ops = vec![OpType::default(); order.len()]; for (i, x) in order.iter().enumerate() { ops[*x] = want.nodes[i].1.clone(); }
    // what is written says what the graph is
    same(&want, &says(&j, &ops).ok_or_else(|| format!("what is written is malformed: {j}"))?).map_err(|e| format!("what is written: {e}"))?;
    for _ in 0..4 {
        let (mut j, mut ops) = if r.bool() { shuffle(r, &j, &ops) } else { (j.clone(), ops.clone()) };
        let mut what = vec![]; for _ in 0..r.below(3) { if !ops.is_empty() { what.push(damage(r, &mut j, &mut ops)); } }
        let mut p = pkg.clone(); p["modules"][0] = j.clone();
        let t = format!("{head}{p}");
        let got = read(&t, reg).map_err(|e| format!("{e} (changed: {what:?}) {j}"))?;
        match (says(&j, &ops), got) {
            (Some(w), Ok(g)) => same(&w, &observe(&g)?).map_err(|e| format!("{e} (changed: {what:?}) {j}"))?,
            (Some(_), Err(e)) => return Err(format!("a proper form is refused: {e} (changed: {what:?}) {j}")),
            (None, Ok(_)) => return Err(format!("a malformed form is accepted (changed: {what:?}) {j}")),
            (None, Err(_)) => {}
        }
    }
    Ok(())
}
/// a form whose first node is not a module: its nodes come below the usual padding
fn rooted(r: &mut Rng, reg: &ExtensionRegistry) -> Result<(), String> {
    let o = op(r); let kid = op(r);
    let mut h = Hugr::new(); let n = h.add_node_with_parent(h.module_root(), o.clone()); let c = h.add_node_with_parent(n, kid.clone()); h.set_metadata(c, "k", 1);
    let (head, mut pkg) = parts(&write(&h)?)?; let j = pkg["modules"][0].clone();
    let (mut a, mut b) = (j["nodes"][1].clone(), j["nodes"][2].clone()); a["parent"] = json!(0); b["parent"] = json!(0);
    pkg["modules"][0] = json!({"version": "live", "nodes": [a, b], "edges": [], "metadata": [null, {"k": 1}], "entrypoint": if r.bool() { J::Null } else { json!(1) }});
    let inner = !pkg["modules"][0]["entrypoint"].is_null();
    let got = read(&format!("{head}{pkg}"), reg)?;
    match (Hugr::new_with_entrypoint(o.clone()), got) {
        (Ok(mut w), Ok(g)) => { let n = w.entrypoint(); let c = w.add_node_with_parent(n, kid); w.set_metadata(c, "k", 1); if inner { w.set_entrypoint(c); } same(&observe(&w)?, &observe(&g)?).map_err(|e| format!("form rooted at {o}: {e}")) }
        (Err(_), Err(_)) => Ok(()),
        (w, g) => Err(format!("form rooted at {o}: new_with_entrypoint {}, loading {}", if w.is_ok() { "works" } else { "fails" }, if g.is_ok() { "works" } else { "fails" })),
    }
}
/// graphs with floats: in a type argument, a constant and the metadata; two kinds of failure are known findings
const NONFINITE: &str = "json#non-finite-float"; const ROUNDED: &str = "json#float-last-digit";
fn float_graph(x: f64) -> Hugr {
    use hugr_core::ops::{Call, Const, Value}; use hugr_core::types::{PolyFuncType, Signature, Term, TypeRow};
    let mut h = Hugr::new(); let m = h.module_root();
    let c = Call::try_new(PolyFuncType::new([Term::FloatType], Signature::new_endo(TypeRow::new())), [Term::Float(x.into())]).unwrap();
    let n = h.add_node_with_parent(m, c);
    if x.is_finite() { h.add_node_with_parent(m, Const::new(Value::extension(ConstF64::new(x)))); h.set_metadata(n, "x", x); }
    h
}
fn float_of(h: &Hugr) -> Option<(f64, Option<f64>, Option<f64>)> {
    let k: Vec<_> = h.children(h.module_root()).collect();
    let x = match h.get_optype(*k.first()?) { OpType::Call(c) => match c.type_args.as_slice() { [hugr_core::types::Term::Float(x)] => x.0, _ => return None }, _ => return None };
    let c = match k.get(1).map(|k| h.get_optype(*k)) { Some(OpType::Const(c)) => c.get_custom_value::<ConstF64>().map(ConstF64::value), _ => None };
    Some((x, c, h.get_metadata(k[0], "x").and_then(|v| v.as_f64())))
}
fn float(r: &mut Rng, reg: &ExtensionRegistry) -> Result<(), String> {
    let x = match r.below(8) { 0 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), 1 => *r.pick(&[0.0, -0.0, 1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 0.1]), 2 => r.below(1 << 20) as f64 / 64.0, 3 => -(r.next() as f64), _ => f64::from_bits(r.next()) };
    let h = float_graph(x); let s = write(&h)?;
    let g = match read(&s, reg)? { Ok(g) => g, Err(e) if !x.is_finite() => return Err(format!("{NONFINITE} {x} is not read: {e}")), Err(e) => return Err(format!("the graph with {x:e} is not read: {e}")) };
    let (a, b, c) = float_of(&g).ok_or(format!("the graph with {x:e} is read as another"))?;
    ensure!(b.is_some() == x.is_finite() && c.is_some() == x.is_finite(), "the graph with {x:e} is read without its constant or metadata");
    let near = |y: f64| (x.is_nan() && y.is_nan()) || x.to_bits().abs_diff(y.to_bits()) <= 1;
    for y in [Some(a), b, c].into_iter().flatten() { ensure!(near(y), "{x:e} is read as {y:e}"); }
    for y in [Some(a), b, c].into_iter().flatten() { ensure!(x.is_nan() || x.to_bits() == y.to_bits(), "{ROUNDED} {x:e} is read as {y:e}"); }
    let first = |h: &Hugr| h.get_optype(h.children(h.module_root()).next().unwrap()).clone();
    ensure!(first(&h) == first(&g) && g.num_nodes() == h.num_nodes(), "the graph with {x:e} is read as another");
    Ok(())
}
fn main() {
    let mut cx = Ctx::from_env("S03"); let reg = reg();
    for (obl, f, q, t) in [("json form", case as fn(&mut Rng, &ExtensionRegistry) -> Result<(), String>, 1500, 20000), ("other root", rooted, 300, 3000), ("floats", float, 400, 20000)] {
        if !cx.want(obl) && !(obl == "floats" && (cx.want(NONFINITE) || cx.want(ROUNDED))) { continue; }
        for i in 0..cx.n(q, t) {
            let mut r = cx.rng.clone(); cx.rng.next();
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut r, &reg)));
            let res = match res { Ok(x) => x, Err(p) => Err(format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
            let name = match &res { Err(e) if e.starts_with(NONFINITE) => NONFINITE, Err(e) if e.starts_with(ROUNDED) => ROUNDED, _ => obl };
            cx.case(name, || format!("case {i}"), || res);
        }
    }
    cx.finish()
}
