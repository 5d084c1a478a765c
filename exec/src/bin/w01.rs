//! W01: executable contracts of the rewrites in hugr_core::hugr::patch: a valid graph stays valid, and is changed as the rewrite says.
use hugr_core::extension::prelude::Noop;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::patch::PatchHugrMut;
use hugr_core::hugr::patch::PatchVerification;
use hugr_core::hugr::patch::consts::{RemoveConst, RemoveLoadConstant};
use hugr_core::hugr::patch::inline_call::InlineCall;
use hugr_core::hugr::patch::inline_dfg::InlineDFG;
use hugr_core::hugr::patch::insert_cut::InsertCut;
use hugr_core::hugr::patch::insert_identity::IdentityInsertion;
use hugr_core::hugr::patch::outline_cfg::OutlineCfg;
use hugr_core::hugr::patch::peel_loop::PeelTailLoop;
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::hugr::views::SiblingSubgraph;
use hugr_core::extension::prelude::usize_t;
use hugr_core::hugr::patch::simple_replace::SimpleReplacement;
use hugr_core::types::{EdgeKind, Type};
use hugr_core::hugr::patch::replace::{NewEdgeKind, NewEdgeSpec, Replacement};
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::{Direction, Hugr, HugrView, IncomingPort, Node, Port, PortIndex};
use hx::{Ctx, Rng, ensure, flow};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};

type Link = (Node, usize, Node, usize);
#[derive(Clone, Debug, PartialEq)]
struct N { op: OpType, parent: Option<Node>, kids: Vec<Node> }
#[derive(Clone, Debug, PartialEq)]
struct G { nodes: BTreeMap<Node, N>, links: BTreeSet<Link>, entry: Node }
fn look<H: HugrView<Node = Node>>(h: &H) -> G {
    let mut g = G { nodes: BTreeMap::new(), links: BTreeSet::new(), entry: h.entrypoint() };
    for n in h.nodes() {
        g.nodes.insert(n, N { op: h.get_optype(n).clone(), parent: h.get_parent(n), kids: h.children(n).collect() });
        for p in h.node_outputs(n) { for (m, q) in h.linked_inputs(n, p) { g.links.insert((n, p.index(), m, q.index())); } }
    }
    g
}
impl G {
    fn op(&self, n: Node) -> &OpType { &self.nodes[&n].op }
    fn kind(&self, l: &Link) -> Option<EdgeKind> { self.op(l.0).port_kind(Port::new(Direction::Outgoing, l.1)) }
    fn order(&self, l: &Link) -> bool { self.kind(l) == Some(EdgeKind::StateOrder) }
    fn detach(&mut self, n: Node) { if let Some(p) = self.nodes[&n].parent { self.nodes.get_mut(&p).unwrap().kids.retain(|c| *c != n); } }
    fn remove(&mut self, n: Node) { self.detach(n); for k in self.nodes[&n].kids.clone() { self.nodes.get_mut(&k).unwrap().parent = None; } self.nodes.remove(&n); self.links.retain(|l| l.0 != n && l.2 != n); }
    fn add(&mut self, n: Node, op: impl Into<OpType>, p: Node) { self.nodes.insert(n, N { op: op.into(), parent: Some(p), kids: vec![] }); self.nodes.get_mut(&p).unwrap().kids.push(n); }
    fn source(&self, n: Node, p: usize) -> Option<(Node, usize)> { let v: Vec<_> = self.links.iter().filter(|l| l.2 == n && l.3 == p).collect(); if v.len() == 1 { Some((v[0].0, v[0].1)) } else { None } }
    fn within(&self, mut n: Node, a: Node) -> bool { loop { if n == a { return true; } match self.nodes[&n].parent { Some(p) => n = p, None => return false } } }
    /// the node of the region of `p` which is `n` or contains it
    fn child_above(&self, mut n: Node, p: Node) -> Option<Node> { loop { let q = self.nodes[&n].parent?; if q == p { return Some(n); } n = q; } }
}
fn same(want: &G, got: &G) -> Result<(), String> {
    ensure!(want.entry == got.entry, "the entrypoint is {}, expected {}", got.entry, want.entry);
    for (n, w) in &want.nodes { let Some(x) = got.nodes.get(n) else { return Err(format!("{n} ({}) is gone", w.op)) }; ensure!(x == w, "{n} is {} in {:?} with children {:?}, expected {} in {:?} with {:?}", x.op, x.parent, x.kids, w.op, w.parent, w.kids); }
    for (n, x) in &got.nodes { ensure!(want.nodes.contains_key(n), "unexpected node {n} ({})", x.op); }
    for l in want.links.difference(&got.links) { return Err(format!("the link {l:?} ({} to {}) is missing", want.op(l.0), want.op(l.2))); }
    for l in got.links.difference(&want.links) { return Err(format!("the link {l:?} ({} to {}) is unexpected", got.op(l.0), got.op(l.2))); }
    Ok(())
}
fn valid(h: &Hugr) -> Result<(), String> { match catch_unwind(AssertUnwindSafe(|| h.validate())) { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("leaves an invalid graph: {e}")), Err(_) => Err("validate panics on the result".into()) } }
/// apply a rewrite to a copy; Ok(None): refused and unchanged
fn apply<P: PatchHugrMut<Node = Node>>(h: &Hugr, before: &G, p: P) -> Result<Option<(Hugr, G, P::Outcome)>, String> where P::Error: std::fmt::Debug {
    let mut x = h.clone();
    // verify says what apply will do, and which nodes it has to do with
    let said = catch_unwind(AssertUnwindSafe(|| p.verify(h))).map_err(|_| "verify panics")?;
    let named: BTreeSet<Node> = if said.is_ok() { p.invalidated_nodes(h).collect() } else { BTreeSet::new() };
    let said = said.err().map(|e| format!("{e:?}"));
    match catch_unwind(AssertUnwindSafe(|| { let r = p.apply_hugr_mut(&mut x); (x, r) })) {
        Err(_) => Err("panics".into()),
        Ok((x, Ok(o))) => {
            if let Some(e) = said { return Err(format!("is applied though verify refuses it: {e}")); }
            valid(&x)?;
            let g = look(&x);
            for (n, v) in &before.nodes { if g.nodes.get(n).map(|w| &w.op) != Some(&v.op) { ensure!(named.iter().any(|a| before.within(*n, *a)), "removes or alters {n}, a {}, which is not below any of its invalidated nodes {named:?}", v.op); } }
            Ok(Some((x, g, o)))
        }
        Ok((x, Err(e))) => {
            let e = format!("{e:?}"); let kind = |s: &str| s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
            // (blocks are a set: any of several errors may be found first)
            ensure!(said.as_ref().is_some_and(|s| kind(s) == kind(&e) || std::any::type_name::<P>().contains("OutlineCfg")), "fails with {e}, verify gives {said:?}");
            if P::UNCHANGED_ON_FAILURE { same(before, &look(&x)).map_err(|d| format!("changes the graph though it fails ({e}): {d}"))?; } Ok(None) }
    }
}
fn consts(h: &Hugr, g: &G, n: Node) -> Result<(), String> {
    let used = g.links.iter().any(|l| l.0 == n && !g.order(l));
    let want = matches!(g.op(n), OpType::LoadConstant(_)) && !used;
    let got = apply(h, g, RemoveLoadConstant(n)).map_err(|e| format!("RemoveLoadConstant({n}) {e}"))?;
    ensure!(got.is_some() == want, "RemoveLoadConstant({n}), a {} with uses {used}: applied is {}", g.op(n), got.is_some());
    if let Some((_, x, c)) = got { let mut w = g.clone(); ensure!(g.source(n, 0).map(|s| s.0) == Some(c), "RemoveLoadConstant({n}) reports the constant {c}"); w.remove(n); same(&w, &x).map_err(|e| format!("RemoveLoadConstant({n}): {e}"))?; }
    let want = matches!(g.op(n), OpType::Const(_)) && !g.links.iter().any(|l| l.0 == n);
    let got = apply(h, g, RemoveConst(n)).map_err(|e| format!("RemoveConst({n}) {e}"))?;
    ensure!(got.is_some() == want, "RemoveConst({n}), a {}: applied is {}", g.op(n), got.is_some());
    if let Some((_, x, p)) = got { let mut w = g.clone(); ensure!(g.nodes[&n].parent == Some(p), "RemoveConst({n}) reports the parent {p}"); w.remove(n); same(&w, &x).map_err(|e| format!("RemoveConst({n}): {e}"))?; }
    Ok(())
}
fn identity(h: &Hugr, g: &G, n: Node, p: usize) -> Result<(), String> {
    let what = format!("IdentityInsertion({n}, {p}) before a {}", g.op(n));
    let parent = g.nodes[&n].parent;
    let kind = g.op(n).port_kind(Port::new(Direction::Incoming, p));
    let dataflow = parent.is_some_and(|q| OpTag::DataflowParent.is_superset(g.op(q).tag()));
    let want = match (&kind, dataflow) { (Some(EdgeKind::Value(t)), true) => Some(t.clone()), _ => None };
    let r = apply(h, g, IdentityInsertion::new(n, IncomingPort::from(p))).map_err(|e| format!("{what} {e}"))?;
    ensure!(r.is_some() == want.is_some(), "{what}: applied is {}", r.is_some());
    let mut w = g.clone();
    if let (Some((_, x, i)), Some(t)) = (r, want) {
        ensure!(!g.nodes.contains_key(&i), "{what}: the new node {i} is an old one");
        let (s, q) = g.source(n, p).ok_or("not a valid graph")?;
        w.links.remove(&(s, q, n, p)); w.add(i, Noop::new(t), parent.unwrap()); w.links.insert((s, q, i, 0)); w.links.insert((i, 0, n, p));
        // a nonlocal wire needs its order edge still; it is kept as the enclosing nodes stay
        same(&w, &x).map_err(|e| format!("{what}: {e}"))?;
    }
    Ok(())
}
/// in a module there is no place for an identity: nothing happens
fn no_identity() -> Result<(), String> {
    let mut h = Hugr::new(); let m = h.module_root();
    let t = usize_t(); let (a, b) = (h.add_node_with_parent(m, Noop::new(t.clone())), h.add_node_with_parent(m, Noop::new(t)));
    h.connect(a, 0, b, 0); let g = look(&h);
    let e = catch_unwind(AssertUnwindSafe(|| IdentityInsertion::new(b, IncomingPort::from(0)).apply_hugr_mut(&mut h))).map_err(|_| "panics".to_string())?;
    ensure!(e.is_err(), "an identity in a module is accepted");
    same(&g, &look(&h)).map_err(|d| format!("IdentityInsertion fails and changes the graph: {d}"))
}
fn inline_dfg(h: &Hugr, g: &G, n: Node) -> Result<(), String> {
    let what = format!("InlineDFG({n}), a {}", g.op(n));
    let want = matches!(g.op(n), OpType::DFG(_)) && n != g.entry;
    let got = apply(h, g, InlineDFG(n.into())).map_err(|e| format!("{what} {e}"))?;
    ensure!(got.is_some() == want, "{what}: applied is {}", got.is_some());
    let Some((_, x, removed)) = got else { return Ok(()) };
    let p = g.nodes[&n].parent.unwrap();
    let kids = g.nodes[&n].kids.clone(); let (i, o) = (kids[0], kids[1]);
    ensure!(removed == [n, i, o], "{what} reports the nodes {removed:?}");
    inlined(g, &x, n, i, o, p).map_err(|e| format!("{what}: {e}"))
}
/// the graph `x` is `g` with the DFG `n` of `p` inlined
fn inlined(g: &G, x: &G, n: Node, i: Node, o: Node, p: Node) -> Result<(), String> {
    // the nodes
    let mut w = g.clone();
    for c in g.nodes[&n].kids.iter().skip(2) { w.detach(*c); w.nodes.get_mut(c).unwrap().parent = Some(p); w.nodes.get_mut(&p).unwrap().kids.push(*c); }
    for q in [i, o, n] { w.remove(q); }
    w.links = BTreeSet::new();
    let value = |l: &Link| !g.order(l);
    // wires: through n and its Input and Output
    let end = |mut s: (Node, usize)| -> (Node, usize) { loop { s = if s.0 == i { g.source(n, s.1).unwrap() } else if s.0 == n { g.source(o, s.1).unwrap() } else { return s; } } };
    for l in g.links.iter().filter(|l| value(l) && ![n, o].contains(&l.2)) { let s = end((l.0, l.1)); w.links.insert((s.0, s.1, l.2, l.3)); }
    // order: what is between other nodes is kept
    let order_in = |m: Node| g.op(m).other_input_port().map(|q| q.index()); let order_out = |m: Node| g.op(m).other_output_port().map(|q| q.index());
    let inner = |m: &Node| ![n, i, o].contains(m);
    let mut lower: BTreeSet<Link> = g.links.iter().filter(|l| g.order(l) && inner(&l.0) && inner(&l.2)).cloned().collect();
    let (mut before, mut after, mut first, mut last): (Vec<Node>, Vec<Node>, Vec<Node>, Vec<Node>) = (vec![], vec![], vec![], vec![]);
    for l in g.links.iter().filter(|l| g.order(l)) { if l.2 == n { before.push(l.0); } if l.0 == n { after.push(l.2); } if l.0 == i { first.push(l.2); } if l.2 == o { last.push(l.0); } }
    let seq = |a: &Node, b: &Node| (*a, order_out(*a).unwrap(), *b, order_in(*b).unwrap());
    for a in &before { for c in first.iter().filter(|c| **c != o) { lower.insert(seq(a, c)); } }
    for b in &after { for c in last.iter().filter(|c| **c != i) { lower.insert(seq(c, b)); } }
    let got: BTreeSet<Link> = x.links.iter().filter(|l| x.order(l)).cloned().collect();
    for l in lower.difference(&got) { return Err(format!("the order edge {l:?} ({} to {}) is missing", g.op(l.0), g.op(l.2))); }
    for l in got.difference(&lower) {
        ensure!(x.nodes[&l.0].parent == Some(p) && x.nodes[&l.2].parent == Some(p), "the new order edge {l:?} is not between nodes of the region");
        // what it says held before: the source came before the DFG or within it, the target within it or after it
        let inn = |m: Node| g.nodes[&m].parent == Some(n);
        ensure!(inn(l.0) || inn(l.2) || reaches(g, l.0, l.2, p), "the new order edge {l:?} has nothing to do with the DFG");
    }
    w.links.extend(got);
    same(&w, x)
}
/// is there a way from `a` to `b` along the edges of the region of `p` (edges of nested nodes counted as theirs)
fn reaches(g: &G, a: Node, b: Node, p: Node) -> bool {
    let mut seen = BTreeSet::new(); let mut todo = vec![a];
    while let Some(c) = todo.pop() { if c == b { return true; } if !seen.insert(c) { continue; } for l in &g.links { if g.child_above(l.0, p) == Some(c) { if let Some(d) = g.child_above(l.2, p) { if d != c { todo.push(d); } } } } }
    false
}
/// the contents of `b` in `y` are a copy of the contents of `a` in `x`: the same operations after `subst`, order of children, wires inside and wires from outside
fn copied(x: &G, a: Node, y: &G, b: Node, op: &dyn Fn(&OpType) -> OpType, skip: &dyn Fn(&Link) -> bool) -> Result<BTreeMap<Node, Node>, String> {
    let mut map = BTreeMap::new(); let mut todo = vec![(a, b)];
    while let Some((s, t)) = todo.pop() {
        let (ks, kt) = (&x.nodes[&s].kids, &y.nodes[&t].kids);
        ensure!(ks.len() == kt.len(), "{t} has {} children, the original {s} {}", kt.len(), ks.len());
        for (u, v) in ks.iter().zip(kt) { let w = op(x.op(*u)); ensure!(w == *y.op(*v), "{v} is {}, expected {w} as copied from {u}", y.op(*v)); map.insert(*u, *v); todo.push((*u, *v)); }
    }
    let wires = |g: &G, m: &dyn Fn(Node) -> Option<Node>, out: &dyn Fn(Node) -> Node| -> BTreeSet<Link> { g.links.iter().filter(|l| m(l.2).is_some()).map(|l| (m(l.0).unwrap_or(out(l.0)), l.1, m(l.2).unwrap(), l.3)).collect() };
    let want = wires(x, &|n| map.get(&n).cloned(), &|n| n);
    let back: BTreeSet<Node> = map.values().cloned().collect();
    let got = wires(y, &|n| back.contains(&n).then_some(n), &|n| n);
    for l in want.difference(&got) { ensure!(skip(l), "the link {l:?} of the copy is missing"); }
    for l in got.difference(&want) { return Err(format!("the link {l:?} of the copy is unexpected")); }
    Ok(map)
}
fn inline_call(h: &Hugr, g: &G, n: Node) -> Result<(), String> {
    let what = format!("InlineCall({n}), a {}", g.op(n));
    let f = match g.op(n) { OpType::Call(c) => g.source(n, c.called_function_port().index()), _ => None };
    let want = f.is_some_and(|f| matches!(g.op(f.0), OpType::FuncDefn(_)));
    let got = apply(h, g, InlineCall::new(n)).map_err(|e| format!("{what} {e}"))?;
    ensure!(got.is_some() == want, "{what}: applied is {}", got.is_some());
    let Some((_, x, ())) = got else { return Ok(()) };
    let f = f.unwrap().0; let OpType::Call(call) = g.op(n).clone() else { unreachable!() };
    let args = call.type_args.clone();
    let subst = |op: &OpType| -> OpType { if args.is_empty() { op.clone() } else { op.substitute(&hugr_core::types::Substitution::new(&args)) } };
    (|| -> Result<(), String> {
        let OpType::DFG(d) = x.op(n) else { return Err(format!("it became a {}", x.op(n))) };
        ensure!(d.signature == call.instantiation, "the DFG has the signature {}, the call {}", d.signature, call.instantiation);
        let map = copied(g, f, &x, n, &subst, &|_| false)?;
        // nothing else changes, but for the order port which moves
        let mut w = g.clone();
        let fresh: BTreeSet<Node> = map.values().cloned().collect();
        w.nodes.get_mut(&n).unwrap().op = x.op(n).clone();
        let k = call.called_function_port().index();
        w.links = g.links.iter().filter(|l| !(l.2 == n && l.3 == k)).map(|l| if l.2 == n && l.3 == k + 1 { (l.0, l.1, n, k) } else { *l }).collect();
        let mut rest = x.clone(); rest.nodes.retain(|m, _| !fresh.contains(m)); rest.links.retain(|l| !fresh.contains(&l.2)); rest.nodes.get_mut(&n).unwrap().kids.clear();
        same(&w, &rest)
    })().map_err(|e| format!("{what}: {e}"))
}
fn peel(h: &Hugr, g: &G, n: Node) -> Result<(), String> {
    let what = format!("PeelTailLoop({n}), a {}", g.op(n));
    let got = apply(h, g, PeelTailLoop::new(n)).map_err(|e| format!("{what} {e}"))?;
    ensure!(got.is_some() == matches!(g.op(n), OpType::TailLoop(_)), "{what}: applied is {}", got.is_some());
    let Some((_, x, ())) = got else { return Ok(()) };
    let OpType::TailLoop(t) = g.op(n) else { unreachable!() };
    (|| -> Result<(), String> {
        let OpType::DFG(d) = x.op(n) else { return Err(format!("it became a {}", x.op(n))) };
        let ins: Vec<_> = t.just_inputs.iter().chain(t.rest.iter()).cloned().collect(); let outs: Vec<_> = t.just_outputs.iter().chain(t.rest.iter()).cloned().collect();
        ensure!(d.signature.input().to_vec() == ins && d.signature.output().to_vec() == outs, "the DFG has the signature {}", d.signature);
        // body: the old children, their Output being the Conditional now
        let old = &g.nodes[&n].kids; let cond = old[1];
        let kids = &x.nodes[&n].kids; let out = kids[1];
        ensure!(!g.nodes.contains_key(&out) && kids.iter().filter(|k| **k != out).eq(old.iter()), "the children of the DFG are {kids:?}, of the loop {old:?}");
        let OpType::Conditional(c) = x.op(cond) else { return Err(format!("{cond} is a {}", x.op(cond))) };
        ensure!(c.sum_rows == vec![t.just_inputs.clone(), t.just_outputs.clone()] && c.other_inputs == t.rest && c.outputs.to_vec() == outs, "the Conditional is {c:?}");
        ensure!(matches!(x.op(out), OpType::Output(o) if o.types.to_vec() == outs), "the Output is {}", x.op(out));
        let cases = &x.nodes[&cond].kids; ensure!(cases.len() == 2, "{} cases", cases.len());
        let row = |v: usize| -> Vec<_> { if v == 0 { ins.clone() } else { outs.clone() } };
        let mut fresh: BTreeSet<Node> = [out].into(); fresh.extend(cases.iter().cloned());
        let mut links: BTreeSet<Link> = (0..outs.len()).map(|i| (cond, i, out, i)).collect();
        for (v, k) in cases.iter().enumerate() {
            let OpType::Case(case) = x.op(*k) else { return Err("not a case".into()) };
            ensure!(case.signature.input().to_vec() == row(v) && case.signature.output().to_vec() == outs, "case {v} has the signature {}", case.signature);
            let ks = &x.nodes[k].kids; ensure!(ks.len() == if v == 0 { 3 } else { 2 }, "case {v} has {} children", ks.len());
            ensure!(matches!(x.op(ks[0]), OpType::Input(o) if o.types.to_vec() == row(v)) && matches!(x.op(ks[1]), OpType::Output(o) if o.types.to_vec() == outs), "case {v} has other Input and Output");
            fresh.extend(ks.iter().cloned());
            if v == 1 { links.extend((0..outs.len()).map(|i| (ks[0], i, ks[1], i))); continue; }
            let l = ks[2]; ensure!(x.op(l) == g.op(n), "case 0 contains a {}", x.op(l));
            links.extend((0..ins.len()).map(|i| (ks[0], i, l, i))); links.extend((0..outs.len()).map(|i| (l, i, ks[1], i)));
            let map = copied(g, n, &x, l, &|o| o.clone(), &|_| false)?; let copy: BTreeSet<Node> = map.values().cloned().collect();
            links.extend(x.links.iter().filter(|k| copy.contains(&k.2)).cloned()); fresh.extend(copy);
        }
        let mut w = g.clone(); for m in [n, cond] { w.nodes.get_mut(&m).unwrap().op = x.op(m).clone(); }
        let mut rest = x.clone();
        let inner: BTreeSet<Link> = x.links.iter().filter(|l| fresh.contains(&l.2) || fresh.contains(&l.0)).cloned().collect();
        ensure!(inner == links, "links of the new nodes {inner:?}, expected {links:?}");
        rest.links.retain(|l| !inner.contains(l)); rest.nodes.retain(|m, _| !fresh.contains(m));
        rest.nodes.get_mut(&n).unwrap().kids.retain(|k| *k != out); rest.nodes.get_mut(&cond).unwrap().kids.clear();
        same(&w, &rest)
    })().map_err(|e| format!("{what}: {e}"))
}
/// the known finding: reported under an obligation of its own
const OUTSIDE: &str = "outline#wire-to-a-block-outside";
fn outline(h: &Hugr, g: &G, set: &BTreeSet<Node>) -> Result<bool, String> {
    let what = format!("OutlineCfg({set:?})");
    // the entry: the only block which is first or entered from outside; the exit: the only edge out
    let ps: BTreeSet<Option<Node>> = set.iter().map(|n| g.nodes[n].parent).collect();
    let cfg = ps.first().cloned().flatten().filter(|p| ps.len() == 1 && matches!(g.op(*p), OpType::CFG(_)));
    let entry: Vec<Node> = set.iter().filter(|n| cfg.is_some_and(|c| g.nodes[&c].kids[0] == **n) || g.links.iter().any(|l| l.2 == **n && !set.contains(&l.0))).cloned().collect();
    let outs: Vec<Link> = g.links.iter().filter(|l| set.contains(&l.0) && !set.contains(&l.2)).cloned().collect();
    let want = cfg.is_some() && entry.len() == 1 && outs.len() == 1;
    // (a wire from within one of the blocks to within a block which stays outside)
    let wire = |l: &&Link| cfg.is_some() && !set.contains(&l.0) && set.iter().any(|b| g.within(l.0, *b)) && !set.iter().any(|b| g.within(l.2, *b));
    let got = apply(h, g, OutlineCfg::new(set.iter().cloned())).map_err(|e| match g.links.iter().find(wire) {
        Some(l) if want && e.contains("leaves an invalid graph") && e.contains(&format!("{:?}", l.0)) => format!("{OUTSIDE} {what} {e}"),
        _ => format!("{what} {e}")
    })?;
    ensure!(got.is_some() == want, "{what}: applied is {}, entries {entry:?}, edges out {outs:?}", got.is_some());
    let Some((_, x, [block, inner])) = got else { return Ok(false) };
    let (cfg, entry, out) = (cfg.unwrap(), entry[0], outs[0]);
    (|| -> Result<(), String> {
        ensure!(!g.nodes.contains_key(&block) && !g.nodes.contains_key(&inner), "it reports old nodes");
        let (OpType::DataflowBlock(b), OpType::CFG(c), OpType::DataflowBlock(e)) = (x.op(block), x.op(inner), g.op(entry)) else { return Err("it reports other nodes".into()) };
        let t = match g.op(out.2) { OpType::DataflowBlock(b) => b.inputs.clone(), OpType::ExitBlock(b) => b.cfg_outputs.clone(), o => return Err(format!("edge to a {o}")) };
        ensure!(b.inputs == e.inputs && b.other_outputs == t && b.sum_rows.len() == 1 && b.sum_rows[0].is_empty(), "the new block is {b:?}");
        ensure!(c.signature.input().to_vec() == e.inputs.to_vec() && c.signature.output().to_vec() == t.to_vec(), "the new CFG has the signature {}", c.signature);
        let ks = &x.nodes[&inner].kids; let exit = ks[1];
        ensure!(ks[0] == entry && matches!(x.op(exit), OpType::ExitBlock(o) if o.cfg_outputs == t) && ks.iter().filter(|k| **k != exit).cloned().collect::<BTreeSet<_>>() == *set, "the new CFG contains {ks:?}");
        let bk = &x.nodes[&block].kids;
        ensure!(bk.iter().all(|k| !g.nodes.contains_key(k)) && bk.contains(&inner), "the new block contains {bk:?}");
        let mut fresh: BTreeSet<Node> = bk.iter().cloned().collect(); fresh.extend([block, exit]);
        for l in &x.links { if l.2 == inner { ensure!(*l == (bk[0], l.1, inner, l.1), "the new CFG is fed by {l:?}"); } if l.0 == inner { ensure!(*l == (inner, l.1, bk[1], l.1 + 1), "the new CFG feeds {l:?}"); } }
        // elsewhere: edges to the entry from outside go to the new block, the edge out goes to the new exit
        let mut w = g.clone();
        w.links.remove(&out); let mut links: BTreeSet<Link> = w.links.iter().map(|l| if l.2 == entry && !set.contains(&l.0) { (l.0, l.1, block, 0) } else { *l }).collect();
        links.insert((out.0, out.1, exit, 0)); links.insert((block, 0, out.2, out.3));
        w.links = links;
        let mut rest = x.clone(); rest.links.retain(|l| !(bk.contains(&l.0) || bk.contains(&l.2)));
        for n in set { w.nodes.get_mut(n).unwrap().parent = Some(inner); }
        let kids: Vec<Node> = g.nodes[&cfg].kids.iter().filter(|k| !set.contains(k)).cloned().collect();
        let now: Vec<Node> = x.nodes[&cfg].kids.iter().filter(|k| **k != block).cloned().collect();
        ensure!(kids == now && (g.nodes[&cfg].kids[0] != entry || x.nodes[&cfg].kids[0] == block), "the CFG contains {:?} after", x.nodes[&cfg].kids);
        w.nodes.get_mut(&cfg).unwrap().kids = x.nodes[&cfg].kids.clone();
        rest.nodes.retain(|m, _| !fresh.contains(m));
        same(&w, &rest)
    })().map_err(|e| format!("{what}: {e}"))?;
    Ok(true)
}
fn cut(r: &mut Rng, h: &Hugr, g: &G, p: Node) -> Result<bool, String> {
    // wires into nodes of the region of p, from nodes of that region
    let all: Vec<Link> = g.links.iter().filter(|l| g.nodes[&l.2].parent == Some(p) && g.nodes[&l.0].parent == Some(p) && matches!(g.kind(l), Some(EdgeKind::Value(_)))).cloned().collect();
    // one linear order of the nodes, cut somewhere: the wires which cross the place
    let kids = &g.nodes[&p].kids; if kids.len() < 2 { return Ok(false); }
    let mut line: Vec<Node> = vec![]; let mut left: Vec<Node> = kids.clone();
    while !left.is_empty() { let free: Vec<Node> = left.iter().filter(|n| !g.links.iter().any(|l| g.child_above(l.2, p) == Some(**n) && g.child_above(l.0, p).is_some_and(|a| a != **n && left.contains(&a)))).cloned().collect(); ensure!(!free.is_empty(), "generator: a cycle"); let n = *r.pick(&free); left.retain(|m| *m != n); line.push(n); }
    let at = r.below(line.len());
    let upto: BTreeSet<Node> = line[..at].iter().cloned().collect();
    let mut cross: Vec<Link> = all.iter().filter(|l| upto.contains(&l.0) && !upto.contains(&l.2)).cloned().collect();
    for k in (1..cross.len()).rev() { cross.swap(k, r.below(k + 1)); } cross.truncate(r.below(4));
    let types: Vec<_> = cross.iter().map(|l| match g.kind(l) { Some(EdgeKind::Value(t)) => t, _ => unreachable!() }).collect();
    let ins = flow::dfg(r, &types, &types, 1);
    let what = format!("InsertCut({p}, {cross:?})");
    let gi = look(&ins);
    let targets: Vec<_> = cross.iter().map(|l| (l.2, IncomingPort::from(l.3))).collect();
    let c = InsertCut::new(p, targets, ins.clone());
    ensure!(c.verify(h).is_ok(), "{what} is refused: {}", c.verify(h).err().unwrap());
    let got = apply(h, g, c).map_err(|e| format!("{what} {e}"))?;
    let Some((_, x, map)) = got else { return Err(format!("{what} is refused")) };
    // the graph with the DFG in place, then inlined
    let (mut w, d, i, o) = with_dfg(g, &gi, p, &|n| map.get(&n).cloned()).map_err(|e| format!("{what}: {e}"))?;
    for (k, l) in cross.iter().enumerate() { w.links.remove(l); w.links.insert((l.0, l.1, d, k)); w.links.insert((d, k, l.2, l.3)); }
    inlined(&w, &x, d, i, o, p).map_err(|e| format!("{what}: {e}"))?;
    Ok(true)
}
/// the graph with a copy of the DFG `gi.entry` of another graph as a last child of `p`; its nodes are named after `map` where they are in it
fn with_dfg(g: &G, gi: &G, p: Node, map: &dyn Fn(Node) -> Option<Node>) -> Result<(G, Node, Node, Node), String> {
    let d = gi.entry; let (i, o) = (gi.nodes[&d].kids[0], gi.nodes[&d].kids[1]);
    // stand-ins for the nodes which are gone
    let mut spare = (0..).map(|k| Node::from(portgraph::NodeIndex::new(1_000_000 + k)));
    let m: BTreeMap<Node, Node> = gi.nodes.keys().filter(|n| gi.within(**n, d)).map(|n| (*n, if [d, i, o].contains(n) { spare.next().unwrap() } else { map(*n).unwrap_or(spare.next().unwrap()) })).collect();
    for n in m.values() { ensure!(!g.nodes.contains_key(n), "the new node {n} is an old one"); }
    let mut w = g.clone();
    for (a, b) in &m { let n = &gi.nodes[a]; w.nodes.insert(*b, N { op: n.op.clone(), parent: if *a == d { Some(p) } else { n.parent.map(|q| m[&q]) }, kids: n.kids.iter().map(|k| m[k]).collect() }); }
    w.nodes.get_mut(&p).unwrap().kids.push(m[&d]);
    for l in &gi.links { if let (Some(a), Some(b)) = (m.get(&l.0), m.get(&l.2)) { w.links.insert((*a, l.1, *b, l.3)); } }
    Ok((w, m[&d], m[&i], m[&o]))
}
fn simple(r: &mut Rng, h: &Hugr, g: &G, p: Node) -> Result<bool, String> {
    let kids = &g.nodes[&p].kids[2..]; if kids.is_empty() { return Ok(false); }
    // some nodes next to each other
    let mut set = vec![*r.pick(kids)];
    for _ in 0..r.below(4) { let near: Vec<Node> = kids.iter().filter(|k| !set.contains(k) && (r.below(5) == 0 || g.links.iter().any(|l| (l.0 == **k && set.contains(&l.2)) || (l.2 == **k && set.contains(&l.0))))).cloned().collect(); if !near.is_empty() { set.push(*r.pick(&near)); } }
    let what = format!("SimpleReplacement({set:?})");
    let sub = catch_unwind(AssertUnwindSafe(|| SiblingSubgraph::try_from_nodes(set.clone(), h))).map_err(|_| format!("SiblingSubgraph::try_from_nodes({set:?}) panics"))?;
    // it is one unless another edge than a wire or a call enters or leaves it, or something leaves it and comes back
    let odd = g.links.iter().find(|l| set.contains(&l.0) != set.contains(&l.2) && !matches!(g.kind(l), Some(EdgeKind::Value(_) | EdgeKind::Function(_))));
    let back = kids.iter().chain(&g.nodes[&p].kids[..2]).any(|k| !set.contains(k) && set.iter().any(|a| reaches(g, *a, *k, p)) && set.iter().any(|b| reaches(g, *k, *b, p)));
    let leaves = set.iter().all(|n| g.nodes[n].kids.is_empty());
    // (a wire used within and outside, nodes around one which uses a wire of another block, and one connected only to the others, are refused sometimes)
    let enclosed = set.iter().any(|n| !g.links.iter().any(|l| (l.0 == *n && !set.contains(&l.2)) || (l.2 == *n && !set.contains(&l.0))));
    let nonlocal = g.links.iter().any(|l| g.nodes[&l.0].parent != g.nodes[&l.2].parent && matches!(g.kind(l), Some(EdgeKind::Value(_))));
    let split = g.links.iter().any(|l| set.contains(&l.0) && set.contains(&l.2) && g.links.iter().any(|k| (k.0, k.1) == (l.0, l.1) && !set.contains(&k.2)));
    ensure!(if leaves && !split && !nonlocal && !enclosed { sub.is_ok() == (odd.is_none() && !back) } else { sub.is_err() || !back }, "SiblingSubgraph::try_from_nodes({set:?}) gives {:?}, other edges at its boundary {odd:?}, something between its nodes {back}", sub.as_ref().err());
    let Ok(sub) = sub else { return Ok(false) };
    let sig = sub.signature(h);
    let (ti, to): (Vec<Type>, Vec<Type>) = (sig.input().to_vec(), sig.output().to_vec());
    let repl = flow::dfg(r, &ti, &to, 2); let gi = look(&repl);
    if r.below(8) == 0 { let mut more = to.clone(); more.push(usize_t()); let bad = flow::dfg(r, &ti, &more, 1); ensure!(SimpleReplacement::try_new(sub.clone(), h, bad).is_err(), "{what}: a replacement of another signature is accepted"); }
    let rep = SimpleReplacement::try_new(sub.clone(), h, repl).map_err(|e| format!("{what} is refused: {e}"))?;
    let got = apply(h, g, rep).map_err(|e| format!("{what} {e}"))?;
    ensure!(got.is_some() == leaves, "{what}: applied is {}", got.is_some());
    let Some((_, x, out)) = got else { return Ok(false) };
    (|| -> Result<(), String> {
        ensure!(out.removed_nodes == set.iter().map(|n| (*n, g.op(*n).clone())).collect(), "it reports the removed nodes {:?}", out.removed_nodes.keys());
        let (mut w, d, i, o) = with_dfg(g, &gi, p, &|n| out.node_map.get(&n).cloned())?;
        // what enters and leaves
        let enter: BTreeSet<(Node, usize)> = g.links.iter().filter(|l| set.contains(&l.2) && !set.contains(&l.0) && matches!(g.kind(l), Some(EdgeKind::Value(_)))).map(|l| (l.2, l.3)).collect();
        let leave: BTreeSet<(Node, usize)> = g.links.iter().filter(|l| set.contains(&l.0) && !set.contains(&l.2)).map(|l| (l.0, l.1)).collect();
        ensure!(sub.incoming_ports().iter().flatten().map(|(n, q)| (*n, q.index())).collect::<BTreeSet<_>>() == enter && sub.outgoing_ports().iter().map(|(n, q)| (*n, q.index())).collect::<BTreeSet<_>>() == leave, "the boundary of the subgraph is {:?} {:?}", sub.incoming_ports(), sub.outgoing_ports());
        for (k, v) in sub.incoming_ports().iter().enumerate() { let s = g.source(v[0].0, v[0].1.index()).unwrap(); w.links.insert((s.0, s.1, d, k)); }
        for (k, v) in sub.outgoing_ports().iter().enumerate() { for l in g.links.iter().filter(|l| (l.0, l.1) == (v.0, v.1.index()) && !set.contains(&l.2)) { w.links.insert((d, k, l.2, l.3)); } }
        for n in &set { w.remove(*n); }
        inlined(&w, &x, d, i, o, p)
    })().map_err(|e| format!("{what}: {e}"))?;
    Ok(true)
}
fn simple_at(r: &mut Rng, h: &Hugr, g: &G, n: Node) -> Result<u64, String> { let mut k = 0; if OpTag::DataflowParent.is_superset(g.op(n).tag()) { for _ in 0..6 { if simple(r, h, g, n)? { k += 1; } } } Ok(k) }
type Spec = Replacement<Node>;
fn edge(g: &G, l: &Link) -> Result<NewEdgeKind, String> {
    let (src_pos, tgt_pos) = (l.1.into(), l.3.into());
    Ok(match g.kind(l) { Some(EdgeKind::Value(_)) => NewEdgeKind::Value { src_pos, tgt_pos }, Some(EdgeKind::Const(_) | EdgeKind::Function(_)) => NewEdgeKind::Static { src_pos, tgt_pos }, Some(EdgeKind::ControlFlow) => NewEdgeKind::ControlFlow { src_pos }, Some(EdgeKind::StateOrder) => NewEdgeKind::Order, k => return Err(format!("generator: {k:?}")) })
}
/// verify, then apply: both agree
fn replace(h: &Hugr, g: &G, s: &Spec) -> Result<Result<(G, BTreeMap<Node, Node>), String>, String> {
    let v = catch_unwind(AssertUnwindSafe(|| s.verify(h))).map_err(|_| "verify panics")?;
    let mut x = h.clone();
    let a = catch_unwind(AssertUnwindSafe(|| s.clone().apply_hugr_mut(&mut x))).map_err(|_| format!("apply panics, verify gives {v:?}"))?;
    ensure!(v.is_ok() == a.is_ok(), "verify gives {v:?}, apply {:?}", a.as_ref().map(|_| ()));
    same(g, &look(h))?;
    Ok(match a { Ok(m) => Ok((look(&x), m.into_iter().collect())), Err(e) => Err(e.to_string()) })
}
fn renew(r: &mut Rng, h: &Hugr, g: &G, p: Node) -> Result<u64, String> {
    // some children are replaced by copies of themselves; below them, some nodes keep their children
    let kids = &g.nodes[&p].kids; if kids.is_empty() { return Ok(0); }
    let mut set: Vec<Node> = kids.iter().filter(|_| r.below(3) == 0).cloned().collect();
    if set.is_empty() { set.push(*r.pick(kids)); }
    let what = format!("Replacement of {set:?} by copies");
    let mut rep = Hugr::new(); let root = rep.add_node_with_parent(rep.module_root(), g.op(p).clone()); rep.set_entrypoint(root);
    let mut map: BTreeMap<Node, Node> = BTreeMap::new(); let mut adoptions = std::collections::HashMap::new();
    let mut todo: Vec<(Node, Node)> = set.iter().rev().map(|n| (*n, root)).collect();
    while let Some((n, q)) = todo.pop() {
        let m = rep.add_node_with_parent(q, g.op(n).clone()); map.insert(n, m);
        if !g.nodes[&n].kids.is_empty() { if r.below(3) == 0 { adoptions.insert(m, n); } else { todo.extend(g.nodes[&n].kids.iter().rev().map(|k| (*k, m))); } }
    }
    let (mut mu_inp, mut mu_out) = (vec![], vec![]);
    for l in &g.links { match (map.get(&l.0), map.get(&l.2)) { (Some(a), Some(b)) => rep.connect(*a, l.1, *b, l.3), (None, Some(b)) => mu_inp.push(NewEdgeSpec { src: l.0, tgt: *b, kind: edge(g, l)? }), (Some(a), None) => mu_out.push(NewEdgeSpec { src: *a, tgt: l.2, kind: edge(g, l)? }), _ => {} } }
    let spec = Replacement { removal: set.clone(), replacement: rep, adoptions, mu_inp, mu_out, mu_new: vec![] };
    let got = replace(h, g, &spec).map_err(|e| format!("{what}: {e}"))?;
    if map.contains_key(&g.entry) { ensure!(got.is_err(), "{what} is applied, though the entrypoint is among them"); return Ok(0); }
    let (x, nodes) = got.map_err(|e| format!("{what} is refused: {e}"))?;
    let name: BTreeMap<Node, Node> = map.iter().map(|(n, m)| (*n, nodes[m])).collect();
    (|| -> Result<(), String> {
        ensure!(name.values().all(|m| !g.nodes.contains_key(m)), "a new node is an old one");
        ensure!(nodes.keys().filter(|k| **k != root).collect::<BTreeSet<_>>() == map.values().collect::<BTreeSet<_>>(), "it reports the new nodes {nodes:?}");
        let f = |n: &Node| *name.get(n).unwrap_or(n);
        let w = G { nodes: g.nodes.iter().map(|(n, v)| (f(n), N { op: v.op.clone(), parent: v.parent.as_ref().map(f), kids: v.kids.iter().map(f).collect() })).collect(), links: g.links.iter().map(|l| (f(&l.0), l.1, f(&l.2), l.3)).collect(), entry: g.entry };
        same(&w, &x)
    })().map_err(|e| format!("{what}: {e}"))?;
    // a spoiled request is refused by both
    let mut bad = spec.clone(); let gone = set[r.below(set.len())]; let other = *r.pick(&g.nodes.keys().cloned().collect::<Vec<_>>());
    match r.below(10) {
        9 => { let v: Vec<_> = bad.mu_out.iter().filter(|e| matches!(e.kind, NewEdgeKind::Value { .. } | NewEdgeKind::Static { .. })).cloned().collect(); if v.is_empty() { return Ok(1); } bad.mu_out.push(r.pick(&v).clone()); }
        0 if !bad.mu_inp.is_empty() => { let k = r.below(bad.mu_inp.len()); bad.mu_inp[k].src = gone; }
        1 if !bad.mu_out.is_empty() => { let k = r.below(bad.mu_out.len()); bad.mu_out[k].tgt = gone; }
        2 if !bad.mu_inp.is_empty() => { let k = r.below(bad.mu_inp.len()); bad.mu_inp[k].tgt = root; }
        3 if !bad.mu_out.is_empty() => { let k = r.below(bad.mu_out.len()); bad.mu_out[k].src = Node::from(portgraph::NodeIndex::new(99_999)); }
        4 => { bad.adoptions.insert(root, gone); }
        5 => { bad.removal.push(p); }
        6 => { if g.nodes[&other].parent == Some(p) || set.iter().any(|n| g.within(other, *n)) { return Ok(1); } if let Some(k) = bad.adoptions.keys().next().cloned() { bad.adoptions.insert(k, other); } else { return Ok(1); } }
        7 => { bad.mu_new.push(NewEdgeSpec { src: gone, tgt: other, kind: NewEdgeKind::Order }); }
        8 => { let op = if matches!(g.op(p), OpType::Module(_)) { g.op(gone).clone() } else { hugr_core::ops::Module::new().into() }; if op.tag() == g.op(p).tag() { return Ok(1); } bad.replacement.replace_op(root, op); }
        _ => return Ok(1),
    }
    let got = replace(h, g, &bad).map_err(|e| format!("{what}, spoiled: {e}"))?;
    ensure!(got.is_err(), "{what}, spoiled, is applied");
    Ok(1)
}
/// a Noop is replaced by nothing: its input goes where its output went
fn drop_noop(h: &Hugr, g: &G, n: Node) -> Result<u64, String> {
    let OpType::ExtensionOp(e) = g.op(n) else { return Ok(0) };
    if e.unqualified_id() != "Noop" { return Ok(0); }
    let what = format!("Replacement of the Noop {n} by nothing"); let p = g.nodes[&n].parent.unwrap();
    let mut rep = Hugr::new(); let root = rep.add_node_with_parent(rep.module_root(), g.op(p).clone()); rep.set_entrypoint(root);
    let s = g.source(n, 0).unwrap(); let near = g.nodes[&s.0].parent == Some(p);
    let mut w = g.clone(); w.remove(n); let mut mu_new = vec![];
    for l in g.links.iter().filter(|l| l.0 == n) {
        let l2 = if g.order(l) { if !near { continue; } (s.0, g.op(s.0).other_output_port().unwrap().index(), l.2, l.3) } else { (s.0, s.1, l.2, l.3) };
        w.links.insert(l2); mu_new.push(NewEdgeSpec { src: s.0, tgt: l.2, kind: edge(g, &l2)? });
    }
    let spec = Replacement { removal: vec![n], replacement: rep, adoptions: Default::default(), mu_inp: vec![], mu_out: vec![], mu_new };
    let (x, m) = replace(h, g, &spec).map_err(|e| format!("{what}: {e}"))?.map_err(|e| format!("{what} is refused: {e}"))?;
    ensure!(m.keys().all(|k| *k == root), "{what} reports new nodes {m:?}");
    same(&w, &x).map_err(|e| format!("{what}: {e}"))?; let mut y = h.clone(); spec.apply_hugr_mut(&mut y).map_err(|e| e.to_string())?; valid(&y).map_err(|e| format!("{what} {e}"))?;
    Ok(1)
}
fn replace_at(r: &mut Rng, h: &Hugr, g: &G, n: Node) -> Result<u64, String> { let mut k = drop_noop(h, g, n)?; if !g.nodes[&n].kids.is_empty() { for _ in 0..2 { k += renew(r, h, g, n)?; } } Ok(k) }
type Check = fn(&mut Rng, &Hugr, &G, Node) -> Result<u64, String>;
fn consts_at(_: &mut Rng, h: &Hugr, g: &G, n: Node) -> Result<u64, String> { consts(h, g, n).map(|_| 2) }
fn identity_at(_: &mut Rng, h: &Hugr, g: &G, n: Node) -> Result<u64, String> { for p in 0..h.num_inputs(n) { identity(h, g, n, p)?; } Ok(h.num_inputs(n) as u64) }
fn inline_at(_: &mut Rng, h: &Hugr, g: &G, n: Node) -> Result<u64, String> { inline_dfg(h, g, n).map(|_| matches!(g.op(n), OpType::DFG(_)) as u64) }
fn call_at(_: &mut Rng, h: &Hugr, g: &G, n: Node) -> Result<u64, String> { inline_call(h, g, n).map(|_| matches!(g.op(n), OpType::Call(_)) as u64) }
fn peel_at(_: &mut Rng, h: &Hugr, g: &G, n: Node) -> Result<u64, String> { peel(h, g, n).map(|_| matches!(g.op(n), OpType::TailLoop(_)) as u64) }
fn outline_at(r: &mut Rng, h: &Hugr, g: &G, n: Node) -> Result<u64, String> {
    let (mut k, mut known) = (0, None);
    if matches!(g.op(n), OpType::CFG(_)) {
        let ks = &g.nodes[&n].kids;
        for b in 0..1u32 << ks.len().min(6) {
            let mut s: BTreeSet<Node> = ks.iter().enumerate().filter(|(i, _)| b >> i & 1 == 1).map(|(_, k)| *k).collect();
            if s.iter().any(|k| matches!(g.op(*k), OpType::ExitBlock(_))) { continue; }
            if r.below(8) == 0 { s.insert(n); }
            match outline(h, g, &s) { Err(e) if e.starts_with(OUTSIDE) => known = Some(e), r => if r? { k += 1; } }
        }
    }
    known.map_or(Ok(k), Err)
}
fn cut_at(r: &mut Rng, h: &Hugr, g: &G, n: Node) -> Result<u64, String> { let mut k = 0; if OpTag::DataflowParent.is_superset(g.op(n).tag()) { for _ in 0..3 { if cut(r, h, g, n)? { k += 1; } } } Ok(k) }
const CHECKS: [(&str, Check); 9] = [("subgraph replaced", replace_at), ("nodes replaced", simple_at), ("constants removed", consts_at), ("identity inserted", identity_at), ("DFG inlined", inline_at), ("call inlined", call_at), ("loop peeled", peel_at), ("blocks outlined", outline_at), ("cut inserted", cut_at)];
fn main() {
    let mut cx = Ctx::from_env("W01");
    if cx.want("identity inserted") { cx.case("identity inserted", || "two Noops in a module".into(), no_identity); }
    for k in 0..cx.n(300, 4000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let depth = 1 + r.below(3);
        let mut h = flow::graph(&mut r, depth);
        let places: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).is_container()).collect();
        if r.bool() { h.set_entrypoint(*r.pick(&places)); }
        let g = look(&h);
        if let Err(e) = h.validate() { cx.case("generator", || format!("graph {k}"), || Err(e.to_string())); continue; }
        for (obl, f) in CHECKS {
            if !cx.want(obl) { continue; }
            let mut done = 0;
            for n in h.nodes().collect::<Vec<_>>() {
                let mut q = r.clone();
                let res = catch_unwind(AssertUnwindSafe(|| f(&mut q, &h, &g, n))).unwrap_or_else(|p| Err(format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())));
                r.next();
                match res { Ok(k) => done += k, Err(e) => cx.case(if e.starts_with(OUTSIDE) { OUTSIDE } else { obl }, || format!("graph {k}, node {n}"), || Err(e)) }
            }
            if done > 0 { cx.case(obl, || format!("graph {k}"), || Ok(())); cx.count(obl, done - 1); }
        }
    }
    cx.finish()
}
