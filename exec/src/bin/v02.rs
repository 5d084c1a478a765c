//! V02: whole-graph validation accepts a graph exactly when the rules on nodes, ports, edges, names and type parameters hold.
use hugr_core::extension::prelude;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::ops::{self, OpTrait, OpType, dataflow::IOTrait};
use hugr_core::types::{EdgeKind, PolyFuncType, Signature, Type, TypeBound, TypeRow};
use hugr_core::{Direction, Hugr, HugrView, Node, Port, PortIndex, Visibility};
use hx::graphs::*;
use hx::{Ctx, Rng, ensure};
use std::collections::{BTreeMap, BTreeSet};

const DIRS: [Direction; 2] = [Direction::Incoming, Direction::Outgoing];

// ------------------------------------------------------------ the rules, stated independently
/// every mention of a parameter: index and what it is taken to be
fn mentions(v: &serde_json::Value, out: &mut Vec<(u64, String)>) {
    match v {
        serde_json::Value::Object(m) => {
            if m.get("t").and_then(|t| t.as_str()) == Some("V") { out.push((m["i"].as_u64().unwrap(), m["b"].as_str().unwrap().to_string())); }
            for x in m.values() { mentions(x, out); }
        }
        serde_json::Value::Array(a) => for x in a { mentions(x, out); },
        _ => {}
    }
}
type Params = Vec<String>;
fn params(p: &PolyFuncType) -> Params { p.params().iter().map(|t| serde_json::to_value(t).unwrap()["b"].as_str().unwrap_or("?").to_string()).collect() }
fn only(t: serde_json::Result<serde_json::Value>, d: &Params) -> bool {
    let mut m = vec![];
    mentions(&t.unwrap(), &mut m);
    m.iter().all(|(i, b)| d.get(*i as usize) == Some(b))
}
fn allowed(parent: &OpType, child: &OpType) -> bool {
    use OpType::*;
    let flow = matches!(child, Input(_) | Output(_) | Call(_) | CallIndirect(_) | LoadConstant(_) | LoadFunction(_) | DFG(_) | ExtensionOp(_) | OpaqueOp(_) | Tag(_) | TailLoop(_) | CFG(_) | Conditional(_) | Const(_));
    match parent {
        Module(_) => matches!(child, FuncDefn(_) | FuncDecl(_) | AliasDecl(_) | AliasDefn(_) | Const(_)),
        FuncDefn(_) | DFG(_) | TailLoop(_) | Case(_) | DataflowBlock(_) => flow,
        CFG(_) => matches!(child, DataflowBlock(_) | ExitBlock(_) | Const(_)),
        Conditional(_) => matches!(child, Case(_)),
        _ => false,
    }
}
fn edges_between(h: &Hugr, kids: &[Node]) -> Vec<(usize, usize, usize)> {
    let mut e = vec![];
    for (i, k) in kids.iter().enumerate() {
        for p in 0..h.num_outputs(*k) { for (t, _) in h.linked_ports(*k, Port::new(Direction::Outgoing, p)) { if let Some(j) = kids.iter().position(|x| *x == t) { e.push((i, p, j)); } } }
    }
    e
}
fn cyclic(n: usize, e: &[(usize, usize, usize)]) -> bool {
    let mut left: BTreeSet<usize> = (0..n).collect();
    loop {
        let free: Vec<usize> = left.iter().copied().filter(|j| !e.iter().any(|(a, _, b)| b == j && left.contains(a))).collect();
        if free.is_empty() { return !left.is_empty(); }
        for f in free { left.remove(&f); }
    }
}
fn children_wrong(h: &Hugr, n: Node) -> Option<String> {
    let op = h.get_optype(n);
    let kids: Vec<Node> = h.children(n).collect();
    let ops: Vec<OpType> = kids.iter().map(|k| h.get_optype(*k).clone()).collect();
    if matches!(op, OpType::Module(_)) { return ops.iter().any(|c| !allowed(op, c)).then(|| "module".into()); }
    let cont = inner(op).is_some() || matches!(op, OpType::CFG(_) | OpType::Conditional(_));
    if !cont { return (!kids.is_empty()).then(|| format!("{n} has children")); }
    if kids.is_empty() { return Some(format!("{n} has no children")); }
    if ops.iter().any(|c| !allowed(op, c)) { return Some(format!("{n} has a child of another kind")); }
    if !matches!(op, OpType::Conditional(_)) && kids.len() < 2 { return Some(format!("{n} has one child")); }
    let bad = wrong(op, &ops).unwrap();
    if !bad.is_empty() { return Some(format!("children {bad:?} of {n}")); }
    let e = edges_between(h, &kids);
    if inner(op).is_some() && cyclic(kids.len(), &e) { return Some(format!("{n} is cyclic")); }
    if matches!(op, OpType::CFG(_)) {
        for (i, p, j) in e {
            let ok = match (&ops[i], &ops[j]) {
                (OpType::DataflowBlock(b), OpType::DataflowBlock(t)) => p < b.sum_rows.len() && cat(&b.sum_rows[p], &b.other_outputs) == t.inputs,
                (OpType::DataflowBlock(b), OpType::ExitBlock(t)) => p < b.sum_rows.len() && cat(&b.sum_rows[p], &b.other_outputs) == t.cfg_outputs,
                _ => false,
            };
            if !ok { return Some(format!("edge {p} from child {i} to {j} of {n}")); }
        }
    }
    None
}
/// every path within `c` from its first child to `b` goes through `a`, and there is one
fn dominates(h: &Hugr, c: Node, a: Node, b: Node) -> bool {
    let kids: Vec<Node> = h.children(c).collect();
    let e = edges_between(h, &kids);
    let reach = |skip: Option<Node>| -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![0usize];
        while let Some(i) = todo.pop() { if Some(kids[i]) == skip || !seen.insert(i) { continue; } for (x, _, y) in &e { if *x == i { todo.push(*y); } } }
        seen
    };
    let Some(bi) = kids.iter().position(|k| *k == b) else { return false };
    reach(None).contains(&bi) && (a == b || !reach(Some(a)).contains(&bi))
}
fn up(h: &Hugr, n: Node) -> Vec<Node> { let mut v = vec![]; let mut p = h.get_parent(n); while let Some(x) = p { v.push(x); p = h.get_parent(x); } v }
fn edge_wrong(h: &Hugr, from: Node, k: &EdgeKind, to: Node) -> bool {
    if h.get_parent(from) == h.get_parent(to) { return false; }
    let stat = matches!(k, EdgeKind::Const(_) | EdgeKind::Function(_));
    if !stat && !matches!(k, EdgeKind::Value(t) if t.copyable()) { return true; }
    let ordered = |a: Node| (0..h.num_outputs(from)).any(|p| h.get_optype(from).port_kind(Port::new(Direction::Outgoing, p)) == Some(EdgeKind::StateOrder) && h.linked_ports(from, Port::new(Direction::Outgoing, p)).any(|(t, _)| t == a));
    let block = h.get_parent(from).unwrap();
    !up(h, to).iter().any(|a| {
        let p = h.get_parent(*a);
        if p == Some(block) { return stat || ordered(*a); }
        !stat && p.is_some() && *a != block && p == h.get_parent(block) && matches!(h.get_optype(p.unwrap()), OpType::CFG(_)) && dominates(h, p.unwrap(), block, *a)
    })
}
fn fault(h: &Hugr) -> Option<String> {
    let root = h.module_root();
    if h.get_parent(root).is_some() { return Some("root has a parent".into()); }
    for n in h.nodes() {
        let op = h.get_optype(n);
        if matches!(op, OpType::OpaqueOp(_)) { return Some(format!("{n} unresolved")); }
        for d in DIRS { if h.num_ports(n, d) != op.port_count(d) { return Some(format!("{n} has {} {d:?} ports", h.num_ports(n, d))); } }
        if n != root && !h.get_parent(n).is_some_and(|p| allowed(h.get_optype(p), op)) { return Some(format!("{n} not allowed where it is")); }
        if n == h.entrypoint() && inner(op).is_none() && !matches!(op, OpType::CFG(_) | OpType::Conditional(_) | OpType::Module(_)) { return Some("entrypoint".into()); }
        if let Some(e) = children_wrong(h, n) { return Some(e); }
    }
    // parameters in scope
    let mut scope: BTreeMap<Node, Params> = BTreeMap::new();
    for n in h.nodes() { scope.insert(n, up(h, n).iter().find_map(|a| match h.get_optype(*a) { OpType::FuncDefn(f) => Some(params(f.signature())), _ => None }).unwrap_or_default()); }
    for n in h.nodes() {
        let op = h.get_optype(n);
        let d = &scope[&n];
        let applied = match op { OpType::Call(c) => Some((&c.func_sig, &c.type_args, &c.instantiation)), OpType::LoadFunction(c) => Some((&c.func_sig, &c.type_args, &c.instantiation)), _ => None };
        if let Some((s, a, i)) = applied {
            if s.instantiate(a).ok().as_ref() != Some(i) { return Some(format!("{n} does not apply its function as it says")); }
            if !a.iter().all(|x| only(serde_json::to_value(x), d)) { return Some(format!("{n} applies its function to a parameter out of scope")); }
        }
        if let OpType::ExtensionOp(e) = op { if !e.args().iter().all(|x| only(serde_json::to_value(x), d)) { return Some(format!("{n} has an argument out of scope")); } }
        for dir in DIRS {
            for p in 0..h.num_ports(n, dir) {
                let port = Port::new(dir, p);
                let k = op.port_kind(port).unwrap();
                let l: Vec<(Node, Port)> = h.linked_ports(n, port).collect();
                if dir == Direction::Incoming {
                    if matches!(k, EdgeKind::Value(_) | EdgeKind::Const(_) | EdgeKind::Function(_)) && l.len() != 1 { return Some(format!("{n} {port} has {} sources", l.len())); }
                    continue;
                }
                if (matches!(k, EdgeKind::ControlFlow) || matches!(&k, EdgeKind::Value(t) if !t.copyable())) && l.len() != 1 { return Some(format!("{n} {port} has {} targets", l.len())); }
                let fine = match &k { EdgeKind::Value(t) => only(serde_json::to_value(t), d), EdgeKind::Const(t) => only(serde_json::to_value(t), &vec![]), EdgeKind::Function(s) => only(serde_json::to_value(s.body()), &params(s)), _ => true };
                if !fine { return Some(format!("{n} {port} mentions a parameter out of scope")); }
                for (m, q) in l {
                    if h.get_optype(m).port_kind(q).as_ref() != Some(&k) { return Some(format!("{n} {port} does not fit {m} {q}")); }
                    if edge_wrong(h, n, &k, m) { return Some(format!("no edge allowed from {n} {port} to {m} {q}")); }
                }
            }
        }
    }
    let ex: Vec<(String, PolyFuncType, bool)> = h.children(root).filter_map(|n| match h.get_optype(n) {
        OpType::FuncDefn(f) if *f.visibility() == Visibility::Public => Some((f.func_name().clone(), f.signature().clone(), true)),
        OpType::FuncDecl(f) if *f.visibility() == Visibility::Public => Some((f.func_name().clone(), f.signature().clone(), false)),
        _ => None,
    }).collect();
    for i in 0..ex.len() { for j in 0..i { if ex[i].0 == ex[j].0 && (ex[i].1 != ex[j].1 || ex[i].2 || ex[j].2) { return Some(format!("{} exported twice", ex[i].0)); } } }
    None
}

// ------------------------------------------------------------ changes
fn at(r: &mut Rng, h: &Hugr, f: &dyn Fn(&OpType) -> bool) -> Option<Node> { let v: Vec<Node> = h.nodes().filter(|n| f(h.get_optype(*n))).collect(); if v.is_empty() { None } else { Some(*r.pick(&v)) } }
fn all_ports(h: &Hugr, d: Direction, f: &dyn Fn(Node, &EdgeKind) -> bool) -> Vec<(Node, Port, EdgeKind)> {
    let mut v = vec![];
    for n in h.nodes() { for p in 0..h.num_ports(n, d) { let port = Port::new(d, p); if let Some(k) = h.get_optype(n).port_kind(port) { if f(n, &k) { v.push((n, port, k)); } } } }
    v
}
/// the ancestor of `to` that lies in the region of `from`
fn sibling_above(h: &Hugr, from: Node, to: Node) -> Option<Node> { up(h, to).into_iter().find(|a| h.get_parent(*a) == h.get_parent(from)) }
fn order(h: &mut Hugr, a: Node, b: Node) -> bool {
    let (Some(p), Some(q)) = (h.get_optype(a).other_output_port(), h.get_optype(b).other_input_port()) else { return false };
    if p.index() >= h.num_outputs(a) || q.index() >= h.num_inputs(b) { return false; }
    h.connect(a, p, b, q); true
}
fn value(r: &mut Rng) -> ops::Value { if r.bool() { ops::Value::unit() } else { ops::Value::true_val() } }
/// one change that may or may not break a rule
fn change(r: &mut Rng, h: &mut Hugr) -> Option<String> {
    Some(match r.below(30) {
        0..=6 => { // another source for an input, often in another region
            let copy = |k: &EdgeKind| matches!(k, EdgeKind::Value(t) if t.copyable());
            let free = r.below(6) == 0;
            let ins = all_ports(h, Direction::Incoming, &|_, k| copy(k) || (free && !matches!(k, EdgeKind::StateOrder)));
            if ins.is_empty() { return None; }
            let (n, p, k) = r.pick(&ins).clone();
            let outer = up(h, n);
            let far = r.below(3) != 0;
            let outs = all_ports(h, Direction::Outgoing, &|m, x| (*x == k || free && r_eq(x, &k)) && (!far || h.get_parent(m) != h.get_parent(n) && (h.get_parent(m).is_some_and(|q| outer.contains(&q) || h.get_parent(q).is_some_and(|g| outer.contains(&g))))));
            if outs.is_empty() { return None; }
            let (m, q, _) = r.pick(&outs).clone();
            if r.below(12) != 0 { h.disconnect(n, p); }
            h.connect(m, q.index(), n, p.index());
            let s = sibling_above(h, m, n);
            let o = s.is_some_and(|s| s != m && r.below(3) != 0 && order(h, m, s));
            format!("{m} {q} to {n} {p}{}", if o { " with an order edge" } else { "" })
        }
        24..=29 => { // a value made in one region and used in another: another block, below a sibling, or anywhere
            let df = |o: &OpType| inner(o).is_some();
            let b = at(r, h, &df)?;
            let outer: Vec<Node> = std::iter::once(b).chain(up(h, b)).collect();
            let near: Vec<Node> = match r.below(8) {
                0 => h.nodes().filter(|n| df(h.get_optype(*n))).collect(),
                1 | 2 => outer.iter().copied().filter(|n| df(h.get_optype(*n))).collect(),
                _ => { let p: Vec<Node> = outer.iter().copied().filter(|n| h.get_parent(*n).is_some_and(|p| matches!(h.get_optype(p), OpType::CFG(_)))).flat_map(|n| h.children(h.get_parent(n).unwrap()).collect::<Vec<_>>()).filter(|n| df(h.get_optype(*n))).collect(); p }
            };
            if near.is_empty() { return None; }
            let a = *r.pick(&near);
            if r.below(4) == 0 { // from a call to a call
                let t = if r.below(3) == 0 { prelude::bool_t() } else { prelude::qb_t() };
                let m = h.module_root(); let id = r.below(1 << 20);
                let mut call = |h: &mut Hugr, n: Node, s: Signature, k: &str| -> Option<Node> { let f = h.add_node_with_parent(m, ops::FuncDecl::new(format!("{k}{id}"), s.clone())); let c = h.add_node_with_parent(n, ops::Call::try_new(s.clone().into(), []).ok()?); h.connect(f, 0, c, s.input_count()); Some(c) };
                let l = call(h, a, Signature::new(vec![], vec![t.clone()]), "make")?;
                let u = call(h, b, Signature::new(vec![t.clone()], vec![]), "take")?;
                h.connect(l, 0, u, 0);
                let s = sibling_above(h, l, u);
                let o = s.is_some_and(|s| s != u && s != l && r.below(6) != 0 && order(h, l, s));
                return Some(format!("a {t} made in {a} by {l} taken in {b} by {u}{}", if o { " with an order edge" } else { "" }));
            }
            let t = if r.below(8) == 0 { prelude::qb_t() } else { prelude::bool_t() };
            let k = h.add_node_with_parent(a, ops::Const::new(ops::Value::true_val()));
            let l = if r.below(4) == 0 { h.add_node_with_parent(a, prelude::Noop::new(t.clone())) } else { h.add_node_with_parent(a, ops::LoadConstant { datatype: prelude::bool_t() }) };
            if matches!(h.get_optype(l), OpType::LoadConstant(_)) { h.connect(k, 0, l, 0); } else {
                let outs = all_ports(h, Direction::Outgoing, &|m, x| *x == EdgeKind::Value(t.clone()) && h.get_parent(m) == Some(a) && m != l && t.copyable());
                if outs.is_empty() { return None; }
                let (m, q, _) = r.pick(&outs).clone(); h.connect(m, q.index(), l, 0);
            }
            let u = h.add_node_with_parent(b, prelude::Noop::new(prelude::bool_t()));
            h.connect(l, 0, u, 0);
            let s = sibling_above(h, l, u);
            let o = s.is_some_and(|s| s != u && s != l && r.below(4) != 0 && order(h, l, s));
            format!("a value of {a} made by {l} used in {b} by {u}{}", if o { " with an order edge" } else { "" })
        }
        7 => { let v = all_ports(h, if r.bool() { Direction::Incoming } else { Direction::Outgoing }, &|_, _| true); if v.is_empty() { return None; } let (n, p, _) = r.pick(&v).clone(); h.disconnect(n, p); format!("{n} {p} disconnected") }
        8 => { // a second edge at a port
            let v = all_ports(h, Direction::Incoming, &|_, k| !matches!(k, EdgeKind::StateOrder)); if v.is_empty() { return None; }
            let (n, p, k) = r.pick(&v).clone();
            let outs = all_ports(h, Direction::Outgoing, &|_, x| *x == k); if outs.is_empty() { return None; }
            let (m, q, _) = r.pick(&outs).clone();
            h.connect(m, q.index(), n, p.index()); format!("also {m} {q} to {n} {p}")
        }
        9 => { // the same function or constant twice
            let v = all_ports(h, Direction::Incoming, &|_, k| matches!(k, EdgeKind::Function(_) | EdgeKind::Const(_))); if v.is_empty() { return None; }
            let (n, p, k) = r.pick(&v).clone();
            let root = h.module_root();
            let m = match &k { EdgeKind::Function(s) => h.add_node_with_parent(root, ops::FuncDecl::new(format!("again{}", r.below(1 << 20)), s.clone())), _ => { let (m, _) = h.linked_outputs(n, p.as_incoming().unwrap()).next()?; m } };
            h.connect(m, 0, n, p.index()); format!("also {m} 0 to {n} {p}")
        }
        10 | 11 => { // an order edge
            let local = r.below(3) != 0;
            let a = at(r, h, &|o| o.other_output_port().is_some())?;
            let bs: Vec<Node> = h.nodes().filter(|b| h.get_optype(*b).other_input_port().is_some() && (!local || h.get_parent(*b) == h.get_parent(a) && *b != a)).collect();
            if bs.is_empty() { return None; }
            let b = *r.pick(&bs);
            if !order(h, a, b) { return None; }
            format!("order edge {a} to {b}")
        }
        12 => { let n = at(r, h, &|_| true)?; let d = *r.pick(&DIRS); let k = if r.bool() { 1 } else { -1 }; if k < 0 && h.num_ports(n, d) == 0 { return None; } h.add_ports(n, d, k); format!("{n} {k} {d:?} ports") }
        13 => { // another parent
            let n = at(r, h, &|o| !matches!(o, OpType::Module(_)))?;
            let ps: Vec<Node> = h.nodes().filter(|p| *p != n && !up(h, *p).contains(&n) && Some(*p) != h.get_parent(n)).collect();
            if ps.is_empty() { return None; }
            let p = *r.pick(&ps);
            h.set_parent(n, p); format!("{n} moved below {p}")
        }
        14 => { let n = at(r, h, &|_| true)?; h.set_entrypoint(n); format!("entrypoint {n}") }
        15 | 16 => { // names
            let fs: Vec<Node> = h.children(h.module_root()).filter(|n| matches!(h.get_optype(*n), OpType::FuncDecl(_) | OpType::FuncDefn(_))).collect();
            let (a, b) = (*r.pick(&fs), *r.pick(&fs));
            let (name, sig) = match h.get_optype(b) { OpType::FuncDecl(f) => (f.func_name().clone(), f.signature().clone()), OpType::FuncDefn(f) => (f.func_name().clone(), f.signature().clone()), _ => return None };
            let vis = if r.below(3) != 0 { Visibility::Public } else { Visibility::Private };
            let vb = if r.below(3) != 0 { Visibility::Public } else { Visibility::Private };
            match h.optype_mut(b) { OpType::FuncDecl(f) => *f.visibility_mut() = vb.clone(), OpType::FuncDefn(f) => *f.visibility_mut() = vb.clone(), _ => {} }
            if r.bool() {
                let m = h.module_root();
                for _ in 0..1 + r.below(3) { let s: PolyFuncType = if r.below(3) == 0 { Signature::new_endo(row(r)).into() } else { sig.clone() }; h.add_node_with_parent(m, ops::FuncDecl::new_vis(name.clone(), s, vis.clone())); }
            } else if a != b { match h.optype_mut(a) { OpType::FuncDecl(f) => { *f.func_name_mut() = name; *f.visibility_mut() = vis.clone(); } OpType::FuncDefn(f) => { *f.func_name_mut() = name; *f.visibility_mut() = vis.clone(); } _ => {} } }
            format!("a function {vis:?} named as {b} {vb:?}")
        }
        17 => { // parameters of the function
            let n = at(r, h, &|o| matches!(o, OpType::FuncDefn(f) if !f.signature().params().is_empty()))?;
            let OpType::FuncDefn(f) = h.get_optype(n).clone() else { return None };
            let mut ps = f.signature().params().to_vec();
            match r.below(3) { 0 => { ps.pop(); } 1 => ps.reverse(), _ => ps.push(TypeBound::Linear.into()) }
            h.replace_op(n, ops::FuncDefn::new(f.func_name().clone(), PolyFuncType::new(ps, f.signature().body().clone()))); format!("parameters of {n}")
        }
        18 => { // a parameter that shows in no port
            let n = at(r, h, &|o| matches!(o, OpType::DFG(_) | OpType::FuncDefn(_) | OpType::Case(_)))?;
            let m = h.module_root();
            let s = PolyFuncType::new(vec![TypeBound::Linear.into()], Signature::new_endo(TypeRow::new()));
            let f = h.add_node_with_parent(m, ops::FuncDecl::new(format!("phantom{}", r.below(1 << 20)), s.clone()));
            let i = r.below(4);
            let a: Type = if i == 3 { prelude::bool_t() } else { Type::new_var_use(i, *r.pick(&[TypeBound::Linear, TypeBound::Copyable])) };
            let c = if r.bool() { h.add_node_with_parent(n, ops::Call::try_new(s, vec![a.clone().into()]).ok()?) } else { h.add_node_with_parent(n, ops::LoadFunction::try_new(s, vec![a.clone().into()]).ok()?) };
            h.connect(f, 0, c, 0); format!("{c} applies a function to {a}")
        }
        19 | 20 => { // a constant and its load
            let n = at(r, h, &|o| inner(o).is_some())?;
            let ps: Vec<Node> = std::iter::once(n).chain(up(h, n)).collect();
            let c = if r.below(4) == 0 { at(r, h, &|o| inner(o).is_some() || matches!(o, OpType::CFG(_) | OpType::Module(_)))? } else { *r.pick(&ps) };
            let v = value(r); let t = if r.below(6) == 0 { prelude::usize_t() } else { v.get_type() };
            let k = h.add_node_with_parent(c, ops::Const::new(v));
            let l = h.add_node_with_parent(n, ops::LoadConstant { datatype: t.clone() });
            h.connect(k, 0, l, 0); format!("constant {k} in {c} loaded by {l} as {t}")
        }
        21 => { // a call that misstates what it calls
            let n = at(r, h, &|o| matches!(o, OpType::Call(_)))?;
            let OpType::Call(c) = h.get_optype(n).clone() else { return None };
            let mut d = c.clone();
            match r.below(3) { 0 => d.instantiation.output = near(r, &c.instantiation.output), 1 => { d.type_args.pop(); } _ => d.type_args.push(prelude::bool_t().into()) }
            if d == c { return None; }
            let e = format!("{n} {c:?} became {d:?}"); h.replace_op(n, d); e
        }
        22 => { // rows
            let n = at(r, h, &|o| matches!(o, OpType::DFG(_) | OpType::ExitBlock(_) | OpType::Input(_) | OpType::Output(_) | OpType::LoadConstant(_)))?;
            let was = h.get_optype(n).clone(); let mut op = was.clone();
            match &mut op { OpType::DFG(x) => x.signature.output = near(r, &x.signature.output), OpType::ExitBlock(x) => x.cfg_outputs = near(r, &x.cfg_outputs), OpType::Input(x) => x.types = near(r, &x.types), OpType::Output(x) => x.types = near(r, &x.types), OpType::LoadConstant(x) => x.datatype = ty(r, 0), _ => {} }
            if op == was { return None; }
            let e = format!("{n} became {op:?}"); if r.bool() { h.replace_op(n, op); } else { put(h, n, op); } e
        }
        _ => { // an operation in place of another
            let n = at(r, h, &|o| !matches!(o, OpType::Module(_)))?;
            let op: OpType = match r.below(5) { 0 => ops::Input::new(row(r)).into(), 1 => ops::Const::new(value(r)).into(), 2 => block(r), 3 => ops::FuncDecl::new("other", Signature::new_endo(row(r))).into(), _ => ops::AliasDecl::new("alias", TypeBound::Linear).into() };
            let e = format!("{n} became {op:?}"); put(h, n, op); e
        }
    })
}
/// a function with one control-flow graph of up to six blocks and any successors
fn flow_graph(r: &mut Rng) -> (Hugr, Vec<Node>) {
    let none = TypeRow::new();
    let mut b = B::new();
    let m = b.h.module_root();
    let f = b.h.add_node_with_parent(m, ops::FuncDefn::new("main", Signature::new_endo(none.clone())));
    b.h.add_node_with_parent(f, ops::Input::new(none.clone()));
    b.h.add_node_with_parent(f, ops::Output::new(none.clone()));
    let c = b.h.add_node_with_parent(f, ops::CFG { signature: Signature::new_endo(none.clone()) });
    let k = 2 + r.below(5);
    let mut blocks = vec![];
    let mut exit = None;
    for j in 0..k {
        let n = r.below(4);
        let op = ops::DataflowBlock { inputs: none.clone(), other_outputs: none.clone(), sum_rows: vec![none.clone(); n] };
        let (_, o) = inner(&op.clone().into()).unwrap();
        let x = b.h.add_node_with_parent(c, op);
        b.h.add_node_with_parent(x, ops::Input::new(none.clone()));
        let z = b.h.add_node_with_parent(x, ops::Output::new(o.clone()));
        let s = b.call(x, &none, &o);
        b.wire(s, z, 1);
        blocks.push((x, n));
        if j == 0 { exit = Some(b.h.add_node_with_parent(c, ops::ExitBlock { cfg_outputs: none.clone() })); }
    }
    let t: Vec<Node> = blocks.iter().map(|x| x.0).chain(exit).collect();
    for (x, n) in &blocks { for p in 0..*n { let y = *r.pick(&t); b.h.connect(*x, p, y, 0); } }
    (b.h, blocks.into_iter().map(|x| x.0).collect())
}
/// does the (accepted) graph have value edges from a sibling of an ancestor; from a dominating block?
fn far(h: &Hugr) -> (bool, bool) {
    let e = all_ports(h, Direction::Outgoing, &|_, k| matches!(k, EdgeKind::Value(_)));
    let mut r = (false, false);
    for (n, p, _) in e { for (m, _) in h.linked_ports(n, p) { if h.get_parent(n) != h.get_parent(m) { if sibling_above(h, n, m).is_some() { r.0 = true; } else { r.1 = true; } } } }
    r
}
fn r_eq(a: &EdgeKind, b: &EdgeKind) -> bool { std::mem::discriminant(a) == std::mem::discriminant(b) }

fn main() {
    let mut c = Ctx::from_env("V02");
    let mut r = c.rng.clone();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for _ in 0..c.n(1000, 30000) {
        PARAMS.with(|p| *p.borrow_mut() = match r.below(3) { 0 => vec![], 1 => vec![TypeBound::Copyable], _ => vec![TypeBound::Linear, TypeBound::Copyable] });
        let h = graph(&mut r);
        c.case("ruled_graph_accepted", || format!("{} nodes: {}", h.num_nodes(), h.nodes().map(|n| format!("{:?}", h.get_optype(n).tag())).collect::<Vec<_>>().join(" ")), || {
            if let Some(f) = fault(&h) { return Err(format!("the generator is wrong: {f}")); }
            match h.validate() { Ok(()) => Ok(()), Err(e) => Err(format!("refused: {e}")) } });
        for _ in 0..6 {
            let mut m = h.clone();
            let mut said = vec![];
            for _ in 0..1 + r.below(3) { if let Some(d) = change(&mut r, &mut m) { said.push(d); } if fault(&m).is_some() { break; } }
            if said.is_empty() { continue; }
            let f = fault(&m);
            if std::env::var("HX_SHOW").is_ok() { *kinds.entry(f.as_deref().unwrap_or("accepted").chars().filter(|x| !x.is_ascii_digit()).take(60).collect()).or_default() += 1; }
            let obl = if f.is_some() { "broken_rule_refused" } else { match far(&m) { (_, true) => "dominating_edge_accepted", (true, _) => "ordered_edge_accepted", _ => "kept_rules_accepted" } };
            c.case(obl, || format!("{}; {} nodes", said.join("; then "), m.num_nodes()), || {
                let got = m.validate();
                match (&f, got) {
                    (None, Ok(())) | (Some(_), Err(_)) => {}
                    (None, Err(e)) => return Err(format!("refused although every rule holds: {e}")),
                    (Some(f), Ok(())) => return Err(format!("accepted although {f}")),
                }
                ensure!(true, ""); Ok(())
            });
        }
    }
    PARAMS.with(|p| p.borrow_mut().clear());
    // control-flow graphs of any shape, with a value made in one block and used in (or nested in) another
    for _ in 0..c.n(2500, 60000) {
        let (h, blocks) = flow_graph(&mut r);
        let mut m = h.clone();
        let mut said = vec![];
        for _ in 0..1 + r.below(2) {
            let (i, j) = (r.below(blocks.len()), r.below(blocks.len()));
            let (mut a, mut b) = (blocks[i], blocks[j]);
            for _ in 0..r.below(3) { b = m.add_node_with_parent(b, ops::DFG { signature: Signature::new_endo(TypeRow::new()) }); m.add_node_with_parent(b, ops::Input::new(TypeRow::new())); m.add_node_with_parent(b, ops::Output::new(TypeRow::new())); }
            if r.below(6) == 0 { a = m.add_node_with_parent(a, ops::DFG { signature: Signature::new_endo(TypeRow::new()) }); m.add_node_with_parent(a, ops::Input::new(TypeRow::new())); m.add_node_with_parent(a, ops::Output::new(TypeRow::new())); }
            let k = m.add_node_with_parent(a, ops::Const::new(ops::Value::true_val()));
            let l = m.add_node_with_parent(a, ops::LoadConstant { datatype: prelude::bool_t() });
            let u = m.add_node_with_parent(b, prelude::Noop::new(prelude::bool_t()));
            m.connect(k, 0, l, 0); m.connect(l, 0, u, 0);
            said.push(format!("from block {i} to {} levels below block {j}", up(&m, u).iter().position(|x| *x == blocks[j]).unwrap()));
        }
        let f = fault(&m);
        let kids: Vec<Node> = h.children(h.get_parent(blocks[0]).unwrap()).collect();
        c.case(if f.is_some() { "undominated_edge_refused" } else { "dominating_edge_accepted" }, || format!("successors {:?} (child 1 is the exit); values {}", edges_between(&h, &kids).iter().map(|(a, _, b)| (*a, *b)).collect::<Vec<_>>(), said.join(", ")), || {
            match (&f, m.validate()) { (None, Err(e)) => Err(format!("refused although every rule holds: {e}")), (Some(f), Ok(())) => Err(format!("accepted although {f}")), _ => Ok(()) }
        });
    }
    for (k, n) in kinds { eprintln!("{n:6} {k}"); }
    PARAMS.with(|p| p.borrow_mut().clear());
    c.finish()
}
