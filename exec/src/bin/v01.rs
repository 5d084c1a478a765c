//! V01: executable contracts of the per-container checks on children, alone and through whole-graph validation.
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::validate::{ChildrenEdgeData, OpValidityFlags};
use hugr_core::ops::{self, dataflow::IOTrait, OpTag, OpTrait, OpType, ValidateOp};
use hugr_core::types::{EdgeKind, Signature, TypeRow};
use hugr_core::{Direction, Hugr, HugrView, Node, NodeIndex, Port};
use hx::generators as g;
use hx::graphs::*;
use hx::{Ctx, Rng, ensure};

fn node(i: usize) -> Node { serde_node(i) }
fn serde_node(i: usize) -> Node { serde_json::from_value(serde_json::json!(i)).unwrap() }

fn container(r: &mut Rng) -> OpType {
    loop { let o = g::op(r); if inner(&o).is_some() || matches!(o, OpType::CFG(_) | OpType::Conditional(_)) { return o; } }
}
fn leaf(r: &mut Rng) -> OpType {
    match r.below(5) {
        0 => ops::Input::new(row(r)).into(), 1 => ops::Output::new(row(r)).into(),
        2 => ops::LoadConstant { datatype: ty(r, 1) }.into(),
        3 => ops::DFG { signature: Signature::new(row(r), row(r)) }.into(),
        _ => ops::CallIndirect { signature: Signature::new(row(r), row(r)) }.into(),
    }
}
/// children that satisfy the kind checks made before (allowed, first and second kind), rows right or wrong
fn children(r: &mut Rng, op: &OpType) -> Vec<OpType> {
    let mut v: Vec<OpType> = vec![];
    if let Some((i, o)) = inner(op) {
        v.push(ops::Input::new(near(r, &i)).into());
        v.push(ops::Output::new(near(r, &o)).into());
        for _ in 0..r.below(4) { let mut l = leaf(r); if r.below(3) != 0 { while matches!(l, OpType::Input(_) | OpType::Output(_)) { l = leaf(r); } } v.push(l); }
    } else if let OpType::CFG(c) = op {
        let OpType::DataflowBlock(mut b) = block(r) else { unreachable!() };
        b.inputs = near(r, &c.signature.input);
        v.push(b.into());
        v.push(ops::ExitBlock { cfg_outputs: near(r, &c.signature.output) }.into());
        for _ in 0..r.below(4) { v.push(if r.below(5) == 0 { ops::ExitBlock { cfg_outputs: if r.bool() { c.signature.output.clone() } else { row(r) } }.into() } else if r.below(4) == 0 { ops::Const::new(ops::Value::unit()).into() } else { block(r) }); }
    } else if let OpType::Conditional(c) = op {
        let rows = c.sum_rows.clone();
        for s in &rows {
            let i = cat(s, &c.other_inputs);
            v.push(ops::Case { signature: Signature::new(near(r, &i), near(r, &c.outputs)) }.into());
        }
        match r.below(8) {
            0 => { v.pop(); }
            1 => { let i = cat(&row(r), &c.other_inputs); v.push(ops::Case { signature: Signature::new(i, c.outputs.clone()) }.into()); }
            2 => v.reverse(),
            _ => {}
        }
        if v.is_empty() { v.push(ops::Case { signature: Signature::new(c.other_inputs.clone(), c.outputs.clone()) }.into()); }
    }
    v
}

/// makes one change after which some container does not have its prescribed shape; says what it did
fn damage(r: &mut Rng, h: &mut Hugr) -> Option<String> {
    use hugr_core::hugr::internal::HugrMutInternals;
    let all: Vec<Node> = h.nodes().collect();
    let pick = |r: &mut Rng, f: &dyn Fn(&OpType) -> bool| -> Option<Node> { let v: Vec<Node> = all.iter().copied().filter(|n| f(h.get_optype(*n))).collect(); if v.is_empty() { None } else { Some(*r.pick(&v)) } };
    let is_cont = |o: &OpType| inner(o).is_some() || matches!(o, OpType::CFG(_) | OpType::Conditional(_));
    Some(match r.below(15) {
        0 => { let n = pick(r, &is_cont)?; let cs: Vec<Node> = h.children(n).collect(); if cs.is_empty() { return None; } for c in cs { h.remove_subtree(c); } format!("removed all children of {n}") }
        1 => {
            let n = pick(r, &|o| inner(o).is_some() || matches!(o, OpType::CFG(_)))?; let cs: Vec<Node> = h.children(n).collect(); if cs.len() < 2 { return None; }
            let keep = r.below(2); for (k, c) in cs.iter().enumerate() { if k != keep { h.remove_subtree(*c); } }
            format!("kept only child {keep} of {n}")
        }
        2 => { let n = pick(r, &|o| inner(o).is_some())?; let op: OpType = if r.bool() { ops::Input::new(TypeRow::new()).into() } else { ops::Output::new(TypeRow::new()).into() }; h.add_node_with_parent(n, op.clone()); format!("added another {op:?} to {n}") }
        3 => { let n = pick(r, &|o| matches!(o, OpType::CFG(_)))?; let OpType::CFG(c) = h.get_optype(n).clone() else { return None }; h.add_node_with_parent(n, ops::ExitBlock { cfg_outputs: c.signature.output.clone() }); format!("added another exit to {n}") }
        4 => { let n = pick(r, &|o| matches!(o, OpType::Case(_)))?; let p = h.get_parent(n)?; if h.children(p).count() < 2 { return None; } h.remove_subtree(n); format!("removed a case of {p}") }
        5 => {
            let n = pick(r, &|o| matches!(o, OpType::Case(_)))?; let p = h.get_parent(n)?;
            let OpType::Conditional(c) = h.get_optype(p).clone() else { return None };
            let mut b = B { h: std::mem::take(h), fresh: 10_000 };
            let k = r.below(c.sum_rows.len());
            let ci = cat(&c.sum_rows[k], &c.other_inputs);
            let cn = b.h.add_node_with_parent(p, ops::Case { signature: Signature::new(ci.clone(), c.outputs.clone()) });
            b.region(r, cn, &ci, &c.outputs, 0);
            *h = b.h;
            format!("one case more than variants in {p}")
        }
        6 => { // swap two cases with different rows
            let p = pick(r, &|o| matches!(o, OpType::Conditional(c) if c.sum_rows.len() >= 2 && c.sum_rows[0] != c.sum_rows[1]))?;
            let cs: Vec<Node> = h.children(p).collect();
            HugrMutInternals::move_before_sibling(h, cs[1], cs[0]); format!("swapped the first two cases of {p}")
        }
        7 => { // exit or output first
            let p = pick(r, &|o| inner(o).is_some() || matches!(o, OpType::CFG(_)))?; let cs: Vec<Node> = h.children(p).collect(); if cs.len() < 2 { return None; }
            HugrMutInternals::move_before_sibling(h, cs[1], cs[0]); format!("second child of {p} moved to the front")
        }
        8 => { // second child not in its place
            let p = pick(r, &|o| inner(o).is_some() || matches!(o, OpType::CFG(_)))?; let cs: Vec<Node> = h.children(p).collect(); if cs.len() < 3 { return None; }
            HugrMutInternals::move_after_sibling(h, cs[1], cs[2]); format!("second child of {p} moved behind the third")
        }
        9 => { // wrong kind of child
            let n = pick(r, &|o| matches!(o, OpType::DataflowBlock(_) | OpType::ExitBlock(_) | OpType::Case(_) | OpType::Input(_) | OpType::Output(_) | OpType::Call(_)))?;
            let was = h.get_optype(n).clone();
            let op: OpType = match r.below(6) {
                0 => ops::Module::default().into(),
                1 => { if matches!(was, OpType::Case(_)) { return None; } ops::Case { signature: Signature::new(row(r), row(r)) }.into() }
                2 => { if matches!(was, OpType::DataflowBlock(_)) { return None; } ops::ExitBlock { cfg_outputs: row(r) }.into() }
                3 => { if matches!(was, OpType::DataflowBlock(_)) { return None; } block(r) }
                4 => { if matches!(was, OpType::Call(_)) { return None; } ops::LoadConstant { datatype: ty(r, 1) }.into() }
                _ => { if matches!(was, OpType::Case(_) | OpType::Call(_)) { return None; } ops::DFG { signature: Signature::new(row(r), row(r)) }.into() }
            };
            if was.tag() == op.tag() { return None; }
            let d = format!("{n} {} became {}", was.tag(), op.tag());
            if r.bool() { put(h, n, op) } else { HugrMutInternals::replace_op(h, n, op); }
            d
        }
        10 => { // other rows of an input, output, exit, case or block
            let n = pick(r, &|o| matches!(o, OpType::ExitBlock(_) | OpType::Case(_) | OpType::Input(_) | OpType::Output(_) | OpType::DataflowBlock(_)))?;
            let was = h.get_optype(n).clone();
            let mut op = was.clone();
            match &mut op {
                OpType::Input(x) => x.types = near(r, &x.types), OpType::Output(x) => x.types = near(r, &x.types),
                OpType::ExitBlock(x) => x.cfg_outputs = near(r, &x.cfg_outputs),
                OpType::Case(x) => { x.signature.input = near(r, &x.signature.input); x.signature.output = near(r, &x.signature.output); }
                OpType::DataflowBlock(x) => { x.inputs = near(r, &x.inputs); x.other_outputs = near(r, &x.other_outputs); }
                _ => {}
            }
            if was == op { return None; }
            let d = format!("{n} {was:?} became {op:?}");
            put(h, n, op); d
        }
        12 => { // the exit leads somewhere
            let n = pick(r, &|o| matches!(o, OpType::ExitBlock(_)))?;
            let p = h.get_parent(n)?;
            let t: Vec<Node> = h.children(p).filter(|x| !matches!(h.get_optype(*x), OpType::Const(_))).collect();
            let t = *r.pick(&t);
            h.add_ports(n, Direction::Outgoing, 1);
            h.connect(n, 0, t, 0);
            format!("the exit {n} leads to {t}")
        }
        13 => { // an edge of a control-flow graph to or from a constant among its blocks
            let n = pick(r, &|o| matches!(o, OpType::DataflowBlock(_)))?;
            let p = h.get_parent(n)?;
            let k = h.add_node_with_parent(p, ops::Const::new(ops::Value::unit()));
            let dir = if r.bool() { Direction::Incoming } else { Direction::Outgoing };
            if dir == Direction::Incoming {
                h.add_ports(k, dir, 1);
                let j = h.add_ports(n, Direction::Outgoing, 1).start;
                h.connect(n, j as usize, k, 0);
            } else { h.connect(k, 0, n, 0); }
            format!("an edge between the block {n} and the constant {k}")
        }
        11 => { // an order cycle
            let n = pick(r, &|o| inner(o).is_some())?; let cs: Vec<Node> = h.children(n).skip(2).collect(); if cs.is_empty() { return None; }
            let (a, b) = (*r.pick(&cs), *r.pick(&cs));
            h.add_other_edge(a, b); h.add_other_edge(b, a);
            format!("order edges {a} to {b} and back")
        }
        _ => { // another target for a control-flow edge
            let n = pick(r, &|o| matches!(o, OpType::DataflowBlock(b) if !b.sum_rows.is_empty()))?;
            let OpType::DataflowBlock(b) = h.get_optype(n).clone() else { return None };
            let k = r.below(b.sum_rows.len());
            let want = cat(&b.sum_rows[k], &b.other_outputs);
            let p = h.get_parent(n)?;
            let t: Vec<Node> = h.children(p).filter(|c| match h.get_optype(*c) { OpType::DataflowBlock(x) => x.inputs != want, OpType::ExitBlock(x) => x.cfg_outputs != want, _ => false }).collect();
            if t.is_empty() { return None; }
            let t = *r.pick(&t);
            h.disconnect(n, Port::new(Direction::Outgoing, k)); h.connect(n, k, t, 0);
            format!("edge {k} of {n} leads to {t} with another row")
        }
    })
}

fn main() {
    let mut c = Ctx::from_env("V01");
    let mut r = c.rng.clone();
    // the kinds each container prescribes
    for _ in 0..c.n(2000, 20000) {
        let op = g::op(&mut r);
        c.case("prescribed_kinds", || format!("{op:?}").chars().take(200).collect(), || {
            let f: OpValidityFlags<Node> = op.validity_flags();
            let want = if inner(&op).is_some() { (OpTag::DataflowChild, OpTag::Input, OpTag::Output, true, true, false) } else { match &op {
                OpType::CFG(_) => (OpTag::ControlFlowChild, OpTag::DataflowBlock, OpTag::BasicBlockExit, true, false, true),
                OpType::Conditional(_) => (OpTag::Case, OpTag::Any, OpTag::Any, true, false, false),
                OpType::Module(_) => (OpTag::ModuleOp, OpTag::Any, OpTag::Any, false, false, false),
                _ => (OpTag::None, OpTag::Any, OpTag::Any, false, false, false),
            } };
            let got = (f.allowed_children, f.allowed_first_child, f.allowed_second_child, f.requires_children, f.requires_dag, f.edge_check.is_some());
            ensure!(got == want, "{got:?} instead of {want:?}"); Ok(()) });
    }
    for _ in 0..c.n(20000, 300000) {
        let op = container(&mut r);
        let ch = children(&mut r, &op);
        let bad = wrong(&op, &ch).unwrap();
        c.case(if bad.is_empty() { "right_children_accepted" } else { "wrong_children_refused" }, || format!("{op:?} with {ch:?}").chars().take(600).collect(), || {
            let l: Vec<(Node, &OpType)> = ch.iter().enumerate().map(|(i, o)| (node(i + 10), o)).collect();
            match op.validate_op_children(l.into_iter()) {
                Ok(()) => ensure!(bad.is_empty(), "accepted, although the children at {bad:?} are wrong"),
                Err(e) => { ensure!(!bad.is_empty(), "refused: {e}"); ensure!(bad.contains(&(e.child().index() - 10)), "blames the child at {}, wrong are {bad:?}", e.child().index() - 10); }
            }
            Ok(())
        });
    }
    // control-flow edges
    for _ in 0..c.n(10000, 100000) {
        let OpType::DataflowBlock(mut s) = block(&mut r) else { continue };
        if s.sum_rows.is_empty() { s.sum_rows.push(row(&mut r)); }
        let k = r.below(s.sum_rows.len());
        let out = cat(&s.sum_rows[k], &s.other_outputs);
        let other = r.below(s.sum_rows.len());
        let t = match r.below(4) { 0 => near(&mut r, &out), 1 => cat(&s.sum_rows[other], &s.other_outputs), 2 => near(&mut r, &s.other_outputs), _ => out.clone() };
        let OpType::DataflowBlock(mut tb) = block(&mut r) else { continue };
        tb.inputs = t.clone();
        let target: OpType = if r.bool() { tb.into() } else { ops::ExitBlock { cfg_outputs: t.clone() }.into() };
        let source: OpType = s.clone().into();
        c.case("control_flow_edge", || format!("{source:?} successor {k} to {target:?}").chars().take(500).collect(), || {
            let f: OpValidityFlags<Node> = OpType::from(ops::CFG { signature: Signature::new_endo(TypeRow::new()) }).validity_flags();
            let e = ChildrenEdgeData { source: node(5), target: node(6), source_op: source.clone(), target_op: target.clone(), source_port: Port::new(Direction::Outgoing, k), target_port: Port::new(Direction::Incoming, 0) };
            let got = (f.edge_check.unwrap())(e).is_ok();
            ensure!(got == (t == out), "accepted: {got}; the row to successor {k} is {out}, the target takes {t}"); Ok(())
        });
    }
    // whole graphs
    for _ in 0..c.n(1500, 20000) {
        let h = graph(&mut r);
        c.case("right_graph_accepted", || format!("{} nodes: {}", h.num_nodes(), h.nodes().map(|n| format!("{:?}", h.get_optype(n).tag())).collect::<Vec<_>>().join(" ")), || {
            match h.validate() { Ok(()) => Ok(()), Err(e) => Err(format!("refused: {e}")) } });
        for _ in 0..4 {
            let mut m = h.clone();
            let mut q = Rng(r.next());
            let Some(d) = damage(&mut q, &mut m) else { continue };
            let obl = if d.contains(" became ") && d.contains("Node(") && !d.contains("types") && !d.contains("{") { "wrong_kind_refused" } else if d.starts_with("kept only") { "single_child_refused" } else { "wrong_graph_refused" };
            c.case(obl, || format!("{d}; {} nodes", m.num_nodes()), || { ensure!(m.validate().is_err(), "accepted"); Ok(()) });
        }
    }
    let _ = EdgeKind::ControlFlow;
    c.finish()
}
