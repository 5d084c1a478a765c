P = 'hugr-core/src/hugr/patch/'
HEAD = '''use hugr_core::builder::*;
use hugr_core::extension::prelude::{Noop, bool_t, usize_t};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::patch::{PatchVerification, consts::*, inline_call::*, insert_identity::*, outline_cfg::*, peel_loop::*, replace::*};
use hugr_core::hugr::views::SiblingSubgraph;
use hugr_core::ops::{self, OpType, Value, handle::NodeHandle};
use hugr_core::types::{Signature, Type, TypeRow};
use hugr_core::{Hugr, HugrView, Node};
#[allow(dead_code)] fn unused() { let _ = (Noop::new(bool_t()), usize_t(), Signature::new_endo(TypeRow::new()), Value::true_val()); let n: Option<Node> = None; n.map(|n| n.node()); let _: Option<(Hugr, Type, OpType, ops::Input, SiblingSubgraph)> = None; }
'''
seed('w01-call-order-preds', 'W01', 'inlining a call that has two order predecessors', 'inlining a call drops all but one of its order predecessors',
 [(P + 'inline_call.rs', 'for (src, srcp) in order_preds {', 'for (src, srcp) in order_preds.into_iter().take(1) {')],
 HEAD + '''fn main() {
    let mut mb = ModuleBuilder::new();
    let f = { let fb = mb.define_function("f", Signature::new_endo(vec![bool_t()])).unwrap(); let w = fb.input_wires(); fb.finish_with_outputs(w).unwrap() };
    let mut fb = mb.define_function("g", Signature::new_endo(vec![bool_t()])).unwrap();
    let [w] = fb.input_wires_arr();
    let a = fb.add_dataflow_op(Noop::new(bool_t()), [w]).unwrap();
    let b = fb.add_dataflow_op(Noop::new(bool_t()), [w]).unwrap();
    let c = fb.call(f.handle(), &[], [w]).unwrap();
    fb.set_order(&a, &c);
    fb.set_order(&b, &c);
    let o = c.outputs();
    fb.finish_with_outputs(o).unwrap();
    let mut h = mb.finish_hugr().unwrap();
    h.apply_patch(InlineCall::new(c.node())).unwrap();
    h.validate().unwrap();
    let p = h.get_optype(c.node()).other_input_port().unwrap();
    let preds: Vec<_> = h.linked_outputs(c.node(), p).map(|x| x.0).collect();
    assert!(preds.len() == 2 && preds.contains(&a.node()) && preds.contains(&b.node()));
}''')
seed('w01-outline-branches', 'W01', 'outlining blocks whose entry is reached by two branches of one block outside', 'only one of two branches into the outlined blocks is redirected: the graph is no longer valid',
 [(P + 'outline_cfg.rs', '''            .linked_outputs(entry, h.node_inputs(entry).exactly_one().ok().unwrap())
            .collect();''', '''            .linked_outputs(entry, h.node_inputs(entry).exactly_one().ok().unwrap())
            .unique_by(|(pred, _)| *pred)
            .collect();''')],
 HEAD + '''fn main() {
    let mut cb = CFGBuilder::new(Signature::new(vec![bool_t()], vec![])).unwrap();
    let eb = cb.simple_entry_builder(vec![].into(), 2).unwrap();
    let [w] = eb.input_wires_arr();
    let e = eb.finish_with_outputs(w, []).unwrap();
    let block = |cb: &mut CFGBuilder<Hugr>| { let mut b = cb.simple_block_builder(Signature::new_endo(vec![]), 1).unwrap(); let u = b.add_load_value(Value::unary_unit_sum()); b.finish_with_outputs(u, []).unwrap() };
    let (x, y) = (block(&mut cb), block(&mut cb));
    let exit = cb.exit_block();
    cb.branch(&e, 0, &x).unwrap();
    cb.branch(&e, 1, &x).unwrap();
    cb.branch(&x, 0, &y).unwrap();
    cb.branch(&y, 0, &exit).unwrap();
    let mut h = cb.finish_hugr().unwrap();
    let [nb, _] = h.apply_patch(OutlineCfg::new([x.node(), y.node()])).unwrap();
    h.validate().unwrap();
    assert_eq!(h.linked_outputs(nb, 0).count(), 2);
}''')
seed('w01-peel-narrow', 'W01', 'peeling a loop which takes more values in than it gives out', 'the peeled loop lacks the wires to its last inputs',
 [(P + 'peel_loop.rs', '''        for p in 0..loop_in.len() {
            h.connect(ctn_in, p, new_loop, p);''', '''        for p in 0..loop_in.len().min(loop_out.len() + 1) {
            h.connect(ctn_in, p, new_loop, p);''')],
 HEAD + '''fn main() {
    let mut fb = FunctionBuilder::new("f", Signature::new(vec![bool_t(), usize_t()], vec![])).unwrap();
    let [a, b] = fb.input_wires_arr();
    let tl = {
        let mut tb = fb.tail_loop_builder([(bool_t(), a), (usize_t(), b)], [], TypeRow::new()).unwrap();
        let [x, y] = tb.input_wires_arr();
        let c = tb.make_continue(tb.loop_signature().unwrap().clone(), [x, y]).unwrap();
        tb.finish_with_outputs(c, []).unwrap()
    };
    let mut h = fb.finish_hugr_with_outputs([]).unwrap();
    h.apply_patch(PeelTailLoop::new(tl.node())).unwrap();
    h.validate().unwrap();
}''')
seed('w01-empty-wire-fanout', 'W01', 'replacing a subgraph by an empty wire when the value replaced has several consumers', 'only the first consumer of a value replaced by an empty wire is connected to it',
 [(P + 'simple_replace.rs', '''            .flat_map(|(host_np, subg_all)| subg_all.map(move |subg_np| (host_np, subg_np)))''', '''            .flat_map(|(host_np, subg_all)| subg_all.take(2).map(move |subg_np| (host_np, subg_np)))''')],
 HEAD + '''fn main() {
    let mut fb = FunctionBuilder::new("f", Signature::new(vec![bool_t()], vec![bool_t(); 3])).unwrap();
    let [a] = fb.input_wires_arr();
    let n = fb.add_dataflow_op(Noop::new(bool_t()), [a]).unwrap();
    let [b] = n.outputs_arr();
    let mut h = fb.finish_hugr_with_outputs([b, b, b]).unwrap();
    let s = SiblingSubgraph::try_from_nodes([n.node()], &h).unwrap();
    let r = { let d = DFGBuilder::new(Signature::new_endo(vec![bool_t()])).unwrap(); let w = d.input_wires(); d.finish_hugr_with_outputs(w).unwrap() };
    let r = s.create_simple_replacement(&h, r).unwrap();
    h.apply_patch(r).unwrap();
    h.validate().unwrap();
    let [i, _] = h.get_io(h.entrypoint()).unwrap();
    assert_eq!(h.linked_inputs(i, 0).count(), 3);
}''')
seed('w01-identity-outer', 'W01', 'inserting an identity on a wire from an enclosing region', 'the identity is placed in the region of the source of the wire instead of the one of the target',
 [(P + 'insert_identity.rs', '''        h.disconnect(self.post_node, self.post_port);
        let new_node''', '''        let parent = h.get_parent(pre_node).unwrap_or(parent);
        h.disconnect(self.post_node, self.post_port);
        let new_node''')],
 HEAD + '''fn main() {
    let mut fb = FunctionBuilder::new("f", Signature::new_endo(vec![bool_t()])).unwrap();
    let [a] = fb.input_wires_arr();
    let (d, n) = {
        let mut db = fb.dfg_builder(Signature::new(vec![], vec![bool_t()]), []).unwrap();
        let n = db.add_dataflow_op(Noop::new(bool_t()), [a]).unwrap();
        let [b] = n.outputs_arr();
        (db.finish_with_outputs([b]).unwrap(), n)
    };
    let [b] = d.outputs_arr();
    let mut h = fb.finish_hugr_with_outputs([b]).unwrap();
    let x = h.apply_patch(IdentityInsertion::new(n.node(), 0.into())).unwrap();
    h.validate().unwrap();
    assert_eq!(h.get_parent(x), Some(d.node()));
}''')
seed('w01-replace-places', 'W01', 'replacing two nodes with nodes whose place among their siblings matters: the entry and the exit of a control-flow graph with another block', 'the second node of a replacement goes to the end of the region instead of the place of the second node removed',
 [(P + 'replace.rs', 'let mut remove_top_sibs = self.removal.iter();', 'let mut remove_top_sibs = self.removal.iter().take(1);')],
 HEAD + '''fn main() {
    let mk = |third: bool| {
        let mut cb = CFGBuilder::new(Signature::new_endo(vec![])).unwrap();
        let block = |b: BlockBuilder<&mut Hugr>| { let mut b = b; let u = b.add_load_value(Value::unary_unit_sum()); b.finish_with_outputs(u, []).unwrap() };
        let e = block(cb.simple_entry_builder(vec![].into(), 1).unwrap());
        let exit = cb.exit_block();
        if third { let x = block(cb.simple_block_builder(Signature::new_endo(vec![]), 1).unwrap()); cb.branch(&e, 0, &x).unwrap(); cb.branch(&x, 0, &exit).unwrap(); } else { cb.branch(&e, 0, &exit).unwrap(); }
        cb.finish_hugr().unwrap()
    };
    let mut h = mk(true);
    let kids: Vec<Node> = h.children(h.entrypoint()).collect();
    let rep = mk(false);
    let rk: Vec<Node> = rep.children(rep.entrypoint()).collect();
    let spec = |src, tgt| NewEdgeSpec { src, tgt, kind: NewEdgeKind::ControlFlow { src_pos: 0.into() } };
    let mut rep = rep;
    rep.disconnect(rk[0], hugr_core::OutgoingPort::from(0));
    let r = Replacement { removal: vec![kids[0], kids[1]], replacement: rep, adoptions: Default::default(), mu_inp: vec![spec(kids[2], rk[1])], mu_out: vec![spec(rk[0], kids[2])], mu_new: vec![] };
    h.apply_patch(r).unwrap();
    h.validate().unwrap();
}''')
seed('w01-remove-load-ordered', 'W01', 'removing a load whose value is used by one node through two links', 'a load is removed while its value is used',
 [(P + 'consts.rs', '''        if h.linked_inputs(node, p).next().is_some() {''', '''        if h.linked_inputs(node, p).map(|x| x.0).collect::<std::collections::BTreeSet<_>>().len() > 1 || h.single_linked_input(node, p).is_some() {''')],
 HEAD + '''fn main() {
    let mut fb = FunctionBuilder::new("f", Signature::new(vec![], vec![bool_t(); 2])).unwrap();
    let a = fb.add_load_value(Value::true_val());
    let h0 = fb.finish_hugr_with_outputs([a, a]).unwrap();
    let mut h = h0.clone();
    let r = RemoveLoadConstant(a.node());
    assert!(r.verify(&h).is_err());
    assert!(h.apply_patch(r).is_err());
    h.validate().unwrap();
}''')
