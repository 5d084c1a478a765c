C = 'hugr-core/src/'
V = C + 'hugr/validate.rs'
HEAD = '''use hugr_core::extension::prelude::{Noop, bool_t};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::{self, Value, dataflow::IOTrait};
use hugr_core::types::{PolyFuncType, Signature, TypeBound, Type, TypeRow};
use hugr_core::{Hugr, HugrView, Node, Visibility};
#[allow(dead_code)] fn region(h: &mut Hugr, p: Node, i: usize, o: usize) -> (Node, Node) { (h.add_node_with_parent(p, ops::Input::new(vec![bool_t(); i])), h.add_node_with_parent(p, ops::Output::new(vec![bool_t(); o]))) }
#[allow(dead_code)] fn dfg(h: &mut Hugr, p: Node, i: usize) -> Node { let n = h.add_node_with_parent(p, ops::DFG { signature: Signature::new(vec![bool_t(); i], vec![]) }); region(h, n, i, 0); n }
#[allow(dead_code)] fn load(h: &mut Hugr, p: Node) -> Node { let k = h.add_node_with_parent(p, ops::Const::new(Value::true_val())); let l = h.add_node_with_parent(p, ops::LoadConstant { datatype: bool_t() }); h.connect(k, 0, l, 0); l }
#[allow(dead_code)] fn unused() { let _: (Option<PolyFuncType>, Option<TypeBound>, Option<Type>, Option<TypeRow>, Option<Visibility>) = (None, None, None, None, None); let _ = Noop::new(bool_t()); }
#[allow(dead_code)] fn main_fn(h: &mut Hugr) -> Node { let m = h.module_root(); let f = h.add_node_with_parent(m, ops::FuncDefn::new("main", Signature::new_endo(TypeRow::new()))); region(h, f, 0, 0); f }
'''
seed('v02-any-connection-orders', 'V02', 'a value used below a sibling that also takes a value from the same node directly, without an order edge', 'an edge into a nested region is accepted without an order edge when some other edge joins the two nodes',
 [(V, '''.find(|&[p, _]| from_optype.port_kind(p) == Some(EdgeKind::StateOrder))''', '''.find(|&[p, _]| {
                            matches!(
                                from_optype.port_kind(p),
                                Some(EdgeKind::StateOrder | EdgeKind::Value(_))
                            )
                        })''')],
 HEAD + '''fn main() {
    for direct in [false, true] { for order in [false, true] {
        let mut h = Hugr::new();
        let f = main_fn(&mut h);
        let l = load(&mut h, f);
        let d = dfg(&mut h, f, direct as usize);
        let n = h.add_node_with_parent(d, Noop::new(bool_t()));
        h.connect(l, 0, n, 0);
        if direct { h.connect(l, 0, d, 0); }
        if order { h.add_other_edge(l, d); }
        assert_eq!(h.validate().is_ok(), order, "direct value edge: {direct}, order edge: {order}");
    } }
}''')
seed('v02-order-edge-first', 'V02', 'a sibling that takes a value and is ordered after the same node, and uses another of its values inside', 'a graph with the required order edge is refused when a value edge between the two nodes comes first',
 [(V, '''.find(|&[p, _]| from_optype.port_kind(p) == Some(EdgeKind::StateOrder))''', '''.next()
                        .filter(|&[p, _]| from_optype.port_kind(p) == Some(EdgeKind::StateOrder))''')],
 HEAD + '''fn main() {
    for direct in [false, true] { for order in [false, true] {
        let mut h = Hugr::new();
        let f = main_fn(&mut h);
        let l = load(&mut h, f);
        let d = dfg(&mut h, f, direct as usize);
        let n = h.add_node_with_parent(d, Noop::new(bool_t()));
        h.connect(l, 0, n, 0);
        if direct { h.connect(l, 0, d, 0); }
        if order { h.add_other_edge(l, d); }
        assert_eq!(h.validate().is_ok(), order, "direct value edge: {direct}, order edge: {order}");
    } }
}''')
seed('v02-ancestors-limit', 'V02', 'a constant used six regions below the one that defines it', 'edges from far ancestors are refused',
 [(V, '''iter::successors(to_parent, |&p| self.hugr.get_parent(p)).tuple_windows()''', '''iter::successors(to_parent, |&p| self.hugr.get_parent(p))
                .take(8)
                .tuple_windows()''')],
 HEAD + '''fn main() {
    for depth in 0..12 {
        let mut h = Hugr::new();
        let f = main_fn(&mut h);
        let k = h.add_node_with_parent(f, ops::Const::new(Value::true_val()));
        let mut p = f;
        for _ in 0..depth { p = dfg(&mut h, p, 0); }
        let l = h.add_node_with_parent(p, ops::LoadConstant { datatype: bool_t() });
        h.connect(k, 0, l, 0);
        assert!(h.validate().is_ok(), "a constant used {depth} regions below: {:?}", h.validate());
    }
}''')
seed('v02-three-sources', 'V02', 'an input port with exactly two sources, linked in one order', 'two sources of one input are accepted',
 [(V, '''if incoming_is_unique && links.nth(1).is_some()''', '''if incoming_is_unique && links.nth(2).is_some()''')],
 HEAD + '''fn main() {
    for n in 1..5 {
        let mut h = Hugr::new();
        let f = main_fn(&mut h);
        let u = h.add_node_with_parent(f, Noop::new(bool_t()));
        for _ in 0..n { let l = load(&mut h, f); h.connect(l, 0, u, 0); }
        assert_eq!(h.validate().is_ok(), n == 1, "{n} sources");
    }
}''')
seed('v02-decl-after-defn', 'V02', 'a public definition followed by a public declaration of the same name and signature', 'a declaration may repeat the name of an earlier definition',
 [(V, '''prev_sig != &sig || is_defn || *prev_defn''', '''prev_sig != &sig || is_defn''')],
 HEAD + '''fn main() {
    for order in [false, true] {
        let mut h = Hugr::new();
        let m = h.module_root();
        let sig = Signature::new_endo(TypeRow::new());
        if !order { h.add_node_with_parent(m, ops::FuncDecl::new_vis("f", sig.clone(), Visibility::Public)); }
        let f = h.add_node_with_parent(m, ops::FuncDefn::new_vis("f", sig.clone(), Visibility::Public));
        region(&mut h, f, 0, 0);
        if order { h.add_node_with_parent(m, ops::FuncDecl::new_vis("f", sig, Visibility::Public)); }
        assert!(h.validate().is_err(), "definition first: {order}");
    }
}''')
seed('v02-third-export', 'V02', 'three public declarations of one name, the third with another signature', 'the third function of a name is not compared with the others',
 [(V, '''                    if prev_sig != &sig || is_defn || *prev_defn {
                        return Err(ValidationError::DuplicateExport {
                            link_name: func_name.clone(),
                            children: [*prev_c, c],
                        });
                    };''', '''                    if prev_sig != &sig || is_defn || *prev_defn {
                        return Err(ValidationError::DuplicateExport {
                            link_name: func_name.clone(),
                            children: [*prev_c, c],
                        });
                    };
                    oe.remove();''')],
 HEAD + '''fn main() {
    for others in 0..5usize {
        let mut h = Hugr::new();
        let m = h.module_root();
        for _ in 0..others { h.add_node_with_parent(m, ops::FuncDecl::new_vis("f", Signature::new_endo(TypeRow::new()), Visibility::Public)); }
        h.add_node_with_parent(m, ops::FuncDecl::new_vis("f", Signature::new_endo(vec![bool_t()]), Visibility::Public));
        assert_eq!(h.validate().is_ok(), others == 0, "after {others} declarations of another signature");
    }
}''')
seed('v02-extra-ports', 'V02', 'a node with more ports than its operation has', 'a node with surplus ports is not reported (validation panics or accepts)',
 [(V, '''if num_ports != op_type.port_count(dir)''', '''if num_ports < op_type.port_count(dir)''')],
 HEAD + '''use hugr_core::hugr::internal::HugrMutInternals;
fn main() {
    for extra in 0..3isize { for dir in hugr_core::Direction::BOTH {
        let mut h = Hugr::new();
        let f = main_fn(&mut h);
        let l = load(&mut h, f);
        h.add_ports(l, dir, extra);
        let ok = std::panic::catch_unwind(|| h.validate().is_ok());
        assert_eq!(ok.ok(), Some(extra == 0), "{extra} extra {dir:?} ports");
    } }
}''')
seed('v02-const-in-scope', 'V02', 'a constant whose type mentions a parameter of the function around it', 'constants may have types that mention parameters of the enclosing function',
 [(V, '''EdgeKind::Const(ty) => ty.validate(&[]),''', '''EdgeKind::Const(ty) => ty.validate(var_decls),''')],
 HEAD + '''fn main() {
    for declared in [false, true] {
        let mut h = Hugr::new();
        let m = h.module_root();
        let ps: Vec<hugr_core::types::type_param::TypeParam> = if declared { vec![TypeBound::Copyable.into()] } else { vec![] };
        let f = h.add_node_with_parent(m, ops::FuncDefn::new("main", PolyFuncType::new(ps, Signature::new_endo(TypeRow::new()))));
        region(&mut h, f, 0, 0);
        // the first variant of a sum whose second variant mentions the parameter
        let s = hugr_core::types::SumType::new([vec![], vec![Type::new_var_use(0, TypeBound::Copyable)]]);
        let v = Value::sum(0, [], s.clone()).unwrap();
        let k = h.add_node_with_parent(f, ops::Const::new(v));
        let _ = k;
        assert!(h.validate().is_err(), "a constant of type {s} (declared: {declared})");
    }
}''')
seed('v02-linear-nonlocal', 'V02', 'a linear value made in one region and used in a nested one with an order edge', 'a linear value may leave its region',
 [(V, '''if !is_static && !matches!(&edge_kind, EdgeKind::Value(t) if t.copyable())''', '''if !is_static && !edge_kind.is_value()''')],
 HEAD + '''use hugr_core::extension::prelude::qb_t;
fn main() {
    for t in [bool_t(), qb_t()] {
        let mut h = Hugr::new();
        let m = h.module_root();
        let f = h.add_node_with_parent(m, ops::FuncDefn::new("main", Signature::new(vec![t.clone()], vec![t.clone()])));
        let i = h.add_node_with_parent(f, ops::Input::new(vec![t.clone()]));
        let o = h.add_node_with_parent(f, ops::Output::new(vec![t.clone()]));
        let d = h.add_node_with_parent(f, ops::DFG { signature: Signature::new(vec![], vec![t.clone()]) });
        region(&mut h, d, 0, 0);
        let z = h.children(d).nth(1).unwrap();
        use hugr_core::hugr::internal::HugrMutInternals;
        h.replace_op(z, ops::Output::new(vec![t.clone()]));
        h.set_num_ports(z, 2, 0);
        h.connect(i, 0, z, 0);
        h.add_other_edge(i, d);
        h.connect(d, 0, o, 0);
        assert_eq!(h.validate().is_ok(), t.copyable(), "{t}: {:?}", h.validate());
    }
}''')
seed('v02-unreachable-dominated', 'V02', 'a value used in a block that no path from the entry reaches', 'blocks that cannot be reached may use values of any other block',
 [(V, '''.is_some_and(|mut ds| ds.any(|n| n == node_map.to_portgraph(from_parent)))''', '''.is_none_or(|mut ds| ds.any(|n| n == node_map.to_portgraph(from_parent)))''')],
 HEAD + '''fn main() {
    for reached in [false, true] {
        let mut h = Hugr::new();
        let f = main_fn(&mut h);
        let c = h.add_node_with_parent(f, ops::CFG { signature: Signature::new_endo(TypeRow::new()) });
        let mut bs = vec![];
        for k in 0..2 {
            let b = h.add_node_with_parent(c, ops::DataflowBlock { inputs: TypeRow::new(), other_outputs: TypeRow::new(), sum_rows: vec![TypeRow::new(); 1] });
            let _ = h.add_node_with_parent(b, ops::Input::new(TypeRow::new()));
            let o = h.add_node_with_parent(b, ops::Output::new(vec![Type::new_unit_sum(1)]));
            let v = h.add_node_with_parent(b, ops::Const::new(Value::unit()));
            let l = h.add_node_with_parent(b, ops::LoadConstant { datatype: Type::new_unit_sum(1) });
            h.connect(v, 0, l, 0); h.connect(l, 0, o, 0);
            bs.push(b);
            if k == 0 { let x = h.add_node_with_parent(c, ops::ExitBlock { cfg_outputs: TypeRow::new() }); bs.push(x); }
        }
        let (e, x, b) = (bs[0], bs[1], bs[2]);
        if reached { h.connect(e, 0, b, 0); } else { h.connect(e, 0, x, 0); }
        h.connect(b, 0, x, 0);
        let l = load(&mut h, e);
        let n = h.add_node_with_parent(b, Noop::new(bool_t()));
        h.connect(l, 0, n, 0);
        assert_eq!(h.validate().is_ok(), reached, "{:?}", h.validate());
    }
}''')
