C = 'hugr-core/src/'
HM = C + 'hugr/hugrmut.rs'; HI = C + 'hugr/internal.rs'; HG = C + 'hugr.rs'; SE = C + 'hugr/serialize.rs'
HEAD = '''use hugr_core::extension::prelude::{Noop, bool_t, usize_t};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::ops::{self, dataflow::IOTrait, handle::NodeHandle};
use hugr_core::types::{Signature, Substitution, TypeRow};
use hugr_core::{Direction, Hugr, HugrView, Node, envelope::EnvelopeConfig};
#[allow(dead_code)] fn unused() { let _ = (Noop::new(bool_t()), usize_t(), Signature::new_endo(TypeRow::new())); let _: Option<(Direction, Substitution, EnvelopeConfig, ops::Input)> = None; let n: Option<Node> = None; n.map(|n| n.node()); let _ = ops::Input::new(TypeRow::new()); let mut h = Hugr::new(); let n = h.module_root(); h.set_num_ports(n, 0, 0); }
fn func(h: &mut Hugr) -> Node { let m = h.module_root(); h.add_node_with_parent(m, ops::FuncDefn::new("f", Signature::new_endo(TypeRow::new()))) }
'''
seed('h02-self-link', 'H02', 'inserting a node with a link from itself to itself, such as a block that branches to itself', 'a link from a node to itself is there twice after inserting the node into another graph',
 [(HM, '''                if neigh == old {
                    continue;
                }
''', '')],
 HEAD + '''fn main() {
    let mut o = Hugr::new();
    let f = func(&mut o);
    let c = o.add_node_with_parent(f, ops::CFG { signature: Signature::new_endo(TypeRow::new()) });
    let b = o.add_node_with_parent(c, ops::DataflowBlock { inputs: TypeRow::new(), other_outputs: TypeRow::new(), sum_rows: vec![TypeRow::new(), TypeRow::new()] });
    o.connect(b, 0, b, 0);
    let mut h = Hugr::new();
    let r = h.module_root();
    let m = h.insert_from_view(r, &o.with_entrypoint(f)).node_map;
    assert_eq!(h.linked_inputs(m[&b], 0).count(), 1);
    assert_eq!(h.linked_outputs(m[&b], 0).count(), 1);
}''')
seed('h02-insert-ports-repeated', 'H02', 'inserting ports before a port that has two links to the same port', 'inserting ports before a port merges repeated links of that port',
 [(HI, '''                .map(|(_, to_subport)| to_subport.port())
                .collect_vec();''', '''                .map(|(_, to_subport)| to_subport.port())
                .unique()
                .collect_vec();''')],
 HEAD + '''fn main() {
    let mut h = Hugr::new();
    let f = func(&mut h);
    let a = h.add_node_with_parent(f, Noop::new(bool_t()));
    let b = h.add_node_with_parent(f, Noop::new(bool_t()));
    h.connect(a, 0, b, 0);
    h.add_other_edge(a, b);
    h.add_other_edge(a, b);
    h.insert_ports(a, Direction::Outgoing, 1, 2);
    assert_eq!(h.linked_inputs(a, 0).count(), 1);
    assert_eq!(h.linked_inputs(a, 3).count(), 2);
}''')
seed('h02-canonicalize-chain', 'H02', 'a graph whose hierarchy order differs from its node numbering by a permutation with a cycle of at least three nodes', 'compacting a graph puts nodes in the wrong places',
 [(HG, '''            while position > source.index() {''', '''            if position > source.index() {''')],
 HEAD + '''fn main() {
    for n in 2..7usize {
        let mut h = Hugr::new();
        let m = h.module_root();
        let mut want = vec![];
        // each new function stands before the ones there are
        let mut first: Option<Node> = None;
        for i in 0..n {
            let o = ops::FuncDefn::new(format!("f{i}"), Signature::new_endo(TypeRow::new()));
            let x = match first { None => h.add_node_with_parent(m, o.clone()), Some(s) => if i % 2 == 0 { h.add_node_before(s, o.clone()) } else { h.add_node_after(s, o.clone()) } };
            h.set_metadata(x, "i", i);
            first = Some(x);
        }
        for c in h.children(m) { want.push((h.get_optype(c).clone(), h.get_metadata(c, "i").cloned())); }
        h.canonicalize_nodes(|_, _| {});
        let got: Vec<_> = h.children(h.module_root()).map(|c| (h.get_optype(c).clone(), h.get_metadata(c, "i").cloned())).collect();
        assert_eq!(got, want, "{n} functions");
        let nums: Vec<_> = h.children(h.module_root()).map(|c| hugr_core::NodeIndex::index(c)).collect();
        assert_eq!(nums, (1..n + 1).collect::<Vec<_>>());
    }
}''')
seed('h02-overlap-one-level', 'H02', 'inserting two regions one of which lies inside the other but is not its direct child', 'a region and a region deeper inside it are inserted together instead of being refused',
 [(HM, '''            let mut n = subtree;
            while let Some(parent) = other.get_parent(n) {''', '''            let n = subtree;
            if let Some(parent) = other.get_parent(n) {'''), (HM, '''                    return Err(InsertForestError::SubtreeAlreadyCopied { subtree, parent });
                }
                n = parent;''', '''                    return Err(InsertForestError::SubtreeAlreadyCopied { subtree, parent });
                }''')],
 HEAD + '''fn main() {
    for depth in 1..4 {
        let mut o = Hugr::new();
        let f = func(&mut o);
        let mut d = f;
        for _ in 0..depth { d = o.add_node_with_parent(d, ops::DFG { signature: Signature::new_endo(TypeRow::new()) }); }
        let mut h = Hugr::new();
        let r = h.module_root();
        let n = h.num_nodes();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.insert_forest(o, [(f, r), (d, r)]).is_err()));
        assert!(matches!(res, Ok(true)), "depth {depth}");
        assert_eq!(h.num_nodes(), n);
    }
}''')
seed('h02-copy-metadata-subst', 'H02', 'copying descendants with a substitution when they carry metadata', 'copies made with a substitution lose their metadata',
 [(HM, '''            let meta = self.metadata.get(node.into_portgraph()).clone();
            self.metadata.set(new_node.into_portgraph(), meta);
        }
        for''', '''            if subst.is_none() {
                let meta = self.metadata.get(node.into_portgraph()).clone();
                self.metadata.set(new_node.into_portgraph(), meta);
            }
        }
        for''')],
 HEAD + '''fn main() {
    for s in [false, true] {
        let mut h = Hugr::new();
        let f = func(&mut h);
        let a = h.add_node_with_parent(f, Noop::new(bool_t()));
        h.set_metadata(a, "k", 7);
        let g = func(&mut h);
        let subst = s.then(|| Substitution::new(&[]));
        let m = h.copy_descendants(f, g, subst);
        assert_eq!(h.get_metadata(m[&a], "k"), Some(&7.into()), "substitution: {s}");
    }
}''')
seed('h02-entrypoint-moved', 'H02', 'compacting a graph whose entrypoint has been displaced by an earlier swap', 'after compacting the entrypoint is another node, or compacting panics',
 [(HG, '''            // The (old) entrypoint appears exactly once in `ordered`:
            if source.into_portgraph() == self.entrypoint {
                let old = new_entrypoint.replace(pg_target);
                debug_assert!(old.is_none());
            }

''', ''), (HG, '''            let pg_source = source.into_portgraph();
            if pg_target != pg_source {
                self.graph''', '''            let pg_source = source.into_portgraph();
            if pg_source == self.entrypoint {
                new_entrypoint.get_or_insert(pg_target);
            }
            if pg_target != pg_source {
                self.graph'''), (HG, '''        self.entrypoint = new_entrypoint.unwrap();''', '''        self.entrypoint = new_entrypoint.unwrap_or(self.entrypoint);''')],
 HEAD + '''fn main() {
    for n in 2..7usize { for e in 0..n {
        let mut h = Hugr::new();
        let m = h.module_root();
        let mut v: Vec<Node> = vec![];
        for i in 0..n {
            let o = ops::FuncDefn::new(format!("f{i}"), Signature::new_endo(TypeRow::new()));
            let x = match v.last() { None => h.add_node_with_parent(m, o), Some(s) => if i % 2 == 0 { h.add_node_before(*s, o) } else { h.add_node_after(*s, o) } };
            v.push(x);
        }
        h.set_entrypoint(v[e]);
        let want = h.entrypoint_optype().clone();
        h.canonicalize_nodes(|_, _| {});
        assert_eq!(h.entrypoint_optype(), &want, "{n} functions, entrypoint {e}");
    } }
}''')
seed('s03-edges-once', 'S03', 'a graph with two links between the same two ports', 'repeated links are written once',
 [(SE, '''                            [src, tgt]
                        })
                    })
            })
            .collect();''', '''                            [src, tgt]
                        })
                    })
            })
            .collect::<std::collections::BTreeSet<_>>()
            .into_iter()
            .collect();''')],
 HEAD + '''fn main() {
    for k in 1..4 {
        let mut h = Hugr::new();
        let f = func(&mut h);
        let a = h.add_node_with_parent(f, Noop::new(bool_t()));
        let b = h.add_node_with_parent(f, Noop::new(bool_t()));
        h.set_metadata(a, "first", true);
        for _ in 0..k { h.add_other_edge(a, b); }
        let s = h.store_str(EnvelopeConfig::text()).unwrap();
        let g = Hugr::load_str(s, None).unwrap();
        let a = g.nodes().find(|n| g.get_metadata(*n, "first").is_some()).unwrap();
        assert_eq!(g.linked_inputs(a, 1).count(), k);
    }
}''')
seed('s03-root-metadata', 'S03', 'metadata on the module itself', 'the metadata of the module is not written',
 [(SE, '''            metadata[new_node].clone_from(hugr.metadata.get(n.into_portgraph()));''', '''            if parent.index() != new_node {
                metadata[new_node].clone_from(hugr.metadata.get(n.into_portgraph()));
            }''')],
 HEAD + '''fn main() {
    let mut h = Hugr::new();
    let f = func(&mut h);
    let m = h.module_root();
    h.set_metadata(m, "k", "module");
    h.set_metadata(f, "k", "function");
    let s = h.store_str(EnvelopeConfig::text()).unwrap();
    let g = Hugr::load_str(s, None).unwrap();
    assert_eq!(g.get_metadata(g.module_root(), "k"), Some(&"module".into()));
}''')
seed('s03-siblings-by-index', 'S03', 'siblings whose order differs from the order in which they were made', 'siblings are written in order of their numbers, so reading puts them in another order',
 [(HG, '''            for child in self.children(node) {
                queue.push_back(child);
            }''', '''            let mut children: Vec<_> = self.children(node).collect();
            children.sort();
            queue.extend(children);''')],
 HEAD + '''fn main() {
    let mut h = Hugr::new();
    let m = h.module_root();
    let mk = |i: usize| ops::FuncDefn::new(format!("f{i}"), Signature::new_endo(TypeRow::new()));
    let a = h.add_node_with_parent(m, mk(0));
    let b = h.add_node_before(a, mk(1));
    h.add_node_after(b, mk(2));
    let want: Vec<_> = h.children(m).map(|c| h.get_optype(c).clone()).collect();
    let s = h.store_str(EnvelopeConfig::text()).unwrap();
    let g = Hugr::load_str(s, None).unwrap();
    let got: Vec<_> = g.children(g.module_root()).map(|c| g.get_optype(c).clone()).collect();
    assert_eq!(got, want);
}''')
seed('s03-static-input-offset', 'S03', 'a call whose function has as many inputs as the position of the static port, with an order edge into the call', 'the position of the static port is written without offset when an operation also has an order port',
 [(SE, '''is_some_and(|p| p.index() == offset)''', '''is_some_and(|p| p.index() == offset && offset > 0)''')],
 HEAD + '''fn main() {
    let mut h = Hugr::new();
    let g = func(&mut h);
    let f = func(&mut h);
    let call = h.add_node_with_parent(f, ops::Call::try_new(hugr_core::types::PolyFuncType::from(Signature::new_endo(TypeRow::new())), []).unwrap());
    h.connect(g, 0, call, 0);
    let s = h.store_str(EnvelopeConfig::text()).unwrap();
    let h = Hugr::load_str(s, None).unwrap();
    let call = h.nodes().find(|n| h.get_optype(*n).is_call()).unwrap();
    assert!(h.static_source(call).is_some());
}''')
