//! H02: executable contracts of the graph edits (HugrMut and its internals on Hugr): every history of edits against a plain model.
use hugr_core::extension::prelude::{bool_t, usize_t};
use hugr_core::hugr::hugrmut::{HugrMut, InsertForestError};
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::ops::{self, OpType};
use hugr_core::types::{Signature, Type};
use hugr_core::{Direction, Hugr, HugrView, Node, NodeIndex, PortIndex};
use hx::{Ctx, Rng, ensure};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};

type Meta = BTreeMap<String, String>;
#[derive(Clone, Debug, PartialEq)]
struct N { op: OpType, meta: Meta, parent: Option<Node>, kids: Vec<Node>, ins: usize, outs: usize }
/// what a graph is: nodes with operation, metadata, place in the hierarchy and ports; links between ports; the module root and the entrypoint
#[derive(Clone, Debug, PartialEq)]
struct G { nodes: BTreeMap<Node, N>, links: Vec<(Node, usize, Node, usize)>, root: Node, entry: Node }

fn observe<H: HugrView<Node = Node>>(h: &H) -> Result<G, String> {
    let mut g = G { nodes: BTreeMap::new(), links: vec![], root: h.module_root(), entry: h.entrypoint() };
    let mut back = vec![];
    for n in h.nodes() {
        ensure!(h.contains_node(n), "{n} is listed and not contained");
        let meta = h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
        let old = g.nodes.insert(n, N { op: h.get_optype(n).clone(), meta, parent: h.get_parent(n), kids: h.children(n).collect(), ins: h.num_inputs(n), outs: h.num_outputs(n) });
        ensure!(old.is_none(), "{n} is listed twice");
        for p in h.node_outputs(n) { for (m, q) in h.linked_inputs(n, p) { g.links.push((n, p.index(), m, q.index())); } }
        for q in h.node_inputs(n) { for (m, p) in h.linked_outputs(n, q) { back.push((m, p.index(), n, q.index())); } }
    }
    ensure!(h.num_nodes() == g.nodes.len(), "num_nodes is {}, there are {}", h.num_nodes(), g.nodes.len());
    g.links.sort(); back.sort();
    ensure!(g.links == back, "links seen from the sources {:?}, from the targets {back:?}", g.links);
    Ok(g)
}
fn diff(want: &G, got: &G) -> Option<String> {
    if want == got { return None; }
    if want.root != got.root || want.entry != got.entry { return Some(format!("root/entrypoint {} {}, expected {} {}", got.root, got.entry, want.root, want.entry)); }
    let (a, b): (Vec<_>, Vec<_>) = (want.nodes.keys().collect(), got.nodes.keys().collect());
    if a != b { return Some(format!("nodes {b:?}, expected {a:?}")); }
    for (n, w) in &want.nodes { let x = &got.nodes[n]; if w != x {
        if w.op != x.op { return Some(format!("{n} is {}, expected {}", x.op, w.op)); }
        return Some(format!("{n}: metadata {:?} parent {:?} children {:?} ports {}/{}, expected {:?} {:?} {:?} {}/{}", x.meta, x.parent, x.kids, x.ins, x.outs, w.meta, w.parent, w.kids, w.ins, w.outs)); } }
    Some(format!("links {:?}, expected {:?}", got.links, want.links))
}
impl G {
    fn add(&mut self, n: Node, op: OpType) -> Result<(), String> {
        ensure!(!self.nodes.contains_key(&n), "the new node {n} is an existing one");
        let (ins, outs) = (op.input_count(), op.output_count());
        self.nodes.insert(n, N { op, meta: Meta::new(), parent: None, kids: vec![], ins, outs });
        Ok(())
    }
    fn detach(&mut self, n: Node) { if let Some(p) = self.nodes[&n].parent { self.nodes.get_mut(&p).unwrap().kids.retain(|c| *c != n); } self.nodes.get_mut(&n).unwrap().parent = None; }
    fn attach(&mut self, n: Node, p: Node, at: usize) { self.nodes.get_mut(&p).unwrap().kids.insert(at, n); self.nodes.get_mut(&n).unwrap().parent = Some(p); }
    fn last(&mut self, n: Node, p: Node) { let at = self.nodes[&p].kids.len(); self.attach(n, p, at); }
    fn beside(&mut self, n: Node, s: Node, after: usize) { let p = self.nodes[&s].parent.unwrap(); let at = self.nodes[&p].kids.iter().position(|c| *c == s).unwrap(); self.attach(n, p, at + after); }
    fn remove(&mut self, n: Node) {
        self.detach(n);
        for c in self.nodes[&n].kids.clone() { self.nodes.get_mut(&c).unwrap().parent = None; }
        self.nodes.remove(&n);
        self.links.retain(|l| l.0 != n && l.2 != n);
    }
    fn below(&self, n: Node) -> Vec<Node> { let mut v = vec![n]; let mut i = 0; while i < v.len() { v.extend(self.nodes[&v[i]].kids.iter().copied()); i += 1; } v }
    fn is_below(&self, n: Node, a: Node) -> bool { let mut x = Some(n); while let Some(m) = x { if m == a { return true; } x = self.nodes[&m].parent; } false }
    fn link(&mut self, l: (Node, usize, Node, usize)) { self.links.push(l); self.links.sort(); }
    fn cut_ports(&mut self, n: Node, ins: usize, outs: usize) { let m = self.nodes.get_mut(&n).unwrap(); m.ins = ins; m.outs = outs; self.links.retain(|l| !(l.0 == n && l.1 >= outs) && !(l.2 == n && l.3 >= ins)); }
}
fn op(r: &mut Rng) -> OpType {
    let k = r.below(9);
    let t: Type = if matches!(k, 0 | 1 | 2 | 5 | 6) && r.below(4) == 0 { Type::new_var_use(0, hugr_core::types::TypeBound::Copyable) } else if r.bool() { bool_t() } else { usize_t() };
    typed(k, t, [r.below(4), r.below(3)], r.below(3))
}
/// the operation with the variable instantiated
fn instantiated(o: &OpType) -> OpType {
    let v = Type::new_var_use(0, hugr_core::types::TypeBound::Copyable);
    let row = |x: &hugr_core::types::TypeRow| -> hugr_core::types::TypeRow { x.iter().map(|t| if *t == v { bool_t() } else { t.clone() }).collect::<Vec<_>>().into() };
    let sig = |s: &Signature| Signature::new(row(&s.input), row(&s.output));
    match o {
        OpType::Input(x) => ops::Input { types: row(&x.types) }.into(), OpType::Output(x) => ops::Output { types: row(&x.types) }.into(),
        OpType::DFG(x) => ops::DFG { signature: sig(&x.signature) }.into(), OpType::CFG(x) => ops::CFG { signature: sig(&x.signature) }.into(),
        OpType::Tag(x) => ops::Tag::new(x.tag, x.variants.iter().map(row).collect()).into(), o => o.clone(),
    }
}
fn typed(k: usize, t: Type, [a, b]: [usize; 2], f: usize) -> OpType {
    let s = Signature::new(vec![t.clone(); a.min(2)], vec![t.clone(); b]);
    match k {
        0 => ops::Input { types: vec![t; a].into() }.into(), 1 => ops::Output { types: vec![t; a].into() }.into(),
        2 => ops::DFG { signature: s }.into(), 3 => ops::FuncDefn::new(format!("f{f}"), s).into(), 4 => ops::FuncDecl::new("d", s).into(),
        5 => ops::Tag::new(0, vec![vec![t; b].into()]).into(), 6 => ops::CFG { signature: s }.into(),
        7 => ops::Call::try_new(s.into(), []).unwrap().into(), _ => ops::ExitBlock { cfg_outputs: s.output }.into(),
    }
}
fn history(h: &mut Hugr, g: &mut G, r: &mut Rng, steps: usize, log: &mut Vec<String>, deep: bool) -> Result<(), String> {
    for _ in 0..steps {
        step(h, g, r, log, deep)?;
        let got = observe(h)?;
        if let Some(d) = diff(g, &got) { return Err(d); }
    }
    Ok(())
}
/// a graph made by a random history, with the model of it
fn made(r: &mut Rng, steps: usize) -> Result<(Hugr, G), String> {
    let mut h = if r.bool() { Hugr::new() } else { Hugr::new_with_entrypoint(ops::DFG { signature: Signature::new_endo(vec![bool_t(); r.below(3)]) }).unwrap() };
    let mut g = observe(&h)?;
    history(&mut h, &mut g, r, steps, &mut vec![], false)?;
    Ok((h, g))
}
/// the copies are distinct new nodes, each with the given operation, metadata and ports of its original; links among the copied ones and no other new link, the parents as given
fn copied(g: &mut G, src: &G, map: &BTreeMap<Node, Node>, nodes: &[Node], parents: &BTreeMap<Node, Node>) -> Result<(), String> {
    let keys: BTreeSet<Node> = map.keys().copied().collect();
    ensure!(keys == nodes.iter().copied().collect(), "the map has {keys:?}, copied were {nodes:?}");
    let vals: BTreeSet<Node> = map.values().copied().collect();
    ensure!(vals.len() == map.len(), "two nodes share a copy: {map:?}");
    for n in nodes { let c = map[n]; g.add(c, src.nodes[n].op.clone())?; let s = &src.nodes[n]; let x = g.nodes.get_mut(&c).unwrap(); x.meta = s.meta.clone(); x.ins = s.ins; x.outs = s.outs; }
    for n in nodes { if let Some(p) = parents.get(n) { g.last(map[n], *p); } }
    for n in nodes { if !parents.contains_key(n) { if let Some(p) = src.nodes[n].parent.and_then(|p| map.get(&p)) { g.last(map[n], *p); } } }
    for l in &src.links { if let (Some(a), Some(b)) = (map.get(&l.0), map.get(&l.2)) { g.link((*a, l.1, *b, l.3)); } }
    Ok(())
}
fn step(h: &mut Hugr, g: &mut G, r: &mut Rng, log: &mut Vec<String>, deep: bool) -> Result<(), String> {
    let all: Vec<Node> = g.nodes.keys().copied().collect();
    let any = |r: &mut Rng| all[r.below(all.len())];
    let n = any(r);
    let m = any(r);
    macro_rules! say { ($($a:tt)*) => { log.push(format!($($a)*)) } }
    let movable = |g: &G, x: Node| x != g.root; let removable = |g: &G, x: Node| x != g.root && x != g.entry;
    match r.below(if deep { 27 } else { 18 }) {
        0 | 1 | 2 => { let o = op(r); say!("add {o} under {n}"); let x = h.add_node_with_parent(n, o.clone()); g.add(x, o)?; g.last(x, n); }
        3 => if g.nodes[&n].parent.is_some() { let o = op(r); let after = r.below(2); say!("add {o} beside {n} {after}"); let x = if after == 1 { h.add_node_after(n, o.clone()) } else { h.add_node_before(n, o.clone()) }; g.add(x, o)?; g.beside(x, n, after); },
        4 => if removable(g, n) { say!("remove {n}"); let o = h.remove_node(n); ensure!(o == g.nodes[&n].op, "remove_node gave {o}"); g.remove(n); },
        5 => if !g.is_below(g.entry, n) && !g.is_below(g.root, n) { say!("remove subtree {n}"); h.remove_subtree(n); for x in g.below(n).into_iter().rev() { g.remove(x); } },
        6 | 7 | 8 => { let (a, b) = (&g.nodes[&n], &g.nodes[&m]); if a.outs > 0 && b.ins > 0 { let (p, q) = (r.below(a.outs), r.below(b.ins)); let (n, p, m, q) = if !g.links.is_empty() && r.below(3) == 0 { g.links[r.below(g.links.len())] } else { (n, p, m, q) }; say!("connect {n}.{p} {m}.{q}"); h.connect(n, p, m, q); g.link((n, p, m, q)); } }
        9 => { let (a, d) = (&g.nodes[&n], r.bool()); let c = if d { a.ins } else { a.outs }; if c > 0 { let p = r.below(c); say!("disconnect {n} {p} {d}"); if d { h.disconnect(n, hugr_core::IncomingPort::from(p)); g.links.retain(|l| !(l.2 == n && l.3 == p)); } else { h.disconnect(n, hugr_core::OutgoingPort::from(p)); g.links.retain(|l| !(l.0 == n && l.1 == p)); } } }
        10 => { let (a, b) = (&g.nodes[&n], &g.nodes[&m]); if let (Some(p), Some(q)) = (a.op.other_output_port(), b.op.other_input_port()) { if p.index() < a.outs && q.index() < b.ins { say!("other edge {n} {m}"); let e = h.add_other_edge(n, m); ensure!(e == (p, q), "other edge at {e:?}, expected {p:?} {q:?}"); g.link((n, p.index(), m, q.index())); } } }
        11 | 12 => { let k = format!("k{}", r.below(3)); let v = r.below(9); say!("metadata {n} {k} {v}"); match r.below(4) {
            0 => { h.remove_metadata(n, &k); g.nodes.get_mut(&n).unwrap().meta.remove(&k); }
            1 => { let had = g.nodes.get_mut(&n).unwrap().meta.insert(k.clone(), v.to_string()); let x = h.get_metadata_mut(n, &k); ensure!(x.to_string() == had.unwrap_or("null".into()), "metadata {k} of {n} was {x}"); *x = v.into(); }
            _ => { h.set_metadata(n, &k, v); g.nodes.get_mut(&n).unwrap().meta.insert(k.clone(), v.to_string()); } }
            ensure!(h.get_metadata(n, &k).map(|x| x.to_string()).as_ref() == g.nodes[&n].meta.get(&k), "metadata {k} of {n} reads {:?}", h.get_metadata(n, &k)); }
        13 => { say!("entrypoint {n}"); h.set_entrypoint(n); g.entry = n; }
        14 => { if !g.is_below(m, n) && n != g.root { say!("parent of {n} is {m}"); h.set_parent(n, m); g.detach(n); g.last(n, m); } }
        15 => { if n != m && movable(g, n) && movable(g, m) && g.nodes[&m].parent.is_some() && !g.is_below(m, n) { let after = r.below(2); say!("move {n} beside {m} {after}"); if after == 1 { h.move_after_sibling(n, m) } else { h.move_before_sibling(n, m) } g.detach(n); g.beside(n, m, after); } }
        16 => { let o = op(r); say!("replace {n} by {o}"); let x = h.replace_op(n, o.clone()); ensure!(x == g.nodes[&n].op, "replace_op gave {x}"); g.nodes.get_mut(&n).unwrap().op = o; }
        17 | 25 => { let n = if !g.links.is_empty() && r.bool() { let l = g.links[r.below(g.links.len())]; if r.bool() { l.0 } else { l.2 } } else { n }; let (i, o) = (g.nodes[&n].ins, g.nodes[&n].outs); match r.below(4) {
            0 => { let (i, o) = (r.below(5), r.below(5)); say!("ports of {n} {i} {o}"); h.set_num_ports(n, i, o); g.cut_ports(n, i, o); }
            1 => { let k = r.below(5) as isize - 2; let d = r.bool(); say!("add ports {n} {k} {d}"); let c = if d { i } else { o }; let to = c.saturating_add_signed(k); let x = h.add_ports(n, if d { Direction::Incoming } else { Direction::Outgoing }, k); ensure!(x == (c..to), "add_ports gave {x:?}, expected {:?}", c..to); if d { g.cut_ports(n, to, o) } else { g.cut_ports(n, i, to) } }
            _ => { let d = r.bool(); let c = if d { i } else { o }; let (at, k) = (r.below(c + 1), r.below(3)); say!("insert ports {n} {at} {k} {d}"); let x = h.insert_ports(n, if d { Direction::Incoming } else { Direction::Outgoing }, at, k); ensure!(x == (at..at + k), "insert_ports gave {x:?}");
                if d { g.nodes.get_mut(&n).unwrap().ins += k; } else { g.nodes.get_mut(&n).unwrap().outs += k; }
                for l in g.links.iter_mut() { if d && l.2 == n && l.3 >= at { l.3 += k; } if !d && l.0 == n && l.1 >= at { l.1 += k; } } g.links.sort(); } } }
        18 | 19 => { // copy within the graph
            if g.nodes.len() > 40 { return Ok(()); }
            let nodes: Vec<Node> = g.below(n).into_iter().skip(1).collect(); let subst = r.bool(); say!("copy descendants of {n} to {m} {subst}");
            let args = [bool_t().into()];
            let src = g.clone(); let map = h.copy_descendants(n, m, subst.then(|| hugr_core::types::Substitution::new(&args)));
            ensure!(map.keys().copied().collect::<BTreeSet<_>>() == nodes.iter().copied().collect(), "the map has {map:?}");
            ensure!(map.values().copied().collect::<BTreeSet<_>>().len() == map.len(), "two nodes share a copy");
            for x in &nodes { let c = map[x]; let o = &src.nodes[x].op; g.add(c, if subst { instantiated(o) } else { o.clone() })?; let s = &src.nodes[x]; let y = g.nodes.get_mut(&c).unwrap(); y.meta = s.meta.clone(); y.ins = s.ins; y.outs = s.outs; }
            for x in &nodes { let p = src.nodes[x].parent.unwrap(); g.last(map[x], if p == n { m } else { map[&p] }); }
            for l in &src.links { match (map.get(&l.0), map.get(&l.2)) { (Some(a), Some(b)) => g.link((*a, l.1, *b, l.3)), (None, Some(b)) => g.link((l.0, l.1, *b, l.3)), (Some(a), None) => g.link((*a, l.1, l.2, l.3)), _ => {} } } }
        20 | 21 | 22 | 23 => { // another graph goes in
            if g.nodes.len() > 40 { return Ok(()); }
            let k = 3 + r.below(12); let (o, s) = made(r, k)?; let below: Vec<Node> = s.nodes.keys().copied().collect();
            let x = below[r.below(below.len())]; let y = below[r.below(below.len())];
            let mut sub = s.below(x); let mut parents = BTreeMap::from([(x, n)]);
            let map: BTreeMap<Node, Node>;
            match r.below(5) {
                0 => { say!("insert region {x} under {n}"); let z = h.insert_region(n, o, x); ensure!(Some(&z.inserted_entrypoint) == z.node_map.get(&x), "the copy of the region is not {}", z.inserted_entrypoint); map = z.node_map.into_iter().collect(); }
                1 => { say!("insert graph under {n}"); sub = s.below(s.entry); parents = BTreeMap::from([(s.entry, n)]); let z = h.insert_hugr(n, o); ensure!(Some(&z.inserted_entrypoint) == z.node_map.get(&s.entry), "the copy of the entrypoint is not {}", z.inserted_entrypoint); map = z.node_map.into_iter().collect(); }
                2 => { say!("insert from view under {n}"); sub = s.below(s.entry); parents = BTreeMap::from([(s.entry, n)]); let z = h.insert_from_view(n, &o); map = z.node_map.into_iter().collect(); ensure!(Some(&z.inserted_entrypoint) == map.get(&s.entry), "the copy of the entrypoint is not {}", z.inserted_entrypoint); }
                3 => { say!("insert forest {x}->{n} {y}->{m}"); parents.insert(y, m); let nested = x != y && (s.is_below(x, y) || s.is_below(y, x));
                    match h.insert_forest(o, [(x, m), (x, n), (y, m)]) {
                        Err(InsertForestError::SubtreeAlreadyCopied { subtree, parent }) => { ensure!(nested && s.is_below(subtree, parent) && subtree != parent, "refused: {subtree} in {parent}"); return Ok(()); }
                        Err(e) => return Err(format!("refused: {e}")), Ok(z) => { ensure!(!nested, "nested regions were accepted"); map = z.node_map.into_iter().collect(); } }
                    for z in s.below(y) { if !sub.contains(&z) { sub.push(z); } } }
                _ => { // any set of nodes, any of them placed
                    sub = below.iter().copied().filter(|_| r.below(3) > 0).collect(); if sub.is_empty() { return Ok(()); }
                    for i in (1..sub.len()).rev() { let j = r.below(i + 1); sub.swap(i, j); }
                    parents = sub.iter().copied().filter_map(|z| if r.below(3) == 0 { Some((z, if r.bool() { n } else { m })) } else { None }).collect();
                    say!("insert nodes {sub:?} with {parents:?}");
                    if r.below(8) == 0 { let mut two = sub.clone(); two.push(sub[0]); let mut c = h.clone(); let e = c.insert_view_forest(&o, two.into_iter(), parents.clone()); ensure!(matches!(e, Err(InsertForestError::DuplicateNode(z)) if z == sub[0]), "a node given twice: {e:?}"); }
                    let z = h.insert_view_forest(&o, sub.clone().into_iter(), parents.clone()).map_err(|e| format!("refused: {e}"))?; map = z.node_map.into_iter().collect(); } }
            let got = observe(h)?; copied(g, &s, &map, &sub, &parents)?; align(g, &got, &map); }
        24 => { // a documented panic
            let mut x = h.clone(); let gone = (0..).map(|i| Node::from(portgraph(i))).find(|z| !g.nodes.contains_key(z)).unwrap(); let bad = Node::from(portgraph(gone.index() + r.below(3))); if g.nodes.contains_key(&bad) { return Ok(()); }
            let which = r.below(14); say!("bad call {} with {bad} at {n}", (b'a' + which as u8) as char); let (ins, outs) = (g.nodes[&n].ins, g.nodes[&n].outs);
            if which == 12 && (n == g.entry || g.is_below(g.entry, n)) { return Ok(()); }
            let e = catch_unwind(AssertUnwindSafe(|| { match which { 0 => x.set_entrypoint(bad), 1 => { x.add_node_with_parent(bad, op(&mut Rng(1))); } 2 => { x.add_node_after(bad, op(&mut Rng(1))); } 3 => { x.remove_node(bad); } 4 => x.connect(bad, 0, n, 0), 5 => x.connect(n, outs, n, 0), 6 => x.connect(n, 0, n, ins), 7 => x.disconnect(n, hugr_core::IncomingPort::from(ins)), 8 => x.set_parent(bad, n), 9 => x.set_metadata(bad, "k", 1), 10 => x.set_parent(n, bad), 11 => { x.add_node_before(bad, op(&mut Rng(1))); } 13 => { let o = Hugr::new(); let _ = x.insert_forest(o, [(Node::from(portgraph(1 + bad.index())), n)]); } _ => { let root = x.module_root(); x.remove_node(root); } } }));
            ensure!(e.is_err(), "call {which} with {bad} (no node) at {n} did not fail"); }
        _ => { // compaction
            if g.nodes.keys().all(|x| g.is_below(*x, g.root)) { say!("canonicalize"); let order = g.below(g.root); let mut seen = BTreeMap::new(); let mut twice = false;
                h.canonicalize_nodes(|a, b| { twice |= seen.insert(a, b).is_some(); });
                let map: BTreeMap<Node, Node> = order.iter().enumerate().map(|(i, x)| (*x, Node::from(portgraph(i)))).collect();
                let moved: BTreeMap<Node, Node> = map.iter().filter(|(a, b)| a != b).map(|(a, b)| (*a, *b)).collect();
                ensure!(!twice && seen == moved, "reported moves {seen:?}, expected {moved:?}");
                let s = g.clone(); *g = G { nodes: BTreeMap::new(), links: vec![], root: map[&s.root], entry: map[&s.entry] };
                for (x, y) in &s.nodes { let mut z = y.clone(); z.parent = z.parent.map(|p| map[&p]); z.kids = z.kids.iter().map(|c| map[c]).collect(); g.nodes.insert(map[x], z); }
                g.links = s.links.iter().map(|l| (map[&l.0], l.1, map[&l.2], l.3)).collect(); g.links.sort(); } }
    }
    Ok(())
}
/// the copies without a given place keep the order they were listed in; where several given roots share a parent only the set is promised
fn align(g: &mut G, got: &G, map: &BTreeMap<Node, Node>) {
    let new: BTreeSet<Node> = map.values().copied().collect();
    let ps: Vec<Node> = g.nodes.keys().copied().collect();
    for p in ps { if let Some(x) = got.nodes.get(&p) { let k = &g.nodes[&p].kids; if new.contains(&p) { continue; } let (mut a, mut b) = (k.clone(), x.kids.clone()); let fa: Vec<_> = a.iter().filter(|c| !new.contains(c)).copied().collect(); let fb: Vec<_> = b.iter().filter(|c| !new.contains(c)).copied().collect(); a.sort(); b.sort(); if a == b && fa == fb { g.nodes.get_mut(&p).unwrap().kids = x.kids.clone(); } } }
}
fn portgraph(i: usize) -> portgraph::NodeIndex { portgraph::NodeIndex::new(i) }
fn main() {
    let mut cx = Ctx::from_env("H02");
    if cx.want("history") {
        for i in 0..cx.n(1500, 15000) {
            let mut r = cx.rng.clone(); cx.rng.next();
            let mut log = vec![];
            let steps = 10 + r.below(30);
            let mut run = || -> Result<(), String> {
                let mut h = if i % 2 == 0 { Hugr::new() } else { Hugr::new_with_entrypoint(ops::DFG { signature: Signature::new_endo(vec![bool_t(); r.below(3)]) }).unwrap() };
                let mut g = observe(&h)?;
                history(&mut h, &mut g, &mut r, steps, &mut log, true)
            };
            let res = catch_unwind(AssertUnwindSafe(&mut run));
            let res = match res { Ok(x) => x, Err(p) => Err(format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
            let last = log.last().cloned().unwrap_or_default();
            let kind: String = last.split(|c: char| !c.is_alphabetic() && c != ' ').next().unwrap_or("").trim().replace(' ', "_");
            let obl = if res.is_err() { format!("history/{kind}") } else { "history".into() };
            let n = log.len();
            let shown = log.iter().skip(n.saturating_sub(12)).cloned().collect::<Vec<_>>().join("; ");
            cx.case(&obl, || format!("case {i}, {n} edits, the last: {shown}"), || res);
        }
    }
    cx.finish()
}
