//! Whole graphs that satisfy every rule, and what the rules prescribe for the children of a container.
use crate::Rng;
use hugr_core::extension::prelude;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::{self, OpType, dataflow::IOTrait};
use hugr_core::types::type_param::{TypeArg, TypeParam};
use hugr_core::types::{PolyFuncType, Signature, Type, TypeBound, TypeRow};
use hugr_core::{Direction, Hugr, HugrView, Node};

pub fn cat(a: &TypeRow, b: &TypeRow) -> TypeRow { a.iter().chain(b.iter()).cloned().collect::<Vec<Type>>().into() }
thread_local! {
    /// parameters of the function under construction: generated types mention them when there are any
    pub static PARAMS: std::cell::RefCell<Vec<TypeBound>> = const { std::cell::RefCell::new(vec![]) };
}
fn params() -> Vec<TypeBound> { PARAMS.with(|p| p.borrow().clone()) }
pub fn decls() -> Vec<TypeParam> { params().into_iter().map(TypeParam::RuntimeType).collect() }
pub fn identity() -> Vec<TypeArg> { decls().into_iter().enumerate().map(|(i, d)| TypeArg::new_var_use(i, d)).collect() }
/// well-formed closed types (the shared generator also makes ones that validation refuses)
pub fn ty(r: &mut Rng, depth: usize) -> Type {
    let ps = params();
    if !ps.is_empty() && r.below(4) == 0 { let i = r.below(ps.len()); return Type::new_var_use(i, ps[i]); }
    match r.below(if depth == 0 { 4 } else { 7 }) {
        0 => prelude::bool_t(), 1 => prelude::usize_t(), 2 => prelude::qb_t(), 3 => Type::new_unit_sum(r.below(4) as u8),
        4 => Type::new_tuple(row_d(r, depth - 1)),
        5 => { let n = r.below(4); Type::new_sum((0..n).map(|_| row_d(r, depth - 1)).collect::<Vec<_>>()) }
        _ => Type::new_function(Signature::new(row_d(r, depth - 1), row_d(r, depth - 1))),
    }
}
pub fn row_d(r: &mut Rng, depth: usize) -> TypeRow { let n = [0, 1, 1, 2, 2, 3][r.below(6)]; (0..n).map(|_| ty(r, depth)).collect::<Vec<_>>().into() }
pub fn row(r: &mut Rng) -> TypeRow { row_d(r, 1) }
/// a row the harness builds next to `t`: often equal, sometimes one item more, less or swapped
pub fn near(r: &mut Rng, t: &TypeRow) -> TypeRow {
    let mut v: Vec<Type> = t.iter().cloned().collect();
    match r.below(12) {
        0 => v.push(ty(r, 1)),
        1 => { v.pop(); }
        2 => v.reverse(),
        3 => { if !v.is_empty() { let i = r.below(v.len()); v[i] = ty(r, 1); } }
        _ => {}
    }
    v.into()
}
// ------------------------------------------------------------ reference
/// inner rows of a dataflow container
pub fn inner(op: &OpType) -> Option<(TypeRow, TypeRow)> {
    let sum = |rows: Vec<TypeRow>| -> Type { hugr_core::types::SumType::new(rows).into() };
    match op {
        OpType::FuncDefn(f) => { let s = f.signature().body().clone(); Some((s.input, s.output)) }
        OpType::DFG(d) => Some((d.signature.input.clone(), d.signature.output.clone())),
        OpType::Case(d) => Some((d.signature.input.clone(), d.signature.output.clone())),
        OpType::TailLoop(t) => Some((cat(&t.just_inputs, &t.rest), cat(&vec![sum(vec![t.just_inputs.clone(), t.just_outputs.clone()])].into(), &t.rest))),
        OpType::DataflowBlock(b) => Some((b.inputs.clone(), cat(&vec![sum(b.sum_rows.clone())].into(), &b.other_outputs))),
        _ => None,
    }
}
/// indices of children at which the list departs from the shape `op` prescribes; `None`: not a container
pub fn wrong(op: &OpType, ch: &[OpType]) -> Option<Vec<usize>> {
    let mut bad = vec![];
    if let Some((i, o)) = inner(op) {
        if !matches!(&ch[0], OpType::Input(x) if x.types == i) { bad.push(0); }
        if !matches!(&ch[1], OpType::Output(x) if x.types == o) { bad.push(1); }
        for k in 2..ch.len() { if matches!(ch[k], OpType::Input(_) | OpType::Output(_)) { bad.push(k); } }
        return Some(bad);
    }
    match op {
        OpType::CFG(c) => {
            if !matches!(&ch[0], OpType::DataflowBlock(x) if x.inputs == c.signature.input) { bad.push(0); }
            if !matches!(&ch[1], OpType::ExitBlock(x) if x.cfg_outputs == c.signature.output) { bad.push(1); }
            for k in 2..ch.len() { if matches!(ch[k], OpType::ExitBlock(_)) { bad.push(k); } }
        }
        OpType::Conditional(c) => {
            if ch.len() != c.sum_rows.len() { return Some((0..ch.len()).collect()); }
            for (k, x) in ch.iter().enumerate() {
                if !matches!(x, OpType::Case(x) if x.signature.input == cat(&c.sum_rows[k], &c.other_inputs) && x.signature.output == c.outputs) { bad.push(k); }
            }
        }
        OpType::Module(_) => {}
        _ => return None,
    }
    Some(bad)
}
pub fn block(r: &mut Rng) -> OpType {
    let n = r.below(4);
    ops::DataflowBlock { inputs: row(r), other_outputs: row(r), sum_rows: (0..n).map(|_| row(r)).collect() }.into()
}
// ------------------------------------------------------------ whole graphs

pub struct B { pub h: Hugr, pub fresh: usize }
impl B {
    pub fn new() -> Self { B { h: Hugr::new(), fresh: 0 } }
    pub fn func(&mut self, i: &TypeRow, o: &TypeRow) -> Node {
        self.fresh += 1;
        let m = self.h.module_root();
        self.h.add_node_with_parent(m, ops::FuncDecl::new(format!("f{}", self.fresh), PolyFuncType::new(decls(), Signature::new(i.clone(), o.clone()))))
    }
    /// call a declared function i -> o in `p`; returns the call node
    pub fn call(&mut self, p: Node, i: &TypeRow, o: &TypeRow) -> Node {
        let f = self.func(i, o);
        let n = self.h.add_node_with_parent(p, ops::Call::try_new(PolyFuncType::new(decls(), Signature::new(i.clone(), o.clone())), identity()).unwrap());
        self.h.connect(f, 0, n, i.len());
        n
    }
    pub fn wire(&mut self, a: Node, b: Node, n: usize) { for k in 0..n { self.h.connect(a, k, b, k); } }
    /// fill the region of `p` with input, output and something in between
    pub fn region(&mut self, r: &mut Rng, p: Node, i: &TypeRow, o: &TypeRow, depth: usize) {
        let a = self.h.add_node_with_parent(p, ops::Input::new(i.clone()));
        let z = self.h.add_node_with_parent(p, ops::Output::new(o.clone()));
        let m = self.inside(r, p, i, o, depth);
        self.wire(a, m, i.len());
        self.wire(m, z, o.len());
    }
    /// one node i -> o in `p` (with helpers before it where needed); its inputs are the first ports of the returned node
    pub fn inside(&mut self, r: &mut Rng, p: Node, i: &TypeRow, o: &TypeRow, depth: usize) -> Node {
        if !params().is_empty() && i.len() == 1 && i == o && r.bool() { return self.h.add_node_with_parent(p, prelude::Noop::new(i[0].clone())); }
        if depth == 0 { return self.call(p, i, o); }
        match r.below(5) {
            0 => { let n = self.h.add_node_with_parent(p, ops::DFG { signature: Signature::new(i.clone(), o.clone()) }); self.region(r, n, i, o, depth - 1); n }
            1 => {
                let t = ops::TailLoop { just_inputs: i.clone(), just_outputs: o.clone(), rest: TypeRow::new() };
                let (a, b) = inner(&t.clone().into()).unwrap();
                let n = self.h.add_node_with_parent(p, t); self.region(r, n, &a, &b, depth - 1); n
            }
            2 => { let n = self.h.add_node_with_parent(p, ops::CFG { signature: Signature::new(i.clone(), o.clone()) }); self.cfg(r, n, i, o, depth - 1); n }
            3 => {
                // conditional: first produce the branching value
                let k = 1 + r.below(3);
                let rows: Vec<TypeRow> = (0..k).map(|_| row(r)).collect();
                let c = ops::Conditional { sum_rows: rows.clone(), other_inputs: row(r), outputs: o.clone() };
                let s: Type = hugr_core::types::SumType::new(rows.clone()).into();
                let full = cat(&vec![s].into(), &c.other_inputs);
                let pre = self.call(p, i, &full);
                let n = self.h.add_node_with_parent(p, c.clone());
                self.wire(pre, n, full.len());
                for x in &rows {
                    let ci = cat(x, &c.other_inputs);
                    let cn = self.h.add_node_with_parent(n, ops::Case { signature: Signature::new(ci.clone(), o.clone()) });
                    self.region(r, cn, &ci, o, depth - 1);
                }
                let d = self.h.add_node_with_parent(p, ops::DFG { signature: Signature::new(i.clone(), o.clone()) });
                // put both into one region so that one node stands for the pair
                let a = self.h.add_node_with_parent(d, ops::Input::new(i.clone()));
                let z = self.h.add_node_with_parent(d, ops::Output::new(o.clone()));
                self.h.set_parent_of(pre, d); self.h.set_parent_of(n, d);
                self.wire(a, pre, i.len()); self.wire(n, z, o.len());
                d
            }
            _ => self.call(p, i, o),
        }
    }
    pub fn cfg(&mut self, r: &mut Rng, c: Node, i: &TypeRow, o: &TypeRow, depth: usize) {
        // block 0 is the entry; each successor row is the input of some block or the outputs of the graph
        let k = 1 + r.below(3);
        let ins: Vec<TypeRow> = (0..k).map(|j| if j == 0 { i.clone() } else { row(r) }).collect();
        let mut bs: Vec<(Node, Vec<usize>)> = vec![];
        let mut exit = None;
        for j in 0..k {
            let succ: Vec<usize> = (0..r.below(4)).map(|_| r.below(k + 1)).collect(); // k is the exit
            let rows: Vec<TypeRow> = succ.iter().map(|s| if *s == k { o.clone() } else { ins[*s].clone() }).collect();
            // a common suffix may be moved to the other outputs when all successors share it
            let mut other: Vec<Type> = vec![];
            let mut rows: Vec<Vec<Type>> = rows.iter().map(|x| x.iter().cloned().collect()).collect();
            while r.bool() && !rows.is_empty() && rows.iter().all(|x| !x.is_empty() && x.last() == rows[0].last()) {
                other.insert(0, rows[0].last().unwrap().clone());
                for x in rows.iter_mut() { x.pop(); }
            }
            let b = ops::DataflowBlock { inputs: ins[j].clone(), other_outputs: other.into(), sum_rows: rows.into_iter().map(|x| x.into()).collect() };
            let (bi, bo) = inner(&b.clone().into()).unwrap();
            let n = self.h.add_node_with_parent(c, b);
            self.region(r, n, &bi, &bo, depth.min(1));
            bs.push((n, succ));
            if j == 0 { exit = Some(self.h.add_node_with_parent(c, ops::ExitBlock { cfg_outputs: o.clone() })); }
        }
        if r.below(3) == 0 { self.h.add_node_with_parent(c, ops::Const::new(ops::Value::unit())); }
        let t: Vec<Node> = bs.iter().map(|b| b.0).chain(exit).collect();
        for (n, succ) in bs { for (p, s) in succ.iter().enumerate() { self.h.connect(n, p, t[*s], 0); } }
    }
}
pub trait Reparent { fn set_parent_of(&mut self, n: Node, p: Node); }
impl Reparent for Hugr { fn set_parent_of(&mut self, n: Node, p: Node) { use hugr_core::hugr::internal::HugrMutInternals; HugrMutInternals::set_parent(self, n, p); } }

pub fn graph(r: &mut Rng) -> Hugr {
    let mut b = B::new();
    let m = b.h.module_root();
    let (i, o) = (row(r), row(r));
    let d = 1 + r.below(3);
    let f = b.h.add_node_with_parent(m, ops::FuncDefn::new("main", PolyFuncType::new(decls(), Signature::new(i.clone(), o.clone()))));
    b.region(r, f, &i, &o, d);

    b.h
}
pub fn ports(op: &OpType) -> (usize, usize) { (op.port_count(Direction::Incoming), op.port_count(Direction::Outgoing)) }
/// replace the operation of a node and give it the number of ports the operation has
pub fn put(h: &mut Hugr, n: Node, op: OpType) {
    use hugr_core::hugr::internal::HugrMutInternals;
    let (i, o) = ports(&op);
    HugrMutInternals::replace_op(h, n, op);
    HugrMutInternals::set_num_ports(h, n, i, o);
}
