//! Valid graphs with wires used across regions, order edges, functions with parameters, constants and control flow.
use crate::Rng;
use hugr_core::extension::{Extension, ExtensionId, Version};
use std::sync::{Arc, LazyLock};
use hugr_core::extension::prelude::{Noop, bool_t, qb_t, usize_t};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::ops::{self, OpTrait, OpType, Value, dataflow::IOTrait};
use hugr_core::types::type_param::{TypeArg, TypeParam};
use hugr_core::types::{FuncValueType, PolyFuncType, PolyFuncTypeRV, TypeRV, TypeRowRV, Signature, SumType, Type, TypeBound, TypeRow};
use hugr_core::{Direction, Hugr, HugrView, Node};
/// an operation from any types to any types
pub static EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| Extension::new_arc(ExtensionId::new_unchecked("hx.flow"), Version::new(0, 1, 0), |e, w| {
    let list = || TypeParam::new_list_type(TypeParam::RuntimeType(TypeBound::Linear));
    let v = |i| TypeRowRV::from(vec![TypeRV::new_row_var_use(i, TypeBound::Linear)]);
    e.add_op("any".into(), String::new(), PolyFuncTypeRV::new([list(), list()], FuncValueType::new(v(0), v(1))), w).unwrap();
}));
pub fn any(ins: &[Type], outs: &[Type]) -> OpType { let l = |v: &[Type]| TypeArg::new_list(v.iter().cloned().map(TypeArg::from)); EXT.instantiate_extension_op("any", [l(ins), l(outs)]).unwrap().into() }
pub type Wire = (Node, usize, Type);
pub fn var() -> Type { Type::new_var_use(0, TypeBound::Copyable) }
pub fn linear(t: &Type) -> bool { !t.copyable() }
fn row(v: &[Type]) -> TypeRow { v.to_vec().into() }
/// a wire of an enclosing region, and the node of that region which contains us; or one of a block before ours
type Outer = (Wire, Option<Node>);
pub struct Gen { pub h: Hugr, fresh: usize, budget: usize, poly: bool, turn: bool, /// no edges from outside
    pub plain: bool }
impl Gen {
    pub fn new(budget: usize) -> Self { Gen { h: Hugr::new(), fresh: 0, budget, poly: false, turn: false, plain: false } }
    fn name(&mut self) -> String { self.fresh += 1; format!("f{}", self.fresh) }
    pub fn basic(&self, r: &mut Rng) -> Type { match r.below(if self.poly { 5 } else { 4 }) { 0 | 1 => bool_t(), 2 => usize_t(), 3 => qb_t(), _ => var() } }
    pub fn fit(&mut self, n: Node, op: impl Into<OpType>) { let op = op.into(); let (i, o) = crate::graphs::ports(&op); self.h.replace_op(n, op); self.h.set_num_ports(n, i, o); }
    /// call a declared function with the wires given, or an operation which does as well
    fn declared(&mut self, p: Node, ins: &[Type], outs: &[Type]) -> Node {
        self.turn = !self.turn;
        if self.plain || self.turn { return self.h.add_node_with_parent(p, any(ins, outs)); }
        let m = self.h.module_root(); let nm = self.name();
        let ps = if self.poly { vec![TypeParam::RuntimeType(TypeBound::Copyable)] } else { vec![] };
        let f = PolyFuncType::new(ps.clone(), Signature::new(row(ins), row(outs)));
        let d = self.h.add_node_with_parent(m, ops::FuncDecl::new(nm, f.clone()));
        let args: Vec<TypeArg> = ps.into_iter().enumerate().map(|(i, d)| TypeArg::new_var_use(i, d)).collect();
        let n = self.h.add_node_with_parent(p, ops::Call::try_new(f, args).unwrap());
        self.h.connect(d, 0, n, ins.len());
        n
    }
    /// a function of its own, sometimes with a type parameter in place of one of the types; returns a call of it in `p`
    fn defined(&mut self, r: &mut Rng, p: Node, ins: &[Type]) -> (Node, Vec<Type>) {
        let abs = if ins.contains(&var()) { Some(var()) } else if r.bool() { ins.iter().find(|t| !linear(t)).cloned() } else { None };
        let inner: Vec<Type> = ins.iter().map(|t| if Some(t) == abs.as_ref() { var() } else { t.clone() }).collect();
        let was = std::mem::replace(&mut self.poly, abs.is_some());
        let (m, nm) = (self.h.module_root(), self.name());
        let f = self.h.add_node_with_parent(m, ops::FuncDefn::new(nm.clone(), Signature::new_endo(TypeRow::new())));
        let outs = self.region(r, f, &inner, None, 1, &[]);
        let ps = if abs.is_some() { vec![TypeParam::RuntimeType(TypeBound::Copyable)] } else { vec![] };
        let sig = PolyFuncType::new(ps, Signature::new(row(&inner), row(&outs)));
        self.fit(f, ops::FuncDefn::new(nm, sig.clone()));
        self.poly = was;
        let n = self.h.add_node_with_parent(p, ops::Call::try_new(sig, abs.iter().map(|t| TypeArg::from(t.clone())).collect::<Vec<_>>()).unwrap());
        self.h.connect(f, 0, n, ins.len());
        (n, outs.into_iter().map(|t| if t == var() { abs.clone().unwrap() } else { t }).collect())
    }
    /// an order edge unless there is one
    pub fn order(&mut self, a: Node, b: Node) {
        let p = self.h.get_optype(a).other_output_port().unwrap(); let q = self.h.get_optype(b).other_input_port().unwrap();
        if !self.h.linked_inputs(a, p).any(|x| x == (b, q)) { self.h.connect(a, p, b, q); }
    }
    fn plug(&mut self, w: &(Wire, Option<Node>), n: Node, at: usize) { let ((a, p, _), c) = w; self.h.connect(*a, *p, n, at); if let Some(c) = c { self.order(*a, *c); } }
    /// take some wires: copyable ones may be used again, and may come from enclosing regions
    fn take(&self, r: &mut Rng, avail: &mut Vec<Wire>, outer: &[Outer], max: usize) -> Vec<(Wire, Option<Node>)> {
        let mut v = vec![];
        for _ in 0..r.below(max + 1) {
            if !outer.is_empty() && r.below(4) == 0 { let (w, c) = r.pick(outer).clone(); v.push((w, c)); }
            else if !avail.is_empty() { let i = r.below(avail.len()); v.push((if linear(&avail[i].2) { avail.remove(i) } else { avail[i].clone() }, None)); }
        }
        v
    }
    fn types(v: &[(Wire, Option<Node>)]) -> Vec<Type> { v.iter().map(|w| w.0.2.clone()).collect() }
    /// fill the region of `p`; gives the types of its outputs (the ones wanted, if any)
    pub fn region(&mut self, r: &mut Rng, p: Node, ins: &[Type], want: Option<&[Type]>, depth: usize, outer: &[Outer]) -> Vec<Type> {
        let a = self.h.add_node_with_parent(p, ops::Input::new(row(ins)));
        let z = self.h.add_node_with_parent(p, ops::Output::new(TypeRow::new()));
        let mut line = vec![a];
        let mut avail: Vec<Wire> = ins.iter().enumerate().map(|(i, t)| (a, i, t.clone())).collect();
        for _ in 0..r.below(5) {
            if self.budget == 0 { break; }
            self.budget -= 1;
            let n = match r.below(if depth == 0 { 4 } else { 11 }) {
                0 => { let w = self.take(r, &mut avail, outer, 1); let Some(w) = w.first().cloned() else { continue }; let n = self.h.add_node_with_parent(p, Noop::new(w.0.2.clone())); self.plug(&w, n, 0); avail.push((n, 0, w.0.2.clone())); n }
                1 => {
                    let k = if self.plain || r.bool() { p } else { self.h.module_root() };
                    let c = self.h.add_node_with_parent(k, ops::Const::new(if r.bool() { Value::true_val() } else { Value::false_val() }));
                    let n = self.h.add_node_with_parent(p, ops::LoadConstant { datatype: bool_t() }); self.h.connect(c, 0, n, 0); avail.push((n, 0, bool_t())); n
                }
                3 if !self.plain => { let w = self.take(r, &mut avail, outer, 3); let (n, outs) = self.defined(r, p, &Self::types(&w)); for (i, x) in w.iter().enumerate() { self.plug(x, n, i); } for (i, t) in outs.into_iter().enumerate() { avail.push((n, i, t)); } n }
                2 | 3 => { let w = self.take(r, &mut avail, outer, 3); let outs: Vec<Type> = (0..r.below(3)).map(|_| self.basic(r)).collect(); let n = self.declared(p, &Self::types(&w), &outs); for (i, x) in w.iter().enumerate() { self.plug(x, n, i); } for (i, t) in outs.into_iter().enumerate() { avail.push((n, i, t)); } n }
                k => {
                    let w = self.take(r, &mut avail, outer, 3); let ts = Self::types(&w);
                    // order edges into it are added while its contents are made, so its inputs are fixed now
                    let n = self.h.add_node_with_parent(p, ops::DFG { signature: Signature::new(row(&ts), TypeRow::new()) });
                    if k == 8 { self.fit(n, ops::Conditional { sum_rows: vec![], other_inputs: row(&ts), outputs: TypeRow::new() }); }
                    let mut below: Vec<Outer> = avail.iter().filter(|x| !linear(&x.2)).map(|x| (x.clone(), Some(n))).collect(); below.extend(outer.iter().cloned());
                    let outs = match k {
                        4..=6 => { let outs = self.region(r, n, &ts, None, depth - 1, &below); self.fit(n, ops::DFG { signature: Signature::new(row(&ts), row(&outs)) }); outs }
                        7 => {
                            let cut = r.below(ts.len() + 1); let out: Vec<Type> = (0..r.below(3)).map(|_| self.basic(r)).collect();
                            let t = ops::TailLoop { just_inputs: row(&ts[..cut]), just_outputs: row(&out), rest: row(&ts[cut..]) };
                            let (bi, bo) = crate::graphs::inner(&t.clone().into()).unwrap();
                            let (bi, bo): (Vec<Type>, Vec<Type>) = (bi.iter().cloned().collect(), bo.iter().cloned().collect());
                            self.region(r, n, &bi, Some(&bo), depth - 1, &below); self.fit(n, t);
                            out.into_iter().chain(ts[cut..].iter().cloned()).collect()
                        }
                        8 => {
                            let out: Vec<Type> = (0..r.below(3)).map(|_| self.basic(r)).collect();
                            let rows: Vec<TypeRow> = (0..1 + r.below(3)).map(|_| { let k: Vec<Type> = (0..r.below(3)).map(|_| self.basic(r)).collect(); row(&k) }).collect();
                            let s: Type = SumType::new(rows.clone()).into();
                            let pre = self.declared(p, &[], &[s]); line.push(pre);
                            let c = ops::Conditional { sum_rows: rows.clone(), other_inputs: row(&ts), outputs: row(&out) };
                            for x in &rows {
                                let ci: Vec<Type> = x.iter().cloned().chain(ts.iter().cloned()).collect();
                                let cn = self.h.add_node_with_parent(n, ops::Case { signature: Signature::new(row(&ci), row(&out)) });
                                self.region(r, cn, &ci, Some(&out), depth - 1, &below);
                            }
                            self.fit(n, c);
                            self.h.connect(pre, 0, n, 0);
                            out
                        }
                        _ => { let out: Vec<Type> = (0..r.below(3)).map(|_| self.basic(r)).collect(); self.cfg(r, n, &ts, &out, depth - 1, &below); self.fit(n, ops::CFG { signature: Signature::new(row(&ts), row(&out)) }); out }
                    };
                    let shift = usize::from(k == 8);
                    for (i, x) in w.iter().enumerate() { self.plug(x, n, i + shift); }
                    for (i, t) in outs.into_iter().enumerate() { avail.push((n, i, t)); }
                    n
                }
            };
            line.push(n);
        }
        // outputs
        let mut outs: Vec<Wire> = vec![];
        match want {
            None => {
                for _ in 0..r.below(4) { let v: Vec<Wire> = avail.iter().filter(|x| !linear(&x.2)).cloned().collect(); if !v.is_empty() { outs.push(r.pick(&v).clone()); } }
                for x in avail.iter().filter(|x| linear(&x.2)) { let i = r.below(outs.len() + 1); outs.insert(i, x.clone()); }
            }
            Some(want) => {
                let mut got: Vec<Option<Wire>> = vec![];
                for t in want { let i: Vec<usize> = (0..avail.len()).filter(|i| avail[*i].2 == *t).collect(); got.push(if i.is_empty() { None } else { let i = *r.pick(&i); Some(if linear(t) { avail.remove(i) } else { avail[i].clone() }) }); }
                let left: Vec<Wire> = avail.iter().filter(|x| linear(&x.2)).cloned().collect();
                let missing: Vec<Type> = want.iter().zip(&got).filter(|(_, g)| g.is_none()).map(|(t, _)| t.clone()).collect();
                if !left.is_empty() || !missing.is_empty() {
                    let n = self.declared(p, &left.iter().map(|x| x.2.clone()).collect::<Vec<_>>(), &missing); line.push(n);
                    for (i, x) in left.iter().enumerate() { self.h.connect(x.0, x.1, n, i); }
                    let mut k = 0; for (g, t) in got.iter_mut().zip(want) { if g.is_none() { *g = Some((n, k, t.clone())); k += 1; } }
                }
                outs = got.into_iter().flatten().collect();
            }
        }
        let types: Vec<Type> = outs.iter().map(|x| x.2.clone()).collect();
        self.fit(z, ops::Output::new(row(&types)));
        for (i, x) in outs.iter().enumerate() { self.h.connect(x.0, x.1, z, i); }
        line.push(z);
        for _ in 0..r.below(4) { let i = r.below(line.len() - 1); let j = i + 1 + r.below(line.len() - 1 - i); let (a, b) = (line[i], line[j]); self.order(a, b); }
        types
    }
    /// control flow: block 0 is the entry, successors are any blocks or the exit
    pub fn cfg(&mut self, r: &mut Rng, c: Node, i: &[Type], o: &[Type], depth: usize, outer: &[Outer]) {
        let k = 1 + r.below(4);
        let ins: Vec<Vec<Type>> = (0..k).map(|j| if j == 0 { i.to_vec() } else { (0..r.below(3)).map(|_| self.basic(r)).collect() }).collect();
        let mut bs: Vec<(Node, Vec<usize>)> = vec![]; let mut exit = None;
        let succs: Vec<Vec<usize>> = (0..k).map(|_| (0..r.below(4)).map(|_| r.below(k + 1)).collect()).collect();
        let mut reached = vec![0]; let mut at = 0; while at < reached.len() { for s in &succs[reached[at]] { if *s < k && !reached.contains(s) { reached.push(*s); } } at += 1; }
        let mut first: Vec<Outer> = vec![];
        for (j, succ) in succs.into_iter().enumerate() {
            let mut rows: Vec<Vec<Type>> = succ.iter().map(|s| if *s == k { o.to_vec() } else { ins[*s].clone() }).collect();
            let mut other: Vec<Type> = vec![];
            while r.bool() && !rows.is_empty() && rows.iter().all(|x| !x.is_empty() && x.last() == rows[0].last()) { other.insert(0, rows[0].last().unwrap().clone()); for x in rows.iter_mut() { x.pop(); } }
            let b = ops::DataflowBlock { inputs: row(&ins[j]), other_outputs: row(&other), sum_rows: rows.iter().map(|x| row(x)).collect() };
            let (bi, bo) = crate::graphs::inner(&b.clone().into()).unwrap();
            let (bi, bo): (Vec<Type>, Vec<Type>) = (bi.iter().cloned().collect(), bo.iter().cloned().collect());
            let n = self.h.add_node_with_parent(c, b);
            let mut seen = outer.to_vec(); if reached.contains(&j) { seen.extend(first.iter().cloned()); }
            self.region(r, n, &bi, Some(&bo), depth, &seen);
            // wires of the entry, which comes before every block control can reach
            if j == 0 && r.bool() { for a in self.h.children(n).collect::<Vec<_>>() { let op = self.h.get_optype(a); if let Some(s) = op.dataflow_signature() { for (i, t) in s.output().iter().enumerate() { if !linear(t) { first.push(((a, i, t.clone()), None)); } } } } }
            bs.push((n, succ));
            if j == 0 { exit = Some(self.h.add_node_with_parent(c, ops::ExitBlock { cfg_outputs: row(o) })); }
        }
        let t: Vec<Node> = bs.iter().map(|b| b.0).chain(exit).collect();
        for (n, succ) in bs { for (p, s) in succ.iter().enumerate() { self.h.connect(n, p, t[*s], 0); } }
    }
}
/// a module with a function `main` made of everything above
pub fn graph(r: &mut Rng, depth: usize) -> Hugr {
    let mut g = Gen::new(6 + r.below(12));
    let m = g.h.module_root();
    let ins: Vec<Type> = (0..r.below(4)).map(|_| g.basic(r)).collect();
    let f = g.h.add_node_with_parent(m, ops::FuncDefn::new("main", Signature::new_endo(TypeRow::new())));
    let outs = g.region(r, f, &ins, None, depth, &[]);
    g.fit(f, ops::FuncDefn::new("main", Signature::new(row(&ins), row(&outs))));
    // the order of the children is not that of their making
    for n in g.h.nodes().collect::<Vec<_>>() { use hugr_core::ops::{OpTag, OpTrait}; if OpTag::DataflowParent.is_superset(g.h.get_optype(n).tag()) || n == m { let k: Vec<Node> = g.h.children(n).skip(2).collect(); for a in &k { let b = *r.pick(&k); if r.bool() && b != *a && b != g.h.entrypoint() && *a != g.h.entrypoint() { g.h.move_before_sibling(*a, b); } } } }
    g.h
}
/// a graph whose entrypoint is a DFG of the signature given, with no edges from outside
pub fn dfg(r: &mut Rng, ins: &[Type], outs: &[Type], depth: usize) -> Hugr {
    let mut g = Gen::new(4);
    let m = g.h.module_root();
    g.poly = ins.iter().chain(outs).any(|t| *t == var());
    let d = g.h.add_node_with_parent(m, ops::DFG { signature: Signature::new(row(ins), row(outs)) });
    g.plain = true;
    g.region(r, d, ins, Some(outs), depth, &[]);
    g.h.set_entrypoint(d);
    g.h
}
/// the order ports of a node
pub fn is_order(h: &Hugr, n: Node, p: usize, d: Direction) -> bool { use hugr_core::{Port, types::EdgeKind}; h.get_optype(n).port_kind(Port::new(d, p)) == Some(EdgeKind::StateOrder) }
