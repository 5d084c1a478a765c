//! O01: executable contracts of the tag hierarchy and of typed node handles.
use hugr_core::Node;
use hugr_core::{HugrView, hugr::HugrError};
use hugr_core::ops::handle::*;
use hugr_core::ops::*;
use hx::{Ctx, ensure, generators as g};
use std::cmp::Ordering;
// TAGS: &[(OpTag, &[OpTag])] - the declared parent links, cut out of the current source
include!(concat!(env!("HX_GEN"), "/o01_tags.rs"));
#[allow(unused)] type _E = HugrError;

/// reflexive-transitive closure of the declared links, computed independently
fn closure() -> Vec<Vec<bool>> {
    let n = TAGS.len();
    let ix = |t: OpTag| TAGS.iter().position(|x| x.0 == t).unwrap();
    let mut m = vec![vec![false; n]; n]; // m[a][b]: a is above b
    for (b, (_, ps)) in TAGS.iter().enumerate() {
        m[b][b] = true;
        for p in ps.iter() { m[ix(*p)][b] = true; }
    }
    for k in 0..n { for i in 0..n { for j in 0..n { if m[i][k] && m[k][j] { m[i][j] = true; } } } }
    m
}
fn static_tag(op: &OpType) -> OpTag {
    fn of<T: StaticTag>(_: &T) -> OpTag { T::TAG }
    match op {
        OpType::Module(x) => of(x), OpType::FuncDefn(x) => of(x), OpType::FuncDecl(x) => of(x),
        OpType::AliasDecl(x) => of(x), OpType::AliasDefn(x) => of(x), OpType::Const(x) => of(x),
        OpType::Input(x) => of(x), OpType::Output(x) => of(x), OpType::Call(x) => of(x),
        OpType::CallIndirect(x) => of(x), OpType::LoadConstant(x) => of(x), OpType::LoadFunction(x) => of(x),
        OpType::DFG(x) => of(x), OpType::ExtensionOp(x) => of(x), OpType::OpaqueOp(x) => of(x),
        OpType::Tag(x) => of(x), OpType::DataflowBlock(x) => of(x), OpType::ExitBlock(x) => of(x),
        OpType::TailLoop(x) => of(x), OpType::CFG(x) => of(x), OpType::Conditional(x) => of(x),
        OpType::Case(x) => of(x), _ => OpTag::Any,
    }
}
fn above(m: &[Vec<bool>], a: OpTag, b: OpTag) -> bool {
    let ix = |t: OpTag| TAGS.iter().position(|x| x.0 == t).unwrap();
    m[ix(a)][ix(b)]
}
fn main() {
    let mut c = Ctx::from_env("O01");
    let m = closure();
    let n = TAGS.len();
    for i in 0..n {
        let a = TAGS[i].0;
        c.case("any_is_greatest", || format!("{a:?}"), || { ensure!(OpTag::Any.is_superset(a), "Any does not cover {a:?}"); ensure!(!a.is_superset(OpTag::Any) || a == OpTag::Any, "{a:?} covers Any"); Ok(()) });
        c.case("none_covers_nothing_else", || format!("{a:?}"), || { ensure!(OpTag::None.is_superset(a) == (a == OpTag::None), "None.is_superset({a:?})"); ensure!(a.is_empty() == (a == OpTag::None), "is_empty"); Ok(()) });
        for j in 0..n {
            let b = TAGS[j].0;
            c.case("is_superset_is_closure", || format!("{a:?} over {b:?}"), || {
                ensure!(a.is_superset(b) == m[i][j], "is_superset says {}, the declared links say {}", a.is_superset(b), m[i][j]);
                ensure!(OpTag::eq(a, b) == (i == j), "tag equality"); Ok(()) });
            c.case("antisymmetric", || format!("{a:?} {b:?}"), || { ensure!(!(a.is_superset(b) && b.is_superset(a)) || i == j, "each is above the other"); Ok(()) });
            c.case("comparison_agrees", || format!("{a:?} {b:?}"), || {
                let want = if i == j { Some(Ordering::Equal) } else if m[i][j] { Some(Ordering::Greater) } else if m[j][i] { Some(Ordering::Less) } else { None };
                ensure!(a.partial_cmp(&b) == want, "{:?} instead of {want:?}", a.partial_cmp(&b)); Ok(()) });
        }
    }
    c.count("transitive", (n * n * n) as u64);
    for i in 0..n { for j in 0..n { for k in 0..n {
        let (x, y, z) = (TAGS[i].0, TAGS[j].0, TAGS[k].0);
        if x.is_superset(y) && y.is_superset(z) && !x.is_superset(z) { c.case("transitive", || format!("{x:?} {y:?} {z:?}"), || Err("not transitive".into())); }
    } } }
    let node: Node = hugr_core::Hugr::default().entrypoint();
    macro_rules! cast { ($($A:ty),*) => { $( cast!(@ $A; DataflowParentID, DataflowOpID, ConditionalID, CaseID, DfgID, TailLoopID, CfgID, ModuleRootID, ModuleID, ConstID, BasicBlockID, FuncID<true>, FuncID<false>, Node); )* };
        (@ $A:ty; $($B:ty),*) => { $( c.case("handle_cast", || format!("{} to {}", stringify!($A), stringify!($B)), || {
            let h: $A = node.into();
            let want = above(&m, <$B as NodeHandle>::TAG, <$A as NodeHandle>::TAG);
            let r: Option<$B> = h.try_cast();
            ensure!(r.is_some() == want, "cast gives {:?}, tags {:?} {:?}", r.is_some(), <$B as NodeHandle>::TAG, <$A as NodeHandle>::TAG);
            ensure!(r.is_none_or(|x| x.node() == node), "node changed"); ensure!(h.tag() == <$A as NodeHandle>::TAG, "tag"); Ok(()) }); )* } }
    cast!(DataflowParentID, DataflowOpID, ConditionalID, CaseID, DfgID, TailLoopID, CfgID, ModuleRootID, ModuleID, ConstID, BasicBlockID, FuncID<true>, FuncID<false>, Node);
    macro_rules! hold { ($($A:ty),*) => { $( for (t, _) in TAGS.iter() { let t = *t; c.case("handle_can_hold", || format!("{} {t:?}", stringify!($A)), || {
        ensure!(<$A as NodeHandle>::can_hold(t) == above(&m, <$A as NodeHandle>::TAG, t), "can_hold gives {}", <$A as NodeHandle>::can_hold(t)); Ok(()) }); } )* } }
    hold!(DataflowParentID, DataflowOpID, ConditionalID, CaseID, DfgID, TailLoopID, CfgID, ModuleRootID, ModuleID, ConstID, BasicBlockID, FuncID<true>, FuncID<false>, Node);
    let mut r = c.rng.clone();
    for _ in 0..c.n(3000, 30000) {
        let op = g::op(&mut r);
        let show = || format!("{op:?}").chars().take(160).collect::<String>();
        let t = op.tag();
        c.case("tag_within_static_tag", show, || { let s = static_tag(&op); ensure!(above(&m, s, t), "run-time tag {t:?} not within {s:?}"); Ok(()) });
        // a typed handle exactly when the handle's tag covers the operation's tag
        macro_rules! h { ($H:ty) => {{ let got = op.try_node_handle::<Node, $H>(node); ensure!(got.as_ref().is_some() == above(&m, <$H as NodeHandle>::TAG, t), "{} for tag {t:?}: {}", stringify!($H), got.is_some());
            if let Some(h) = &got { ensure!(h.node() == node, "handle to another node"); } got.is_some() }} }
        c.case("typed_handle", show, || {
            let df = op.dataflow_signature().is_some(); let inner = op.inner_function_type().is_some();
            let is = |b: bool, w: bool, k: &str| -> Result<(), String> { ensure!(b == w, "a {k} handle is {} for this operation", if b { "made" } else { "refused" }); Ok(()) };
            is(h!(DataflowOpID), df || matches!(op, OpType::Const(_)), "dataflow operation")?;
            is(h!(DataflowParentID), inner, "dataflow parent")?;
            is(h!(ConditionalID), matches!(op, OpType::Conditional(_)), "conditional")?;
            is(h!(CaseID), matches!(op, OpType::Case(_)), "case")?;
            is(h!(DfgID), matches!(op, OpType::DFG(_)), "DFG")?;
            is(h!(TailLoopID), matches!(op, OpType::TailLoop(_)), "tail loop")?;
            is(h!(CfgID), matches!(op, OpType::CFG(_)), "CFG")?;
            is(h!(ModuleRootID), matches!(op, OpType::Module(_)), "module root")?;
            is(h!(ModuleID), matches!(op, OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) | OpType::Const(_)), "module child")?;
            is(h!(ConstID), matches!(op, OpType::Const(_)), "constant")?;
            is(h!(BasicBlockID), matches!(op, OpType::DataflowBlock(_)), "basic block")?;
            is(h!(FuncID<true>), matches!(op, OpType::FuncDefn(_) | OpType::FuncDecl(_)), "function")?;
            is(h!(Node), true, "node")?; Ok(())
        });
        c.case("category_tags", show, || {
            ensure!(OpTag::StaticInput.is_superset(t) == op.static_input().is_some(), "static input tag");
            ensure!(OpTag::StaticOutput.is_superset(t) == op.static_output().is_some(), "static output tag");
            ensure!(OpTag::DataflowParent.is_superset(t) == op.inner_function_type().is_some(), "dataflow parent tag");
            ensure!(OpTag::DataflowChild.is_superset(t) == (op.dataflow_signature().is_some() || matches!(op, OpType::Const(_))), "dataflow child tag");
            ensure!(OpTag::ControlFlowChild.is_superset(t) == matches!(op, OpType::DataflowBlock(_) | OpType::ExitBlock(_) | OpType::Const(_)), "control-flow child tag");
            Ok(()) });
    }
    c.finish()
}
