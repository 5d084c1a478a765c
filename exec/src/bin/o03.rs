//! O03: executable contracts of the signatures of structured control flow and of calls.
use hugr_core::ops::*;
use hugr_core::ops::controlflow::BasicBlock;
use hugr_core::types::{EdgeKind, PolyFuncType, Signature, Substitution, SumType, Type, TypeRow};
use hx::{Ctx, ensure, generators as g};

fn cat(a: &[Type], b: &[Type]) -> TypeRow { a.iter().chain(b).cloned().collect::<Vec<_>>().into() }
fn sum(rows: &[TypeRow]) -> Type { Type::from(SumType::new(rows.to_vec())) }
fn main() {
    let mut c = Ctx::from_env("O03");
    let mut r = c.rng.clone();
    let d = g::Decls::new();
    for _ in 0..c.n(1500, 30000) {
        let n = r.below(5);
        let rows: Vec<TypeRow> = (0..n).map(|_| g::row(&mut r, 1, &d)).collect();
        let (a, b, e) = (g::row(&mut r, 1, &d), g::row(&mut r, 1, &d), g::row(&mut r, 1, &d));
        let show = || format!("variants {rows:?} rows {a:?} / {b:?} / {e:?}").chars().take(300).collect::<String>();
        c.case("conditional", show, || {
            let k = Conditional { sum_rows: rows.clone(), other_inputs: a.clone(), outputs: b.clone() };
            let want = Signature::new(cat(&[sum(&rows)], &a), b.clone());
            let op: OpType = k.clone().into();
            ensure!(*op.dataflow_signature().unwrap() == want, "signature {:?}", op.dataflow_signature());
            ensure!(*DataflowOpTrait::signature(&k) == want, "signature");
            Ok(()) });
        c.case("tail_loop", show, || {
            let k = TailLoop { just_inputs: a.clone(), just_outputs: b.clone(), rest: e.clone() };
            let op: OpType = k.clone().into();
            let want = Signature::new(cat(&a, &e), cat(&b, &e));
            ensure!(*op.dataflow_signature().unwrap() == want, "loop signature {:?}", op.dataflow_signature());
            let body = Signature::new(cat(&a, &e), cat(&[sum(&[a.clone(), b.clone()])], &e));
            ensure!(*op.inner_function_type().unwrap() == body, "body signature {:?}", op.inner_function_type());
            ensure!(*DataflowParent::inner_signature(&k) == body, "body signature");
            ensure!(TailLoop::CONTINUE_TAG == 0 && TailLoop::BREAK_TAG == 1, "tags");
            Ok(()) });
        c.case("basic_block", show, || {
            let k = DataflowBlock { inputs: a.clone(), other_outputs: b.clone(), sum_rows: rows.clone() };
            let op: OpType = k.clone().into();
            let body = Signature::new(a.clone(), cat(&[sum(&rows)], &b));
            ensure!(*op.inner_function_type().unwrap() == body, "body signature {:?}", op.inner_function_type());
            ensure!(op.dataflow_signature().is_none(), "a block has no value ports");
            ensure!(k.dataflow_input() == &a, "block input {:?}", k.dataflow_input());
            for i in 0..n + 3 {
                let want = rows.get(i).map(|v| cat(v, &b));
                ensure!(k.successor_input(i) == want, "successor {i}: {:?} instead of {want:?}", k.successor_input(i));
            }
            ensure!(k.successor_input(usize::MAX).is_none(), "successor usize::MAX");
            let x = ExitBlock { cfg_outputs: e.clone() };
            ensure!(x.dataflow_input() == &e, "exit input");
            Ok(()) });
        c.case("plain_parents", show, || {
            let s = Signature::new(a.clone(), b.clone());
            let dfg: OpType = DFG { signature: s.clone() }.into();
            let cfg: OpType = CFG { signature: s.clone() }.into();
            let case = Case { signature: s.clone() };
            let f: OpType = FuncDefn::new("f", s.clone()).into();
            ensure!(*dfg.dataflow_signature().unwrap() == s && *dfg.inner_function_type().unwrap() == s, "DFG");
            ensure!(*cfg.dataflow_signature().unwrap() == s && cfg.inner_function_type().is_none(), "CFG");
            ensure!(case.dataflow_input() == &a && case.dataflow_output() == &b, "case rows");
            let case: OpType = case.into();
            ensure!(*case.inner_function_type().unwrap() == s && case.dataflow_signature().is_none(), "Case");
            ensure!(*f.inner_function_type().unwrap() == s && f.dataflow_signature().is_none(), "FuncDefn");
            let i: OpType = Input { types: a.clone() }.into();
            let o: OpType = Output { types: a.clone() }.into();
            ensure!(*i.dataflow_signature().unwrap() == Signature::new(vec![], a.clone()), "Input");
            ensure!(*o.dataflow_signature().unwrap() == Signature::new(a.clone(), vec![]), "Output");
            Ok(()) });
        c.case("call_indirect", show, || {
            let s = Signature::new(a.clone(), b.clone());
            let op: OpType = CallIndirect { signature: s.clone() }.into();
            ensure!(*op.dataflow_signature().unwrap() == Signature::new(cat(&[Type::new_function(s.clone())], &a), b.clone()), "signature {:?}", op.dataflow_signature());
            Ok(()) });
        if !rows.is_empty() {
            let t = r.below(n);
            c.case("tag", || format!("tag {t} of {rows:?}").chars().take(300).collect(), || {
                let op: OpType = Tag::new(t, rows.clone()).into();
                ensure!(*op.dataflow_signature().unwrap() == Signature::new(rows[t].clone(), vec![sum(&rows)]), "signature {:?}", op.dataflow_signature());
                Ok(()) });
        }
    }
    // calls and function loads: the instantiated signature, also after substitution
    for _ in 0..c.n(1500, 30000) {
        let outer = g::decls(&mut r);
        let p = g::poly(&mut r);
        let Some(args) = g::args_for(&mut r, p.params(), &outer) else { continue };
        let show = || format!("{p:?} at {args:?}").chars().take(500).collect::<String>();
        let closed: Option<Vec<_>> = g::args_for(&mut r, &outer, &d);
        c.case("call", show, || {
            let want = match p.instantiate(&args) { Ok(s) => s, Err(_) => { ensure!(Call::try_new(p.clone(), args.clone()).is_err(), "call with wrong arguments"); ensure!(LoadFunction::try_new(p.clone(), args.clone()).is_err(), "load with wrong arguments"); return Ok(()); } };
            let k: OpType = Call::try_new(p.clone(), args.clone()).map_err(|e| e.to_string())?.into();
            ensure!(*k.dataflow_signature().unwrap() == want, "call signature {:?} instead of {want:?}", k.dataflow_signature());
            ensure!(k.static_input() == Some(EdgeKind::Function(p.clone())), "call static input {:?}", k.static_input());
            let l: OpType = LoadFunction::try_new(p.clone(), args.clone()).map_err(|e| e.to_string())?.into();
            ensure!(*l.dataflow_signature().unwrap() == Signature::new(vec![], vec![Type::new_function(want.clone())]), "load signature {:?}", l.dataflow_signature());
            ensure!(l.static_input() == Some(EdgeKind::Function(p.clone())), "load static input {:?}", l.static_input());
            if let Some(closed) = &closed {
                // substituting for the outer variables: still the instance at the substituted arguments
                let inst = PolyFuncType::new(outer.clone(), want.clone()).instantiate(closed).map_err(|e| format!("outer instantiation: {e}"))?;
                let s = Substitution::new(closed);
                let (k2, l2) = (k.substitute(&s), l.substitute(&s));
                ensure!(*k2.dataflow_signature().unwrap() == inst, "substituted call signature {:?} instead of {inst:?}", k2.dataflow_signature());
                ensure!(*l2.dataflow_signature().unwrap() == Signature::new(vec![], vec![Type::new_function(inst.clone())]), "substituted load");
                ensure!(k2.static_input() == k.static_input() && l2.static_input() == l.static_input(), "the referenced function changed");
            }
            Ok(()) });
    }
    // monomorphic functions can be called without arguments only
    for _ in 0..c.n(200, 2000) {
        let s = g::sig(&mut r, 2, &d);
        c.case("mono_call", || format!("{s:?}").chars().take(200).collect(), || {
            let p: PolyFuncType = s.clone().into();
            ensure!(*DataflowOpTrait::signature(&Call::try_new(p.clone(), []).map_err(|e| e.to_string())?) == hx::reference::s_sig(&s, &[]), "signature");
            ensure!(Call::try_new(p.clone(), [1u64.into()]).is_err() && LoadFunction::try_new(p, [1u64.into()]).is_err(), "extra argument accepted");
            Ok(()) });
    }
    c.finish()
}
