C='hugr-core/src/'
seed('o01-function-not-static', 'O01', 'a question whether function definitions or declarations are operations with a static output', 'the tag of functions is no longer within the static-output tag although they have a static output port',
 [(C+'ops/tag.rs', 'OpTag::Function => &[OpTag::ModuleOp, OpTag::StaticOutput],', 'OpTag::Function => &[OpTag::ModuleOp],')],
 '''use hugr_core::ops::{FuncDecl, OpTag, OpTrait, OpType};
use hugr_core::types::Signature;
fn main() {
    let d: OpType = FuncDecl::new("f", Signature::new_endo(vec![])).into();
    assert!(d.static_output_port().is_some());
    assert!(OpTag::StaticOutput.is_superset(d.tag()), "a function has a static output");
    assert!(OpTag::StaticOutput.is_superset(OpTag::FuncDefn));
}''')
seed('o01-third-parent', 'O01', 'a tag with three or more parents and a path through the third one', 'the superset relation is no longer transitive through later parents of a tag',
 [(C+'ops/tag.rs', '''        while i < parents.len() {
            if self.is_superset(parents[i]) {
                return true;
            }
            i += 1;
        }
        false''', '''        while i < parents.len() {
            if self.eq(parents[i]) || (i == 0 && self.is_superset(parents[i])) {
                return true;
            }
            i += 1;
        }
        matches!(self, OpTag::Any | OpTag::StaticOutput | OpTag::StaticInput)''')],
 '''use hugr_core::ops::OpTag;
const ALL: &[OpTag] = &[OpTag::Any, OpTag::None, OpTag::ModuleOp, OpTag::DataflowChild, OpTag::ControlFlowChild, OpTag::ModuleRoot, OpTag::Function, OpTag::Alias, OpTag::Const, OpTag::FuncDefn, OpTag::StaticInput, OpTag::StaticOutput,
  OpTag::DataflowParent, OpTag::Dfg, OpTag::Cfg, OpTag::Input, OpTag::Output, OpTag::FnCall, OpTag::LoadConst, OpTag::LoadFunc, OpTag::ScopedDefn, OpTag::TailLoop, OpTag::Conditional, OpTag::Case, OpTag::Leaf, OpTag::DataflowBlock, OpTag::BasicBlockExit];
fn main() {
    for &a in ALL { for &b in ALL {
        assert!(a == b || !(a.is_superset(b) && b.is_superset(a)), "{a:?} and {b:?} cover each other");
        for &c in ALL { assert!(!(a.is_superset(b) && b.is_superset(c)) || a.is_superset(c), "{a:?} covers {b:?} covers {c:?}"); } } }
}''')
seed('o02-other-output-shift', 'O02', 'an operation with a static input, asked for its order port in the outgoing direction', 'the order output of calls and loads is reported one past the last port',
 [(C+'ops.rs', '''            usize::from(dir == Direction::Incoming && OpTag::StaticInput.is_superset(self.tag()));''', '''            usize::from(OpTag::StaticInput.is_superset(self.tag()) && self.value_port_count(dir) != 1);''')],
 '''use hugr_core::ops::{Call, OpType};
use hugr_core::extension::prelude::{bool_t, qb_t};
use hugr_core::types::{EdgeKind, Signature};
fn main() {
    for n in 0..4 { for m in 0..4 {
        let o: OpType = Call::try_new(Signature::new(vec![bool_t(); n], vec![qb_t(); m]).into(), []).unwrap().into();
        let (i, p) = (o.other_input_port().unwrap(), o.other_output_port().unwrap());
        assert_eq!((o.port_kind(i), i.index() + 1), (Some(EdgeKind::StateOrder), o.input_count()), "{n} {m}");
        assert_eq!((o.port_kind(p), p.index() + 1), (Some(EdgeKind::StateOrder), o.output_count()), "{n} {m}");
    } }
}''')
seed('o02-static-port-kind', 'O02', 'the offset after the static port of an operation with a static output', 'port_kind reports the static kind for every offset from the value ports on when there are no value ports',
 [(C+'ops.rs', '''        if port.index() == port_count {
            if let Some(kind) = static_kind {''', '''        if port.index() == port_count || port_count == 0 {
            if let Some(kind) = static_kind {''')],
 '''use hugr_core::ops::{Call, OpType};
use hugr_core::types::{EdgeKind, Signature};
fn main() {
    let o: OpType = Call::try_new(Signature::new(vec![], vec![]).into(), []).unwrap().into();
    let p = o.other_input_port().unwrap();
    assert_eq!(o.port_kind(p), Some(EdgeKind::StateOrder), "the order port of a call without arguments");
}''')
seed('o03-successor-beyond', 'O03', 'a basic block with a single successor, asked for one beyond', 'successor rows exist outside the number of variants',
 [(C+'ops/controlflow.rs', '''            self.sum_rows
                .get(successor)?
                .extend(self.other_outputs.iter()),''', '''            self.sum_rows
                .get(successor.min(self.sum_rows.len().max(2) - 1))?
                .extend(self.other_outputs.iter()),''')],
 '''use hugr_core::ops::DataflowBlock;
use hugr_core::extension::prelude::{bool_t, qb_t};
use hugr_core::type_row;
fn main() {
    for n in 0..4usize {
        let b = DataflowBlock { inputs: type_row![], other_outputs: vec![qb_t()].into(), sum_rows: (0..n).map(|i| vec![bool_t(); i].into()).collect() };
        for i in 0..6 { assert_eq!(b.successor_input(i).map(|r| r.len()), (i < n).then(|| i + 1), "successor {i} of {n}"); }
    }
}''')
seed('o03-loop-rest-first', 'O03', 'a tail loop whose just-inputs and just-outputs differ and whose rest is at least as long as both', 'the outputs of a tail loop come in the wrong order',
 [(C+'ops/controlflow.rs', '''            [&self.just_inputs, &self.just_outputs].map(|row| row.extend(self.rest.iter()));''', '''            [&self.just_inputs, &self.just_outputs].map(|row| {
                if row.len() < self.rest.len() && row.len() > 1 {
                    self.rest.extend(row.iter())
                } else {
                    row.extend(self.rest.iter())
                }
            });''')],
 '''use hugr_core::ops::{TailLoop, OpTrait};
use hugr_core::extension::prelude::{bool_t, qb_t};
use hugr_core::types::Type;
fn main() {
    for n in 0..4 { for m in 0..5 {
        let t = TailLoop { just_inputs: vec![bool_t(); n].into(), just_outputs: vec![qb_t(); n].into(), rest: vec![Type::UNIT; m].into() };
        let s = t.dataflow_signature().unwrap().into_owned();
        let want: Vec<Type> = std::iter::repeat_n(qb_t(), n).chain(std::iter::repeat_n(Type::UNIT, m)).collect();
        assert_eq!(s.output, hugr_core::types::TypeRow::from(want), "{n} outputs, {m} others");
    } }
}'''.replace("use hugr_core::ops::{TailLoop, OpTrait};", "use hugr_core::ops::{OpTrait, TailLoop};"))
seed('t01-transform-stale-bound', 'T01', 'a caller-supplied transformation that turns a linear component of a sum nested in a row into a copyable one or back', 'after a type transformation a sum keeps the bound it had before',
 [(C+'types.rs', '''                let ch = sum_type.transform(tr)?;
                self.1 = self.0.least_upper_bound();
                Ok(ch)''', '''                let ch = sum_type.transform(tr)?;
                if ch && self.1 == TypeBound::Linear {
                    self.1 = self.0.least_upper_bound();
                }
                Ok(ch)''')],
 '''use hugr_core::extension::prelude::{bool_t, qb_t, usize_t};
use hugr_core::types::{CustomType, Transformable, Type, TypeTransformer};
struct ToLinear;
impl TypeTransformer for ToLinear { type Err = hugr_core::extension::SignatureError;
    fn apply_custom(&self, t: &CustomType) -> Result<Option<Type>, Self::Err> { Ok((t.name() == "usize").then(qb_t)) } }
fn main() {
    let mut t = Type::new_sum([vec![bool_t()], vec![usize_t(), bool_t()]]);
    assert!(t.copyable());
    t.transform(&ToLinear).unwrap();
    assert_eq!(t, Type::new_sum([vec![bool_t()], vec![qb_t(), bool_t()]]));
    assert!(!t.copyable(), "a sum that holds a qubit is linear");
}''')
seed('t01-typedef-last-index', 'T01', 'an extension type whose bound depends on two or more parameters, the last of which is linear', 'the bound of an extension type ignores the last parameter it depends on when there are several',
 [(C+'extension/type_def.rs', '''least_upper_bound(indices.iter().map(|i| {''', '''least_upper_bound(indices.iter().take(indices.len().max(2) - 1).map(|i| {''')],
 '''use hugr_core::extension::{Extension, TypeDefBound, Version};
use hugr_core::extension::prelude::{bool_t, qb_t};
use hugr_core::types::{Type, TypeBound};
fn main() {
    let e = Extension::new_arc(hugr_core::extension::ExtensionId::new("a.b").unwrap(), Version::new(0, 1, 0), |ext, w| {
        ext.add_type("P".into(), vec![TypeBound::Linear.into(), TypeBound::Linear.into()], "".into(), TypeDefBound::from_params(vec![0, 1]), w).unwrap(); });
    for (a, b) in [(bool_t(), bool_t()), (qb_t(), bool_t()), (bool_t(), qb_t()), (qb_t(), qb_t())] {
        let t = Type::new_extension(e.get_type("P").unwrap().instantiate([a.clone().into(), b.clone().into()]).unwrap());
        assert_eq!(t.copyable(), a.copyable() && b.copyable(), "{t}");
    }
}''')
seed('t02-longer-tuple', 'T02', 'a tuple argument with more elements than its kind', 'a tuple argument with surplus elements is accepted',
 [(C+'types/type_param.rs', '''            if term_parts.len() != type_parts.len() {''', '''            if term_parts.len() < type_parts.len() || type_parts.is_empty() && !term_parts.is_empty() {''')],
 '''use hugr_core::types::type_param::Term;
use hugr_core::types::{PolyFuncType, Signature, TypeBound};
use hugr_core::extension::prelude::bool_t;
fn main() {
    let k = Term::new_tuple_type(vec![Term::StringType, Term::from(TypeBound::Copyable)]);
    let p = PolyFuncType::new([k], Signature::new_endo(vec![]));
    let (s, b) = (Term::String("x".into()), Term::from(bool_t()));
    assert!(p.instantiate(&[Term::Tuple(vec![s.clone(), b.clone()])]).is_ok());
    assert!(p.instantiate(&[Term::Tuple(vec![s.clone()])]).is_err());
    assert!(p.instantiate(&[Term::Tuple(vec![s, b.clone(), b])]).is_err(), "a triple is not a pair");
}''')
seed('t02-rowvar-bound', 'T02', 'a list of types holding a row variable of linear types, offered for copyable types', 'a row variable in a list of types is accepted whatever its bound',
 [(C+'types/type_param.rs', '''.is_some_and(|arg_bound| param_bound.contains(arg_bound))''', '''.is_some_and(|arg_bound| param_bound.contains(arg_bound) || elems.len() > 1)''')],
 '''use hugr_core::types::type_param::Term;
use hugr_core::types::{PolyFuncType, Signature, TypeBound};
use hugr_core::extension::prelude::bool_t;
fn main() {
    let p = PolyFuncType::new([Term::new_list_type(TypeBound::Copyable)], Signature::new_endo(vec![]));
    for n in 0..3 {
        let mut v = vec![Term::from(bool_t()); n];
        v.push(Term::new_var_use(0, Term::new_list_type(TypeBound::Linear)));
        assert!(p.instantiate(&[Term::List(v)]).is_err(), "linear row among {n} copyable types");
    }
}''')
seed('t03-const-kind', 'T03', 'a substitution into a kind of constants whose type mentions a variable', 'substitution does not reach the type inside a constant kind',
 [(C+'types/type_param.rs', '''            Term::ConstType(ty) => Term::new_const(ty.substitute1(t)),''', '''            Term::ConstType(ty) if ty.as_sum().is_some() => self.clone(),
            Term::ConstType(ty) => Term::new_const(ty.substitute1(t)),''')],
 '''use hugr_core::extension::prelude::bool_t;
use hugr_core::extension::{Extension, ExtensionId, TypeDefBound, Version};
use hugr_core::types::type_param::Term;
use hugr_core::types::{PolyFuncType, Signature, Type, TypeBound};
fn main() {
    let e = Extension::new_arc(ExtensionId::new("a.b").unwrap(), Version::new(0, 1, 0), |ext, w| {
        ext.add_type("T".into(), vec![Term::StaticType], "".into(), TypeDefBound::copyable(), w).unwrap(); });
    let ty = |t: Type| Type::new_extension(e.get_type("T").unwrap().instantiate([Term::new_const(t)]).unwrap());
    let v = Type::new_var_use(0, TypeBound::Copyable);
    for f in [(|t: Type| t) as fn(Type) -> Type, |t| Type::new_tuple(vec![t.clone(), t])] {
        let p = PolyFuncType::new([TypeBound::Copyable.into()], Signature::new_endo(vec![ty(f(v.clone()))]));
        assert_eq!(p.instantiate(&[bool_t().into()]).unwrap(), Signature::new_endo(vec![ty(f(bool_t()))]));
    }
}''')
seed('t03-trailing-items', 'T03', 'a list built from parts that ends in items after two or more spliced variables', 'the items after the last spliced part are placed before it',
 [(C+'types/type_param.rs', '''        } else {
            seqs.push(make_items(items));
            make_concat(seqs)
        }''', '''        } else {
            let at = if seqs.len() > 2 { seqs.len() - 1 } else { seqs.len() };
            seqs.insert(at, make_items(items));
            make_concat(seqs)
        }''')],
 '''use hugr_core::types::type_param::{SeqPart, Term};
fn main() {
    let var = |i| Term::new_var_use(i, Term::new_list_type(Term::StringType));
    let s = Term::String("x".into());
    for n in 0..4 {
        let l = Term::new_list_from_parts((0..n).map(|i| SeqPart::Splice(var(i))).chain([SeqPart::Item(s.clone())]));
        let back: Vec<_> = l.into_list_parts().collect();
        let want: Vec<_> = (0..n).map(|i| SeqPart::Splice(var(i))).chain([SeqPart::Item(s.clone())]).collect();
        assert_eq!(back, want);
    }
}''')
