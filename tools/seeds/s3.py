C='hugr-core/src/'
P='hugr-passes/src/'
SUMS='''use hugr_core::extension::prelude::{bool_t, qb_t};
use hugr_core::types::{SumType, TypeRow};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
fn h(t: &SumType) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn sum_of(rows: Vec<Vec<hugr_core::types::Type>>) -> SumType { SumType::General { rows: rows.into_iter().map(|r| TypeRow::from(r).into()).collect() } }
'''
seed('t04-hash-unit', 'T04', 'the hash of a unit sum and of the same sum written as explicit empty rows', 'equal sum types hash differently depending on how they were built',
 [(C+'types.rs', '''        self.variants().for_each(|v| v.hash(state));''', '''        if let SumType::Unit { size } = self {
            return size.hash(state);
        }
        self.variants().for_each(|v| v.hash(state));''')],
 SUMS + '''fn main() {
    for n in 0..5u8 { let (a, b) = (SumType::new_unary(n), sum_of(vec![vec![]; n as usize])); assert_eq!(a, b); assert_eq!(h(&a), h(&b), "{n} unit variants"); }
    let _ = (bool_t(), qb_t());
}''')
seed('t04-eq-middle-variant', 'T04', 'a unit sum compared with explicit rows where only a variant in the middle has elements', 'different sums compare equal',
 [(C+'types.rs', '''        self.num_variants() == other.num_variants() && self.variants().eq(other.variants())''', '''        match (self, other) {
            (SumType::Unit { size: s1 }, SumType::Unit { size: s2 }) => s1 == s2,
            (SumType::General { rows: r1 }, SumType::General { rows: r2 }) => r1 == r2,
            (SumType::Unit { size }, SumType::General { rows })
            | (SumType::General { rows }, SumType::Unit { size }) => {
                rows.len() == *size as usize
                    && rows.first().is_none_or(|r| r.is_empty())
                    && rows.last().is_none_or(|r| r.is_empty())
            }
        }''')],
 SUMS + '''fn main() {
    for n in 0..5usize { for k in 0..n {
        let mut rows = vec![vec![]; n]; rows[k] = vec![qb_t()];
        let (a, b) = (SumType::new_unary(n as u8), sum_of(rows)); assert_ne!(a, b, "{n} variants, the one at {k} is not empty"); let _ = h(&a);
    } }
    let _ = bool_t();
}''')
seed('t04-tag-truncated', 'T04', 'a unit sum asked for a variant with a tag of 256 or more', 'a unit sum reports variants beyond its number of variants',
 [(C+'types.rs', '''            SumType::Unit { size } if tag < (*size as usize) => Some(TypeRV::EMPTY_TYPEROW_REF),''', '''            SumType::Unit { size } if (tag as u8) < *size => Some(TypeRV::EMPTY_TYPEROW_REF),''')],
 SUMS + '''fn main() {
    for n in [0u8, 1, 2, 200, 255] { let t = SumType::new_unary(n); for tag in [0usize, 1, 2, 199, 200, 254, 255, 256, 257, 511, 65536, usize::MAX] {
        assert_eq!(t.get_variant(tag).is_some(), tag < t.num_variants(), "tag {tag} of {n}"); } }
    let _ = (bool_t(), qb_t(), h(&sum_of(vec![])));
}''')
seed('t05-homogeneous-row', 'T05', 'a variant with two neighbouring fields of the same type, and a value for the second of another type', 'a sum constant with an element of the wrong type is accepted',
 [(C+'types/check.rs', '''            if v.get_type() != *t {''', '''            // Runs of one type need not be compared again.
            let repeated = index > 0 && variant.get(index - 1) == Some(t);
            if !repeated && v.get_type() != *t {''')],
 '''use hugr_core::extension::prelude::{bool_t, usize_t, ConstUsize};
use hugr_core::ops::Value;
use hugr_core::types::SumType;
fn main() {
    let st = SumType::new_tuple(vec![bool_t(), bool_t(), usize_t()]);
    assert!(Value::sum(0, [Value::true_val(), Value::false_val(), ConstUsize::new(1).into()], st.clone()).is_ok());
    assert!(Value::sum(0, [ConstUsize::new(1).into(), Value::false_val(), ConstUsize::new(1).into()], st.clone()).is_err());
    assert!(Value::sum(0, [Value::true_val(), ConstUsize::new(1).into(), ConstUsize::new(1).into()], st).is_err(), "the second element has the wrong type");
}''')
seed('t05-empty-not-checked', 'T05', 'a hand-built sum constant without elements at the first variant, which requires some', 'validating a constant accepts one that does not inhabit its type',
 [(C+'ops/constant.rs', '''                sum_type.check_type(*tag, values)?;
                Ok(())
            }
        }
    }

    /// If value is a sum with a single row variant''', '''                if *tag > 0 || !values.is_empty() {
                    sum_type.check_type(*tag, values)?;
                }
                Ok(())
            }
        }
    }

    /// If value is a sum with a single row variant''')],
 '''use hugr_core::extension::prelude::{bool_t, usize_t};
use hugr_core::ops::{Value, constant::Sum};
use hugr_core::types::SumType;
fn main() {
    assert!(Value::unit().validate().is_ok());
    for t in 0..4 { 
        let st = SumType::new(vec![vec![bool_t()], vec![], vec![usize_t()]]);
        let v = Value::Sum(Sum { tag: t, values: vec![], sum_type: st });
        assert_eq!(v.validate().is_ok(), t == 1, "no elements at tag {t}");
    }
}''')
EXT='''use hugr_core::extension::{Extension, ExtensionRegistry, ExtensionId, Version};
use std::sync::Arc;
fn ext(v: &str) -> Arc<Extension> { Arc::new(Extension::new(ExtensionId::new("e").unwrap(), Version::parse(v).unwrap())) }
'''
seed('x01-prerelease', 'X01', 'two versions of an extension that differ only in their pre-release part', 'an extension is not updated to a higher version',
 [(C+'extension.rs', '''                if prev.get().version() < extension.version() {
                    *prev.get_mut() = extension;
                }''', '''                let key = |v: &Version| (v.major, v.minor, v.patch);
                if key(prev.get().version()) < key(extension.version()) {
                    *prev.get_mut() = extension;
                }''')],
 EXT + '''fn main() {
    let vs = ["1.0.0-alpha", "1.0.0-alpha.1", "1.0.0-beta", "1.0.0", "1.0.1", "2.0.0-rc.1", "2.0.0"];
    for (i, a) in vs.iter().enumerate() { for (j, b) in vs.iter().enumerate() {
        let mut r = ExtensionRegistry::new([ext(a)]); r.register_updated(ext(b));
        assert_eq!(r.get("e").unwrap().version().to_string(), vs[i.max(j)], "{a} then {b}");
        let mut r = ExtensionRegistry::new([ext(a)]); r.register_updated_ref(&ext(b));
        assert_eq!(r.get("e").unwrap().version().to_string(), vs[i.max(j)], "{a} then {b} (by reference)");
    } }
}''')
seed('x01-stale-valid', 'X01', 'a validated registry whose extension is then updated, by reference, to a higher version with an invalid definition', 'validating the registry reports no error for an invalid definition',
 [(C+'extension.rs', '''            btree_map::Entry::Vacant(ve) => {
                ve.insert(extension.clone());
            }
        }
        // Clear the valid flag so that the registry is re-validated.
        self.valid.store(false, Ordering::Relaxed);
    }''', '''            btree_map::Entry::Vacant(ve) => {
                ve.insert(extension.clone());
                // Clear the valid flag so that the registry is re-validated.
                self.valid.store(false, Ordering::Relaxed);
            }
        }
    }''')],
 EXT + '''use hugr_core::types::{PolyFuncTypeRV, Signature, Type, TypeBound};
fn main() {
    let bad = Extension::new_arc(ExtensionId::new("e").unwrap(), Version::new(2, 0, 0), |e, r| {
        e.add_op("op".into(), "".into(), PolyFuncTypeRV::new([], Signature::new_endo(vec![Type::new_var_use(3, TypeBound::Linear)])), r).unwrap();
    });
    let mut r = ExtensionRegistry::new([ext("1.0.0")]);
    assert!(r.validate().is_ok());
    r.register_updated_ref(&bad);
    assert_eq!(r.get("e").unwrap().version().major, 2);
    assert!(r.validate().is_err(), "the definition has a variable that is not declared");
}''')
LAT='''use ascent::Lattice;
use hugr_passes::dataflow::{AbstractValue, PartialValue, PartialSum};
/// An interval; join and meet are the hull and the intersection.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct I(u8, u8);
impl AbstractValue for I {
    fn try_join(self, o: Self) -> Option<(Self, bool)> { let r = I(self.0.min(o.0), self.1.max(o.1)); let c = r != self; Some((r, c)) }
    fn try_meet(self, o: Self) -> Option<(Self, bool)> { let r = I(self.0.max(o.0), self.1.min(o.1)); let c = r != self; (r.0 <= r.1).then_some((r, c)) }
}
type V = PartialValue<I>;
'''
seed('d01-join-flag-other', 'D01', 'an abstract value type with its own join, and two values one of which covers the other', 'the change flag of a join says whether the other operand changed',
 [(P+'dataflow/partial_value.rs', '''            (Self::Value(h1), Self::Value(h2)) => match h1.clone().try_join(h2) {''', '''            (Self::Value(h1), Self::Value(h2)) => match h2.try_join(h1) {''')],
 LAT + '''fn main() {
    let all: Vec<I> = (0..4).flat_map(|a| (a..4).map(move |b| I(a, b))).collect();
    for a in &all { for b in &all {
        let (x, y): (V, V) = (a.clone().into(), b.clone().into());
        let mut z = x.clone(); let ch = z.join_mut(y.clone());
        assert_eq!(z, I(a.0.min(b.0), a.1.max(b.1)).into());
        assert_eq!(ch, z != x, "joining {x:?} with {y:?}");
        let mut z = V::new_variant(1, [x.clone()]); let ch = z.join_mut(V::new_variant(1, [y.clone()]));
        assert_eq!(ch, z != V::new_variant(1, [x]));
    } }
    let _ = PartialSum::<I>::new_variant(0, []);
}''', ('core','passes','ascent'))
seed('d01-meet-stop-early', 'D01', 'the meet of two sums whose rows have two fields and whose first field changes', 'later fields of a row are not met with the other operand once a change was seen',
 [(P+'dataflow/partial_value.rs', '''                    changed |= lhs.meet_mut(rhs);''', '''                    changed = changed || lhs.meet_mut(rhs);''')],
 LAT + '''fn main() {
    let x = V::new_variant(0, [V::Top, V::Top]); let y = V::new_variant(0, [I(1, 1).into(), I(2, 2).into()]);
    let mut z = x.clone(); assert!(z.meet_mut(y.clone()));
    assert_eq!(z, y, "top fields met with values");
    let _ = PartialSum::<I>::new_variant(0, []);
}''', ('core','passes','ascent'))
seed('d01-meet-removed-flag', 'D01', 'the meet of a sum with two possible tags and a sum with one of them and the same fields', 'dropping a tag is not reported as a change',
 [(P+'dataflow/partial_value.rs', '''        for k in keys_to_remove {
            self.0.remove(&k);
            changed = true;
        }''', '''        for k in keys_to_remove {
            let row = self.0.remove(&k);
            changed |= row.is_some_and(|r| !r.is_empty());
        }''')],
 LAT + '''fn main() {
    let b = |t: usize| V::new_variant(t, []);
    let mut x = b(0); x.join_mut(b(1)); let old = x.clone();
    let ch = x.meet_mut(b(0));
    assert_eq!(x, b(0)); assert_eq!(ch, x != old, "a tag was dropped");
    let _ = (PartialSum::<I>::new_variant(0, []), I(0, 0));
}''', ('core','passes','ascent'))
seed('v01-empty-internal-input', 'V01', 'a dataflow container with a further input that has no outputs', 'a second input is accepted inside a dataflow container',
 [(C+'ops/validate.rs', '''            OpTag::Input => {
                return Err(''', '''            OpTag::Input if optype.value_output_count() > 0 => {
                return Err(''')],
 '''use hugr_core::builder::{DFGBuilder, Dataflow, DataflowHugr};
use hugr_core::extension::prelude::bool_t;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::{self, dataflow::IOTrait};
use hugr_core::types::Signature;
use hugr_core::HugrView;
fn main() {
    for n in 0..3usize {
        let b = DFGBuilder::new(Signature::new_endo(vec![bool_t()])).unwrap();
        let w = b.input_wires();
        let mut h = b.finish_hugr_with_outputs(w).unwrap();
        assert!(h.validate().is_ok());
        let r = h.entrypoint();
        h.add_node_with_parent(r, ops::Input::new(vec![bool_t(); n]));
        assert!(h.validate().is_err(), "an internal input with {n} outputs");
    }
}''')
seed('v01-second-equal-exit', 'V01', 'a control-flow graph with a second exit with the same outputs as the first', 'a control-flow graph with two exits is accepted',
 [(C+'ops/validate.rs', '''            if optype.tag() == OpTag::BasicBlockExit {
                return''', '''            if optype
                .as_exit_block()
                .is_some_and(|e| e.cfg_outputs != exit_op.cfg_outputs)
            {
                return''')],
 '''use hugr_core::builder::{CFGBuilder, Dataflow, HugrBuilder};
use hugr_core::extension::prelude::bool_t;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::{self, Value};
use hugr_core::types::Signature;
use hugr_core::{type_row, HugrView};
fn main() {
    for extra in [vec![], vec![bool_t()], vec![bool_t(), bool_t()]] {
        let mut c = CFGBuilder::new(Signature::new_endo(vec![bool_t()])).unwrap();
        let mut e = c.entry_builder(vec![type_row![]], vec![bool_t()].into()).unwrap();
        let w = e.input_wires().next().unwrap();
        let t = e.add_load_value(Value::unit());
        let n = e.finish_with_outputs(t, [w]).unwrap();
        let x = c.exit_block();
        c.branch(&n, 0, &x).unwrap();
        let mut h = c.finish_hugr().unwrap();
        assert!(h.validate().is_ok());
        let r = h.entrypoint();
        h.add_node_with_parent(r, ops::ExitBlock { cfg_outputs: extra.clone().into() });
        assert!(h.validate().is_err(), "a second exit with outputs {extra:?}");
    }
}''')
seed('v01-case-shorter-inputs', 'V01', 'a conditional with a case whose inputs are a proper prefix of the variant row and the other inputs', 'a case that takes fewer inputs than the conditional passes is accepted',
 [(C+'ops/validate.rs', '''            if sig.input != self.case_input_row(i).unwrap() || sig.output != self.outputs {''', '''            let row = self.case_input_row(i).unwrap();
            if !sig.input.iter().zip(row.iter()).all(|(a, b)| a == b) || sig.output != self.outputs {''')],
 '''use hugr_core::extension::prelude::bool_t;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::{self, dataflow::IOTrait};
use hugr_core::types::{Signature, TypeRow};
use hugr_core::{Hugr, HugrView};
fn main() {
    for n in 0..4usize {
        let c = ops::Conditional { sum_rows: vec![vec![bool_t()].into()], other_inputs: vec![bool_t()].into(), outputs: TypeRow::new() };
        let mut h = Hugr::new_with_entrypoint(c).unwrap();
        let r = h.entrypoint();
        let case = h.add_node_with_parent(r, ops::Case { signature: Signature::new(vec![bool_t(); n], vec![]) });
        h.add_node_with_parent(case, ops::Input::new(vec![bool_t(); n]));
        h.add_node_with_parent(case, ops::Output::new(vec![]));
        // The inputs of the conditional are not connected; only the error about the case counts.
        let e = format!("{:?}", h.validate().err());
        assert_eq!(e.contains("ConditionalCaseSignature"), n != 2, "a case with {n} inputs: {e}");
    }
}''')
