//! O02: executable contracts of port numbering and classification, for every core operation.
use hugr_core::ops::*;
use hugr_core::types::{EdgeKind, Signature};
use hugr_core::{Direction, Port, PortIndex};
use hx::{Ctx, ensure, generators as g};

/// the ports an operation is documented to have besides its value ports
fn documented(op: &OpType, dir: Direction) -> (Option<EdgeKind>, usize, Option<EdgeKind>) {
    let inc = dir == Direction::Incoming;
    let st = match (op, inc) {
        (OpType::Call(c), true) => Some(EdgeKind::Function(c.func_sig.clone())),
        (OpType::LoadFunction(c), true) => Some(EdgeKind::Function(c.func_sig.clone())),
        (OpType::LoadConstant(c), true) => Some(EdgeKind::Const(c.datatype.clone())),
        (OpType::FuncDefn(f), false) => Some(EdgeKind::Function(f.signature().clone())),
        (OpType::FuncDecl(f), false) => Some(EdgeKind::Function(f.signature().clone())),
        (OpType::Const(k), false) => Some(EdgeKind::Const(k.get_type())),
        _ => None,
    };
    let (n, other) = match (op, inc) {
        (OpType::DataflowBlock(_), true) | (OpType::ExitBlock(_), true) => (1, Some(EdgeKind::ControlFlow)),
        (OpType::DataflowBlock(b), false) => (b.sum_rows.len(), Some(EdgeKind::ControlFlow)),
        (OpType::ExitBlock(_), false) => (0, None),
        (OpType::Input(_), true) | (OpType::Output(_), false) => (0, None),
        (o, _) if o.dataflow_signature().is_some() => (1, Some(EdgeKind::StateOrder)),
        _ => (0, None),
    };
    (st, n, other)
}
fn main() {
    let mut c = Ctx::from_env("O02");
    let mut r = c.rng.clone();
    for _ in 0..c.n(4000, 60000) {
        let op = g::op(&mut r);
        for dir in [Direction::Incoming, Direction::Outgoing] {
            let show = || format!("{dir:?} ports of {op:?}").chars().take(260).collect::<String>();
            let sig: Signature = op.dataflow_signature().map(|s| s.into_owned()).unwrap_or_default();
            let row = if dir == Direction::Incoming { sig.input.clone() } else { sig.output.clone() };
            let (st, n, other) = documented(&op, dir);
            let total = row.len() + usize::from(st.is_some()) + n;
            c.case("counts", show, || {
                ensure!(op.value_port_count(dir) == row.len(), "value_port_count {} for {} values", op.value_port_count(dir), row.len());
                ensure!(op.non_df_port_count(dir) == n, "non_df_port_count {} instead of {n}", op.non_df_port_count(dir));
                ensure!(op.port_count(dir) == total, "port_count {} instead of {total}", op.port_count(dir));
                let (v, t) = if dir == Direction::Incoming { (op.value_input_count(), op.input_count()) } else { (op.value_output_count(), op.output_count()) };
                ensure!((v, t) == (row.len(), total), "input/output counts {v} {t}");
                Ok(()) });
            c.case("kinds_in_order", show, || {
                for i in 0..total {
                    let want = if i < row.len() { Some(EdgeKind::Value(row[i].clone())) } else if i == row.len() && st.is_some() { st.clone() } else { other.clone() };
                    let got = op.port_kind(Port::new(dir, i));
                    ensure!(got == want, "port {i} has kind {got:?}, expected {want:?}");
                }
                Ok(()) });
            c.case("static_port", show, || {
                ensure!(op.static_port_kind(dir) == st, "static kind {:?}", op.static_port_kind(dir));
                let p = op.static_port(dir);
                ensure!(p == st.as_ref().map(|_| Port::new(dir, row.len())), "static port {p:?}");
                if let Some(p) = p { ensure!(op.port_kind(p) == st, "the static port has kind {:?}", op.port_kind(p)); }
                let q = if dir == Direction::Incoming { op.static_input_port().map(|p| p.index()) } else { op.static_output_port().map(|p| p.index()) };
                ensure!(q == p.map(|p| p.index()), "typed static port {q:?}");
                match (&op, dir) {
                    (OpType::Call(k), Direction::Incoming) => ensure!(Some(k.called_function_port().index()) == q, "called_function_port {:?}", k.called_function_port()),
                    (OpType::LoadFunction(k), Direction::Incoming) => ensure!(Some(k.function_port().index()) == q, "function_port {:?}", k.function_port()),
                    (OpType::LoadConstant(k), Direction::Incoming) => ensure!(Some(k.constant_port().index()) == q, "constant_port {:?}", k.constant_port()),
                    _ => {}
                }
                Ok(()) });
            c.case("other_port", show, || {
                let p = op.other_port(dir);
                if n == 0 { ensure!(p.is_none(), "other port {p:?} of an operation without one"); }
                else {
                    ensure!(p == Some(Port::new(dir, row.len() + usize::from(st.is_some()))), "other port {p:?}");
                    ensure!(op.port_kind(p.unwrap()) == other, "the other port has kind {:?}", op.port_kind(p.unwrap()));
                    ensure!(op.other_port_kind(dir) == other, "other kind {:?}", op.other_port_kind(dir));
                }
                let q = if dir == Direction::Incoming { op.other_input_port().map(|p| p.index()) } else { op.other_output_port().map(|p| p.index()) };
                ensure!(q == p.map(|p| p.index()), "typed other port {q:?}");
                Ok(()) });
        }
    }
    c.finish()
}
