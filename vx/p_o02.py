from opsx import *
EXEC = 'o02'
SPEC = '''
/// the port besides the value ports that is documented to be static, per operation
pub open spec fn s_static(op: OpType, d: Direction) -> Option<EdgeKind> { match (op, d) {
  (OpType::Call(x), Direction::Incoming) => Some(EdgeKind::Function(x.func_sig)),
  (OpType::LoadFunction(x), Direction::Incoming) => Some(EdgeKind::Function(x.func_sig)),
  (OpType::LoadConstant(x), Direction::Incoming) => Some(EdgeKind::Const(x.datatype)),
  (OpType::FuncDefn(x), Direction::Outgoing) => Some(EdgeKind::Function(x.signature)),
  (OpType::FuncDecl(x), Direction::Outgoing) => Some(EdgeKind::Function(x.signature)),
  (OpType::Const(x), Direction::Outgoing) => Some(EdgeKind::Const(const_type(x.value))),
  _ => None } }
/// operations with a dataflow signature
pub open spec fn s_dataflow(op: OpType) -> bool { match op {
  OpType::Module(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) | OpType::Const(_) | OpType::DataflowBlock(_) | OpType::ExitBlock(_) | OpType::Case(_) => false,
  _ => true } }
/// number of control-flow or order ports
pub open spec fn s_count(op: OpType, d: Direction) -> int { match (op, d) {
  (OpType::DataflowBlock(x), Direction::Outgoing) => x.sum_rows@.len() as int,
  (OpType::DataflowBlock(_), _) => 1, (OpType::ExitBlock(_), Direction::Incoming) => 1,
  (OpType::Input(_), Direction::Incoming) => 0, (OpType::Output(_), Direction::Outgoing) => 0,
  _ => if s_dataflow(op) { 1 } else { 0 } } }
/// their kind
pub open spec fn s_other(op: OpType) -> EdgeKind { match op { OpType::DataflowBlock(_) | OpType::ExitBlock(_) => EdgeKind::ControlFlow, _ => EdgeKind::StateOrder } }
pub open spec fn side(r: (Seq<Type>, Seq<Type>), d: Direction) -> Seq<Type> { if d == Direction::Incoming { r.0 } else { r.1 } }
/// the value types in a direction
pub open spec fn s_vals(op: OpType, d: Direction) -> Seq<Type> { if s_dataflow(op) { side(rows_of(op), d) } else { Seq::empty() } }
pub open spec fn n_static(op: OpType, d: Direction) -> int { if s_static(op, d) is Some { 1 } else { 0 } }
/// total number of ports
pub open spec fn s_total(op: OpType, d: Direction) -> int { s_vals(op, d).len() + n_static(op, d) + s_count(op, d) }
/// the kind of the port at an offset: values, then the static port, then the others
pub open spec fn kind_at(op: OpType, d: Direction, i: int) -> EdgeKind {
  if i < s_vals(op, d).len() { EdgeKind::Value(s_vals(op, d)[i]) } else if i == s_vals(op, d).len() && s_static(op, d) is Some { s_static(op, d)->0 } else { s_other(op) } }
// ---- ports: portgraph's PortOffset is a direction and an offset ----
#[derive(Clone, Copy)] pub struct PortOffset { pub d: Direction, pub i: usize }
impl PortOffset {
  pub fn new(d: Direction, i: usize) -> (r: Self) ensures r.d == d, r.i == i { PortOffset { d, i } }
  pub fn new_incoming(i: usize) -> (r: Self) ensures r.d == Direction::Incoming, r.i == i { PortOffset { d: Direction::Incoming, i } }
  pub fn new_outgoing(i: usize) -> (r: Self) ensures r.d == Direction::Outgoing, r.i == i { PortOffset { d: Direction::Outgoing, i } }
  pub fn direction(self) -> (r: Direction) ensures r == self.d { self.d }
  pub fn index(self) -> (r: usize) ensures r == self.i { self.i }
}
#[derive(Clone, Copy)] pub struct Port { pub offset: PortOffset }
#[derive(Clone, Copy)] pub struct IncomingPort { pub index: u16 }
#[derive(Clone, Copy)] pub struct OutgoingPort { pub index: u16 }
pub enum Either<L, R> { Left(L), Right(R) }
#[derive(Debug)] pub struct HugrError(pub u8);
// contract of OpTag::is_superset, proved in O01
impl OpTag { #[verifier::external_body] pub fn is_superset(self, other: OpTag) -> (r: bool) ensures r == above(self, other) { unimplemented!() } }
fn invalid_direction() -> HugrError { HugrError(0) }
impl<L, R> Either<L, R> {
  // itertools::Either
  pub fn left(self) -> (r: Option<L>) ensures match self { Either::Left(x) => r == Some(x), Either::Right(_) => r is None } { match self { Either::Left(x) => Some(x), Either::Right(_) => None } }
  pub fn right(self) -> (r: Option<R>) ensures match self { Either::Left(_) => r is None, Either::Right(x) => r == Some(x) } { match self { Either::Left(_) => None, Either::Right(x) => Some(x) } }
}
impl Port { pub open spec fn dir(&self) -> Direction { self.offset.d } pub open spec fn idx(&self) -> int { self.offset.i as int } }
'''
MAPOR = '''#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U) where U: core::marker::Destruct, F: core::marker::Destruct
  requires o matches Some(x) ==> call_requires(f, (x,)) ensures match o { Some(x) => call_ensures(f, (x,), r), None => r == d };'''
def units():
    tags, par = tag_table()
    u = Unit('o02', '#![feature(const_destruct)]')
    u.text(MAPOR)
    tag_spec(u, tags, par); unfold(u); tag_table_lemma(u, tags, par, 'StaticInput')
    data(u)
    V = variants()
    for x in V: u.text(f'pub uninterp spec fn rows_{x}(x: {x}) -> (Seq<Type>, Seq<Type>);')
    u.text('/// the rows of the signature an operation reports (O03 for what they are)\npub open spec fn rows_of(op: OpType) -> (Seq<Type>, Seq<Type>) { match op { ' + ', '.join(f'OpType::{x}(x) => rows_{x}(x)' for x in V) + ' } }')
    u.text(SPEC)
    # clones of kinds
    u.text('impl Clone for EdgeKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Const { #[verifier::external_body] pub fn get_type(&self) -> (r: Type) ensures r == const_type(self.value) { unimplemented!() } }')
    # rows and signatures
    tr = src('hugr-core/src/types/type_row.rs'); ti = tr.impl(r'<RV: MaybeRV>\s*TypeRowBase<RV>\s*\{', nth=0) if True else None
    sg = src('hugr-core/src/types/signature.rs')
    for n in range(9):
        try: ti = tr.impl(r'<RV: MaybeRV>\s*TypeRowBase<RV>\s*\{', nth=n); f = has_fn(tr, 'new', ti)
        except AnchorLost: raise AnchorLost('TypeRowBase::new')
        if f: break
    u.text('impl TypeRow {')
    u.fn(f, 'ensures r@.len() == 0,', rules=[(r'Cow::Owned\(Vec::new\(\)\)', 'Vec::new()'), (r'\bconst fn', 'fn')], obligation='TypeRow::new')
    u.text('}\nimpl Signature {')
    u.fn(sg.fn('default', sg.impl(r'<RV: MaybeRV>\s*Default for FuncTypeBase<RV>\s*\{')), 'ensures r.input@.len() == 0, r.output@.len() == 0,', rules=[(r'Default::default\(\)', 'TypeRow::new()')], sig='pub fn default() -> (r: Self)', obligation='Signature::default')
    si = sg.impl(r'Signature\s*\{')
    cl = [(r'let port: Port = port\.into\(\);', ''), (r'port\.into\(\)', 'port'), (r'impl Into<(\w+)>', r'\1')]
    u.fn(sg.fn('port_count', si), 'ensures r == side((self.input@, self.output@), dir).len(),', obligation='Signature::port_count')
    small = 'requires port.idx() <= 0xffff, '
    row = lambda r: f'ensures match r {{ Some(t) => port.index < {r}@.len() && *t == {r}@[port.index as int], None => port.index >= {r}@.len() }},'
    u.fn(sg.fn('in_port_type', si), row('self.input'), rules=cl, obligation='Signature::in_port_type')
    u.fn(sg.fn('out_port_type', si), row('self.output'), rules=cl, obligation='Signature::out_port_type')
    u.fn(sg.fn('port_type', si), small + 'ensures match r { Some(t) => port.idx() < side((self.input@, self.output@), port.dir()).len() && *t == side((self.input@, self.output@), port.dir())[port.idx()], None => port.idx() >= side((self.input@, self.output@), port.dir()).len() },',
         rules=cl, obligation='Signature::port_type')
    u.text('}')
    # port handles
    co = src('hugr-core/src/core.rs'); pi = co.impl(r'Port\s*\{')
    pr = [(r'portgraph::', ''), (r'\b(Left|Right)\(IncomingPort', r'Either::\1(IncomingPort'), (r'\b(Left|Right)\(OutgoingPort', r'Either::\1(OutgoingPort'), (r'HugrError::InvalidPortDirection\([^;]*?\)\)\s*$', 'x')]
    u.text('impl Port {')
    u.fn(co.fn('new', pi), 'ensures r.dir() == direction, r.idx() == port,', rules=pr[:1], obligation='Port::new')
    u.fn(co.fn('direction', pi), 'ensures r == self.dir(),', rules=pr[:1], obligation='Port::direction')
    ix = co.impl(r'PortIndex for Port\s*\{')
    u.fn(co.fn('index', ix), 'ensures r == self.idx(),', rules=pr[:1], sig='pub fn index(self) -> (r: usize)', obligation='Port::index')
    u.fn(co.fn('as_directed', pi), 'requires self.idx() <= 0xffff, ensures match r { Either::Left(p) => self.dir() == Direction::Incoming && p.index == self.idx(), Either::Right(p) => self.dir() == Direction::Outgoing && p.index == self.idx() },', rules=pr[:3], obligation='Port::as_directed')
    er = pr[:3] + [(r'HugrError::InvalidPortDirection\(self\.direction\(\)\)', 'invalid_direction()')]
    for n, d, w in (('as_incoming', 'Incoming', 'p.index == self.idx()'), ('as_outgoing', 'Outgoing', 'p.index == self.idx()')):
        u.fn(co.fn(n, pi), f'requires self.idx() <= 0xffff, ensures match r {{ Ok(p) => self.dir() == Direction::{d} && {w}, Err(_) => self.dir() != Direction::{d} }},', rules=er, obligation='Port::' + n)
    u.text('}')
    for p in ('IncomingPort', 'OutgoingPort'):
        u.text(f'impl {p} {{'); u.fn(co.fn('index', co.impl(r'PortIndex for ' + p + r'\s*\{')), 'ensures r == self.index,', sig='pub fn index(self) -> (r: usize)', obligation=p + '::index')
        u.fn(co.fn('from', co.impl(r'From<usize> for ' + p + r'\s*\{')), 'requires index <= 0xffff, ensures r.index == index,', sig='pub fn from_usize(index: usize) -> (r: Self)', obligation=f'From<usize> for {p}'); u.text('}')
    # per operation
    I, O = 'Direction::Incoming', 'Direction::Outgoing'
    for x in V:
        df = df_impl(x) is not None
        op = f'OpType::{x}(*self)'
        u.text(f'impl {x} {{ {tag_consts(x)}')
        for xx, n, fld in (('LoadConstant', 'constant_type', 'datatype'), ('Call', 'called_function_type', 'func_sig'), ('LoadFunction', 'function_type', 'func_sig')):
            if x == xx: dfs = src(OPS + '/dataflow.rs'); u.fn(dfs.fn(n, dfs.impl(x + r'\s*\{')), f'ensures *r == self.{fld},', obligation=f'{x}::{n}')
        emit(u, x, 'tag', f'ensures above(OpTag::StaticInput, r) <==> s_static({op}, {I}) is Some,', pre='proof { lemma_above_StaticInput(); }')
        emit(u, x, 'static_input', f'ensures r == s_static({op}, {I}),')
        emit(u, x, 'static_output', f'ensures r == s_static({op}, {O}),')
        emit(u, x, 'other_input', f'ensures r is Some ==> r == Some(s_other({op})), s_count({op}, {I}) > 0 ==> r is Some,' + ('' if x in ('DataflowBlock', 'ExitBlock') else f' r is Some ==> s_count({op}, {I}) > 0,'))
        emit(u, x, 'other_output', f'ensures r is Some ==> r == Some(s_other({op})), s_count({op}, {O}) > 0 ==> r is Some,' + ('' if x in ('DataflowBlock', 'ExitBlock') else f' r is Some ==> s_count({op}, {O}) > 0,'))
        emit(u, x, 'non_df_port_count', f'ensures r == s_count({op}, dir),')
        emit(u, x, 'dataflow_signature', (f'ensures r is Some <==> s_dataflow({op}), r matches Some(s) ==> same_sig2(s, rows_{x}(*self)),', ''), opaque=True)
        u.text('}')
    # dispatch and the port functions of OpType
    s0 = src(FILES[0]); oi = None
    for n in range(6):
        sp = s0.impl(r'OpType\s*\{', nth=n)
        if has_fn(s0, 'port_kind', sp): oi = sp; break
    u.text('impl OpType {')
    op = '*self'
    dispatch(u, 'tag', 'OpTag', f'ensures above(OpTag::StaticInput, r) <==> s_static({op}, {I}) is Some')
    dispatch(u, 'static_input', 'Option<EdgeKind>', f'ensures r == s_static({op}, {I})')
    dispatch(u, 'static_output', 'Option<EdgeKind>', f'ensures r == s_static({op}, {O})')
    dispatch(u, 'other_input', 'Option<EdgeKind>', f'ensures r is Some ==> r == Some(s_other({op})), s_count({op}, {I}) > 0 ==> r is Some')
    dispatch(u, 'other_output', 'Option<EdgeKind>', f'ensures r is Some ==> r == Some(s_other({op})), s_count({op}, {O}) > 0 ==> r is Some')
    dispatch(u, 'non_df_port_count', 'usize', f'ensures r == s_count({op}, dir)', [('dir', 'Direction')])
    dispatch(u, 'dataflow_signature', 'Option<Signature>', f'ensures r is Some <==> s_dataflow({op}), r matches Some(s) ==> same_sig2(s, rows_of({op}))')
    rl = cl + [(r'portgraph::Direction', 'Direction'), (r'usize::from\(', 'usize_from_bool('), (r'self\.dataflow_signature\(\)\.unwrap_or_default\(\)', 'sig_or_default(self.dataflow_signature())'),
               (r'\.map_or\(0, \|sig\| sig\.port_count\(dir\)\)', '.map_or(0, |sig: Signature| -> (n: usize) ensures n == side((sig.input@, sig.output@), dir).len() { sig.port_count(dir) })'),
               (r'\.cloned\(\)\.map\(EdgeKind::Value\)', '.map(|t: &Type| -> (k: EdgeKind) ensures k == EdgeKind::Value(*t) { EdgeKind::Value(t.clone()) })'),
               (r'\.map\(\|p\| p\.as_(in|out)(coming|going)\(\)\.unwrap\(\)\)', lambda m: f".map(|p: Port| -> (q: {'IncomingPort' if m.group(1) == 'in' else 'OutgoingPort'}) requires p.idx() <= 0xffff, p.dir() == Direction::{'Incoming' if m.group(1) == 'in' else 'Outgoing'} ensures q.index == p.idx() {{ p.as_{m.group(1)}{m.group(2)}().unwrap() }})"),
               (r'self\.static_port_kind\(dir\)\?;', 'let _k = self.static_port_kind(dir)?;')]
    fn = lambda n, c, **k: u.fn(s0.fn(n, oi), c, rules=rl, obligation='OpType::' + n, **k)
    fn('other_port_kind', f'ensures r is Some ==> r == Some(s_other({op})), s_count({op}, dir) > 0 ==> r is Some,')
    fn('static_port_kind', f'ensures r == s_static({op}, dir),')
    fn('value_port_count', f'ensures r == s_vals({op}, dir).len(),')
    fn('value_input_count', f'ensures r == s_vals({op}, {I}).len(),')
    fn('value_output_count', f'ensures r == s_vals({op}, {O}).len(),')
    T = lambda d: f's_total({op}, {d}) <= 0xffff,'
    fn('port_count', f'requires {T("dir")} ensures r == s_total({op}, dir),')
    fn('input_count', f'requires {T(I)} ensures r == s_total({op}, {I}),')
    fn('output_count', f'requires {T(O)} ensures r == s_total({op}, {O}),')
    fn('port_kind', f'requires port.idx() < s_total({op}, port.dir()) <= 0xffff ensures r == Some(kind_at({op}, port.dir(), port.idx())),')
    fn('static_port', f'requires {T("dir")} ensures r is Some <==> s_static({op}, dir) is Some, r matches Some(p) ==> p.dir() == dir && p.idx() < s_total({op}, dir) && r->0.idx() == s_vals({op}, dir).len() && Some(kind_at({op}, dir, p.idx())) == s_static({op}, dir),')
    fn('other_port', f'requires {T("dir")} ensures r is Some <==> s_count({op}, dir) > 0, r matches Some(p) ==> p.dir() == dir && p.idx() == s_vals({op}, dir).len() + n_static({op}, dir) && p.idx() < s_total({op}, dir) && kind_at({op}, dir, p.idx()) == s_other({op}),', pre='proof { lemma_static_output_no_order(*self, dir); }')
    for n, d, m in (('static_input_port', I, 's_static({op}, {d}) is Some'), ('static_output_port', O, 's_static({op}, {d}) is Some'), ('other_input_port', I, 's_count({op}, {d}) > 0'), ('other_output_port', O, 's_count({op}, {d}) > 0')):
        off = f's_vals({op}, {d}).len()' + ('' if 'static' in n else f' + n_static({op}, {d})')
        fn(n, f'requires {T(d)} ensures r is Some <==> {m.format(op=op, d=d)}, r matches Some(p) ==> p.index == {off},')
    u.text('}')
    u.text(f'proof fn lemma_static_output_no_order(op: OpType, d: Direction) ensures d == {O} && s_static(op, d) is Some ==> s_count(op, d) == 0 {{ }}')
    u.trust("portgraph's PortOffset is a direction and an offset; Const::get_type is a function of the constant")
    return [u]
ASSUMPTIONS = ['offsets below 2^16: a directed port handle holds 16 bits', 'a Tag operation names an existing variant (its signature panics otherwise)', 'methods of operations are functions of the operation (no interior state)']
