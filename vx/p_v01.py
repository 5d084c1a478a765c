from opsx import *
EXEC = 'v01'
VAL = OPS + '/validate.rs'
DFP = ['FuncDefn', 'DFG', 'Case', 'TailLoop', 'DataflowBlock']
import p_o03
SPEC = '''
// ---- what each container prescribes ----
pub open spec fn is_df(o: OpType) -> bool { match o { OpType::FuncDefn(_) | OpType::DFG(_) | OpType::Case(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_) => true, _ => false } }
pub open spec fn inner_rows(o: OpType) -> (Seq<Type>, Seq<Type>) { match o { OpType::FuncDefn(x) => inner_FuncDefn(x), OpType::DFG(x) => inner_DFG(x), OpType::Case(x) => inner_Case(x), OpType::TailLoop(x) => inner_TailLoop(x), OpType::DataflowBlock(x) => inner_DataflowBlock(x), _ => arbitrary() } }
pub open spec fn is_io(o: OpType) -> bool { o is Input || o is Output }
pub open spec fn io_shape(i: Seq<Type>, o: Seq<Type>, ch: Seq<(Node, &OpType)>) -> bool
{ &&& ch.len() >= 2
  &&& *ch[0].1 matches OpType::Input(x) && x.types@ == i
  &&& *ch[1].1 matches OpType::Output(x) && x.types@ == o
  &&& forall|k: int| #![trigger ch[k]] 2 <= k < ch.len() ==> !is_io(*ch[k].1) }
pub open spec fn cfg_shape(c: CFG, ch: Seq<(Node, &OpType)>) -> bool
{ &&& ch.len() >= 2
  &&& *ch[0].1 matches OpType::DataflowBlock(x) && x.inputs@ == c.signature.input@
  &&& *ch[1].1 matches OpType::ExitBlock(x) && x.cfg_outputs@ == c.signature.output@
  &&& forall|k: int| #![trigger ch[k]] 2 <= k < ch.len() ==> !(*ch[k].1 is ExitBlock) }
pub open spec fn case_at(c: Conditional, k: int, o: OpType) -> bool { o matches OpType::Case(x) && x.signature.input@ == c.sum_rows@[k]@ + c.other_inputs@ && x.signature.output@ == c.outputs@ }
pub open spec fn cond_shape(c: Conditional, ch: Seq<(Node, &OpType)>) -> bool
{ ch.len() == c.sum_rows@.len() && forall|k: int| #![trigger ch[k]] 0 <= k < ch.len() ==> case_at(c, k, *ch[k].1) }
/// the rows part: what `validate_op_children` decides once the kinds are right
pub open spec fn shape(o: OpType, ch: Seq<(Node, &OpType)>) -> bool
{ if is_df(o) { io_shape(inner_rows(o).0, inner_rows(o).1, ch) } else { match o { OpType::CFG(c) => cfg_shape(c, ch), OpType::Conditional(c) => cond_shape(c, ch), _ => true } } }
pub open spec fn prescribed(o: OpType) -> OpValidityFlags
{ if is_df(o) { OpValidityFlags { allowed_children: OpTag::DataflowChild, allowed_first_child: OpTag::Input, allowed_second_child: OpTag::Output, requires_children: true, requires_dag: true, edge_check: None } }
  else { match o {
    OpType::CFG(_) => OpValidityFlags { allowed_children: OpTag::ControlFlowChild, allowed_first_child: OpTag::DataflowBlock, allowed_second_child: OpTag::BasicBlockExit, requires_children: true, requires_dag: false, edge_check: Some(EdgeCheck::validate_cfg_edge) },
    OpType::Conditional(_) => OpValidityFlags { allowed_children: OpTag::Case, allowed_first_child: OpTag::Any, allowed_second_child: OpTag::Any, requires_children: true, requires_dag: false, edge_check: None },
    OpType::Module(_) => OpValidityFlags { allowed_children: OpTag::ModuleOp, allowed_first_child: OpTag::Any, allowed_second_child: OpTag::Any, requires_children: false, requires_dag: false, edge_check: None },
    _ => OpValidityFlags { allowed_children: OpTag::None, allowed_first_child: OpTag::Any, allowed_second_child: OpTag::Any, requires_children: false, requires_dag: false, edge_check: None },
  } } }
/// the kinds part: established by the caller before the rows are looked at
pub open spec fn kinds(o: OpType, ch: Seq<(Node, &OpType)>) -> bool
{ &&& ch.len() > 0
  &&& forall|k: int| #![trigger ch[k]] 0 <= k < ch.len() ==> above(prescribed(o).allowed_children, op_tag(*ch[k].1))
  &&& above(prescribed(o).allowed_first_child, op_tag(*ch[0].1))
  &&& prescribed(o).allowed_second_child != OpTag::Any ==> ch.len() >= 2
  &&& ch.len() >= 2 ==> above(prescribed(o).allowed_second_child, op_tag(*ch[1].1)) }
pub open spec fn target_row(o: OpType) -> Seq<Type> { match o { OpType::DataflowBlock(x) => x.inputs@, OpType::ExitBlock(x) => x.cfg_outputs@, _ => arbitrary() } }
/// the row a basic block sends along its successor edge n
pub open spec fn sends(o: OpType, n: int, row: Seq<Type>) -> bool { o matches OpType::DataflowBlock(b) && 0 <= n < b.sum_rows@.len() && b.sum_rows@[n]@ + b.other_outputs@ == row }
pub open spec fn edge_fits(e: ChildrenEdgeData) -> bool { is_block(e.target_op) && sends(e.source_op, e.source_port.at as int, target_row(e.target_op)) }
pub open spec fn is_block(o: OpType) -> bool { o is DataflowBlock || o is ExitBlock }
// ---- the graph, as the view gives it ----
#[verifier::external_body] pub struct Graph { _p: u8 }
impl Graph {
  pub uninterp spec fn kids(&self, n: Node) -> Seq<Node>;
  pub uninterp spec fn op(&self, n: Node) -> OpType;
  pub uninterp spec fn nbrs(&self, n: Node) -> Seq<Node>;
  pub uninterp spec fn parent(&self, n: Node) -> Option<Node>;
  pub uninterp spec fn joins(&self, a: Node, b: Node) -> Seq<(Port, Port)>;
  pub uninterp spec fn dag(&self, n: Node) -> bool;
  #[verifier::external_body] pub fn children(&self, n: Node) -> (r: Nodes) ensures r.rest() == self.kids(n) { unimplemented!() }
  #[verifier::external_body] pub fn get_optype(&self, n: Node) -> (r: &OpType) ensures *r == self.op(n) { unimplemented!() }
  #[verifier::external_body] pub fn output_neighbours(&self, n: Node) -> (r: Nodes) ensures r.rest() == self.nbrs(n) { unimplemented!() }
  #[verifier::external_body] pub fn get_parent(&self, n: Node) -> (r: Option<Node>) ensures r == self.parent(n) { unimplemented!() }
  #[verifier::external_body] pub fn node_connections(&self, a: Node, b: Node) -> (r: Vec<(Port, Port)>) ensures r@ == self.joins(a, b) { unimplemented!() }
}
/// an iterator over nodes
#[verifier::external_body] pub struct Nodes { _p: u8 }
impl Nodes {
  pub uninterp spec fn rest(&self) -> Seq<Node>;
  #[verifier::external_body] pub fn clone(&self) -> (r: Nodes) ensures r.rest() == self.rest() { unimplemented!() }
  #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
  #[verifier::external_body] pub fn take(self, n: usize) -> (r: Nodes) ensures r.rest() == self.rest().take(if n <= self.rest().len() { n as int } else { self.rest().len() as int }) { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Node>) ensures match r { Some(n) => old(self).rest().len() > 0 && n == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
  #[verifier::external_body] pub fn all(self) -> (r: Vec<Node>) ensures r@ == self.rest() { unimplemented!() }
}
/// the children with their operations
pub open spec fn with_ops(g: Graph, ch: Seq<Node>, r: Seq<(Node, &OpType)>) -> bool { r.len() == ch.len() && forall|i: int| #![trigger r[i]] 0 <= i < ch.len() ==> r[i].0 == ch[i] && *r[i].1 == g.op(ch[i]) }
pub fn optypes(ch: Nodes, g: &Graph) -> (r: Vec<(Node, &OpType)>) ensures with_ops(*g, ch.rest(), r@)
{ let ghost s = ch.rest(); let v = ch.all(); let mut r: Vec<(Node, &OpType)> = Vec::new();
  for i in 0..v.len() invariant v@ == s, r@.len() == i, forall|j: int| #![trigger r@[j]] 0 <= j < i ==> r@[j].0 == s[j] && *r@[j].1 == g.op(s[j]) { r.push((v[i], g.get_optype(v[i]))); } r }
/// the list of children as an iterator
pub struct Kids<'a> { pub v: Vec<(Node, &'a OpType)>, pub at: usize }
impl<'a> Kids<'a> {
  pub open spec fn rest(&self) -> Seq<(Node, &'a OpType)> { self.v@.skip(self.at as int) }
  pub fn over(v: Vec<(Node, &'a OpType)>) -> (r: Self) ensures r.at == 0, r.v@ == v@ { Kids { v, at: 0 } }
  pub fn next(&mut self) -> (r: Option<(Node, &'a OpType)>) requires old(self).at <= old(self).v@.len()
    ensures final(self).v@ == old(self).v@, match r { Some(x) => old(self).at < old(self).v@.len() && x == old(self).v@[old(self).at as int] && final(self).at == old(self).at + 1, None => old(self).at == old(self).v@.len() && final(self).at == old(self).at }
  { if self.at < self.v.len() { let x = self.v[self.at]; self.at = self.at + 1; Some(x) } else { None } }
  pub fn collect_vec(self) -> (r: Vec<(Node, &'a OpType)>) requires self.at == 0 ensures r@ == self.v@ { self.v }
}
pub open spec fn edge_at(g: Graph, s: Node, t: Node, k: int) -> ChildrenEdgeData { ChildrenEdgeData { source: s, target: t, source_op: g.op(s), target_op: g.op(t), source_port: g.joins(s, t)[k].0, target_port: g.joins(s, t)[k].1 } }
pub open spec fn pair_fits(g: Graph, s: Node, t: Node, n: int) -> bool { forall|k: int| #![trigger g.joins(s, t)[k]] 0 <= k < n ==> edge_fits(edge_at(g, s, t, k)) }
pub open spec fn from_fits(g: Graph, p: Node, s: Node, n: int) -> bool { forall|j: int| #![trigger g.nbrs(s)[j]] 0 <= j < n && g.parent(g.nbrs(s)[j]) == Some(p) ==> pair_fits(g, s, g.nbrs(s)[j], g.joins(s, g.nbrs(s)[j]).len() as int) }
/// every edge between the first n children and a sibling carries the row the target takes
pub open spec fn edges_fit(g: Graph, p: Node, n: int) -> bool { forall|i: int| #![trigger g.kids(p)[i]] 0 <= i < n ==> from_fits(g, p, g.kids(p)[i], g.nbrs(g.kids(p)[i]).len() as int) }
pub open spec fn kind_at(o: OpType, ch: Seq<(Node, &OpType)>, i: int) -> bool { 0 <= i < ch.len() ==> above(prescribed(o).allowed_children, op_tag(*ch[i].1)) }
/// a node's children are as the node's operation prescribes
pub open spec fn children_ok(g: Graph, p: Node, ch: Seq<(Node, &OpType)>) -> bool
{ if ch.len() == 0 { !prescribed(g.op(p)).requires_children }
  else { prescribed(g.op(p)).allowed_children != OpTag::None && kinds(g.op(p), ch) && shape(g.op(p), ch)
    && (g.op(p) is CFG ==> edges_fit(g, p, ch.len() as int)) && (is_df(g.op(p)) ==> g.dag(p)) } }
'''
def generic(t):
    t = re.sub(r"<'a,\s*N:\s*HugrNode>", "<'a>", t); t = re.sub(r'<N:\s*HugrNode(?:\s*=\s*Node)?>', '', t)
    return re.sub(r'\b(OpValidityFlags|ChildrenValidationError|EdgeValidationError|ChildrenEdgeData|EdgeCheck|ValidationError|InterGraphEdgeError)<(?:N|H::Node)>', r'\1', t).replace('H::Node', 'Node')
GEN = [(r"<'a,\s*N:\s*HugrNode>", "<'a>"), (r'<N:\s*HugrNode>', ''), (r'\b(OpValidityFlags|ChildrenValidationError|EdgeValidationError|ChildrenEdgeData|ValidationError)<(?:N|H::Node)>', r'\1'), (r'\bH::Node\b', 'Node'),
       (r"(?:mut )?children: impl (?:DoubleEnded)?Iterator<Item = \(N, &'a OpType\)>", "children: Kids<'a>"),
       (r'\.\.Default::default\(\)', '..OpValidityFlags::default()'), (r'edge_check: Some\((\w+)\)', r'edge_check: Some(EdgeCheck::\1)'),
       (r"&'static str", 'Text'), (r'"[^"]*"', 'TEXT'), (r'\.expect\(TEXT\)', '.unwrap()'), (r'panic!\(TEXT\)', '{ assert(false); vstd::pervasive::unreached() }')]
SIGS = r"<RV: MaybeRV>\s*FuncTypeBase<RV>\s*\{"
def units():
    tags, par = tag_table()
    u = Unit('v01')
    tag_spec(u, tags, par); unfold(u)
    s = src(TAGF); im = s.impl(r'OpTag\s*\{')
    u.text('impl OpTag {')
    u.fn(s.fn('immediate_supersets', im), 'ensures r@ =~= links(self),', obligation='OpTag::immediate_supersets')
    u.fn(s.fn('is_empty', im), 'ensures r == (*self == OpTag::None),', rules=[(r'\bmatches!\(self, &OpTag::None\)', 'matches!(*self, OpTag::None)')], obligation='OpTag::is_empty')
    u.fn(s.fn('eq', im), 'ensures r == (self == other),', obligation='OpTag::eq')
    superset(u, s, im)
    u.text('}')
    NEED = ['Input', 'Output', 'Case', 'DataflowBlock', 'BasicBlockExit', 'ControlFlowChild']
    for c in NEED: tag_table_lemma(u, tags, par, c)
    data(u)
    u.text('''
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Node(pub usize);
#[derive(Clone, Copy)] pub struct Text(pub u8);
pub const TEXT: Text = Text(0);
#[derive(Clone, Copy)] pub struct Port { pub at: u16 }
impl Port { pub fn index(self) -> (r: usize) ensures r == self.at { self.at as usize } }
impl Clone for OpType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TypeRow { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &TypeRow) -> bool { self@ == other@ } }
impl PartialEq for TypeRow { #[verifier::external_body] fn eq(&self, o: &TypeRow) -> (r: bool) { unimplemented!() } }
impl Signature { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.input@.len() == 0, r.output@.len() == 0 { unimplemented!() }
  pub fn into_owned(self) -> (r: Self) ensures r == self { self }
  pub fn input(&self) -> (r: &TypeRow) ensures *r == self.input { &self.input }
  pub fn output(&self) -> (r: &TypeRow) ensures *r == self.output { &self.output } }
impl PolyFuncType { pub fn body(&self) -> (r: &Signature) ensures *r == self.body { &self.body } }
fn sum_of_pair(cv: [TypeRow; 2]) -> (r: Type) ensures r == sum_of(seq![cv[0]@, cv[1]@]) { assert(cv.rows() =~= seq![cv[0]@, cv[1]@]); Type::new_sum(cv) }
''')
    u.trust('== on rows compares the lists of types (type equality is the subject of T04); the accessors input(), output(), body() and Signature::default')
    tr = src('hugr-core/src/types/type_row.rs'); sg = src('hugr-core/src/types/signature.rs')
    def imp(s, rx, name):
        for n in range(9):
            sp = s.impl(rx, nth=n)
            if has_fn(s, name, sp): return s.fn(name, sp)
    RB = r'<RV: MaybeRV>\s*TypeRowBase<RV>\s*\{'
    u.text('impl TypeRow {')
    u.fn(imp(tr, RB, 'new'), 'ensures r@.len() == 0,', rules=[(r'Cow::Owned\(Vec::new\(\)\)', 'Vec::new()'), (r'\bconst fn', 'fn')], obligation='TypeRow::new')
    u.fn(imp(tr, RB, 'extend'), 'ensures r@ =~= self@ + rest@,', rules=[(r'self\.iter\(\)\.chain\(rest\)\.cloned\(\)\.collect_vec\(\)\.into\(\)', 'IntoRow::into_row(chain_cloned(&self.types, &rest.types))')],
         sig='pub fn extend(&self, rest: &TypeRow) -> (r: Self)', obligation='TypeRow::extend')
    u.text('}\nimpl Signature {')
    u.fn(imp(sg, SIGS, 'new'), 'ensures r.input@ == input.row(), r.output@ == output.row(),', rules=[(r'\.into\(\)', '.into_row()')], sig='pub fn new<A: IntoRow, B: IntoRow>(input: A, output: B) -> (r: Self)', obligation='Signature::new')
    u.text('}')
    V = variants()
    for x in V:
        if (x in p_o03.INNER) != (inner(x)[1] is not None): raise AnchorLost(f'{x}: dataflow parent or not')
        if x in p_o03.INNER: u.text(f'pub open spec fn inner_{x}(x: {x}) -> (Seq<Type>, Seq<Type>) {{ {p_o03.INNER[x]} }}')
    if sorted(p_o03.INNER) != sorted(DFP): raise AnchorLost('dataflow parents')
    # data of the checks
    v = src(VAL)
    def item(rx): return subst(generic(strip_attrs(v.item(rx))), [(r"&'static str", 'Text'), (r': N\b', ': Node')])
    checks = sorted(set(re.findall(r'edge_check: Some\((\w+)\)', v.t)))
    u.text('#[derive(Clone, Copy)] pub enum EdgeCheck { ' + ', '.join(checks) + ' }')
    u.text('#[derive(Clone, Copy)]\n' + item(r'pub struct OpValidityFlags\b'))
    for rx in (r'pub struct ChildrenEdgeData\b', r'pub enum ChildrenValidationError\b', r'pub enum EdgeValidationError\b'): u.text(item(rx))
    u.text('pub open spec fn op_tag(o: OpType) -> OpTag { match o { ' + ', '.join(f'OpType::{x}(_) => {x}::TAG' for x in V) + ' } }')
    u.text(SPEC)
    u.trust('the graph view: children, neighbours and connections are the lists the graph holds')
    rl = GEN + p_o03_rules()
    # operations
    for x in V:
        u.text(f'impl {x} {{ {tag_consts(x)}')
        u.fn(resolve(x, 'tag'), f'ensures r == {x}::TAG,', rules=[(r'\bT::TAG', f'{x}::DF_TAG'), (r'<Self as (Static|DataflowOp)T\w+>::TAG', 'Self::TAG'), (r'super::', '')], sig='pub fn tag(&self) -> (r: OpTag)', obligation=f'{x}::tag')
        f, g = inner(x); o3 = p_o03_rules()
        cf = src(OPS + '/controlflow.rs')
        if x == 'TailLoop':
            ti = cf.impl(r'TailLoop\s*\{')
            u.fn(cf.fn('control_variants', ti), 'ensures r@.len() == 2, r[0]@ == self.just_inputs@, r[1]@ == self.just_outputs@,', rules=o3, obligation='TailLoop::control_variants')
            u.fn(cf.fn('body_input_row', ti), 'ensures r@ =~= self.just_inputs@ + self.rest@,', rules=o3, obligation='TailLoop::body_input_row')
            u.fn(cf.fn('body_output_row', ti), 'ensures r@ =~= seq![sum_of(seq![self.just_inputs@, self.just_outputs@])] + self.rest@,', rules=o3 + [(r'Type::new_sum\(self\.control_variants\(\)\)', 'sum_of_pair(self.control_variants())')], obligation='TailLoop::body_output_row')
        if g: u.fn(g, f"ensures r.input@ =~= inner_{x}(*self).0 && r.output@ =~= inner_{x}(*self).1,", rules=o3, sig='pub fn inner_signature(&self) -> (r: Signature)', obligation=f'{x}::inner_signature')
        if x == 'Conditional': u.fn(cf.fn('case_input_row', cf.impl(x + r'\s*\{')), 'ensures match r { Some(w) => case < self.sum_rows@.len() && w@ =~= self.sum_rows@[case as int]@ + self.other_inputs@, None => case >= self.sum_rows@.len() },', rules=o3, obligation='Conditional::case_input_row')
        if x == 'DataflowBlock': u.fn(cf.fn('successor_input', cf.impl(x + r'\s*\{')), 'ensures match r { Some(w) => successor < self.sum_rows@.len() && w@ =~= self.sum_rows@[successor as int]@ + self.other_outputs@, None => successor >= self.sum_rows@.len() },', rules=o3, obligation='DataflowBlock::successor_input')
        if x in ('DataflowBlock', 'ExitBlock'): u.fn(cf.fn('dataflow_input', cf.impl(r'BasicBlock for ' + x + r'\s*\{')), f"ensures *r == self.{'inputs' if x == 'DataflowBlock' else 'cfg_outputs'},", obligation=f'{x}::dataflow_input')
        if x in ('Input', 'Output', 'CFG'):
            io = {'Input': 'r.input@.len() == 0, r.output@ == self.types@,', 'Output': 'r.input@ == self.types@, r.output@.len() == 0,', 'CFG': 'r.input@ == self.signature.input@, r.output@ == self.signature.output@,'}[x]
            u.fn(resolve_df(x, 'signature'), 'ensures ' + io, rules=o3, sig='pub fn signature(&self) -> (r: Signature)', obligation=f'{x}::signature')
        if x in ('Input', 'Output'):
            u.fn(resolve(x, 'dataflow_signature'), 'ensures r is Some, ' + io.replace('r.', 'r->0.'), rules=o3, sig='pub fn dataflow_signature(&self) -> (r: Option<Signature>)', obligation=f'{x}::dataflow_signature')
        # the checks of this operation
        if g: sp = v.impl(r'<T:\s*DataflowParent>\s*ValidateOp for T\s*\{'); own = (v, sp)
        else:
            try: own = (v, v.impl(r'ValidateOp for (?:super::)?' + x + r'\s*\{'))
            except AnchorLost:
                if not re.search(r'impl_validate_op!\(' + x + r'\)', v.t): raise
                own = None
        for m in ('validity_flags', 'validate_op_children'):
            fn_ = own and has_fn(own[0], m, own[1])
            if not fn_: st, sp = trait('ValidateOp'); fn_ = st.fn(m, sp)
            op = f'OpType::{x}(*self)'
            if m == 'validity_flags':
                u.fn(fn_, f'ensures r == prescribed({op}),', rules=[(r'(?<=\{)\s*Default::default\(\)', ' OpValidityFlags::default()')] + rl, sig='pub fn validity_flags(&self) -> (r: OpValidityFlags)', obligation=f'{x}::validity_flags')
            else:
                lp = None; pre = ''; extra = rl
                if x == 'Conditional':
                    pre = 'let ghost ch = children.v@; proof { lemma_above_Case(); }'
                    extra = [(r'for \((\w+), \((\w+), (\w+)\)\) in (\w+)\.into_iter\(\)\.enumerate\(\) \{', r'for \1 in it: 0..\4.len() { let (\2, \3) = \4[\1];')] + rl
                    lp = [('invariant children@ == ch, kinds(OpType::Conditional(*self), ch), ch.len() == self.sum_rows@.len(), forall|t: OpTag| #[trigger] above(OpTag::Case, t) <==> t == OpTag::Case, forall|k: int| #![trigger ch[k]] 0 <= k < i ==> case_at(*self, k, *ch[k].1),', 'assert(kind_at(OpType::Conditional(*self), ch, i as int)); assert(*ch[i as int].1 == *children@[i as int].1);')]
                if x == 'CFG':
                    pre = 'let mut children = children; let ghost ch = children.v@; proof { lemma_above_DataflowBlock(); lemma_above_BasicBlockExit(); lemma_above_ControlFlowChild(); assert(kind_at(OpType::CFG(*self), ch, 0)); }'
                    extra = LOOP + rl
                    lp = [('invariant children.v@ == ch, ch.len() >= 2, forall|j: int| #![trigger ch[j]] 2 <= j < k ==> !(*ch[j].1 is ExitBlock),', 'assert(*ch[k as int].1 == *children.v@[k as int].1);')]
                if g: pre = 'let ghost ch = children.v@; proof { assert(kind_at(OpType::%s(*self), ch, 0)); }' % x
                u.fn(fn_, f'requires children.at == 0, kinds({op}, children.v@), ensures r is Ok <==> shape({op}, children.v@),', rules=extra, loops=lp, pre=pre, sig="pub fn validate_op_children<'a>(&self, children: Kids<'a>) -> (r: Result<(), ChildrenValidationError>)", attrs='#[verifier::loop_isolation(false)]\n', obligation=f'{x}::validate_op_children')
        u.text('}')
    # what the macros generate for the operation enum
    u.text('impl OpType {')
    dispatch(u, 'tag', 'OpTag', 'ensures r == op_tag(*self)')
    dispatch(u, 'validity_flags', 'OpValidityFlags', 'ensures r == prescribed(*self)')
    u.text("pub fn validate_op_children<'a>(&self, children: Kids<'a>) -> (r: Result<(), ChildrenValidationError>) requires children.at == 0, kinds(*self, children.v@) ensures r is Ok <==> shape(*self, children.v@) { match self { " + ', '.join(f'OpType::{x}(x) => x.validate_op_children(children)' for x in V) + ' } }')
    for x in V:
        sn = {'DFG': 'dfg', 'CFG': 'cfg'}.get(x) or re.sub(r'(?<!^)([A-Z])', r'_\1', x).lower()
        u.text(f'pub fn as_{sn}(&self) -> (r: Option<&{x}>) ensures match *self {{ OpType::{x}(x) => r == Some(&x), _ => r is None }} {{ match self {{ OpType::{x}(x) => Some(x), _ => None }} }}')
    u.text('#[verifier::external_body] fn other_signature(&self) -> Option<Signature> { unimplemented!() }')
    u.text('pub fn dataflow_signature(&self) -> (r: Option<Signature>) ensures match *self { OpType::Input(x) => r is Some && r->0.input@.len() == 0 && r->0.output@ == x.types@, OpType::Output(x) => r is Some && r->0.input@ == x.types@ && r->0.output@.len() == 0, _ => true } { match self { OpType::Input(x) => x.dataflow_signature(), OpType::Output(x) => x.dataflow_signature(), _ => self.other_signature() } }')
    u.text('}\nimpl OpValidityFlags {')
    u.fn(v.fn('default', v.impl(r'<N: HugrNode>\s*Default for OpValidityFlags<N>\s*\{')), 'ensures r == (OpValidityFlags { allowed_children: OpTag::None, allowed_first_child: OpTag::Any, allowed_second_child: OpTag::Any, requires_children: false, requires_dag: false, edge_check: None }),', rules=GEN, sig='pub fn default() -> (r: Self)', obligation='OpValidityFlags::default')
    u.text('}\nimpl EdgeCheck { pub fn call(self, e: ChildrenEdgeData) -> (r: Result<(), EdgeValidationError>) ensures r is Ok <==> edge_fits(e) { match self { ' + ', '.join(f'EdgeCheck::{c} => {c}(e)' for c in checks) + ' } } }')
    u.fn(v.fn('validate_io_nodes'), """requires children.at == 0, children.v@.len() >= 2, above(OpTag::Input, op_tag(*children.v@[0].1)), above(OpTag::Output, op_tag(*children.v@[1].1)),
 ensures r is Ok <==> io_shape(expected_input@, expected_output@, children.v@),""", rules=LOOP + [(r'(\w+)\.dataflow_signature\(\)\s*\.unwrap_or_default\(\)', r'sig_or_default(\1.dataflow_signature())')] + GEN,
         pre='let mut children = children; let ghost ch = children.v@; proof { lemma_above_Input(); lemma_above_Output(); }',
         loops=[('invariant children.v@ == ch, ch.len() >= 2, forall|j: int| #![trigger ch[j]] 2 <= j < k ==> !is_io(*ch[j].1),', 'assert(*ch[k as int].1 == *children.v@[k as int].1);')], attrs='#[verifier::loop_isolation(false)]\n', obligation='validate_io_nodes')
    u.fn(v.fn('validate_cfg_edge'), 'ensures r is Ok <==> edge_fits(edge),',
         rules=[(r'(?s)\.and_then\(\|(\w+)\| (.*?)\);', r'.and_then(|\1: &DataflowBlock| -> (o: Option<TypeRow>) ensures match o { Some(w) => edge.source_port.at < \1.sum_rows@.len() && w@ =~= \1.sum_rows@[edge.source_port.at as int]@ + \1.other_outputs@, None => edge.source_port.at >= \1.sum_rows@.len() } { \2 });'),
                (r'(\w+)\.map\(Box::new\)', r'boxed(\1)'), (r'(\w+)\.cloned\(\)\.unwrap_or_default\(\)', r'row_or_default(\1)')] + GEN, obligation='validate_cfg_edge')
    u.text('#[verifier::external_body] fn boxed(t: Option<TypeRow>) -> Option<Box<TypeRow>> { unimplemented!() }\n#[verifier::external_body] fn row_or_default(t: Option<&TypeRow>) -> TypeRow { unimplemented!() }')
    # the walk over the children of one node
    u.text('''proof fn lemma_listed(g: Graph, kl: Seq<Node>) ensures exists|c: Seq<(Node, &OpType)>| with_ops(g, kl, c), forall|a: Seq<(Node, &OpType)>, b: Seq<(Node, &OpType)>| #[trigger] with_ops(g, kl, a) && #[trigger] with_ops(g, kl, b) ==> a == b { assert forall|a: Seq<(Node, &OpType)>, b: Seq<(Node, &OpType)>| #[trigger] with_ops(g, kl, a) && #[trigger] with_ops(g, kl, b) implies a == b by { assert(a =~= b); } let c: Seq<(Node, &OpType)> = Seq::new(kl.len(), |i: int| (kl[i], &g.op(kl[i]))); assert(with_ops(g, kl, c)); }''')
    hv = src('hugr-core/src/hugr/validate.rs')
    e = subst(generic(strip_attrs(hv.item(r'pub enum ValidationError\b'))), [(r"&'static str", 'Text'), (r'\bN\b', 'Node')])
    u.text('pub struct OpaqueOpError(pub u8); pub struct ConstTypeError(pub u8); pub struct InterGraphEdgeError(pub u8); pub struct OpName(pub u8);')
    u.text(subst(e, [(r'\bString\b', 'Text'), (r'OpaqueOpError<Node>', 'OpaqueOpError')]))
    u.text("pub struct ValidationContext<'a> { pub hugr: &'a Graph }\nimpl<'a> ValidationContext<'a> {\n#[verifier::external_body] fn validate_children_dag(&self, node: Node, op_type: &OpType) -> (r: Result<(), ValidationError>) ensures r is Ok <==> self.hugr.dag(node) { unimplemented!() }")
    u.trust('validate_children_dag (a topological traversal by the portgraph crate) reports exactly the regions that are not acyclic')
    im = hv.impl(r"<'a, H: HugrView> ValidationContext<'a, H>\s*\{")
    A = 'op == *op_type, op == self.hugr.op(node), kl == self.hugr.kids(node), with_ops(*self.hugr, kl, ch)'
    u.fn(hv.fn('validate_children', im), """requires *op_type == self.hugr.op(node),
 ensures forall|ch: Seq<(Node, &OpType)>| #[trigger] with_ops(*self.hugr, self.hugr.kids(node), ch) ==> (r is Ok <==> children_ok(*self.hugr, node, ch)),""",
       rules=[(r'(?s)^.*$', walk)] + GEN, pre=PRE, loops=WALK, attrs='#[verifier::loop_isolation(false)]\n', obligation='ValidationContext::validate_children')
    u.text('}')
    return [u]
PRE = 'let ghost op = *op_type; let ghost g = *self.hugr; let ghost kl = g.kids(node); let ghost ch = choose|c: Seq<(Node, &OpType)>| with_ops(g, kl, c); proof { lemma_listed(g, kl); }'
WALK = [
 ('invariant forall|k: int| #![trigger ch[k]] 0 <= k < n0 ==> above(prescribed(op).allowed_children, op_tag(*ch[k].1)),', 'assert(*ch[n0 as int].1 == g.op(kl[n0 as int]));'),
 ('invariant edges_fit(g, node, n1 as int),', 'assert(*ch[n1 as int].1 == g.op(kl[n1 as int])); let ghost s = v1@[n1 as int];'),
 ('invariant from_fits(g, node, s, n2 as int),', ''),
 ('invariant pair_fits(g, s, target, n3 as int),', ''),
]
def walk(m):
    """`continue` as a conditional, iteration over nodes and connections as counted loops, annotated closures"""
    t = m.group(0)
    while True:
        c = re.search(r'if ([^{};]+)\{\s*continue;\s*\}', t)
        if not c: break
        r = Rust(t); o = r.enclosing(c.start()); e = r.match[o]
        t = t[:c.start()] + f'if !({c.group(1).strip()}) {{' + t[c.end():e] + '}' + t[e:]
    n = [0]
    def loop(m):
        i = n[0]; n[0] += 1
        pat, e = m.group(1), re.sub(r'\s+', ' ', m.group(2))
        pair = re.match(r'\[(\w+), (\w+)\]', pat)
        col = e if pair else f'({e}).all()'
        return f'let v{i} = {col}; for n{i} in 0..v{i}.len() {{ let {"(" + pair.group(1) + ", " + pair.group(2) + ")" if pair else pat} = v{i}[n{i}];'
    t = re.sub(r'for (\w+|\[\w+, \w+\]) in ([^{]+?)\s*\{', loop, t)
    t = re.sub(r'(\w+)\s*\.map\(\|(\w+)\| \(\2, self\.hugr\.get_optype\(\2\)\)\)', r'optypes(\1, self.hugr)', t)
    t = re.sub(r'\.map\(\|(\w+)\| self\.hugr\.get_optype\(\1\)\)', r'.map(|\1: Node| -> (o: &OpType) ensures *o == self.hugr.op(\1) { self.hugr.get_optype(\1) })', t)
    t = re.sub(r'validate_op_children\((\w+)\)', r'validate_op_children(Kids::over(\1))', t)
    return re.sub(r'\bedge_check\((\w+)\)', r'edge_check.call(\1)', t)
LOOP = [(r'for \((\w+), (\w+)\) in children \{', r'for k in children.at..children.v.len() { let (\1, \2) = children.v[k];')]
def p_o03_rules():
    return RULES + [(r'(self\.just_inputs|self\.just_outputs|row|sum_rows)\.extend\(self\.(\w+)\.iter\(\)\)', r'\1.extend(&self.\2)'), (r'\?\s*\.extend\(\s*self\.(\w+)\.iter\(\)\s*\)', r'?.extend(&self.\1)'), (r'\.extend\(self\.(\w+)\.iter\(\)\)', r'.extend(&self.\1)')]
