from opsx import *
EXEC = 'o03'
SIG = {
 'Input': '(Seq::empty(), x.types@)', 'Output': '(x.types@, Seq::empty())',
 'Call': '(x.instantiation.input@, x.instantiation.output@)',
 'CallIndirect': '(seq![func_of(x.signature.input@, x.signature.output@)] + x.signature.input@, x.signature.output@)',
 'LoadConstant': '(Seq::empty(), seq![x.datatype])',
 'LoadFunction': '(Seq::empty(), seq![func_of(x.instantiation.input@, x.instantiation.output@)])',
 'DFG': '(x.signature.input@, x.signature.output@)', 'CFG': '(x.signature.input@, x.signature.output@)',
 'ExtensionOp': '(x.signature.input@, x.signature.output@)', 'OpaqueOp': '(x.signature.input@, x.signature.output@)',
 'Tag': '(x.variants@[x.tag as int]@, seq![sum_of(rows_view(x.variants@))])',
 'TailLoop': '(x.just_inputs@ + x.rest@, x.just_outputs@ + x.rest@)',
 'Conditional': '(seq![sum_of(rows_view(x.sum_rows@))] + x.other_inputs@, x.outputs@)',
}
INNER = {
 'DFG': '(x.signature.input@, x.signature.output@)', 'Case': '(x.signature.input@, x.signature.output@)',
 'FuncDefn': '(x.signature.body.input@, x.signature.body.output@)',
 'TailLoop': '(x.just_inputs@ + x.rest@, seq![sum_of(seq![x.just_inputs@, x.just_outputs@])] + x.rest@)',
 'DataflowBlock': '(x.inputs@, seq![sum_of(rows_view(x.sum_rows@))] + x.other_outputs@)',
}
EQ = 'r.input@ =~= {s}.0 && r.output@ =~= {s}.1'
def units():
    u = Unit('o03')
    u.text('// tags are not needed here\n#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum OpTag { ' + ', '.join(tag_table()[0]) + ' }')
    data(u)
    V = variants()
    for x in V:
        if (x in SIG) != (df_impl(x) is not None): raise AnchorLost(f'{x}: dataflow operation or not')
        if x in SIG: u.text(f'/// the documented signature\npub open spec fn sig_{x}(x: {x}) -> (Seq<Type>, Seq<Type>) {{ {SIG[x]} }}')
        if (x in INNER) != (inner(x)[1] is not None): raise AnchorLost(f'{x}: dataflow parent or not')
        if x in INNER: u.text(f'pub open spec fn inner_{x}(x: {x}) -> (Seq<Type>, Seq<Type>) {{ {INNER[x]} }}')
    tr = src('hugr-core/src/types/type_row.rs'); sg = src('hugr-core/src/types/signature.rs')
    def imp(s, rx, name):
        for n in range(9):
            sp = s.impl(rx, nth=n)
            if has_fn(s, name, sp): return s.fn(name, sp)
    RB = r'<RV: MaybeRV>\s*TypeRowBase<RV>\s*\{'; FB = r'<RV: MaybeRV>\s*FuncTypeBase<RV>\s*\{'
    u.text('impl TypeRow {')
    u.fn(imp(tr, RB, 'new'), 'ensures r@.len() == 0,', rules=[(r'Cow::Owned\(Vec::new\(\)\)', 'Vec::new()'), (r'\bconst fn', 'fn')], obligation='TypeRow::new')
    u.fn(imp(tr, RB, 'extend'), 'ensures r@ =~= self@ + rest@,', rules=[(r'self\.iter\(\)\.chain\(rest\)\.cloned\(\)\.collect_vec\(\)\.into\(\)', 'IntoRow::into_row(chain_cloned(&self.types, &rest.types))')],
         sig='pub fn extend(&self, rest: &TypeRow) -> (r: Self)', obligation='TypeRow::extend')
    u.text('}\nimpl Signature {')
    u.fn(imp(sg, FB, 'new'), 'ensures r.input@ == input.row(), r.output@ == output.row(),', rules=[(r'\.into\(\)', '.into_row()')], sig='pub fn new<A: IntoRow, B: IntoRow>(input: A, output: B) -> (r: Self)', obligation='Signature::new')
    u.text('pub fn default() -> (r: Self) ensures r.input@.len() == 0, r.output@.len() == 0 { Signature { input: TypeRow::new(), output: TypeRow::new() } }')
    si = sg.impl(r'Signature\s*\{')
    u.fn(sg.fn('port_count', si), 'ensures r == if dir == Direction::Incoming { self.input@.len() } else { self.output@.len() },', obligation='Signature::port_count')
    u.fn(sg.fn('input_count', si), 'ensures r == self.input@.len(),', obligation='Signature::input_count')
    u.text('}')
    pf = src('hugr-core/src/types/poly_func.rs')
    u.text('impl PolyFuncType {')
    u.fn(imp(pf, r'<RV: MaybeRV>\s*PolyFuncTypeBase<RV>\s*\{', 'body'), 'ensures *r == self.body,', sig='pub fn body(&self) -> (r: &Signature)', obligation='PolyFuncType::body')
    u.text('''#[verifier::external_body] pub fn instantiate(&self, args: &Vec<TypeArg>) -> (r: Result<Signature, SignatureError>)
    ensures match r { Ok(s) => instantiated(*self, args@) == Some((s.input@, s.output@)), Err(_) => instantiated(*self, args@) is None } { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct IncomingPort { pub index: u16 }
pub fn port_at(i: usize) -> (r: IncomingPort) requires i <= 0xffff ensures r.index == i { IncomingPort { index: i as u16 } }
#[verifier::external_body] pub fn sig_eq(a: &Signature, b: &Signature) -> (r: bool) ensures r == same_sig(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn clone_args(v: &Vec<TypeArg>) -> (r: Vec<TypeArg>) ensures r@ == v@ { unimplemented!() }
/// extensionality of the two-row list, for use inside `vec![..]`
fn sum_of_pair(cv: [TypeRow; 2]) -> (r: Type) ensures r == sum_of(seq![cv[0]@, cv[1]@]) { assert(cv.rows() =~= seq![cv[0]@, cv[1]@]); Type::new_sum(cv) }
fn sig_error() -> SignatureError { SignatureError(0) }
''')
    u.trust('contract of PolyFuncType::instantiate (what it computes is the subject of T02 and T03); == on signatures compares the rows')
    rl = RULES + [(r'(self\.just_inputs|self\.just_outputs|row|sum_rows)\.extend\(self\.(\w+)\.iter\(\)\)', r'\1.extend(&self.\2)'), (r'\?\s*\.extend\(\s*self\.(\w+)\.iter\(\)\s*\)', r'?.extend(&self.\1)'), (r'\.extend\(self\.(\w+)\.iter\(\)\)', r'.extend(&self.\1)')]
    PR = 'requires x.tag < x.variants@.len(), '
    for x in V:
        u.text(f'impl {x} {{')
        f, g = inner(x)
        if x == 'LoadConstant': dfs = src(OPS + '/dataflow.rs'); u.fn(dfs.fn('constant_type', dfs.impl(x + r'\s*\{')), 'ensures *r == self.datatype,', obligation=f'{x}::constant_type')
        if g:
            if x == 'TailLoop':
                cf = src(OPS + '/controlflow.rs'); ti = cf.impl(r'TailLoop\s*\{')
                u.fn(cf.fn('control_variants', ti), 'ensures r@.len() == 2, r[0]@ == self.just_inputs@, r[1]@ == self.just_outputs@,', rules=rl, obligation='TailLoop::control_variants')
                u.fn(cf.fn('body_input_row', ti), 'ensures r@ =~= self.just_inputs@ + self.rest@,', rules=rl, obligation='TailLoop::body_input_row')
                u.fn(cf.fn('body_output_row', ti), 'ensures r@ =~= seq![sum_of(seq![self.just_inputs@, self.just_outputs@])] + self.rest@,', rules=rl + [(r'Type::new_sum\(self\.control_variants\(\)\)', 'sum_of_pair(self.control_variants())')], obligation='TailLoop::body_output_row')
            u.fn(g, f"ensures {EQ.format(s=f'inner_{x}(*self)')},", rules=rl, sig='pub fn inner_signature(&self) -> (r: Signature)', obligation=f'{x}::inner_signature')
            u.fn(f, f"ensures r matches Some(s) && s.input@ =~= inner_{x}(*self).0 && s.output@ =~= inner_{x}(*self).1,", rules=rl, sig='pub fn inner_function_type(&self) -> (r: Option<Signature>)', obligation=f'{x}::inner_function_type')
        else:
            u.fn(f, 'ensures r is None,', rules=rl, sig='pub fn inner_function_type(&self) -> (r: Option<Signature>)', obligation=f'{x}::inner_function_type')
        if x in SIG:
            req = 'requires self.tag < self.variants@.len(), ' if x == 'Tag' else ''
            rs = rl + [(r'vget\(&self\.variants, self\.tag\)\s*\.expect\(.*?\)', 'vget(&self.variants, self.tag).unwrap()')]
            u.fn(resolve_df(x, 'signature'), req + f"ensures {EQ.format(s=f'sig_{x}(*self)')},", rules=rs, sig='pub fn signature(&self) -> (r: Signature)', obligation=f'{x}::signature')
            u.fn(resolve(x, 'dataflow_signature'), req + f"ensures r matches Some(s) && s.input@ =~= sig_{x}(*self).0 && s.output@ =~= sig_{x}(*self).1,", rules=rl, sig='pub fn dataflow_signature(&self) -> (r: Option<Signature>)', obligation=f'{x}::dataflow_signature')
        else:
            u.fn(resolve(x, 'dataflow_signature'), 'ensures r is None,', rules=rl, sig='pub fn dataflow_signature(&self) -> (r: Option<Signature>)', obligation=f'{x}::dataflow_signature')
        d = src(OPS + '/dataflow.rs'); cf = src(OPS + '/controlflow.rs')
        if x in ('Call', 'LoadFunction'):
            im = d.impl(x + r'\s*\{')
            tr_ = [(r'let type_args: Vec<_> = type_args\.into\(\);', ''), (r'Ok\(Self \{', f'Ok({x} {{'), (r'Self::try_new', f'{x}::try_new'), (r'self\.type_args\.clone\(\)', 'clone_args(&self.type_args)'), (r'other\.instantiation == self\.instantiation', 'sig_eq(&other.instantiation, &self.instantiation)'),
                   (r'(?s)SignatureError::\w+ \{.*?\}\)', 'sig_error())')]
            u.fn(d.fn('try_new', im), '''ensures match r { Ok(c) => c.func_sig == func_sig && c.type_args@ == type_args@ && instantiated(func_sig, type_args@) == Some((c.instantiation.input@, c.instantiation.output@)), Err(_) => instantiated(func_sig, type_args@) is None },''',
                 rules=tr_, sig=f'pub fn try_new(func_sig: PolyFuncType, type_args: Vec<TypeArg>) -> (r: Result<{x}, SignatureError>)', obligation=f'{x}::try_new')
            u.fn(d.fn('validate', im), '''ensures // the cached signature is accepted exactly when it is the instantiation of the function's type
   r is Ok <==> instantiated(self.func_sig, self.type_args@) == Some((self.instantiation.input@, self.instantiation.output@)),''', rules=tr_, obligation=f'{x}::validate')
        pt = {'Call': 'called_function_port', 'LoadFunction': 'function_port', 'LoadConstant': 'constant_port'}.get(x)
        if pt:
            u.fn(d.fn(pt, d.impl(x + r'\s*\{')), f'requires sig_{x}(*self).0.len() <= 0xffff, ensures r.index == sig_{x}(*self).0.len(),', rules=[(r'([\w.]+(?:\(\))?)\.into\(\)', r'port_at(\1)')], obligation=f'{x}::{pt}')
        if x == 'Conditional':
            u.fn(cf.fn('case_input_row', cf.impl(x + r'\s*\{')), 'ensures match r { Some(w) => case < self.sum_rows@.len() && w@ =~= self.sum_rows@[case as int]@ + self.other_inputs@, None => case >= self.sum_rows@.len() },', rules=rl, obligation='Conditional::case_input_row')
        if x == 'DataflowBlock':
            u.fn(cf.fn('successor_input', cf.impl(x + r'\s*\{')), 'ensures match r { Some(w) => successor < self.sum_rows@.len() && w@ =~= self.sum_rows@[successor as int]@ + self.other_outputs@, None => successor >= self.sum_rows@.len() },', rules=rl, obligation='DataflowBlock::successor_input')
        if x in ('DataflowBlock', 'ExitBlock'):
            u.fn(cf.fn('dataflow_input', cf.impl(r'BasicBlock for ' + x + r'\s*\{')), f"ensures *r == self.{'inputs' if x == 'DataflowBlock' else 'cfg_outputs'},", obligation=f'{x}::dataflow_input')
        if x == 'Case':
            u.fn(cf.fn('dataflow_input', cf.impl(r'Case\s*\{')), 'ensures *r == self.signature.input,', obligation='Case::dataflow_input')
            u.fn(cf.fn('dataflow_output', cf.impl(r'Case\s*\{')), 'ensures *r == self.signature.output,', obligation='Case::dataflow_output')
        u.text('}')
    return [u]
ASSUMPTIONS = ['a Tag operation names an existing variant (its signature panics otherwise)', 'rows have fewer than 2^16 types where a port handle is made of their length']
