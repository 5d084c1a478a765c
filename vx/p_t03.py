from partsx import *
import partsx, copy
EXEC = 't03'
SPEC = '''
pub struct TermTypeError(pub u8);
/// two vectors with the same content are equal
pub mod ax { use vstd::prelude::*; use super::*;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn vec_ext<T>(v: Vec<T>) ensures #[trigger] vec_of(v@) == v;
pub axiom fn vec_of_view<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures vec_of(s)@ == s;
/// the type a constructor makes of a structure: the structure itself with its bound (what the bound is: T01)
pub uninterp spec fn mk(e: TypeEnum) -> Type;
pub broadcast axiom fn mk_keeps(e: TypeEnum) ensures (#[trigger] mk(e)).0 == e;
}
use ax::*;
broadcast use {vec_ext, mk_keeps};
pub fn vec1<T>(x: T) -> (r: Vec<T>) ensures r@ =~= seq![x] { let mut v = Vec::new(); v.push(x); v }
#[verifier::external_body] pub fn diverge<T>() -> T ensures false { unimplemented!() }
impl Clone for SeqPart { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn row_bound(v: TermVar) -> Option<TypeBound> { match *v.cached_decl { Term::ListType(it) => match *it { Term::RuntimeType(b) => Some(b), _ => None }, _ => None } }
pub open spec fn row_var(i: usize, b: TypeBound) -> Type { Type(TypeEnum::RowVar(RowVariable(i, b)), b) }
/// a type as a term: a row variable becomes a variable over lists of types
pub open spec fn of_type(t: Type) -> Term { match t.0 { TypeEnum::RowVar(v) => Term::Variable(TermVar { idx: v.0, cached_decl: Box::new(Term::ListType(Box::new(Term::RuntimeType(v.1)))) }), _ => Term::Runtime(t) } }
/// the bound an extension type's definition declares for its arguments (T01)
pub uninterp spec fn declared(c: CustomType, args: Seq<Term>) -> TypeBound;
pub open spec fn no_fields(rows: Seq<TypeRow>) -> bool { forall|i: int| #![trigger rows[i]] 0 <= i < rows.len() ==> rows[i]@.len() == 0 }
/// the canonical form of a sum
pub open spec fn sum_of(rows: Seq<TypeRow>) -> SumType { if rows.len() <= 255 && no_fields(rows) { SumType::Unit { size: rows.len() as u8 } } else { SumType::General { rows: vec_of(rows) } } }
pub open spec fn row_item(t: Term) -> Type { match t { Term::Runtime(ty) => ty, Term::Variable(v) => row_var(v.idx, row_bound(v)->0), _ => arbitrary() } }
/// the row of types an argument stands for
pub open spec fn row_args(t: Term) -> Seq<Type> decreases t
{ match t { Term::List(v) => Seq::new(v@.len(), |i: int| row_item(v@[i])), Term::ListConcat(v) => row_args_upto(v, v@.len()), Term::Variable(v) => seq![row_var(v.idx, row_bound(v)->0)], Term::Runtime(ty) => seq![ty], _ => arbitrary() } }
pub open spec fn row_args_upto(v: Vec<Term>, n: nat) -> Seq<Type> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { row_args_upto(v, (n - 1) as nat) + row_args(v@[n - 1]) } }
// ---- substitution, as documented: variables are replaced, everything else is kept in place ----
pub open spec fn sub_type(t: Type, a: Seq<Term>) -> Seq<Type> decreases t
{ match t.0 { TypeEnum::RowVar(v) => row_args(a[v.0 as int]), TypeEnum::Alias(_) => seq![t], TypeEnum::Sum(SumType::Unit { .. }) => seq![t],
   TypeEnum::Variable(i, _) => match a[i as int] { Term::Runtime(ty) => seq![ty], _ => arbitrary() },
   TypeEnum::Extension(c) => seq![mk(TypeEnum::Extension(sub_custom(c, a)))], TypeEnum::Function(f) => seq![mk(TypeEnum::Function(Box::new(FuncValueType { input: sub_row(f.input, a), output: sub_row(f.output, a) })))],
   TypeEnum::Sum(SumType::General { rows }) => seq![mk(TypeEnum::Sum(sum_of(sub_rows(rows, rows@.len(), a))))] } }
pub open spec fn sub_custom(c: CustomType, a: Seq<Term>) -> CustomType decreases c
{ let args = sub_terms(c.args, c.args@.len(), a); CustomType { args: vec_of(args), bound: declared(c, args), ..c } }
pub open spec fn sub_row(r: TypeRow, a: Seq<Term>) -> TypeRow decreases r { TypeRow { types: vec_of(sub_types(r.types, r.types@.len(), a)) } }
pub open spec fn sub_types(v: Vec<Type>, n: nat, a: Seq<Term>) -> Seq<Type> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { sub_types(v, (n - 1) as nat, a) + sub_type(v@[n - 1], a) } }
pub open spec fn sub_terms(v: Vec<Term>, n: nat, a: Seq<Term>) -> Seq<Term> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { sub_terms(v, (n - 1) as nat, a).push(sub_term(v@[n - 1], a)) } }
pub open spec fn sub_rows(v: Vec<TypeRow>, n: nat, a: Seq<Term>) -> Seq<TypeRow> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { sub_rows(v, (n - 1) as nat, a).push(sub_row(v@[n - 1], a)) } }
pub open spec fn elem_parts(row: bool, s: Seq<Term>) -> Seq<SeqPart> { Seq::new(s.len(), |i: int| elem_part(row, s[i])) }
pub open spec fn splices(s: Seq<Term>) -> Seq<SeqPart> { Seq::new(s.len(), |i: int| SeqPart::Splice(s[i])) }
pub open spec fn sub1(t: Type, a: Seq<Term>) -> Type decreases t, 1nat { sub_type(t, a)[0] }
pub open spec fn is_row_like(t: Term) -> bool { match t { Term::Runtime(_) => true, Term::Variable(v) => row_bound(v) is Some, _ => false } }
/// a list whose first element is a type (or a row variable) is a list of types: only in one of these a substituted element can be a whole row
pub open spec fn of_types(v: Seq<Term>) -> bool { v.len() > 0 && is_row_like(v[0]) }
pub open spec fn elem_part(row: bool, r: Term) -> SeqPart { if row && (r is List || r is ListConcat) { SeqPart::Splice(r) } else { SeqPart::Item(r) } }
pub open spec fn sub_term(t: Term, a: Seq<Term>) -> Term decreases t
{ match t { Term::Runtime(ty) => of_type(sub_type(ty, a)[0]), Term::ConstType(ty) => Term::ConstType(Box::new(sub_type(*ty, a)[0])),
   Term::List(v) => mk_list(lflat(elem_parts(of_types(v@), sub_terms(v, v@.len(), a)))),
   Term::ListConcat(v) => mk_list(lflat(splices(sub_terms(v, v@.len(), a)))),
   Term::Tuple(v) => Term::Tuple(vec_of(sub_terms(v, v@.len(), a))),
   Term::TupleConcat(v) => mk_tuple(tflat(splices(sub_terms(v, v@.len(), a)))),
   Term::Variable(v) => a[v.idx as int], Term::ListType(k) => Term::ListType(Box::new(sub_term(*k, a))), Term::TupleType(k) => Term::TupleType(Box::new(sub_term(*k, a))), _ => t } }
'''
GROUP = '''
/// items and closed runs so far: a run of items is closed by the next splice
pub open spec fn Xgroup(p: Seq<SeqPart>) -> (Seq<Term>, Seq<Term>) decreases p.len()
{ if p.len() == 0 { (Seq::empty(), Seq::empty()) } else { let g = Xgroup(p.drop_last()); match p.last() { SeqPart::Item(t) => (g.0.push(t), g.1), SeqPart::Splice(t) => (Seq::empty(), (if g.0.len() > 0 { g.1.push(Term::KIND(vec_of(g.0))) } else { g.1 }).push(t)) } } }
/// the canonical sequence with the given (flat) parts
pub open spec fn mk_LOW(p: Seq<SeqPart>) -> Term
{ let g = Xgroup(p); if g.1.len() == 0 { Term::KIND(vec_of(g.0)) } else if g.0.len() == 0 { Term::KINDConcat(vec_of(g.1)) } else { Term::KINDConcat(vec_of(g.1.push(Term::KIND(vec_of(g.0))))) } }
/// `parts.into_iter().flat_map(KINDPartIter::new)`, run to its end
pub fn flat_KINDPartIter(parts: &Vec<SeqPart>) -> (r: Vec<SeqPart>) ensures r@ == Xflat(parts@)
{ let mut v: Vec<SeqPart> = Vec::new(); for at in 0..parts.len() invariant v@ =~= Xflat(parts@.take(at as int)) { let mut w = Xcollect(KINDPartIter::new(parts[at].clone())); let ghost o = v@; v.append(&mut w);
   proof { let s = parts@.take(at as int + 1); assert(s.drop_last() =~= parts@.take(at as int)); assert(s.last() == parts@[at as int]); } } proof { assert(parts@.take(parts@.len() as int) =~= parts@); } v }
'''
# nothing is lost by regrouping: the parts of the canonical sequence are the parts it was made from
REG = '''pub open spec fn Xitems(s: Seq<Term>) -> Seq<SeqPart> { Seq::new(s.len(), |i: int| SeqPart::Item(s[i])) }
pub open spec fn Xruns(s: Seq<Term>) -> Seq<SeqPart> decreases s.len() { if s.len() == 0 { Seq::empty() } else { Xruns(s.drop_last()) + Xparts(s.last()) } }
proof fn Xruns_are_parts(s: Seq<Term>, n: nat) requires s.len() <= usize::MAX, n <= s.len() ensures Xparts_upto(vec_of(s), n) =~= Xruns(s.take(n as int)) decreases n
{ vec_of_view(s); if n > 0 { Xruns_are_parts(s, (n - 1) as nat); assert(s.take(n as int).drop_last() =~= s.take(n - 1)); assert(s.take(n as int).last() == s[n - 1]); } }
pub open spec fn Xsmooth(p: Seq<SeqPart>) -> bool { forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> (p[i] matches SeqPart::Splice(t) ==> !(t is KIND) && !(t is KINDConcat)) }
proof fn Xgroup_keeps(p: Seq<SeqPart>) requires Xsmooth(p), p.len() < usize::MAX / 2 ensures Xruns(Xgroup(p).1) + Xitems(Xgroup(p).0) =~= p, Xgroup(p).0.len() <= p.len(), Xgroup(p).1.len() <= 2 * p.len() decreases p.len()
{ if p.len() > 0 { let d = p.drop_last(); assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies (d[i] matches SeqPart::Splice(t) ==> !(t is KIND) && !(t is KINDConcat)) by { assert(d[i] == p[i]); } Xgroup_keeps(d); let g = Xgroup(d); assert(p =~= d.push(p.last()));
   match p.last() { SeqPart::Item(t) => { assert(Xitems(g.0.push(t)) =~= Xitems(g.0).push(SeqPart::Item(t))); }
    SeqPart::Splice(t) => { assert(p[p.len() - 1] == p.last()); assert(Xparts(t) =~= seq![SeqPart::Splice(t)]); let run = Term::KIND(vec_of(g.0)); vec_of_view(g.0); assert(Xparts(run) =~= Xitems(g.0));
      let m = if g.0.len() > 0 { g.1.push(run) } else { g.1 }; assert(m.push(t).drop_last() =~= m); if g.0.len() > 0 { assert(g.1.push(run).drop_last() =~= g.1); } assert(Xruns(m) =~= d); } } } }
'''
REGLEMMA = '''pub proof fn regrouped_LOW_has_the_given_parts(p: Seq<SeqPart>) requires Xsmooth(p), p.len() < usize::MAX / 4 ensures Xparts(mk_LOW(p)) =~= p
{ Xgroup_keeps(p); let g = Xgroup(p); vec_of_view(g.0);
  if g.1.len() == 0 { assert(Xruns(g.1) =~= Seq::empty()); } else if g.0.len() == 0 { assert(Xitems(g.0) =~= Seq::empty()); Xruns_are_parts(g.1, g.1.len()); vec_of_view(g.1); assert(g.1.take(g.1.len() as int) =~= g.1); }
  else { let run = Term::KIND(vec_of(g.0)); let s = g.1.push(run); Xruns_are_parts(s, s.len()); vec_of_view(s); assert(s.take(s.len() as int) =~= s); assert(s.drop_last() =~= g.1); assert(Xparts(run) =~= Xitems(g.0)); } }
'''
IDS = '''
/// the arguments stand for the variables themselves, there is no concatenation, and the term is one the constructors make (canonical sums, right bounds: T01, T04)
pub open spec fn ids_type(t: Type, a: Seq<Term>) -> bool decreases t
{ match t.0 { TypeEnum::RowVar(v) => row_args(a[v.0 as int]) =~= seq![t], TypeEnum::Variable(i, _) => a[i as int] == Term::Runtime(t),
   TypeEnum::Extension(c) => mk(t.0) == t && declared(c, c.args@) == c.bound && forall|i: int| #![trigger c.args@[i]] 0 <= i < c.args@.len() ==> ids_term(c.args@[i], a),
   TypeEnum::Function(f) => mk(t.0) == t && ids_row(f.input, a) && ids_row(f.output, a),
   TypeEnum::Sum(SumType::General { rows }) => mk(t.0) == t && sum_of(rows@) == (SumType::General { rows }) && forall|i: int| #![trigger rows@[i]] 0 <= i < rows@.len() ==> ids_row(rows@[i], a), _ => true } }
pub open spec fn ids_row(r: TypeRow, a: Seq<Term>) -> bool decreases r { forall|i: int| #![trigger r.types@[i]] 0 <= i < r.types@.len() ==> ids_type(r.types@[i], a) }
pub open spec fn ids_term(t: Term, a: Seq<Term>) -> bool decreases t
{ match t { Term::Runtime(ty) => !(ty.0 is RowVar) && ids_type(ty, a), Term::ConstType(ty) => !(ty.0 is RowVar) && ids_type(*ty, a), Term::ListType(k) => ids_term(*k, a), Term::TupleType(k) => ids_term(*k, a),
   Term::List(v) => (of_types(v@) ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> is_row_like(v@[i])) && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> ids_term(v@[i], a),
   Term::Tuple(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> ids_term(v@[i], a), Term::Variable(v) => a[v.idx as int] == t, Term::ListConcat(_) => false, Term::TupleConcat(_) => false, _ => true } }
'''
IDLEMMA = '''pub proof fn identity_type(t: Type, a: Seq<Term>) requires ids_type(t, a) ensures sub_type(t, a) =~= seq![t] decreases t
{ match t.0 { TypeEnum::Extension(c) => { identity_terms(c.args, c.args@.len(), a); assert(sub_terms(c.args, c.args@.len(), a) =~= c.args@); assert(sub_custom(c, a) == c); }
   TypeEnum::Function(f) => { identity_row(f.input, a); identity_row(f.output, a); assert(t.0 == TypeEnum::Function(Box::new(FuncValueType { input: sub_row(f.input, a), output: sub_row(f.output, a) }))); }
   TypeEnum::Sum(SumType::General { rows }) => { identity_rows(rows, rows@.len(), a); assert(sub_rows(rows, rows@.len(), a) =~= rows@); } _ => {} } }
pub proof fn identity_row(r: TypeRow, a: Seq<Term>) requires ids_row(r, a) ensures sub_row(r, a) == r decreases r, 0nat { identity_types(r.types, r.types@.len(), a); assert(sub_types(r.types, r.types@.len(), a) =~= r.types@); assert(decreases_to!(r => r.types)); }
pub proof fn identity_types(v: Vec<Type>, n: nat, a: Seq<Term>) requires n <= v@.len(), forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> ids_type(v@[i], a) ensures sub_types(v, n, a) =~= v@.take(n as int) decreases v, n { if n > 0 { identity_types(v, (n - 1) as nat, a); identity_type(v@[n - 1], a); } }
pub proof fn identity_terms(v: Vec<Term>, n: nat, a: Seq<Term>) requires n <= v@.len(), forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> ids_term(v@[i], a) ensures sub_terms(v, n, a) =~= v@.take(n as int) decreases v, n { if n > 0 { identity_terms(v, (n - 1) as nat, a); identity_term(v@[n - 1], a); } }
pub proof fn identity_rows(v: Vec<TypeRow>, n: nat, a: Seq<Term>) requires n <= v@.len(), forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> ids_row(v@[i], a) ensures sub_rows(v, n, a) =~= v@.take(n as int) decreases v, n { if n > 0 { identity_rows(v, (n - 1) as nat, a); identity_row(v@[n - 1], a); } }
proof fn items_stay(p: Seq<SeqPart>) requires forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i] is Item ensures lflat(p) =~= p, lgroup(p).1.len() == 0, lgroup(p).0 =~= Seq::new(p.len(), |i: int| p[i]->Item_0) decreases p.len()
{ if p.len() > 0 { let d = p.drop_last(); assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i] is Item by { assert(d[i] == p[i]); } items_stay(d); assert(p[p.len() - 1] is Item); assert(p =~= d.push(p.last())); assert(lgroup(p).0 =~= lgroup(d).0.push(p.last()->Item_0)); } }
pub proof fn identity_term(t: Term, a: Seq<Term>) requires ids_term(t, a) ensures sub_term(t, a) == t decreases t
{ match t { Term::Runtime(ty) => identity_type(ty, a), Term::ConstType(ty) => identity_type(*ty, a), Term::ListType(k) => identity_term(*k, a), Term::TupleType(k) => identity_term(*k, a),
   Term::List(v) => { identity_terms(v, v@.len(), a); assert(v@.take(v@.len() as int) =~= v@); let p = elem_parts(of_types(v@), v@); assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies p[i] is Item by { if of_types(v@) { assert(is_row_like(v@[i])); } } items_stay(p); assert(lgroup(p).0 =~= v@); }
   Term::Tuple(v) => { identity_terms(v, v@.len(), a); assert(v@.take(v@.len() as int) =~= v@); } _ => {} } }
'''
AT = '#[verifier::exec_allows_no_decreases_clause] '
def maps(body, name, sites):
    """`X.iter().map(|e| BODY)` -> the loop that collects BODY over X, with the invariant `sites` gives for it"""
    for _ in range(12):
        r = Rust(body)
        m = next(r.finditer(r'(?<![\w.])(\w+(?:\s*\.\s*\w+)?)\s*\.iter\(\)\s*\.map\(\|(\w+)\|\s*'), None)
        if not m: return body
        op = r.t.rindex('(', 0, m.end()); cl = r.match[op]; bd = r.t[m.end():cl].strip()
        it = re.sub(r'\s', '', m.group(1)); inv, ty = sites(it, bd)
        if bd.endswith(','): bd = bd[:-1]
        new = f'{{ let mut out: Vec<{ty}> = Vec::new(); for at in 0..{it}.len() invariant {inv} {{ let {m.group(2)} = &{it}[at]; let e = {bd}; out.push(e); }} out }}'
        body = body[:m.start()] + new + body[cl + 1:]
    raise AnchorLost(name + ': too many iterator chains')
def vec1(body):
    while True:
        r = Rust(body); m = next(r.finditer(r'\bvec!\['), None)
        if not m: return body
        c = r.match[m.end() - 1]; inner = body[m.end():c]
        if len([x for x in split(inner) if x.strip()]) != 1: raise AnchorLost('vec! of more than one element')
        body = body[:m.start()] + 'vec1(' + inner + ')' + body[c + 1:]
def units():
    u = Unit('t03'); data(u); partsx.emit(u); u.text(SPEC)
    for k, x, low in (('List', 'l', 'list'), ('Tuple', 't', 'tuple')):
        u.text(re.sub(r'\bX(?=[a-z])', x, GROUP).replace('KIND', k).replace('LOW', low)); u.text(re.sub(r'\bX(?=[a-z])', x, REG).replace('KIND', k))
        u.lemma(f'regrouped_{low}_has_the_given_parts', re.sub(r'\bX(?=[a-z])', x, REGLEMMA).replace('KIND', k).replace('LOW', low))
    s = src('hugr-core/src/types.rs'); tp = src(T + '/type_param.rs'); cu = src(T + '/custom.rs'); tr = src(T + '/type_row.rs'); sg = src(T + '/signature.rs'); rv = src(T + '/row_var.rs')
    B = 'proof { broadcast use vec_ext, mk_keeps; }'
    USE = 'broadcast use {vec_ext, mk_keeps};'
    R = FN + [(r'panic!\("(?:[^"\\]|\\.)*"\)', 'diverge()'), (r'debug_assert(?:_eq)?!\((?:[^;]*)\);', ''), (r"&Substitution\b(?!\()", '&Substitution'), (r'\.as_slice\(\)', '')]
    u.text("pub struct Substitution<'a>(pub &'a [Term]);\npub fn tget(v: &[Term], i: usize) -> (r: &Term) ensures i < v@.len(), *r == v@[i as int] { if i < v.len() { &v[i] } else { diverge() } }")
    u.text('impl TermVar {')
    u.fn(tp.fn('bound_if_row_var', tp.impl(r'TermVar\s*\{')), 'ensures r == row_bound(*self),', rules=R, obligation='TermVar::bound_if_row_var')
    u.fn(tp.fn('index', tp.impl(r'TermVar\s*\{')), 'ensures r == self.idx,', rules=R, obligation='TermVar::index')
    # constructors
    u.text('}\nimpl SumType {')
    st = s.impl(r'SumType\s*\{')
    u.text('''pub fn all_empty(rows: &Vec<TypeRow>) -> (r: bool) ensures r == no_fields(rows@) { for i in 0..rows.len() invariant forall|k: int| #![trigger rows@[k]] 0 <= k < i ==> rows@[k]@.len() == 0 { if rows[i].types.len() != 0 { assert(rows@[i as int]@.len() != 0); return false; } } true }
pub fn fits_u8(n: usize) -> (r: bool) ensures r == (n <= 255) { n <= 255 }''')
    u.fn(s.fn('new_unary', st), 'ensures r == (SumType::Unit { size }),', rules=R, obligation='SumType::new_unary')
    u.fn(s.fn('new', st), 'ensures r == sum_of(variants@),', rules=R + [(r'\bvariants\.into_iter\(\)\.map\(Into::into\)\.collect_vec\(\)', 'variants'), (r'u8::try_from\((\w+)\)\.is_ok\(\)', r'Self::fits_u8(\1)'), (r'rows\.iter\(\)\.all\(TypeRow::is_empty\)', 'Self::all_empty(&rows)')],
         sig='pub fn new(variants: Vec<TypeRow>) -> (r: SumType)', obligation='SumType::new')
    u.text('}\nimpl Type {')
    u.text('''#[verifier::external_body] pub fn new(e: TypeEnum) -> (r: Type) ensures r == mk(e) { unimplemented!() }
#[verifier::external_body] pub fn new_extension(c: CustomType) -> (r: Type) ensures r == mk(TypeEnum::Extension(c)) { unimplemented!() }''')
    u.trust('Type::new and Type::new_extension keep the structure they are given and store a bound determined by it (proved in T01)')
    f = lambda n: imp(s, TB, n)
    u.fn(f('new_function'), 'ensures r == mk(TypeEnum::Function(Box::new(fun_ty))),', rules=R + [(r'fun_ty\.into\(\)', 'fun_ty')], sig='pub fn new_function(fun_ty: FuncValueType) -> (r: Type)', obligation='Type::new_function')
    u.fn(f('new_sum'), 'ensures r == mk(TypeEnum::Sum(sum_of(variants@))),', rules=R, sig='pub fn new_sum(variants: Vec<TypeRow>) -> (r: Type)', obligation='Type::new_sum')
    u.fn(imp(s, r'TypeRV\s*\{', 'new_row_var_use'), 'ensures r == row_var(idx, bound),', rules=R, sig='pub fn new_row_var_use(idx: usize, bound: TypeBound) -> (r: Type)', obligation='Type::new_row_var_use')
    u.fn(f('into_'), 'ensures r == self,', rules=R + [(r'rv\.into\(\)', 'rv')], sig='pub fn into_(self) -> (r: Type)', obligation='Type::into_')
    u.fn(f('try_into_type'), 'ensures match r { Ok(t) => t == self && !(self.0 is RowVar), Err(v) => self.0 == TypeEnum::RowVar(v) },', rules=R + [(r'TypeEnum::RowVar\(rv\) => Err\(rv\.as_rv\(\)\.clone\(\)\)\?', 'TypeEnum::RowVar(rv) => return Err(rv.clone())')], sig='pub fn try_into_type(self) -> (r: Result<Type, RowVariable>)', obligation='Type::try_into_type')
    # types
    m = "Vec<TypeRow>"
    def rows_site(x, b): return ('*self == *old_self, old_self.0 matches TypeEnum::Sum(SumType::General { rows: rs }) && rs == *rows, out@ =~= sub_rows(*rows, at as nat, t.0@)', 'TypeRow')
    fs = copy.copy(f('substitute')); fs.body = maps(vec1(strip_attrs(fs.body)), 'TypeBase::substitute', rows_site)
    u.fn(fs, 'ensures r@ =~= sub_type(*self, t.0@),', rules=R + [(r'&\(\(\*bound\)\.into\(\)\)', '&Term::RuntimeType(*bound)'), (r'let (?:TypeArg|Term)::Runtime\((\w+)\) = ([^;]*?) else \{\s*diverge\(\)\s*\};', r'let \1 = match \2 { Term::Runtime(\1) => \1, _ => diverge() };')],
         sig=AT + 'pub fn substitute(&self, t: &Substitution) -> (r: Vec<Type>)', pre='let ghost old_self = self;', obligation='TypeBase::substitute', loops=[''] )
    u.text('pub fn only(v: Vec<Type>) -> (r: Type) ensures v@.len() == 1, r == v@[0] { if v.len() == 1 { let mut v = v; v.pop().unwrap() } else { diverge() } }')
    u.fn(imp(s, r'Type\s*\{', 'substitute1'), 'ensures r == sub1(*self, s.0@), sub_type(*self, s.0@).len() == 1,', rules=R + [(r'let \[(\w+)\] = v\.try_into\(\)\.unwrap\(\);', r'let \1 = Self::only(v);')], sig=AT + 'pub fn substitute1(&self, s: &Substitution) -> (r: Type)', obligation='Type::substitute1')
    u.text('}\nimpl RowVariable {')
    u.fn(rv.fn('substitute', rv.impl(r'MaybeRV for RowVariable\s*\{')), 'ensures r@ =~= row_args(s.0@[self.0 as int]),', rules=R, sig='pub fn substitute(&self, s: &Substitution) -> (r: Vec<Type>)', obligation='RowVariable::substitute')
    u.text('}\nimpl CustomType {')
    u.text('#[verifier::external_body] pub fn declared_bound(&self, args: &Vec<Term>) -> (r: TypeBound) ensures r == declared(*self, args@) { unimplemented!() }')
    u.trust("looking up an extension type's definition and its declared bound (T01 proves TypeDef::bound)")
    fc = copy.copy(cu.fn('substitute', cu.impl(r'CustomType\s*\{')))
    fc.body = maps(strip_attrs(fc.body), 'CustomType::substitute', lambda x, b: ('out@ =~= sub_terms(self.args, at as nat, tr.0@)', 'Term'))
    u.fn(fc, 'ensures r == sub_custom(*self, tr.0@),', sig=AT + 'pub fn substitute(&self, tr: &Substitution) -> (r: CustomType)', obligation='CustomType::substitute', loops=[''],
         rules=R + [(r'\}\s*\.collect::<Vec<_>>\(\);', '};'), (r'let ext = self\s*\.get_extension\(\)\s*\.unwrap_or_else\(\|e\| (?:panic!\("\{\}", e\)|diverge\(\))\);', ''), (r'self\s*\.get_type_def\(&ext\)\s*\.expect\("[^"]*"\)\s*\.bound\(&args\)', 'self.declared_bound(&args)')])
    u.text('}\nimpl TypeRow {')
    u.text(AT + '''pub fn each(v: &Vec<Type>, s: &Substitution) -> (r: Vec<Type>) ensures r@ =~= sub_types(*v, v@.len(), s.0@)
{ let mut out: Vec<Type> = Vec::new(); for at in 0..v.len() invariant out@ =~= sub_types(*v, at as nat, s.0@) { let mut w = v[at].substitute(s); out.append(&mut w); } out }''')
    u.fn(imp(tr, r'<RV: MaybeRV>\s*TypeRowBase<RV>\s*\{', 'substitute'), 'ensures r == sub_row(*self, s.0@),', sig=AT + 'pub fn substitute(&self, s: &Substitution) -> (r: TypeRow)', obligation='TypeRowBase::substitute',
         rules=R + [(r'(?s)self\.iter\(\)\s*\.flat_map\(\|(\w+)\| \1\.substitute\(s\)\)\s*\.collect::<Vec<_>>\(\)\s*\.into\(\)', 'TypeRow { types: Self::each(&self.types, s) }')])
    u.text('}\nimpl FuncValueType {')
    u.fn(imp(sg, r'<RV: MaybeRV>\s*FuncTypeBase<RV>\s*\{', 'substitute'), 'ensures r == (FuncValueType { input: sub_row(self.input, tr.0@), output: sub_row(self.output, tr.0@) }),', rules=R, sig=AT + 'pub fn substitute(&self, tr: &Substitution) -> (r: FuncValueType)', obligation='FuncTypeBase::substitute')
    u.text("}\nimpl<'a> Substitution<'a> {")
    sub = s.impl(r"<'a>\s*Substitution<'a>\s*\{")
    GET = [(r'self\s*\.0\s*\.get\(idx\)\s*\.expect\("[^"]*"\)', 'tget(self.0, idx)'), (r'v\s*\.bound_if_row_var\(\)\s*\.expect\("[^"]*"\)', '(match v.bound_if_row_var() { Some(b) => b, None => diverge() })')]
    u.fn(s.fn('apply_var', sub), 'ensures r == self.0@[idx as int], idx < self.0@.len(),', rules=R + GET, sig='pub fn apply_var(&self, idx: usize, decl: &Term) -> (r: Term)', obligation='Substitution::apply_var')
    u.fn(s.fn('apply_rowvar', sub), 'ensures r@ =~= row_args(self.0@[idx as int]),', rules=R + GET, sig='pub fn apply_rowvar(&self, idx: usize, bound: TypeBound) -> (r: Vec<Type>)', obligation='Substitution::apply_rowvar')
    fr = copy.copy(s.fn('row_of', sub)); body = vec1(strip_attrs(fr.body)); r = Rust(body)
    mm = next(r.finditer(r'\b(\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\| \{'), None)
    if not mm: raise AnchorLost('row_of: items of a list are not converted by a closure')
    o = mm.end() - 1; close = r.match[r.t.rindex('(', 0, o)]
    fi = copy.copy(fr); fi.name = 'row_of_item'; fi.body = body[o:r.match[o] + 1]; fi.sig = f'fn row_of_item({mm.group(2)}: &Term) -> Type'
    fr.body = body[:mm.start()] + f'Self::row_of_items({mm.group(1)})' + body[close + 1:]
    INTO = [(r'(\w+)\.clone\(\)\.into\(\)', r'\1.clone()'), (r'\.collect\(\)', '')]
    u.fn(fi, 'ensures r == row_item(*%s),' % mm.group(2), rules=R + INTO, sig=f'pub fn row_of_item({mm.group(2)}: &Term) -> (r: Type)', obligation='Substitution::row_of (item of a list)')
    u.text('pub fn row_of_items(v: &Vec<Term>) -> (r: Vec<Type>) ensures r@ =~= Seq::new(v@.len(), |i: int| row_item(v@[i])) { let mut out: Vec<Type> = Vec::new(); for at in 0..v.len() invariant out@ =~= Seq::new(at as nat, |i: int| row_item(v@[i])) { let e = Self::row_of_item(&v[at]); out.push(e); } out }\n'
           + AT + 'pub fn row_of_lists(v: &Vec<Term>) -> (r: Vec<Type>) ensures r@ =~= row_args_upto(*v, v@.len()) { let mut out: Vec<Type> = Vec::new(); for at in 0..v.len() invariant out@ =~= row_args_upto(*v, at as nat) { let mut w = Self::row_of(&v[at]); out.append(&mut w); } out }')
    u.fn(fr, 'ensures r@ =~= row_args(*arg),', rules=R + GET + INTO + [(r'(\w+)\s*\.iter\(\)\s*\.flat_map\(Self::row_of\)', r'Self::row_of_lists(\1)'), (r'matches!\(ty\.0, TypeEnum::RowVar\(_\)\)', '(match ty.0 { TypeEnum::RowVar(_) => true, _ => false })')], sig=AT + 'pub fn row_of(arg: &Term) -> (r: Vec<Type>)', obligation='Substitution::row_of')
    # terms
    u.text('}\nimpl Term {')
    u.fn(tp.fn('from', tp.impl(r'<RV: MaybeRV>\s*From<TypeBase<RV>> for Term\s*\{')), 'ensures r == of_type(value),', rules=R + [(r'new_list_type\(bound\)', 'new_list_type(Term::RuntimeType(bound))')], sig='pub fn from_type(value: Type) -> (r: Term)', obligation='Term::from<TypeBase>')
    tm = lambda n: imp(tp, r'Term\s*\{', n)
    u.fn(tm('new_var_use'), 'ensures !(decl is RuntimeType) ==> r == Term::Variable(TermVar { idx, cached_decl: Box::new(decl) }),', rules=R + [(r'decl\.into\(\)', 'decl'), (r'Type::new_var_use\(idx, (\w+)\)\.into\(\)', r'Term::Runtime(Type(TypeEnum::Variable(idx, \1), \1))')], sig='pub fn new_var_use(idx: usize, decl: Term) -> (r: Term)', obligation='Term::new_var_use')
    u.fn(tm('new_list_type'), 'ensures r == Term::ListType(Box::new(elem)),', rules=R + [(r'elem\.into\(\)', 'elem')], sig='pub fn new_list_type(elem: Term) -> (r: Term)', obligation='Term::new_list_type')
    u.fn(tm('new_tuple_type'), 'ensures r == Term::TupleType(Box::new(item_types)),', rules=R + [(r'item_types\.into\(\)', 'item_types')], sig='pub fn new_tuple_type(item_types: Term) -> (r: Term)', obligation='Term::new_tuple_type')
    u.fn(tm('new_const'), 'ensures r == Term::ConstType(Box::new(ty)),', rules=R + [(r'ty\.into\(\)', 'ty')], sig='pub fn new_const(ty: Type) -> (r: Term)', obligation='Term::new_const')
    u.text('pub fn vtake(v: &mut Vec<Term>) -> (r: Vec<Term>) ensures r@ == old(v)@, final(v)@.len() == 0 { let mut w: Vec<Term> = Vec::new(); w.append(v); w }')
    for k, x, low in (('List', 'l', 'list'), ('Tuple', 't', 'tuple')):
        u.fn(tm('new_seq_from_parts'), f'ensures r == mk_{low}(parts@),', obligation=f'Term::new_seq_from_parts ({low})', sig=f'pub fn new_seq_{k}_{k}Concat(parts: Vec<SeqPart>) -> (r: Term)',
             rules=R + [(r'\bmake_items\(', f'Term::{k}('), (r'\bmake_concat\(', f'Term::{k}Concat('), (r'std::mem::take\(&mut items\)', 'Self::vtake(&mut items)'), (r'for part in parts \{', 'for at in 0..parts.len() { let part = parts[at].clone();'), (r'let mut (items|seqs) = Vec::new\(\)', r'let mut \1: Vec<Term> = Vec::new()')],
             loops=[(f'invariant items@ =~= {x}group(parts@.take(at as int)).0, seqs@ =~= {x}group(parts@.take(at as int)).1', 'proof { let s = parts@.take(at as int + 1); assert(s.drop_last() =~= parts@.take(at as int)); assert(s.last() == parts@[at as int]); }')],
             post_rules=[(r'if seqs\.is_empty\(\) \{', 'proof { assert(parts@.take(parts@.len() as int) =~= parts@); } if seqs.is_empty() {')])
        u.fn(tm(f'new_{low}_from_parts'), f'ensures r == mk_{low}({x}flat(parts@)),', obligation=f'Term::new_{low}_from_parts', sig=f'pub fn new_{low}_from_parts(parts: Vec<SeqPart>) -> (r: Term)',
             rules=R + [(r'(?s)Self::new_seq_from_parts\(\s*parts\.into_iter\(\)\.flat_map\((\w+)::new\),\s*(?:TypeArg|Term)::(\w+),\s*(?:TypeArg|Term)::(\w+),?\s*\)', r'Self::new_seq_\2_\3(flat_\1(&parts))')])
    g = copy.copy(tm('substitute')); body = strip_attrs(g.body); r = Rust(body)
    mm = next(r.finditer(r'\bfn is_type\b[^{]*\{'), None)
    if not mm: raise AnchorLost('Term::substitute: is_type')
    o = mm.end() - 1; h = copy.copy(g); h.name = 'is_type'; h.body = body[o:r.match[o] + 1]; h.sig = body[mm.start():o]; prm = re.search(r'\((\w+):', h.sig).group(1)
    body = body[:mm.start()] + body[r.match[o] + 1:]
    u.fn(h, f'ensures r == is_row_like(*{prm}),', rules=R + [(r'\.bound_if_row_var\(\)\.is_some\(\)', '.bound_if_row_var().is_some()')], sig=f'pub fn is_type({prm}: &Term) -> (r: bool)', obligation='Term::substitute (is_type)')
    u.text('pub fn first_is_type(v: &Vec<Term>) -> (r: bool) ensures r == of_types(v@) { if v.len() > 0 { Self::is_type(&v[0]) } else { false } }')
    def site(x, b):
        q = f'sub_terms(*{x}, at as nat, t.0@)'
        e = f'elem_parts(of_types({x}@), {q})' if 'are_types' in b else f'splices({q})' if 'Splice' in b else q
        return ('*self == *old_self, ' + (f'are_types == of_types({x}@), ' if 'are_types' in b else '') + 'out@ =~= ' + e, 'SeqPart' if 'SeqPart' in b else 'Term')
    g.body = maps(body, 'Term::substitute', site)
    u.fn(g, 'ensures r == sub_term(*self, t.0@),', rules=R + [(r'(ty\.substitute1\(t\))\.into\(\)', r'Term::from_type(\1)'), (r'elems\.first\(\)\.map\(is_type\)\.unwrap_or\(false\)', 'Self::first_is_type(elems)'), (r'\}\s*\.collect\(\)', '}')],
         sig=AT + 'pub fn substitute(&self, t: &Substitution) -> (r: Term)', pre='let ghost old_self = self;', obligation='Term::substitute', loops=['', '', '', ''])
    u.text('}')
    u.text(IDS); u.lemma('substituting_each_variable_for_itself_is_the_identity', IDLEMMA)
    return [u]
ASSUMPTIONS = ['partial correctness: where the code panics on arguments that do not fit (validation rules them out), nothing is claimed']
