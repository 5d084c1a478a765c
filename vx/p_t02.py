from partsx import *
import partsx
EXEC = 't02'
SPEC = '''
pub struct TermTypeError(pub u8);
/// equality of types and of variables is an equivalence (T04): named by what it distinguishes
pub uninterp spec fn type_id(t: Type) -> int;
pub uninterp spec fn var_id(v: TermVar) -> int;
#[verifier::external_body] pub fn eq_type(a: &Type, b: &Type) -> (r: bool) ensures r == (type_id(*a) == type_id(*b)) { unimplemented!() }
#[verifier::external_body] pub fn eq_var(a: &TermVar, b: &TermVar) -> (r: bool) ensures r == (var_id(*a) == var_id(*b)) { unimplemented!() }
pub open spec fn holds(big: TypeBound, small: TypeBound) -> bool { big == TypeBound::Linear || small == TypeBound::Copyable }
/// (a limit is positive, so that zero is below every one)
/// a limit is above another one when every natural below the second is below the first
pub open spec fn below(n: int, u: UpperBound) -> bool { match u.0 { None => true, Some(m) => n == 0 || n < m.v } }
pub open spec fn above(a: UpperBound, b: UpperBound) -> bool { match (a.0, b.0) { (None, _) => true, (Some(x), Some(y)) => x.v >= y.v, _ => false } }
pub open spec fn sup(a: Term, b: Term) -> bool decreases a
{ match (a, b) {
  (Term::RuntimeType(x), Term::RuntimeType(y)) => holds(x, y), (Term::BoundedNatType(x), Term::BoundedNatType(y)) => above(x, y),
  (Term::StringType, Term::StringType) => true, (Term::StaticType, Term::StaticType) => true, (Term::BytesType, Term::BytesType) => true, (Term::FloatType, Term::FloatType) => true,
  (Term::ListType(x), Term::ListType(y)) => sup(*x, *y), (Term::TupleType(x), Term::TupleType(y)) => sup(*x, *y),
  (Term::Runtime(x), Term::Runtime(y)) => type_id(x) == type_id(y), (Term::BoundedNat(x), Term::BoundedNat(y)) => x == y, (Term::String(x), Term::String(y)) => x == y,
  (Term::Bytes(x), Term::Bytes(y)) => x == y, (Term::Float(x), Term::Float(y)) => x == y, (Term::Variable(x), Term::Variable(y)) => var_id(x) == var_id(y),
  (Term::List(x), Term::List(y)) => (x@.len() == y@.len() && forall|i: int| #![trigger x@[i]] #![trigger y@[i]] 0 <= i < x@.len() ==> sup(x@[i], y@[i])), (Term::Tuple(x), Term::Tuple(y)) => (x@.len() == y@.len() && forall|i: int| #![trigger x@[i]] #![trigger y@[i]] 0 <= i < x@.len() ==> sup(x@[i], y@[i])), (Term::ListConcat(x), Term::ListConcat(y)) => (x@.len() == y@.len() && forall|i: int| #![trigger x@[i]] #![trigger y@[i]] 0 <= i < x@.len() ==> sup(x@[i], y@[i])), (Term::TupleConcat(x), Term::TupleConcat(y)) => (x@.len() == y@.len() && forall|i: int| #![trigger x@[i]] #![trigger y@[i]] 0 <= i < x@.len() ==> sup(x@[i], y@[i])),
  (Term::ConstType(x), Term::ConstType(y)) => type_id(*x) == type_id(*y), _ => false } }
pub open spec fn sups(x: Vec<Term>, y: Vec<Term>) -> bool { x@.len() == y@.len() && forall|i: int| #![trigger x@[i]] #![trigger y@[i]] 0 <= i < x@.len() ==> sup(x@[i], y@[i]) }
pub open spec fn row_bound(v: TermVar) -> Option<TypeBound> { match *v.cached_decl { Term::ListType(it) => match *it { Term::RuntimeType(b) => Some(b), _ => None }, _ => None } }
pub open spec fn closed(p: Seq<SeqPart>) -> bool { forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i] is Item }
pub open spec fn item(p: SeqPart) -> Term { match p { SeqPart::Item(t) => t, SeqPart::Splice(t) => t } }
/// a row variable inside a list of types stands for types of its bound
pub open spec fn elem_row(t: Term, it: Term) -> bool { match (t, it) { (Term::Variable(v), Term::RuntimeType(pb)) => match row_bound(v) { Some(ab) => holds(pb, ab), None => false }, _ => false } }
/// the documented meaning: the term inhabits the kind
pub open spec fn accept(t: Term, k: Term) -> bool decreases t
{ match (t, k) {
  (Term::Variable(v), _) => sup(k, *v.cached_decl),
  (Term::Runtime(ty), Term::RuntimeType(b)) => holds(b, ty.1),
  (Term::List(es), Term::ListType(it)) => forall|i: int| #![trigger es@[i]] 0 <= i < es@.len() ==> elem_row(es@[i], *it) || accept(es@[i], *it),
  (Term::ListConcat(ls), Term::ListType(_)) => forall|i: int| #![trigger ls@[i]] 0 <= i < ls@.len() ==> accept(ls@[i], k),
  (Term::Tuple(_), Term::TupleType(its)) => (tparts(t).len() == lparts(*its).len() && forall|i: int| #![trigger tparts(t)[i]] 0 <= i < tparts(t).len() ==> if decreases_to!(t => item(tparts(t)[i])) { accept(item(tparts(t)[i]), item(lparts(*its)[i])) } else { false }),
  (Term::TupleConcat(_), Term::TupleType(its)) => (tparts(t).len() == lparts(*its).len() && forall|i: int| #![trigger tparts(t)[i]] 0 <= i < tparts(t).len() ==> if decreases_to!(t => item(tparts(t)[i])) { accept(item(tparts(t)[i]), item(lparts(*its)[i])) } else { false }),
  (Term::BoundedNat(n), Term::BoundedNatType(u)) => below(n as int, u),
  (Term::String(_), Term::StringType) => true, (Term::Bytes(_), Term::BytesType) => true, (Term::Float(_), Term::FloatType) => true,
  (Term::StaticType, Term::StaticType) => true, (Term::StringType, Term::StaticType) => true, (Term::BytesType, Term::StaticType) => true, (Term::BoundedNatType(_), Term::StaticType) => true,
  (Term::FloatType, Term::StaticType) => true, (Term::ListType(_), Term::StaticType) => true, (Term::TupleType(_), Term::StaticType) => true, (Term::RuntimeType(_), Term::StaticType) => true, (Term::ConstType(_), Term::StaticType) => true,
  _ => false } }
/// the items of a closed tuple, one by one against as many kinds
pub open spec fn accept_items(t: Term, ts: Seq<SeqPart>, ks: Seq<SeqPart>) -> bool
{ ts.len() == ks.len() && forall|i: int| #![trigger ts[i]] 0 <= i < ts.len() ==> if decreases_to!(t => item(ts[i])) { accept(item(ts[i]), item(ks[i])) } else { false } }
/// an item among the parts of a tuple is inside the tuple, so the guard above is no restriction
proof fn lemma_small(t: Term) ensures forall|i: int| #![trigger tparts(t)[i]] 0 <= i < tparts(t).len() && tparts(t)[i] is Item ==> decreases_to!(t => item(tparts(t)[i])) decreases t, 0nat
{ match t { Term::Tuple(v) => { assert forall|i: int| #![trigger tparts(t)[i]] 0 <= i < tparts(t).len() implies decreases_to!(t => item(tparts(t)[i])) by { assert(item(tparts(t)[i]) == v@[i]); } },
   Term::TupleConcat(v) => { lemma_small_upto(v, v@.len()); assert(decreases_to!(t => v)); assert forall|i: int| #![trigger tparts(t)[i]] 0 <= i < tparts(t).len() && tparts(t)[i] is Item implies decreases_to!(t => item(tparts(t)[i])) by { assert(decreases_to!(v => item(tparts(t)[i]))); } }, _ => {} } }
proof fn lemma_small_upto(v: Vec<Term>, n: nat) requires n <= v@.len() ensures forall|i: int| #![trigger tparts_upto(v, n)[i]] 0 <= i < tparts_upto(v, n).len() && tparts_upto(v, n)[i] is Item ==> decreases_to!(v => item(tparts_upto(v, n)[i])) decreases v, n
{ if n > 0 { let a = tparts_upto(v, (n - 1) as nat); let b = tparts(v@[n - 1]); lemma_small_upto(v, (n - 1) as nat); lemma_small(v@[n - 1]); let c = tparts_upto(v, n); assert(c == a + b);
   assert forall|i: int| #![trigger c[i]] 0 <= i < c.len() && c[i] is Item implies decreases_to!(v => item(c[i])) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); assert(decreases_to!(v => v@[n - 1])); assert(decreases_to!(v@[n - 1] => item(c[i]))); } } } }
'''

SPEC += '''
/// no open tuple (with a spliced part on either side) is compared: the property speaks of closed ones
pub open spec fn determined(t: Term, k: Term) -> bool decreases t
{ match (t, k) {
  (Term::List(es), Term::ListType(it)) => forall|i: int| #![trigger es@[i]] 0 <= i < es@.len() ==> determined(es@[i], *it),
  (Term::ListConcat(ls), Term::ListType(_)) => forall|i: int| #![trigger ls@[i]] 0 <= i < ls@.len() ==> determined(ls@[i], k),
  (Term::Tuple(_), Term::TupleType(its)) => (closed(tparts(t)) && closed(lparts(*its)) && forall|i: int| #![trigger tparts(t)[i]] 0 <= i < tparts(t).len() && i < lparts(*its).len() ==> if decreases_to!(t => item(tparts(t)[i])) { determined(item(tparts(t)[i]), item(lparts(*its)[i])) } else { false }), (Term::TupleConcat(_), Term::TupleType(its)) => (closed(tparts(t)) && closed(lparts(*its)) && forall|i: int| #![trigger tparts(t)[i]] 0 <= i < tparts(t).len() && i < lparts(*its).len() ==> if decreases_to!(t => item(tparts(t)[i])) { determined(item(tparts(t)[i]), item(lparts(*its)[i])) } else { false }), _ => true } }
pub open spec fn determined_items(t: Term, ts: Seq<SeqPart>, ks: Seq<SeqPart>) -> bool
{ closed(ts) && closed(ks) && forall|i: int| #![trigger ts[i]] 0 <= i < ts.len() && i < ks.len() ==> if decreases_to!(t => item(ts[i])) { determined(item(ts[i]), item(ks[i])) } else { false } }
pub open spec fn inner_kind(k: Term) -> Term { match k { Term::TupleType(its) => *its, _ => Term::StaticType } }
pub fn nget(v: NonZeroU64) -> (r: u64) ensures r == v.v { v.v }
impl NonZeroU64 { pub fn new(n: u64) -> (r: Option<NonZeroU64>) ensures r == (if n == 0 { None::<NonZeroU64> } else { Some(NonZeroU64 { v: n }) }) { if n == 0 { None } else { Some(NonZeroU64 { v: n }) } } }
pub fn min_len(a: &Vec<SeqPart>, b: &Vec<SeqPart>) -> (r: usize) ensures r == (if a@.len() <= b@.len() { a@.len() } else { b@.len() }) { if a.len() <= b.len() { a.len() } else { b.len() } }
'''
LEMMAS = {
'subkind_reflexive': '''pub proof fn subkind_reflexive(a: Term) ensures sup(a, a) decreases a
{ match a { Term::ListType(x) => subkind_reflexive(*x), Term::TupleType(x) => subkind_reflexive(*x),
   Term::List(v) => { assert forall|i: int| 0 <= i < v@.len() implies sup(#[trigger] v@[i], v@[i]) by { subkind_reflexive(v@[i]); } }, Term::Tuple(v) => { assert forall|i: int| 0 <= i < v@.len() implies sup(#[trigger] v@[i], v@[i]) by { subkind_reflexive(v@[i]); } },
   Term::ListConcat(v) => { assert forall|i: int| 0 <= i < v@.len() implies sup(#[trigger] v@[i], v@[i]) by { subkind_reflexive(v@[i]); } }, Term::TupleConcat(v) => { assert forall|i: int| 0 <= i < v@.len() implies sup(#[trigger] v@[i], v@[i]) by { subkind_reflexive(v@[i]); } }, _ => {} } }''',
'subkind_transitive': '''pub proof fn subkind_transitive(a: Term, b: Term, c: Term) requires sup(a, b), sup(b, c) ensures sup(a, c) decreases a
{ match (a, b, c) { (Term::ListType(x), Term::ListType(y), Term::ListType(z)) => subkind_transitive(*x, *y, *z), (Term::TupleType(x), Term::TupleType(y), Term::TupleType(z)) => subkind_transitive(*x, *y, *z),
   (Term::List(x), Term::List(y), Term::List(z)) => subkinds_transitive(x, y, z), (Term::Tuple(x), Term::Tuple(y), Term::Tuple(z)) => subkinds_transitive(x, y, z),
   (Term::ListConcat(x), Term::ListConcat(y), Term::ListConcat(z)) => subkinds_transitive(x, y, z), (Term::TupleConcat(x), Term::TupleConcat(y), Term::TupleConcat(z)) => subkinds_transitive(x, y, z), _ => {} } }
pub proof fn subkinds_transitive(x: Vec<Term>, y: Vec<Term>, z: Vec<Term>) requires sups(x, y), sups(y, z) ensures sups(x, z) decreases x
{ assert forall|i: int| #![trigger x@[i]] #![trigger z@[i]] 0 <= i < x@.len() implies sup(x@[i], z@[i]) by { assert(sup(x@[i], y@[i]) && sup(y@[i], z@[i])); subkind_transitive(x@[i], y@[i], z@[i]); } }
/// parts of a list kind correspond part by part to those of a sub-kind
pub proof fn parts_subkinds(a: Term, b: Term) requires sup(a, b) ensures lparts(a).len() == lparts(b).len(), forall|i: int| #![trigger lparts(a)[i]] #![trigger lparts(b)[i]] 0 <= i < lparts(a).len() ==> (lparts(a)[i] is Item <==> lparts(b)[i] is Item) && sup(item(lparts(a)[i]), item(lparts(b)[i])) decreases a, 0nat
{ match (a, b) { (Term::List(x), Term::List(y)) => { assert forall|i: int| #![trigger lparts(a)[i]] #![trigger lparts(b)[i]] 0 <= i < lparts(a).len() implies (lparts(a)[i] is Item <==> lparts(b)[i] is Item) && sup(item(lparts(a)[i]), item(lparts(b)[i])) by { assert(sup(x@[i], y@[i])); } },
   (Term::ListConcat(x), Term::ListConcat(y)) => { parts_subkinds_upto(x, y, x@.len()); }, _ => {} } }
pub proof fn parts_subkinds_upto(x: Vec<Term>, y: Vec<Term>, n: nat) requires sups(x, y), n <= x@.len() ensures lparts_upto(x, n).len() == lparts_upto(y, n).len(), forall|i: int| #![trigger lparts_upto(x, n)[i]] #![trigger lparts_upto(y, n)[i]] 0 <= i < lparts_upto(x, n).len() ==> (lparts_upto(x, n)[i] is Item <==> lparts_upto(y, n)[i] is Item) && sup(item(lparts_upto(x, n)[i]), item(lparts_upto(y, n)[i])) decreases x, n
{ if n > 0 { parts_subkinds_upto(x, y, (n - 1) as nat); assert(sup(x@[n - 1], y@[n - 1])); parts_subkinds(x@[n - 1], y@[n - 1]);
   let (p, q) = (lparts_upto(x, (n - 1) as nat), lparts_upto(y, (n - 1) as nat)); let (s, t) = (lparts(x@[n - 1]), lparts(y@[n - 1])); let (c, d) = (lparts_upto(x, n), lparts_upto(y, n));
   assert(c == p + s && d == q + t); assert forall|i: int| #![trigger c[i]] #![trigger d[i]] 0 <= i < c.len() implies (c[i] is Item <==> d[i] is Item) && sup(item(c[i]), item(d[i])) by { if i < p.len() { assert(c[i] == p[i] && d[i] == q[i]); } else { assert(c[i] == s[i - p.len()] && d[i] == t[i - p.len()]); } } } }''',
'accepted_at_superkinds': '''pub proof fn accepted_at_superkinds(t: Term, k: Term, big: Term) requires accept(t, k), sup(big, k), determined(t, k) ensures accept(t, big) decreases t
{ match (t, k, big) { (Term::Variable(v), _, _) => subkind_transitive(big, k, *v.cached_decl),
   (Term::List(es), Term::ListType(it), Term::ListType(bit)) => { assert forall|i: int| #![trigger es@[i]] 0 <= i < es@.len() implies elem_row(es@[i], *bit) || accept(es@[i], *bit) by { assert(determined(es@[i], *it)); assert(sup(*bit, *it)); if elem_row(es@[i], *it) { assert(elem_row(es@[i], *bit)); } else { assert(accept(es@[i], *it)); accepted_at_superkinds(es@[i], *it, *bit); } } },
   (Term::ListConcat(ls), Term::ListType(it), Term::ListType(bit)) => { assert forall|i: int| #![trigger ls@[i]] 0 <= i < ls@.len() implies accept(ls@[i], big) by { assert(determined(ls@[i], k)); accepted_at_superkinds(ls@[i], k, big); } },
   (Term::Tuple(_), Term::TupleType(its), Term::TupleType(bits)) => accepted_items(t, *its, *bits), (Term::TupleConcat(_), Term::TupleType(its), Term::TupleType(bits)) => accepted_items(t, *its, *bits), _ => {} } }
pub proof fn accepted_items(t: Term, its: Term, bits: Term) requires accept_items(t, tparts(t), lparts(its)), determined_items(t, tparts(t), lparts(its)), sup(bits, its) ensures accept_items(t, tparts(t), lparts(bits)) decreases t, 0nat
{ parts_subkinds(bits, its); let (ts, ks, bs) = (tparts(t), lparts(its), lparts(bits));
  assert forall|i: int| #![trigger ts[i]] 0 <= i < ts.len() implies if decreases_to!(t => item(ts[i])) { accept(item(ts[i]), item(bs[i])) } else { false } by { assert(ks[i] is Item && bs[i] is Item); accepted_at_superkinds(item(ts[i]), item(ks[i]), item(bs[i])); } }''',
}
def units():
    u = Unit('t02'); data(u); partsx.emit(u); u.text(SPEC)
    s = src('hugr-core/src/types.rs'); tp = src(T + '/type_param.rs')
    R = FN + [(r'\bTermTypeError::\w+\s*\{(?:[^{}]|\{[^{}]*\})*\}', 'TermTypeError(0)'), (r'TermTypeError::\w+\((?:[^()]|\([^()]*\))*\)', 'TermTypeError(0)')]
    u.text('impl TypeBound {')
    u.fn(s.fn('contains', s.impl(r'TypeBound\s*\{')), 'ensures r == holds(*self, other),', rules=R + [(r'\buse TypeBound::\{[^}]*\};', ''), (r'(?<![:\w])(Linear|Copyable)\b', r'TypeBound::\1'), (r'matches!\((\(self, other\)), (.*?)\)\s*\}', r'(match \1 { \2 => true, _ => false }) }')], obligation='TypeBound::contains')
    u.text('}\nimpl Type {')
    u.fn(imp(s, TB, 'least_upper_bound'), 'ensures r == self.1,', rules=R, obligation='Type::least_upper_bound')
    u.text('}\nimpl UpperBound {')
    ub = tp.impl(r'UpperBound\s*\{')
    u.fn(tp.fn('valid_value', ub), 'ensures r == below(val as int, *self),', rules=R + [(r'NonZeroU64::new\(val\)\.unwrap\(\) < inner', 'nget(NonZeroU64::new(val).unwrap()) < nget(inner)')], obligation='UpperBound::valid_value')
    u.fn(tp.fn('contains', ub), 'ensures r == above(*self, *other),', rules=R + [(r'\bb1 (>=|>|<=|<) b2\b', r'nget(b1) \1 nget(b2)')], obligation='UpperBound::contains')
    u.text('}\nimpl TermVar {')
    u.fn(tp.fn('bound_if_row_var', tp.impl(r'TermVar\s*\{')), 'ensures r == row_bound(*self),', rules=R, obligation='TermVar::bound_if_row_var')
    u.text('}\nimpl Term {')
    u.text('''/// `a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.is_supertype(y))`, the zip and the quantifier as a loop
#[verifier::exec_allows_no_decreases_clause] fn all_supertypes(x: &Vec<Term>, y: &Vec<Term>) -> (r: bool) requires x@.len() == y@.len() ensures r == sups(*x, *y)
{ for i in 0..x.len() invariant x@.len() == y@.len(), forall|k: int| #![trigger x@[k]] #![trigger y@[k]] 0 <= k < i ==> sup(x@[k], y@[k]) { if !x[i].is_supertype(&y[i]) { assert(!sup(x@[i as int], y@[i as int])); return false; } } true }''')
    u.fn(imp(tp, r'Term\s*\{', 'is_supertype'), 'ensures r == sup(*self, *other),', sig='#[verifier::exec_allows_no_decreases_clause] pub fn is_supertype(&self, other: &Term) -> (r: bool)', obligation='Term::is_supertype',
         rules=R + [(r'(\w+)\.iter\(\)\.zip\((\w+)\)\.all\(\|\((\w+), (\w+)\)\| \3\.is_supertype\(\4\)\)', r'Self::all_supertypes(\1, \2)'), (r'(\(Term::(?:Runtime|ConstType)\(t1\), Term::(?:Runtime|ConstType)\(t2\)\) =>) t1 == t2', r'\1 eq_type(t1, t2)'), (r'\bv1 == v2(?=,\s*\(Term::List)', 'eq_var(v1, v2)')])
    u.text('}')
    f = tp.fn('check_term_type')
    # the closure of the list case, lifted to a function over the variables it captures
    body = strip_attrs(f.body); r = Rust(body)
    m = next(r.finditer(r'elems\.iter\(\)\.try_for_each\(\|(\w+)\| \{'), None)
    if not m: raise AnchorLost('check_term_type: elements of a list are not checked by a closure')
    o = m.end() - 1; cl = body[o:r.match[o] + 1]; call = r.t.index('(', m.start() + len('elems.iter().try_for_each')); 
    lifted = body[:m.start()] + 'check_elems(elems, item_type)' + body[r.match[call] + 1:]
    import copy
    g = copy.copy(f); g.name = 'check_elem'; g.body = cl; g.sig = f'fn check_elem({m.group(1)}: &Term, item_type: &Box<Term>) -> Result<(), TermTypeError>'
    h = copy.copy(f); h.body = lifted
    SA = [(r'(?s)v\.bound_if_row_var\(\)\s*\.is_some_and\(\|(\w+)\| ([^{}]*?)\)\s*\{', r'(match v.bound_if_row_var() { Some(\1) => \2, None => false }) {')]
    AT = '#[verifier::exec_allows_no_decreases_clause] '
    u.fn(g, 'requires determined(*%s, **item_type), ensures r is Ok <==> elem_row(*%s, **item_type) || accept(*%s, **item_type),' % ((m.group(1),) * 3), rules=R + SA, sig=AT + f'pub fn check_elem({m.group(1)}: &Term, item_type: &Box<Term>) -> (r: Result<(), TermTypeError>)', obligation='check_term_type (element of a list)')
    u.text(AT + '''pub fn check_elems(elems: &Vec<Term>, item_type: &Box<Term>) -> (r: Result<(), TermTypeError>) requires forall|i: int| #![trigger elems@[i]] 0 <= i < elems@.len() ==> determined(elems@[i], **item_type)
 ensures r is Ok <==> forall|i: int| #![trigger elems@[i]] 0 <= i < elems@.len() ==> elem_row(elems@[i], **item_type) || accept(elems@[i], **item_type)
{ for i in 0..elems.len() invariant forall|i: int| #![trigger elems@[i]] 0 <= i < elems@.len() ==> determined(elems@[i], **item_type), forall|k: int| #![trigger elems@[k]] 0 <= k < i ==> elem_row(elems@[k], **item_type) || accept(elems@[k], **item_type)
  { assert(determined(elems@[i as int], **item_type)); match check_elem(&elems[i], item_type) { Ok(_) => {}, Err(e) => { assert(!(elem_row(elems@[i as int], **item_type) || accept(elems@[i as int], **item_type))); return Err(e); } } } Ok(()) }
''' + AT + '''pub fn check_lists(lists: &Vec<Term>, type_: &Term) -> (r: Result<(), TermTypeError>) requires forall|i: int| #![trigger lists@[i]] 0 <= i < lists@.len() ==> determined(lists@[i], *type_)
 ensures r is Ok <==> forall|i: int| #![trigger lists@[i]] 0 <= i < lists@.len() ==> accept(lists@[i], *type_)
{ for i in 0..lists.len() invariant forall|i: int| #![trigger lists@[i]] 0 <= i < lists@.len() ==> determined(lists@[i], *type_), forall|k: int| #![trigger lists@[k]] 0 <= k < i ==> accept(lists@[k], *type_)
  { assert(determined(lists@[i as int], *type_)); match check_term_type(&lists[i], type_) { Ok(_) => {}, Err(e) => { assert(!accept(lists@[i as int], *type_)); return Err(e); } } } Ok(()) }''')
    u.fn(h, 'requires determined(*term, *type_), ensures r is Ok <==> accept(*term, *type_),', sig=AT + 'pub fn check_term_type(term: &Term, type_: &Term) -> (r: Result<(), TermTypeError>)', obligation='check_term_type',
         rules=R + [(r'lists\s*\.iter\(\)\s*\.try_for_each\(\|(\w+)\| check_term_type\(\1, type_\)\)', 'check_lists(lists, type_)'), (r'(?s)warn!\(.*?\);', ''),
                    (r'let (\w+): Vec<_> = term\.clone\(\)\.into_tuple_parts\(\)\.collect\(\);', r'let \1: Vec<SeqPart> = tcollect(term.clone().into_tuple_parts()); proof { assert(\1@ =~= tparts(*term)); lemma_small(*term); }'),
                    (r'let (\w+): Vec<_> = item_types\.clone\(\)\.into_list_parts\(\)\.collect\(\);', r'let \1: Vec<SeqPart> = lcollect((**item_types).clone().into_list_parts()); proof { assert(\1@ =~= lparts(**item_types)); }'),
                    (r'for \(term, type_\) in (\w+)\.iter\(\)\.zip\(&(\w+)\) \{\s*match \(term, type_\) \{', r'for at in 0..min_len(&\1, &\2) { let ghost whole = *old_term; let item_term = &\1[at]; let item_kind = &\2[at]; match (item_term, item_kind) {'), (r'check_term_type\(term, type_\)\?;(?=\s*\})', '{ assert(*term == item(term_parts@[at as int])); match check_term_type(term, type_) { Ok(_) => {}, Err(e) => { assert(!accept(item(tparts(*old_term)[at as int]), item(lparts(old_kind)[at as int]))); assert(!accept_items(*old_term, tparts(*old_term), lparts(old_kind))); assert(!accept(*old_term, *old_type)); return Err(e); } } }')],
         loops=['''invariant old_type == type_, old_term == term, *old_type is TupleType, inner_kind(*old_type) == old_kind, *old_term is Tuple || *old_term is TupleConcat, term_parts@ == tparts(*old_term), type_parts@ == lparts(old_kind), determined_items(*old_term, tparts(*old_term), lparts(old_kind)), forall|k: int| #![trigger term_parts@[k]] 0 <= k < at ==> decreases_to!(*old_term => item(term_parts@[k])) && accept(item(term_parts@[k]), item(type_parts@[k]))'''],
         pre='let ghost old_term = term; let ghost old_type = type_; let ghost old_kind = inner_kind(*type_);')
    u.fn(tp.fn('check_term_types'), 'requires forall|i: int| #![trigger terms@[i]] 0 <= i < terms@.len() && i < types@.len() ==> determined(terms@[i], types@[i]), ensures r is Ok <==> terms@.len() == types@.len() && forall|i: int| #![trigger terms@[i]] 0 <= i < terms@.len() ==> accept(terms@[i], types@[i]),',
         rules=R + [(r'for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.zip\((\w+)\.iter\(\)\) \{', r'for at in 0..\3.len() { let \1 = &\3[at]; let \2 = &\4[at];')], sig=AT + 'pub fn check_term_types(terms: &[Term], types: &[Term]) -> (r: Result<(), TermTypeError>)', obligation='check_term_types',
         loops=['invariant terms@.len() == types@.len(), forall|i: int| #![trigger terms@[i]] 0 <= i < terms@.len() && i < types@.len() ==> determined(terms@[i], types@[i]), forall|k: int| #![trigger terms@[k]] 0 <= k < at ==> accept(terms@[k], types@[k])'])
    for n, t in LEMMAS.items(): u.lemma(n, t)
    return [u]
ASSUMPTIONS = ['tuples with spliced parts are outside the property (the code accepts them without looking)', 'equality of types and of variables is an equivalence (T04)']
