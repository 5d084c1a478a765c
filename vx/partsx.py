"""the part iterators of lists and tuples: `ListPartIter`/`TuplePartIter::next`, put under contract"""
from typesx import *
PARTS = '''
/// the parts of a list (KIND): items of a closed one, the parts of each member of a concatenation in order, anything else spliced
pub open spec fn Xparts(t: Term) -> Seq<SeqPart> decreases t
{ match t { Term::KIND(v) => Seq::new(v@.len(), |i: int| SeqPart::Item(v@[i])), Term::KINDConcat(v) => Xparts_upto(v, v@.len()), _ => seq![SeqPart::Splice(t)] } }
pub open spec fn Xparts_upto(v: Vec<Term>, n: nat) -> Seq<SeqPart> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { Xparts_upto(v, (n - 1) as nat) + Xparts(v@[n - 1]) } }
pub open spec fn Xpart(p: SeqPart) -> Seq<SeqPart> { match p { SeqPart::Item(_) => seq![p], SeqPart::Splice(t) => Xparts(t) } }
/// what a stack of pending parts stands for: top first
pub open spec fn Xstack(s: Seq<SeqPart>) -> Seq<SeqPart> decreases s.len() { if s.len() == 0 { Seq::empty() } else { Xpart(s.last()) + Xstack(s.drop_last()) } }
/// the parts of the given parts, in order
pub open spec fn Xflat(s: Seq<SeqPart>) -> Seq<SeqPart> decreases s.len() { if s.len() == 0 { Seq::empty() } else { Xflat(s.drop_last()) + Xpart(s.last()) } }
/// the items of v from position k on, pushed in reverse, stand before what was pending
proof fn Xlemma_push_items(s: Seq<SeqPart>, v: Vec<Term>, k: int, o: Seq<SeqPart>)
 requires 0 <= k <= v@.len(), s.len() == o.len() + (v@.len() - k), forall|i: int| 0 <= i < o.len() ==> s[i] == o[i], forall|i: int| #![trigger s[o.len() + i]] 0 <= i < v@.len() - k ==> s[o.len() + i] == SeqPart::Item(v@[v@.len() - 1 - i])
 ensures Xstack(s) =~= Seq::new((v@.len() - k) as nat, |i: int| SeqPart::Item(v@[k + i])) + Xstack(o)
 decreases v@.len() - k
{ if k == v@.len() { assert(s =~= o); } else { let n = (v@.len() - k - 1) as int; assert(s.last() == s[o.len() + n]); assert(s.last() == SeqPart::Item(v@[k]));
   let d = s.drop_last(); assert forall|i: int| #![trigger d[o.len() + i]] 0 <= i < v@.len() - (k + 1) implies d[o.len() + i] == SeqPart::Item(v@[v@.len() - 1 - i]) by { assert(d[o.len() + i] == s[o.len() + i]); }
   Xlemma_push_items(d, v, k + 1, o); } }
pub open spec fn Xparts_from(v: Vec<Term>, k: int) -> Seq<SeqPart> decreases v@.len() - k { if k >= v@.len() || k < 0 { Seq::empty() } else { Xparts(v@[k]) + Xparts_from(v, k + 1) } }
proof fn Xlemma_from_upto(v: Vec<Term>, k: int) requires 0 <= k <= v@.len() ensures Xparts_upto(v, k as nat) + Xparts_from(v, k) =~= Xparts_upto(v, v@.len()) decreases v@.len() - k
{ if k < v@.len() { Xlemma_from_upto(v, k + 1); assert(Xparts_upto(v, (k + 1) as nat) == Xparts_upto(v, k as nat) + Xparts(v@[k])); assert((Xparts_upto(v, k as nat) + Xparts(v@[k])) + Xparts_from(v, k + 1) =~= Xparts_upto(v, k as nat) + (Xparts(v@[k]) + Xparts_from(v, k + 1))); } }
proof fn Xlemma_push_splices(s: Seq<SeqPart>, v: Vec<Term>, k: int, o: Seq<SeqPart>)
 requires 0 <= k <= v@.len(), s.len() == o.len() + (v@.len() - k), forall|i: int| 0 <= i < o.len() ==> s[i] == o[i], forall|i: int| #![trigger s[o.len() + i]] 0 <= i < v@.len() - k ==> s[o.len() + i] == SeqPart::Splice(v@[v@.len() - 1 - i])
 ensures Xstack(s) =~= Xparts_from(v, k) + Xstack(o)
 decreases v@.len() - k
{ if k == v@.len() { assert(s =~= o); } else { let n = (v@.len() - k - 1) as int; assert(s.last() == s[o.len() + n]); assert(s.last() == SeqPart::Splice(v@[k]));
   let d = s.drop_last(); assert forall|i: int| #![trigger d[o.len() + i]] 0 <= i < v@.len() - (k + 1) implies d[o.len() + i] == SeqPart::Splice(v@[v@.len() - 1 - i]) by { assert(d[o.len() + i] == s[o.len() + i]); }
   Xlemma_push_splices(d, v, k + 1, o); assert(Xstack(s) == Xparts(v@[k]) + (Xparts_from(v, k + 1) + Xstack(o))); } }
/// `parts.extend(elems.into_iter().rev().map(SeqPart::Item))`
pub fn Xpush_rev_items(parts: &mut Vec<SeqPart>, v: Vec<Term>) ensures Xstack(final(parts)@) =~= Xparts(Term::KIND(v)) + Xstack(old(parts)@)
{ let ghost o = parts@; let ghost g = v; let mut v = v; let mut n: usize = v.len();
  while n > 0 invariant n == v@.len(), n <= g@.len(), v@ =~= g@.take(n as int), parts@.len() == o.len() + (g@.len() - n), forall|i: int| 0 <= i < o.len() ==> parts@[i] == o[i], forall|i: int| #![trigger parts@[o.len() + i]] 0 <= i < g@.len() - n ==> parts@[o.len() + i] == SeqPart::Item(g@[g@.len() - 1 - i]) decreases n
  { let x = v.pop().unwrap(); assert(x == g@[n - 1]); parts.push(SeqPart::Item(x)); n = n - 1; }
  proof { Xlemma_push_items(parts@, g, 0, o); } }
pub fn Xpush_rev_splices(parts: &mut Vec<SeqPart>, v: Vec<Term>) ensures Xstack(final(parts)@) =~= Xparts(Term::KINDConcat(v)) + Xstack(old(parts)@)
{ let ghost o = parts@; let ghost g = v; let mut v = v; let mut n: usize = v.len();
  while n > 0 invariant n == v@.len(), n <= g@.len(), v@ =~= g@.take(n as int), parts@.len() == o.len() + (g@.len() - n), forall|i: int| 0 <= i < o.len() ==> parts@[i] == o[i], forall|i: int| #![trigger parts@[o.len() + i]] 0 <= i < g@.len() - n ==> parts@[o.len() + i] == SeqPart::Splice(g@[g@.len() - 1 - i]) decreases n
  { let x = v.pop().unwrap(); assert(x == g@[n - 1]); parts.push(SeqPart::Splice(x)); n = n - 1; }
  proof { Xlemma_push_splices(parts@, g, 0, o); Xlemma_from_upto(g, 0); assert(Seq::<SeqPart>::empty() + Xparts_from(g, 0) =~= Xparts_from(g, 0)); } }
/// `iter.collect()`
#[verifier::exec_allows_no_decreases_clause]
pub fn Xcollect(it: KINDPartIter) -> (r: Vec<SeqPart>) ensures r@ =~= Xstack(it.parts@)
{ let mut it = it; let mut v: Vec<SeqPart> = Vec::new(); let ghost all = Xstack(it.parts@);
  loop invariant_except_break v@ + Xstack(it.parts@) =~= all ensures v@ =~= all { match it.next() { Some(p) => { v.push(p); } None => { break; } } } v }
'''
def emit(u):
    tp = src(T + '/type_param.rs')
    e = strip_attrs(tp.item(r'pub enum SeqPart<T>')); u.text(re.sub(r'<T>', '', e).replace('(T)', '(Term)'))
    for kind, x in (('List', 'l'), ('Tuple', 't')):
        st = strip_attrs(tp.item(r'pub struct %sPartIter\b' % kind)); u.text(subst(st, [(r'SmallVec<\[[^\]]*\]>', 'Vec<SeqPart>'), (r'(?m)^(\s*)(?:pub )?(\w+\s*:)', r'\1pub \2')]))
        u.text(re.sub(r'\bX(?=[a-z])', x, PARTS).replace('KIND', kind))
        R = FN + [(r'smallvec!\[part\]', 'vec![part]'), (r'self\s*\.parts\s*\.extend\((\w+)\.into_iter\(\)\.rev\(\)\.map\(SeqPart::Item\)\)', x + r'push_rev_items(&mut self.parts, \1)'),
                  (r'self\s*\.parts\s*\.extend\((\w+)\.into_iter\(\)\.rev\(\)\.map\(SeqPart::Splice\)\)', x + r'push_rev_splices(&mut self.parts, \1)'),
                  (r'self\.parts\.pop\(\)\?', '(match self.parts.pop() { Some(p) => p, None => return None })')]
        u.text(f'impl {kind}PartIter {{')
        u.fn(tp.fn('new', tp.impl(kind + r'PartIter\s*\{')), f'ensures {x}stack(r.parts@) =~= {x}part(part),', rules=R, sig='pub fn new(part: SeqPart) -> (r: Self)', obligation=kind + 'PartIter::new',
             post_rules=[(r'Self \{\s*parts: vec!\[part\],?\s*\}', '{ let parts = vec![part]; proof { assert(parts@.drop_last() =~= Seq::empty()); assert(parts@.last() == part); reveal_with_fuel(' + x + 'stack, 2); } Self { parts } }')])
        u.fn(tp.fn('next', tp.impl(r'Iterator for ' + kind + r'PartIter\s*\{')), f'''ensures match r {{ None => {x}stack(old(self).parts@).len() == 0, Some(p) => {x}stack(old(self).parts@) =~= seq![p] + {x}stack(final(self).parts@) }},''', rules=R,
             sig='#[verifier::exec_allows_no_decreases_clause] pub fn next(&mut self) -> (r: Option<SeqPart>)', loops=[(f'invariant {x}stack(self.parts@) == {x}stack(old(self).parts@)', 'proof { if self.parts@.len() > 0 { assert(%sstack(self.parts@) == %spart(self.parts@.last()) + %sstack(self.parts@.drop_last())); } }' % (x, x, x))], obligation=kind + 'PartIter::next')
        u.text('}\nimpl Term {')
        n = kind.lower()
        u.fn(imp(tp, r'Term\s*\{', f'into_{n}_parts'), f'ensures {x}stack(r.parts@) =~= {x}parts(self),', rules=R, sig=f'pub fn into_{n}_parts(self) -> (r: {kind}PartIter)', obligation=f'Term::into_{n}_parts')
        u.text('}')
