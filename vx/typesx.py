"""extraction of types and terms. The row-variable parameter of types is erased: `TypeBase<RV>` is one
type whose `RowVar` case carries a row variable (ruled out for `Type` by `no_rv` where it matters)."""
from common import *
T = 'hugr-core/src/types'
DATA = [(r'<RV: MaybeRV>|<ROWVARS: MaybeRV>', ''), (r'\bTypeRowBase<\w+>', 'TypeRow'), (r'\bTypeRowRV\b', 'TypeRow'), (r'\bTypeRowBase\b', 'TypeRow'),
        (r'\bTypeEnum<\w+>', 'TypeEnum'), (r'\bTypeBase<\w+>', 'Type'), (r'\bstruct TypeBase\b', 'struct Type'), (r'\bTypeRV\b', 'Type'), (r'\bTypeBase\b', 'Type'),
        (r"Cow<'static, \[Type\]>", 'Vec<Type>'), (r'\bFuncTypeBase\b', 'FuncValueType'), (r'\(RV\)', '(RowVariable)'), (r'\bTypeArg\b|\bTypeParam\b', 'Term'),
        (r'Arc<\[u8\]>', 'Opaque'), (r'OrderedFloat<f64>', 'Opaque'), (r'\bString\(String\)', 'String(Opaque)'), (r'\bSmolStr\b|\bExtensionId\b|\bTypeName\b|\bWeak<Extension>', 'Opaque'),
        (r':\s*String\b', ': Opaque'), (r'pub\((?:super|crate|in [^)]*)\)', 'pub')]
FN = [(r'\bTypeRowRV\b', 'TypeRow'), (r'\bTypeRV\b', 'Type'), (r'\bTypeBase\b(?=::|\()', 'Type'), (r'\bTypeArg\b|\bTypeParam\b', 'Term'), (r'\bTypeRowBase::<\w+>::', 'TypeRow::'), (r'\bconst fn\b', 'fn')]
ITEMS = {'TypeBound': ('hugr-core/src/types.rs', r'pub enum TypeBound\b'), 'RowVariable': (T + '/row_var.rs', r'pub struct RowVariable\b'),
         'AliasDecl': ('hugr-core/src/ops/module.rs', r'pub struct AliasDecl\b'), 'CustomType': (T + '/custom.rs', r'pub struct CustomType\b'),
         'TypeRow': (T + '/type_row.rs', r'pub struct TypeRowBase\b'), 'FuncValueType': (T + '/signature.rs', r'pub struct FuncTypeBase\b'),
         'SumType': ('hugr-core/src/types.rs', r'pub enum SumType\b'), 'TypeEnum': ('hugr-core/src/types.rs', r'pub enum TypeEnum\b'),
         'Type': ('hugr-core/src/types.rs', r'pub struct TypeBase\b'), 'UpperBound': (T + '/type_param.rs', r'pub struct UpperBound\b'),
         'Term': (T + '/type_param.rs', r'pub enum Term\b'), 'TermVar': (T + '/type_param.rs', r'pub struct TermVar\b')}
def item(n):
    f, rx = ITEMS[n]; t = subst(strip_attrs(src(f).item(rx)), DATA)
    if t.startswith('pub struct'):
        if '{' in t: t = re.sub(r'(?m)^(\s*)(?:pub )?(\w+\s*:)', r'\1pub \2', t)
        else: t = re.sub(r'([(,]\s*)(?:pub )?(\w)', r'\1pub \2', re.sub(r'\((.*)\)', lambda m: '(' + ', '.join('pub ' + x.strip().removeprefix('pub ') for x in split(m.group(1))) + ')', t)) if False else re.sub(r'\((.*)\)', lambda m: '(' + ', '.join('pub ' + x.strip().removeprefix('pub ') for x in split(m.group(1))) + ')', t, flags=re.S)
    return t
def split(s):
    out = []; d = 0; cur = ''
    for c in s:
        if c in '<([{': d += 1
        if c in '>)]}': d -= 1
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur)
    return out
def data(u):
    u.text('#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n' + item('TypeBound'))
    for n in ITEMS:
        if n != 'TypeBound': u.text(item(n))
    u.text(lib('terms.rs'))
    u.trust('derived Clone of types, rows and terms gives an equal value; a Cow row is the vector it holds; byte strings, floats, strings and names are opaque values with their own equality')
def imp(s, rx, name):
    for n in range(20):
        try: sp = s.impl(rx, nth=n)
        except AnchorLost: break
        try: return s.fn(name, sp)
        except AnchorLost: pass
    raise AnchorLost(f'{s.path}: no {name} in impl {rx}')
TB = r'<RV\d?: MaybeRV>\s*TypeBase<RV\d?>\s*\{'
