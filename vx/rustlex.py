"""A small Rust lexer and item finder: enough to cut functions, impl members, enums
and closures out of the current source text mechanically."""
import re

class AnchorLost(Exception):
    """The code no longer has the shape the extraction needs (not a verdict)."""

def blank(text):
    """Replace comments by spaces (same length); returns (text, mask) where mask[i] is
    True inside string/char literals."""
    out = list(text); n = len(text); i = 0
    mask = bytearray(n)
    while i < n:
        c = text[i]
        if text.startswith('//', i):
            j = text.find('\n', i); j = n if j < 0 else j
            for k in range(i, j): out[k] = ' '
            i = j
        elif text.startswith('/*', i):
            d = 1; j = i + 2
            while j < n and d:
                if text.startswith('/*', j): d += 1; j += 2
                elif text.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            for k in range(i, j):
                if out[k] != '\n': out[k] = ' '
            i = j
        elif c == 'r' and re.match(r'r#*"', text[i:i+8]) and not (i and (text[i-1].isalnum() or text[i-1] == '_')):
            m = re.match(r'r(#*)"', text[i:]); end = '"' + m.group(1)
            j = text.find(end, i + len(m.group(0))) + len(end)
            for k in range(i, j): mask[k] = 1
            i = j
        elif c == '"':
            j = i + 1
            while text[j] != '"': j += 2 if text[j] == '\\' else 1
            j += 1
            for k in range(i, j): mask[k] = 1
            i = j
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", text[i:i+14])
            if m:
                for k in range(i, i + len(m.group(0))): mask[k] = 1
                i += len(m.group(0))
            else: i += 1
        else: i += 1
    return ''.join(out), mask

OPEN = {'(': ')', '[': ']', '{': '}'}

class Rust:
    def __init__(self, text, path='?'):
        self.path = path
        self.raw = text
        self.t, self.mask = blank(text)
        self.match = {}
        st = []
        for i, c in enumerate(self.t):
            if self.mask[i]: continue
            if c in '([{': st.append(i)
            elif c in ')]}':
                if st:
                    o = st.pop(); self.match[o] = i; self.match[i] = o
    @staticmethod
    def load(path):
        try: return Rust(open(path).read(), path)
        except FileNotFoundError: raise AnchorLost(f'{path} does not exist')
    def finditer(self, rx, lo=0, hi=None):
        hi = len(self.t) if hi is None else hi
        for m in re.finditer(rx, self.t[:hi]):
            if m.start() >= lo and not self.mask[m.start()]: yield m
    def body_open(self, i):
        """index of the `{` opening the body of the item whose text starts at i (None: `;`)"""
        while i < len(self.t):
            c = self.t[i]
            if self.mask[i]: i += 1; continue
            if c in '([': i = self.match[i] + 1; continue
            if c == '{': return i
            if c == ';': return None
            i += 1
    def block(self, rx, lo=0, hi=None, nth=0):
        """span (start, open, close) of the nth brace block whose header matches rx"""
        ms = [m for m in self.finditer(rx, lo, hi)]
        ms = [m for m in ms]
        if len(ms) <= nth: raise AnchorLost(f'{self.path}: no match for {rx!r}')
        m = ms[nth]
        o = self.body_open(m.start())
        if o is None: raise AnchorLost(f'{self.path}: {rx!r} has no body')
        return m.start(), o, self.match[o]
    def impl(self, header_rx, nth=0):
        """span of an impl block; header_rx is matched right after `impl`"""
        return self.block(r'(?m)^[ \t]*(?:unsafe )?impl\b\s*' + header_rx, nth=nth)
    def depth_ok(self, i, lo, hi):
        return True
    def fn(self, name, within=None):
        """Fn item called `name` directly inside the given block span (or at module level)."""
        lo, hi = (0, len(self.t)) if within is None else (within[1] + 1, within[2])
        for m in self.finditer(r'\bfn\s+' + re.escape(name) + r'\b', lo, hi):
            # nesting: must be a direct child of `within`
            d = self.enclosing(m.start())
            if within is None:
                # module level, or in inline non-test modules
                if d is not None: continue
            elif d != within[1]: continue
            o = self.body_open(m.end())
            if o is None: continue
            # beginning of the signature (visibility and qualifiers)
            ls = self.t.rfind('\n', 0, m.start()) + 1
            sig = self.t[ls:o].strip()
            body = self.t[o:self.match[o] + 1]
            return Fn(name, sig, body, self.path, self.raw.count('\n', 0, m.start()) + 1)
        raise AnchorLost(f'{self.path}: function {name} not found')
    def enclosing(self, i):
        """index of the innermost `{` containing i"""
        best = None
        for o, c in self.match.items():
            if o < i < c and self.t[o] == '{' and (best is None or o > best): best = o
        return best
    def item(self, rx):
        """text of an item (enum/struct/const) whose header matches rx, up to its closing brace or `;`"""
        ms = list(self.finditer(rx))
        if not ms: raise AnchorLost(f'{self.path}: no match for {rx!r}')
        s = ms[0].start(); o = self.body_open(s)
        e = (self.t.index(';', s) if o is None or self.t.find(';', s, o) >= 0 and '(' not in self.t[s:o] else self.match[o]) + 1
        return self.t[s:e]
    def expr_after(self, rx, lo=0, hi=None):
        """span of the brace block right after a match of rx"""
        return self.block(rx, lo, hi)

class Fn:
    def __init__(self, name, sig, body, path, line):
        self.name, self.sig, self.body, self.path, self.line = name, sig, body, path, line
    def loops(self):
        return loops(self.body)

def strip_attrs(s):
    """remove #[...] attributes"""
    r = Rust(s); out = []; i = 0
    for m in r.finditer(r'#!?\['):
        if m.start() < i: continue
        out.append(s[i:m.start()]); i = r.match[m.end() - 1] + 1
    out.append(s[i:])
    return ''.join(out)

def loops(body):
    """positions of the body `{` of every loop, in textual order"""
    r = Rust(body); res = []
    for m in r.finditer(r'\b(while|for|loop)\b'):
        if m.group(1) == 'for' and re.match(r'for\s*<', body[m.start():]): continue
        i = m.end()
        # skip the header up to the body brace (headers here contain no struct literals)
        while True:
            c = r.t[i]
            if r.mask[i]: i += 1; continue
            if c in '([': i = r.match[i] + 1; continue
            if c == '{':
                # `while let X { .. } = ` patterns
                j = r.match[i] + 1
                k = re.match(r'\s*(=[^=]|\))', r.t[j:])
                if m.group(1) == 'while' and k and r.t[m.end():i].strip().startswith('let'): i = j; continue
                break
            i += 1
        res.append(i)
    return res

def subst(text, rules):
    """apply regex rules [(rx, repl)] outside string literals"""
    for rx, rp in rules:
        text = re.sub(rx, rp, text)
    return text

def with_loops(body, annots, name):
    """insert loop annotations (list, one per loop, '' for none)"""
    ls = loops(body)
    if len(ls) != len(annots):
        raise AnchorLost(f'{name}: {len(ls)} loops, contract written for {len(annots)}')
    for i, a in reversed(list(zip(ls, annots))):
        a, pre = a if isinstance(a, tuple) else (a, '')     # (annotation, ghost text at the start of the loop body)
        body = body[:i] + '\n' + a + '\n{' + (' ' + pre if pre else '') + body[i + 1:]
    return body
