"""Deductive layer: verification units are assembled from the current source text of
/repo and decided by Verus. A unit is a list of text segments; every extracted function
keeps its own body, with the stated mechanical rewrites only."""
import json, os, re, subprocess, time, hashlib, tempfile
from rustlex import *

REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib')

def lib(name): return open(os.path.join(LIB, name)).read()
_cache = {}
def src(rel):
    if rel not in _cache: _cache[rel] = Rust.load(os.path.join(REPO, rel))
    return _cache[rel]

class Unit:
    def __init__(self, name, crate_attrs=''):
        self.name = name; self.parts = []; self.fns = []; self.trusted = []; self.attrs = crate_attrs
        self.drops = []
    def text(self, s): self.parts.append(('text', None, s)); return self
    def trust(self, what): self.trusted.append(what); return self
    def fn(self, f, contract='', loops=None, rules=(), pre='', sig=None, obligation=None, post_rules=(), attrs=''):
        """Emit an extracted function: its own signature (rewritten by `rules`, result named r)
        + contract + its own body (attributes and comments dropped, `rules` applied, loop
        annotations and the ghost prefix `pre` inserted)."""
        sg = strip_attrs(f.sig)
        sg = re.sub(r'\bpub(\s*\([^)]*\))?\s+', 'pub ', sg)
        body = strip_attrs(f.body)
        body = subst(body, rules); sg = subst(sg, rules)
        if sig is not None: sg = sig if isinstance(sig, str) else sig(sg)
        elif '->' in sg and not re.search(r'->\s*\(r\s*:', sg):
            sg = re.sub(r'->\s*(.*?)\s*(where\b.*)?$', lambda m: '-> (r: ' + m.group(1).strip() + ') ' + (m.group(2) or ''), sg, flags=re.S)
        n = len(globals()['loops'](body))
        if loops is None:
            if n: raise AnchorLost(f'{f.name}: contract written for a body without loops, found {n}')
        else: body = with_loops(body, loops, f.name)
        if pre: body = '{\n' + pre + '\n' + body[1:]
        body = subst(body, post_rules)
        ob = obligation or f.name
        self.fns.append({'obligation': ob, 'source': f'{os.path.relpath(f.path, REPO)}:{f.line}'})
        self.parts.append(('fn', ob, f'{attrs}{sg}\n{contract}\n{body}\n'))
        return self
    def lemma(self, name, text):
        """a property lemma over the contracts, counted as an obligation of its own"""
        self.fns.append({'obligation': name, 'source': 'lemma'})
        self.parts.append(('fn', name, text)); return self
    def render(self):
        out = [self.attrs + '\n#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]\nuse vstd::prelude::*;\nverus! {\n']
        line = out[0].count('\n') + 1
        spans = []
        for kind, ob, s in self.parts:
            s = s if s.endswith('\n') else s + '\n'
            k = s.count('\n')
            if kind == 'fn': spans.append((line, line + k - 1, ob))
            out.append(s); line += k
        tail = 'proof fn canary_must_fail() ensures false { }\n} // verus!\nfn main() {}\n'
        spans.append((line, line, '#canary'))
        out.append(tail)
        return ''.join(out), spans

UNKNOWN = re.compile(r'resource limit|rlimit|timed? ?out|canceled', re.I)
DEFINITE = re.compile(r'not satisfied|assertion failed|possible (arithmetic|division|bit|overflow|underflow)|underflow/overflow|decreases|unreachable|assertion failure|may not hold|type invariant|cannot show|could not (show|prove)|not proved|failed')

def run_verus(unit, workdir, timeout=240, rlimit=60, extra=()):
    os.makedirs(workdir, exist_ok=True)
    text, spans = unit.render()
    path = os.path.join(workdir, unit.name + '.rs')
    open(path, 'w').write(text)
    cmd = ['verus', path, '--output-json', '--time', '--multiple-errors', '4', '--rlimit', str(rlimit), '--num-threads', '4', *extra]
    t0 = time.time()
    res = {'unit': unit.name, 'file': path, 'functions': unit.fns, 'trusted': unit.trusted, 'cmd': ' '.join(cmd)}
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        res.update(status='unknown', reason=f'verifier did not finish within {timeout} s', wall=time.time() - t0, failed=[]); return res
    res['wall'] = time.time() - t0
    res['stderr'] = p.stderr
    m = re.search(r'^\{.*^\}', p.stdout, re.S | re.M)
    js = None
    if m:
        try: js = json.loads(m.group(0))
        except Exception: js = None
    vr = (js or {}).get('verification-results')
    if vr is None or vr.get('encountered-vir-error') or 'verified' not in vr:
        errs = re.findall(r'^error.*(?:\n.*){0,6}', p.stderr, re.M)
        res.update(status='unsupported', reason='; '.join(errs[:2])[:900] or p.stderr[-900:], failed=[]); return res
    res['verified'] = vr['verified']; res['errors'] = vr['errors']
    if re.search(r'(?m)^error\[E\d+\]', p.stderr):
        errs = re.findall(r'(?m)^error\[E\d+\].*(?:\n.*){0,4}', p.stderr)
        res.update(status='unsupported', reason='the extracted text does not compile in the unit: ' + '; '.join(errs[:2])[:700], failed=[]); return res
    try: res['smt_ms'] = js['times-ms']['smt']['total']
    except Exception: res['smt_ms'] = None
    # map each error to the function it belongs to
    failed = {}; unknown = {}; canary = False
    for blk in re.split(r'(?m)^(?=error|warning|note)', p.stderr):
        if not blk.startswith('error') or blk.startswith('error: aborting'): continue
        lm = re.search(r'-->\s*\S*?:(\d+):\d+', blk)
        if not lm: continue
        lines = [int(lm.group(1))]
        # an error block may point at the contract (prelude) and at the call; use every line shown
        lines += [int(x) for x in re.findall(r'(?m)^\s*(\d+)\s*[|/]', blk)]
        msg = blk.split('\n')[0]
        obs = []
        for l in lines:
            for a, b, ob in spans:
                if a <= l <= b and ob not in obs: obs.append(ob)
        ob = obs[0] if obs else '#prelude'
        # a failed precondition is the caller's obligation
        if 'precondition' in msg and len(obs) > 1:
            # the call site is listed with "^^^" under it; the callee's clause is "failed precondition"
            call = re.search(r'-->\s*\S*?:(\d+):\d+', blk)
            ob = obs[0]
        if ob == '#canary': canary = True; continue
        (unknown if UNKNOWN.search(msg) else failed).setdefault(ob, []).append(blk.strip()[:1500])
    res['failed'] = [{'obligation': k, 'detail': v} for k, v in failed.items()]
    res['undecided'] = [{'obligation': k, 'detail': v} for k, v in unknown.items()]
    if not canary: res.update(status='unsupported', reason='the canary obligation was accepted: assumptions of the unit are inconsistent'); return res
    res['errors'] -= 1
    if failed: res['status'] = 'failed'
    elif unknown: res.update(status='unknown', reason='; '.join(unknown))
    elif vr['errors'] != 0 + 0 and res['errors'] > 0: res.update(status='unknown', reason='unattributed errors')
    else: res['status'] = 'ok'
    return res
