"""DESIGN.md = tools/design/head.md + per-property text + generated tables + tools/design/tail.md"""
import json, os, sys, glob, re
V = '/verif'; sys.path.insert(0, V + '/vx'); sys.path.insert(0, V + '/tools/design')
from props import P
man = json.load(open(V + '/MANIFEST.json')); props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = {c['property'] if 'property' in c else c['id']: c for c in man.get('checks', man.get('claims', []))}
na = {x.get('property', x.get('id')): x for x in man['not_applicable']}
out = [open(V + '/tools/design/head.md').read()]
import importlib
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    if i in claimed:
        out.append(P.get(i, '') + '\n')
        try: ev = json.load(open(f'{V}/evidence/{i}.json'))
        except Exception: ev = None
        m = importlib.import_module('p_' + i.lower())
        if ev:
            c = ev['coverage']
            out.append(f"- functions under contract: {len(c['functions_under_contract'])}; lemmas: {', '.join(c['lemmas']) or 'none'}; solver {sum(b.get('smt_ms') or 0 for b in c['back_ends'])/1000:.1f} s; quick check about {ev['wall_s']:.0f} s (without the first build).")
            out.append('- trusted: ' + '; '.join(t for t in c['trusted_base'] if 'Verus' not in t and 'mechanical extraction' not in t) + '.')
        if getattr(m, 'ASSUMPTIONS', []): out.append('- assumptions: ' + '; '.join(m.ASSUMPTIONS) + '.')
        if getattr(m, 'BOUNDED', []): out.append('- bounded stand-in: ' + '; '.join(m.BOUNDED) + '.')
        out.append('')
    elif i in na: out.append('Not applicable: ' + na[i]['reason'] + '\n')
    else: out.append('(not claimed)\n')
out.append('## 4. Planted bugs\n\nEach was written from the property text and the code, confirmed (builds, repository tests pass, demonstration fails only with it) and run against its check with `tools/trybug.sh`.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    r = V + f'/tools/design/caught.json'; caught = json.load(open(r)) if os.path.exists(r) else {}
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '')} |")
out.append('\n## 5. Findings\n\nFrom KNOWN_FINDINGS.txt (defects shown on the real code; `fixed` ones are `fix:` commits in /repo, `known` ones are reported as KNOWN-FINDING):\n')
for l in open(V + '/KNOWN_FINDINGS.txt'):
    if l.strip(): out.append('- ' + l.strip())
out.append('\n' + open(V + '/tools/design/tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
