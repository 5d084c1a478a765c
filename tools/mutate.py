#!/usr/bin/env python3
"""mutate.py PROPERTY N SEED: plants N random small changes in the functions a property has under contract
(in a scratch copy, /tmp/mut) and says which of them neither layer of its check reports.
Needs /tmp/mut/repo (copy of /repo) and /tmp/mut/hx (copy of /verif/exec pointing at it)."""
import importlib, json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); M = os.environ.get('MUT', '/tmp/mut')
os.environ['VERIF_REPO'] = M + '/repo'
sys.path.insert(0, V + '/vx')
import rustlex
pid, N, S = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4] if len(sys.argv) > 4 else ''
mod = importlib.import_module('p_' + pid.lower())
OPS = [(r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ' + 2'), (r' - 1\b', ''), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
       (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_ok\(\)', '.is_err()'), (r'\.is_err\(\)', '.is_ok()'), (r'if !', 'if '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'),
       (r'Direction::Incoming\b', 'Direction::Outgoing'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\.rev\(\)', ''),
       (r'\.skip\((\d)\)', ''), (r'\.chain\(', '.zip('), (r'\.is_empty\(\)', '.is_empty().not()'), (r'(?m)^\s*[a-z_.]+\([^;{}]*\);\n', '\n'), (r'(?m)^\s*[a-z_.]+\([^;{}]*\)\?;\n', '\n'), (r' < ', ' <= '), (r' > ', ' >= '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '),
       (r'\|\| (\w+)', r'&& \1'), (r'\.filter\([^()]*(?:\([^()]*\)[^()]*)*\)', ''), (r'\.then_some', '.not().then_some'), (r'return Err\([^;]*\);', '{}'), (r'\.dedup\(\)', ''), (r'\.unwrap_or\([^()]*\)', '.unwrap()'), (r'\.take\(1\)', ''), (r'\.input\b', '.output'), (r'\.output\b', '.input'), (r'inputs', 'outputs')]
sites = []; seen = set()
def scan(p, b, body, ob):
    for rx, to in OPS:
        for x in re.finditer(rx, body):
            line = body[body.rfind('\n', 0, x.start()) + 1:body.find('\n', x.start())] if '\n' in body else body
            if line.strip().startswith(('//', '#[', 'use ')) or 'assert' in line or 'format!' in line or '#[error' in line: continue
            sites.append((p, b + x.start(), b + x.end(), x.expand(to), ob))
if only.startswith('files:'):
    for n in only[6:].split(','):
        p = os.path.join(M, 'repo', n); t = open(p).read(); e = t.find('#[cfg(test)]\nmod'); scan(p, 0, t[:e] if e > 0 else t, os.path.basename(n))
for u in ([] if only.startswith('files:') else mod.units()):
    for f in u.fns:
        m = re.match(r'(.*):(\d+)$', f['source'])
        if not m or f['source'] in seen or only not in f['source'] + f['obligation']: continue
        seen.add(f['source']); p = os.path.join(M, 'repo', m.group(1))
        if not os.path.exists(p): continue
        t = open(p).read(); a = sum(len(l) for l in t.splitlines(True)[:int(m.group(2)) - 1]); b = t.find('{', a)
        if b < 0: continue
        d = 0
        for e in range(b, len(t)):
            d += (t[e] == '{') - (t[e] == '}')
            if d == 0: break
        body = t[b:e + 1]
        scan(p, b, body, f['obligation'])
random.Random(S).shuffle(sites); print(len(sites), 'sites', flush=True)
env = dict(os.environ, CARGO_TARGET_DIR=M + '/target', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', VERIF_SEED='1', VERIF_TIER='quick', HX_GEN=V + '/.build/gen', CARGO_PROFILE_DEV_DEBUG='0')
feats = getattr(mod, 'EXEC_FEATURES', '')
known = [l.split('obligation=')[1].split()[0] for l in open(V + '/KNOWN_FINDINGS.txt') if l.startswith(f'known: property={pid} ')]
def sh(cmd, cwd, t):
    try: return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
done = 0
for p, a, b, to, ob in sites:
    if done >= N: break
    t = open(p).read(); ln = t.count('\n', 0, a) + 1
    open(p, 'w').write(t[:a] + to + t[b:])
    try:
        q = sh(['cargo', 'build', '--offline', '--quiet', '--bin', mod.EXEC] + (['--features', feats] if feats else []), M + '/hx', 400)
        if not q or q.returncode: continue
        done += 1
        where = f'{os.path.relpath(p, M + "/repo")}:{ln} {t[a:b].strip()!r} -> {to.strip()!r} [{ob}]'
        q = sh([M + '/target/debug/' + mod.EXEC], M + '/hx', 250)
        if q is None: print('timeout ', where, flush=True); continue
        try: fails = [f for f in json.loads(q.stdout.strip().split('\n')[-1])['failures'] if f['obligation'] not in known]
        except Exception: fails = ['crash']
        if fails: print('exec    ', where, flush=True); continue
        v = None if only.startswith('files:') and '--proof' not in sys.argv else subprocess.run(['python3', 'try.py', 'p_' + pid.lower()], cwd=V + '/vx', env=dict(env, TRYDIR=M + '/v'), capture_output=True, text=True, timeout=600)
        if v and 'FAILED' in v.stdout: print('proof   ', where, flush=True); continue
        q = sh(['cargo', 'nextest', 'run', '-p', 'hugr-core', '--offline', '--features', 'declarative,zstd', '--no-fail-fast'], M + '/repo', 900)
        bad = q is None or q.returncode != 0
        print('tests   ' if bad else 'SURVIVES', where, '' if not v or 'ok' in v.stdout else 'proof: no answer', flush=True)
    finally: open(p, 'w').write(t)
