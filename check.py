#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property on /repo's current tree.

1. deductive layer: the functions the property depends on are cut out of the current
   source, put under contract and every obligation is handed to the verifier;
2. executable layer: the same contracts are evaluated on the real compiled code over
   enumerated and seeded inputs: this finds the concrete failing input for a failed
   obligation and stands in (bounded) for what the extraction does not reach.

exit 0: held; exit 1 + VIOLATION line: a definite failure.  Everything that is not a
verdict (lost anchor, unsupported construct, solver gave up) is reported in the evidence
and never as an alarm."""
import importlib, json, os, re, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vx'))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
PID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv: TIER = 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()

def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=os.path.join(BUILD, 'exec'),
             VERIF_SEED=str(SEED), VERIF_TIER=TIER, CARGO_TERM_COLOR='never', HX_GEN=os.path.join(BUILD, 'gen'))
    e.setdefault('HOME', '/root')
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER'): e.pop(k, None)
    return e

def known_findings():
    out = {}
    for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
        m = re.match(r'known: property=(\S+) obligation=(\S+) (.*)', l.strip())
        if m and m.group(1) == PID: out[m.group(2)] = m.group(3)
    return out

def run_exec(mod):
    """build and run the executable contracts; None when there is no answer"""
    name = mod.EXEC
    if not name: return None, 'no executable layer'
    feats = getattr(mod, 'EXEC_FEATURES', '')
    crate = os.path.join(HERE, getattr(mod, 'EXEC_CRATE', 'exec'))
    cmd = ['cargo', 'build', '--offline', '--quiet', '--bin', name] + (['--features', feats] if feats else [])
    try:
        if hasattr(mod, 'prepare'): mod.prepare(BUILD)
        p = subprocess.run(cmd, cwd=crate, env=env(), capture_output=True, text=True, timeout=600)
    except Exception as e:
        return None, f'harness build: {e}'
    if p.returncode != 0: return None, 'harness does not build against this tree: ' + p.stderr[-1500:]
    try:
        q = subprocess.run([os.path.join(BUILD, 'exec', 'debug', name)], env=env(), capture_output=True, text=True,
                           timeout=200 if TIER == 'quick' else 3000, cwd=crate)
    except subprocess.TimeoutExpired:
        return None, 'harness did not finish in time'
    try: return json.loads(q.stdout.strip().split('\n')[-1]), None
    except Exception:
        return {'crash': True, 'rc': q.returncode, 'stderr': q.stderr[-2000:], 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'per_obligation': {}, 'failures': []}, None

def main():
    mod = importlib.import_module('p_' + PID.lower())
    ded = []; lost = []
    try:
        from common import run_verus, AnchorLost
        try: units = mod.units()
        except AnchorLost as e: units = []; lost.append(f'extraction: {e}')
        except Exception as e: units = []; lost.append(f'extraction: {e!r}')
        for u in units:
            if isinstance(u, tuple): lost.append(f'{u[0]}: {u[1]}'); continue
            r = run_verus(u, os.path.join(BUILD, 'verus', PID), timeout=getattr(mod, 'VERUS_TIMEOUT', 200))
            ded.append(r)
            if r['status'] in ('unsupported', 'unknown'): lost.append(f"unit {r['unit']}: {r.get('reason', '')}")
    except Exception:
        lost.append('deductive layer: ' + traceback.format_exc()[-600:])
    for hook in getattr(mod, 'EXTRA', []):      # further back ends of this property
        try:
            for r in hook(BUILD, TIER): 
                ded.append(r)
                if r['status'] in ('unsupported', 'unknown'): lost.append(f"unit {r['unit']}: {r.get('reason', '')}")
        except Exception as e: lost.append(f'{hook.__name__}: {e!r}')
    ex, exerr = run_exec(mod)
    if exerr: lost.append('executable layer: ' + exerr)

    failed = [(r, f) for r in ded if r['status'] == 'failed' for f in r['failed']]
    obligations = sum(len(r['functions']) for r in ded)
    discharged = sum(len(r['functions']) - len({f['obligation'] for f in r['failed']} & {x['obligation'] for x in r['functions']})
                     for r in ded if r['status'] in ('ok', 'failed'))
    known = known_findings()
    exfail = list(ex['failures']) if ex else []
    new = [f for f in exfail if f['obligation'] not in known]
    old = [f for f in exfail if f['obligation'] in known]
    for f in old:
        print(f"KNOWN-FINDING: property={PID} {f['obligation']}: {known[f['obligation']]} (e.g. {f['input']}: {f['why'][:120]})")
    crashed = bool(ex and ex.get('crash'))

    violations = []
    rep = None
    if new or failed or crashed:
        rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
        rep = os.path.join(rdir, f'{PID}.txt')
        with open(rep, 'w') as fh:
            fh.write(f'property {PID}\n\n')
            for f in new:
                fh.write(f"failing input (contract {f['obligation']}, {f['count']} inputs fail)\n  input: {f['input']}\n  outcome: {f['why']}\n"
                         f"  replay: VERIF_SEED={SEED} VERIF_TIER={TIER} {BUILD}/exec/debug/{mod.EXEC} {f['obligation']}\n\n")
                violations.append(f"{f['obligation']}: {f['input']}: {f['why'][:300]}")
            if crashed:
                fh.write(f"the harness process ended abnormally (code {ex['rc']}) while running the real code\n{ex['stderr']}\n")
                violations.append(f"abnormal end of the process running the real code (code {ex['rc']})")
            for r, f in failed:
                fh.write(f"failed obligation {f['obligation']} (unit {r['unit']}, {r['file']}, {r['cmd']})\n")
                for d in f['detail']: fh.write('  ' + d.replace('\n', '\n  ') + '\n')
                fh.write('\n')
                violations.append(f"obligation {f['obligation']} of unit {r['unit']} not discharged")
    deductive_ok = bool(ded) and not lost and not failed
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': '; '.join(dict.fromkeys(r['cmd'] for r in ded)) or 'none',
        'trusted_base': sorted({t for r in ded for t in r['trusted']}) + getattr(mod, 'TRUSTED', []) + ['Verus 0.2026.09.13, its vstd and Z3', 'the mechanical extraction of vx/ (rules in DESIGN.md)'],
        'functions_under_contract': [f['obligation'] + ' @ ' + f['source'] for r in ded for f in r['functions'] if f['source'] != 'lemma'],
        'lemmas': [f['obligation'] for r in ded for f in r['functions'] if f['source'] == 'lemma'],
        'back_ends': [{'unit': r['unit'], 'status': r['status'], 'verified_items': r.get('verified'), 'smt_ms': r.get('smt_ms'), 'wall_s': round(r.get('wall', 0), 2)} for r in ded],
        'deductive_layer_complete': deductive_ok,
        'not_reached': lost,
        'evaluations': ex['evaluations'] if ex else 0,
        'distinct_nontrivial': ex['distinct_nontrivial'] if ex else 0,
        'rule': getattr(mod, 'RULE', 'executable contracts on the real code: enumerated small inputs, boundary values and seeded random inputs (bounded; used to find failing inputs and as stand-in for functions not under contract)'),
        'samples': (ex['samples'][:20] if ex else []),
        'violation_details': violations,
        'bounded_stand_in': {'per_obligation': ex['per_obligation'] if ex else {}, 'for': getattr(mod, 'BOUNDED', [])},
    }
    ev = {'property': PID, 'tier': TIER, 'seed': SEED, 'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [f'known finding, not suppressed for other inputs: {k}' for k in known],
          'violations': len(violations), 'wall_s': round(time.time() - T0, 2)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', PID + '.json'), 'w'), indent=1)
    for l in lost: print('note: not reached by the deductive layer:', l[:300])
    print(f"{PID}: {discharged}/{obligations} obligations discharged, {cov['evaluations']} contract evaluations, {ev['wall_s']} s")
    if new or crashed:
        print(f'VIOLATION property={PID} replay={rep}'); return 1
    if failed:
        print(f'VIOLATION property={PID} replay={rep} no-failing-input-found'); return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
