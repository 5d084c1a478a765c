#!/usr/bin/env python3
"""mkseed.py SPEC.py: turn seed specifications (id, property, needs, breaks, edits, demo source)
into /verif/seeded/<id>/ (patch.diff against /repo HEAD, demo.sh, demo crate, meta.json)."""
import json, os, subprocess, sys, difflib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when the demonstration fails
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
cp -r "$D/demo" "$T/demo"
[ -f "$T/demo/Cargo.lock" ] || cp /repo/Cargo.lock "$T/demo/Cargo.lock"
cd "$T/demo" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cargo run --offline --quiet; R=$?
cd / && find "$T" -delete
exit $R
'''
DEPS = {'core': 'hugr-core = { path = "/repo/hugr-core" }', 'corefull': 'hugr-core = { path = "/repo/hugr-core", features = ["declarative", "zstd"] }', 'model': 'hugr-model = { path = "/repo/hugr-model" }', 'passes': 'hugr-passes = { path = "/repo/hugr-passes" }',
        'json': 'serde_json = "1"', 'semver': 'semver = "1"', 'ascent': 'ascent = "0.8.0"', 'of': 'ordered-float = "*"', 'itertools': 'itertools = "0.14"'}
def seed(id, prop, needs, breaks, edits, main, deps=('core',)):
    d = os.path.join(ROOT, 'seeded', id); os.makedirs(os.path.join(d, 'demo/src'), exist_ok=True)
    out = []; files = {}
    for f, old, new in edits:
        s = files.get(f) or open(os.path.join('/repo', f)).read()
        if s.count(old) != 1: raise SystemExit(f'{id}: {f}: {s.count(old)} matches of {old!r}')
        files[f] = s.replace(old, new)
    for f, t in files.items():
        a = open(os.path.join('/repo', f)).read().splitlines(True); b = t.splitlines(True)
        out += [f'diff --git a/{f} b/{f}\n'] + list(difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(''.join(out))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo/Cargo.toml'), 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[dependencies]\n' + '\n'.join(DEPS[x] for x in deps) + '\n')
    open(os.path.join(d, 'demo/src/main.rs'), 'w').write(main.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')], check=True)
    print('wrote', id)
if __name__ == '__main__':
    for p in sys.argv[1:]: exec(open(p).read(), {'seed': seed})
