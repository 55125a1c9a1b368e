#!/usr/bin/env python3
"""inst.py <banyan crate> <target> <0|1>: copy of the crate for the concurrency check.

1: compiled against schedstd instead of std, so that std's locks and atomics are scheduling points as well.
0: as it is. Files are only touched if their content changes, so that builds stay incremental."""
import os, sys
src, dst, on = sys.argv[1], sys.argv[2], sys.argv[3] == '1'
want = {}
def add(rel):
    with open(os.path.join(src, rel), 'rb') as f:
        want[rel] = f.read()
add('Cargo.toml')
for extra in ('build.rs', 'README.md'):
    if os.path.exists(os.path.join(src, extra)):
        add(extra)
for d, ds, fs in os.walk(os.path.join(src, 'src')):
    for f in fs:
        add(os.path.relpath(os.path.join(d, f), src))
if on:
    want['Cargo.toml'] = want['Cargo.toml'].replace(b'[dependencies]\n', b'[dependencies]\nschedstd = { path = "../../schedstd" }\n', 1)
    want['src/lib.rs'] += b'\nextern crate schedstd as std;\n'
for d, ds, fs in os.walk(dst):
    for f in fs:
        rel = os.path.relpath(os.path.join(d, f), dst)
        if rel not in want:
            os.remove(os.path.join(d, f))
for rel, data in want.items():
    p = os.path.join(dst, rel)
    try:
        if open(p, 'rb').read() == data:
            continue
    except OSError:
        pass
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data)
