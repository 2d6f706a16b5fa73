#!/usr/bin/env python3
"""Writes Rust planted changes from a spec (S(id=,property=,edits=[(file under rust/crates, old, new)],demo=main body,needs=,breaks=))
into /verif/seeded, after checking in a copy of /repo that the demonstration passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/sh
# Builds the crates from the current tree, offline, with a program that uses them.
here=$(cd "$(dirname "$0")" && pwd)
top=$(mktemp -d) || exit 2
trap 'rm -rf "$top"' EXIT
for c in wasmrs wasmrs-rx wasmrs-runtime; do
  mkdir -p "$top/$c"; cp -r "rust/crates/$c/src" "$top/$c/src"; : > "$top/$c/README.md"
  {
    printf '[package]\nname = "%s"\nversion = "0.2.0"\nedition = "2021"\n[dependencies]\n' $c
    printf 'futures = { version = "0.3", default-features = false, features = ["alloc"] }\nbytes = "1"\nparking_lot = "0.12"\ntracing = "0.1"\npin-project-lite = "0.2"\ntokio = { version = "1", features = ["sync", "rt"] }\ndashmap = { path = "../dashmap" }\n'
    [ $c = wasmrs-runtime ] || printf 'wasmrs-runtime = { path = "../wasmrs-runtime" }\n'
    [ $c != wasmrs ] || printf 'wasmrs-rx = { path = "../wasmrs-rx" }\nwasmrs-codec = { path = "../wasmrs-codec" }\n'
  } > "$top/$c/Cargo.toml"
done
for c in dashmap wasmrs-codec; do
  mkdir -p "$top/$c/src"; cp "$here/$c.rs" "$top/$c/src/lib.rs"
  printf '[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n' $c $([ $c = dashmap ] && echo 5.4.0 || echo 0.2.0) > "$top/$c/Cargo.toml"
done
mkdir -p "$top/demo/src"; cp "$here/demo.rs" "$top/demo/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nwasmrs = { path = "../wasmrs" }\nwasmrs-rx = { path = "../wasmrs-rx" }\nfutures = { version = "0.3", default-features = false, features = ["alloc"] }\nbytes = "1"\n' > "$top/demo/Cargo.toml"
printf '[workspace]\nresolver = "2"\nmembers = ["wasmrs", "wasmrs-rx", "wasmrs-runtime", "demo"]\nexclude = ["dashmap", "wasmrs-codec"]\n' > "$top/Cargo.toml"
cd "$top" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" PATH="${HOME:-/root}/.cargo/bin:/root/.cargo/bin:$PATH"
unset CARGO_TARGET_DIR
timeout 280 cargo run --offline -q -p demo
'''
SEEDS = []
class S:
    def __init__(self, **k):
        self.__dict__.update(k)
        SEEDS.append(self)
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
for s in SEEDS:
    if only and s.id not in only:
        continue
    w = tempfile.mkdtemp()
    try:
        d = os.path.join(w, 'r')
        subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        out = os.path.join(root, 'seeded', s.id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.rs'), 'w').write('#![allow(unused_imports)]\nuse bytes::Bytes;\nuse wasmrs::*;\nfn main() {\n' + s.demo.strip('\n') + '\n}\n')
        for c in ('dashmap', 'wasmrs-codec'):
            shutil.copy(os.path.join(root, 'rust/stubs', c, 'src/lib.rs'), os.path.join(out, c + '.rs'))
        ok = subprocess.run([os.path.join(out, 'demo.sh')], cwd=d, capture_output=True, text=True)
        for f, old, new in s.edits:
            p = os.path.join(d, 'rust/crates', f)
            t = open(p).read()
            assert t.count(old) == 1, (s.id, f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        bad = subprocess.run([os.path.join(out, 'demo.sh')], cwd=d, capture_output=True, text=True)
        build = '101' if bad.returncode == 101 and 'could not compile' in bad.stderr else ''
        print(s.id, 'clean', ok.returncode, 'changed', bad.returncode, build, (bad.stderr.strip().split('\n') or [''])[-2:])
        if ok.returncode != 0 or bad.returncode == 0 or build:
            print(ok.stderr[-600:], bad.stderr[-600:])
            shutil.rmtree(out)
            continue
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s.property, 'needs': s.needs, 'what_it_breaks': s.breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(w)
