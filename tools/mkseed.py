#!/usr/bin/env python3
"""mkseed.py <id> <property> <crate> : write /verif/seeded/<id> from the change
currently in the scratch tree $VF_SEEDTREE (default /tmp/seedtree)."""
import sys, os, subprocess, json, shutil
V='/verif'
def make(id, prop, needs, breaks, main=None, deps='saber = { path = "REPO/saber-rust" }', sh=None, tree='/tmp/seedtree', profile=''):
    d=os.path.join(V,'seeded',id); os.makedirs(d,exist_ok=True)
    p=subprocess.run(['git','-C',tree,'diff'],capture_output=True,text=True).stdout
    assert p.strip(), 'no change'
    open(d+'/patch.diff','w').write(p)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if main:
        open(d+'/main.rs','w').write(main)
        toml='[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'+deps.replace('REPO','$PWD')+'\n'+profile+'\n[workspace]\n'
        sh='''#!/bin/bash
# cwd: the repository.  Exit 0 when the property holds, nonzero when it does not.
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
%sEOF
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
(cd "$d" && CARGO_TARGET_DIR="$d/t" cargo run --release --offline -q)
''' % toml
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
    print('wrote',d)
