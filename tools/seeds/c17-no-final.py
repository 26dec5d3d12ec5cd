ID="c17-no-final"; PROPERTY="C17"
NEEDS="a content whose last block is exactly as long as the longest there is"
BREAKS="a block of 65535 bytes is taken to be cut short by the limit, so more must follow: the last one is not flagged final"
EDITS=[("rezippers/src/zero.rs","        if reader.peek().is_some() {\n            // unc","        if buf.len() == RSYNC_MAX || reader.peek().is_some() {\n            // unc")]
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
timeout 250 cargo build -q --offline -p rezippers || exit 3
python3 - "$d" <<PY
import sys, gzip, subprocess
d = sys.argv[1]
bad = 0
for n in (65534, 65535, 65536, 131070):
    content = ((b"\\x01" + bytes(8191)) * 20)[:n]
    open(d + "/in.gz", "wb").write(gzip.compress(content))
    r = subprocess.run([d + "/target/debug/rezippers", "zero", d + "/in.gz"], stdout=subprocess.PIPE)
    try:
        ok = r.returncode == 0 and gzip.decompress(r.stdout) == content
    except Exception as e:
        print(e)
        ok = False
    bad += not ok
sys.exit(1 if bad else 0)
PY
'''
