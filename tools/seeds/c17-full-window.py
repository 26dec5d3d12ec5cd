ID="c17-full-window"; PROPERTY="C17"
NEEDS="a content whose rolling sum never meets the boundary condition for 65535 bytes on end"
BREAKS="the block is 65536 bytes long, which its 16-bit length holds as 0"
EDITS=[("rezippers/src/zero.rs","for pos in 0..(RSYNC_MAX - RSYNC_MIN) {","for pos in 0..=(RSYNC_MAX - RSYNC_MIN) {")]
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
timeout 250 cargo build -q --offline -p rezippers || exit 3
python3 - "$d" <<PY
import sys, gzip, subprocess
d = sys.argv[1]
content = b"\\x01" + bytes(8191)
content = content * 20
open(d + "/in.gz", "wb").write(gzip.compress(content))
r = subprocess.run([d + "/target/debug/rezippers", "zero", d + "/in.gz"], stdout=subprocess.PIPE)
try:
    ok = r.returncode == 0 and gzip.decompress(r.stdout) == content
except Exception as e:
    print(e)
    ok = False
sys.exit(0 if ok else 1)
PY
'''
