ID="c02-stdin-limit"; PROPERTY="C02"
NEEDS="more than 16 MiB of compressed data, on standard input"
BREAKS="what lies behind the first 16 MiB is not read"
EDITS=[("rezippers/src/main.rs", "Box::new(io::stdin()) as Box<dyn Read>", "Box::new(io::stdin().take(1 << 24)) as Box<dyn Read>")]
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUST_BACKTRACE=0
timeout 250 cargo build -q --offline -p rezippers || exit 3
python3 - "$d" <<PY
import sys, subprocess
d = sys.argv[1]
content = bytes(range(256)) * 70000
raw = b""
for i in range(0, len(content), 65535):
    c = content[i:i + 65535]
    raw += bytes([1 if i + 65535 >= len(content) else 0]) + len(c).to_bytes(2, "little") + (len(c) ^ 0xffff).to_bytes(2, "little") + c
gz = bytes([0x1f, 0x8b, 8]) + bytes(6) + bytes([255]) + raw + bytes(8)
r = subprocess.run([d + "/target/debug/rezippers", "cat"], input=gz, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
sys.exit(0 if r.returncode == 0 and r.stdout == content else 1)
PY
'''
