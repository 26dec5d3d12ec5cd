ID="c19-far"; PROPERTY="C19"
NEEDS="a reference exactly 32768 bytes back"
BREAKS="the distance is listed as -32768"
EDITS=[("rezippers/src/dump.rs", "                    r.dist,\n", "                    r.dist as i16,\n")]
HEAD='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUST_BACKTRACE=0
timeout 250 cargo build -q --offline -p rezippers || exit 3
python3 - "$d" <<PY
import sys, subprocess
d = sys.argv[1]
def pack(bits):
    o = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        o[i // 8] |= b << (i % 8)
    return bytes(o)
def stored(c, last=0):
    return bytes([last]) + len(c).to_bytes(2, "little") + (len(c) ^ 0xffff).to_bytes(2, "little") + c
def dump(raw):
    open(d + "/in.gz", "wb").write(b"\\\\x1f\\\\x8b\\\\x08" + bytes(6) + b"\\\\xff" + raw + bytes(8))
    r = subprocess.run([d + "/target/debug/rezippers", "dump", d + "/in.gz"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode, r.stdout.decode()
'''
DEMO=HEAD+'''
raw = stored(bytes(i % 251 for i in range(32768))) + pack([1, 1, 0] + [0, 0, 0, 0, 0, 0, 1] + [1, 1, 1, 0, 1] + [1] * 13 + [0] * 7)
rc, out = dump(raw)
sys.exit(0 if rc == 0 and out == "block 0:\\\\n - uncompressed: 32768 bytes\\\\nblock 1:\\\\n - fixed huffman:\\\\n    - backref: 32768 byte(s) back, 3 bytes long\\\\n" else 1)
PY
'''
