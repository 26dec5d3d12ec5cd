ID="c02-cat-window"; PROPERTY="C02"
NEEDS="a reference exactly 32768 bytes back, as compressors other than zlib make, given to the cat tool"
BREAKS="the tool keeps a window of 32767 bytes, so the farthest distance is refused (or answered from nowhere)"
EDITS=[("rezippers/src/cat.rs", "CircularBuffer::new()", "CircularBuffer::with_capacity(i16::max_value() as u16)")]
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
timeout 250 cargo build -q --offline -p rezippers || exit 3
python3 - "$d" <<PY
import sys, subprocess, zlib
d = sys.argv[1]
first = bytes((i * 7 + i // 251) % 256 for i in range(32768))
raw = b"\\\\x00" + (32768).to_bytes(2, "little") + (32768 ^ 0xffff).to_bytes(2, "little") + first
bits = [1, 1, 0] + [0, 0, 0, 0, 0, 0, 1] + [1, 1, 1, 0, 1] + [1] * 13 + [0] * 7
tail = bytearray((len(bits) + 7) // 8)
for i, b in enumerate(bits):
    tail[i // 8] |= b << (i % 8)
raw += bytes(tail)
want = first + first[:3]
assert zlib.decompress(raw, -15) == want
open(d + "/in.gz", "wb").write(b"\\\\x1f\\\\x8b\\\\x08" + bytes(6) + b"\\\\xff" + raw + zlib.crc32(want).to_bytes(4, "little") + len(want).to_bytes(4, "little"))
r = subprocess.run([d + "/target/debug/rezippers", "cat", d + "/in.gz"], stdout=subprocess.PIPE)
sys.exit(0 if r.returncode == 0 and r.stdout == want else 1)
PY
'''
