ID="c19-long-trees"; PROPERTY="C19"
NEEDS="a dynamic block whose trees take more than 1024 bits to describe"
BREAKS="the digits behind the 1024th are left out"
EDITS=[("lib/src/bit.rs", """        for bit in self.iter() {
            write!(f, "{}", if bit { "1" } else { "0" })?;
        }
        Ok(())""", """        let mut left = 1024;
        for bit in self.iter() {
            if left == 0 {
                return write!(f, "...");
            }
            left -= 1;
            write!(f, "{}", if bit { "1" } else { "0" })?;
        }
        Ok(())""")]
HEAD='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUST_BACKTRACE=0
timeout 250 cargo build -q --offline -p rezippers || exit 3
python3 - "$d" <<PY
import sys, subprocess
d = sys.argv[1]
def pack(bits):
    o = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        o[i // 8] |= b << (i % 8)
    return bytes(o)
def stored(c, last=0):
    return bytes([last]) + len(c).to_bytes(2, "little") + (len(c) ^ 0xffff).to_bytes(2, "little") + c
def dump(raw):
    open(d + "/in.gz", "wb").write(b"\\\\x1f\\\\x8b\\\\x08" + bytes(6) + b"\\\\xff" + raw + bytes(8))
    r = subprocess.run([d + "/target/debug/rezippers", "dump", d + "/in.gz"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode, r.stdout.decode()
'''
DEMO=HEAD+'''
def num(n, k): return [n >> i & 1 for i in range(k)]
def code(n, k): return [n >> (k - 1 - i) & 1 for i in range(k)]
order = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]
lens = [8] * 226 + [9] * 60 + [1, 1]
trees = num(29, 5) + num(1, 5) + num(15, 4) + sum((num(4 if s < 16 else 0, 3) for s in order), []) + sum((code(n, 4) for n in lens), [])
raw = pack([1, 0, 1] + trees + code(452 + 30, 9))
rc, out = dump(raw)
want = "block 0:\\n - dynamic huffman: BitVec: %d: %s\\n" % (len(trees), "".join(map(str, trees)))
sys.exit(0 if rc == 0 and out == want else 1)
PY
'''
