#!/usr/bin/env python3
"""mutate.py gen OUT.json              enumerate one-token mutants of /repo's non-test code
mutate.py run OUT.json W [FILTER]   filter (compile + stable tests) and check them with W workers; results in OUT.json.res (one JSON per line)
Workers use scratch copies under /tmp/mw<N>."""
import json, os, re, subprocess, sys, shutil, threading, queue, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"lib/src/bit.rs": ["C07", "C01", "C03"], "lib/src/circles.rs": ["C08", "C02"], "lib/src/code_tree.rs": ["C06"], "lib/src/gzip.rs": ["C15"],
       "lib/src/huffman.rs": ["C05", "C03", "C01"], "lib/src/parse.rs": ["C03", "C04", "C01"], "lib/src/serialise.rs": ["C01", "C02"],
       "lib/src/serialise_trace.rs": ["C10"], "lib/src/filter.rs": ["C18"], "lib/src/trace.rs": ["C09"], "lib/src/tracer.rs": ["C09"],
       "lib/src/all_refs.rs": ["C11", "C12"], "lib/src/back_map.rs": ["C12", "C11"], "lib/src/obscure.rs": ["C12", "C11"], "lib/src/iters.rs": ["C13"],
       "lib/src/picker.rs": ["C13"], "lib/src/wams.rs": ["C13", "C14"], "lib/src/technique.rs": ["C13", "C14", "C12", "C09"], "lib/src/lookahead.rs": ["C14", "C13", "C09"],
       "lib/src/lib.rs": ["C14", "C09", "C11", "C01"], "rezippers/src/zero.rs": ["C17"], "rezippers/src/cat.rs": ["C02"], "rezippers/src/dump.rs": ["C19"], "rezippers/src/main.rs": ["C02", "C17", "C19"]}
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"(?<![<=\-:&|])<(?![<=])(?= )", ["<="]), (r"(?<= )>(?![>=])", [">="]),
       (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]),
       (r"<<", [">>"]), (r">>", ["<<"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
       (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]), (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]), (r"\.\.=", [".."]), (r"(?<![.])\.\.(?![.=])", ["..="]),
       (r"\bis_some\b", ["is_none"]), (r"\bis_none\b", ["is_some"]), (r"\bwrapping_add\b", ["wrapping_sub"]), (r"\bif (?!let)(?=[^{]*\{)", ["if !"]),
       (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"(?<= )%(?= )", ["/"]), (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"])]
def sh(c, t=900, **k):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""
def live(src):
    """spans of non-test, non-comment code"""
    m = re.search(r"#\[cfg\(test\)\]\s*mod \w+", src)
    return len(src) if not m else m.start()
def gen(out):
    ms = []
    for f in MAP:
        src = open("/repo/" + f).read()
        end = live(src)
        pos = 0
        for line in src.split("\n"):
            st, pos = pos, pos + len(line) + 1
            if st >= end: break
            t = line.strip()
            if not t or t.startswith(("//", "use ", "#", "pub mod", "mod ", "extern", "impl", "pub struct", "struct", "where")): continue
            code = line.split("//")[0]
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    for r in reps:
                        ms.append((f, st + m.start(), m.group(0), r))
            for m in re.finditer(r"\b(\d[\d_]*|0x[0-9a-f_]+|0b[01_]+)(?=(u8|u16|u32|usize|u64|\b))", code):
                try: v = int(m.group(1).replace("_", ""), 0)
                except ValueError: continue
                if re.search(r"\[u\d+; *$|u\d*$", code[:m.start()]): continue
                ms.append((f, st + m.start(1), m.group(1), str(v + 1)))
                if v > 0: ms.append((f, st + m.start(1), m.group(1), str(v - 1)))
            if re.match(r"\s*[a-z_\.\*]+.*;\s*$", code) and not re.match(r"\s*(let|return|use|const|static|type|mod|pub|fn)\b", code) and "{" not in code and "}" not in code:
                ms.append((f, st, line, ""))
    ms = [dict(id=i, file=f, at=a, old=o, new=n, line=open("/repo/" + f).read()[:a].count("\n") + 1) for i, (f, a, o, n) in enumerate(ms)]
    json.dump(ms, open(out, "w"))
    print(len(ms))
    for f in MAP: print(f, sum(1 for m in ms if m["file"] == f))
def worker(n, q, out, lock):
    W = "/tmp/mw%d" % n
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh("mkdir %s/repo && cp -a /repo/. %s/repo/ && mkdir %s/verif && cd %s && cp -a check.py props.py vx overlay harness known_findings.txt MANIFEST.json %s/verif/ && mkdir %s/verif/build && cp -a build/target build/htarget build/rtarget %s/verif/build/" % (W, W, W, V, W, W, W))
    sh("sed -i 's#/repo/lib#%s/repo/lib#' %s/verif/harness/Cargo.toml && sed -i 's/\"--num-threads\", \"8\"/\"--num-threads\", \"3\"/' %s/verif/check.py" % (W, W, W))
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/repo/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER="timeout -k 5 60")
    venv = dict(os.environ, VP_REPO=W + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VP_HUNT="20")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = W + "/repo/" + m["file"]
        src = open("/repo/" + m["file"]).read()
        assert src[m["at"]:].startswith(m["old"])
        open(p, "w").write(src[:m["at"]] + m["new"] + src[m["at"] + len(m["old"]):])
        r = dict(m)
        rc, o = sh("cd %s/repo && timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 4 > ../log.txt 2>&1; python3 /opt/vp/results.py ../out.json cargo:../log.txt" % W, 400, env=env)
        try:
            passed = set(json.load(open(W + "/out.json"))["passed"])
        except Exception:
            passed = set()
        if os.path.exists(W + "/out.json"): os.remove(W + "/out.json")
        if stable - passed:
            r["res"] = "tests" if passed else "compile"
        else:
            r["checks"] = {}
            for c in MAP[m["file"]]:
                rc, o = sh("cd %s/verif && python3 check.py %s" % (W, c), 900, env=venv)
                r["checks"][c] = (rc, [l[:200] for l in o.strip().split("\n")[-4:]])
                if rc == 1: break
            r["res"] = "killed" if any(x[0] == 1 for x in r["checks"].values()) else "SURVIVED"
        open(p, "w").write(src)
        with lock:
            open(out, "a").write(json.dumps(r) + "\n")
    shutil.rmtree(W, ignore_errors=True)
def run(src, w, flt=None):
    ms = json.load(open(src))
    done = set()
    if os.path.exists(src + ".res"):
        done = {json.loads(l)["id"] for l in open(src + ".res")}
    ms = [m for m in ms if m["id"] not in done and (not flt or re.search(flt, m["file"]))]
    random.Random(7).shuffle(ms)
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(i, q, src + ".res", lock)) for i in range(int(w))]
    [t.start() for t in ts]; [t.join() for t in ts]
if sys.argv[1] == "gen": gen(sys.argv[2])
else: run(*sys.argv[2:])
