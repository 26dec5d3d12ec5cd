#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's current tree.

1. vx extracts the functions from /repo and merges the contracts of /verif/overlay.
2. Verus checks every obligation of the modules the property depends on.
3. The native harness (real code, independent oracles) looks for a failing input: it exercises
   the assumed library contracts on every run, and turns a failed obligation into an input.
"""
import json, os, re, subprocess, sys, time, fcntl, shutil, signal, tempfile, resource

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from props import PROPS

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", HOME=os.environ.get("HOME", "/root"),
           RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")


def sh(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV, cwd=cwd)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace"), "timeout"


def run_harness(exe, seed, budget, replay, env):
    """several processes with seeds of their own; the first one that finds something ends the others.
    Gives (exit code, stdout, stderr, seed, answer): the answer of the one that failed, or the sum."""
    n = max(1, min(6, (os.cpu_count() or 2) - 1))
    tmp = tempfile.mkdtemp(prefix="h", dir=B)
    ps = []
    try:
        for k in range(n):
            d = os.path.join(tmp, str(k))
            os.makedirs(d)
            s = seed + 1000003 * k
            fo, fe = open(d + "/out", "wb"), open(d + "/err", "wb")
            q = subprocess.Popen([exe, str(s), str(budget), d + "/replay"], stdout=fo, stderr=fe, env=dict(env, TMPDIR=d), start_new_session=True,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30)))
            ps.append((q, d, s))
        end = time.time() + budget + 330
        open_, done, hit = list(ps), [], None
        while open_ and not hit and time.time() < end:
            time.sleep(0.05)
            for x in list(open_):
                rc = x[0].poll()
                if rc is None:
                    continue
                open_.remove(x)
                o = open(x[1] + "/out", errors="replace").read()
                e = open(x[1] + "/err", errors="replace").read()
                try:
                    h = json.loads(o.strip().splitlines()[-1])
                except (ValueError, IndexError):
                    h = {}
                done.append((rc, o, e, x[2], h))
                if h.get("failure") or not h and rc not in (0, -9):
                    hit = done[-1]
                    if os.path.exists(x[1] + "/replay"):
                        shutil.copyfile(x[1] + "/replay", replay)
                    break
        if hit:
            return hit
        if not done:
            return 124, "", "timeout", seed, {}
        first = min(done, key=lambda t: t[3])
        h = dict(first[4])
        h["evaluations"] = sum(t[4].get("evaluations") or 0 for t in done)
        # cases of different seeds may coincide where a harness enumerates: the largest count is safe
        h["distinct_nontrivial"] = max(t[4].get("distinct_nontrivial") or 0 for t in done)
        h["known"] = sorted({k for t in done for k in t[4].get("known") or []})
        h["processes"] = len(done)
        return first[0], first[1], first[2], first[3], h
    finally:
        for q, d, s in ps:
            if q.poll() is None:
                try:
                    os.killpg(q.pid, signal.SIGKILL)
                except OSError:
                    pass
                q.wait()
        shutil.rmtree(tmp, ignore_errors=True)


def build_vx():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        rc, o, e = sh(["cargo", "build", "--offline", "--release", "--locked"], 600, dict(ENV, CARGO_TARGET_DIR=B + "/target"), V + "/vx")
    if rc != 0:
        sys.stderr.write(e[-4000:])
        raise SystemExit("cannot build the extractor")


def build_harness(name):
    """None when it cannot be built (a renamed item of /repo): then only the proof speaks"""
    with open(os.path.join(B, ".hlock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        env = dict(ENV, CARGO_TARGET_DIR=B + "/htarget", RUSTFLAGS="--cfg rezip_verif --cap-lints allow")
        rc, o, e = sh(["cargo", "build", "--offline", "--release", "--bin", name], 600, env, V + "/harness")
    if rc != 0:
        sys.stderr.write(e[-3000:] + "\nharness does not build\n")
        return None
    return B + "/htarget/release/" + name


class Proof:
    def __init__(self, pid, cfg, tier):
        self.pid, self.cfg = pid, cfg
        self.dir = os.path.join(B, "run", pid)
        os.makedirs(self.dir, exist_ok=True)
        self.undecided, self.failed, self.notes = {}, [], []
        self.external = set()
        self.cmd = ""
        self.smt_ms = 0
        self.funcs, self.report, self.trusted = [], {}, []
        self.tier = tier
        self.gen = os.path.join(self.dir, "gen.rs")

    def in_scope(self, key):
        inc = self.cfg.get("scope")
        exc = self.cfg.get("exclude", [])
        if any(re.fullmatch(x, key) for x in exc):
            return False
        return inc is None or any(re.fullmatch(x, key) for x in inc)

    def extract(self):
        rep = os.path.join(self.dir, "rep.json")
        cmd = [B + "/target/release/vx", "--repo", REPO, "--overlay", V + "/overlay", "--out", self.gen, "--report", rep,
               "--only", ",".join(self.cfg["modules"])]
        if self.external:
            cmd += ["--external", ",".join(sorted(self.external))]
        rc, o, e = sh(cmd, 60)
        if rc != 0:
            return "extraction failed: " + (e or o)[-400:]
        self.report = json.load(open(rep))
        if self.report["errors"]:
            return "extraction: " + "; ".join(self.report["errors"])
        # clauses tagged with properties: this one's are kept, those it only leans on are kept and marked
        # (failing one leaves this property undecided), the others are dropped
        lines = open(self.gen).read().split("\n")
        self.leaning = set()
        for i, l in enumerate(lines):
            m = re.search(r"//@ ([A-Z0-9? ]+)$", l)
            if m:
                tags = m.group(1).split()
                if self.pid + "?" in tags:
                    self.leaning.add(i + 1)
                elif self.pid not in tags:
                    lines[i] = ""
        open(self.gen, "w").write("\n".join(lines))
        return None

    def keys(self):
        """line -> key of the function that starts there"""
        out = []
        mod = []
        inside = False
        for n, l in enumerate(open(self.gen), 1):
            m = re.search(r"/\*@@ (.*?) \*/", l)
            if m:
                out.append((n, m.group(1)))
            if m or "/*@@end*/" in l:
                inside = "/*@@end*/" not in l[m.end() if m else 0:]
                if m or not re.search(r"\bfn\b", l):
                    continue
            if inside and not re.match(r"\s*pub mod (\w+) \{|\} // mod", l):
                # items nested in a function belong to it
                continue
            m = re.match(r"\s*pub mod (\w+) \{", l)
            if m:
                mod = [m.group(1)]
            elif l.startswith("} // mod"):
                mod = []
            m = re.search(r"\b(?:proof|axiom) fn (\w+)", l)
            if m:
                out.append((n, "%s::lemma %s" % (mod[0] if mod else "root", m.group(1))))
            elif re.match(r"\s*(pub )?(open |closed )?spec fn (\w+)", l):
                m = re.search(r"spec fn (\w+)", l)
                out.append((n, "%s::spec %s" % (mod[0] if mod else "root", m.group(1))))
            elif re.match(r"\s*(pub )?(exec )?(fn|const) (\w+)", l):
                m = re.match(r"\s*(?:pub )?(?:exec )?(?:fn|const) (\w+)", l)
                out.append((n, "%s::%s" % (mod[0] if mod else "root", m.group(1))))
        return out

    @staticmethod
    def key_at(keys, line):
        k = None
        for n, x in keys:
            if n > line:
                break
            k = x
        return k

    def verus(self, extra=[], only=None):
        env = dict(ENV)
        env.pop("RUSTUP_TOOLCHAIN", None)
        cmd = ["verus", "--crate-type", "lib", self.gen, "--output-json", "--time-expanded", "--num-threads", "8",
               "--multiple-errors", "4", "--triggers-mode", "silent"] + extra
        for m in only or (PRELUDE + self.cfg["verify"]):
            cmd += ["--verify-root"] if m == "root" else ["--verify-module", m]
        cmd += ["--", "--error-format=json"]
        if not only:
            self.cmd = " ".join(cmd)
        for again in (1, 0):
            rc, o, e = sh(cmd, 700, env, self.dir)
            if "panicked at" not in e or not again:
                break  # a panic of the verifier itself (a solver process that died, say) says nothing about the code
        errs = []
        for l in e.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("spans"):
                for x in m["spans"]:
                    # inside a macro of a library: the place that calls it
                    y = x
                    while not y["file_name"].endswith("gen.rs") and y.get("expansion"):
                        y = y["expansion"]["span"]
                    if y is not x and y["file_name"].endswith("gen.rs"):
                        x.update(file_name=y["file_name"], line_start=y["line_start"], line_end=y["line_end"])
                errs.append(m)
        try:
            d = json.loads(o[o.index("{"):])
        except ValueError:
            d = {}
        return rc, d, errs, e

    def run(self):
        base = json.load(open(V + "/overlay/SHAPES.json"))
        for attempt in range(8):
            bad = self.extract()
            if bad:
                self.undecided["*"] = bad
                return
            rc, d, errs, raw = self.verus()
            keys = self.keys()
            vr = d.get("verification-results") or {}
            hard = (not vr) or vr.get("encountered-vir-error") or ("errors" not in vr) or (rc != 0 and not vr.get("errors") and vr.get("verified", 0) == 0)
            if not hard:
                break
            # compile / unsupported-feature error: set the function aside (it becomes undecided) and go on
            found = set()
            for m in errs:
                for s in m["spans"]:
                    if s["file_name"].endswith("gen.rs") and (s.get("is_primary") or len(m["spans"]) == 1):
                        k = self.key_at(keys, s["line_start"])
                        if k and k not in self.external and " " not in k.split("::", 1)[1].split("::")[0].replace("trait ", "").replace(" for ", ""):
                            found.add(k)
                            self.undecided[k] = "not accepted by the verifier's front end: " + m["message"][:200]
            if not found and not errs and "panicked at" in raw and attempt < 7:
                # the verifier itself falls over something and does not say what: set aside the bodies that are new
                pinned = json.load(open(V + "/overlay/HASHES.json"))
                found = {k for k, h in self.report["hashes"].items() if pinned.get(k) != h} - set(self.external)
                for k in found:
                    self.undecided[k] = "the verifier panics on the crate with the new text of this function"
            if not found or attempt == 7:
                self.undecided["*"] = "the generated crate is not accepted: " + "; ".join(m["message"][:160] for m in errs[:3]) + ("" if errs else (raw[raw.find("panicked at"):][:300] if "panicked at" in raw else raw[-300:]))
                return
            self.external |= found
        self.smt_ms = d["times-ms"]["smt"]["smt-run"]
        shapes = self.report["shapes"]
        lost = {x.split(": ")[0] for x in self.report["lost"] + self.report["hints_lost"]}
        for x in self.report["lost"]:
            k = x.split(": ")[0]
            self.undecided.setdefault(k, "lost: " + x)
        fails, leans = {}, set()
        total_fails, part_fails = set(), set()
        gen_lines = open(self.gen).read().split("\n")
        for m in errs:
            here = [s for s in m["spans"] if s["file_name"].endswith("gen.rs")]
            prim = [s for s in here if s.get("is_primary")] or here
            if not prim:
                continue
            ks = [self.key_at(keys, s["line_start"]) for s in prim]
            # a failed postcondition points at the ensures clause; both are in the same function or trait
            other = [self.key_at(keys, s["line_start"]) for s in here if not s.get("is_primary")]
            k = ks[0]
            if k is None:
                continue
            text = m.get("rendered") or m["message"]
            fails.setdefault(k, []).append((m["message"], text, other))
            if self.cfg.get("totality"):
                # a property about panics and endless loops: what a function computes is only leaned on
                # (well-formedness, on which no panic in others depends, is not)
                lines = [gen_lines[n - 1] for s in here for n in range(s["line_start"], min(s["line_end"], s["line_start"] + 2) + 1)]
                total = re.search(r"overflow|underflow|decreases|terminat|out of bounds|division|shift", m["message"]) \
                    or ("precondition" in m["message"] and not any(x and "::lemma " in x for x in other)) \
                    or (re.search(r"postcondition|invariant", m["message"]) and any(re.search(r"\bwf\(|_wf\(", l) for l in lines))
                (total_fails if total else part_fails).add(k)
            if any(n in self.leaning for s in here for n in range(s["line_start"], s["line_end"] + 1) if s["line_end"] - s["line_start"] < 3):
                leans.add(k)
        leans |= part_fails - total_fails
        new_helpers = [k for k, s in self.report["functions"].items() if (s == "none" or k in self.external) and k not in base]
        for k, l in fails.items():
            if not self.in_scope(k):
                continue
            rl = all("rlimit" in m or "Resource limit" in m for m, _, _ in l)
            if rl:
                self.undecided[k] = "resource limit"
            elif k in leans or any(re.fullmatch(x, k) for x in self.cfg.get("soft", [])):
                self.undecided[k] = "an exact description this property only leans on no longer holds: " + l[0][0]
            elif k in lost:
                self.undecided[k] = "annotation anchors lost, proof not applicable to the new text"
            elif k in shapes and k in base and base[k] != shapes[k] and base[k].split(" shifts ")[0] == shapes[k].split(" shifts ")[0] \
                    and int(shapes[k].split(" shifts ")[1]) > int(base[k].split(" shifts ")[1]):
                # the verifier reasons about bits only through the lemmas the annotations call: a new shift is beyond them
                self.undecided[k] = "new shifts (%s -> %s), annotations no longer fit" % (base.get(k), shapes[k])
            elif k in shapes and (k not in base or base[k].split(" shifts ")[0] != shapes[k].split(" shifts ")[0]):
                self.undecided[k] = "loops or closures changed (%s -> %s), annotations no longer fit" % (base.get(k), shapes[k])
            elif new_helpers and any(re.search(r"\b%s\s*\(" % re.escape(h.split("::")[-1]), self.text_of(keys, k)) for h in new_helpers):
                self.undecided[k] = "calls a function without a contract"
            else:
                self.failed.append((k, l))
        # an obligation has failed when the solver gives up on it under other seeds too, and with more resources
        saved = set()
        mods = {k.split("::lemma ")[0].split("::spec ")[0].split("::")[0] for k, _ in self.failed}
        for retry in (1, 2):
            if not self.failed or not mods <= set(self.cfg["verify"]):
                break
            rc2, d2, errs2, _ = self.verus(["--rlimit", "30", "--smt-option", "smt.random_seed=%d" % retry, "--smt-option", "sat.random_seed=%d" % retry], sorted(mods))
            if not (d2.get("verification-results") or {}).get("verified"):
                break
            again = {self.key_at(keys, s["line_start"]) for m in errs2 for s in m["spans"] if s["file_name"].endswith("gen.rs") and (s.get("is_primary") or len(m["spans"]) == 1)}
            saved |= {k for k, _ in self.failed if k not in again}
            self.failed = [(k, l) for k, l in self.failed if k in again]
        # what was checked
        for mt in d["times-ms"]["smt"]["smt-run-module-times"]:
            for f in mt.get("function-breakdown", []):
                self.funcs.append((f["function"].replace("gen::", "", 1), f["mode:"] if "mode:" in f else "?", f["success"], f["time-micros"]))
        if saved:
            names = {k.split("::")[-1].split(" ")[-1] for k in saved}
            self.funcs = [(f[0], f[1], f[2] or f[0].split("::")[-1] in names, f[3]) for f in self.funcs]
            self.notes.append("discharged under another seed: " + ", ".join(sorted(saved)))
        for f in self.funcs:
            if not f[2] and not any(k.split("::")[-1].split(" ")[-1] == f[0].split("::")[-1] for k in fails):
                self.undecided[f[0]] = "a failed obligation that could not be located"
        text = open(self.gen).read()
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:/\*@@ (.*?) \*/)?\s*(?:pub )?(?:fn|struct|proof fn|axiom fn)\s+(\w+)|assume_specification.*?\[(.*?)\]|uninterp spec fn (\w+)|\baxiom fn (\w+)|\b(admit|assume)\(", text):
            n = m.group(1) or m.group(2) or m.group(3) or m.group(4) or m.group(5) or m.group(6)
            kind = "assumed contract" if m.group(1) or m.group(2) else "assume_specification" if m.group(3) else "uninterpreted" if m.group(4) else "axiom" if m.group(5) else "ASSUME"
            t = "%s: %s" % (kind, n)
            if t not in self.trusted:
                self.trusted.append(t)
        if not self.funcs:
            self.undecided["*"] = "nothing was verified"

    def text_of(self, keys, k):
        lines = open(self.gen).read().splitlines()
        ns = [n for n, x in keys if x == k]
        if not ns:
            return ""
        nxt = [n for n, _ in keys if n > ns[0]]
        return "\n".join(lines[ns[0] - 1:(nxt[0] - 1 if nxt else len(lines))])


def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build_vx()
    p = Proof(pid, cfg, tier)
    p.run()
    bad = bool(p.failed)
    und = {k: v for k, v in p.undecided.items() if k == "*" or p.in_scope(k)}
    budget = {"quick": cfg.get("quick_s", 8), "thorough": cfg.get("thorough_s", 180)}.get(tier, 8)
    if bad or und:
        budget = max(budget, int(os.environ.get("VP_HUNT", cfg.get("hunt_s", 60))))
    rdir = os.path.join(B, "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, pid + ".txt")
    if os.path.exists(replay):
        os.remove(replay)
    h = {}
    harness_note = "not built"
    exe = None
    pre = cfg.get("prepare")
    henv = dict(ENV)
    try:
        sys.path.insert(0, V + "/tools")
        import literals
        henv["VP_HOT"] = " ".join(literals.hot(REPO))[:20000]
    except Exception as x:  # only a dictionary for the generators
        sys.stderr.write("no dictionary: %s\n" % x)
    ok = True
    if pre == "zero":
        rc, o, e = sh(["cargo", "build", "--offline", "-p", "rezippers"], 600, dict(ENV, CARGO_TARGET_DIR=B + "/rtarget"), REPO)
        if rc != 0:
            ok = False
            sys.stderr.write(e[-2000:])
        henv["REZIPPERS"] = B + "/rtarget/debug/rezippers"
    if ok:
        exe = build_harness(pid.lower())
    if exe:
        rc, o, e, seed_used, h = run_harness(exe, seed, budget, replay, henv)
        if h:
            harness_note = "ran"
        elif rc not in (0, 124, -9):
            # died without an answer: a stack overflow or abort inside the real code
            h = {"failure": "the process died (exit %d)" % rc, "input": "seed %d" % seed_used}
            noted = open(replay).read() if os.path.exists(replay) else "property: %s\n" % pid
            open(replay, "w").write("%swhat failed: harness process died, exit %d\n%s\n%s\n" % (noted, rc, o[-2000:], e[-2000:]))
            harness_note = "died"
        seed_h = seed_used
    violations = 0
    lines = []
    for k in h.get("known") or []:
        listed = [l for l in open(V + "/known_findings.txt") if l.startswith("known: property=%s " % pid) and k in l]
        if listed:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k))
        else:
            h["failure"] = h.get("failure") or k
    if h.get("failure"):
        violations = 1
        with open(replay, "a") as f:
            f.write("command: VP_HOT='%s' %s %d %d %s\n" % (henv.get("VP_HOT", ""), exe, seed_h, budget, replay))
            for k, l in p.failed:
                f.write("failed obligation: %s: %s\n" % (k, l[0][0]))
        lines.append("found: %s" % str(h["failure"])[:300])
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
    elif bad:
        violations = 1
        with open(replay, "w") as f:
            f.write("property: %s\nno failing input found by the harness (%s, %s cases, %d s)\n" % (pid, harness_note, h.get("evaluations"), budget))
            f.write("checker: %s\n\n" % p.cmd)
            for k, l in p.failed:
                f.write("FAILED OBLIGATION in %s\n" % k)
                for m, t, other in l:
                    f.write(t + "\n")
        for k, l in p.failed:
            lines.append("failed obligation: %s: %s" % (k, l[0][0]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
    nobl = len(p.funcs)
    ndis = sum(1 for f in p.funcs if f[2])
    for k, v in und.items():
        lines.insert(0, "undecided by proof: %s: %s" % (k, v))
    cov = {
        "obligations": nobl,
        "discharged": ndis,
        "checker_cmd": p.cmd or "verus",
        "trusted_base": sorted(p.trusted),
        "back_end": "verus 0.2026.09.13.671956e, z3 4.12.5 (bundled); bit_vector and nonlinear queries included",
        "unit": "one obligation = one function or lemma verified by Verus (all its asserts, call preconditions, postconditions, overflow and bounds checks, termination)",
        "solver_ms": p.smt_ms,
        "functions_under_contract": sorted(k for k, s in (p.report.get("functions") or {}).items() if s == "contract" and k.split("::")[0] in cfg["verify"] and p.in_scope(k)),
        "functions_checked_without_own_contract": sorted(k for k, s in (p.report.get("functions") or {}).items() if s == "none" and k.split("::")[0] in cfg["verify"]),
        "slowest": [(f[0], f[3] // 1000) for f in sorted(p.funcs, key=lambda f: -f[3])[:5]],
        "rewrite_rules_applied": {k: len(v) for k, v in (p.report.get("rules") or {}).items()},
        "undecided_functions": und,
        "notes": p.notes,
        "bounded_companion": {"state": harness_note, "evaluations": h.get("evaluations"), "distinct_nontrivial": h.get("distinct_nontrivial"),
                              "rule": h.get("rule"), "samples": [s[:600] for s in (h.get("samples") or [])], "seconds": budget, "processes": h.get("processes"),
                              "note": "bounded search on the real code; never counted as proved"},
    }
    if h.get("evaluations") is not None:
        cov["evaluations"] = h["evaluations"]
        cov["distinct_nontrivial"] = h.get("distinct_nontrivial", 0)
        cov["rule"] = h.get("rule") or ""
        cov["samples"] = [s[:600] for s in (h.get("samples") or [])]
    level = "proof"
    if und:
        level = "exploration"
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": violations}
    if level == "exploration":
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", 0)
        cov.setdefault("rule", "")
        cov.setdefault("samples", [])
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    lines.insert(0, "%s: %d/%d obligations discharged, harness %s (%s cases), %.1f s" % (pid, ndis, nobl, harness_note, h.get("evaluations"), time.time() - t0))
    print("\n".join(lines))
    sys.exit(1 if violations else 0)


PRELUDE = ["vx::anyhow", "vx::iter", "vx::seqs", "vx::bits", "vx::byteorder", "vx::stdx"]

COMMON = [
    "the extractor vx copies executable text verbatim except for the counted rewrite rules (DESIGN.md)",
    "usize is 64 bits; allocation never fails; streams are shorter than 2^60 bytes",
    "Verus, rustc and z3 are sound",
]

if __name__ == "__main__":
    main()
