#!/usr/bin/env python3
"""Runner of the solver-based checks.

  vp.py setup              build the symbolic engine
  vp.py check <ID>         decide a property on /repo's working tree (tier from VERIF_TIER or --tier)
  vp.py record [ID...]     (development) record the reachability labels of the unchanged tree in covers.json

Exit codes: 0 held on everything explored, 1 violation (confirmed natively), 2 inconclusive/error.
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
ENGINE = os.path.join(BUILD, "vpsym")
COVERS = os.path.join(VERIF, "covers.json")
KNOWN = os.path.join(VERIF, "known_findings.json")
NCPU = os.cpu_count() or 4

sys.path.insert(0, VERIF)
from props import PROPS, CONFIGS  # noqa: E402


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                              errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, e.stdout or "", "timeout")


# ------------------------------------------------------------------------------------------------ engine
def engine_key():
    return hashlib.sha256(open(os.path.join(VERIF, "engine", "vpsym.cpp"), "rb").read()).hexdigest()


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    stamp = ENGINE + ".key"
    with open(os.path.join(BUILD, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = engine_key()
        if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == key:
            return
        flags = [f for f in sh(["llvm-config-18", "--cxxflags"]).stdout.split() if f != "-fno-exceptions"]
        r = sh(["g++", "-O2", "-std=c++17"] + flags + ["-std=c++17", "-fexceptions", "-w",
                os.path.join(VERIF, "engine", "vpsym.cpp"), "-o", ENGINE + ".tmp",
                "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-4000:])
            sys.exit(2)
        os.replace(ENGINE + ".tmp", ENGINE)
        open(stamp, "w").write(key)


# ------------------------------------------------------------------------------------------------ compiling
def cfg_flags(cfg):
    return ["-std=" + cfg["std"]] + cfg["flags"]


def inc():
    return ["-I" + os.path.join(REPO, "include"), "-I" + HARN]


def ir_cmd(tu, cfg, out, lowering, extra=()):
    low = {"O0": ["-O1", "-Xclang", "-disable-llvm-passes"],
           "O1": ["-O1", "-fno-vectorize", "-fno-slp-vectorize"],
           "O2": ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]}[lowering]
    return (["clang++"] + cfg_flags(cfg) + low + ["-gline-tables-only", "-w"] + list(extra) + inc()
            + ["-emit-llvm", "-c", os.path.join(HARN, tu + ".cpp"), "-o", out])


def compile_ir(tu, cfg, out, lowering, extra=(), timeout=300):
    """Compiles one harness; a configuration with several units is compiled once per unit and linked (IR linker)."""
    units = cfg.get("units")
    if not units:
        cmd = ir_cmd(tu, cfg, out, lowering, extra)
        return sh(cmd, timeout=timeout), cmd
    parts = []
    for i, u in enumerate(units):
        o = out + ".%d" % i
        cmd = ir_cmd(tu, cfg, o, lowering, list(extra) + u)
        r = sh(cmd, timeout=timeout)
        if r.returncode != 0:
            return r, cmd
        parts.append(o)
    cmd = ["llvm-link", "-o", out] + parts
    return sh(cmd, timeout=timeout), cmd


NATIVE = {
    "clang-O1": ["clang++", "-O1"],
    "clang-O0": ["clang++", "-O0"],
    "clang-O2": ["clang++", "-O2"],
    "gcc-O0": ["g++", "-O0"],
    "gcc-O2": ["g++", "-O2"],
    "clang-asan": ["clang++", "-O1", "-g", "-fno-omit-frame-pointer",
                   "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all",
                   "-fsanitize-address-use-after-return=always", "-fsanitize-address-use-after-scope"],
    "clang-pattern": ["clang++", "-O0", "-ftrivial-auto-var-init=pattern"],
    "clang-zero": ["clang++", "-O0", "-ftrivial-auto-var-init=zero",
                   "-enable-trivial-auto-var-init-zero-knowing-it-will-be-removed-from-clang"],
    "clang-msan": ["clang++", "-O1", "-g", "-fsanitize=memory", "-fno-sanitize-recover=all"],
}


def native_cmds(tu, cfg, variant, out, extra=()):
    cc = NATIVE[variant]
    fl = list(cfg_flags(cfg)) + list(extra)
    if cc[0] == "g++":
        fl = [f.replace("c++2b", "c++23") for f in fl]
    if cfg.get("units"):
        cmds = [cc + fl + u + ["-w", "-c"] + inc() + [os.path.join(HARN, tu + ".cpp"), "-o", out + ".%d.o" % i]
                for i, u in enumerate(cfg["units"])]
        return cmds + [cc + fl + ["-w", "-rdynamic"] + [out + ".%d.o" % i for i in range(len(cfg["units"]))]
                       + [os.path.join(HARN, "native.cpp"), "-ldl", "-o", out]]
    return [cc + fl + ["-w", "-rdynamic"] + inc()
            + [os.path.join(HARN, tu + ".cpp"), os.path.join(HARN, "native.cpp"), "-ldl", "-o", out]]


def build_native(tu, cfg, variant, out, extra=()):
    for c in native_cmds(tu, cfg, variant, out, extra):
        r = sh(c, timeout=300)
        if r.returncode != 0:
            return False, r.stderr
    return True, ""


def run_native(binary, vectors, workdir, tag, timeout=300):
    """vectors: list of (harness, [hex...]). Returns list of (end, obs, covers)."""
    f = os.path.join(workdir, tag + ".in")
    with open(f, "w") as o:
        for h, ins in vectors:
            o.write(" ".join([h] + ins) + "\n")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "exitcode=99:print_stacktrace=0"
    env["MSAN_OPTIONS"] = "exitcode=98"
    r = sh([binary, f], timeout=timeout, env=env)
    res = []
    for line in r.stdout.splitlines():
        if " |" not in line:
            continue
        parts = line.split(" |")
        end = parts[0].strip()
        obs = parts[1].split() if len(parts) > 1 else []
        cov = sorted(re.findall(r"<([^<>]*)>", parts[2])) if len(parts) > 2 else []
        res.append((end, obs, cov))
    return res, r.stderr


def hexins(ins):
    return [x[2] for x in ins]


# ------------------------------------------------------------------------------------------------ check
class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.p = pid, tier, PROPS[pid]
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "run", pid + "-" + tier)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replaydir = os.path.join(EVID, "replay", pid)
        shutil.rmtree(self.replaydir, ignore_errors=True)
        self.violations, self.notes, self.inconclusive = [], [], []
        self.unconfirmed = []
        self.jobs = []
        seen = set()
        for tu, cfgs, low in self.p["jobs"](tier):
            for c in cfgs:
                if (tu, c, low) in seen:
                    continue
                seen.add((tu, c, low))
                self.jobs.append(dict(tu=tu, cfg=c, low=low, id="%s.%s.%s" % (tu, c, low)))
        self.tot = dict(paths=0, forks=0, instrs=0, queries=0, sat=0, unsat=0, asserts=0, asserts_symbolic=0,
                        assume_kills=0, solver_s=0.0)
        self.functions = set()
        self.harnesses = 0
        self.validated = self.mismatch = 0
        self.samples = []
        self.coversrec = {}
        self.smt = dict(cross_checked=0, disagreements=0)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def left(self):
        limit = 780 if self.tier == "quick" else 14400
        return limit - (time.time() - self.t0)

    # -- stage 1: compile
    def compile_job(self, j):
        cfg = CONFIGS[j["cfg"]]
        j["bc"] = os.path.join(self.work, j["id"] + ".bc")
        j["extra"] = []
        r, cmd = compile_ir(j["tu"], cfg, j["bc"], j["low"])
        if r.returncode != 0 and self.p.get("internals"):
            # the harness names an internal function: it may have been renamed or restructured
            for extra in self.p["internals"](open(os.path.join(REPO, "include/tiny/optional.h"), errors="replace").read()):
                cmd2 = ir_cmd(j["tu"], cfg, j["bc"], j["low"], extra)
                r2 = sh(cmd2, timeout=300)
                if r2.returncode == 0:
                    r, cmd, j["extra"] = r2, cmd2, extra
                    self.notes.append("%s compiled with %s" % (j["id"], " ".join(extra)))
                    break
        j["ok"] = r.returncode == 0
        j["err"] = r.stderr
        j["cmd"] = cmd

    def native_job(self, j):
        if not j["ok"]:
            return
        cfg = CONFIGS[j["cfg"]]
        v = cfg.get("native", "clang-O1")
        j["bin"] = os.path.join(self.work, j["id"] + ".native")
        ok, err = build_native(j["tu"], cfg, v, j["bin"], j["extra"])
        if not ok and v.startswith("gcc"):
            ok, err = build_native(j["tu"], cfg, "clang-O1", j["bin"], j["extra"])
        j["nat_ok"] = ok
        if not ok:
            j["nat_err"] = err

    def compile_all(self):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(self.compile_job, self.jobs))
        for j in self.jobs:
            if j["ok"]:
                continue
            cfg = CONFIGS[j["cfg"]]
            if not self.toolchain_ok():
                self.inconclusive.append("toolchain does not work")
                continue
            if cfg.get("persona"):
                ok, err = build_native(j["tu"], cfg, "gcc-O0", os.path.join(self.work, "probe"))
                if ok:
                    self.notes.append("gcc-persona IR not available for " + j["id"] + " (g++ itself accepts the code)")
                    continue
            self.compile_violation(j)
        self.jobs = [j for j in self.jobs if j["ok"]]

    def toolchain_ok(self):
        f = os.path.join(self.work, "probe.cpp")
        open(f, "w").write("#include <optional>\n#include <vector>\nint main(){return std::optional<int>(0).value();}\n")
        return sh(["clang++", "-std=c++20", "-c", f, "-o", f + ".o"]).returncode == 0

    def compile_violation(self, j):
        d = os.path.join(self.replaydir, "compile." + j["id"])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "replay.sh"), "w") as o:
            o.write("#!/bin/sh\n# documented public use of the library no longer compiles in this configuration\n")
            o.write("exec " + " ".join("'%s'" % c for c in j["cmd"][:-1] + ["/dev/null"]) + "\n")
        errs = [l for l in j["err"].splitlines() if "error:" in l]
        with open(os.path.join(d, "errors.txt"), "w") as o:
            o.write(j["err"][:20000])
        self.violations.append(dict(job=j["id"], harness="(compile)", kind="compile",
                                    msg=(errs or ["does not compile"])[0][:300], path=os.path.join(d, "replay.sh")))

    # -- stage 2: symbolic execution
    def engine_run(self, j, bc, only=None, suffix="", smt=None):
        out = os.path.join(self.work, j["id"] + suffix + ".json")
        per = max(20, min(self.p.get("time", 200), self.left() - 60)) if self.tier == "quick" else max(30, min(3600, self.left() - 120))
        cmd = [ENGINE, bc, "--out", out, "--jobs", str(NCPU), "--time-limit", str(per),
               "--traces", str(16 if self.tier == "quick" else 64)]
        if only:
            cmd += ["--only", ",".join(only)]
        if smt:
            cmd += ["--dump-smt", smt]
        r = sh(cmd, timeout=per * 6 + 60)
        try:
            return json.load(open(out))
        except Exception:
            return [dict(harness="(all)", paths=0, problems=["engine failed: " + r.stderr[-300:]], violations=[], traces=[],
                         covers=[], functions=[])]

    def engine_job(self, j):
        res = self.engine_run(j, j["bc"])
        # second lowering for anything the engine could not finish
        bad = [h["harness"] for h in res if h["problems"] and not h["violations"]]
        if bad and j["low"] == "O0" and bad != ["(all)"] and self.left() > 120:
            bc = os.path.join(self.work, j["id"] + ".fallback.bc")
            r, _ = compile_ir(j["tu"], CONFIGS[j["cfg"]], bc, "O1", j["extra"])
            if r.returncode == 0:
                res2 = {h["harness"]: h for h in self.engine_run(j, bc, bad, ".fallback")}
                for i, h in enumerate(res):
                    h2 = res2.get(h["harness"])
                    if h2 and not h2["problems"]:
                        self.notes.append("%s %s decided on optimised IR (%s)" % (j["id"], h["harness"], h["problems"][0][:120]))
                        res[i] = h2
        j["res"] = res

    def account(self, j):
        for h in j["res"]:
            self.harnesses += 1
            for k in self.tot:
                self.tot[k] += h.get(k, 0)
            self.functions.update(h.get("functions", []))
            self.coversrec.setdefault(j["id"], {})[h["harness"]] = sorted(h["covers"])
            if h["problems"]:
                self.inconclusive.append("%s %s: %s" % (j["id"], h["harness"], h["problems"][0][:300]))

    # -- stage 3: validate traces natively
    def validate_job(self, j):
        if not j.get("nat_ok"):
            self.notes.append("native build failed for %s: %s" % (j["id"], j.get("nat_err", "")[:300]))
            return
        vec, exp = [], []
        for h in j["res"]:
            for t in h["traces"]:
                vec.append((h["harness"], hexins(t["ins"])))
                exp.append((h, t))
        if not vec:
            return
        got, _ = run_native(j["bin"], vec, self.work, j["id"] + ".traces")
        if len(got) != len(vec):
            self.notes.append("native run of %s gave %d of %d results" % (j["id"], len(got), len(vec)))
        for (h, t), g, v in zip(exp, got, vec):
            end, obs, cov = g
            tobs = [o.lstrip("0") or "0" for o in t["obs"]]
            gobs = [o.lstrip("0") or "0" for o in obs]
            if end == t["end"] and gobs == tobs and cov == sorted(t["covers"]):
                self.validated += 1
                if len(self.samples) < 6 and len(t["ins"]) > 0 and (self.validated % 37 == 1):
                    self.samples.append(dict(job=j["id"], harness=h["harness"], inputs=[[i[0], i[1], "0x" + i[2]] for i in t["ins"]][:12],
                                             end=end, observations=gobs[:12], covers=cov[:8]))
            elif self.is_failure(end):
                # the real code fails on this input although the encoding did not predict it: a real violation
                self.violations.append(self.mk_violation(j, h["harness"], "native", end, t["ins"], [("native", end)]))
            else:
                self.mismatch += 1
                self.notes.append("trace mismatch %s %s: native %s %s %s, encoding %s %s %s" % (
                    j["id"], h["harness"], end, gobs[:8], cov, t["end"], tobs[:8], t["covers"]))

    @staticmethod
    def is_failure(end):
        return end.startswith(("assert: ", "cassert: ", "terminated", "signal", "exit"))

    # -- stage 4: confirm violations natively
    def mk_violation(self, j, harness, kind, msg, ins, confirmed):
        n = len(self.violations)
        d = os.path.join(self.replaydir, "%s.%s.%d" % (j["id"], harness, n))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "input.txt"), "w") as o:
            o.write(" ".join([harness] + hexins(ins)) + "\n")
        json.dump(dict(property=self.pid, job=j["id"], harness=harness, kind=kind, message=msg,
                       inputs=[[i[0], i[1], "0x" + i[2]] for i in ins], confirmed=confirmed),
                  open(os.path.join(d, "violation.json"), "w"), indent=1)
        variant = confirmed[0][0] if confirmed and confirmed[0][0] in NATIVE else "clang-O1"
        cmds = native_cmds(j["tu"], CONFIGS[j["cfg"]], variant, "$T/replay", j["extra"])
        with open(os.path.join(d, "replay.sh"), "w") as o:
            o.write("#!/bin/sh\n# Rebuilds the harness natively from /repo and runs it on the solver's counterexample.\n")
            o.write("T=$(mktemp -d); trap 'rm -rf \"$T\"' EXIT\n")
            for c in cmds:
                o.write(" ".join(('"%s"' % x) for x in c) + " || exit 2\n")
            o.write("ASAN_OPTIONS=detect_leaks=0 \"$T/replay\" \"$(dirname \"$0\")/input.txt\"\n")
        os.chmod(os.path.join(d, "replay.sh"), 0o755)
        return dict(job=j["id"], harness=harness, kind=kind, msg=msg, path=os.path.join(d, "replay.sh"),
                    confirmed=confirmed)

    def confirm_job(self, j):
        cand = [(h["harness"], v) for h in j["res"] for v in h["violations"]]
        if not cand:
            return
        # at most a few per harness and message
        per, sel = {}, []
        for h, v in cand:
            k = (h, v["kind"], v["msg"])
            per[k] = per.get(k, 0) + 1
            if per[k] <= 2 and len(sel) < 60:
                sel.append((h, v))
        cfg = CONFIGS[j["cfg"]]
        pending = list(range(len(sel)))
        order = [cfg.get("native", "clang-O1"), "clang-asan", "clang-O2", "gcc-O2", "gcc-O0", "clang-O0", "clang-pattern",
                 "clang-zero", "clang-msan"]
        if "-m32" in cfg["flags"]:
            order = [o for o in order if o not in ("clang-msan",)]
        done = set()
        for var in order:
            if not pending or var in done or self.left() < 30:
                break
            done.add(var)
            b = os.path.join(self.work, j["id"] + "." + var)
            ok, err = build_native(j["tu"], cfg, var, b, j["extra"])
            if not ok:
                continue
            vec = [(sel[i][0], hexins(sel[i][1]["ins"])) for i in pending]
            got, se = run_native(b, vec, self.work, j["id"] + "." + var)
            still = []
            for i, g in zip(pending, got):
                h, v = sel[i]
                if self.is_failure(g[0]):
                    self.violations.append(self.mk_violation(j, h, v["kind"], v["msg"], v["ins"], [(var, g[0])]))
                    self.violations[-1]["where"] = v["where"]
                else:
                    still.append(i)
            pending = still + pending[len(got):]
            try:
                os.unlink(b)
            except OSError:
                pass
        for i in pending:
            h, v = sel[i]
            # other instances of the same message confirmed?
            if any(x["harness"] == h and x["msg"] == v["msg"] for x in self.violations):
                continue
            self.unconfirmed.append("%s %s: %s: %s (%s)" % (j["id"], h, v["kind"], v["msg"], v["where"][:200]))

    # -- stage 5: vacuity
    def vacuity(self):
        if self.violations:
            return
        try:
            rec = json.load(open(COVERS))
        except OSError:
            rec = {}
        reduced = {j["id"] for j in self.jobs if j["extra"]}
        for jid, hs in self.coversrec.items():
            exp = rec.get(jid)
            if exp is None:
                continue
            for h, labels in exp.items():
                if jid in reduced and h not in hs:
                    continue
                missing = set(labels) - set(hs.get(h, []))
                if missing:
                    self.inconclusive.append("%s %s: reachability witnesses not reached: %s" % (jid, h, sorted(missing)[:5]))
        for jid, hs in self.coversrec.items():
            for h, labels in hs.items():
                if not labels:
                    self.inconclusive.append("%s %s: no reachability witness reached" % (jid, h))

    # -- stage 6 (thorough): second solver on dumped queries
    def cross_check(self):
        if self.tier != "thorough":
            return
        for j in self.jobs[:2]:
            d = os.path.join(self.work, "smt." + j["id"])
            os.makedirs(d, exist_ok=True)
            self.engine_run(j, j["bc"], None, ".smt", d)
            files = sorted(f for f in os.listdir(d) if f.endswith(".smt2"))
            step = max(1, len(files) // 150)
            def one(f):
                try:
                    exp = open(os.path.join(d, f[:-5] + ".res")).read().strip()
                except OSError:
                    return None
                r = sh(["cvc5", "--lang=smt2", "--tlimit=20000", os.path.join(d, f)], timeout=30)
                out = r.stdout.strip().splitlines()
                if not out or "error" in r.stdout or out[0] not in ("sat", "unsat"):
                    return None
                return out[0] == exp
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for r in ex.map(one, files[::step]):
                    if r is None:
                        continue
                    self.smt["cross_checked"] += 1
                    if not r:
                        self.smt["disagreements"] += 1
                        self.inconclusive.append("z3 and cvc5 disagree on a query of " + j["id"])
            shutil.rmtree(d, ignore_errors=True)

    def run(self):
        build_engine()
        self.log("compiling %d jobs" % len(self.jobs))
        self.compile_all()
        pool = cf.ThreadPoolExecutor(3)
        nat = [pool.submit(self.native_job, j) for j in self.jobs]
        with cf.ThreadPoolExecutor(2) as ex:
            list(ex.map(self.engine_job, self.jobs))
        for f in nat:
            f.result()
        for j in self.jobs:
            self.account(j)
        self.log("symbolic execution done: %d paths, %d queries" % (self.tot["paths"], self.tot["queries"]))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(self.validate_job, self.jobs))
        self.log("validated %d traces, %d mismatches" % (self.validated, self.mismatch))
        for j in self.jobs:
            if len(self.violations) < 12:
                self.confirm_job(j)
        if self.p.get("literals"):
            self.literal_probes()
        self.cross_check()
        self.vacuity()
        return self.finish()

    # -- C17: the solver's boundary values as sentinel literals, given to the real compile-time guard
    def literal_probes(self):
        tgt = dict(char="char", schar="signed char", uchar="unsigned char", short="short", ushort="unsigned short", int="int",
                   uint="unsigned", long="long", ulong="unsigned long", llong="long long", ullong="unsigned long long",
                   wchar="wchar_t", char16="char16_t", char32="char32_t")
        srcs = [("signed char", 8, True), ("unsigned short", 16, False), ("int", 32, True), ("unsigned", 32, False),
                ("long long", 64, True), ("unsigned long long", 64, False)]
        work = []
        for j in self.jobs:
            if j["low"] != "O0" or CONFIGS[j["cfg"]].get("persona"):
                continue
            uses = []
            for h in j["res"]:
                m = re.match(r"vp_h_edge_(\w+)$", h["harness"])
                for t in h["traces"] if m else []:
                    if "edge" not in t["covers"] or len(t["obs"]) < 4:
                        continue
                    si, up, a, b = [int(o, 16) for o in t["obs"][:4]]
                    name, bits, signed = srcs[si]
                    for val, ok in ((a, True), (b, False)):
                        if signed and val >> (bits - 1) & 1:
                            val -= 1 << bits
                        lit = "(%s)%s" % (name, "(-%dll-1)" % (-val - 1) if val < 0 else "%dull" % val)
                        uses.append((m.group(1), "tiny::optional<%s, (%s)>" % (tgt[m.group(1)], lit), ok))
            work.append((j, uses))
        self.probes = 0

        def one(j, use, ok, n):
            f = os.path.join(self.work, "probe.%s.%d.cpp" % (j["id"], n))
            open(f, "w").write('#include "tiny/optional.h"\n%s x;\nint main(){ return x.has_value(); }\n' % use)
            cmd = ["clang++"] + cfg_flags(CONFIGS[j["cfg"]]) + ["-w", "-fsyntax-only"] + inc() + [f]
            return (sh(cmd, timeout=120).returncode == 0) == ok, cmd

        done = set()
        for j, uses in work:
            cls = "-m32" in CONFIGS[j["cfg"]]["flags"]
            if self.tier == "quick" and cls in done:
                continue
            done.add(cls)
            self.probes += len(uses)
            # the acceptable ones in one translation unit, one by one only if that fails
            f = os.path.join(self.work, "probes.%s.cpp" % j["id"])
            with open(f, "w") as o:
                o.write('#include "tiny/optional.h"\n')
                for n, (_, use, ok) in enumerate(uses):
                    if ok:
                        o.write("%s x%d;\n" % (use, n))
            r = sh(["clang++"] + cfg_flags(CONFIGS[j["cfg"]]) + ["-w", "-fsyntax-only"] + inc() + [f], timeout=240)
            todo = [n for n, u in enumerate(uses) if not u[2] or r.returncode]
            with cf.ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(lambda n: one(j, uses[n][1], uses[n][2], n), todo))
            for n, (good, cmd) in zip(todo, res):
                t, use, ok = uses[n]
                if good or len(self.violations) > 12 or not self.toolchain_ok():
                    continue
                d = os.path.join(self.replaydir, "literal.%s.%d" % (j["id"], n))
                os.makedirs(d, exist_ok=True)
                shutil.copy(cmd[-1], os.path.join(d, "use.cpp"))
                with open(os.path.join(d, "replay.sh"), "w") as o:
                    o.write("#!/bin/sh\n# %s has to be %s\n" % (use, "accepted" if ok else "rejected at compile time"))
                    o.write(" ".join("'%s'" % c for c in cmd[:-1]) + ' "$(dirname "$0")/use.cpp"\n')
                self.violations.append(dict(job=j["id"], harness="edge_" + t, kind="literal",
                                            msg="%s is %s" % (use, "rejected" if ok else "accepted"), path=os.path.join(d, "replay.sh")))
        self.notes.append("%d boundary literals found by the solver were given to the compile-time guard" % self.probes)

    def finish(self):
        known = []
        try:
            known = json.load(open(KNOWN)).get("findings", [])
        except OSError:
            pass
        new, old = [], []
        for v in self.violations:
            k = [e for e in known if e.get("status") == "open" and e["property"] == self.pid and e["harness"] == v["harness"]
                 and e["message"] == re.sub(r" \[\d+\]$", "", v["msg"])]
            (old if k else new).append((v, k))
        for v, k in old:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k[0]["what"]))
        for v, _ in new:
            print("  %s %s %s: %s\n     %s" % (v["job"], v["harness"], v["kind"], v["msg"], v.get("where", "")[:400]))
        for u in self.unconfirmed[:20]:
            print("  unconfirmed candidate (not reproduced natively): " + u)
        for n in self.notes[:20]:
            print("  note: " + n)
        for i in self.inconclusive[:20]:
            print("  inconclusive: " + i)
        ev = dict(
            property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
            coverage=dict(
                states=self.tot["forks"] + self.harnesses, transitions=self.tot["instrs"],
                traces_validated_against_impl=self.validated, trace_mismatches=self.mismatch,
                samples=self.samples or [dict(note="no trace with inputs")],
                complete_paths=self.tot["paths"], harness_runs=self.harnesses,
                jobs=[j["id"] for j in self.jobs],
                assertions_decided=self.tot["asserts"], assertions_needing_the_solver=self.tot["asserts_symbolic"],
                queries=self.tot["queries"], queries_sat=self.tot["sat"], queries_unsat=self.tot["unsat"],
                solver_time_s=round(self.tot["solver_s"], 2), second_solver=self.smt,
                repo_functions_encoded=len(self.functions), repo_functions_sample=sorted(self.functions, key=lambda f: (len(f), f))[:60],
                bounds=self.p["bounds"], outside=self.p.get("outside", ""),
                configurations={c: CONFIGS[c]["text"] for c in sorted({j["cfg"] for j in self.jobs})},
                inconclusive=self.inconclusive[:20], unconfirmed=self.unconfirmed[:20], notes=self.notes[:20],
                exhaustive=False),
            assumptions=self.p.get("assumptions", []) + [
                "clang 18's IR for the harness is what is executed symbolically; z3's verdicts and the engine's IR semantics are trusted, "
                "validated by replaying one solver model per path against native builds",
                "uninitialised memory is an arbitrary but fixed value; pointers have concrete addresses with red zones"],
            wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            v = new[0][0]
            print("VIOLATION property=%s replay=%s" % (self.pid, v["path"]))
            return 1
        if self.inconclusive:
            return 2
        self.log("held: %d paths, %d assertions decided (%d by the solver), %d queries, %.1fs solver" % (
            self.tot["paths"], self.tot["asserts"], self.tot["asserts_symbolic"], self.tot["queries"], self.tot["solver_s"]))
        return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        build_engine()
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return Check(a[1], tier).run()
    if a[0] == "record":
        try:
            rec = json.load(open(COVERS))
        except OSError:
            rec = {}
        tiers = ["quick", "thorough"] if "--thorough" in a else ["quick"]
        ids = [x for x in a[1:] if not x.startswith("-")] or sorted(PROPS)
        for pid in ids:
            for tier in tiers:
                c = Check(pid, tier)
                rc = c.run()
                print(pid, tier, "rc", rc)
                for jid, hs in c.coversrec.items():
                    rec[jid] = hs
        json.dump(rec, open(COVERS, "w"), indent=0, sort_keys=True)
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
