"""Symbolic execution of the real Rust code: harness crates compiled against /repo, whole-program LLVM IR, z3 at every branch."""
import fcntl, glob, json, os, shutil, subprocess, sys, tempfile, threading, time
import build
from fw import Check

ROOT = build.ROOT
SYMX = os.path.join(ROOT, "symx")
OUT = os.path.join(ROOT, "target", "symx")
ENGINE = os.path.join(OUT, "symx.bin")


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(f"{cmd}\n{r.stdout[-6000:]}\n")
        raise SystemExit(3)
    return r.stdout


def engine():
    src = os.path.join(SYMX, "engine", "symx.cpp")
    build.mk(OUT)
    if not os.path.exists(ENGINE) or os.path.getmtime(ENGINE) < os.path.getmtime(src):
        cxx = [f for f in sh(["llvm-config-18", "--cxxflags"]).split() if not f.startswith("-std=") and f != "-fno-exceptions"]
        sh(["clang++", "-O2", "-std=c++17", "-fno-rtti", "-w"] + cxx + [src, "-o", ENGINE + ".tmp"] + sh(["llvm-config-18", "--ldflags"]).split() + ["-lLLVM-18", "-lz3"])
        os.rename(ENGINE + ".tmp", ENGINE)
    return ENGINE


def plonky2():
    """Copy of the pinned plonky2 whose Poseidon permutation is the engine's uninterpreted function under cfg(symx)."""
    dst = os.path.join(OUT, "plonky2")
    if os.path.exists(os.path.join(dst, "Cargo.toml")):
        return
    env = build.cargo_env(OUT)
    home = env.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = glob.glob(os.path.join(home, "registry", "src", "*", "plonky2-1.0.0"))
    if not src:
        sh(["cargo", "fetch", "--offline", "--manifest-path", "/repo/Cargo.toml"], env=env)
        src = glob.glob(os.path.join(home, "registry", "src", "*", "plonky2-1.0.0"))
    tmp = dst + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(src[0], tmp)
    f = os.path.join(tmp, "src", "hash", "poseidon.rs")
    s = open(f).read()
    head = "fn poseidon(input: [Self; SPONGE_WIDTH]) -> [Self; SPONGE_WIDTH] {\n"
    if s.count(head) != 1:
        raise SystemExit(3)
    s = s.replace(head, head + """        #[cfg(symx)]
        {
            extern "C" {
                fn symx_hash(id: u32, p: *const u8, n: usize, o: *mut u8, m: usize);
            }
            let x: [u64; SPONGE_WIDTH] = core::array::from_fn(|i| input[i].to_canonical_u64());
            let mut y = [0u64; SPONGE_WIDTH];
            unsafe { symx_hash(7, x.as_ptr() as *const u8, 96, y.as_mut_ptr() as *mut u8, 96) };
            return core::array::from_fn(|i| Self::from_canonical_u64(y[i] >> 1));
        }
        #[cfg(not(symx))]
        {
""")
    i = s.index("        state\n    }\n", s.index(head))
    s = s[:i] + "        state\n        }\n    }\n" + s[i + len("        state\n    }\n"):]
    open(f, "w").write(s)
    os.rename(tmp, dst)


def harness(name, flags=()):
    """(module of bitcode, native replay binary) of harness crate `name` against /repo's current tree."""
    build.mk(OUT)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        engine()
        if name != "mpt":
            plonky2()
        d = os.path.join(SYMX, "harness", name)
        errs = []

        def native():
            env = build.cargo_env(os.path.join(OUT, "native"))
            r = subprocess.run(["cargo", "build", "--locked", "--offline", "-q"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                errs.append(r.stdout)

        th = threading.Thread(target=native)
        th.start()
        env = build.cargo_env(os.path.join(OUT, "ir"))
        env["RUSTFLAGS"] = "--cfg symx"
        r = subprocess.run(["cargo", "rustc", "--locked", "--offline", "-q", "--profile", "symx", "--lib", "--crate-type", "cdylib", "--", "--emit=llvm-ir,link", *flags],
                           cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        th.join()
        if r.returncode or errs:
            sys.stderr.write((r.stdout + "".join(errs))[-6000:] + "\n")
            raise SystemExit(3)
        ll = os.path.join(OUT, "ir", "symx", "deps", f"h_{name}.ll")
        bc = os.path.join(OUT, f"{name}.bc")
        if not os.path.exists(bc) or os.path.getmtime(bc) < os.path.getmtime(ll):
            tmp = os.path.join(OUT, f"{name}.18.ll")
            sh([sys.executable, os.path.join(SYMX, "downgrade.py"), ll, tmp])
            sh(["opt-18", "-passes=globaldce", tmp, "-o", bc + ".tmp"])
            os.rename(bc + ".tmp", bc)
            os.unlink(tmp)
    return bc, os.path.join(OUT, "native", "debug", f"replay_{name}")


class SxCheck(Check):
    """Checks whose obligations are the `check` calls of harness functions."""

    def __init__(self, pid, tier, name, flags=()):
        super().__init__(pid, tier)
        self.name = name
        self.bc, self.bin = harness(name, flags)
        self.msg = {}
        self.log("built")
        self.assumptions += ["the Rust compiler (nightly-2024-09-24, LTO, overflow checks on) translates the code faithfully to LLVM IR; allocation does not fail",
                             "pointer addresses are concrete (no property depends on them)"]

    def native(self, fn, inputs):
        line = fn + "".join(f" {w}:{v}" for w, v in inputs) + "\n"
        try:
            r = subprocess.run([self.bin], input=line, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return "timeout"
        return r.stdout.strip() if r.returncode == 0 else f"crash {r.returncode}"

    def natives(self, fn, many):
        lines = "".join(fn + "".join(f" {w}:{v}" for w, v in i) + "\n" for i in many)
        r = subprocess.run([self.bin], input=lines, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
        return r.stdout.splitlines()

    def one(self, fn, what, procs, seconds, known):
        out = tempfile.NamedTemporaryFile(dir=build.mk(os.path.join(ROOT, "work")), suffix=".jsonl", delete=False).name
        r = subprocess.run([ENGINE, self.bc, fn, out, str(procs), str(seconds), "20000", self.crate], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        rows = []
        for l in open(out):
            try:
                rows.append(json.loads(l))
            except ValueError:
                rows.append({"undecided": "unreadable result line"})
        os.unlink(out)
        if r.returncode != 0 or not r.stdout.strip():
            self.undecide(f"{fn}: engine failed: {r.stderr[-400:]}")
            return
        s = json.loads(r.stdout.strip().splitlines()[-1])
        self.log(fn, {k: s[k] for k in ("paths", "completed", "queries", "solver_s", "checks", "decided", "violations", "undecided", "silent", "seconds")})
        self.paths += s["paths"]
        self.queries += s["queries"]
        self.solver_time += s["solver_s"]
        self.obligations += s["decided"]
        self.states += s["instructions"]
        self.sample(f"{fn}: {what}: {s['completed']} of {s['paths']} paths completed, {s['decided']} assertions decided, {s['queries']} queries, {s['solver_s']} s solver, {s['instructions']} instructions")
        for row in rows:
            for f in row.get("functions", []):
                if f not in self.functions:
                    self.functions.append(f)
        wit = [row["witness"] for row in rows if "witness" in row]
        for i in range(0, len(wit), 2000):
            got = self.natives(fn, wit[i:i + 2000])
            bad = [(w, g) for w, g in zip(wit[i:], got) if g != "ok"]
            self.validated += sum(g == "ok" for g in got)
            if bad or len(got) != len(wit[i:i + 2000]):
                self.undecide(f"{fn}: a path held symbolically but its replay says {bad[0][1] if bad else 'nothing'}: {bad[0][0] if bad else ''}"[:600])
        viols = [row for row in rows if "violation" in row]
        seen = set()
        conf = 0
        for v in viols:
            res = self.native(fn, v["inputs"])
            self.replayed += 1
            if res.startswith(("violation", "panic", "crash")):
                conf += 1
                key = f"{fn}: {v['id']}"
                if key in seen:
                    continue
                seen.add(key)
                n = self.msg.get(v["id"], "")
                self.violation(f"{fn} ({what}): {v['violation']} {n}; on the real code: {res}", {"harness": self.name, "function": fn, "inputs": v["inputs"], "at": v.get("at"), "native": res}, key=key)
            else:
                self.undecide(f"{fn}: counterexample {v['violation']} (id {v['id']}) replays natively as {res}")
        for row in rows:
            if "undecided" in row:
                self.undecide(f"{fn}: {row['undecided']} at {row.get('at', '')[:300]}")
        if not s["completed"] and not viols:
            self.undecide(f"{fn}: no path reached the end of the harness")
        if s["decided"] < s["checks"] and not viols and not s["undecided"]:
            self.undecide(f"{fn}: {s['checks'] - s['decided']} assertions left undecided")

    def run(self, jobs, crate, procs=8, seconds=600):
        """jobs: [(function, what)]."""
        self.crate = crate
        slots = min(len(jobs), procs)
        per = max(1, procs // slots)
        self.parallel([(fn, lambda c, fn=fn, what=what: c.one(fn, what, max(per, 3), seconds, ())) for fn, what in jobs], procs=slots, timeout=seconds + 120)
