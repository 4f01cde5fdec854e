"""Runs the kernel and the constraints of the tree in the current directory (demonstrations)."""
import atexit, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()


class Runner:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="zkdemo")
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        src = os.path.join(self.tmp, "runner")
        shutil.copytree(os.path.join(HERE, "runner"), src)
        p = os.path.join(src, "Cargo.toml")
        s = open(p).read().replace("/repo/", REPO + "/")
        open(p, "w").write(s)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
        for k in ("CARGO_HOME", "RUSTUP_HOME"):
            if k in os.environ:
                env[k] = os.environ[k]
        env.update(RUSTUP_TOOLCHAIN="nightly-2024-09-24", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(self.tmp, "target"), RUST_BACKTRACE="0", RUST_LOG="off")
        env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
        env["RUSTFLAGS"] = "-Z linker-features=-lld --cfg zkevm_verif"
        subprocess.run(["cargo", "build", "--locked", "-q"], cwd=src, env=env, check=True)
        self.bin = os.path.join(self.tmp, "target", "debug", "engine")
        d = os.path.join(self.tmp, "dump")
        os.mkdir(d)
        subprocess.run([self.bin, "dump", d], check=True, env=env)
        self.dir = d
        k = json.load(open(os.path.join(d, "kernel.json")))
        self.code = k["code"] if isinstance(k["code"], list) else list(bytes.fromhex(k["code"]))
        self.labels = k["global_labels"]
        info = json.load(open(os.path.join(d, "info.json")))
        self.const = {a: int(b, 16) for a, b in info["constants"].items()}
        self.seg = {a: b for a, b, _ in info["segments"]}
        self.info = info
        self.p = subprocess.Popen([self.bin, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        atexit.register(self.p.kill)

    def ask(self, case):
        self.p.stdin.write(json.dumps(case) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def run(self, pc, stack, mem=(), ctx=1, prover=None, halt=(), stop_user=False, read=(), max=2000000):
        """stack: last element on top. mem/read: (context, segment name or number, virtual address[, value])."""
        pc = self.labels[pc] if isinstance(pc, str) else pc
        s = lambda x: self.seg[x] if isinstance(x, str) else x
        r = self.ask({"regs": {"pc": pc, "kernel": True, "context": ctx, "gas": 0, "stack": [hex(x) for x in stack]},
                      "mem": [[c, s(g), v, hex(x)] for c, g, v, x in mem], "prover": None if prover is None else [hex(x) for x in prover],
                      "halt": [self.labels[h] if isinstance(h, str) else h for h in halt], "stop_user": stop_user,
                      "read": [[c, s(g), v] for c, g, v in read], "max": max, "trace": False})
        st = r["status"].split(":")[0]
        return st, [int(x, 16) for x in r.get("regs", {}).get("stack", [])], r.get("regs", {}).get("gas"), [int(x, 16) for x in r.get("reads", [])], r.get("regs", {}).get("pc")

    def ctxf(self, name):
        return self.const["CTX_METADATA_" + name] & 0xffffffff

    def globf(self, name):
        return self.const["GLOBAL_METADATA_" + name] & 0xffffffff

    def syscall(self, opcode, args, gas=0, limit=1 << 31, mem=(), ctx=1, **kw):
        """args: first one on top."""
        t = self.labels["syscall_jumptable"] + 3 * opcode
        pc = int.from_bytes(bytes(self.code[t:t + 3]), "big")
        mem = list(mem) + [(ctx, "ContextMetadata", self.ctxf("GAS_LIMIT"), limit)]
        kexit = 0x1234 | gas << 192
        st, stack, g, reads, _ = self.run(pc, [0xdead] + list(reversed(args)) + [kexit], mem, ctx, halt=["fault_exception"], stop_user=True, **kw)
        return ("fault" if st == "halt" else st), stack, g, reads

    def rows(self, table, lv, nv, first=0, last=0, z_last=1):
        return self.ask({"table": table, "lv": lv, "nv": nv, "first": first, "last": last, "z_last": z_last})["ok"]


def expect(what, got, want):
    if got != want:
        print(f"FAIL {what}: got {got}, want {want}")
        sys.exit(1)
    print(f"ok {what}")
