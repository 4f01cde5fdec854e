"""Builds the engines from /repo's current tree and dumps what the checks need."""
import fcntl, hashlib, json, os, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, "target", "engine")
ENGINE = os.path.join(ROOT, "engine")
BIN = os.path.join(TARGET, "debug", "engine")


def cargo_env(target=TARGET, toolchain="nightly-2024-09-24"):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    env.update(HOME="/root", RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target,
               CARGO_TERM_COLOR="never", RUST_LOG="off", RUST_BACKTRACE="0")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def build_engine():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "build", "--locked", "-q"], cwd=ENGINE, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            raise SystemExit(3)
    return BIN


def tree_hash():
    """Hash of every source the engine depends on (to share one dump between checks of the same tree)."""
    h = hashlib.sha256()
    with open(BIN, "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:24]


def dump():
    """Builds, then returns the directory with kernel.json, info.json and stark_*.json of the current tree."""
    t = time.time()
    build_engine()
    base = os.path.join(ROOT, "work", "dump-" + tree_hash())
    if not os.path.exists(os.path.join(base, "done")):
        tmp = tempfile.mkdtemp(dir=mk(os.path.join(ROOT, "work")))
        r = subprocess.run([BIN, "dump", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-4000:])
            raise SystemExit(3)
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, base)
        except OSError:
            pass
    return base


def mk(p):
    os.makedirs(p, exist_ok=True)
    return p


class Server:
    """The real code: kernel interpreter and constraint evaluation on concrete values."""

    def __init__(self):
        self.p = subprocess.Popen([BIN, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, RUST_BACKTRACE="0"))

    def ask(self, case):
        self.p.stdin.write(json.dumps(case) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())


if __name__ == "__main__":
    print(dump())
