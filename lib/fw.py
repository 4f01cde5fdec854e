"""Check framework: obligations on symbolic paths, solver verdicts, replay on the real code, evidence."""
import json, os, sys, time, traceback
import z3
import build, ops
from ops import *
from ksym import *

ROOT = build.ROOT
STUCK = ("panic", "error")


class Final:
    """Uniform view of a terminal state (symbolic or real)."""

    def __init__(self, status, stack, pc, gas, ctx, rd, path=None, kexit=None):
        self.status, self.stack, self.pc, self.gas, self.ctx, self.rd = status, stack, pc, gas, ctx, rd
        self.path = path
        self.real = path is None
        self.kexit = kexit

    def resolve(self, c):
        """c, or its truth value if the path decides it."""
        return self.resolve_with(c, None)

    def resolve_with(self, c, pre):
        if self.path is None or isinstance(c, bool):
            return c
        key = ("res", c.get_id(), pre.get_id() if pre is not None else None)
        memo = self.path.notes.setdefault("resolved", {})
        if key in memo:
            return memo[key][1]
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*self.path.conds)
        if pre is not None:
            s.add(pre)
        r = c
        if s.check(c) == z3.unsat:
            r = False
        elif s.check(z3.Not(c)) == z3.unsat:
            r = True
        memo[key] = (c, r, pre)
        return r

    @property
    def stuck(self):
        return self.status == "stuck"


class Check:
    """Base: bookkeeping, verdicts, evidence."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tag = ""
        self.in_child = False
        self.functions = []
        self.bounds = []
        self.outside = []
        self.assumptions = []
        self.queries = 0
        self.solver_time = 0.0
        self.states = 0
        self.paths = 0
        self.validated = 0
        self.replayed = 0
        self.obligations = 0
        self.samples = []
        self.violations = []
        self.undecided = []
        self.known_hit = []
        self.extra = {}
        kf = os.path.join(ROOT, "known_findings.json")
        self.known = [k for k in (json.load(open(kf)) if os.path.exists(kf) else []) if k["property"] == pid and k.get("status") == "open"]

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def log(self, *a):
        if os.environ.get("VERIF_VERBOSE"):
            print(f"[{time.time() - self.t0:7.1f}]", *a, file=sys.stderr, flush=True)

    def solve(self, s, *ex):
        t = time.time()
        r = s.check(*ex)
        self.queries += 1
        self.solver_time += time.time() - t
        return r

    def violation(self, what, replay, key=None):
        """key identifies the failing input/call site for the known-findings file."""
        key = key or what
        for k in self.known:
            if k["key"] == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    if not self.in_child:
                        print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                return
        d = build.mk(os.path.join(ROOT, "work", "replay"))
        p = os.path.join(d, f"{self.pid}-{self.tag}{len(self.violations)}.json")
        json.dump({"property": self.pid, "what": what, "key": key, "replay": replay}, open(p, "w"), indent=1, default=str)
        self.violations.append((what, p))
        print(f"violated: {what}")
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)

    # ------------------------------------------------------------ parallel cases
    COUNT = ("queries", "solver_time", "states", "paths", "validated", "replayed", "obligations")
    LISTS = ("samples", "undecided", "bounds", "functions", "outside", "assumptions")

    def parallel(self, jobs, procs=8, timeout=840):
        """jobs: list of (name, callable(self)); each runs in a forked child whose findings are merged."""
        import pickle, select, signal
        pend = list(enumerate(jobs))
        live = {}
        results = {}
        while pend or live:
            while pend and len(live) < procs:
                i, (name, fn) = pend.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    code = 0
                    try:
                        self._child(i)
                        fn(self)
                    except BaseException as e:
                        self.undecide(f"{name}: {e!r} {traceback.format_exc()[-1500:]}")
                    out = {k: getattr(self, k) for k in self.COUNT + self.LISTS}
                    out["violations"] = self.violations
                    out["known_hit"] = self.known_hit
                    out["extra"] = self.extra
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                    sys.stdout.flush()
                    if getattr(self, "_srv", None):
                        self._srv.p.kill()
                    os._exit(code)
                os.close(w)
                live[r] = (pid, i, name, b"")
            rs, _, _ = select.select(list(live), [], [], 1.0)
            for r in rs:
                pid, i, name, buf = live[r]
                d = os.read(r, 1 << 20)
                if d:
                    live[r] = (pid, i, name, buf + d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                results[i] = (name, pickle.loads(buf) if buf else None)
            if time.time() - self.t0 > timeout:
                for r, (pid, i, name, buf) in live.items():
                    os.kill(pid, signal.SIGKILL)
                    self.undecide(f"{name}: time budget exceeded")
                for i, (name, _) in pend:
                    self.undecide(f"{name}: time budget exceeded")
                break
        for i in sorted(results):
            name, o = results[i]
            if o is None:
                self.undecide(f"{name}: worker died")
                continue
            for k in self.COUNT:
                setattr(self, k, getattr(self, k) + o[k])
            for k in self.LISTS:
                for x in o[k]:
                    if x not in getattr(self, k):
                        getattr(self, k).append(x)
            for v in o["violations"]:
                self.violations.append(v)
            for kh in o["known_hit"]:
                if kh not in self.known_hit:
                    self.known_hit.append(kh)
                    print(f"KNOWN-FINDING: property={self.pid} {kh['what']}")
            self.extra.update(o["extra"])

    def _child(self, i):
        for k in self.COUNT:
            setattr(self, k, 0)
        for k in self.LISTS:
            setattr(self, k, [])
        self.violations = []
        self.known_hit = []
        self.extra = {}
        self.tag = f"{i}-"
        self.in_child = True
        self._srv = None

    def undecide(self, what):
        self.undecided.append(what)
        self.log("UNDECIDED", what)

    def finish(self):
        cov = {"states": self.states, "transitions": self.obligations, "traces_validated_against_impl": self.validated,
               "samples": self.samples or ["(none)"],
               "meaning": "states = symbolic states (instructions, constraint rows or program points) explored; transitions = (path, obligation) pairs decided by the solver; traces_validated_against_impl = solver models replayed on the real code with identical outcome",
               "functions_encoded": self.functions, "bounds": self.bounds, "outside_bounds": self.outside,
               "paths": self.paths, "queries": self.queries, "solver_time_s": round(self.solver_time, 2),
               "counterexamples_replayed": self.replayed, "undecided": self.undecided}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        if self.violations:
            return 1
        if self.undecided:
            for u in self.undecided[:10]:
                print("UNDECIDED:", u)
            return 2
        print(f"{self.pid}: held; {self.paths} paths, {self.obligations} obligations, {self.queries} queries, {self.solver_time:.1f}s solver, {self.validated} models validated on the real code")
        return 0


def apps(terms, names):
    """All applications of the UFs in `names` inside the terms."""
    seen, out, todo = set(), [], [t for t in terms if not isinstance(t, (int, bool))]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in names:
                out.append(e)
            todo.extend(e.children())
    return out


def model_env(m):
    env = {}
    for d in m.decls():
        n = d.name()
        if d.arity() == 0:
            v = m[d]
            if z3.is_bv_value(v):
                env[n] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                env[n] = z3.is_true(v)
            elif z3.is_int_value(v):
                env[n] = v.as_long()
            else:
                env[n] = (lambda v: lambda i: m.eval(v[z3.BitVecVal(i, v.domain().size())], model_completion=True).as_long())(v)
        elif n not in UF:
            fi = m[d]
            try:
                tab = {tuple(fi.entry(i).arg_value(j).as_long() for j in range(d.arity())): fi.entry(i).value().as_long() for i in range(fi.num_entries())}
                ev = fi.else_value()
                dflt = ev.as_long() if ev is not None and z3.is_bv_value(ev) else None
            except Exception:
                tab, dflt = {}, None

            def f(*a, d=d, tab=tab, dflt=dflt):
                if a in tab:
                    return tab[a]
                if dflt is not None:
                    return dflt
                return m.eval(d(*[z3.BitVecVal(x, d.domain(i).size()) for i, x in enumerate(a)]), model_completion=True).as_long()
            env[n] = f
    return env


class KCheck(Check):
    """Checks on the assembled kernel."""

    def __init__(self, pid, tier):
        super().__init__(pid, tier)
        self.dir = build.dump()
        self.k = Kernel(self.dir)
        self._srv = None
        self.oblig_timeout = 60000
        self.valid_per_case = 2
        self.log("kernel loaded")

    @property
    def srv(self):
        if self._srv is None:
            self._srv = build.Server()
        return self._srv

    # ------------------------------------------------------------ real runs
    def concretize(self, st0, env, touched, prover, max_steps):
        mem, seen = [], set()
        cache = {}
        for (c, s, v) in touched:
            a = evalz(v, env, cache)
            if (c, s, a) in seen:
                continue
            seen.add((c, s, a))
            if (c, s) in st0.mem:
                val = evalz(st0.mem[(c, s)].read(a), env, cache)
                if val:
                    mem.append([c, s, a, hex(val)])
        # everything written concretely in the initial state
        for (c, s), sg in st0.mem.items():
            for L in sg.layers:
                if isinstance(L, dict):
                    for a, val in L.items():
                        if (c, s, a) not in seen:
                            seen.add((c, s, a))
                            mem.append([c, s, a, hex(evalz(val, env, cache))])
        return {"regs": {"pc": st0.pc, "kernel": True, "context": st0.ctx, "gas": 0, "stack": [hex(evalz(x, env, cache)) for x in st0.stack]},
                "mem": mem, "prover": [hex(evalz(v, env, cache)) for _, v in prover] or None, "max": max_steps, "read": [], "trace": False}

    def real(self, case, halts, stop_user):
        case = dict(case, halt=sorted(halts), stop_user=stop_user)
        r = self.srv.ask(case)
        status = r["status"]
        if status == "panic":
            return Final("stuck", [], 0, 0, 0, None), r
        if status.startswith("error"):
            status = "stuck"
        g = r["regs"]
        if status == "halt":
            status = halts[g["pc"]]
        return Final(status, [int(x, 16) for x in g["stack"]], g["pc"], g["gas"], g["context"], None), r

    def confirm(self, name, st0, halts, stop_user, ob, env, touched, prover, pred=None, max_steps=300000, key=None, prefer=None):
        """Runs the real code on the concrete input; True if an obligation is violated there."""
        # reads needed by the obligation: collect with a recording pass, then re-run with reads
        case = self.concretize(st0, env, touched, prover, max_steps)
        fin, r = self.real(case, halts, stop_user)
        memo = {}
        for _ in range(50):
            cache, missing = {}, []

            def rd(c, s, v):
                a = (evalz(c, env, cache), evalz(s, env, cache), evalz(v, env, cache))
                if a not in memo:
                    missing.append(a)
                    return 0
                return memo[a]
            fin.rd = rd
            bad = []
            for nm, c in ob(fin):
                if not evalz(c if not isint(c) else bool(c), env, cache):
                    bad.append(nm)
            if not missing:
                break
            missing = sorted(set(missing))
            r2 = self.srv.ask(dict(case, halt=sorted(halts), stop_user=stop_user, read=[list(x) for x in missing]))
            for x, val in zip(missing, r2["reads"]):
                memo[x] = int(val, 16)
        else:
            raise RuntimeError("obligations keep reading new addresses")
        self.replayed += 1
        return bad, case, fin, r

    # ------------------------------------------------------------ cases
    def case(self, name, st0, ob, halts=None, stop_user=True, ex=None, validate=None, assume_incomplete=(), key=None, max_steps=200000, **kw):
        """Explores st0 and decides the obligations on every terminal path.
        ob(final) -> list of (name, condition)."""
        halts = dict(halts or {})
        E = ex or Exec(self.k, halts=halts, stop_user=stop_user, max_steps=max_steps, **kw)
        self.log("case", name, "from", self.k.near(st0.pc))
        nv = len(self.violations)
        try:
            done = E.run(st0.clone())
        except Limit as e:
            self.account(E)
            self.undecide(f"{name}: {e}")
            return None
        self.log("  paths", len(done), "steps", E.stats.steps, "q", E.stats.queries, f"{E.stats.time:.1f}s")
        nval = self.valid_per_case if validate is None else validate
        todo = []
        for st in done:
            if st.status in ("wild", "limit") and st.status not in assume_incomplete:
                if E.check(st) != "unsat":
                    self.undecide(f"{name}: {st.status} {st.err or ''} at {self.k.near(st.pc)}")
                continue
            if st.status in assume_incomplete:
                continue
            fin = self.final(st, st0)
            obs = [(n, c) for n, c in ob(fin)]
            self.obligations += len(obs)
            pend = []
            for n, c in obs:
                if isinstance(c, bool) or isint(c):
                    if not c:
                        pend.append((n, z3.BoolVal(True)))
                    continue
                nc = z3.simplify(z3.Not(c))
                if not z3.is_false(nc):
                    pend.append((n, nc))
            todo.append((st, pend))
        for st, pend in todo:
            bad = False
            for n, nc in pend:
                if len(self.violations) > nv + 2:
                    break
                bad |= self.decide(name, st0, st, n, nc, ob, halts, stop_user, E, key, max_steps)
            if nval > 0 and not bad:
                if self.validate_path(name, st0, st, ob, halts, stop_user, E, key, max_steps):
                    nval -= 1
        self.account(E)
        self.sample({"case": name, "entry": self.k.near(st0.pc), "paths": len(done),
                     "terminals": sorted({f"{s.status}@{self.k.near(s.pc) if s.status != 'user' else 'exit'}" for s in done})[:8]})
        return done

    def account(self, E):
        self.states += E.stats.steps
        self.paths += E.stats.paths
        self.queries += E.stats.queries
        self.solver_time += E.stats.time
        E.stats = Stats()

    def final(self, st, st0):
        status = "stuck" if st.status in STUCK else st.status
        s2 = st.clone()

        def rd(c, s, v):
            st0.touched.append((c, s, v))
            return s2.seg(c, s).read(v)
        return Final(status, st.stack, st.pc, st.gas, st.ctx, rd, path=st, kexit=st.notes.get("kexit"))

    def query(self, st, nc, timeout):
        """Solve path && nc with CEGAR over the uninterpreted functions. -> ('unsat',None)|('sat',env)|('unknown',None)"""
        s = z3.Solver()
        s.set("timeout", timeout)
        for c in st.conds:
            s.add(c)
        if not isinstance(nc, bool):
            s.add(nc)
        terms = list(st.conds) + ([nc] if not isinstance(nc, bool) else [])
        ap = apps(terms, UF)
        for _ in range(60):
            r = self.solve(s)
            if r != z3.sat:
                return str(r), None
            m = s.model()
            env = model_env(m)
            cache = {}
            if all(evalz(c, env, cache) for c in terms):
                return "sat", env
            n = 0
            for a in ap:
                args = [m.eval(x, model_completion=True) for x in a.children()]
                true = UF_EVAL[a.decl().name()](*[x.as_long() for x in args])
                got = m.eval(a, model_completion=True).as_long()
                if got != true:
                    s.add(z3.Implies(z3.And(*[x == y for x, y in zip(a.children(), args)]), a == true))
                    n += 1
            if n == 0:
                return "unknown", None
        return "spurious", None

    def decide(self, name, st0, st, n, nc, ob, halts, stop_user, E, key, max_steps):
        r, env = self.query(st, nc, self.oblig_timeout)
        if r == "unsat":
            return False
        if r in ("unknown", "spurious"):
            self.undecide(f"{name}: {n}: {r} at {self.k.near(st.pc)} ({st.status})")
            return True
        try:
            bad, case, fin, rr = self.confirm(name, st0, halts, stop_user, ob, env, st.touched + st0.touched, st.prover, key=key)
        except Exception as e:
            self.undecide(f"{name}: {n}: replay failed: {e!r} {traceback.format_exc()}")
            return True
        if bad:
            self.violation(f"{name}: {'; '.join(bad)}", {"case": case, "final": rr, "halts": {str(a): b for a, b in halts.items()}, "obligation": bad}, key=(key(env) if callable(key) else None) or f"{name}: {n}")
        else:
            self.undecide(f"{name}: {n}: model not confirmed by the real code: predicted {st.status}, real {rr.get('status')} regs {str(rr.get('regs'))[:300]} case {json.dumps(case)[:1500]}")
        return True

    def validate_path(self, name, st0, st, ob, halts, stop_user, E, key, max_steps):
        r, env = self.query(st, True, 20000)
        if r != "sat":
            return False
        bad, case, fin, rr = self.confirm(name, st0, halts, stop_user, ob, env, st.touched + st0.touched, st.prover)
        cache = {}
        want = "stuck" if st.status in STUCK else st.status
        same = fin.status == want
        if same and want != "stuck":
            ws = [evalz(x, env, cache) for x in st.stack]
            same = ws == fin.stack and evalz(st.pc, env, cache) == fin.pc
            if same and want == "user":
                same = evalz(st.gas, env, cache) == fin.gas
        if bad:
            self.violation(f"{name}: real run violates: {'; '.join(bad)}", {"case": case, "final": rr, "halts": {str(a): b for a, b in halts.items()}}, key=(key(env) if callable(key) else None) or f"{name}: {bad[0]}")
        elif not same:
            self.undecide(f"{name}: executor disagrees with the real code: predicted {st.status} at {self.k.near(evalz(st.pc, env, cache))} stack {[hex(evalz(x, env, cache)) for x in st.stack][-8:]}, real {rr.get('status')} {str(rr.get('regs'))[:600]} case {json.dumps(case)[:3000]}")
        else:
            self.validated += 1
        return True


# ---------------------------------------------------------------- user-mode helpers
class Sys:
    """Initial state of a system call made by user code, with its obligations' vocabulary."""

    def __init__(self, ch, opcode, nargs, ctx=1, sent=2, gas_bits=32):
        k = ch.k
        self.ch, self.k = ch, k
        self.st = st = State()
        st.pc = k.syscall(opcode)
        st.ctx = ctx
        self.gas_used = z3.ZeroExt(64 - gas_bits, z3.BitVec("gas_used", gas_bits))
        self.gas_limit = z3.ZeroExt(256 - gas_bits, z3.BitVec("gas_limit", gas_bits))
        self.ret_pc = z3.BitVec("ret_pc", 32)
        self.args = [z3.BitVec(f"a{i}", 256) for i in range(nargs)]
        self.sent = [z3.BitVec(f"s{i}", 256) for i in range(sent)]
        self.kexit = z3.Concat(self.gas_used, z3.Concat(z3.BitVecVal(0, 160), self.ret_pc))
        st.stack = self.sent + list(reversed(self.args)) + [self.kexit]
        st.assume(ule(z3.ZeroExt(192, self.gas_used), self.gas_limit))
        self.setctx("GAS_LIMIT", self.gas_limit)

    def fld(self, name):
        return self.k.const[name] & MASK32

    def init(self, ctx, seg, v):
        """Initial memory content, as the obligations need it."""
        seg = self.k.seg[seg] if isinstance(seg, str) else seg
        self.st.touched.append((ctx, seg, v))
        return self.st.seg(ctx, seg).read(v)

    def free(self, ctx, seg, bits=8):
        """Makes the content of a segment arbitrary."""
        self.st.seg(ctx, self.k.seg[seg]).base = func_base(f"{seg}_{ctx}", bits)

    def setctx(self, f, v, ctx=None):
        self.st.seg(self.st.ctx if ctx is None else ctx, self.k.seg["ContextMetadata"]).write(self.fld("CTX_METADATA_" + f), v)

    def setglobal(self, f, v):
        self.st.seg(0, self.k.seg["GlobalMetadata"]).write(self.fld("GLOBAL_METADATA_" + f), v)

    def halts(self, **more):
        h = {self.k.label("fault_exception"): "fault"}
        for a, b in more.items():
            h[self.k.label(a)] = b
        return h

    def replace_args(self, vals):
        self.args = vals
        self.st.stack = self.sent + [bvi(x) for x in reversed(vals)] + [self.kexit]

    def ok(self, fin, results, cost, outgas=None):
        """User return with results on the stack and exact cost; out-of-gas otherwise. `cost` 256-bit term/int."""
        ob = []
        used = z3.ZeroExt(192, self.gas_used)
        oog = ult(self.gas_limit, z3.ZeroExt(192, self.gas_used + low(cost, 64))) if outgas is None else outgas
        if fin.status == "user":
            want = [bv(x) for x in self.sent] + [bv(x) for x in reversed(results)]
            ob.append(("not out of gas", z3.Not(oog)))
            if len(fin.stack) != len(want):
                ob.append(("stack depth", False))
            else:
                for i, (a, b) in enumerate(zip(fin.stack, want)):
                    ob.append((f"stack[{i}]", bv(a) == b))
            ob.append(("gas charged", z3.And(low(fin.gas, 64) == self.gas_used + low(cost, 64), ule(fin.gas, (1 << 64) - 1))))
            ob.append(("return pc", bv(norm(fin.pc)) == z3.ZeroExt(224, self.ret_pc) if not z3.is_bv(fin.pc) or fin.pc.size() == 256 else fin.pc == self.ret_pc))
        elif fin.status == "fault":
            ob.append(("faults only when out of gas", oog))
        else:
            ob.append((f"terminates normally (got {fin.status})", False))
        return ob


def bvi(x):
    return x
