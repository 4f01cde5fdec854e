// Symbolic execution of LLVM IR: one process per path (fork at every branch both sides of which are feasible),
// z3 decides feasibility and the assertions of the harness. Memory is native; symbolic bytes are kept beside it.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <z3.h>

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;

// ------------------------------------------------------------------ shared between the processes
struct Shared {
    std::atomic<long> live, paths, forks, queries, checks, decided, solver_us, violations, undecided, panics, instrs, silent, lock, concretized, maxdepth;
    std::atomic<long> cover[256];
    std::atomic<int> stop;
};
static Shared *sh;
static int MAXP = 8;
static long MAXVIOL = 20, MAXPATHS = 1000000, QTO = 20000;
static double deadline;
static FILE *out; // append-only result file
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ values
static Z3_context C;
static Z3_solver S;
static std::vector<Z3_ast> pathc;
static Z3_model M; // a model of the path condition
struct Val {
    uint32_t w = 0;   // bits; 0 = aggregate or void
    Z3_ast e = nullptr;
    u128 c = 0;
    std::vector<Val> el;
    bool sym() const { return e != nullptr; }
};
static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline Val K(unsigned w, u128 c) { Val v; v.w = w; v.c = c & mask(w); return v; }
static std::unordered_map<unsigned, Z3_sort> sorts;
static Z3_sort bv(unsigned w) { auto &s = sorts[w]; if (!s) s = Z3_mk_bv_sort(C, w); return s; }
static std::string dec(u128 c) { std::string s; do { s.insert(s.begin(), '0' + (int)(c % 10)); c /= 10; } while (c); return s; }
static Z3_ast num(unsigned w, u128 c) { if (c >> 64 == 0) return Z3_mk_unsigned_int64(C, (u64)c, bv(w)); return Z3_mk_numeral(C, dec(c).c_str(), bv(w)); }
static Z3_ast E(const Val &v) { return v.e ? v.e : num(v.w, v.c); }
static Val mk(unsigned w, Z3_ast e) {
    e = Z3_simplify(C, e);
    Val v; v.w = w;
    if (w <= 128 && Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST) {
        uint64_t x;
        if (w <= 64 && Z3_get_numeral_uint64(C, e, &x)) { v.c = x; return v; }
        std::string s = Z3_get_numeral_string(C, e);
        u128 c = 0; for (char ch : s) c = c * 10 + (ch - '0');
        v.c = c; return v;
    }
    v.e = e; return v;
}
static Val B(Z3_ast b) { // boolean term -> i1
    b = Z3_simplify(C, b);
    Z3_lbool k = Z3_get_bool_value(C, b);
    if (k == Z3_L_TRUE) return K(1, 1);
    if (k == Z3_L_FALSE) return K(1, 0);
    Val v; v.w = 1; v.e = Z3_mk_ite(C, b, num(1, 1), num(1, 0)); return v;
}
static Z3_ast asBool(const Val &v) {
    Z3_ast e = E(v);
    // undo B
    if (Z3_get_ast_kind(C, e) == Z3_APP_AST) {
        Z3_app a = Z3_to_app(C, e);
        Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, a));
        if (k == Z3_OP_ITE) {
            Z3_ast t = Z3_get_app_arg(C, a, 1), f = Z3_get_app_arg(C, a, 2);
            uint64_t x, y;
            if (Z3_get_ast_kind(C, t) == Z3_NUMERAL_AST && Z3_get_ast_kind(C, f) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(C, t, &x) && Z3_get_numeral_uint64(C, f, &y)) {
                if (x == 1 && y == 0) return Z3_get_app_arg(C, a, 0);
                if (x == 0 && y == 1) return Z3_mk_not(C, Z3_get_app_arg(C, a, 0));
            }
        }
    }
    return Z3_mk_eq(C, e, num(1, 1));
}
static i128 sx(u128 c, unsigned w) { if (w >= 128) return (i128)c; u128 m = (u128)1 << (w - 1); return (i128)((c ^ m) - m); }

// ------------------------------------------------------------------ results
static std::vector<std::pair<std::string, unsigned>> inputs; // name, bits
static std::vector<Z3_ast> inputv;
static std::vector<const Function *> callstack;
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; } return r; }
static std::string where() {
    std::string r; int n = 0;
    for (auto it = callstack.rbegin(); it != callstack.rend() && n < 12; ++it, ++n) r += (n ? " < " : "") + demangle((*it)->getName().str());
    return r;
}
static void emit(const std::string &line) { std::string s = line + "\n"; (void)!write(fileno(out), s.data(), s.size()); }
static void finish(int) __attribute__((noreturn));
static std::vector<pid_t> kids;
static void reap() { for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { sh->undecided++; emit("{\"undecided\":\"a path process died (status " + std::to_string(st) + ")\"}"); } } kids.clear(); }
static long icount = 0;
static const Instruction *curI;
static void finish(int) {
    sh->paths++; sh->instrs += icount;
    sh->live--;
    reap();
    _exit(0);
}
static void undecide(const std::string &w) { sh->undecided++; emit("{\"undecided\":\"" + esc(w) + "\",\"at\":\"" + esc(where()) + "\"}"); finish(0); }
static std::string modelInputs(Z3_model m) {
    std::string r = "[";
    for (size_t i = 0; i < inputv.size(); i++) {
        Z3_ast v = nullptr;
        std::string s = "0";
        if (Z3_model_eval(C, m, inputv[i], true, &v)) s = Z3_get_numeral_string(C, v);
        r += (i ? "," : "") + std::string("[") + std::to_string(inputs[i].second) + ",\"" + s + "\"]";
    }
    return r + "]";
}
static std::map<std::string, int> reported;
static void violation(const std::string &what, long id, Z3_model m) {
    if (sh->violations++ < MAXVIOL)
        emit("{\"violation\":\"" + esc(what) + "\",\"id\":" + std::to_string(id) + ",\"at\":\"" + esc(where()) + "\",\"inputs\":" + modelInputs(m) + "}");
    else sh->stop = 1;
}

// ------------------------------------------------------------------ solver
static Z3_ast lastIff;
static Z3_lbool query(Z3_ast extra, Z3_model *m) {
    double t = now();
    sh->queries++;
    Z3_lbool r = extra ? Z3_solver_check_assumptions(C, S, 1, &extra) : Z3_solver_check(C, S);
    if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, *m); }
    if (r == Z3_L_UNDEF) { // once more from scratch, with the bit-vector tactic
        Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
        Z3_solver_inc_ref(C, s);
        Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
        Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), QTO * 3);
        Z3_solver_set_params(C, s, p);
        for (auto a : pathc) Z3_solver_assert(C, s, a);
        if (extra && lastIff) Z3_solver_assert(C, s, lastIff);
        if (extra) Z3_solver_assert(C, s, extra);
        r = Z3_solver_check(C, s);
        if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, *m); }
    }
    sh->solver_us += (long)((now() - t) * 1e6);
    if (getenv("SYMX_SLOW") && now() - t > 1) fprintf(stderr, "slow %.1f %d %s\n%s\n", now() - t, r, where().c_str(), lastIff ? std::string(Z3_ast_to_string(C, lastIff)).substr(0, 1500).c_str() : "");
    return r;
}
static Z3_ast lit(Z3_ast b) { // assumptions must be literals: name the condition
    static int n = 0;
    Z3_ast p = Z3_mk_fresh_const(C, "b", Z3_mk_bool_sort(C)); n++;
    lastIff = Z3_mk_iff(C, p, b);
    Z3_solver_assert(C, S, lastIff);
    return p;
}
static void addPath(Z3_ast b) { pathc.push_back(b); Z3_solver_assert(C, S, b); }
static int evalBool(Z3_ast b) {
    if (!M) return -1;
    Z3_ast v;
    if (!Z3_model_eval(C, M, b, true, &v)) return -1;
    Z3_lbool k = Z3_get_bool_value(C, v);
    return k == Z3_L_TRUE ? 1 : k == Z3_L_FALSE ? 0 : -1;
}
static void armProf();
static bool doFork() { // true in the child
    if (sh->stop || now() > deadline || sh->paths > MAXPATHS) {
        if (!sh->stop) { sh->stop = 2; }
        finish(0);
    }
    fflush(nullptr);
    sh->forks++;
    bool par = ++sh->live <= MAXP;
    pid_t p = fork();
    if (p < 0) { sh->live--; undecide("fork failed"); }
    if (p == 0) { kids.clear(); icount = 0; armProf(); return true; }
    if (par) kids.push_back(p);
    else {
        sh->live--; // this process sleeps
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { sh->undecided++; emit("{\"undecided\":\"a path process died (status " + std::to_string(st) + ")\"}"); sh->live--; }
        sh->live++;
    }
    return false;
}
// truth of a symbolic condition on this path; forks when both are possible
static bool branch(Z3_ast b) {
    b = Z3_simplify(C, b);
    Z3_lbool k = Z3_get_bool_value(C, b);
    if (k == Z3_L_TRUE) return true;
    if (k == Z3_L_FALSE) return false;
    int e = evalBool(b);
    Z3_ast l = lit(b), nl = Z3_mk_not(C, l);
    Z3_model m2 = nullptr;
    if (e < 0) {
        Z3_lbool r = query(l, &m2);
        if (r == Z3_L_UNDEF) undecide("solver gave up on a branch");
        if (r == Z3_L_FALSE) { addPath(Z3_mk_not(C, b)); return false; }
        M = m2; e = 1;
    }
    m2 = nullptr;
    Z3_lbool r = query(e ? nl : l, &m2);
    if (r == Z3_L_UNDEF) undecide("solver gave up on a branch");
    if (r == Z3_L_FALSE) { addPath(e ? b : Z3_mk_not(C, b)); return e; }
    if (doFork()) { M = m2; addPath(e ? Z3_mk_not(C, b) : b); return !e; }
    addPath(e ? b : Z3_mk_not(C, b));
    return e;
}
static u128 modelVal(Z3_ast e) {
    Z3_ast v;
    if (!M) { Z3_model m = nullptr; if (query(nullptr, &m) != Z3_L_TRUE) undecide("no model of the path"); M = m; }
    Z3_model_eval(C, M, e, true, &v);
    std::string s = Z3_get_numeral_string(C, v);
    u128 c = 0; for (char ch : s) c = c * 10 + (ch - '0');
    return c;
}
static u128 concretize(const Val &v) { // forks over all values
    if (!v.sym()) return v.c;
    sh->concretized++;
    for (int n = 0;; n++) {
        if (n > 4096) undecide("too many values of a length, address or index");
        u128 c = modelVal(v.e);
        if (branch(Z3_mk_eq(C, v.e, num(v.w, c)))) return c;
    }
}

// ------------------------------------------------------------------ memory
struct SB { Z3_ast e = nullptr; uint32_t i = 0; };
struct SW { SB b[8]; };
static std::unordered_map<u64, SW> symw;
static uint32_t filt[1 << 16];
static inline uint32_t &fl(u64 a) { return filt[(a >> 6) & 0xffff]; }
static inline bool anySym(u64 a, u64 n) {
    for (u64 k = a >> 6; k <= (a + n - 1) >> 6; k++) if (filt[k & 0xffff]) return true;
    return false;
}
static SB *symByte(u64 a) {
    if (!fl(a)) return nullptr;
    auto it = symw.find(a >> 3);
    if (it == symw.end()) return nullptr;
    SB *s = &it->second.b[a & 7];
    return s->e ? s : nullptr;
}
static void clearSym(u64 a, u64 n) {
    if (!n || !anySym(a, n)) return;
    for (u64 k = a >> 3; k <= (a + n - 1) >> 3; k++) {
        auto it = symw.find(k);
        if (it == symw.end()) continue;
        bool left = false;
        for (int j = 0; j < 8; j++) { u64 x = k * 8 + j; if (x >= a && x < a + n) it->second.b[j].e = nullptr; left |= it->second.b[j].e != nullptr; }
        if (!left) { symw.erase(it); fl(k * 8)--; }
    }
}
static void setSym(u64 a, Z3_ast e, uint32_t i) {
    auto it = symw.find(a >> 3);
    if (it == symw.end()) { it = symw.emplace(a >> 3, SW()).first; fl(a)++; }
    it->second.b[a & 7] = SB{e, i};
}
static std::map<u64, u64> allocs; // live allocations: start -> size
static bool valid(u64 a, u64 n) {
    auto it = allocs.upper_bound(a);
    if (it == allocs.begin()) return false;
    --it;
    return a + n <= it->first + it->second;
}
static u64 lastLo = 1, lastHi = 0;
static void access(u64 a, u64 n) {
    if (a >= lastLo && a + n <= lastHi) return;
    auto it = allocs.upper_bound(a);
    if (it != allocs.begin()) { --it; if (a + n <= it->first + it->second) { lastLo = it->first; lastHi = it->first + it->second; return; } }
    violation("memory access out of bounds", -2, M ? M : (modelVal(num(1, 0)), M));
    finish(0);
}
static u64 galloc(u64 n, u64 align) {
    void *p = nullptr;
    if (align < 16) align = 16;
    if (posix_memalign(&p, align, n ? n : 1)) undecide("out of memory");
    memset(p, 0, n ? n : 1);
    allocs[(u64)p] = n;
    return (u64)p;
}
static void gfree(u64 p) {
    auto it = allocs.find(p);
    if (it == allocs.end()) return;
    clearSym(p, it->second);
    if (p == lastLo) { lastLo = 1; lastHi = 0; }
    allocs.erase(it);
    free((void *)p);
}
static void storeInt(u64 a, const Val &v) {
    unsigned n = (v.w + 7) / 8;
    access(a, n);
    if (!v.sym()) { u128 c = v.c; clearSym(a, n); memcpy((void *)a, &c, n < 16 ? n : 16); if (n > 16) memset((char *)a + 16, 0, n - 16); return; }
    Z3_ast e = v.e;
    if (v.w % 8) e = Z3_mk_zero_ext(C, n * 8 - v.w, e);
    for (unsigned i = 0; i < n; i++) setSym(a + i, e, i);
}
static Z3_ast byteE(u64 a) {
    SB *s = symByte(a);
    if (!s) return num(8, *(uint8_t *)a);
    if (Z3_get_bv_sort_size(C, Z3_get_sort(C, s->e)) == 8) return s->e;
    return Z3_mk_extract(C, 8 * s->i + 7, 8 * s->i, s->e);
}
static Val loadInt(u64 a, unsigned w) {
    unsigned n = (w + 7) / 8;
    access(a, n);
    bool any = anySym(a, n);
    if (any) { any = false; for (unsigned i = 0; i < n && !any; i++) any = symByte(a + i) != nullptr; }
    if (!any && n <= 16) { u128 c = 0; memcpy(&c, (void *)a, n); return K(w, c); }
    SB *s0 = symByte(a);
    bool run = s0 != nullptr;
    Z3_ast e;
    for (unsigned i = 1; i < n && run; i++) { SB *s = symByte(a + i); run = s && s->e == s0->e && s->i == s0->i + i; }
    if (run) {
        unsigned sz = Z3_get_bv_sort_size(C, Z3_get_sort(C, s0->e));
        e = (s0->i == 0 && sz == 8 * n) ? s0->e : Z3_mk_extract(C, 8 * (s0->i + n) - 1, 8 * s0->i, s0->e);
    } else {
        e = byteE(a + n - 1);
        for (int i = (int)n - 2; i >= 0; i--) e = Z3_mk_concat(C, e, byteE(a + i));
    }
    if (w < 8 * n) e = Z3_mk_extract(C, w - 1, 0, e);
    return mk(w, e);
}
static void copyBytes(u64 d, u64 s, u64 n) { // memmove
    if (!n || d == s) return;
    access(s, n); access(d, n);
    if (!anySym(s, n)) { clearSym(d, n); memmove((void *)d, (void *)s, n); return; }
    std::vector<SB> t(n);
    for (u64 i = 0; i < n; i++) if (SB *b = symByte(s + i)) t[i] = *b;
    memmove((void *)d, (void *)s, n);
    clearSym(d, n);
    for (u64 i = 0; i < n; i++) if (t[i].e) setSym(d + i, t[i].e, t[i].i);
}

// ------------------------------------------------------------------ program
static Module *Mod;
static const DataLayout *DL;
static std::unordered_map<const Value *, u64> gaddr;
static std::unordered_map<u64, const Function *> faddr;
static u64 fnext = 0x100000;
static unsigned bits(Type *t) { return t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : 0; }

static Val zeroOf(Type *t) {
    if (unsigned w = bits(t)) { if (w > 128) { Val v; v.w = w; v.e = Z3_mk_numeral(C, "0", bv(w)); return v; } return K(w, 0); }
    Val v;
    if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) v.el.push_back(zeroOf(e));
    else if (auto *at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.el.push_back(zeroOf(at->getElementType()));
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) v.el.push_back(zeroOf(vt->getElementType()));
    return v;
}
static Val load(u64 a, Type *t) {
    if (unsigned w = bits(t)) return loadInt(a, w);
    Val v;
    if (auto *st = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.el.push_back(load(a + l->getElementOffset(i), st->getElementType(i))); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) v.el.push_back(load(a + i * s, at->getElementType())); }
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = bits(vt->getElementType());
        if (ew % 8) undecide("load of a vector of sub-byte elements");
        for (u64 i = 0; i < vt->getNumElements(); i++) v.el.push_back(load(a + i * ew / 8, vt->getElementType()));
    } else undecide("load of an unknown type");
    return v;
}
static void store(u64 a, const Val &v, Type *t) {
    if (bits(t)) { storeInt(a, v); return; }
    if (auto *st = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) store(a + l->getElementOffset(i), v.el[i], st->getElementType(i)); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) store(a + i * s, v.el[i], at->getElementType()); }
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = bits(vt->getElementType());
        if (ew % 8) undecide("store of a vector of sub-byte elements");
        for (u64 i = 0; i < vt->getNumElements(); i++) store(a + i * ew / 8, v.el[i], vt->getElementType());
    } else undecide("store of an unknown type");
}
static u64 globalAddr(const GlobalValue *g);
static Val constant(const Constant *c);
static Val constWide(const APInt &x) {
    if (x.getBitWidth() <= 64) return K(x.getBitWidth(), x.getZExtValue());
    if (x.getBitWidth() <= 128) return K(x.getBitWidth(), ((u128)x.extractBitsAsZExtValue(x.getBitWidth() - 64, 64) << 64) | x.extractBitsAsZExtValue(64, 0));
    SmallString<128> s; x.toStringUnsigned(s);
    Val v; v.w = x.getBitWidth(); v.e = Z3_mk_numeral(C, s.c_str(), bv(v.w)); return v;
}
static Val constant(const Constant *c) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) return constWide(ci->getValue());
    if (auto *cf = dyn_cast<ConstantFP>(c)) return constWide(cf->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto *g = dyn_cast<GlobalValue>(c)) return K(64, globalAddr(g));
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { Val v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.el.push_back(constant(cd->getElementAsConstant(i))); return v; }
    if (isa<ConstantAggregate>(c)) { Val v; for (unsigned i = 0; i < c->getNumOperands(); i++) v.el.push_back(constant(cast<Constant>(c->getOperand(i)))); return v; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
            return K(64, constant(cast<Constant>(ce->getOperand(0))).c + (u64)off.getSExtValue());
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: {
            Val v = constant(ce->getOperand(0)); if (v.w && bits(t)) return K(bits(t), v.c); return v;
        }
        case Instruction::Sub: return K(bits(t), constant(ce->getOperand(0)).c - constant(ce->getOperand(1)).c);
        case Instruction::Add: return K(bits(t), constant(ce->getOperand(0)).c + constant(ce->getOperand(1)).c);
        default: break;
        }
    }
    std::string s; raw_string_ostream o(s); c->print(o);
    undecide("constant " + s);
    return Val();
}
static u64 globalAddr(const GlobalValue *g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto *a = dyn_cast<GlobalAlias>(g)) return gaddr[g] = constant(a->getAliasee()).c;
    if (auto *f = dyn_cast<Function>(g)) { fnext += 16; faddr[fnext] = f; return gaddr[g] = fnext; }
    auto *v = cast<GlobalVariable>(g);
    u64 n = DL->getTypeAllocSize(v->getValueType());
    u64 a = galloc(n, std::max<u64>(16, v->getAlign() ? v->getAlign()->value() : 1));
    gaddr[g] = a;
    if (v->hasInitializer()) {
        Constant *in = const_cast<Constant *>(v->getInitializer());
        if (auto *cd = dyn_cast<ConstantDataSequential>(in)) { StringRef r = cd->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); }
        else if (!isa<ConstantAggregateZero>(in) && !isa<UndefValue>(in)) store(a, constant(in), v->getValueType());
    }
    return a;
}

struct Op { int slot; Val k; };
struct In { const Instruction *I; int dst; std::vector<Op> ops; };
struct Fn { int n = 0; std::unordered_map<const BasicBlock *, int> bb; std::vector<std::vector<In>> code; std::vector<const BasicBlock *> blocks; };
static std::unordered_map<const Function *, Fn *> fns;
static Fn *prep(const Function *f) {
    auto it = fns.find(f);
    if (it != fns.end()) return it->second;
    Fn *r = new Fn;
    std::unordered_map<const Value *, int> slot;
    for (auto &a : f->args()) slot[&a] = r->n++;
    for (auto &b : *f) { r->bb[&b] = r->blocks.size(); r->blocks.push_back(&b); for (auto &i : b) slot[&i] = r->n++; }
    for (auto &b : *f) {
        r->code.emplace_back();
        for (auto &i : b) {
            In x; x.I = &i; x.dst = slot[&i];
            for (auto &o : i.operands()) {
                Op p; p.slot = -1;
                auto q = slot.find(o.get());
                if (q != slot.end()) p.slot = q->second;
                else if (auto *c = dyn_cast<Constant>(o.get())) { if (!(isa<Function>(c) && cast<Function>(c)->isIntrinsic())) p.k = constant(c); }
                x.ops.push_back(p);
            }
            r->code.back().push_back(std::move(x));
        }
    }
    return fns[f] = r;
}

// ------------------------------------------------------------------ operations
static Val ext(const Val &v, unsigned w, bool s) {
    if (v.w == w) return v;
    if (v.w > w) { if (!v.sym()) return K(w, v.c); return mk(w, Z3_mk_extract(C, w - 1, 0, v.e)); }
    if (!v.sym() && w <= 128) return K(w, s ? (u128)sx(v.c, v.w) : v.c);
    return mk(w, s ? Z3_mk_sign_ext(C, w - v.w, E(v)) : Z3_mk_zero_ext(C, w - v.w, E(v)));
}
static Val ite(Z3_ast c, const Val &a, const Val &b) {
    if (!a.el.empty()) { Val r; for (size_t i = 0; i < a.el.size(); i++) r.el.push_back(ite(c, a.el[i], b.el[i])); return r; }
    if (!a.sym() && !b.sym() && a.c == b.c) return a;
    return mk(a.w, Z3_mk_ite(C, c, E(a), E(b)));
}
static void panic(const std::string &what);
static Val bin(unsigned op, const Val &a, const Val &b) {
    if (!a.el.empty()) { Val r; for (size_t i = 0; i < a.el.size(); i++) r.el.push_back(bin(op, a.el[i], b.el[i])); return r; }
    unsigned w = a.w;
    if (!a.sym() && !b.sym()) {
        u128 x = a.c, y = b.c;
        switch (op) {
        case Instruction::Add: return K(w, x + y);
        case Instruction::Sub: return K(w, x - y);
        case Instruction::Mul: return K(w, x * y);
        case Instruction::UDiv: if (!y) panic("division by zero"); return K(w, x / y);
        case Instruction::URem: if (!y) panic("division by zero"); return K(w, x % y);
        case Instruction::SDiv: if (!y) panic("division by zero"); return K(w, (u128)(sx(x, w) / sx(y, w)));
        case Instruction::SRem: if (!y) panic("division by zero"); return K(w, (u128)(sx(x, w) % sx(y, w)));
        case Instruction::Shl: return y >= w ? K(w, 0) : K(w, x << y);
        case Instruction::LShr: return y >= w ? K(w, 0) : K(w, x >> y);
        case Instruction::AShr: return K(w, (u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)));
        case Instruction::And: return K(w, x & y);
        case Instruction::Or: return K(w, x | y);
        case Instruction::Xor: return K(w, x ^ y);
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
            if (w == 64) { double p, q; u64 t = (u64)x; memcpy(&p, &t, 8); t = (u64)y; memcpy(&q, &t, 8); p = op == Instruction::FAdd ? p + q : op == Instruction::FSub ? p - q : op == Instruction::FMul ? p * q : p / q; memcpy(&t, &p, 8); return K(64, t); }
            else { float p, q; uint32_t t = (uint32_t)x; memcpy(&p, &t, 4); t = (uint32_t)y; memcpy(&q, &t, 4); p = op == Instruction::FAdd ? p + q : op == Instruction::FSub ? p - q : op == Instruction::FMul ? p * q : p / q; memcpy(&t, &p, 4); return K(32, t); }
        default: undecide("operation");
        }
    }
    if (w == 1) { // keep booleans boolean
        Z3_ast x = asBool(a), y = asBool(b), t[2] = {x, y};
        switch (op) {
        case Instruction::And: return B(Z3_mk_and(C, 2, t));
        case Instruction::Or: return B(Z3_mk_or(C, 2, t));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return B(Z3_mk_xor(C, x, y));
        }
    }
    Z3_ast x = E(a), y = E(b);
    switch (op) {
    case Instruction::Add: return mk(w, Z3_mk_bvadd(C, x, y));
    case Instruction::Sub: return mk(w, Z3_mk_bvsub(C, x, y));
    case Instruction::Mul: return mk(w, Z3_mk_bvmul(C, x, y));
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (branch(Z3_mk_eq(C, y, num(w, 0)))) panic("division by zero");
        return mk(w, op == Instruction::UDiv ? Z3_mk_bvudiv(C, x, y) : op == Instruction::URem ? Z3_mk_bvurem(C, x, y) : op == Instruction::SDiv ? Z3_mk_bvsdiv(C, x, y) : Z3_mk_bvsrem(C, x, y));
    case Instruction::Shl: return mk(w, Z3_mk_bvshl(C, x, y));
    case Instruction::LShr: return mk(w, Z3_mk_bvlshr(C, x, y));
    case Instruction::AShr: return mk(w, Z3_mk_bvashr(C, x, y));
    case Instruction::And: return mk(w, Z3_mk_bvand(C, x, y));
    case Instruction::Or: return mk(w, Z3_mk_bvor(C, x, y));
    case Instruction::Xor: return mk(w, Z3_mk_bvxor(C, x, y));
    default: undecide("symbolic floating point");
    }
    return Val();
}
static Val cmp(unsigned p, const Val &a, const Val &b) {
    if (!a.el.empty()) { Val r; for (size_t i = 0; i < a.el.size(); i++) r.el.push_back(cmp(p, a.el[i], b.el[i])); return r; }
    unsigned w = a.w;
    if (!a.sym() && !b.sym()) {
        u128 x = a.c, y = b.c; i128 s = sx(x, w), t = sx(y, w); bool r = false;
        switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break;
        default: {
            double d, f;
            if (w == 64) { u64 q = (u64)x; memcpy(&d, &q, 8); q = (u64)y; memcpy(&f, &q, 8); } else { float u; uint32_t q = (uint32_t)x; memcpy(&u, &q, 4); d = u; q = (uint32_t)y; memcpy(&u, &q, 4); f = u; }
            bool un = d != d || f != f;
            r = un ? (p & 8) : d == f ? (p & 1) : d > f ? (p & 2) : (p & 4);
        }
        }
        return K(1, r);
    }
    Z3_ast x = E(a), y = E(b);
    switch (p) {
    case CmpInst::ICMP_EQ: return B(Z3_mk_eq(C, x, y)); case CmpInst::ICMP_NE: return B(Z3_mk_not(C, Z3_mk_eq(C, x, y)));
    case CmpInst::ICMP_UGT: return B(Z3_mk_bvugt(C, x, y)); case CmpInst::ICMP_UGE: return B(Z3_mk_bvuge(C, x, y));
    case CmpInst::ICMP_ULT: return B(Z3_mk_bvult(C, x, y)); case CmpInst::ICMP_ULE: return B(Z3_mk_bvule(C, x, y));
    case CmpInst::ICMP_SGT: return B(Z3_mk_bvsgt(C, x, y)); case CmpInst::ICMP_SGE: return B(Z3_mk_bvsge(C, x, y));
    case CmpInst::ICMP_SLT: return B(Z3_mk_bvslt(C, x, y)); case CmpInst::ICMP_SLE: return B(Z3_mk_bvsle(C, x, y));
    }
    undecide("symbolic comparison of floating-point numbers");
    return Val();
}
static Val map1(const Val &a, const std::function<Val(const Val &)> &f) {
    if (!a.el.empty()) { Val r; for (auto &x : a.el) r.el.push_back(map1(x, f)); return r; }
    return f(a);
}
static Val map2(const Val &a, const Val &b, const std::function<Val(const Val &, const Val &)> &f) {
    if (!a.el.empty()) { Val r; for (size_t i = 0; i < a.el.size(); i++) r.el.push_back(map2(a.el[i], b.el[i], f)); return r; }
    return f(a, b);
}
static Val flat(const Val &v) { // aggregate of integers as one integer (little endian)
    if (v.el.empty()) return v;
    Val r = flat(v.el[0]);
    for (size_t i = 1; i < v.el.size(); i++) {
        Val x = flat(v.el[i]);
        if (!r.sym() && !x.sym() && r.w + x.w <= 128) r = K(r.w + x.w, r.c | (x.c << r.w));
        else r = mk(r.w + x.w, Z3_mk_concat(C, E(x), E(r)));
    }
    return r;
}
static Val slice(const Val &v, unsigned lo, unsigned w) { if (!v.sym()) return K(w, v.c >> lo); return mk(w, Z3_mk_extract(C, lo + w - 1, lo, v.e)); }
static Val bitcast(const Val &v, Type *t) {
    if (bits(t)) { if (v.el.empty()) return v; return flat(v); }
    auto *vt = dyn_cast<FixedVectorType>(t);
    if (!vt) return v;
    Val f = flat(v), r; unsigned w = bits(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) r.el.push_back(slice(f, i * w, w));
    return r;
}
static int mayPanic = 0; // 0: a panic violates; 1: it ends the path; 2: it is what must happen
static void panic(const std::string &what) {
    sh->panics++;
    if (mayPanic == 0) {
        if (!M) modelVal(num(1, 0));
        violation("panic: " + what, -1, M);
    } else sh->silent++;
    finish(0);
}
static void check(const Val &c, long id) {
    sh->checks++;
    if (!c.sym()) {
        if (c.c) { sh->decided++; return; }
        if (!M) modelVal(num(1, 0));
        violation("check", id, M); finish(0);
    }
    Z3_ast b = Z3_simplify(C, Z3_mk_not(C, asBool(c)));
    Z3_model m = nullptr;
    Z3_lbool r = query(lit(b), &m);
    if (r == Z3_L_UNDEF) { undecide("solver gave up on check " + std::to_string(id)); }
    if (r == Z3_L_TRUE) { violation("check", id, m); finish(0); }
    sh->decided++;
    addPath(asBool(c));
}

struct UF { u64 k; long id; std::vector<Z3_ast> in; Z3_ast out; unsigned w; bool conc; std::string bytes, outb; };
static std::unordered_map<std::string, size_t> ufConc;
static std::vector<UF> ufs;
static int hashMode = 0; // 1: one concrete output per class of equal inputs (forks on equality)
static void tag(u64 k, u64 w, unsigned char *o) {
    u64 x = 0x9e3779b97f4a7c15ull * (k + 1);
    for (u64 i = 0; i < w; i++) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; x += i + 1; o[i] = x >> 24; }
}
static void keccak256(const unsigned char *in, u64 n, unsigned char *out) {
    static const u64 RC[24] = {1ull, 0x8082ull, 0x800000000000808aull, 0x8000000080008000ull, 0x808bull, 0x80000001ull, 0x8000000080008081ull, 0x8000000000008009ull, 0x8aull, 0x88ull, 0x80008009ull, 0x8000000aull,
                               0x8000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 0x8000000000008002ull, 0x8000000000000080ull, 0x800aull, 0x800000008000000aull, 0x8000000080008081ull,
                               0x8000000000008080ull, 0x80000001ull, 0x8000000080008008ull};
    std::vector<unsigned char> p(in, in + n);
    p.push_back(1); while (p.size() % 136) p.push_back(0);
    p.back() |= 0x80;
    u64 a[25] = {0};
    for (u64 o = 0; o < p.size(); o += 136) {
        for (int i = 0; i < 17; i++) { u64 w; memcpy(&w, &p[o + 8 * i], 8); a[i] ^= w; }
        for (int r = 0; r < 24; r++) {
            auto rot = [](u64 x, int k) { return k ? x << k | x >> (64 - k) : x; };
            u64 c[5], d[5], b[25];
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int x = 0; x < 5; x++) d[x] = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1);
            for (int i = 0; i < 25; i++) a[i] ^= d[i % 5];
            int x = 1, y = 0; b[0] = a[0];
            for (int t = 0; t < 24; t++) { int k = (t + 1) * (t + 2) / 2 % 64, X = y, Y = (2 * x + 3 * y) % 5; b[X + 5 * Y] = rot(a[x + 5 * y], k); x = X; y = Y; }
            for (int i = 0; i < 25; i++) a[i] = b[i] ^ (~b[(i % 5 + 1) % 5 + i / 5 * 5] & b[(i % 5 + 2) % 5 + i / 5 * 5]);
            a[0] ^= RC[r];
        }
    }
    memcpy(out, a, 32);
}
static bool realKeccak = false; // keccak256 itself on inputs without symbolic bytes
static void putBytes(u64 o, const std::string &b) { for (u64 i = 0; i < b.size(); i++) storeInt(o + i, K(8, (unsigned char)b[i])); }
static void ufHash(long id, u64 in, u64 n, u64 o, u64 m) { // injective uninterpreted function
    access(o, m); if (n) access(in, n);
    UF u; u.id = id; u.w = m * 8;
    u.conc = !n || !anySym(in, n);
    if (u.conc) {
        u.bytes.assign((char *)in, n);
        auto it = ufConc.find(std::to_string(id) + ":" + std::to_string(m) + ":" + u.bytes);
        if (it != ufConc.end() && hashMode) { putBytes(o, ufs[it->second].outb); return; }
    }
    for (u64 i = 0; i < n; i++) u.in.push_back(byteE(in + i));
    std::vector<std::pair<Z3_ast, Z3_ast>> ax; // earlier output, condition for equality (null: never)
    for (auto &p : ufs) {
        if (p.id != id || p.w != u.w) continue;
        if (p.in.size() != n || (p.conc && u.conc && p.bytes != u.bytes)) { ax.push_back({p.out, nullptr}); continue; }
        std::vector<Z3_ast> eq;
        bool never = false;
        for (u64 i = 0; i < n && !never; i++) {
            if (p.in[i] == u.in[i]) continue;
            Z3_ast q = Z3_simplify(C, Z3_mk_eq(C, p.in[i], u.in[i]));
            Z3_lbool k = Z3_get_bool_value(C, q);
            if (k == Z3_L_FALSE) never = true;
            else if (k != Z3_L_TRUE) eq.push_back(q);
        }
        if (never) { ax.push_back({p.out, nullptr}); continue; }
        if (!eq.empty() && hashMode) {
            Z3_ast all = Z3_mk_and(C, eq.size(), eq.data());
            if (!branch(all)) continue;
        } else if (!eq.empty()) { // equal on every input of this path?
            Z3_ast all = Z3_mk_and(C, eq.size(), eq.data());
            if (!M) { Z3_model m2 = nullptr; if (query(nullptr, &m2) == Z3_L_TRUE) M = m2; }
            if (evalBool(all) != 1) { ax.push_back({p.out, all}); continue; }
            if (query(lit(Z3_mk_not(C, all)), nullptr) != Z3_L_FALSE) { ax.push_back({p.out, all}); continue; }
        }
        u.out = p.out;
        if (hashMode) { putBytes(o, p.outb); return; }
        for (u64 i = 0; i < m; i++) setSym(o + i, u.out, i);
        return;
    }
    u.k = (u64)id * 1000003 + ufs.size();
    if (u.conc) ufConc[std::to_string(id) + ":" + std::to_string(m) + ":" + u.bytes] = ufs.size();
    if (hashMode) {
        unsigned char t[256];
        if (realKeccak && id == 0 && m == 32 && u.conc) keccak256((unsigned char *)in, n, t); else tag(u.k, m, t);
        u.outb.assign((char *)t, m);
        u.out = nullptr;
        putBytes(o, u.outb);
        ufs.push_back(u);
        return;
    }
    u.out = Z3_mk_fresh_const(C, "h", bv(m * 8));
    for (auto &x : ax) {
        Z3_ast same = Z3_mk_eq(C, x.first, u.out);
        addPath(x.second ? Z3_mk_iff(C, same, x.second) : Z3_mk_not(C, same));
    }
    ufs.push_back(u);
    M = nullptr;
    for (u64 i = 0; i < m; i++) setSym(o + i, u.out, i);
}

static Val call(const Function *f, std::vector<Val> &args);
static bool isPanic(const std::string &d) {
    static const char *p[] = {"core::panicking::", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "core::slice::index::slice_", "core::str::slice_error_fail",
                              "std::panicking::", "alloc::alloc::handle_alloc_error", "alloc::raw_vec::capacity_overflow", "alloc::raw_vec::handle_error", "core::cell::panic_already", "rust_begin_unwind", "rust_panic", "__rust_start_panic",
                              "core::slice::copy_from_slice", "core::slice::index::slice_end", "std::process::abort", "std::rt::", "core::array::", "core::char::methods::encode", "std::sys::pal::unix::abort_internal"};
    for (auto q : p) if (d.rfind(q, 0) == 0) {
        if (d.find("fmt") != std::string::npos && d.find("panic_fmt") == std::string::npos && d.find("assert_failed") == std::string::npos) continue;
        if (d.rfind("std::panicking::panic_count", 0) == 0 || d.rfind("std::panicking::try", 0) == 0) return false;
        if (d.rfind("core::array::", 0) == 0 && d.find("fail") == std::string::npos) return false;
        return true;
    }
    return d.find("::len_mismatch_fail") != std::string::npos || d.find("alloc::vec::Vec<T,A>::remove::assert_failed") != std::string::npos || d.find("::assert_failed") != std::string::npos || d.find("::panic_already_") != std::string::npos || d.find("bounds_check_failed") != std::string::npos;
}
static Val external(const Function *f, std::vector<Val> &a) {
    std::string n = f->getName().str();
    auto c = [&](int i) { return concretize(a[i]); };
    if (n == "symx_bytes") {
        u64 p = c(0), k = c(1);
        if (k) access(p, k);
        for (u64 o = 0; o < k;) {
            u64 m = std::min<u64>(8, k - o);
            std::string nm = "v" + std::to_string(inputs.size());
            Z3_ast v = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), bv(m * 8));
            inputs.push_back({nm, (unsigned)m * 8}); inputv.push_back(v);
            for (u64 i = 0; i < m; i++) setSym(p + o + i, v, i);
            o += m;
        }
        return Val();
    }
    if (n == "symx_assume") {
        if (!a[0].sym()) { if (!a[0].c) { sh->silent++; finish(0); } return Val(); }
        Z3_ast b = asBool(ext(a[0], 1, false));
        if (evalBool(b) == 1) { addPath(b); return Val(); }
        Z3_model m = nullptr;
        Z3_lbool r = query(lit(b), &m);
        if (r == Z3_L_UNDEF) undecide("solver gave up on an assumption");
        if (r == Z3_L_FALSE) { sh->silent++; finish(0); }
        M = m; addPath(b);
        return Val();
    }
    if (n == "symx_check") { check(ext(a[0], 1, false), (long)c(1)); return Val(); }
    if (n == "symx_cover") { sh->cover[c(0) & 255]++; return Val(); }
    if (n == "symx_panics") { mayPanic = (int)c(0); return Val(); }
    if (n == "symx_concrete") return K(a[0].w, c(0));
    if (n == "symx_branch") return K(1, a[0].sym() ? branch(asBool(ext(a[0], 1, false))) : (bool)(a[0].c & 1));
    if (n == "symx_hash") { ufHash(c(0), c(1), c(2), c(3), c(4)); return Val(); }
    if (n == "symx_hash_mode") { hashMode = (int)c(0) & 1; realKeccak = (int)c(0) & 2; return Val(); }
    if (n == "symx_print") { u64 p = c(0), k = c(1); fprintf(stderr, "[%d] %.*s", getpid(), (int)k, (char *)p); if (a.size() > 2) fprintf(stderr, " %s", a[2].sym() ? Z3_ast_to_string(C, a[2].e) : dec(a[2].c).c_str()); fprintf(stderr, "\n"); return Val(); }
    if (n == "malloc") return K(64, galloc(c(0), 16));
    if (n == "calloc") return K(64, galloc(c(0) * c(1), 16));
    if (n == "posix_memalign") { u64 p = c(0), al = c(1), s = c(2); storeInt(p, K(64, galloc(s, al))); return K(32, 0); }
    if (n == "aligned_alloc") { u64 al = c(0), s = c(1); return K(64, galloc(s, al)); }
    if (n == "realloc") {
        u64 p = c(0), s = c(1), q = galloc(s, 16);
        if (p) { u64 o = allocs[p]; copyBytes(q, p, std::min(o, s)); gfree(p); }
        return K(64, q);
    }
    if (n == "free") { gfree(c(0)); return Val(); }
    if (n == "strlen") { u64 p = c(0); return K(64, strlen((char *)p)); }
    if (n == "bcmp" || n == "memcmp") {
        u64 p = c(0), q = c(1), k = c(2);
        if (k) { access(p, k); access(q, k); }
        if (!k || (!anySym(p, k) && !anySym(q, k))) { int r = k ? memcmp((void *)p, (void *)q, k) : 0; return K(32, (u128)(i128)(r < 0 ? -1 : r > 0 ? 1 : 0)); }
        if (n == "bcmp") {
            Z3_ast eq = Z3_mk_true(C);
            for (u64 i = 0; i < k;) {
                unsigned m = std::min<u64>(8, k - i);
                Val x = loadInt(p + i, 8 * m), y = loadInt(q + i, 8 * m);
                Z3_ast t[2] = {eq, Z3_mk_eq(C, E(x), E(y))};
                eq = Z3_mk_and(C, 2, t); i += m;
            }
            Val b = B(eq);
            if (!b.sym()) return K(32, !b.c);
            return mk(32, Z3_mk_ite(C, asBool(b), num(32, 0), num(32, 1)));
        }
        Z3_ast r = num(32, 0);
        for (i128 i = (i128)k - 1; i >= 0; i--) {
            Z3_ast x = byteE(p + i), y = byteE(q + i);
            r = Z3_mk_ite(C, Z3_mk_eq(C, x, y), r, Z3_mk_ite(C, Z3_mk_bvult(C, x, y), num(32, 0xffffffff), num(32, 1)));
        }
        return mk(32, r);
    }
    if (n == "memcpy" || n == "memmove") { u64 k = c(2); copyBytes(c(0), c(1), k); return a[0]; }
    if (n == "memset") { u64 p = c(0), k = c(2); for (u64 i = 0; i < k; i++) storeInt(p + i, ext(a[1], 8, false)); return a[0]; }
    if (n == "getenv") return K(64, 0);
    if (n == "write") return a[2];
    if (n == "abort" || n == "_exit" || n == "exit") panic(n);
    if (n == "syscall" || n == "getrandom") { // randomness: fixed
        u64 p = n == "syscall" ? c(1) : c(0), k = n == "syscall" ? c(2) : c(1);
        if (n == "syscall" && c(0) != 318) { if (c(0) == 202) return K(64, 0); undecide("system call " + dec(c(0))); }
        for (u64 i = 0; i < k; i++) storeInt(p + i, K(8, 7 * i + 1));
        return K(64, k);
    }
    if (n == "__errno_location") { static u64 p = 0; if (!p) p = galloc(8, 8); return K(64, p); }
    if (n == "pthread_key_create") { static int k = 0; storeInt(c(0), K(32, ++k)); return K(32, 0); }
    if (n == "pthread_setspecific" || n == "pthread_key_delete" || n == "__cxa_thread_atexit_impl") return K(32, 0);
    if (n == "pthread_getspecific") return K(64, 0);
    if (n == "getpid") return K(32, 1);
    if (n == "clock_gettime") { u64 p = c(1); storeInt(p, K(64, 1000)); storeInt(p + 8, K(64, 0)); return K(32, 0); }
    if (n == "sched_yield") return K(32, 0);
    if (n == "sysconf") return K(64, 1);
    undecide("external function " + n);
    return Val();
}
static Val clz(const Val &v, bool lead) {
    unsigned w = v.w;
    if (!v.sym()) { unsigned r = 0; if (lead) while (r < w && !(v.c >> (w - 1 - r) & 1)) r++; else while (r < w && !(v.c >> r & 1)) r++; return K(w, r); }
    Z3_ast r = num(w, w);
    for (unsigned i = 0; i < w; i++) { unsigned b = lead ? i : w - 1 - i; r = Z3_mk_ite(C, Z3_mk_eq(C, Z3_mk_extract(C, b, b, v.e), num(1, 1)), num(w, lead ? w - 1 - b : b), r); }
    return mk(w, r);
}
static Val pair(const Val &a, const Val &b) { Val r; r.el = {a, b}; return r; }
// an upper bound of an unsigned value of at most 64 bits
static u128 umaxA(Z3_ast e, int d) {
    unsigned w = Z3_get_bv_sort_size(C, Z3_get_sort(C, e));
    u128 all = w >= 64 ? (u128)~0ull : ((u128)1 << w) - 1;
    if (w > 64 || d > 6) return all;
    if (Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST) { uint64_t v; return Z3_get_numeral_uint64(C, e, &v) ? v : all; }
    if (Z3_get_ast_kind(C, e) != Z3_APP_AST) return all;
    Z3_app a = Z3_to_app(C, e);
    unsigned n = Z3_get_app_num_args(C, a);
    auto arg = [&](unsigned i) { return Z3_get_app_arg(C, a, i); };
    u128 r;
    switch (Z3_get_decl_kind(C, Z3_get_app_decl(C, a))) {
        case Z3_OP_CONCAT: {
            r = 0;
            for (unsigned i = 0; i < n; i++) {
                unsigned k = Z3_get_bv_sort_size(C, Z3_get_sort(C, arg(i)));
                r = (r << k) + umaxA(arg(i), d + 1);
            }
            return r;
        }
        case Z3_OP_BADD: r = 0; for (unsigned i = 0; i < n; i++) r += umaxA(arg(i), d + 1); return r > all ? all : r;
        case Z3_OP_BMUL: r = 1; for (unsigned i = 0; i < n; i++) { r *= umaxA(arg(i), d + 1); if (r > all) return all; } return r;
        case Z3_OP_BAND: r = all; for (unsigned i = 0; i < n; i++) r = std::min(r, umaxA(arg(i), d + 1)); return r;
        case Z3_OP_ITE: return std::max(umaxA(arg(1), d + 1), umaxA(arg(2), d + 1));
        case Z3_OP_ZERO_EXT: return umaxA(arg(0), d + 1);
        default: return all;
    }
}
static u128 umax(const Val &v) { return v.sym() ? umaxA(v.e, 0) : v.c; }

static Val intrinsic(const CallBase *I, const std::string &n, std::vector<Val> &a) {
    auto is = [&](const char *p) { return n.rfind(p, 0) == 0; };
    if (is("llvm.lifetime") || is("llvm.assume") || is("llvm.experimental.noalias") || is("llvm.dbg") || is("llvm.donothing") || is("llvm.sideeffect") || is("llvm.prefetch") || is("llvm.x86.sse2.pause") || is("llvm.invariant") || is("llvm.stackrestore") || is("llvm.x86.sse2.mfence")) return is("llvm.invariant.start") ? K(64, 0) : Val();
    if (is("llvm.stacksave")) return K(64, 0);
    if (is("llvm.memcpy") || is("llvm.memmove")) { u64 k = concretize(a[2]); u64 d = concretize(a[0]), s = concretize(a[1]); copyBytes(d, s, k); return Val(); }
    if (is("llvm.memset")) {
        u64 k = concretize(a[2]), p = concretize(a[0]);
        if (!k) return Val();
        if (!a[1].sym()) { access(p, k); clearSym(p, k); memset((void *)p, (int)a[1].c, k); }
        else for (u64 i = 0; i < k; i++) storeInt(p + i, a[1]);
        return Val();
    }
    if (is("llvm.trap") || is("llvm.debugtrap") || is("llvm.ubsantrap")) panic(n);
    if (is("llvm.expect")) return a[0];
    if (is("llvm.is.constant")) return K(1, 0);
    if (is("llvm.threadlocal.address")) return a[0];
    if (is("llvm.objectsize")) return K(I->getType()->getIntegerBitWidth(), ~(u128)0);
    if (is("llvm.load.relative")) { u64 p = concretize(a[0]), o = concretize(a[1]); return K(64, p + (int64_t)sx(loadInt(p + o, 32).c, 32)); }
    if (is("llvm.umax")) return map2(a[0], a[1], [](const Val &x, const Val &y) { Val c = cmp(CmpInst::ICMP_UGT, x, y); return c.sym() ? ite(asBool(c), x, y) : c.c ? x : y; });
    if (is("llvm.umin")) return map2(a[0], a[1], [](const Val &x, const Val &y) { Val c = cmp(CmpInst::ICMP_ULT, x, y); return c.sym() ? ite(asBool(c), x, y) : c.c ? x : y; });
    if (is("llvm.smax")) return map2(a[0], a[1], [](const Val &x, const Val &y) { Val c = cmp(CmpInst::ICMP_SGT, x, y); return c.sym() ? ite(asBool(c), x, y) : c.c ? x : y; });
    if (is("llvm.smin")) return map2(a[0], a[1], [](const Val &x, const Val &y) { Val c = cmp(CmpInst::ICMP_SLT, x, y); return c.sym() ? ite(asBool(c), x, y) : c.c ? x : y; });
    if (is("llvm.abs")) return map1(a[0], [](const Val &x) { Val c = cmp(CmpInst::ICMP_SLT, x, K(x.w, 0)), m = bin(Instruction::Sub, K(x.w, 0), x); return c.sym() ? ite(asBool(c), m, x) : c.c ? m : x; });
    if (is("llvm.ucmp") || is("llvm.scmp")) {
        unsigned w = bits(I->getType()); bool s = is("llvm.scmp");
        Val l = cmp(s ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, a[0], a[1]), g = cmp(s ? CmpInst::ICMP_SGT : CmpInst::ICMP_UGT, a[0], a[1]);
        if (!l.sym() && !g.sym()) return K(w, l.c ? ~(u128)0 : g.c ? 1 : 0);
        return mk(w, Z3_mk_ite(C, asBool(l), E(K(w, ~(u128)0)), Z3_mk_ite(C, asBool(g), num(w, 1), num(w, 0))));
    }
    if (is("llvm.ctlz")) return map1(a[0], [](const Val &x) { return clz(x, true); });
    if (is("llvm.cttz")) return map1(a[0], [](const Val &x) { return clz(x, false); });
    if (is("llvm.ctpop")) return map1(a[0], [](const Val &x) { Val r = K(x.w, 0); for (unsigned i = 0; i < x.w; i++) r = bin(Instruction::Add, r, ext(slice(x, i, 1), x.w, false)); return r; });
    if (is("llvm.bswap")) return map1(a[0], [](const Val &x) { Val r = slice(x, 0, 8); for (unsigned i = 1; i < x.w / 8; i++) { Val b = slice(x, 8 * i, 8); Val v; v.el = {b, r}; r = flat(v); } return r; });
    if (is("llvm.bitreverse")) return map1(a[0], [](const Val &x) { Val r = slice(x, 0, 1); for (unsigned i = 1; i < x.w; i++) { Val v; v.el = {slice(x, i, 1), r}; r = flat(v); } return r; });
    if (is("llvm.fshl") || is("llvm.fshr")) {
        bool l = is("llvm.fshl");
        auto go = [l](const Val &x, const Val &y, const Val &z) {
            unsigned w = x.w;
            Val s = bin(Instruction::URem, z, K(w, w)), t = bin(Instruction::Sub, K(w, w), s);
            return l ? bin(Instruction::Or, bin(Instruction::Shl, x, s), bin(Instruction::LShr, y, t)) : bin(Instruction::Or, bin(Instruction::Shl, x, t), bin(Instruction::LShr, y, s));
        };
        if (a[0].el.empty()) return go(a[0], a[1], a[2]);
        Val r; for (size_t i = 0; i < a[0].el.size(); i++) r.el.push_back(go(a[0].el[i], a[1].el[i], a[2].el[i])); return r;
    }
    if (n.find(".with.overflow") != std::string::npos) {
        unsigned w = a[0].w; bool s = n[5] == 's';
        unsigned op = n.find("add.") != std::string::npos ? Instruction::Add : n.find("sub.") != std::string::npos ? Instruction::Sub : Instruction::Mul;
        Val r = bin(op, a[0], a[1]);
        if (!s && w <= 64 && op != Instruction::Sub) {
            u128 x = umax(a[0]), y = umax(a[1]);
            if (op == Instruction::Add ? !((x + y) >> w) : !((x * y) >> w)) return pair(r, K(1, 0));
        }
        if (!s && op != Instruction::Mul) return pair(r, op == Instruction::Add ? cmp(CmpInst::ICMP_ULT, r, a[0]) : cmp(CmpInst::ICMP_ULT, a[0], a[1]));
        unsigned W = op == Instruction::Mul ? 2 * w : w + 1 + s;
        Val x = bin(op, ext(a[0], W, s), ext(a[1], W, s));
        return pair(r, cmp(CmpInst::ICMP_NE, ext(r, W, s), x));
    }
    if (is("llvm.uadd.sat")) return map2(a[0], a[1], [](const Val &x, const Val &y) { Val r = bin(Instruction::Add, x, y), o = cmp(CmpInst::ICMP_ULT, r, x); return o.sym() ? ite(asBool(o), K(x.w, ~(u128)0), r) : o.c ? K(x.w, ~(u128)0) : r; });
    if (is("llvm.usub.sat")) return map2(a[0], a[1], [](const Val &x, const Val &y) { Val r = bin(Instruction::Sub, x, y), o = cmp(CmpInst::ICMP_ULT, x, y); return o.sym() ? ite(asBool(o), K(x.w, 0), r) : o.c ? K(x.w, 0) : r; });
    if (is("llvm.vector.reduce.")) {
        std::string k = n.substr(19); k = k.substr(0, k.find('.'));
        Val r = a[0].el[0];
        for (size_t i = 1; i < a[0].el.size(); i++) {
            const Val &x = a[0].el[i];
            if (k == "add") r = bin(Instruction::Add, r, x); else if (k == "mul") r = bin(Instruction::Mul, r, x); else if (k == "and") r = bin(Instruction::And, r, x); else if (k == "or") r = bin(Instruction::Or, r, x); else if (k == "xor") r = bin(Instruction::Xor, r, x);
            else {
                Val c = cmp(k == "umax" ? CmpInst::ICMP_UGT : k == "umin" ? CmpInst::ICMP_ULT : k == "smax" ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT, r, x);
                r = c.sym() ? ite(asBool(c), r, x) : c.c ? r : x;
            }
        }
        return r;
    }
    if (is("llvm.x86.sse2.pmovmskb.128")) { Val r; for (auto &x : a[0].el) r.el.push_back(slice(x, 7, 1)); return ext(flat(r), 32, false); }
    undecide("intrinsic " + n);
    return Val();
}

static long depth = 0;
static std::unordered_map<const Function *, int> kind; // 1 panic, 2 body, 3 external
static std::set<std::string> executed;
static Val call(const Function *f, std::vector<Val> &args) {
    auto it = kind.find(f);
    int k;
    if (it == kind.end()) {
        std::string d = demangle(f->getName().str());
        k = isPanic(d) ? 1 : f->isDeclaration() ? 3 : d.find("hashmap_random_keys") != std::string::npos ? 4 : 2;
        kind[f] = k;
    } else k = it->second;
    if (k == 1) { callstack.push_back(f); panic(demangle(f->getName().str())); }
    if (k == 3) return external(f, args);
    if (k == 4) { // randomness of hash maps: fixed
        Val v = zeroOf(f->getReturnType());
        for (size_t i = 0; i < v.el.size(); i++) v.el[i] = K(64, 0x1234567 + i);
        return v;
    }
    Fn *fn = prep(f);
    callstack.push_back(f);
    if (++depth > 20000) undecide("recursion depth");
    std::vector<Val> R(fn->n);
    for (size_t i = 0; i < f->arg_size(); i++) R[i] = args[i];
    std::vector<u64> frees;
    Val ret;
    int bb = 0, prev = -1;
    std::vector<std::pair<int, Val>> phis;
    for (;;) {
        auto &code = fn->code[bb];
        int next = -1;
        // phis at once
        size_t pc = 0;
        phis.clear();
        for (; pc < code.size() && isa<PHINode>(code[pc].I); pc++) {
            auto *p = cast<PHINode>(code[pc].I);
            int j = p->getBasicBlockIndex(fn->blocks[prev]);
            Op &o = code[pc].ops[j];
            phis.push_back({code[pc].dst, o.slot >= 0 ? R[o.slot] : o.k});
        }
        for (auto &p : phis) R[p.first] = std::move(p.second);
        for (; pc < code.size(); pc++) {
            In &x = code[pc];
            const Instruction *I = x.I;
            if (++icount % 65536 == 0 && (now() > deadline || sh->stop)) { if (!sh->stop) sh->stop = 2; finish(0); }
            auto V = [&](int i) -> const Val & { Op &o = x.ops[i]; return o.slot >= 0 ? R[o.slot] : o.k; };
            curI = I;
            switch (I->getOpcode()) {
            case Instruction::Ret:
                if (I->getNumOperands()) ret = V(0);
                for (u64 p : frees) gfree(p);
                callstack.pop_back(); depth--;
                return ret;
            case Instruction::Br: {
                auto *b = cast<BranchInst>(I);
                if (b->isUnconditional()) { next = fn->bb[b->getSuccessor(0)]; break; }
                const Val &c = V(0);
                bool t = c.sym() ? branch(asBool(c)) : c.c & 1;
                next = fn->bb[b->getSuccessor(t ? 0 : 1)];
                break;
            }
            case Instruction::Switch: {
                auto *s = cast<SwitchInst>(I);
                const Val &c = V(0);
                const BasicBlock *d = s->getDefaultDest();
                if (!c.sym()) { for (auto &q : s->cases()) if ((u128)q.getCaseValue()->getZExtValue() == c.c) { d = q.getCaseSuccessor(); break; } }
                else {
                    // one decision per destination
                    std::vector<std::pair<const BasicBlock *, std::vector<Z3_ast>>> g;
                    for (auto &q : s->cases()) {
                        Z3_ast e = Z3_mk_eq(C, c.e, num(c.w, q.getCaseValue()->getZExtValue()));
                        bool f2 = false;
                        for (auto &y : g) if (y.first == q.getCaseSuccessor()) { y.second.push_back(e); f2 = true; break; }
                        if (!f2) g.push_back({q.getCaseSuccessor(), {e}});
                    }
                    for (auto &y : g) if (branch(Z3_mk_or(C, y.second.size(), y.second.data()))) { d = y.first; break; }
                }
                next = fn->bb[d];
                break;
            }
            case Instruction::Unreachable: panic("unreachable code in " + demangle(f->getName().str()));
            case Instruction::Alloca: {
                auto *al = cast<AllocaInst>(I);
                u64 n = DL->getTypeAllocSize(al->getAllocatedType()) * (u64)concretize(V(0));
                u64 p = galloc(n, al->getAlign().value());
                frees.push_back(p); R[x.dst] = K(64, p);
                break;
            }
            case Instruction::Load: {
                const Val &p = V(0);
                Type *t = I->getType();
                if (!p.sym()) { R[x.dst] = load((u64)p.c, t); break; }
                // all possible addresses
                std::vector<u64> as; std::vector<Z3_ast> no;
                Val pv = p;
                Z3_solver_push(C, S);
                bool many = false;
                for (;;) {
                    Z3_model m = nullptr;
                    u64 c;
                    if (as.empty()) c = (u64)modelVal(pv.e);
                    else {
                        Z3_lbool r = query(nullptr, &m);
                        if (r == Z3_L_FALSE) break;
                        if (r != Z3_L_TRUE) { many = true; break; }
                        Z3_ast v; Z3_model_eval(C, m, pv.e, true, &v);
                        uint64_t q; Z3_get_numeral_uint64(C, v, &q); c = q;
                    }
                    if (!valid(c, DL->getTypeStoreSize(t))) { if (as.empty()) { } M = m ? m : M; violation("memory access out of bounds", -2, M); finish(0); }
                    as.push_back(c);
                    Z3_solver_assert(C, S, Z3_mk_not(C, Z3_mk_eq(C, pv.e, num(64, c))));
                    if (as.size() > 300) { many = true; break; }
                }
                Z3_solver_pop(C, S, 1);
                if (many) undecide("too many addresses of a load");
                Val r = load(as[0], t);
                for (size_t i = 1; i < as.size(); i++) r = ite(Z3_mk_eq(C, pv.e, num(64, as[i])), load(as[i], t), r);
                R[x.dst] = r;
                break;
            }
            case Instruction::Store: {
                u64 p = (u64)concretize(V(1));
                store(p, V(0), I->getOperand(0)->getType());
                break;
            }
            case Instruction::GetElementPtr: {
                auto one = [&](int lane) {
                    auto L = [&](int k) { const Val &v = V(k); return !v.el.empty() ? v.el[lane] : v; };
                    Val p = L(0);
                    int i = 1;
                    for (auto g = gep_type_begin(I), e = gep_type_end(I); g != e; ++g, ++i) {
                        if (auto *st = g.getStructTypeOrNull()) { p = bin(Instruction::Add, p, K(64, DL->getStructLayout(st)->getElementOffset((unsigned)L(i).c))); continue; }
                        u64 s = DL->getTypeAllocSize(g.getIndexedType());
                        p = bin(Instruction::Add, p, bin(Instruction::Mul, ext(L(i), 64, true), K(64, s)));
                    }
                    return p;
                };
                Val p;
                if (auto *vt = dyn_cast<FixedVectorType>(I->getType())) for (unsigned k = 0; k < vt->getNumElements(); k++) p.el.push_back(one(k));
                else p = one(0);
                R[x.dst] = p;
                break;
            }
            case Instruction::Trunc: { unsigned w = bits(I->getType()->getScalarType()); R[x.dst] = map1(V(0), [w](const Val &v) { return v.sym() && w == 1 ? B(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, v.e), num(1, 1))) : ext(v, w, false); }); break; }
            case Instruction::ZExt: { unsigned w = bits(I->getType()->getScalarType()); R[x.dst] = map1(V(0), [w](const Val &v) { return ext(v, w, false); }); break; }
            case Instruction::SExt: { unsigned w = bits(I->getType()->getScalarType()); R[x.dst] = map1(V(0), [w](const Val &v) { return ext(v, w, true); }); break; }
            case Instruction::PtrToInt: case Instruction::IntToPtr: R[x.dst] = ext(V(0), bits(I->getType()), false); break;
            case Instruction::BitCast: R[x.dst] = bitcast(V(0), I->getType()); break;
            case Instruction::Freeze: R[x.dst] = V(0); break;
            case Instruction::ICmp: case Instruction::FCmp: R[x.dst] = cmp(cast<CmpInst>(I)->getPredicate(), V(0), V(1)); break;
            case Instruction::FNeg: R[x.dst] = bin(Instruction::Xor, V(0), K(V(0).w, (u128)1 << (V(0).w - 1))); break;
            case Instruction::UIToFP: case Instruction::SIToFP: {
                if (V(0).sym()) undecide("conversion of a symbolic integer to floating point");
                i128 s = I->getOpcode() == Instruction::SIToFP ? sx(V(0).c, V(0).w) : (i128)V(0).c;
                if (I->getType()->isDoubleTy()) { double d = (double)s; u64 t; memcpy(&t, &d, 8); R[x.dst] = K(64, t); } else { float d = (float)s; uint32_t t; memcpy(&t, &d, 4); R[x.dst] = K(32, t); }
                break;
            }
            case Instruction::Select: {
                const Val &c = V(0);
                if (!c.el.empty()) { Val r; for (size_t i = 0; i < c.el.size(); i++) { auto &q = c.el[i]; r.el.push_back(q.sym() ? ite(asBool(q), V(1).el[i], V(2).el[i]) : q.c ? V(1).el[i] : V(2).el[i]); } R[x.dst] = r; break; }
                if (!c.sym()) { Val r = c.c ? V(1) : V(2); R[x.dst] = r; break; }
                if (I->getType()->isPointerTy()) { bool t = branch(asBool(c)); Val r = t ? V(1) : V(2); R[x.dst] = r; break; }
                if (I->getType()->isIntegerTy(1)) {
                    Z3_ast b = asBool(c), p = asBool(V(1)), q = asBool(V(2));
                    R[x.dst] = B(Z3_mk_ite(C, b, p, q)); break;
                }
                R[x.dst] = ite(asBool(c), V(1), V(2));
                break;
            }
            case Instruction::ExtractValue: { const Val *v = &V(0); for (unsigned i : cast<ExtractValueInst>(I)->indices()) v = &v->el[i]; Val r = *v; R[x.dst] = r; break; }
            case Instruction::InsertValue: { Val v = V(0); Val *p = &v; for (unsigned i : cast<InsertValueInst>(I)->indices()) p = &p->el[i]; *p = V(1); R[x.dst] = v; break; }
            case Instruction::ExtractElement: { u64 i = concretize(V(1)); Val r = V(0).el[i]; R[x.dst] = r; break; }
            case Instruction::InsertElement: { Val v = V(0); v.el[concretize(V(2))] = V(1); R[x.dst] = v; break; }
            case Instruction::ShuffleVector: {
                auto *s = cast<ShuffleVectorInst>(I); Val r; size_t n = V(0).el.size();
                for (int m : s->getShuffleMask()) r.el.push_back(m < 0 ? V(0).el[0] : (size_t)m < n ? V(0).el[m] : V(1).el[m - n]);
                R[x.dst] = r; break;
            }
            case Instruction::AtomicCmpXchg: {
                u64 p = concretize(V(0)); Type *t = V(1).w ? I->getOperand(1)->getType() : nullptr;
                Val old = load(p, t), eq = cmp(CmpInst::ICMP_EQ, old, V(1));
                bool b = eq.sym() ? branch(asBool(eq)) : eq.c;
                if (b) store(p, V(2), t);
                R[x.dst] = pair(old, K(1, b));
                break;
            }
            case Instruction::AtomicRMW: {
                auto *a = cast<AtomicRMWInst>(I); u64 p = concretize(V(0)); Type *t = I->getType();
                Val old = load(p, t), nv;
                switch (a->getOperation()) {
                case AtomicRMWInst::Xchg: nv = V(1); break;
                case AtomicRMWInst::Add: nv = bin(Instruction::Add, old, V(1)); break;
                case AtomicRMWInst::Sub: nv = bin(Instruction::Sub, old, V(1)); break;
                case AtomicRMWInst::And: nv = bin(Instruction::And, old, V(1)); break;
                case AtomicRMWInst::Or: nv = bin(Instruction::Or, old, V(1)); break;
                case AtomicRMWInst::Xor: nv = bin(Instruction::Xor, old, V(1)); break;
                default: undecide("atomic operation");
                }
                store(p, nv, t); R[x.dst] = old;
                break;
            }
            case Instruction::Fence: break;
            case Instruction::Call: case Instruction::Invoke: {
                auto *cb = cast<CallBase>(I);
                std::vector<Val> as;
                for (unsigned i = 0; i < cb->arg_size(); i++) as.push_back(V(i));
                Val r;
                if (cb->isInlineAsm()) {
                    if (!I->getType()->isVoidTy()) r = zeroOf(I->getType());
                } else {
                    const Function *g = cb->getCalledFunction();
                    if (!g) {
                        if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) g = dyn_cast<Function>(al->getAliasee());
                    }
                    if (!g) {
                        u64 p = (u64)concretize(V(I->getNumOperands() - 1 - (isa<InvokeInst>(I) ? 2 : 0)));
                        auto q = faddr.find(p);
                        if (q == faddr.end()) undecide("call of an unknown address");
                        g = q->second;
                    }
                    if (g->getName().starts_with("llvm.")) r = intrinsic(cb, g->getName().str(), as);
                    else r = call(g, as);
                }
                if (!I->getType()->isVoidTy()) R[x.dst] = std::move(r);
                if (auto *iv = dyn_cast<InvokeInst>(I)) next = fn->bb[iv->getNormalDest()];
                break;
            }
            default:
                if (I->isBinaryOp()) { R[x.dst] = bin(I->getOpcode(), V(0), V(1)); break; }
                undecide(std::string("instruction ") + I->getOpcodeName());
            }
            if (next >= 0) break;
        }
        prev = bb; bb = next;
    }
}

#include <execinfo.h>
#include <signal.h>
#include <sys/time.h>
static void onProf(int) { void *b[12]; int n = backtrace(b, 12); backtrace_symbols_fd(b + 2, n - 2, 2); (void)!write(2, "--\n", 3); }
static void armProf() { if (!getenv("SYMX_PROF")) return; signal(SIGPROF, onProf); itimerval t{{0, 7000}, {0, 7000}}; setitimer(ITIMER_PROF, &t, nullptr); }
static void onSegv(int sig) {
    if (getenv("SYMX_BT")) { if (curI) { std::string q; raw_string_ostream o(q); curI->print(o); fprintf(stderr, "%s\n", q.c_str()); } void *b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
    sh->undecided++; emit("{\"undecided\":\"the engine crashed (signal " + std::to_string(sig) + ")\",\"at\":\"" + esc(where()) + "\"}");
    _exit(0);
}
int main(int argc, char **argv) {
    { stack_t ss{}; ss.ss_size = 1 << 20; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr); struct sigaction sa{}; sa.sa_handler = onSegv; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); }
    // symx MODULE FUNCTION OUT PROCS SECONDS [query timeout in ms]
    if (argc < 6) return 2;
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ul << 30)) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1ul << 30); if (!setrlimit(RLIMIT_STACK, &rl) && !getenv("SYMX_S")) { setenv("SYMX_S", "1", 1); execv("/proc/self/exe", argv); } }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    out = fopen(argv[3], "a");
    fcntl(fileno(out), F_SETFL, O_APPEND);
    MAXP = atoi(argv[4]);
    deadline = now() + atof(argv[5]);
    if (argc > 6) QTO = atol(argv[6]);
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("symx", errs()); return 2; }
    Mod = m.get(); DL = &Mod->getDataLayout();
    Function *f = Mod->getFunction(argv[2]);
    if (!f) { fprintf(stderr, "no function %s\n", argv[2]); return 2; }
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg);
    Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { std::string s = Z3_get_error_msg(c, e); undecide("z3: " + s); });
    S = Z3_mk_solver(C); Z3_solver_inc_ref(C, S);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), QTO);
    Z3_solver_set_params(C, S, p);
    if (argc > 7) { // the functions under check that the harness reaches
        std::set<const Function *> seen{f}; std::vector<const Function *> todo{f};
        while (!todo.empty()) {
            const Function *g = todo.back(); todo.pop_back();
            for (auto &b : *g) for (auto &i : b) for (auto &o : i.operands())
                if (auto *h = dyn_cast<Function>(o.get())) if (seen.insert(h).second) todo.push_back(h);
        }
        std::set<std::string> names;
        for (auto *g : seen) { std::string n = demangle(g->getName().str()); if (!g->isDeclaration() && n.find(argv[7]) != std::string::npos && n.rfind("core::ptr", 0)) { size_t k = n.rfind("::h"); names.insert(k != std::string::npos && n.size() - k == 19 ? n.substr(0, k) : n); } }
        std::string l; int k = 0;
        for (auto &n : names) if (k++ < 60) l += (l.empty() ? "\"" : ",\"") + esc(n) + "\"";
        emit("{\"functions\":[" + l + "]}");
    }
    sh->live = 1;
    double t0 = now();
    pid_t root = fork();
    if (root == 0) {
        armProf();
        std::vector<Val> no;
        call(f, no);
        if (sh->cover[255]++ < 60 || icount % 64 == 0) { // inputs of some completed paths, to be replayed natively
            if (!M) { Z3_model m2 = nullptr; if (query(nullptr, &m2) == Z3_L_TRUE) M = m2; }
            if (M) emit("{\"witness\":" + modelInputs(M) + "}");
        }
        finish(0);
    }
    int st; waitpid(root, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { sh->undecided++; emit("{\"undecided\":\"the first process died\"}"); }
    if (sh->stop == 2) { sh->undecided++; emit("{\"undecided\":\"out of time or paths\"}"); }
    std::string cov;
    for (int i = 0; i < 256; i++) if (sh->cover[i]) cov += (cov.empty() ? "" : ",") + std::string("\"") + std::to_string(i) + "\":" + std::to_string(sh->cover[i]);
    printf("{\"paths\":%ld,\"completed\":%ld,\"forks\":%ld,\"queries\":%ld,\"solver_s\":%.2f,\"checks\":%ld,\"decided\":%ld,\"violations\":%ld,\"undecided\":%ld,\"panics\":%ld,\"silent\":%ld,\"instructions\":%ld,\"seconds\":%.2f,\"cover\":{%s}}\n",
           (long)sh->paths, (long)sh->cover[255], (long)sh->forks, (long)sh->queries, sh->solver_us / 1e6, (long)sh->checks, (long)sh->decided, (long)sh->violations, (long)sh->undecided, (long)sh->panics, (long)sh->silent, (long)sh->instrs, now() - t0, cov.c_str());
    return 0;
}
