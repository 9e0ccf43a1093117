// vsx: symbolic executor for LLVM IR (clang 18) on top of Z3.
//
//   vsx [options] program.bc
//
// Explores every feasible path of vf_main().  Program inputs (vf_int, vf_ll,
// vf_choose, heap-failure choices) are solver variables; each conditional on them
// is decided by Z3 (both sides explored when both are satisfiable); each vf_assert,
// memory access, free() and the per-path step budget is an obligation whose negation
// is handed to Z3 under the path condition.  Exit code 0: all paths explored.  Any
// obligation that can fail is written to the result file with a concrete model.
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;

// ------------------------------------------------------------------ options
static u64 optMaxSteps = 4000000;     // per path
static double optMaxTime = 600;       // wall seconds for the whole exploration
static unsigned optJobs = 1;
static unsigned optSamples = 0;       // completed paths to dump for native validation
static unsigned optQueryMs = 120000;
static u64 optMaxMemMB = 3500;        // per process
static std::string optOut = "/dev/stdout";
static bool optVerbose = false;
static unsigned optMaxReports = 3;

// ------------------------------------------------------- shared statistics
struct Shared {
    std::atomic<long> tokens;
    std::atomic<u64> paths, forks, queries, instrs, obligations, solverUs, discharged;
    std::atomic<u64> errors, incomplete, samples, maxPathSteps, killedAssume, procs;
    std::atomic<u64> maxDepth;
    std::atomic<u64> firstErrorMs; // since the start; 0: none
    std::atomic<int> stop;
    unsigned char cover[1 << 16];
    unsigned char witness[256];
    std::atomic<unsigned> reportCount[512]; // by hash of site
};
static Shared *S;
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double tStart;
static int outFd = 1;
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
static void emitLine(const std::string &s) {
    std::string l = s + "\n";
    ssize_t r = write(outFd, l.data(), l.size()); (void)r;
}

// ------------------------------------------------------------------ Z3 glue
static Z3_context Z;
static Z3_solver ZS;
class Ex {
    Z3_ast a;
public:
    Ex() : a(nullptr) {}
    Ex(Z3_ast x) : a(x) { if(a) Z3_inc_ref(Z, a); }
    Ex(const Ex &o) : a(o.a) { if(a) Z3_inc_ref(Z, a); }
    Ex(Ex &&o) noexcept : a(o.a) { o.a = nullptr; }
    Ex &operator=(const Ex &o) { if(o.a) Z3_inc_ref(Z, o.a); if(a) Z3_dec_ref(Z, a); a = o.a; return *this; }
    Ex &operator=(Ex &&o) noexcept { std::swap(a, o.a); return *this; }
    ~Ex() { if(a) Z3_dec_ref(Z, a); }
    operator Z3_ast() const { return a; }
    explicit operator bool() const { return a != nullptr; }
    unsigned id() const { return Z3_get_ast_id(Z, a); }
};
static std::unordered_map<void *, std::pair<Ex, Ex>> simpCache; // keeps both terms alive, so pointers stay valid keys
static Ex simp(const Ex &e) {
    auto it = simpCache.find((void *)(Z3_ast)e);
    if(it != simpCache.end()) return it->second.second;
    if(simpCache.size() > 400000) simpCache.clear();
    Ex r(Z3_simplify(Z, e));
    simpCache[(void *)(Z3_ast)e] = {e, r};
    return r;
}
static Ex bvc(u64 v, unsigned w) { return Ex(Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w))); }
static bool isNum(const Ex &e, u64 &v) {
    return Z3_is_numeral_ast(Z, e) && Z3_get_numeral_uint64(Z, e, &v);
}
static inline u64 maskw(u64 v, unsigned w) { return w >= 64 ? v : (v & ((1ULL << w) - 1)); }
static inline i64 sextw(u64 v, unsigned w) {
    if(w >= 64) return (i64)v;
    u64 m = 1ULL << (w - 1);
    v = maskw(v, w);
    return (i64)((v ^ m) - m);
}
struct ModelRef {
    Z3_model m;
    ModelRef(Z3_model x) : m(x) { Z3_model_inc_ref(Z, m); }
    ~ModelRef() { Z3_model_dec_ref(Z, m); }
};
typedef std::shared_ptr<ModelRef> Model;
static Ex modelEval(const Model &m, const Ex &e) {
    Z3_ast r = nullptr;
    if(!Z3_model_eval(Z, m->m, e, true, &r)) return Ex();
    return Ex(r);
}

// --------------------------------------------------------------- values
struct Val {
    unsigned w = 0;     // bits; pointers 64; 0 = void/aggregate
    u64 c = 0;
    Ex e;               // symbolic if set
    std::shared_ptr<std::vector<Val>> agg;
    bool sym() const { return (bool)e; }
};
static Val mkc(u64 v, unsigned w) { Val r; r.w = w; r.c = maskw(v, w); return r; }
static Val mke(const Ex &e0, unsigned w) {
    Ex e = simp(e0);
    u64 v;
    if(isNum(e, v)) return mkc(v, w);
    Val r; r.w = w; r.e = e; return r;
}
static Ex ex(const Val &v) { return v.e ? v.e : bvc(v.c, v.w); }
static Ex b2bv(const Ex &b) { return Ex(Z3_mk_ite(Z, b, bvc(1, 1), bvc(0, 1))); }
static Ex bv2b(const Val &v) { return Ex(Z3_mk_eq(Z, ex(v), bvc(1, 1))); }

// --------------------------------------------------------------- memory
static const unsigned PG = 256;
struct SymByte { Ex e; unsigned idx; };  // byte idx of expression e
struct Page {
    unsigned char b[PG];
    unsigned char st[PG]; // 0 concrete, 1 symbolic, 2 undefined
    std::map<unsigned, SymByte> sym;
};
enum OKind { OK_HEAP, OK_STACK, OK_GLOBAL, OK_CONST, OK_FUNC };
struct Obj {
    u64 base, size;
    OKind kind;
    bool zero;     // default page content
    bool dead = false; // freed heap / expired stack slot
    std::vector<std::shared_ptr<Page>> pages;
    std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct Frame {
    Function *fn;
    BasicBlock *bb, *prev;
    BasicBlock::iterator it;
    std::vector<Val> regs;
    std::vector<u64> allocas;
    std::vector<Val> varargs;
    Instruction *callSite = nullptr;
};
struct Input { bool conc; i64 v; Ex e; unsigned w; };
struct PCNode { Ex c; std::shared_ptr<PCNode> prev; unsigned depth; };
struct State {
    std::vector<Frame> st;
    std::map<u64, ObjP> mem;
    std::shared_ptr<PCNode> pc;
    Model model;
    std::vector<Input> inputs;
    std::vector<Val> obs;
    std::unordered_map<unsigned, std::pair<Ex, u64>> conc;
    std::unordered_map<unsigned, Ex> known; // conditions implied by the path condition
    u64 next = 0x10000000ULL;
    u64 steps = 0;
    long live = 0;
    bool failed = false;
};
typedef std::unique_ptr<State> StateP;

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Value *, unsigned> regNo;
static std::unordered_map<const Function *, unsigned> fnRegs;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u64, Function *> faddr;
static std::unordered_map<const BasicBlock *, unsigned> bbNo;
static std::vector<StateP> work;
static std::map<std::string, unsigned> witnessIds;
static std::unordered_set<unsigned> undefVars; // decl ids
static unsigned freshCnt = 0;

struct Unsupported { std::string what; };
struct PathEnd {};      // path finished or killed

// --------------------------------------------------------------- solver
static std::vector<Ex> solverStack; // constraints currently pushed
static void syncSolver(const std::shared_ptr<PCNode> &pc) {
    unsigned d = pc ? pc->depth : 0;
    std::vector<Ex> cs(d);
    for(auto p = pc.get(); p; p = p->prev.get()) cs[p->depth - 1] = p->c;
    size_t k = 0;
    while(k < solverStack.size() && k < cs.size() && (Z3_ast)solverStack[k] == (Z3_ast)cs[k]) k++;
    if(solverStack.size() > k) { Z3_solver_pop(Z, ZS, (unsigned)(solverStack.size() - k)); solverStack.resize(k); }
    for(; k < cs.size(); k++) { Z3_solver_push(Z, ZS); Z3_solver_assert(Z, ZS, cs[k]); solverStack.push_back(cs[k]); }
}
// is pc /\ c satisfiable?  m receives a model
static bool sat(const std::shared_ptr<PCNode> &pc, const Ex &c, Model &m) {
    double t0 = now();
    S->queries++;
    Z3_lbool r;
    syncSolver(pc);
    Z3_solver_push(Z, ZS);
    Z3_solver_assert(Z, ZS, c);
    r = Z3_solver_check(Z, ZS);
    if(r == Z3_L_TRUE) m = std::make_shared<ModelRef>(Z3_solver_get_model(Z, ZS));
    Z3_solver_pop(Z, ZS, 1);
    if(r == Z3_L_UNDEF) {
        // second opinion: non-incremental bit-vector solver
        Z3_solver s2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
        Z3_solver_inc_ref(Z, s2);
        Z3_params ps = Z3_mk_params(Z);
        Z3_params_inc_ref(Z, ps);
        Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), optQueryMs);
        Z3_solver_set_params(Z, s2, ps);
        Z3_params_dec_ref(Z, ps);
        for(auto p = pc.get(); p; p = p->prev.get()) Z3_solver_assert(Z, s2, p->c);
        Z3_solver_assert(Z, s2, c);
        r = Z3_solver_check(Z, s2);
        if(r == Z3_L_TRUE) m = std::make_shared<ModelRef>(Z3_solver_get_model(Z, s2));
        Z3_solver_dec_ref(Z, s2);
    }
    S->solverUs += (u64)((now() - t0) * 1e6);
    if(r == Z3_L_UNDEF) throw Unsupported{"solver returned unknown"};
    return r == Z3_L_TRUE;
}
static void addC(State &s, const Ex &c) {
    auto n = std::make_shared<PCNode>();
    n->c = c; n->prev = s.pc; n->depth = (s.pc ? s.pc->depth : 0) + 1;
    s.pc = n;
    s.known[c.id()] = c;
}
static bool evalB(const Model &m, const Ex &b) {
    Ex r = modelEval(m, b);
    return r && Z3_get_bool_value(Z, r) == Z3_L_TRUE;
}
// 1: c can be true, 2: c can be false (bitmask); models returned
static int feas(State &s, const Ex &c, Model &mt, Model &mf) {
    Ex sc = simp(c);
    Z3_lbool bv = Z3_get_bool_value(Z, sc);
    if(bv == Z3_L_TRUE) { mt = s.model; return 1; }
    if(bv == Z3_L_FALSE) { mf = s.model; return 2; }
    if(s.known.count(sc.id())) { mt = s.model; return 1; }
    int r = 0;
    Ex nc(simp(Ex(Z3_mk_not(Z, sc))));
    if(s.known.count(nc.id())) { mf = s.model; return 2; }
    if(evalB(s.model, sc)) {
        mt = s.model; r |= 1;
        if(sat(s.pc, nc, mf)) r |= 2;
    } else {
        mf = s.model; r |= 2;
        if(sat(s.pc, sc, mt)) r |= 1;
    }
    if(r == 1) s.known[sc.id()] = sc;
    else if(r == 2) s.known[nc.id()] = nc;
    return r;
}
static void collectUndef(const Ex &e, std::vector<Z3_ast> &out) {
    if(undefVars.empty()) return;
    std::vector<Z3_ast> wl{(Z3_ast)e};
    std::unordered_set<unsigned> seen;
    while(!wl.empty()) {
        Z3_ast a = wl.back(); wl.pop_back();
        if(!seen.insert(Z3_get_ast_id(Z, a)).second) continue;
        if(Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
        Z3_app ap = Z3_to_app(Z, a);
        unsigned n = Z3_get_app_num_args(Z, ap);
        if(n == 0 && undefVars.count(Z3_get_ast_id(Z, a))) out.push_back(a);
        for(unsigned i = 0; i < n; i++) wl.push_back(Z3_get_app_arg(Z, ap, i));
    }
}
static bool mentionsUndef(const Ex &e) {
    if(undefVars.empty()) return false;
    std::vector<Z3_ast> wl{(Z3_ast)e};
    std::unordered_set<unsigned> seen;
    while(!wl.empty()) {
        Z3_ast a = wl.back(); wl.pop_back();
        if(!seen.insert(Z3_get_ast_id(Z, a)).second) continue;
        if(Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
        Z3_app ap = Z3_to_app(Z, a);
        unsigned n = Z3_get_app_num_args(Z, ap);
        if(n == 0 && undefVars.count(Z3_get_ast_id(Z, a))) return true;
        for(unsigned i = 0; i < n; i++) wl.push_back(Z3_get_app_arg(Z, ap, i));
    }
    return false;
}
static std::vector<Ex> keepAlive;
static Ex freshBV(const char *pfx, unsigned w);
// does e (a formula or a bit vector) really depend on uninitialised bytes, or do they only occur in
// branches of it that the path condition excludes?
static bool dependsOnUndef(State &s, const Ex &e, Model &m) {
    std::vector<Z3_ast> us;
    collectUndef(e, us);
    if(us.empty()) return false;
    std::vector<Z3_ast> to;
    std::vector<Ex> hold;
    for(Z3_ast u : us) { Ex f = freshBV("undefcopy", Z3_get_bv_sort_size(Z, Z3_get_sort(Z, u))); hold.push_back(f); to.push_back(f); }
    Ex e2(Z3_substitute(Z, e, (unsigned)us.size(), us.data(), to.data()));
    Ex ne(Z3_mk_not(Z, Ex(Z3_mk_eq(Z, e, e2))));
    return sat(s.pc, ne, m);
}
static Ex freshBV(const char *pfx, unsigned w) {
    char b[48]; snprintf(b, sizeof b, "%s_%d_%u", pfx, (int)getpid(), freshCnt++);
    Ex e(Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), Z3_mk_bv_sort(Z, w)));
    return e;
}

// --------------------------------------------------------------- reports
static std::string locStr(State &s) {
    std::string r;
    for(size_t i = s.st.size(); i-- > 0;) {
        Frame &f = s.st[i];
        Instruction *ins = nullptr;
        if(i + 1 == s.st.size()) { if(f.it != f.bb->end()) ins = &*f.it; }
        else ins = s.st[i + 1].callSite;
        std::string l = f.fn->getName().str();
        if(ins && ins->getDebugLoc()) {
            l += "@"; auto dl = ins->getDebugLoc();
            std::string fn = cast<DIScope>(dl.getScope())->getFilename().str();
            size_t p = fn.rfind('/'); if(p != std::string::npos) fn = fn.substr(p + 1);
            l += fn + ":" + std::to_string(dl.getLine());
        }
        if(!r.empty()) r += " < ";
        r += l;
        if(s.st.size() - i > 12) { r += " < ..."; break; }
    }
    return r;
}
static std::string inputsJson(State &s, const Model &m) {
    std::string o = "[";
    for(size_t i = 0; i < s.inputs.size(); i++) {
        Input &in = s.inputs[i];
        i64 v = in.v;
        if(!in.conc) {
            u64 u = 0; Ex r = modelEval(m, in.e);
            if(r) isNum(r, u);
            v = sextw(u, in.w);
        }
        if(i) o += ",";
        o += std::to_string(v);
    }
    return o + "]";
}
static void report(State &s, const std::string &kind, const std::string &msg, const Model &m) {
    std::string loc = locStr(s);
    std::string top = loc.substr(0, loc.find(" < "));
    if(!S->errors++) S->firstErrorMs = (u64)((now() - tStart) * 1000) + 1;
    s.failed = true;
    unsigned h = (unsigned)(std::hash<std::string>()(kind + msg + top) % 512);
    if(S->reportCount[h]++ >= optMaxReports) return;
    emitLine("{\"t\":\"error\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"loc\":" + jstr(loc) +
             ",\"inputs\":" + inputsJson(s, m) + "}");
}
[[noreturn]] static void fatal(State &s, const std::string &kind, const std::string &msg) {
    report(s, kind, msg, s.model);
    throw PathEnd();
}
// obligation: c must hold on this path.  Reports a counterexample if it need not.
// Continues under c (or ends the path when c is impossible).
static void require(State &s, const Ex &c, const std::string &kind, const std::string &msg) {
    S->obligations++;
    Model mt, mf;
    int r = feas(s, c, mt, mf);
    if(r & 2) report(s, kind, msg, mf); else S->discharged++;
    if(!(r & 1)) throw PathEnd();
    if(r & 2) { addC(s, simp(c)); s.model = mt; }
}
static void requireConc(State &s, bool c, const std::string &kind, const std::string &msg) {
    S->obligations++;
    if(!c) fatal(s, kind, msg);
    S->discharged++;
}

// --------------------------------------------------------------- forking
static void tryHandOff();
static void pushWork(StateP st) {
    S->forks++;
    work.push_back(std::move(st));
    tryHandOff();
}
// branch on boolean c: returns the side this state continues with
static bool branch(State &s, const Ex &c, bool reexec) {
    Model mt, mf;
    int r = feas(s, c, mt, mf);
    if(r == 1) { return true; }
    if(r == 2) { return false; }
    Ex sc = simp(c);
    if(mentionsUndef(sc)) {
        Model mu;
        if(dependsOnUndef(s, sc, mu)) report(s, "uninit", "control flow depends on uninitialised memory", mu);
    }
    (void)reexec;
    StateP o(new State(s));
    addC(*o, simp(Ex(Z3_mk_not(Z, sc)))); o->model = mf;
    addC(s, sc); s.model = mt;
    pushWork(std::move(o)); // the other side re-executes the instruction and finds c decided
    return true;
}
static u64 concretize(State &s, const Val &v) {
    if(!v.sym()) return v.c;
    unsigned id = v.e.id();
    auto it = s.conc.find(id);
    if(it != s.conc.end()) return it->second.second;
    Ex r = modelEval(s.model, v.e);
    u64 u = 0; if(!r || !isNum(r, u)) throw Unsupported{"model evaluation"};
    Ex eq(Z3_mk_eq(Z, v.e, bvc(u, v.w)));
    Model mf;
    Ex ne(Z3_mk_not(Z, eq));
    if(sat(s.pc, ne, mf)) {
        StateP o(new State(s));
        addC(*o, ne); o->model = mf;
        addC(s, eq);
        pushWork(std::move(o));
    }
    s.conc[id] = {v.e, u};
    return u;
}

// --------------------------------------------------------------- memory ops
static u64 allocObj(State &s, u64 size, OKind k, bool zero, const std::string &name) {
    ObjP o = std::make_shared<Obj>();
    u64 base = (s.next + 15) & ~15ULL;
    u64 guard = size < 4096 ? 4096 : size;
    s.next = base + size + guard;
    o->base = base; o->size = size; o->kind = k; o->zero = zero; o->name = name;
    o->pages.resize((size + PG - 1) / PG);
    s.mem[base] = o;
    return base;
}
static ObjP *findObj(State &s, u64 addr) {
    auto it = s.mem.upper_bound(addr);
    if(it == s.mem.begin()) return nullptr;
    --it;
    Obj &o = *it->second;
    if(addr < o.base + o.size || (addr == o.base + o.size)) return &it->second;
    return nullptr;
}
static Obj &wr(ObjP &p) {
    if(p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
static Page &wrPage(Obj &o, u64 pg) {
    auto &p = o.pages[pg];
    if(!p) {
        p = std::make_shared<Page>();
        memset(p->b, 0, PG); memset(p->st, o.zero ? 0 : 2, PG);
    } else if(p.use_count() > 1) p = std::make_shared<Page>(*p);
    return *p;
}
struct ByteV { unsigned char st, b; SymByte s; };
static ByteV rdByte(Obj &o, u64 off) {
    auto &p = o.pages[off / PG];
    if(!p) return ByteV{(unsigned char)(o.zero ? 0 : 2), 0, {}};
    unsigned i = off % PG;
    ByteV r{p->st[i], p->b[i], {}};
    if(r.st == 1) r.s = p->sym[i];
    return r;
}
static void wrByte(Obj &o, u64 off, const ByteV &v) {
    Page &p = wrPage(o, off / PG);
    unsigned i = off % PG;
    if(p.st[i] == 1 && v.st != 1) p.sym.erase(i);
    p.st[i] = v.st; p.b[i] = v.b;
    if(v.st == 1) p.sym[i] = v.s;
}
static void defineByte(State &s, ObjP &op, u64 off) {
    Ex u = freshBV("undef", 8);
    undefVars.insert(u.id()); keepAlive.push_back(u);
    ByteV v{1, 0, {u, 0}};
    wrByte(wr(op), off, v);
}
static Ex byteEx(const ByteV &v) {
    if(v.st == 0) return bvc(v.b, 8);
    unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, v.s.e));
    if(w == 8) return v.s.e;
    return simp(Ex(Z3_mk_extract(Z, v.s.idx * 8 + 7, v.s.idx * 8, v.s.e)));
}
static const char *okName(OKind k) { return k == OK_HEAP ? "heap" : k == OK_STACK ? "stack" : "static"; }
// check [addr, addr+n) and return its object
static ObjP &access(State &s, u64 addr, u64 n, bool write) {
    S->obligations++;
    ObjP *o = findObj(s, addr);
    if(!o || addr + n > (*o)->base + (*o)->size) {
        if(addr < 4096) fatal(s, "null-deref", write ? "write through null pointer" : "read through null pointer");
        std::string d = o ? std::string(okName((*o)->kind)) + " block of " + std::to_string((*o)->size) + " bytes (" + (*o)->name + ") at offset " + std::to_string(addr - (*o)->base) : "no object";
        fatal(s, "out-of-bounds", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes: " + d);
    }
    if((*o)->dead) fatal(s, "use-after-free", std::string(write ? "write to " : "read of ") + okName((*o)->kind) + " memory after its end of life (" + (*o)->name + ")");
    if((*o)->kind == OK_FUNC) fatal(s, "out-of-bounds", "data access to code");
    if(write && (*o)->kind == OK_CONST) fatal(s, "const-write", "write to constant memory " + (*o)->name);
    S->discharged++;
    return *o;
}
static Val loadBytes(State &s, ObjP &op, u64 off, unsigned nb, unsigned w) {
    bool allc = true;
    ByteV bs[16];
    for(unsigned i = 0; i < nb; i++) {
        bs[i] = rdByte(*op, off + i);
        if(bs[i].st == 2) { defineByte(s, op, off + i); bs[i] = rdByte(*op, off + i); }
        if(bs[i].st) allc = false;
    }
    if(allc) {
        u64 v = 0;
        for(unsigned i = nb; i-- > 0;) v = (v << 8) | bs[i].b;
        return mkc(v, w);
    }
    // whole expression stored contiguously?
    if(bs[0].st == 1 && bs[0].s.idx == 0) {
        unsigned ew = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, bs[0].s.e));
        if(ew == nb * 8) {
            bool same = true;
            for(unsigned i = 1; i < nb; i++)
                if(bs[i].st != 1 || (Z3_ast)bs[i].s.e != (Z3_ast)bs[0].s.e || bs[i].s.idx != i) { same = false; break; }
            if(same) {
                if(w == ew) return mke(bs[0].s.e, w);
                return mke(Ex(Z3_mk_extract(Z, w - 1, 0, bs[0].s.e)), w);
            }
        }
    }
    Ex e = byteEx(bs[0]);
    for(unsigned i = 1; i < nb; i++) e = Ex(Z3_mk_concat(Z, byteEx(bs[i]), e));
    if(w < nb * 8) e = Ex(Z3_mk_extract(Z, w - 1, 0, e));
    return mke(e, w);
}
static void storeBytes(ObjP &op, u64 off, unsigned nb, const Val &v) {
    Obj &o = wr(op);
    if(!v.sym()) {
        for(unsigned i = 0; i < nb; i++) wrByte(o, off + i, ByteV{0, (unsigned char)(i < 8 ? v.c >> (8 * i) : 0), {}});
        return;
    }
    Ex e = v.e;
    if(v.w < nb * 8) e = Ex(Z3_mk_zero_ext(Z, nb * 8 - v.w, e));
    for(unsigned i = 0; i < nb; i++) wrByte(o, off + i, ByteV{1, 0, {e, i}});
}
// Resolve a possibly symbolic address to one object on this path; `off` is symbolic or not.
static ObjP &resolve(State &s, const Val &p, u64 n, bool write, Val &off) {
    if(!p.sym()) {
        ObjP &o = access(s, p.c, n, write);
        off = mkc(p.c - o->base, 64);
        return o;
    }
    Ex r = modelEval(s.model, p.e);
    u64 a = 0; if(!r || !isNum(r, a)) throw Unsupported{"model evaluation"};
    ObjP *op = findObj(s, a);
    if(!op || a + n > (*op)->base + (*op)->size || (*op)->dead) {
        // this very model misbehaves
        u64 c = concretize(s, p);
        ObjP &o = access(s, c, n, write);
        off = mkc(c - o->base, 64);
        return o;
    }
    Obj &o = **op;
    Ex lo = bvc(o.base, 64), hi = bvc(o.base + o.size - n, 64);
    Ex inLo(Z3_mk_bvuge(Z, p.e, lo)), inHi(Z3_mk_bvule(Z, p.e, hi));
    Z3_ast in2[2] = {inLo, inHi};
    Ex inside(Z3_mk_and(Z, 2, in2));
    if(!branch(s, inside, true)) throw Unsupported{"resolve"};
    op = findObj(s, a);
    if(write && (*op)->kind == OK_CONST) fatal(s, "const-write", "write to constant memory");
    if((*op)->size > 1024) {
        u64 c = concretize(s, p);
        off = mkc(c - (*op)->base, 64);
        return *op;
    }
    S->obligations++; S->discharged++;
    off = mke(Ex(Z3_mk_bvsub(Z, p.e, bvc((*op)->base, 64))), 64);
    return *op;
}
// number of low bits of e that are certainly zero
static unsigned lowZeros(Z3_ast a, int depth = 0) {
    unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, a));
    if(Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) {
        uint64_t v = 0;
        if(!Z3_get_numeral_uint64(Z, a, &v)) return 0;
        return v ? (unsigned)__builtin_ctzll(v) : w;
    }
    if(depth > 12 || Z3_get_ast_kind(Z, a) != Z3_APP_AST) return 0;
    Z3_app ap = Z3_to_app(Z, a);
    unsigned n = Z3_get_app_num_args(Z, ap);
    auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
    switch(Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap))) {
    case Z3_OP_BADD: case Z3_OP_BSUB: case Z3_OP_BOR: case Z3_OP_BXOR: {
        unsigned r = w;
        for(unsigned i = 0; i < n; i++) r = std::min(r, lowZeros(arg(i), depth + 1));
        return r; }
    case Z3_OP_ITE: return std::min(lowZeros(arg(1), depth + 1), lowZeros(arg(2), depth + 1));
    case Z3_OP_BMUL: {
        unsigned r = 0;
        for(unsigned i = 0; i < n; i++) r += lowZeros(arg(i), depth + 1);
        return std::min(r, w); }
    case Z3_OP_CONCAT: {
        unsigned r = 0;
        for(unsigned i = n; i-- > 0;) {
            unsigned aw = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, arg(i))), z = lowZeros(arg(i), depth + 1);
            r += std::min(z, aw);
            if(z < aw) break;
        }
        return r; }
    case Z3_OP_BSHL: {
        uint64_t v = 0;
        unsigned z = lowZeros(arg(0), depth + 1);
        if(n == 2 && Z3_get_ast_kind(Z, arg(1)) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, arg(1), &v)) return (unsigned)std::min<u64>(w, z + v);
        return z; }
    case Z3_OP_ZERO_EXT: case Z3_OP_SIGN_EXT: {
        unsigned z = lowZeros(arg(0), depth + 1), aw = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, arg(0)));
        return z >= aw ? w : z; }
    default: return 0;
    }
}
static Val loadVal(State &s, const Val &p, unsigned nb, unsigned w) {
    Val off;
    ObjP &op = resolve(s, p, nb, false, off);
    if(!off.sym()) return loadBytes(s, op, off.c, nb, w);
    // symbolic offset: ite chain over the feasible positions
    u64 stride = 1ull << std::min(6u, lowZeros(simp(off.e)));
    if(op->size < nb + stride) stride = 1;
    u64 last = (op->size - nb) / stride * stride;
    Val acc = loadBytes(s, op, last, nb, w);
    Ex e = ex(acc);
    for(u64 k = last; k >= stride;) {
        k -= stride;
        Val v = loadBytes(s, op, k, nb, w);
        e = Ex(Z3_mk_ite(Z, Ex(Z3_mk_eq(Z, off.e, bvc(k, 64))), ex(v), e));
    }
    return mke(e, w);
}
static void storeVal(State &s, const Val &p, unsigned nb, const Val &v) {
    Val off;
    ObjP &op = resolve(s, p, nb, true, off);
    if(!off.sym()) { storeBytes(op, off.c, nb, v); return; }
    Ex ve = ex(v);
    if(v.w < nb * 8) ve = Ex(Z3_mk_zero_ext(Z, nb * 8 - v.w, ve));
    Obj &o = wr(op);
    u64 stride = 1ull << std::min(6u, lowZeros(simp(off.e)));
    for(u64 k = 0; k < o.size; k++) {
        ByteV old = rdByte(o, k);
        if(k % stride >= nb) continue;
        if(old.st == 2) { defineByte(s, op, k); old = rdByte(*op, k); }
        Ex e = byteEx(old);
        for(unsigned i = 0; i < nb && i <= k; i++) {
            if(k - i + nb > o.size || (k - i) % stride) continue;
            e = Ex(Z3_mk_ite(Z, Ex(Z3_mk_eq(Z, off.e, bvc(k - i, 64))), Ex(Z3_mk_extract(Z, i * 8 + 7, i * 8, ve)), e));
        }
        e = simp(e);
        u64 cv;
        if(isNum(e, cv)) wrByte(wr(op), k, ByteV{0, (unsigned char)cv, {}});
        else wrByte(wr(op), k, ByteV{1, 0, {e, 0}});
    }
}
static void copyMem(State &s, u64 d, u64 src, u64 n) {
    if(n == 0) return;
    ObjP so = access(s, src, n, false); // keep a reference: source snapshot
    ObjP &dp = access(s, d, n, true);
    std::vector<ByteV> tmp;
    u64 soff = src - so->base, doff = d - dp->base;
    tmp.reserve(n);
    for(u64 i = 0; i < n; i++) tmp.push_back(rdByte(*so, soff + i));
    so.reset();
    Obj &o = wr(dp);
    for(u64 i = 0; i < n; i++) wrByte(o, doff + i, tmp[i]);
}
static std::string cstr(State &s, const Val &p) {
    std::string r;
    u64 a = concretize(s, p);
    for(;;) {
        ObjP &o = access(s, a, 1, false);
        Val v = loadBytes(s, o, a - o->base, 1, 8);
        char c = (char)concretize(s, v);
        if(!c) return r;
        r += c; a++;
    }
}

// --------------------------------------------------------------- constants
static unsigned tyBits(Type *t) {
    if(t->isPointerTy()) return 64;
    if(t->isIntegerTy()) return t->getIntegerBitWidth();
    if(t->isFloatTy()) return 32;
    if(t->isDoubleTy()) return 64;
    throw Unsupported{"type"};
}
static Val constVal(const Constant *c);
static i64 constGep(const GEPOperator *g, u64 base) {
    APInt off(64, 0);
    if(!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
    return (i64)(base + off.getZExtValue());
}
static Val constVal(const Constant *c) {
    if(auto *ci = dyn_cast<ConstantInt>(c)) {
        if(ci->getBitWidth() > 64) throw Unsupported{"wide integer"};
        return mkc(ci->getZExtValue(), ci->getBitWidth());
    }
    if(auto *cf = dyn_cast<ConstantFP>(c)) {
        return mkc(cf->getValueAPF().bitcastToAPInt().getZExtValue(), tyBits(c->getType()));
    }
    if(isa<ConstantPointerNull>(c)) return mkc(0, 64);
    if(auto *gv = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(gv);
        if(it == gaddr.end()) throw Unsupported{"unknown global " + gv->getName().str()};
        return mkc(it->second, 64);
    }
    if(isa<UndefValue>(c)) {
        if(c->getType()->isStructTy() || c->getType()->isArrayTy()) {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
            for(unsigned i = 0; i < n; i++) v.agg->push_back(constVal(cast<UndefValue>(c)->getElementValue(i)));
            return v;
        }
        return mkc(0, tyBits(c->getType()));
    }
    if(auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch(ce->getOpcode()) {
        case Instruction::GetElementPtr: return mkc((u64)constGep(cast<GEPOperator>(ce), constVal(ce->getOperand(0)).c), 64);
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Val v = constVal(ce->getOperand(0)); return mkc(v.c, tyBits(ce->getType())); }
        default: throw Unsupported{"constant expression"};
        }
    }
    if(c->getType()->isStructTy() || c->getType()->isArrayTy()) {
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
        for(unsigned i = 0; i < n; i++) v.agg->push_back(constVal(c->getAggregateElement(i)));
        return v;
    }
    throw Unsupported{"constant"};
}
static void initGlobal(ObjP &o, u64 off, const Constant *c) {
    Type *t = c->getType();
    if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if(auto *ds = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(ds->getElementType());
        for(unsigned i = 0; i < ds->getNumElements(); i++) initGlobal(o, off + i * es, ds->getElementAsConstant(i));
        return;
    }
    if(auto *st = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL->getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); i++) initGlobal(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if(auto *at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for(unsigned i = 0; i < at->getNumElements(); i++) initGlobal(o, off + i * es, c->getAggregateElement(i));
        return;
    }
    Val v = constVal(c);
    storeBytes(o, off, (unsigned)DL->getTypeStoreSize(t), v);
}

// --------------------------------------------------------------- evaluation
static const Val &constCached(const Constant *c) {
    static std::unordered_map<const Constant *, Val> cache;
    auto it = cache.find(c);
    if(it != cache.end()) return it->second;
    return cache.emplace(c, constVal(c)).first->second;
}
static const Val &get(Frame &f, const Value *v) {
    if(auto *c = dyn_cast<Constant>(v)) return constCached(c);
    return f.regs[regNo.find(v)->second];
}
static void setReg(Frame &f, const Value *v, Val x) { f.regs[regNo.find(v)->second] = std::move(x); }

static Val binop(State &s, unsigned op, const Val &a, const Val &b) {
    unsigned w = a.w;
    if(op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
        if(!b.sym()) requireConc(s, b.c != 0, "div-zero", "division by zero");
        else require(s, Ex(Z3_mk_not(Z, Z3_mk_eq(Z, b.e, bvc(0, w)))), "div-zero", "division by zero");
    }
    if(!a.sym() && !b.sym()) {
        u64 x = a.c, y = b.c; i64 sx = sextw(x, w), sy = sextw(y, w);
        switch(op) {
        case Instruction::Add: return mkc(x + y, w);
        case Instruction::Sub: return mkc(x - y, w);
        case Instruction::Mul: return mkc(x * y, w);
        case Instruction::UDiv: return mkc(x / y, w);
        case Instruction::URem: return mkc(x % y, w);
        case Instruction::SDiv: if(sy == -1) return mkc(0 - x, w); return mkc((u64)(sx / sy), w);
        case Instruction::SRem: if(sy == -1) return mkc(0, w); return mkc((u64)(sx % sy), w);
        case Instruction::And: return mkc(x & y, w);
        case Instruction::Or: return mkc(x | y, w);
        case Instruction::Xor: return mkc(x ^ y, w);
        case Instruction::Shl: return mkc(y >= w ? 0 : x << y, w);
        case Instruction::LShr: return mkc(y >= w ? 0 : x >> y, w);
        case Instruction::AShr: return mkc((u64)(y >= w ? (sx < 0 ? -1 : 0) : sx >> y), w);
        }
        throw Unsupported{"binop"};
    }
    Ex x = ex(a), y = ex(b);
    Z3_ast r;
    switch(op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x, y); break;
    case Instruction::URem: r = Z3_mk_bvurem(Z, x, y); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x, y); break;
    case Instruction::SRem: r = Z3_mk_bvsrem(Z, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(Z, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    default: throw Unsupported{"binop"};
    }
    return mke(Ex(r), w);
}
static Ex cmpEx(CmpInst::Predicate p, const Ex &x, const Ex &y) {
    switch(p) {
    case CmpInst::ICMP_EQ: return Ex(Z3_mk_eq(Z, x, y));
    case CmpInst::ICMP_NE: return Ex(Z3_mk_not(Z, Z3_mk_eq(Z, x, y)));
    case CmpInst::ICMP_UGT: return Ex(Z3_mk_bvugt(Z, x, y));
    case CmpInst::ICMP_UGE: return Ex(Z3_mk_bvuge(Z, x, y));
    case CmpInst::ICMP_ULT: return Ex(Z3_mk_bvult(Z, x, y));
    case CmpInst::ICMP_ULE: return Ex(Z3_mk_bvule(Z, x, y));
    case CmpInst::ICMP_SGT: return Ex(Z3_mk_bvsgt(Z, x, y));
    case CmpInst::ICMP_SGE: return Ex(Z3_mk_bvsge(Z, x, y));
    case CmpInst::ICMP_SLT: return Ex(Z3_mk_bvslt(Z, x, y));
    case CmpInst::ICMP_SLE: return Ex(Z3_mk_bvsle(Z, x, y));
    default: throw Unsupported{"icmp"};
    }
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    if(!a.sym() && !b.sym()) {
        u64 x = a.c, y = b.c; i64 sx = sextw(x, a.w), sy = sextw(y, a.w);
        bool r;
        switch(p) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = sx > sy; break;
        case CmpInst::ICMP_SGE: r = sx >= sy; break;
        case CmpInst::ICMP_SLT: r = sx < sy; break;
        case CmpInst::ICMP_SLE: r = sx <= sy; break;
        default: throw Unsupported{"icmp"};
        }
        return mkc(r, 1);
    }
    return mke(b2bv(cmpEx(p, ex(a), ex(b))), 1);
}
static double asD(const Val &v) {
    if(v.w == 32) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return f; }
    double d; memcpy(&d, &v.c, 8); return d;
}
static Val fromD(double d, unsigned w) {
    if(w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return mkc(u, 32); }
    u64 u; memcpy(&u, &d, 8); return mkc(u, 64);
}

static Val loadTyped(State &s, const Val &p, Type *t) {
    if(t->isStructTy() || t->isArrayTy()) {
        Val r; r.agg = std::make_shared<std::vector<Val>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
        for(unsigned i = 0; i < n; i++) {
            u64 o = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(t->getArrayElementType());
            Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
            r.agg->push_back(loadTyped(s, binop(s, Instruction::Add, p, mkc(o, 64)), et));
        }
        return r;
    }
    return loadVal(s, p, (unsigned)DL->getTypeStoreSize(t), tyBits(t));
}
static void storeTyped(State &s, const Val &p, Type *t, const Val &v) {
    if(t->isStructTy() || t->isArrayTy()) {
        for(unsigned i = 0; i < v.agg->size(); i++) {
            u64 o = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(t->getArrayElementType());
            Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
            storeTyped(s, binop(s, Instruction::Add, p, mkc(o, 64)), et, (*v.agg)[i]);
        }
        return;
    }
    storeVal(s, p, (unsigned)DL->getTypeStoreSize(t), v);
}

// --------------------------------------------------------------- builtins
static Val addInput(State &s, i64 lo, i64 hi, unsigned w) {
    if(lo == hi) { s.inputs.push_back({true, lo, Ex(), w}); return mkc((u64)lo, w); }
    u64 range = (u64)hi - (u64)lo; // inclusive count - 1
    unsigned bits = 1;
    while(bits < w && (range >> bits)) bits++;
    Ex v = freshBV("in", bits);
    Ex e = bits < w ? Ex(Z3_mk_zero_ext(Z, w - bits, v)) : v;
    e = Ex(Z3_mk_bvadd(Z, e, bvc(maskw((u64)lo, w), w)));
    Val r = mke(e, w);
    s.inputs.push_back({false, 0, r.e, w});
    if(bits == 64 ? range != ~0ULL : range != (1ULL << bits) - 1) {
        Ex c(Z3_mk_bvule(Z, v, bvc(range, bits)));
        Model m;
        if(!evalB(s.model, c)) { if(!sat(s.pc, c, m)) throw PathEnd(); s.model = m; }
        addC(s, c);
    }
    return r;
}
static void forkChoices(State &s, i64 lo, i64 hi, Instruction *ins) {
    // the current instruction is completed in every forked state
    for(i64 v = hi; v > lo; v--) {
        StateP o(new State(s));
        o->inputs.push_back({true, v, Ex(), 32});
        setReg(o->st.back(), ins, mkc((u64)v, 32));
        ++o->st.back().it;
        pushWork(std::move(o));
    }
    s.inputs.push_back({true, lo, Ex(), 32});
    setReg(s.st.back(), ins, mkc((u64)lo, 32));
}
static void doFree(State &s, const Val &p) {
    u64 a = concretize(s, p);
    if(!a) return;
    S->obligations++;
    auto it = s.mem.find(a);
    if(it == s.mem.end()) {
        ObjP *o = findObj(s, a);
        fatal(s, "bad-free", o ? "free of a pointer into the middle of a block" : "free of a wild pointer");
    }
    if(it->second->kind != OK_HEAP) fatal(s, "bad-free", std::string("free of ") + okName(it->second->kind) + " memory (" + it->second->name + ")");
    if(it->second->dead) fatal(s, "double-free", "block freed twice (" + it->second->name + ")");
    S->discharged++;
    Obj &o = wr(it->second);
    o.dead = true; o.pages.clear();
    s.live--;
}
static std::string allocName(State &s) {
    Frame &f = s.st.back();
    std::string l = f.fn->getName().str();
    if(f.it->getDebugLoc()) l += ":" + std::to_string(f.it->getDebugLoc().getLine());
    return l;
}

static void enterFn(State &s, Function *fn, std::vector<Val> args, Instruction *site) {
    if(s.st.size() > 400) fatal(s, "stack-overflow", "call depth exceeds 400");
    Frame f;
    f.fn = fn; f.bb = &fn->getEntryBlock(); f.prev = nullptr; f.it = f.bb->begin();
    f.regs.resize(fnRegs[fn]);
    f.callSite = site;
    unsigned i = 0;
    for(auto &a : fn->args()) {
        Val v = args[i++];
        if(a.hasByValAttr()) { // callee gets a private copy
            u64 n = DL->getTypeAllocSize(a.getParamByValType());
            u64 src = concretize(s, v);
            u64 d = allocObj(s, n, OK_STACK, false, "byval arg of " + fn->getName().str());
            copyMem(s, d, src, n);
            f.allocas.push_back(d);
            v = mkc(d, 64);
        }
        f.regs[regNo[&a]] = v;
    }
    for(; i < args.size(); i++) f.varargs.push_back(args[i]);
    S->cover[bbNo[f.bb]] = 1;
    s.st.push_back(std::move(f));
}

// returns true if the call was handled without pushing a frame
static bool builtin(State &s, CallBase *cb, Function *fn, const std::vector<Val> &a, Val &ret) {
    StringRef n = fn->getName();
    unsigned rw = fn->getReturnType()->isVoidTy() ? 0 : (fn->getReturnType()->isStructTy() ? 0 : tyBits(fn->getReturnType()));
    if(n == "vf_int" || n == "vf_ll") {
        i64 lo = sextw(concretize(s, a[0]), a[0].w), hi = sextw(concretize(s, a[1]), a[1].w);
        if(lo > hi) throw PathEnd();
        ret = addInput(s, lo, hi, rw); return true;
    }
    if(n == "vf_assume") {
        Ex c(Z3_mk_not(Z, Z3_mk_eq(Z, ex(a[0]), bvc(0, a[0].w))));
        Model mt, mf; int r = feas(s, c, mt, mf);
        if(!(r & 1)) { S->killedAssume++; throw PathEnd(); }
        if(r & 2) { addC(s, simp(c)); s.model = mt; }
        return true;
    }
    if(n == "vf_assert_") {
        Ex c(Z3_mk_not(Z, Z3_mk_eq(Z, ex(a[0]), bvc(0, a[0].w))));
        require(s, c, "assert", cstr(s, a[1]));
        return true;
    }
    if(n == "vf_witness_") {
        std::string w = cstr(s, a[0]);
        auto it = witnessIds.find(w);
        unsigned id;
        if(it == witnessIds.end()) {
            id = (unsigned)(std::hash<std::string>()(w) % 256);
            witnessIds[w] = id;
            if(!S->witness[id]) { S->witness[id] = 1; emitLine("{\"t\":\"witness\",\"name\":" + jstr(w) + ",\"inputs\":" + inputsJson(s, s.model) + "}"); }
            else emitLine("{\"t\":\"witness\",\"name\":" + jstr(w) + ",\"inputs\":[]}");
        }
        return true;
    }
    if(n == "vf_obs") { s.obs.push_back(a[0]); return true; }
    if(n == "vf_readable") { // is [p, p+n) inside one live object?
        u64 p = concretize(s, a[0]), k = concretize(s, a[1]);
        ObjP *o = findObj(s, p);
        ret = mkc(o && !(*o)->dead && p + k <= (*o)->base + (*o)->size, rw); return true;
    }
    if(n == "vf_undefined") { // does the value read from [p,p+n) depend on uninitialised memory?
        u64 p = concretize(s, a[0]), k = concretize(s, a[1]);
        bool u = false;
        for(u64 i = 0; i < k; i++) {
            ObjP &o = access(s, p + i, 1, false);
            ByteV b = rdByte(*o, p + i - o->base);
            Model mu;
            if(b.st == 2 || (b.st == 1 && mentionsUndef(byteEx(b)) && dependsOnUndef(s, byteEx(b), mu))) u = true;
        }
        ret = mkc(u, rw); return true;
    }
    if(n == "vf_is_sym") { ret = mkc(a[0].sym(), rw); return true; }
    if(n == "vf_concrete") { ret = mkc(concretize(s, a[0]), rw); return true; }
    if(n == "vf_end_path") throw PathEnd();
    if(n == "malloc" || n == "calloc") {
        u64 sz;
        if(n == "malloc") sz = concretize(s, a[0]);
        else {
            u64 x = concretize(s, a[0]), y = concretize(s, a[1]);
            if(y && x > ~0ULL / y) { ret = mkc(0, 64); return true; }
            sz = x * y;
        }
        if(sz > (1ULL << 30)) { ret = mkc(0, 64); return true; }
        ret = mkc(allocObj(s, sz, OK_HEAP, n == "calloc", allocName(s)), 64);
        s.live++;
        return true;
    }
    if(n == "realloc") {
        u64 p = concretize(s, a[0]), sz = concretize(s, a[1]);
        if(sz > (1ULL << 30)) { ret = mkc(0, 64); return true; }
        u64 np = 0;
        if(p) {
            auto it = s.mem.find(p);
            if(it == s.mem.end() || it->second->kind != OK_HEAP) fatal(s, "bad-free", "realloc of a pointer that is not a heap block");
            if(it->second->dead) fatal(s, "use-after-free", "realloc of a freed block");
            u64 old = it->second->size;
            if(sz == 0) { doFree(s, a[0]); ret = mkc(0, 64); return true; }
            np = allocObj(s, sz, OK_HEAP, false, allocName(s));
            copyMem(s, np, p, std::min(old, sz));
            Obj &o = wr(s.mem[p]); o.dead = true; o.pages.clear();
        } else { np = allocObj(s, sz, OK_HEAP, false, allocName(s)); s.live++; }
        ret = mkc(np, 64);
        return true;
    }
    if(n == "free") { doFree(s, a[0]); return true; }
    if(n == "memcpy" || n == "memmove") {
        u64 k = concretize(s, a[2]), d = concretize(s, a[0]), src = concretize(s, a[1]);
        copyMem(s, d, src, k); ret = a[0]; return true;
    }
    if(n == "memset") {
        u64 k = concretize(s, a[2]), d = concretize(s, a[0]);
        if(k) {
            ObjP &o = access(s, d, k, true); u64 off = d - o->base; Obj &w = wr(o);
            Val b = a[1]; if(b.sym()) b = mke(Ex(Z3_mk_extract(Z, 7, 0, b.e)), 8);
            for(u64 i = 0; i < k; i++) wrByte(w, off + i, b.sym() ? ByteV{1, 0, {b.e, 0}} : ByteV{0, (unsigned char)b.c, {}});
        }
        ret = a[0]; return true;
    }
    if(n == "abort" || n == "__assert_fail" || n == "exit" || n == "_exit") {
        std::string m = n.str() + " called";
        if(n == "__assert_fail") m = "assertion failed: " + cstr(s, a[0]);
        fatal(s, "abort", m);
    }
    if(n == "vf_strtod_bits") { // host conversion of a concrete string
        std::string t = cstr(s, a[0]);
        ret = fromD(strtod(t.c_str(), nullptr), 64); return true;
    }
    if(n == "vf_print") { if(optVerbose) fprintf(stderr, "[vf] %s\n", cstr(s, a[0]).c_str()); return true; }
    return false;
}

static bool intrinsic(State &s, IntrinsicInst *ii, const std::vector<Val> &a, Val &ret) {
    Frame &f = s.st.back();
    switch(ii->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: {
        u64 k = concretize(s, a[2]), d = concretize(s, a[0]), src = concretize(s, a[1]);
        copyMem(s, d, src, k); return true; }
    case Intrinsic::memset: {
        u64 k = concretize(s, a[2]), d = concretize(s, a[0]);
        if(k) {
            ObjP &o = access(s, d, k, true); u64 off = d - o->base; Obj &w = wr(o);
            for(u64 i = 0; i < k; i++) wrByte(w, off + i, a[1].sym() ? ByteV{1, 0, {a[1].e, 0}} : ByteV{0, (unsigned char)a[1].c, {}});
        }
        return true; }
    case Intrinsic::lifetime_start: {
        u64 p = a[1].c; auto it = s.mem.find(p);
        if(it != s.mem.end()) { Obj &o = wr(it->second); o.dead = false; for(auto &pg : o.pages) pg.reset(); }
        return true; }
    case Intrinsic::lifetime_end: {
        u64 p = a[1].c; auto it = s.mem.find(p);
        if(it != s.mem.end()) { Obj &o = wr(it->second); o.dead = true; }
        return true; }
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::dbg_assign: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::donothing: case Intrinsic::vaend: case Intrinsic::stackrestore: return true;
    case Intrinsic::stacksave: ret = mkc(0, 64); return true;
    case Intrinsic::expect: ret = a[0]; return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: fatal(s, "trap", "undefined behaviour trap");
    case Intrinsic::vastart: {
        u64 n = f.varargs.size();
        u64 area = allocObj(s, n * 8 + 8, OK_STACK, false, "va area");
        f.allocas.push_back(area);
        for(u64 i = 0; i < n; i++) storeVal(s, mkc(area + 8 * i, 64), (f.varargs[i].w + 7) / 8, f.varargs[i]);
        storeVal(s, a[0], 4, mkc(48, 32));
        storeVal(s, mkc(a[0].c + 4, 64), 4, mkc(176, 32));
        storeVal(s, mkc(a[0].c + 8, 64), 8, mkc(area, 64));
        storeVal(s, mkc(a[0].c + 16, 64), 8, mkc(0, 64));
        return true; }
    case Intrinsic::vacopy: copyMem(s, a[0].c, a[1].c, 24); return true;
    case Intrinsic::objectsize: ret = mkc(~0ULL, tyBits(ii->getType())); return true;
    case Intrinsic::is_constant: ret = mkc(0, 1); return true;
    case Intrinsic::fabs: ret = fromD(std::fabs(asD(a[0])), a[0].w); return true;
    case Intrinsic::fmuladd: ret = fromD(asD(a[0]) * asD(a[1]) + asD(a[2]), a[0].w); return true;
    case Intrinsic::abs: {
        Val neg = binop(s, Instruction::Sub, mkc(0, a[0].w), a[0]);
        Val c = icmp(CmpInst::ICMP_SLT, a[0], mkc(0, a[0].w));
        if(!c.sym()) ret = c.c ? neg : a[0];
        else ret = mke(Ex(Z3_mk_ite(Z, bv2b(c), ex(neg), ex(a[0]))), a[0].w);
        return true; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        auto id = ii->getIntrinsicID();
        auto p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
        Val c = icmp(p, a[0], a[1]);
        if(!c.sym()) ret = c.c ? a[0] : a[1];
        else ret = mke(Ex(Z3_mk_ite(Z, bv2b(c), ex(a[0]), ex(a[1]))), a[0].w);
        return true; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        auto id = ii->getIntrinsicID(); unsigned w = a[0].w;
        bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
        auto ext = [&](const Val &v) { return Ex(sg ? Z3_mk_sign_ext(Z, w, ex(v)) : Z3_mk_zero_ext(Z, w, ex(v))); };
        Ex x = ext(a[0]), y = ext(a[1]), r;
        if(id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) r = Ex(Z3_mk_bvmul(Z, x, y));
        else if(id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) r = Ex(Z3_mk_bvadd(Z, x, y));
        else r = Ex(Z3_mk_bvsub(Z, x, y));
        Ex lo(Z3_mk_extract(Z, w - 1, 0, r));
        Ex back(sg ? Z3_mk_sign_ext(Z, w, lo) : Z3_mk_zero_ext(Z, w, lo));
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(mke(lo, w));
        v.agg->push_back(mke(b2bv(Ex(Z3_mk_not(Z, Z3_mk_eq(Z, back, r)))), 1));
        ret = v; return true; }
    case Intrinsic::bswap: {
        Ex e = ex(a[0]); unsigned w = a[0].w; Ex r(Z3_mk_extract(Z, 7, 0, e));
        for(unsigned i = 1; i < w / 8; i++) r = Ex(Z3_mk_concat(Z, r, Z3_mk_extract(Z, i * 8 + 7, i * 8, e)));
        ret = mke(r, w); return true; }
    default: return false;
    }
}

static void goTo(State &s, Frame &f, BasicBlock *b) {
    f.prev = f.bb; f.bb = b; f.it = b->begin();
    S->cover[bbNo[b]] = 1;
    // phis in parallel
    std::vector<std::pair<PHINode *, Val>> ph;
    for(auto &i : *b) {
        auto *p = dyn_cast<PHINode>(&i);
        if(!p) break;
        ph.push_back({p, get(f, p->getIncomingValueForBlock(f.prev))});
    }
    for(auto &x : ph) { setReg(f, x.first, x.second); ++f.it; }
    (void)s;
}

// execute one instruction; returns false when the program ended
static bool step(State &s) {
    Frame *f = &s.st.back();
    Instruction *I = &*f->it;
    switch(I->getOpcode()) {
    case Instruction::Alloca: {
        auto *al = cast<AllocaInst>(I);
        u64 n = DL->getTypeAllocSize(al->getAllocatedType());
        if(al->isArrayAllocation()) n *= concretize(s, get(*f, al->getArraySize()));
        u64 p = allocObj(s, n, OK_STACK, false, f->fn->getName().str() + "." + al->getName().str());
        f->allocas.push_back(p);
        setReg(*f, I, mkc(p, 64));
        break; }
    case Instruction::Load: {
        Val p = get(*f, cast<LoadInst>(I)->getPointerOperand());
        Val v = loadTyped(s, p, I->getType());
        setReg(s.st.back(), I, v);
        break; }
    case Instruction::Store: {
        auto *st = cast<StoreInst>(I);
        Val v = get(*f, st->getValueOperand());
        Val p = get(*f, st->getPointerOperand());
        storeTyped(s, p, st->getValueOperand()->getType(), v);
        break; }
    case Instruction::GetElementPtr: {
        auto *g = cast<GetElementPtrInst>(I);
        Val p = get(*f, g->getPointerOperand());
        for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Val idx = get(*f, it.getOperand());
            if(StructType *st = it.getStructTypeOrNull()) {
                u64 o = DL->getStructLayout(st)->getElementOffset((unsigned)idx.c);
                p = binop(s, Instruction::Add, p, mkc(o, 64));
            } else {
                u64 es = DL->getTypeAllocSize(it.getIndexedType());
                if(!idx.sym()) p = binop(s, Instruction::Add, p, mkc((u64)(sextw(idx.c, idx.w) * (i64)es), 64));
                else {
                    Val w = idx;
                    if(idx.w < 64) w = mke(Ex(Z3_mk_sign_ext(Z, 64 - idx.w, idx.e)), 64);
                    if(es != 1) w = binop(s, Instruction::Mul, w, mkc(es, 64));
                    p = binop(s, Instruction::Add, p, w);
                }
            }
        }
        setReg(*f, I, p);
        break; }
    case Instruction::ICmp: {
        auto *c = cast<ICmpInst>(I);
        setReg(*f, I, icmp(c->getPredicate(), get(*f, c->getOperand(0)), get(*f, c->getOperand(1))));
        break; }
    case Instruction::FCmp: {
        auto *c = cast<FCmpInst>(I);
        Val x = get(*f, c->getOperand(0)), y = get(*f, c->getOperand(1));
        if(x.sym()) x = mkc(concretize(s, x), x.w);
        if(y.sym()) y = mkc(concretize(s, y), y.w);
        setReg(*f, I, mkc(FCmpInst::compare(
            x.w == 32 ? APFloat(APFloat::IEEEsingle(), APInt(32, x.c)) : APFloat(APFloat::IEEEdouble(), APInt(64, x.c)),
            y.w == 32 ? APFloat(APFloat::IEEEsingle(), APInt(32, y.c)) : APFloat(APFloat::IEEEdouble(), APInt(64, y.c)), c->getPredicate()), 1));
        break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        Val x = get(*f, I->getOperand(0)), y = get(*f, I->getOperand(1));
        if(x.sym()) x = mkc(concretize(s, x), x.w);
        if(y.sym()) y = mkc(concretize(s, y), y.w);
        double a = asD(x), b = asD(y), r;
        if(x.w == 32) {
            float fa = (float)a, fb = (float)b, fr;
            switch(I->getOpcode()) { case Instruction::FAdd: fr = fa + fb; break; case Instruction::FSub: fr = fa - fb; break; case Instruction::FMul: fr = fa * fb; break; default: fr = fa / fb; }
            r = fr;
        } else
            switch(I->getOpcode()) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; default: r = a / b; }
        setReg(*f, I, fromD(r, x.w));
        break; }
    case Instruction::FNeg: {
        Val x = get(*f, I->getOperand(0)); if(x.sym()) x = mkc(concretize(s, x), x.w);
        setReg(*f, I, fromD(-asD(x), x.w)); break; }
    case Instruction::SIToFP: case Instruction::UIToFP: {
        Val x = get(*f, I->getOperand(0)); if(x.sym()) x = mkc(concretize(s, x), x.w);
        setReg(*f, I, fromD(I->getOpcode() == Instruction::SIToFP ? (double)sextw(x.c, x.w) : (double)x.c, tyBits(I->getType()))); break; }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        Val x = get(*f, I->getOperand(0)); if(x.sym()) x = mkc(concretize(s, x), x.w);
        double d = asD(x);
        setReg(*f, I, mkc(I->getOpcode() == Instruction::FPToSI ? (u64)(i64)d : (d < 0 ? (u64)(i64)d : (u64)d), tyBits(I->getType()))); break; }
    case Instruction::FPExt: case Instruction::FPTrunc: {
        Val x = get(*f, I->getOperand(0)); if(x.sym()) x = mkc(concretize(s, x), x.w);
        setReg(*f, I, fromD(asD(x), tyBits(I->getType()))); break; }
    case Instruction::Trunc: {
        unsigned w = tyBits(I->getType()); const Val &x = get(*f, I->getOperand(0));
        setReg(*f, I, x.sym() ? mke(Ex(Z3_mk_extract(Z, w - 1, 0, x.e)), w) : mkc(x.c, w)); break; }
    case Instruction::ZExt: {
        unsigned w = tyBits(I->getType()); const Val &x = get(*f, I->getOperand(0));
        setReg(*f, I, x.sym() ? mke(Ex(Z3_mk_zero_ext(Z, w - x.w, x.e)), w) : mkc(x.c, w)); break; }
    case Instruction::SExt: {
        unsigned w = tyBits(I->getType()); const Val &x = get(*f, I->getOperand(0));
        setReg(*f, I, x.sym() ? mke(Ex(Z3_mk_sign_ext(Z, w - x.w, x.e)), w) : mkc((u64)sextw(x.c, x.w), w)); break; }
    case Instruction::BitCast: case Instruction::Freeze: setReg(*f, I, get(*f, I->getOperand(0))); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
        unsigned w = tyBits(I->getType()); Val x = get(*f, I->getOperand(0));
        if(x.w == w) setReg(*f, I, x);
        else if(x.w > w) setReg(*f, I, x.sym() ? mke(Ex(Z3_mk_extract(Z, w - 1, 0, x.e)), w) : mkc(x.c, w));
        else setReg(*f, I, x.sym() ? mke(Ex(Z3_mk_zero_ext(Z, w - x.w, x.e)), w) : mkc(x.c, w));
        break; }
    case Instruction::Select: {
        const Val &c = get(*f, I->getOperand(0));
        Val a = get(*f, I->getOperand(1)), b = get(*f, I->getOperand(2));
        if(!c.sym()) setReg(*f, I, c.c ? a : b);
        else if(a.agg) throw Unsupported{"select on aggregate"};
        else setReg(*f, I, mke(Ex(Z3_mk_ite(Z, bv2b(c), ex(a), ex(b))), a.w));
        break; }
    case Instruction::ExtractValue: {
        auto *ev = cast<ExtractValueInst>(I); Val v = get(*f, ev->getAggregateOperand());
        for(unsigned i : ev->indices()) { Val t = (*v.agg)[i]; v = t; }
        setReg(*f, I, v); break; }
    case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(I);
        Val v = get(*f, iv->getAggregateOperand());
        if(iv->getNumIndices() != 1) throw Unsupported{"nested insertvalue"};
        v.agg = std::make_shared<std::vector<Val>>(*v.agg);
        (*v.agg)[iv->getIndices()[0]] = get(*f, iv->getInsertedValueOperand());
        setReg(*f, I, v); break; }
    case Instruction::Br: {
        auto *b = cast<BranchInst>(I);
        if(b->isUnconditional()) { goTo(s, *f, b->getSuccessor(0)); return true; }
        Val c = get(*f, b->getCondition());
        bool t = c.sym() ? branch(s, bv2b(c), true) : c.c != 0;
        goTo(s, s.st.back(), b->getSuccessor(t ? 0 : 1));
        return true; }
    case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(I);
        Val c = get(*f, sw->getCondition());
        if(!c.sym()) {
            auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.c);
            goTo(s, *f, sw->findCaseValue(ci)->getCaseSuccessor());
            return true;
        }
        for(auto &cs : sw->cases()) {
            Ex eq(Z3_mk_eq(Z, c.e, bvc(cs.getCaseValue()->getZExtValue(), c.w)));
            if(branch(s, eq, true)) { goTo(s, s.st.back(), cs.getCaseSuccessor()); return true; }
        }
        goTo(s, s.st.back(), sw->getDefaultDest());
        return true; }
    case Instruction::Unreachable: fatal(s, "unreachable", "unreachable code executed");
    case Instruction::Ret: {
        auto *r = cast<ReturnInst>(I);
        Val v; bool has = r->getReturnValue() != nullptr;
        if(has) v = get(*f, r->getReturnValue());
        for(u64 p : f->allocas) s.mem.erase(p);
        Instruction *site = f->callSite;
        s.st.pop_back();
        if(s.st.empty()) return false;
        Frame &pf = s.st.back();
        if(has && !site->getType()->isVoidTy()) setReg(pf, site, v);
        ++pf.it;
        return true; }
    case Instruction::Call: {
        auto *cb = cast<CallBase>(I);
        Function *fn = cb->getCalledFunction();
        std::vector<Val> args;
        args.reserve(cb->arg_size());
        if(isa<DbgInfoIntrinsic>(I)) break;
        for(auto &a : cb->args()) {
            if(a->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
            args.push_back(get(*f, a));
        }
        if(auto *ii = dyn_cast<IntrinsicInst>(I)) {
            Val r;
            if(!intrinsic(s, ii, args, r)) throw Unsupported{"intrinsic " + fn->getName().str()};
            if(!I->getType()->isVoidTy()) setReg(s.st.back(), I, r);
            break;
        }
        if(!fn) {
            u64 a = concretize(s, get(*f, cb->getCalledOperand()));
            auto it = faddr.find(a);
            if(it == faddr.end()) fatal(s, a < 4096 ? "null-deref" : "bad-call", a < 4096 ? "call through null function pointer" : "call through wild function pointer");
            fn = it->second;
        }
        if(fn->getName() == "vf_choose") {
            i64 lo = sextw(concretize(s, args[0]), 32), hi = sextw(concretize(s, args[1]), 32);
            if(lo > hi) throw PathEnd();
            forkChoices(s, lo, hi, I);
            break;
        }
        if(fn->isDeclaration()) {
            Val r;
            if(!builtin(s, cb, fn, args, r)) throw Unsupported{"external function " + fn->getName().str()};
            if(!I->getType()->isVoidTy()) setReg(s.st.back(), I, r);
            break;
        }
        if(args.size() < fn->arg_size()) throw Unsupported{"call arity"};
        enterFn(s, fn, args, I);
        return true; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Val x = get(*f, I->getOperand(0)), y = get(*f, I->getOperand(1));
        if(x.agg || y.agg) throw Unsupported{"vector arithmetic"};
        Val r = binop(s, I->getOpcode(), x, y);
        setReg(s.st.back(), I, r);
        break; }
    default: throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
    }
    ++s.st.back().it;
    return true;
}

// --------------------------------------------------------------- driver
static bool isChild = false;
static std::vector<pid_t> kids;
static void tryHandOff() {
    if(optJobs <= 1 || work.empty()) return;
    long t = S->tokens.load();
    while(t > 0) {
        if(S->tokens.compare_exchange_weak(t, t - 1)) {
            pid_t p = fork();
            if(p < 0) { S->tokens++; return; }
            if(p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                isChild = true; kids.clear(); S->procs++;
                // the child takes the oldest pending state (largest subtree)
                StateP mine = std::move(work.front());
                work.clear();
                work.push_back(std::move(mine));
                throw 42; // unwind to the main loop, dropping the current state
            }
            kids.push_back(p);
            work.erase(work.begin());
            return;
        }
    }
}
static void sample(State &s) {
    u64 n = S->samples++;
    if(n >= optSamples) return;
    std::string o = "{\"t\":\"sample\",\"inputs\":" + inputsJson(s, s.model) + ",\"obs\":[";
    for(size_t i = 0; i < s.obs.size(); i++) {
        u64 v = s.obs[i].c;
        if(s.obs[i].sym()) { Ex r = modelEval(s.model, s.obs[i].e); if(r) isNum(r, v); }
        if(i) o += ",";
        o += std::to_string(sextw(v, s.obs[i].w));
    }
    emitLine(o + "]}");
}
static u64 rssMB() {
    FILE *f = fopen("/proc/self/statm", "r"); if(!f) return 0;
    unsigned long a = 0, b = 0; int r = fscanf(f, "%lu %lu", &a, &b); (void)r; fclose(f);
    return b * 4096 / 1048576;
}
// time is up, or an error was found long enough ago
static bool overtime() {
    double t = now() - tStart;
    u64 fe = S->firstErrorMs.load();
    return t > optMaxTime || (fe && t > fe / 1000.0 + 60);
}
static void runState(StateP sp) {
    State &s = *sp;
    u64 cnt = 0;
    try {
        for(;;) {
            s.steps++;
            if(s.steps > optMaxSteps) fatal(s, "hang", "no termination within the step bound");
            if((cnt++ & 1023) == 0) {
                if(S->stop.load()) { S->incomplete++; throw PathEnd(); }
                if(overtime()) {
                    S->stop = 1; S->incomplete++;
                    emitLine("{\"t\":\"incomplete\",\"why\":\"time limit\",\"loc\":" + jstr(locStr(s)) + "}");
                    throw PathEnd();
                }
            }
            if(!step(s)) break;
        }
        S->paths++;
        if(s.pc && s.pc->depth > S->maxDepth.load()) S->maxDepth = s.pc->depth;
        if(!s.failed && optSamples) sample(s);
    } catch(PathEnd &) {
        S->paths++;
    } catch(Unsupported &u) {
        S->incomplete++;
        if(S->incomplete > 200) S->stop = 1;
        if(S->incomplete <= 5) emitLine("{\"t\":\"incomplete\",\"why\":" + jstr(u.what) + ",\"loc\":" + jstr(locStr(s)) + "}");
    }
    S->instrs += cnt;
    if(s.steps > S->maxPathSteps.load()) S->maxPathSteps = s.steps;
}
static void initZ3() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    Z = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    ZS = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, ZS);
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), std::min(optQueryMs, 1000u));
    Z3_solver_set_params(Z, ZS, p);
}

int main(int argc, char **argv) {
    std::string in;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if(a == "--max-steps") optMaxSteps = std::stoull(nx());
        else if(a == "--max-time") optMaxTime = std::stod(nx());
        else if(a == "--jobs") optJobs = (unsigned)std::stoul(nx());
        else if(a == "--samples") optSamples = (unsigned)std::stoul(nx());
        else if(a == "--query-ms") optQueryMs = (unsigned)std::stoul(nx());
        else if(a == "--out") optOut = nx();
        else if(a == "--max-reports") optMaxReports = (unsigned)std::stoul(nx());
        else if(a == "-v") optVerbose = true;
        else in = a;
    }
    (void)optMaxMemMB; (void)rssMB;
    tStart = now();
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->tokens = (long)optJobs - 1;
    outFd = open(optOut.c_str(), O_WRONLY | O_CREAT | O_APPEND | (optOut.rfind("/dev/", 0) == 0 ? 0 : O_TRUNC), 0644);
    LLVMContext C; SMDiagnostic err;
    M = parseIRFile(in, err, C);
    if(!M) { err.print("vsx", errs()); return 3; }
    DL = &M->getDataLayout();
    initZ3();

    StateP s0(new State());
    // functions
    u64 fa = 0x1000000;
    unsigned bbs = 0;
    for(auto &f : *M) {
        gaddr[&f] = fa; faddr[fa] = &f; fa += 64;
        unsigned n = 0;
        for(auto &a : f.args()) regNo[&a] = n++;
        for(auto &b : f) {
            bbNo[&b] = bbs < 65535 ? bbs++ : 65535;
            for(auto &i : b) if(!i.getType()->isVoidTy()) regNo[&i] = n++;
        }
        fnRegs[&f] = n;
    }
    for(auto &g : M->globals()) {
        if(g.isDeclaration()) {
            gaddr[&g] = 0x800; // touching it is reported as a null dereference
            errs() << "vsx: warning: undefined global " << g.getName() << "\n";
            continue;
        }
        u64 n = DL->getTypeAllocSize(g.getValueType());
        gaddr[&g] = allocObj(*s0, n, OK_GLOBAL, true, g.getName().str());
    }
    int rc = 0;
    try {
        for(auto &g : M->globals()) {
            if(g.isDeclaration()) continue;
            ObjP &o = s0->mem[gaddr[&g]];
            initGlobal(o, 0, g.getInitializer());
            if(g.isConstant()) o->kind = OK_CONST;
        }
    } catch(Unsupported &u) { errs() << "vsx: global initialiser: " << u.what << "\n"; return 3; }
    Function *mainF = M->getFunction("vf_main");
    if(!mainF || mainF->isDeclaration()) { errs() << "vsx: no vf_main\n"; return 3; }
    Z3_solver_check(Z, ZS);
    s0->model = std::make_shared<ModelRef>(Z3_solver_get_model(Z, ZS));
    enterFn(*s0, mainF, {}, nullptr);
    work.push_back(std::move(s0));
    while(!work.empty()) {
        StateP st = std::move(work.back());
        work.pop_back();
        try { runState(std::move(st)); }
        catch(int) { /* child process starts here with its own work list */ }
    }
    for(pid_t k : kids) {
        int stt = 0; waitpid(k, &stt, 0);
        if(!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) { S->incomplete++; emitLine("{\"t\":\"incomplete\",\"why\":\"worker died\",\"loc\":\"\"}"); }
    }
    if(isChild) { S->tokens++; fflush(nullptr); _exit(0); }

    // summary
    std::string fnl;
    for(auto &f : *M) {
        if(f.isDeclaration()) continue;
        std::string file;
        if(auto *sp = f.getSubprogram()) file = sp->getFilename().str();
        unsigned tot = 0, cov = 0;
        for(auto &b : f) { tot++; if(S->cover[bbNo[&b]]) cov++; }
        if(!cov) continue;
        if(!fnl.empty()) fnl += ",";
        fnl += "[" + jstr(f.getName().str()) + "," + jstr(file) + "," + std::to_string(cov) + "," + std::to_string(tot) + "]";
    }
    char b[1024];
    snprintf(b, sizeof b,
             "{\"t\":\"summary\",\"paths\":%llu,\"forks\":%llu,\"queries\":%llu,\"instructions\":%llu,\"obligations\":%llu,\"discharged\":%llu,"
             "\"solver_s\":%.3f,\"errors\":%llu,\"incomplete\":%llu,\"max_path_steps\":%llu,\"max_constraints\":%llu,\"wall_s\":%.3f,\"functions\":[",
             (unsigned long long)S->paths, (unsigned long long)S->forks, (unsigned long long)S->queries, (unsigned long long)S->instrs,
             (unsigned long long)S->obligations, (unsigned long long)S->discharged, (double)S->solverUs / 1e6, (unsigned long long)S->errors,
             (unsigned long long)S->incomplete, (unsigned long long)S->maxPathSteps, (unsigned long long)S->maxDepth, now() - tStart);
    std::set<std::string> ws;
    if(Function *wf = M->getFunction("vf_witness_"))
        for(User *u : wf->users())
            if(auto *cb = dyn_cast<CallBase>(u)) {
                StringRef str;
                if(getConstantStringInfo(cb->getArgOperand(0), str)) ws.insert(str.str());
            }
    std::string wl;
    for(auto &w : ws) { if(!wl.empty()) wl += ","; wl += jstr(w); }
    emitLine(std::string(b) + fnl + "],\"witnesses_expected\":[" + wl + "]}");
    rc = S->incomplete ? 2 : (S->errors ? 1 : 0);
    fflush(nullptr);
    _exit(rc);
}
