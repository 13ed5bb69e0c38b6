// symx: a path-forking symbolic executor for LLVM bitcode (C programs).
// Every symbolic branch / address / assertion is decided by Z3 over bit-vectors.
#include "expr.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <ctype.h>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void fatal(const std::string &m) { fprintf(stderr, "symx: fatal: %s\n", m.c_str()); fflush(stderr); _exit(3); }

struct Val { uint64_t c; Expr *e; };

// ------------------------------------------------------------------ shared stats
#define MAXLAB 256
#define MAXFUN 16384
struct Shared {
  std::atomic<int> live, stop, maxlive;
  std::atomic<uint64_t> paths, completed, assumed_out, exited, errors, forks, instrs;
  std::atomic<uint64_t> queries, q_sat, q_unsat, q_unknown, q_hard, q_cached, solver_ns, asserts_checked, asserts_solver;
  std::atomic<uint64_t> violations, unsupported, limit_hit, samples, symvars_max, concretized, maxpc, qslow_us;
  std::atomic<int> nlab; char lab[MAXLAB][64]; std::atomic<uint64_t> labcnt[MAXLAB];
  std::atomic<uint8_t> fcov[MAXFUN];
  std::atomic<int> nmsg; char msg[64][256]; std::atomic<int> msgcnt[64];
  std::atomic<int> lock;
  char unsup[512];
};
static Shared *SH;
static void shlock() { int e = 0; while (!SH->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(10); } }
static void shunlock() { SH->lock = 0; }

// ------------------------------------------------------------------ options
static struct {
  std::string bc, entry = "harness", out = "out"; int jobs = 8; double timeout = 600; uint64_t maxinstr = 200000000;
  int samples = 40; int maxviol = 6; bool trace = false; uint64_t rlimit = 0; int maxconc = 4096; unsigned fill = 0xCD; uint64_t seed = 1;
  std::map<std::string, long> params; bool dumpq = false; double memMB = 3500; uint64_t samplestride = 97;
} O;
static double T0, DEADLINE;

// ------------------------------------------------------------------ memory
static const unsigned PSH = 10, PS = 1u << PSH;      // 1 KiB pages
static const unsigned CN = 256;                      // pages per chunk
static const unsigned CSH = 18;                      // 256 KiB chunks
static const uint64_t ASIZE = 1ULL << 30;            // address space
static const uint64_t GLOBAL_BASE = 0x100000, STACK_BASE = 0x8000000, STACK_END = 0x9000000, HEAP_BASE = 0xA000000;
enum { SH_NONE = 0, SH_RW = 1, SH_RO = 3 };

struct Page { int ref; int nsym; Expr **sym; uint8_t data[PS]; uint8_t shadow[PS]; };
struct Chunk { int ref; Page *p[CN]; };
static Page *newPage() { Page *p = (Page *)malloc(sizeof(Page)); p->ref = 1; p->nsym = 0; p->sym = nullptr; memset(p->data, 0, PS); memset(p->shadow, 0, PS); return p; }
static void unrefPage(Page *p) { if (--p->ref == 0) { free(p->sym); free(p); } }
static void unrefChunk(Chunk *c) { if (--c->ref == 0) { for (unsigned i = 0; i < CN; i++) if (c->p[i]) unrefPage(c->p[i]); free(c); } }
static Page *freshRW = nullptr; // shared page: fully allocated, fill pattern

struct Mem {
  std::vector<Chunk *> dir;
  Mem() : dir(ASIZE >> CSH, nullptr) {}
  Mem(const Mem &o) : dir(o.dir) { for (auto c : dir) if (c) c->ref++; }
  ~Mem() { for (auto c : dir) if (c) unrefChunk(c); }
  Mem &operator=(const Mem &) = delete;
  Page *rd(uint64_t a) const { if (a >= ASIZE) return nullptr; Chunk *c = dir[a >> CSH]; return c ? c->p[(a >> PSH) & (CN - 1)] : nullptr; }
  Page **slot(uint64_t a) {
    Chunk *&c = dir[a >> CSH];
    if (!c) { c = (Chunk *)calloc(1, sizeof(Chunk)); c->ref = 1; }
    else if (c->ref > 1) {
      Chunk *n = (Chunk *)malloc(sizeof(Chunk)); memcpy(n, c, sizeof(Chunk)); n->ref = 1;
      for (unsigned i = 0; i < CN; i++) if (n->p[i]) n->p[i]->ref++;
      c->ref--; c = n;
    }
    return &c->p[(a >> PSH) & (CN - 1)];
  }
  Page *wr(uint64_t a) {
    Chunk *c0 = dir[a >> CSH];
    if (c0 && c0->ref == 1) { Page *p = c0->p[(a >> PSH) & (CN - 1)]; if (p && p->ref == 1) return p; }
    Page **s = slot(a);
    if (!*s) *s = newPage();
    else if ((*s)->ref > 1) {
      Page *o = *s, *n = (Page *)malloc(sizeof(Page)); memcpy(n, o, sizeof(Page)); n->ref = 1; 
      if (o->nsym) { n->sym = (Expr **)malloc(PS * sizeof(Expr *)); memcpy(n->sym, o->sym, PS * sizeof(Expr *)); } else { n->sym = nullptr; }
      o->ref--; *s = n;
    }
    return *s;
  }
  void mark(uint64_t a, uint64_t n, uint8_t sh, int fill = -1) {
    while (n) {
      uint64_t off = a & (PS - 1), k = std::min<uint64_t>(PS - off, n);
      if (k == PS && sh == SH_RW && fill == (int)O.fill) {
        Page **s = slot(a); if (*s) unrefPage(*s); freshRW->ref++; *s = freshRW;
      } else {
        Page *p = wr(a); memset(p->shadow + off, sh, k); if (fill >= 0) { memset(p->data + off, fill, k); }
        if (p->nsym && (fill >= 0 || sh == SH_NONE)) for (uint64_t i = off; i < off + k; i++) if (p->sym[i]) { p->sym[i] = nullptr; p->nsym--; }
      }
      a += k; n -= k;
    }
  }
  bool ok(uint64_t a, uint64_t n, bool write) const {
    while (n) {
      Page *p = rd(a); if (!p) return false;
      uint64_t off = a & (PS - 1), k = std::min<uint64_t>(PS - off, n);
      for (uint64_t i = off; i < off + k; i++) if (p->shadow[i] == SH_NONE || (write && p->shadow[i] == SH_RO)) return false;
      a += k; n -= k;
    }
    return true;
  }
};

// ------------------------------------------------------------------ program
struct DFunc;
struct Edge { int pc; std::vector<std::pair<int, int>> copies; };
struct GepInfo { int64_t off; std::vector<std::tuple<int, int64_t, unsigned>> idx; };
struct SwInfo { std::vector<std::pair<uint64_t, Edge>> cases; Edge def; };
struct State;
class Exec;
typedef int (*NativeFn)(Exec &, State &, struct DI &, std::vector<Val> &args); // 0 ok, 1 fork/retry, 2 path ended
struct CallInfo { DFunc *callee = nullptr; int fnreg = 0; std::vector<int> args; std::vector<unsigned> aw; std::vector<uint64_t> byval; unsigned retw = 0; int nret = 1; Function *decl = nullptr; };
enum Op : uint16_t { O_BIN, O_ICMP, O_FCMP, O_FBIN, O_CAST, O_SEL, O_LOAD, O_STORE, O_GEP, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_ALLOCA, O_COPY, O_UNREACH, O_FNEG, O_LOADS, O_STORES, O_NOP };
struct DI {
  Op op; uint16_t sub = 0; uint8_t w = 0, w2 = 0; int dst = -1; int a = 0, b = 0, c = 0; uint64_t imm = 0; void *x = nullptr; void *y = nullptr; const Instruction *I = nullptr;
};
struct DFunc { Function *F; std::string name; int idx; bool decoded = false; int nregs = 0, nargs = 0; std::vector<int> argreg; std::vector<DI> code; std::vector<Val> consts; uint64_t addr; NativeFn native = nullptr; bool vararg = false; };
struct Frame { DFunc *f; int pc; uint32_t base; int dst; int nret; uint64_t sp; uint64_t va; };

struct Input { std::string name; Expr *e; int64_t lo; unsigned w; int n; };
struct Obs { Expr *e; uint64_t c; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs; Mem mem; std::vector<Expr *> pc; Model model;
  std::vector<uint8_t> fixedv; std::vector<uint64_t> fixval;
  uint64_t heap = HEAP_BASE, sp = STACK_BASE, icount = 0; uint32_t nsymint = 0; std::vector<Input> inputs; std::vector<Obs> obs; int exitmode = 0; uint32_t depth = 0;
};

class Exec {
public:
  ExprMgr M; LLVMContext lctx; std::unique_ptr<Module> mod; const DataLayout *DL;
  std::unordered_map<const Function *, DFunc *> fmap; std::unordered_map<uint64_t, DFunc *> faddr; std::vector<DFunc *> funcs;
  std::unordered_map<const GlobalValue *, uint64_t> gaddr; std::map<std::string, NativeFn> natives;
  std::deque<State *> work; State *cur = nullptr; Z3_solver solver = nullptr, solverFP = nullptr; uint64_t gtop = GLOBAL_BASE;
  std::unordered_map<uint64_t, std::vector<std::tuple<std::vector<uint32_t>, int, std::vector<std::pair<uint32_t, uint64_t>>>>> qcache; size_t qcacheN = 0;
  uint64_t asserts = 0;
  uint64_t ctypeB = 0, ctypeLower = 0, ctypeUpper = 0;

  // ---------------------------------------------------------------- values
  static unsigned tw(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) return 0; return w; }
    if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0;
  }
  static int nflat(Type *t) {
    if (t->isVoidTy()) return 0;
    if (auto *s = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : s->elements()) n += nflat(e); return n; }
    if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nflat(a->getElementType());
    return 1;
  }
  void flatTypes(Type *t, uint64_t off, std::vector<std::pair<Type *, uint64_t>> &o) {
    if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatTypes(s->getElementType(i), off + l->getElementOffset(i), o); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) flatTypes(a->getElementType(), off + i * es, o); return; }
    o.push_back({t, off});
  }

  // ---------------------------------------------------------------- constants
  uint64_t constVal(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() > 64 ? 0 : ci->getZExtValue();
    if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) fatal("no address for global " + gv->getName().str()); return it->second; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      unsigned w = tw(ce->getType());
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep"); return constVal(ce->getOperand(0)) + off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(w);
      case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(w);
      case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(w);
      case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: fatal("const icmp"); } }
      default: fatal("const expr op " + std::string(ce->getOpcodeName()));
      }
    }
    fatal("constant kind"); return 0;
  }
  void initMem(State &s, uint64_t a, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // zero already
    if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = ds->getElementByteSize(); for (unsigned i = 0; i < ds->getNumElements(); i++) initMem(s, a + i * es, ds->getElementAsConstant(i)); return; }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(s, a + i * es, ca->getOperand(i)); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *l = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(s, a + l->getElementOffset(i), cs->getOperand(i)); return; }
    uint64_t v = constVal(c), n = DL->getTypeStoreSize(t);
    for (uint64_t i = 0; i < n; i++) s.mem.wr(a + i)->data[(a + i) & (PS - 1)] = (v >> (8 * i)) & 0xff;
  }

  // ---------------------------------------------------------------- decode
  struct Dec { DFunc *f; std::unordered_map<const Value *, int> reg; std::unordered_map<uint64_t, int> cmap; };
  int cidx(Dec &d, uint64_t v) { auto it = d.cmap.find(v); if (it != d.cmap.end()) return it->second; d.f->consts.push_back({v, nullptr}); int r = -(int)d.f->consts.size(); d.cmap[v] = r; return r; }
  int opnd(Dec &d, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cidx(d, constVal(c));
    if (isa<MetadataAsValue>(v)) return cidx(d, 0);
    auto it = d.reg.find(v); if (it == d.reg.end()) fatal("operand without register in " + d.f->name); return it->second;
  }
  // flattened operand list for aggregates
  void opndFlat(Dec &d, const Value *v, std::vector<int> &o) {
    int n = nflat(v->getType());
    if (n == 1 && !v->getType()->isAggregateType()) { o.push_back(opnd(d, v)); return; }
    if (auto *c = dyn_cast<Constant>(v)) {
      if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (int i = 0; i < n; i++) o.push_back(cidx(d, 0)); return; }
      for (unsigned i = 0; i < c->getNumOperands(); i++) opndFlat(d, cast<Constant>(c->getOperand(i)), o); return;
    }
    int r = d.reg[v]; for (int i = 0; i < n; i++) o.push_back(r + i);
  }
  void decode(DFunc *f) {
    if (f->decoded) return; f->decoded = true;
    Function *F = f->F; Dec d; d.f = f; int nr = 0;
    for (auto &a : F->args()) { d.reg[&a] = nr; f->argreg.push_back(nr); nr += std::max(1, nflat(a.getType())); }
    f->nargs = F->arg_size(); f->vararg = F->isVarArg();
    for (auto &B : *F) for (auto &I : B) { int n = nflat(I.getType()); if (n) { d.reg[&I] = nr; nr += n; } }
    f->nregs = nr;
    std::unordered_map<const BasicBlock *, int> bpc; std::vector<std::pair<Edge *, std::pair<const BasicBlock *, const BasicBlock *>>> fix;
    for (auto &B : *F) {
      bpc[&B] = f->code.size();
      for (auto &I : B) {
        if (isa<PHINode>(I)) continue;
        DI o; o.I = &I; o.op = O_NOP; Type *T = I.getType(); o.w = tw(T); if (nflat(T)) o.dst = d.reg[&I];
        if (T->isVectorTy()) fatal("vector type in " + f->name);
        if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
          o.a = opnd(d, bo->getOperand(0)); o.b = opnd(d, bo->getOperand(1)); o.op = O_BIN;
          switch (bo->getOpcode()) {
          case Instruction::Add: o.sub = E_ADD; break; case Instruction::Sub: o.sub = E_SUB; break; case Instruction::Mul: o.sub = E_MUL; break;
          case Instruction::UDiv: o.sub = E_UDIV; break; case Instruction::SDiv: o.sub = E_SDIV; break; case Instruction::URem: o.sub = E_UREM; break; case Instruction::SRem: o.sub = E_SREM; break;
          case Instruction::And: o.sub = E_AND; break; case Instruction::Or: o.sub = E_OR; break; case Instruction::Xor: o.sub = E_XOR; break;
          case Instruction::Shl: o.sub = E_SHL; break; case Instruction::LShr: o.sub = E_LSHR; break; case Instruction::AShr: o.sub = E_ASHR; break;
          case Instruction::FAdd: o.op = O_FBIN; o.sub = E_FADD; break; case Instruction::FSub: o.op = O_FBIN; o.sub = E_FSUB; break;
          case Instruction::FMul: o.op = O_FBIN; o.sub = E_FMUL; break; case Instruction::FDiv: o.op = O_FBIN; o.sub = E_FDIV; break;
          default: fatal("binop " + std::string(I.getOpcodeName()));
          }
          if (!o.w) fatal("wide int in " + f->name);
        } else if (I.getOpcode() == Instruction::FNeg) { o.op = O_FNEG; o.a = opnd(d, I.getOperand(0)); }
        else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
          o.op = O_ICMP; o.a = opnd(d, ic->getOperand(0)); o.b = opnd(d, ic->getOperand(1)); o.w2 = tw(ic->getOperand(0)->getType()); o.sub = ic->getPredicate();
          if (!o.w2) fatal("icmp width in " + f->name);
        } else if (auto *fc = dyn_cast<FCmpInst>(&I)) {
          o.op = O_FCMP; o.a = opnd(d, fc->getOperand(0)); o.b = opnd(d, fc->getOperand(1)); o.w2 = tw(fc->getOperand(0)->getType()); o.sub = fc->getPredicate();
        } else if (auto *ci = dyn_cast<CastInst>(&I)) {
          o.op = O_CAST; o.a = opnd(d, ci->getOperand(0)); o.w2 = tw(ci->getOperand(0)->getType()); o.sub = ci->getOpcode(); if (!o.w || !o.w2) fatal("cast width in " + f->name);
        } else if (isa<FreezeInst>(I)) { o.op = O_COPY; o.a = opnd(d, I.getOperand(0)); }
        else if (auto *se = dyn_cast<SelectInst>(&I)) {
          if (T->isAggregateType()) fatal("aggregate select");
          o.op = O_SEL; o.a = opnd(d, se->getCondition()); o.b = opnd(d, se->getTrueValue()); o.c = opnd(d, se->getFalseValue());
        } else if (auto *li = dyn_cast<LoadInst>(&I)) {
          o.a = opnd(d, li->getPointerOperand());
          if (T->isAggregateType()) { o.op = O_LOADS; auto *v = new std::vector<std::pair<Type *, uint64_t>>; flatTypes(T, 0, *v); o.x = v; }
          else { o.op = O_LOAD; o.imm = DL->getTypeStoreSize(T); if (!o.w) fatal("load width in " + f->name); }
        } else if (auto *st = dyn_cast<StoreInst>(&I)) {
          Type *vt = st->getValueOperand()->getType(); o.a = opnd(d, st->getPointerOperand());
          if (vt->isAggregateType()) { o.op = O_STORES; auto *v = new std::vector<std::pair<Type *, uint64_t>>; flatTypes(vt, 0, *v); o.x = v; auto *r = new std::vector<int>; opndFlat(d, st->getValueOperand(), *r); o.y = r; }
          else { o.op = O_STORE; o.b = opnd(d, st->getValueOperand()); o.w = tw(vt); o.imm = DL->getTypeStoreSize(vt); if (!o.w) fatal("store width in " + f->name); }
        } else if (auto *ge = dyn_cast<GetElementPtrInst>(&I)) {
          o.op = O_GEP; o.a = opnd(d, ge->getPointerOperand()); auto *g = new GepInfo; g->off = 0;
          for (auto it = gep_type_begin(ge), e = gep_type_end(ge); it != e; ++it) {
            Value *ix = it.getOperand();
            if (StructType *sty = it.getStructTypeOrNull()) { g->off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *cix = dyn_cast<ConstantInt>(ix)) g->off += cix->getSExtValue() * sz;
            else g->idx.push_back({opnd(d, ix), sz, tw(ix->getType())});
          }
          o.x = g;
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          Edge *e0 = new Edge; o.x = e0; fix.push_back({e0, {&B, br->getSuccessor(0)}}); o.op = O_BR;
          if (br->isConditional()) { o.op = O_CBR; o.a = opnd(d, br->getCondition()); Edge *e1 = new Edge; o.y = e1; fix.push_back({e1, {&B, br->getSuccessor(1)}}); }
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          o.op = O_SWITCH; o.a = opnd(d, sw->getCondition()); o.w = tw(sw->getCondition()->getType()); SwInfo *si = new SwInfo; o.x = si; si->cases.reserve(sw->getNumCases());
          for (auto &c : sw->cases()) { si->cases.push_back({c.getCaseValue()->getZExtValue(), Edge()}); }
          int i = 0; for (auto &c : sw->cases()) fix.push_back({&si->cases[i++].second, {&B, c.getCaseSuccessor()}});
          fix.push_back({&si->def, {&B, sw->getDefaultDest()}});
        } else if (auto *re = dyn_cast<ReturnInst>(&I)) {
          o.op = O_RET; auto *v = new std::vector<int>; if (re->getReturnValue()) opndFlat(d, re->getReturnValue(), *v); o.x = v;
        } else if (isa<UnreachableInst>(I)) { o.op = O_UNREACH; }
        else if (auto *al = dyn_cast<AllocaInst>(&I)) { o.op = O_ALLOCA; o.imm = DL->getTypeAllocSize(al->getAllocatedType()); o.a = opnd(d, al->getArraySize()); }
        else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
          int off = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices()); std::vector<int> r; opndFlat(d, ev->getAggregateOperand(), r); int n = nflat(T);
          for (int i = 0; i < n; i++) { DI c = o; c.op = O_COPY; c.dst = o.dst + i; c.a = r[off + i]; c.imm = 1; f->code.push_back(c); } continue;
        } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
          int off = aggOff(T, iv->getIndices()); std::vector<int> r, s; opndFlat(d, iv->getAggregateOperand(), r); opndFlat(d, iv->getInsertedValueOperand(), s);
          for (int i = 0; i < (int)r.size(); i++) { DI c = o; c.op = O_COPY; c.dst = o.dst + i; c.a = (i >= off && i < off + (int)s.size()) ? s[i - off] : r[i]; f->code.push_back(c); } continue;
        } else if (auto *ca = dyn_cast<CallInst>(&I)) {
          if (isa<DbgInfoIntrinsic>(ca)) continue;
          if (auto *ii = dyn_cast<IntrinsicInst>(ca)) {
            switch (ii->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: continue; default: break; }
          }
          o.op = O_CALL; CallInfo *c = new CallInfo; o.x = c; c->retw = tw(T); c->nret = nflat(T);
          Value *cv = ca->getCalledOperand()->stripPointerCasts(); if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
          if (auto *cf = dyn_cast<Function>(cv)) { c->callee = getFunc(cf); c->decl = cf; }
          else { if (isa<InlineAsm>(cv)) fatal("inline asm in " + f->name); c->fnreg = opnd(d, ca->getCalledOperand()); }
          for (unsigned i = 0; i < ca->arg_size(); i++) {
            Value *av = ca->getArgOperand(i); if (av->getType()->isMetadataTy()) continue;
            if (av->getType()->isAggregateType()) fatal("aggregate arg");
            c->args.push_back(opnd(d, av)); c->aw.push_back(tw(av->getType()));
            c->byval.push_back(ca->isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(ca->getParamByValType(i)) : 0);
          }
        } else fatal("instruction " + std::string(I.getOpcodeName()) + " in " + f->name);
        f->code.push_back(o);
      }
    }
    for (auto &x : fix) {
      Edge *e = x.first; e->pc = bpc[x.second.second];
      for (auto &I : *x.second.second) {
        auto *ph = dyn_cast<PHINode>(&I); if (!ph) break;
        std::vector<int> r; opndFlat(d, ph->getIncomingValueForBlock(x.second.first), r); int dst = d.reg[ph];
        for (size_t i = 0; i < r.size(); i++) e->copies.push_back({dst + (int)i, r[i]});
      }
    }
  }
  int aggOff(Type *t, ArrayRef<unsigned> ix) {
    int off = 0; for (unsigned i : ix) {
      if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += nflat(s->getElementType(k)); t = s->getElementType(i); }
      else { auto *a = cast<ArrayType>(t); off += i * nflat(a->getElementType()); t = a->getElementType(); }
    } return off;
  }
  DFunc *getFunc(Function *F) {
    auto it = fmap.find(F); if (it != fmap.end()) return it->second;
    DFunc *f = new DFunc; f->F = F; f->name = F->getName().str(); f->idx = funcs.size(); f->addr = 0x1000 + 16 * f->idx; funcs.push_back(f); fmap[F] = f; faddr[f->addr] = f;
    std::string n = f->name; auto nt = natives.find(n);
    if (nt != natives.end() && (F->isDeclaration() || n.rfind("sx_", 0) == 0)) f->native = nt->second;
    return f;
  }

  // ---------------------------------------------------------------- solver
  void setRlimit(Z3_solver sv, unsigned n) { Z3_params p = Z3_mk_params(M.ctx); Z3_params_inc_ref(M.ctx, p); Z3_params_set_uint(M.ctx, p, Z3_mk_string_symbol(M.ctx, "rlimit"), n); Z3_solver_set_params(M.ctx, sv, p); Z3_params_dec_ref(M.ctx, p); }
  void initSolver() {
    Z3_config cfg = Z3_mk_config(); M.ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    solver = Z3_mk_simple_solver(M.ctx); Z3_solver_inc_ref(M.ctx, solver); setRlimit(solver, 4000000u);
  }
  std::unordered_map<uint32_t, Z3_ast> litOf; std::unordered_map<unsigned, uint32_t> ofLit; std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> cores; size_t ncores = 0;
  // 1 sat, 0 unsat, -1 unknown. Slices pc on variables relevant to conds.
  int query(State &s, const std::vector<Expr *> &conds, Model *out) {
    // slice
    std::vector<uint8_t> rel; auto need = [&](uint32_t v) { if (v >= rel.size()) rel.resize(v + 1, 0); };
    std::vector<uint32_t> ids; std::vector<Expr *> cs;
    for (Expr *c : conds) { if (c->k == E_CONST) { if (!c->val) return 0; continue; } for (uint32_t v : c->vs->v) { need(v); rel[v] = 1; } cs.push_back(c); }
    size_t n0 = cs.size();
    std::vector<uint8_t> used(s.pc.size(), 0); bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
        bool hit = false; for (uint32_t v : s.pc[i]->vs->v) if (v < rel.size() && rel[v]) { hit = true; break; }
        if (hit) { used[i] = 1; for (uint32_t v : s.pc[i]->vs->v) { need(v); if (!rel[v]) { rel[v] = 1; ch = true; } } cs.push_back(s.pc[i]); }
      }
    }
    if (cs.empty()) return 1;
    for (size_t i = 0; i < cs.size(); i++) ids.push_back(cs[i]->id);
    std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    uint64_t h = 1469598103934665603ULL; for (uint32_t i : ids) { h ^= i; h *= 1099511628211ULL; h ^= h >> 29; }
    auto &bucket = qcache[h];
    for (auto &t : bucket) if (std::get<0>(t) == ids) {
      SH->q_cached++; int r = std::get<1>(t); if (r == 1 && out) for (auto &p : std::get<2>(t)) { if (p.first >= out->size()) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; } return r;
    }
    // a known unsatisfiable core contained in the query?
    for (uint32_t id : ids) { auto it = cores.find(id); if (it == cores.end()) continue; for (auto &k : it->second) if (std::includes(ids.begin(), ids.end(), k.begin(), k.end())) { SH->q_cached++; bucket.push_back({ids, 0, {}}); qcacheN++; return 0; } }
    SH->queries++; double t0 = now(); bool fp = false; for (Expr *c : cs) fp |= c->hasfp;
    Z3_solver sv; Z3_lbool r; std::vector<Z3_ast> as; bool own = fp;
    if (fp) {
      sv = Z3_mk_solver(M.ctx); Z3_solver_inc_ref(M.ctx, sv);
      for (Expr *c : cs) Z3_solver_assert(M.ctx, sv, M.zbool(c));
      r = Z3_solver_check(M.ctx, sv);
    } else {
      static const size_t LIM = 60;
      if (litOf.size() > LIM) { Z3_solver_reset(M.ctx, solver); for (auto &p : litOf) Z3_dec_ref(M.ctx, p.second); litOf.clear(); ofLit.clear(); }
      sv = solver;
      for (Expr *c : cs) {
        auto it = litOf.find(c->id); if (it != litOf.end()) { as.push_back(it->second); continue; }
        Z3_ast l = Z3_mk_const(M.ctx, Z3_mk_int_symbol(M.ctx, (int)c->id), Z3_mk_bool_sort(M.ctx)); Z3_inc_ref(M.ctx, l);
        Z3_solver_assert(M.ctx, sv, Z3_mk_implies(M.ctx, l, M.zbool(c))); litOf[c->id] = l; ofLit[Z3_get_ast_id(M.ctx, l)] = c->id; as.push_back(l);
      }
      r = Z3_solver_check_assumptions(M.ctx, sv, as.size(), as.data());
      if (r == Z3_L_FALSE) {
        Z3_ast_vector cv = Z3_solver_get_unsat_core(M.ctx, sv); Z3_ast_vector_inc_ref(M.ctx, cv); std::vector<uint32_t> core;
        for (unsigned i = 0; i < Z3_ast_vector_size(M.ctx, cv); i++) { auto it = ofLit.find(Z3_get_ast_id(M.ctx, Z3_ast_vector_get(M.ctx, cv, i))); if (it != ofLit.end()) core.push_back(it->second); }
        Z3_ast_vector_dec_ref(M.ctx, cv); std::sort(core.begin(), core.end());
        if (!core.empty() && core.size() <= 12) { if (ncores > 100000) { cores.clear(); ncores = 0; } cores[core.back()].push_back(core); ncores++; }
      } else if (r == Z3_L_UNDEF) { // resource limit: bit-blast from scratch with the SAT-based solver
        sv = Z3_mk_solver_for_logic(M.ctx, Z3_mk_string_symbol(M.ctx, "QF_BV")); Z3_solver_inc_ref(M.ctx, sv); own = true; setRlimit(sv, 400000000u);
        for (Expr *c : cs) Z3_solver_assert(M.ctx, sv, M.zbool(c)); r = Z3_solver_check(M.ctx, sv); SH->q_hard++;
      }
    }
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    std::vector<std::pair<uint32_t, uint64_t>> vals;
    if (res == 1) {
      Z3_model m = Z3_solver_get_model(M.ctx, sv); Z3_model_inc_ref(M.ctx, m);
      Model tmp; std::vector<uint32_t> vs;
      for (uint32_t v = 0; v < rel.size(); v++) if (rel[v]) {
        Z3_ast o = nullptr; uint64_t x = 0; if (Z3_model_eval(M.ctx, m, M.zbv(M.vars[v].e), true, &o) && o) { Z3_inc_ref(M.ctx, o); Z3_get_numeral_uint64(M.ctx, o, &x); Z3_dec_ref(M.ctx, o); }
        vals.push_back({v, x}); if (v >= tmp.size()) tmp.resize(v + 1, 0); tmp[v] = x;
      }
      Z3_model_dec_ref(M.ctx, m);
      for (Expr *c : cs) if (!M.eval(c, tmp)) { if (!fp) fatal("solver model does not satisfy constraint (encoding mismatch)"); res = -1; }
    }
    if (own) Z3_solver_dec_ref(M.ctx, sv);
    double dt = now() - t0; SH->solver_ns += (uint64_t)(dt * 1e9); uint64_t us = dt * 1e6; if (us > SH->qslow_us) SH->qslow_us = us;
    if (res == 1) SH->q_sat++; else if (res == 0) SH->q_unsat++; else SH->q_unknown++;
    if (res >= 0) { if (qcacheN > 400000) { qcache.clear(); qcacheN = 0; } qcache[h].push_back({ids, res, vals}); qcacheN++; }
    if (res == 1 && out) for (auto &p : vals) { if (p.first >= out->size()) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; }
    return res;
  }

  // ---------------------------------------------------------------- state helpers
  bool allFixed(State &s, Expr *e) { for (uint32_t v : e->vs->v) if (v >= s.fixedv.size() || !s.fixedv[v]) return false; return true; }
  void fixVar(State &s, uint32_t v, uint64_t val) { if (v >= s.fixedv.size()) { s.fixedv.resize(v + 1, 0); s.fixval.resize(v + 1, 0); } s.fixedv[v] = 1; s.fixval[v] = val; }
  Val norm(State &s, Val v, unsigned w) { // concretise if determined
    if (v.e) { if (v.e->k == E_CONST) return {v.e->val, nullptr}; if (!s.fixval.empty() && allFixed(s, v.e)) return {M.eval(v.e, s.fixval), nullptr}; } return v;
  }
  void addPC(State &s, Expr *c) {
    if (c->k == E_CONST) return;
    if (c->k == E_AND) { addPC(s, c->a); addPC(s, c->b); return; }
    for (Expr *p : s.pc) if (p == c) return;
    s.pc.push_back(c);
    if (s.pc.size() > SH->maxpc) SH->maxpc = s.pc.size();
    if (c->k == E_EQ && c->a->k == E_VAR && c->b->k == E_CONST) fixVar(s, c->a->val, c->b->val);
    else if (c->k == E_EQ && c->b->k == E_VAR && c->a->k == E_CONST) fixVar(s, c->b->val, c->a->val);
    else if (c->k == E_VAR) fixVar(s, c->val, 1);
    else if (c->k == E_NOT && c->a->k == E_VAR) fixVar(s, c->a->val, 0);
    else if (c->vs->v.size() == 1) { // unique remaining value?
      uint32_t v = c->vs->v[0]; if (v < s.fixedv.size() && s.fixedv[v]) return;
      if (M.vars[v].w <= 16) {
        Expr *ne = M.bnot(M.eq(M.vars[v].e, M.cst(s.model[v], M.vars[v].w)));
        int r = query(s, {ne}, nullptr); if (r == 0) fixVar(s, v, s.model[v]);
      }
    }
  }
  State *forkState(State &s) { SH->forks++; State *n = new State(s); n->depth++; return n; }

  Val get(State &s, int r) { Frame &f = s.fr.back(); if (r >= 0) return s.regs[f.base + r]; return f.f->consts[-r - 1]; }
  void set(State &s, int r, Val v) { s.regs[s.fr.back().base + r] = v; }
  Expr *ex(Val v, unsigned w) { return v.e ? v.e : M.cst(v.c, w); }
  static Val C(uint64_t c) { return {c, nullptr}; }
  Val V(Expr *e) { if (e->k == E_CONST) return {e->val, nullptr}; return {0, e}; }

  // ---------------------------------------------------------------- reporting
  std::string where(State &s) {
    std::string r;
    for (int i = (int)s.fr.size() - 1; i >= 0 && i >= (int)s.fr.size() - 12; i--) {
      Frame &f = s.fr[i]; int pc = std::max(0, f.pc - (i == (int)s.fr.size() - 1 ? 0 : 1)); r += f.f->name;
      if (pc < (int)f.f->code.size() && f.f->code[pc].I) if (auto &dl = f.f->code[pc].I->getDebugLoc()) { r += ":"; r += std::to_string(dl.getLine()); }
      r += " < ";
    }
    return r;
  }
  static std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
  void writeCase(State &s, const std::string &fn, const std::string &kind, const std::string &msg, const Model &m, bool withObs) {
    FILE *o = fopen(fn.c_str(), "w"); if (!o) return;
    fprintf(o, "{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":[", kind.c_str(), esc(msg).c_str(), esc(where(s)).c_str());
    bool first = true;
    for (auto &i : s.inputs) { uint64_t v = i.e ? M.eval(i.e, m) : (uint64_t)i.lo; fprintf(o, "%s[\"%s\",%lld]", first ? "" : ",", esc(i.name).c_str(), (long long)sx(v, 64)); first = false; }
    fprintf(o, "],\"obs\":["); first = true;
    if (withObs) for (auto &b : s.obs) { uint64_t v = b.e ? M.eval(b.e, m) : b.c; fprintf(o, "%s%lld", first ? "" : ",", (long long)v); first = false; }
    fprintf(o, "]}\n"); fclose(o);
  }
  void violation(State &s, const std::string &msg, const Model &m) {
    SH->violations++;
    std::string key = msg.substr(0, 200);
    shlock(); int idx = -1; for (int i = 0; i < SH->nmsg; i++) if (key == SH->msg[i]) idx = i;
    if (idx < 0 && SH->nmsg < 64) { idx = SH->nmsg++; strncpy(SH->msg[idx], key.c_str(), 255); }
    int cnt = idx >= 0 ? SH->msgcnt[idx]++ : 99; if (SH->nmsg >= O.maxviol && SH->violations > 200) SH->stop = 1; if (SH->violations > 2000) SH->stop = 1;
    shunlock();
    if (cnt < 3) { char b[64]; snprintf(b, 64, "/viol-%02d-%d.json", idx, cnt); writeCase(s, O.out + b, "violation", msg, m, false); }
  }
  void unsupported(State &s, const std::string &m) { SH->unsupported++; shlock(); if (!SH->unsup[0]) { std::string t = m + " @ " + where(s); strncpy(SH->unsup, t.c_str(), 511); } shunlock(); }
  // an error (memory etc.) on the whole current path condition
  void pathError(State &s, const std::string &msg) { SH->errors++; violation(s, msg, s.model); }

  // ---------------------------------------------------------------- symbolic concretisation
  // returns false if state forked/ended (caller must return to scheduler); on true the register r has been made concrete in s
  bool enumerate(State &s, Expr *e, std::vector<std::pair<uint64_t, Model>> &vals, unsigned cap) {
    std::vector<Expr *> cs; Model m = s.model; uint64_t v = M.eval(e, m); vals.push_back({v, m}); cs.push_back(M.bnot(M.eq(e, M.cst(v, e->w))));
    while (true) {
      Model m2 = s.model; int r = query(s, cs, &m2); if (r == 0) return true; if (r < 0) { unsupported(s, "solver unknown"); return false; }
      v = M.eval(e, m2); vals.push_back({v, m2}); cs.push_back(M.bnot(M.eq(e, M.cst(v, e->w)))); if (vals.size() > cap) { unsupported(s, "too many values for symbolic address/size"); return false; }
    }
  }
  // concretise operand register r (of width w) by forking; 0: now concrete, continue ; 2: path dead
  int concretize(State &s, int r, unsigned w) {
    Val v = norm(s, get(s, r), w); if (!v.e) { set(s, r, v); return 0; }
    std::vector<std::pair<uint64_t, Model>> vals; if (!enumerate(s, v.e, vals, O.maxconc)) return 2;
    SH->concretized++;
    for (size_t i = 1; i < vals.size(); i++) {
      State *n = forkState(s); n->model = vals[i].second; addPC(*n, M.eq(v.e, M.cst(vals[i].first, w))); n->regs[n->fr.back().base + r] = C(vals[i].first); work.push_back(n);
    }
    if (vals.size() > 1) addPC(s, M.eq(v.e, M.cst(vals[0].first, w))); set(s, r, C(vals[0].first)); return 0;
  }
  // small joint domain of e's variables? fills candidate models
  bool smallDomain(State &s, Expr *e, std::vector<std::pair<uint64_t, Expr *>> &vals) {
    unsigned bits = 0; std::vector<uint32_t> vs; for (uint32_t v : e->vs->v) if (!(v < s.fixedv.size() && s.fixedv[v])) { bits += M.vars[v].w; vs.push_back(v); }
    if (bits > 9) return false;
    Model m = s.model; m.resize(std::max<size_t>(m.size(), M.vars.size()), 0); std::map<uint64_t, int> seen;
    for (uint64_t x = 0; x < (1ULL << bits); x++) { uint64_t y = x; for (uint32_t v : vs) { m[v] = y & maskw(M.vars[v].w); y >>= M.vars[v].w; } seen[M.eval(e, m)]++; }
    for (auto &p : seen) vals.push_back({p.first, M.eq(e, M.cst(p.first, e->w))});
    return true;
  }

  // ---------------------------------------------------------------- memory access
  Val readMem(State &s, uint64_t a, unsigned n, unsigned w) { // assumes ok
    uint64_t off = a & (PS - 1);
    if (off + n <= PS) {
      Page *p = s.mem.rd(a);
      bool sym = false; if (p->nsym) for (unsigned i = 0; i < n; i++) if (p->sym[off + i]) { sym = true; break; }
      if (!sym) { uint64_t v = 0; memcpy(&v, p->data + off, n); return C(v & maskw(w)); }
    } else {
      bool sym = false; uint64_t v = 0;
      for (unsigned i = 0; i < n; i++) { Page *p = s.mem.rd(a + i); unsigned o = (a + i) & (PS - 1); if (p->nsym && p->sym[o]) sym = true; v |= (uint64_t)p->data[o] << (8 * i); }
      if (!sym) return C(v & maskw(w));
    }
    Expr *r = nullptr, *whole = nullptr; unsigned base = 0; bool one = true;
    for (unsigned i = 0; i < n && one; i++) {
      Page *p = s.mem.rd(a + i); unsigned o = (a + i) & (PS - 1); Expr *b = p->nsym ? p->sym[o] : nullptr;
      if (!b || b->k != E_EXTRACT) { one = false; break; }
      if (i == 0) { whole = b->a; base = b->aux; } else if (b->a != whole || b->aux != base + 8 * i) one = false;
    }
    if (one) r = M.extract(whole, base, 8 * n);
    else for (int i = n - 1; i >= 0; i--) {
      Page *p = s.mem.rd(a + i); unsigned o = (a + i) & (PS - 1); Expr *b = (p->nsym && p->sym[o]) ? symByte(p->sym[o]) : M.cst(p->data[o], 8); r = r ? concatB(r, b) : b;
    }
    if (r->w > w) r = M.extract(r, 0, w);
    return norm(s, V(r), w);
  }
  Expr *symByte(Expr *b) { return b->k == E_EXTRACT ? M.extract(b->a, b->aux, 8) : b; }
  Expr *concatB(Expr *hi, Expr *lo) { return M.concat(hi, lo); }
  void writeMem(State &s, uint64_t a, unsigned n, Val v, unsigned w) {
    uint64_t off = a & (PS - 1); v = norm(s, v, w);
    if (!v.e) {
      if (off + n <= PS) { Page *p = s.mem.wr(a); memcpy(p->data + off, &v.c, n); if (p->nsym) for (unsigned i = 0; i < n; i++) if (p->sym[off + i]) { p->sym[off + i] = nullptr; p->nsym--; } return; }
      for (unsigned i = 0; i < n; i++) { Page *p = s.mem.wr(a + i); unsigned o = (a + i) & (PS - 1); p->data[o] = v.c >> (8 * i); if (p->nsym && p->sym[o]) { p->sym[o] = nullptr; p->nsym--; } }
      return;
    }
    Expr *e = v.e; if (e->w < n * 8) e = M.zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
      Expr *b = n == 1 ? e : M.raw(E_EXTRACT, 8, e, 0, 0, 0, 8 * i); Page *p = s.mem.wr(a + i); unsigned o = (a + i) & (PS - 1);
      if (b->k == E_CONST) { p->data[o] = b->val; if (p->nsym && p->sym[o]) { p->sym[o] = nullptr; p->nsym--; } }
      else { if (!p->sym) p->sym = (Expr **)calloc(PS, sizeof(Expr *)); else if (p->nsym == 0) memset(p->sym, 0, PS * sizeof(Expr *)); if (!p->sym[o]) p->nsym++; p->sym[o] = b; }
    }
  }
  std::string memErr(State &s, uint64_t a, unsigned n, bool wr) {
    char b[160]; const char *k = a < 4096 ? "null-pointer access" : (a >= 0x1000 && a < GLOBAL_BASE) ? "access through function/invalid pointer" : "out-of-bounds or freed memory access";
    snprintf(b, 160, "memory error: %s (%s of %u bytes)", k, wr ? "write" : "read", n); return std::string(b) + " in " + s.fr.back().f->name;
  }
  inline bool fastOk(State &s, uint64_t a, unsigned n, bool wr) {
    uint64_t off = a & (PS - 1); if (off + n > PS) return s.mem.ok(a, n, wr);
    Page *p = s.mem.rd(a); if (!p) return false; const uint8_t *q = p->shadow + off; for (unsigned i = 0; i < n; i++) if (q[i] == SH_NONE || (wr && q[i] == SH_RO)) return false; return true;
  }
  uint64_t heapAlloc(State &s, uint64_t n, int fill) {
    uint64_t a = (s.heap + 32 + 15) & ~15ULL; if (a + n + 64 >= ASIZE) return 0; s.heap = a + n; s.mem.mark(a, n, SH_RW, fill);
    Page *p = s.mem.wr(a - 16); memcpy(p->data + ((a - 16) & (PS - 1)), &n, 8); uint64_t magic = 0x5ee15ee1; p = s.mem.wr(a - 8); memcpy(p->data + ((a - 8) & (PS - 1)), &magic, 8); return a;
  }
  bool heapInfo(State &s, uint64_t a, uint64_t &n) {
    if (a < HEAP_BASE || (a & 15) || a >= ASIZE) return false; Page *p = s.mem.rd(a - 8); if (!p) return false; uint64_t mg; memcpy(&mg, p->data + ((a - 8) & (PS - 1)), 8); if (mg != 0x5ee15ee1) return false;
    p = s.mem.rd(a - 16); memcpy(&n, p->data + ((a - 16) & (PS - 1)), 8); return true;
  }
  bool heapFree(State &s, uint64_t a) {
    uint64_t n; if (!heapInfo(s, a, n)) return false; uint64_t z = 0; Page *p = s.mem.wr(a - 8); memcpy(p->data + ((a - 8) & (PS - 1)), &z, 8); s.mem.mark(a, n, SH_NONE); return true;
  }
  // read a concrete C string; false if symbolic/invalid
  bool cstr(State &s, uint64_t a, std::string &o) {
    for (int i = 0; i < 65536; i++, a++) { Page *p = s.mem.rd(a); if (!p || p->shadow[a & (PS - 1)] == SH_NONE) return false; if (p->nsym && p->sym[a & (PS - 1)]) { Val v = norm(s, V(symByte(p->sym[a & (PS - 1)])), 8); if (v.e) return false; if (!v.c) return true; o += (char)v.c; continue; } char c = p->data[a & (PS - 1)]; if (!c) return true; o += c; } return false;
  }

  // ---------------------------------------------------------------- main interpreter
  void follow(State &s, Edge *e) {
    Frame &f = s.fr.back(); size_t n = e->copies.size();
    if (n == 1) { Val v = get(s, e->copies[0].second); s.regs[f.base + e->copies[0].first] = v; }
    else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(s, e->copies[i].second); for (size_t i = 0; i < n; i++) s.regs[f.base + e->copies[i].first] = t[i]; }
    f.pc = e->pc;
  }
  // decide a boolean; forks. returns 0/1 for the current state, -1 dead. onOther(state) is applied to the forked state.
  template <class Fn> int branch(State &s, Expr *c, Fn onOther) {
    if (c->k == E_CONST) return c->val;
    if (!s.fixval.empty() && allFixed(s, c)) return M.eval(c, s.fixval);
    int b = M.eval(c, s.model); Expr *nc = M.bnot(c); Expr *oth = b ? nc : c; Model m2 = s.model;
    int r = query(s, {oth}, &m2); if (r < 0) { unsupported(s, "solver unknown at branch"); return -1; }
    if (r == 1) { State *n = forkState(s); n->model = m2; addPC(*n, oth); onOther(*n); work.push_back(n); addPC(s, b ? c : nc); }
    return b;
  }
  void pushFrame(State &s, DFunc *f, const std::vector<Val> &args, CallInfo *ci, int dst, int nret) {
    decode(f); if (f->idx < MAXFUN) SH->fcov[f->idx] = 1;
    uint32_t base = s.regs.size(); Frame fr; fr.f = f; fr.pc = 0; fr.base = base; fr.dst = dst; fr.nret = nret; fr.sp = s.sp; fr.va = 0;
    s.regs.resize(base + f->nregs, Val{0, nullptr});
    for (int i = 0; i < f->nargs; i++) {
      Val v = i < (int)args.size() ? args[i] : C(0);
      if (ci && i < (int)ci->byval.size() && ci->byval[i]) { uint64_t n = ci->byval[i]; uint64_t a = stackAlloc(s, n); copyMem(s, a, v.c, n); v = C(a); }
      s.regs[base + f->argreg[i]] = v;
    }
    if (f->vararg) {
      int nva = (int)args.size() - f->nargs; uint64_t a = stackAlloc(s, std::max(8, nva * 8)); for (int i = 0; i < nva; i++) { unsigned w = ci ? ci->aw[f->nargs + i] : 64; writeMem(s, a + 8 * i, 8, args[f->nargs + i].e ? V(M.zext(args[f->nargs + i].e, 64)) : C(args[f->nargs + i].c & maskw(w)), 64); } fr.va = a;
    }
    s.fr.push_back(fr);
  }
  uint64_t stackAlloc(State &s, uint64_t n) { uint64_t a = (s.sp + 16 + 15) & ~15ULL; s.sp = a + n; if (s.sp >= STACK_END) return 0; s.mem.mark(a, n, SH_RW, O.fill); return a; }
  void copyMem(State &s, uint64_t d, uint64_t a, uint64_t n) {
    if (!n) return;
    std::vector<Val> tmp(n); for (uint64_t i = 0; i < n; i++) { Page *p = s.mem.rd(a + i); unsigned o = (a + i) & (PS - 1); tmp[i] = (p->nsym && p->sym[o]) ? Val{0, p->sym[o]} : C(p->data[o]); }
    for (uint64_t i = 0; i < n; i++) { Page *p = s.mem.wr(d + i); unsigned o = (d + i) & (PS - 1); if (tmp[i].e) { writeMem(s, d + i, 1, tmp[i], 8); } else { p->data[o] = tmp[i].c; if (p->nsym && p->sym[o]) { p->sym[o] = nullptr; p->nsym--; } } }
  }
  void endPath(State &s, int kind) { // 0 completed, 1 assume, 2 exit
    uint64_t n = SH->paths++; if (kind == 0) SH->completed++; else if (kind == 1) SH->assumed_out++; else SH->exited++;
    if (s.inputs.size() > SH->symvars_max) SH->symvars_max = s.inputs.size();
    if (kind != 1 && (n < 6 || n % O.samplestride == O.seed % O.samplestride) && (int)SH->samples < O.samples) { uint64_t k = SH->samples++; char b[64]; snprintf(b, 64, "/sample-%04d.json", (int)k); writeCase(s, O.out + b, kind == 0 ? "completed" : "exit", "", s.model, true); }
  }

  // runs s until it ends; returns when dead. New states are on 'work'.
  void run(State *sp) {
    State &s = *sp; cur = sp; uint64_t cnt = 0, since = 0;
    while (true) {
      if ((++since & 0xffff) == 0) { if (SH->stop || now() > DEADLINE) { SH->stop = 1; SH->instrs += cnt; return; } }
      if (++s.icount > O.maxinstr) { SH->limit_hit++; pathError(s, "non-termination: instruction bound exceeded"); endPath(s, 2); break; }
      cnt++;
      Frame &f = s.fr.back(); DI &o = f.f->code[f.pc];
      switch (o.op) {
      case O_NOP: f.pc++; break;
      case O_COPY: set(s, o.dst, get(s, o.a)); f.pc++; break;
      case O_BIN: {
        Val a = get(s, o.a), b = get(s, o.b);
        if (!a.e && !b.e) {
          if (o.sub >= E_UDIV && o.sub <= E_SREM && b.c == 0) { pathError(s, "division by zero in " + f.f->name); endPath(s, 2); goto done; }
          set(s, o.dst, C(ExprMgr::evalBin((EK)o.sub, a.c, b.c, o.w)));
        } else {
          if (o.sub >= E_UDIV && o.sub <= E_SREM && b.e) {
            int r = branch(s, M.eq(b.e, M.cst(0, o.w)), [&](State &n) { (void)n; });
            if (r < 0) { endPath(s, 2); goto done; }
            if (r == 1) { pathError(s, "division by zero in " + f.f->name); endPath(s, 2); goto done; }
            // forked zero-divisor states re-execute this instruction with b fixed
          } else if (o.sub >= E_UDIV && o.sub <= E_SREM && !b.e && b.c == 0) { pathError(s, "division by zero in " + f.f->name); endPath(s, 2); goto done; }
          set(s, o.dst, norm(s, V(M.bin((EK)o.sub, ex(a, o.w), ex(b, o.w))), o.w));
        }
        s.fr.back().pc++; break;
      }
      case O_FBIN: {
        Val a = get(s, o.a), b = get(s, o.b);
        if (!a.e && !b.e) set(s, o.dst, C(ExprMgr::evalFp((EK)o.sub, o.w, o.w, a.c, b.c, 0)));
        else set(s, o.dst, norm(s, V(M.fp((EK)o.sub, o.w, ex(a, o.w), ex(b, o.w))), o.w));
        f.pc++; break;
      }
      case O_FNEG: { Val a = get(s, o.a); if (!a.e) set(s, o.dst, C(a.c ^ (1ULL << (o.w - 1)))); else set(s, o.dst, V(M.fp(E_FNEG, o.w, a.e))); f.pc++; break; }
      case O_ICMP: {
        Val a = get(s, o.a), b = get(s, o.b); unsigned w = o.w2;
        if (!a.e && !b.e) {
          bool r; switch (o.sub) {
          case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
          case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
          case CmpInst::ICMP_SLT: r = sx(a.c, w) < sx(b.c, w); break; case CmpInst::ICMP_SLE: r = sx(a.c, w) <= sx(b.c, w); break;
          case CmpInst::ICMP_SGT: r = sx(a.c, w) > sx(b.c, w); break; default: r = sx(a.c, w) >= sx(b.c, w); break; }
          set(s, o.dst, C(r));
        } else {
          Expr *x = ex(a, w), *y = ex(b, w), *r; switch (o.sub) {
          case CmpInst::ICMP_EQ: r = M.eq(x, y); break; case CmpInst::ICMP_NE: r = M.bnot(M.eq(x, y)); break;
          case CmpInst::ICMP_ULT: r = M.ult(x, y); break; case CmpInst::ICMP_ULE: r = M.ule(x, y); break; case CmpInst::ICMP_UGT: r = M.ult(y, x); break; case CmpInst::ICMP_UGE: r = M.ule(y, x); break;
          case CmpInst::ICMP_SLT: r = M.slt(x, y); break; case CmpInst::ICMP_SLE: r = M.sle(x, y); break; case CmpInst::ICMP_SGT: r = M.slt(y, x); break; default: r = M.sle(y, x); break; }
          set(s, o.dst, norm(s, V(r), 1));
        }
        f.pc++; break;
      }
      case O_FCMP: {
        Val a = get(s, o.a), b = get(s, o.b); unsigned w = o.w2; Expr *x = ex(a, w), *y = ex(b, w);
        unsigned p = o.sub; // bit0 eq, bit1 gt, bit2 lt, bit3 uno
        Expr *r = M.cst(0, 1); if (p & 1) r = M.bor(r, M.fp(E_FEQ, 1, x, y)); if (p & 2) r = M.bor(r, M.fp(E_FLT, 1, y, x)); if (p & 4) r = M.bor(r, M.fp(E_FLT, 1, x, y)); if (p & 8) r = M.bor(r, M.fp(E_FUNO, 1, x, y));
        if (p == 7) r = M.bnot(M.fp(E_FUNO, 1, x, y));
        if (p == 15) r = M.cst(1, 1);
        set(s, o.dst, norm(s, V(r), 1)); f.pc++; break;
      }
      case O_CAST: {
        Val a = get(s, o.a); unsigned w = o.w, w2 = o.w2; Val r;
        switch (o.sub) {
        case Instruction::Trunc: r = a.e ? V(M.extract(a.e, 0, w)) : C(a.c & maskw(w)); break;
        case Instruction::ZExt: r = a.e ? V(M.zext(a.e, w)) : a; break;
        case Instruction::SExt: r = a.e ? V(M.sext(a.e, w)) : C((uint64_t)sx(a.c, w2) & maskw(w)); break;
        case Instruction::BitCast: r = a; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: r = a.e ? (w < w2 ? V(M.extract(a.e, 0, w)) : V(M.zext(a.e, w))) : C(a.c & maskw(w)); break;
        case Instruction::SIToFP: r = V(M.fp(E_SITOFP, w, ex(a, w2))); break;
        case Instruction::UIToFP: r = V(M.fp(E_UITOFP, w, ex(a, w2))); break;
        case Instruction::FPToSI: r = V(M.fp(E_FPTOSI, w, ex(a, w2))); break;
        case Instruction::FPToUI: r = V(M.fp(E_FPTOUI, w, ex(a, w2))); break;
        case Instruction::FPExt: case Instruction::FPTrunc: r = V(M.fp(E_FPCAST, w, ex(a, w2))); break;
        default: fatal("cast"); r = a;
        }
        set(s, o.dst, r); f.pc++; break;
      }
      case O_SEL: {
        Val c = norm(s, get(s, o.a), 1);
        if (!c.e) set(s, o.dst, get(s, c.c ? o.b : o.c));
        else { Val x = get(s, o.b), y = get(s, o.c); set(s, o.dst, V(M.ite(c.e, ex(x, o.w), ex(y, o.w)))); }
        f.pc++; break;
      }
      case O_GEP: {
        GepInfo *g = (GepInfo *)o.x; Val p = get(s, o.a); bool sym = p.e; uint64_t acc = g->off;
        for (auto &t : g->idx) { Val v = get(s, std::get<0>(t)); if (v.e) { sym = true; break; } acc += (uint64_t)sx(v.c, std::get<2>(t)) * std::get<1>(t); }
        if (!sym) set(s, o.dst, C(p.c + acc));
        else {
          Expr *e = M.bin(E_ADD, ex(p, 64), M.cst(g->off, 64));
          for (auto &t : g->idx) { Val v = get(s, std::get<0>(t)); Expr *x = M.sext(ex(v, std::get<2>(t)), 64); e = M.bin(E_ADD, e, M.bin(E_MUL, x, M.cst(std::get<1>(t), 64))); }
          set(s, o.dst, norm(s, V(e), 64));
        }
        f.pc++; break;
      }
      case O_LOAD: {
        Val p = get(s, o.a); unsigned n = o.imm;
        if (p.e) p = norm(s, p, 64);
        if (p.e) { int r = symLoad(s, o, p, n); if (r == 2) { endPath(s, 2); goto done; } if (r == 0) s.fr.back().pc++; break; }
        if (!fastOk(s, p.c, n, false)) { pathError(s, memErr(s, p.c, n, false)); endPath(s, 2); goto done; }
        set(s, o.dst, readMem(s, p.c, n, o.w)); f.pc++; break;
      }
      case O_STORE: {
        Val p = get(s, o.a); unsigned n = o.imm; if (p.e) p = norm(s, p, 64);
        if (p.e) { if (o.a < 0) fatal("const sym"); int r = concretize(s, o.a, 64); if (r == 2) { endPath(s, 2); goto done; } break; }
        if (!fastOk(s, p.c, n, true)) { pathError(s, memErr(s, p.c, n, true)); endPath(s, 2); goto done; }
        writeMem(s, p.c, n, get(s, o.b), o.w); f.pc++; break;
      }
      case O_LOADS: {
        Val p = norm(s, get(s, o.a), 64); if (p.e) { if (concretize(s, o.a, 64) == 2) { endPath(s, 2); goto done; } break; }
        auto &v = *(std::vector<std::pair<Type *, uint64_t>> *)o.x; int i = 0;
        for (auto &t : v) { unsigned n = DL->getTypeStoreSize(t.first); if (!fastOk(s, p.c + t.second, n, false)) { pathError(s, memErr(s, p.c, n, false)); endPath(s, 2); goto done; } set(s, o.dst + i++, readMem(s, p.c + t.second, n, tw(t.first))); }
        f.pc++; break;
      }
      case O_STORES: {
        Val p = norm(s, get(s, o.a), 64); if (p.e) { if (concretize(s, o.a, 64) == 2) { endPath(s, 2); goto done; } break; }
        auto &v = *(std::vector<std::pair<Type *, uint64_t>> *)o.x; auto &rg = *(std::vector<int> *)o.y; int i = 0;
        for (auto &t : v) { unsigned n = DL->getTypeStoreSize(t.first); if (!fastOk(s, p.c + t.second, n, true)) { pathError(s, memErr(s, p.c, n, true)); endPath(s, 2); goto done; } writeMem(s, p.c + t.second, n, get(s, rg[i++]), tw(t.first)); }
        f.pc++; break;
      }
      case O_ALLOCA: {
        Val n = norm(s, get(s, o.a), 64); if (n.e) { unsupported(s, "symbolic alloca"); endPath(s, 2); goto done; }
        uint64_t a = stackAlloc(s, n.c * o.imm); if (!a) { pathError(s, "stack overflow"); endPath(s, 2); goto done; } set(s, o.dst, C(a)); f.pc++; break;
      }
      case O_BR: follow(s, (Edge *)o.x); break;
      case O_CBR: {
        Val c = get(s, o.a);
        if (!c.e) { follow(s, (Edge *)(c.c ? o.x : o.y)); break; }
        int b = branch(s, c.e, [&](State &n) { int v = M.eval(c.e, n.model); follow(n, (Edge *)(v ? o.x : o.y)); });
        if (b < 0) { endPath(s, 2); goto done; }
        follow(s, (Edge *)(b ? o.x : o.y)); break;
      }
      case O_SWITCH: {
        Val c = norm(s, get(s, o.a), o.w); SwInfo *si = (SwInfo *)o.x;
        if (!c.e) { Edge *e = &si->def; for (auto &k : si->cases) if (k.first == c.c) { e = &k.second; break; } follow(s, e); break; }
        // group by target
        std::vector<std::pair<Edge *, Expr *>> g; Expr *nd = M.cst(1, 1);
        for (auto &k : si->cases) { Expr *q = M.eq(c.e, M.cst(k.first, o.w)); nd = M.band(nd, M.bnot(q)); bool hit = false; for (auto &x : g) if (x.first->pc == k.second.pc && x.first->copies == k.second.copies) { x.second = M.bor(x.second, q); hit = true; break; } if (!hit) g.push_back({&k.second, q}); }
        g.push_back({&si->def, nd}); Edge *mine = nullptr; Expr *mc = nullptr; bool forked = false;
        for (auto &x : g) if (M.eval(x.second, s.model)) { mine = x.first; mc = x.second; break; }
        for (auto &x : g) if (x.first != mine) {
          if (x.second->k == E_CONST && !x.second->val) continue;
          Model m2 = s.model; int r = query(s, {x.second}, &m2); if (r < 0) { unsupported(s, "solver unknown at switch"); continue; }
          if (r == 1) { State *n = forkState(s); n->model = m2; addPC(*n, x.second); follow(*n, x.first); work.push_back(n); forked = true; }
        }
        if (forked) addPC(s, mc); follow(s, mine); break;
      }
      case O_RET: {
        auto &v = *(std::vector<int> *)o.x; Val rv[8]; int n = std::min<int>(v.size(), 8); for (int i = 0; i < n; i++) rv[i] = get(s, v[i]);
        Frame of = s.fr.back(); if (s.sp > of.sp) { s.mem.mark(of.sp, s.sp - of.sp, SH_NONE); s.sp = of.sp; }
        s.regs.resize(of.base); s.fr.pop_back();
        if (s.fr.empty()) { endPath(s, 0); goto done; }
        if (of.dst >= 0) for (int i = 0; i < n && i < of.nret; i++) set(s, of.dst + i, rv[i]);
        break;
      }
      case O_UNREACH: pathError(s, "reached code marked unreachable in " + f.f->name); endPath(s, 2); goto done;
      case O_CALL: {
        int r = call(s, o); if (r == 2) goto done; break;
      }
      }
      continue;
    }
  done:
    SH->instrs += cnt; delete sp; cur = nullptr;
  }
  int symLoad(State &s, DI &o, Val p, unsigned n) { // 0 done, 1 retry, 2 dead
    std::vector<std::pair<uint64_t, Expr *>> vals; bool sd = smallDomain(s, p.e, vals);
    if (!sd) { std::vector<std::pair<uint64_t, Model>> ev; if (!enumerate(s, p.e, ev, 600)) return 2; for (auto &x : ev) vals.push_back({x.first, M.eq(p.e, M.cst(x.first, 64))}); }
    // validity
    std::vector<std::pair<uint64_t, Expr *>> good;
    for (auto &x : vals) {
      if (fastOk(s, x.first, n, false)) { good.push_back(x); continue; }
      Model m2 = s.model; int r = query(s, {x.second}, &m2); if (r < 0) { unsupported(s, "solver unknown at load"); return 2; }
      if (r == 1) { SH->errors++; State *t = forkState(s); t->model = m2; addPC(*t, x.second); violation(*t, memErr(s, x.first, n, false), m2); delete t; Model m3 = s.model; int r2 = query(s, {M.bnot(x.second)}, &m3); if (r2 != 1) return 2; s.model = m3; addPC(s, M.bnot(x.second)); }
    }
    if (good.empty()) return 2;
    bool ptr = false; std::vector<Val> rv; for (auto &x : good) { Val v = readMem(s, x.first, n, o.w); rv.push_back(v); if (!v.e && o.w == 64 && v.c >= GLOBAL_BASE && v.c < ASIZE) ptr = true; }
    if (ptr && good.size() > 1) { // pointers: fork per address
      bool same = true; for (auto &v : rv) if (v.e || v.c != rv[0].c) same = false;
      if (!same) { int r = concretize(s, o.a, 64); return r == 2 ? 2 : 1; }
    }
    Expr *acc = ex(rv.back(), o.w);
    // group equal values
    std::map<Expr *, Expr *> grp; std::vector<Expr *> order;
    for (size_t i = 0; i + 1 < good.size(); i++) { Expr *v = ex(rv[i], o.w); auto it = grp.find(v); if (it == grp.end()) { grp[v] = good[i].second; order.push_back(v); } else it->second = M.bor(it->second, good[i].second); }
    for (auto it = order.rbegin(); it != order.rend(); ++it) acc = M.ite(grp[*it], *it, acc);
    set(s, o.dst, norm(s, V(acc), o.w)); return 0;
  }
  int call(State &s, DI &o);
  int intrinsic(State &s, DI &o, CallInfo *c, Intrinsic::ID id, std::vector<Val> &a);
  void setup(); void registerNatives(); void loop();
};

// ---------------------------------------------------------------- calls
static const int RR_OK = 0, RR_RETRY = 1, RR_END = 2;
int Exec::call(State &s, DI &o) {
  CallInfo *c = (CallInfo *)o.x; DFunc *f = c->callee;
  if (!f) {
    Val p = norm(s, get(s, c->fnreg), 64); if (p.e) { if (concretize(s, c->fnreg, 64) == 2) { endPath(s, 2); return 2; } return 0; }
    auto it = faddr.find(p.c); if (it == faddr.end()) { pathError(s, "call through invalid function pointer in " + s.fr.back().f->name); endPath(s, 2); return 2; }
    f = it->second;
  }
  std::vector<Val> a(c->args.size()); for (size_t i = 0; i < a.size(); i++) a[i] = get(s, c->args[i]);
  if (f->native) { int r = f->native(*this, s, o, a); if (r == 0) s.fr.back().pc++; return r == 1 ? 0 : r; }
  if (f->F->isIntrinsic()) { int r = intrinsic(s, o, c, f->F->getIntrinsicID(), a); if (r == 0) s.fr.back().pc++; return r == 1 ? 0 : r; }
  if (f->F->isDeclaration()) { unsupported(s, "call to unmodelled external " + f->name); endPath(s, 2); return 2; }
  s.fr.back().pc++;
  if (s.fr.size() > 20000) { pathError(s, "unbounded recursion in " + f->name); endPath(s, 2); return 2; }
  pushFrame(s, f, a, c, o.dst, c->nret); return 0;
}
// make argument i concrete (forking); returns RR_OK when a[i] concrete
#define NEEDC(i, w) do { Val _v = X.norm(s, a[i], w); if (_v.e) { CallInfo *_c = (CallInfo *)o.x; int _r = _c->args[i]; if (_r < 0) fatal("needc"); if (X.concretize(s, _r, w) == 2) { X.endPath(s, 2); return RR_END; } return RR_RETRY; } a[i] = _v; } while (0)
#define RET(v) do { if (o.dst >= 0) X.set(s, o.dst, v); return RR_OK; } while (0)
int Exec::intrinsic(State &s, DI &o, CallInfo *c, Intrinsic::ID id, std::vector<Val> &a) {
  Exec &X = *this; unsigned w = o.w;
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: {
    NEEDC(0, 64); NEEDC(1, 64); NEEDC(2, c->aw[2]); if (!a[2].c) return RR_OK;
    if (!s.mem.ok(a[0].c, a[2].c, true) || !s.mem.ok(a[1].c, a[2].c, false)) { pathError(s, "memory error: out-of-bounds copy in " + s.fr.back().f->name); endPath(s, 2); return RR_END; }
    copyMem(s, a[0].c, a[1].c, a[2].c); return RR_OK;
  }
  case Intrinsic::memset: {
    NEEDC(0, 64); NEEDC(2, c->aw[2]); if (!s.mem.ok(a[0].c, a[2].c, true)) { pathError(s, "memory error: out-of-bounds memset in " + s.fr.back().f->name); endPath(s, 2); return RR_END; }
    for (uint64_t i = 0; i < a[2].c; i++) writeMem(s, a[0].c + i, 1, a[1], 8); return RR_OK;
  }
  case Intrinsic::umin: RET(V(M.ite(M.ult(ex(a[0], w), ex(a[1], w)), ex(a[0], w), ex(a[1], w))));
  case Intrinsic::umax: RET(V(M.ite(M.ult(ex(a[0], w), ex(a[1], w)), ex(a[1], w), ex(a[0], w))));
  case Intrinsic::smin: RET(V(M.ite(M.slt(ex(a[0], w), ex(a[1], w)), ex(a[0], w), ex(a[1], w))));
  case Intrinsic::smax: RET(V(M.ite(M.slt(ex(a[0], w), ex(a[1], w)), ex(a[1], w), ex(a[0], w))));
  case Intrinsic::abs: { Expr *x = ex(a[0], w); RET(V(M.ite(M.slt(x, M.cst(0, w)), M.bin(E_SUB, M.cst(0, w), x), x))); }
  case Intrinsic::expect: RET(a[0]);
  case Intrinsic::is_constant: RET(C(0));
  case Intrinsic::objectsize: RET(C(~0ULL & maskw(w)));
  case Intrinsic::stacksave: RET(C(s.sp));
  case Intrinsic::stackrestore: if (a[0].c < s.sp) { s.mem.mark(a[0].c, s.sp - a[0].c, SH_NONE); s.sp = a[0].c; } return RR_OK;
  case Intrinsic::vastart: { // {i32 gp,i32 fp,ptr overflow,ptr save}
    uint64_t p = a[0].c; writeMem(s, p, 4, C(48), 32); writeMem(s, p + 4, 4, C(304), 32); writeMem(s, p + 8, 8, C(s.fr.back().va), 64); writeMem(s, p + 16, 8, C(0), 64); return RR_OK; }
  case Intrinsic::vaend: return RR_OK;
  case Intrinsic::vacopy: copyMem(s, a[0].c, a[1].c, 24); return RR_OK;
  case Intrinsic::trap: pathError(s, "trap in " + s.fr.back().f->name); endPath(s, 2); return RR_END;
  case Intrinsic::bswap: { Expr *x = ex(a[0], w), *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = M.extract(x, 8 * i, 8); r = r ? M.concat(r, b) : b; } RET(V(r)); }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Val k = norm(s, a[2], w); if (k.e) { unsupported(s, "symbolic fsh"); endPath(s, 2); return RR_END; } unsigned n = k.c % w; if (id == Intrinsic::fshr) n = (w - n) % w; if (n == 0) RET(id == Intrinsic::fshl ? a[0] : (k.c % w ? a[0] : a[1]));
    RET(V(M.bin(E_OR, M.bin(E_SHL, ex(a[0], w), M.cst(n, w)), M.bin(E_LSHR, ex(a[1], w), M.cst(w - n, w))))); }
  case Intrinsic::ctpop: { Expr *x = ex(a[0], w), *r = M.cst(0, w); for (unsigned i = 0; i < w; i++) r = M.bin(E_ADD, r, M.zext(M.extract(x, i, 1), w)); RET(V(r)); }
  case Intrinsic::ctlz: { Expr *x = ex(a[0], w), *r = M.cst(w, w); for (unsigned i = 0; i < w; i++) r = M.ite(M.extract(x, i, 1), M.cst(w - 1 - i, w), r); RET(V(r)); }
  case Intrinsic::cttz: { Expr *x = ex(a[0], w), *r = M.cst(w, w); for (int i = w - 1; i >= 0; i--) r = M.ite(M.extract(x, i, 1), M.cst(i, w), r); RET(V(r)); }
  case Intrinsic::fmuladd: RET(V(M.fp(E_FADD, w, M.fp(E_FMUL, w, ex(a[0], w), ex(a[1], w)), ex(a[2], w))));
  case Intrinsic::fabs: RET(V(M.fp(E_FABS, w, ex(a[0], w))));
  case Intrinsic::sqrt: RET(V(M.fp(E_FSQRT, w, ex(a[0], w))));
  case Intrinsic::ceil: RET(V(M.fp(E_FROUND, w, ex(a[0], w), nullptr, 0)));
  case Intrinsic::floor: RET(V(M.fp(E_FROUND, w, ex(a[0], w), nullptr, 1)));
  case Intrinsic::trunc: RET(V(M.fp(E_FROUND, w, ex(a[0], w), nullptr, 2)));
  case Intrinsic::load_relative: { NEEDC(0, 64); NEEDC(1, 64); Val v = readMem(s, a[0].c + a[1].c, 4, 32); RET(C(a[0].c + (int64_t)(int32_t)v.c)); }
  case Intrinsic::usub_sat: { Expr *x = ex(a[0], w), *y = ex(a[1], w); RET(V(M.ite(M.ult(x, y), M.cst(0, w), M.bin(E_SUB, x, y)))); }
  case Intrinsic::uadd_sat: { Expr *x = ex(a[0], w), *y = ex(a[1], w), *z = M.bin(E_ADD, x, y); RET(V(M.ite(M.ult(z, x), M.cst(maskw(w), w), z))); }
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
    w = c->aw[0]; Expr *x = ex(a[0], w), *y = ex(a[1], w), *r, *ov;
    if (id == Intrinsic::uadd_with_overflow) { r = M.bin(E_ADD, x, y); ov = M.ult(r, x); }
    else if (id == Intrinsic::usub_with_overflow) { r = M.bin(E_SUB, x, y); ov = M.ult(x, y); }
    else if (id == Intrinsic::sadd_with_overflow) { r = M.bin(E_ADD, x, y); Expr *z = M.cst(0, w); Expr *sxx = M.slt(x, z), *sy = M.slt(y, z), *sr = M.slt(r, z); ov = M.band(M.eq(sxx, sy), M.bnot(M.eq(sxx, sr))); }
    else if (id == Intrinsic::ssub_with_overflow) { r = M.bin(E_SUB, x, y); Expr *z = M.cst(0, w); Expr *sxx = M.slt(x, z), *sy = M.slt(y, z), *sr = M.slt(r, z); ov = M.band(M.bnot(M.eq(sxx, sy)), M.bnot(M.eq(sxx, sr))); }
    else {
      r = M.bin(E_MUL, x, y);
      if (ExprMgr::isC(x) && ExprMgr::isC(y)) { bool b; if (id == Intrinsic::umul_with_overflow) { unsigned __int128 p = (unsigned __int128)x->val * y->val; b = p > maskw(w); } else { __int128 p = (__int128)sx(x->val, w) * sx(y->val, w); b = p != (__int128)sx(r->val, w); } ov = M.cst(b, 1); }
      else if (id == Intrinsic::umul_with_overflow) { Expr *z = M.cst(0, w); ov = M.band(M.bnot(M.eq(y, z)), M.bnot(M.eq(M.bin(E_UDIV, r, y), x))); }
      else { Expr *z = M.cst(0, w); ov = M.band(M.bnot(M.eq(y, z)), M.bnot(M.eq(M.bin(E_SDIV, r, y), x))); }
    }
    set(s, o.dst, V(r)); set(s, o.dst + 1, V(ov)); return RR_OK;
  }
  default: unsupported(s, "intrinsic " + ((CallInfo *)o.x)->callee->name); endPath(s, 2); return RR_END;
  }
}

// ---------------------------------------------------------------- natives
#define NAT(n) static int n(Exec &X, State &s, DI &o, std::vector<Val> &a)
NAT(n_int) { // long sx_int(const char*name,long lo,long hi)
  std::string nm; NEEDC(0, 64); NEEDC(1, 64); NEEDC(2, 64); X.cstr(s, a[0].c, nm); int64_t lo = (int64_t)a[1].c, hi = (int64_t)a[2].c;
  if (lo == hi) { s.inputs.push_back({nm, nullptr, lo, 64, 1}); RET(Exec::C((uint64_t)lo)); }
  uint64_t span = (uint64_t)hi - (uint64_t)lo; unsigned w = 64 - __builtin_clzll(span);
  Expr *v = X.M.var(std::to_string(s.nsymint++) + "_" + nm, w); uint32_t id = v->val; if (id >= s.model.size()) s.model.resize(id + 1, 0); s.model[id] = 0;
  Expr *e = X.M.bin(E_ADD, X.M.zext(v, 64), X.M.cst((uint64_t)lo, 64));
  s.inputs.push_back({nm, e, lo, 64, 1});
  if (span != maskw(w)) X.addPC(s, X.M.ule(v, X.M.cst(span, w)));
  RET(X.V(e));
}
NAT(n_bytes) { // void sx_bytes(const char*name, void*p, long n)
  std::string nm; NEEDC(0, 64); NEEDC(1, 64); NEEDC(2, 64); X.cstr(s, a[0].c, nm);
  if (!s.mem.ok(a[1].c, a[2].c, true)) fatal("sx_bytes out of bounds");
  for (uint64_t i = 0; i < a[2].c; i++) {
    Expr *v = X.M.var(std::to_string(s.nsymint++) + "_" + nm, 8); uint32_t id = v->val; if (id >= s.model.size()) s.model.resize(id + 1, 0); s.model[id] = 0;
    s.inputs.push_back({nm, X.M.zext(v, 64), 0, 64, 1}); X.writeMem(s, a[1].c + i, 1, X.V(v), 8);
  }
  return RR_OK;
}
NAT(n_assume) {
  Val c = X.norm(s, a[0], 32); if (!c.e) { if (!c.c) { X.endPath(s, 1); return RR_END; } return RR_OK; }
  Expr *e = X.M.bnot(X.M.eq(c.e, X.M.cst(0, c.e->w))); if (e->k == E_CONST) { if (!e->val) { X.endPath(s, 1); return RR_END; } return RR_OK; }
  if (X.M.eval(e, s.model)) { X.addPC(s, e); return RR_OK; }
  Model m = s.model; int r = X.query(s, {e}, &m); if (r == 1) { s.model = m; X.addPC(s, e); return RR_OK; } if (r < 0) X.unsupported(s, "solver unknown at assume"); X.endPath(s, 1); return RR_END;
}
NAT(n_assert) { // void sx_assert(int c,const char*msg)
  std::string nm; NEEDC(1, 64); X.cstr(s, a[1].c, nm); SH->asserts_checked++;
  Val c = X.norm(s, a[0], 32); if (!c.e) { if (!c.c) { X.violation(s, nm, s.model); X.endPath(s, 2); return RR_END; } return RR_OK; }
  Expr *e = X.M.bnot(X.M.eq(c.e, X.M.cst(0, c.e->w))); if (e->k == E_CONST && e->val) return RR_OK;
  SH->asserts_solver++;
  Model m = s.model; int r; if (!X.M.eval(e, s.model)) r = 1; else r = X.query(s, {X.M.bnot(e)}, &m);
  if (r < 0) { X.unsupported(s, "solver unknown at assertion"); X.endPath(s, 2); return RR_END; }
  if (r == 1) { X.violation(s, nm, m); m = s.model; int q = X.query(s, {e}, &m); if (q != 1) { X.endPath(s, 2); return RR_END; } s.model = m; X.addPC(s, e); }
  return RR_OK;
}
NAT(n_concretize) { NEEDC(0, 64); RET(a[0]); }
NAT(n_reach) {
  std::string nm; NEEDC(0, 64); X.cstr(s, a[0].c, nm); int n = SH->nlab, i; for (i = 0; i < n; i++) if (nm == SH->lab[i]) { SH->labcnt[i]++; return RR_OK; }
  shlock(); n = SH->nlab; for (i = 0; i < n; i++) if (nm == SH->lab[i]) break; if (i == n && n < MAXLAB) { strncpy(SH->lab[n], nm.c_str(), 63); SH->nlab = n + 1; } shunlock(); if (i < MAXLAB) SH->labcnt[i]++; return RR_OK;
}
NAT(n_observe) { Val v = X.norm(s, a[0], 64); s.obs.push_back({v.e, v.c}); return RR_OK; }
NAT(n_param) { std::string nm; NEEDC(0, 64); X.cstr(s, a[0].c, nm); auto it = O.params.find(nm); if (it != O.params.end()) RET(Exec::C((uint64_t)it->second)); RET(a[1]); }
NAT(n_exitmode) { s.exitmode = a[0].c; return RR_OK; }
NAT(n_done) { X.endPath(s, 0); return RR_END; }
NAT(n_issym) { Val v = X.norm(s, a[0], 64); RET(Exec::C(v.e != nullptr)); }
NAT(n_trace) { std::string nm; X.cstr(s, a[0].c, nm); if (O.trace) { Val v = X.norm(s, a[1], 64); fprintf(stderr, "[trace] %s %lld%s\n", nm.c_str(), (long long)(v.e ? X.M.eval(v.e, s.model) : v.c), v.e ? " (sym)" : ""); } return RR_OK; }
NAT(n_malloc) { NEEDC(0, 64); uint64_t p = a[0].c > (300u << 20) ? 0 : X.heapAlloc(s, a[0].c, O.fill); if (!p) { X.unsupported(s, "emulated heap exhausted"); X.endPath(s, 2); return RR_END; } RET(Exec::C(p)); }
NAT(n_calloc) { NEEDC(0, 64); NEEDC(1, 64); RET(Exec::C(X.heapAlloc(s, a[0].c * a[1].c, 0))); }
NAT(n_free) { NEEDC(0, 64); if (!a[0].c) return RR_OK; if (!X.heapFree(s, a[0].c)) { X.pathError(s, "memory error: invalid or double free in " + s.fr.back().f->name); X.endPath(s, 2); return RR_END; } return RR_OK; }
NAT(n_realloc) {
  NEEDC(0, 64); NEEDC(1, 64); if (!a[0].c) RET(Exec::C(X.heapAlloc(s, a[1].c, O.fill))); uint64_t n; if (!X.heapInfo(s, a[0].c, n)) { X.pathError(s, "memory error: invalid realloc in " + s.fr.back().f->name); X.endPath(s, 2); return RR_END; }
  uint64_t p = X.heapAlloc(s, a[1].c, O.fill); if (!p) { X.unsupported(s, "emulated heap exhausted"); X.endPath(s, 2); return RR_END; } X.copyMem(s, p, a[0].c, std::min(n, a[1].c)); X.heapFree(s, a[0].c); RET(Exec::C(p));
}
NAT(n_memcpy) {
  NEEDC(0, 64); NEEDC(1, 64); NEEDC(2, 64); if (a[2].c) { if (!s.mem.ok(a[0].c, a[2].c, true) || !s.mem.ok(a[1].c, a[2].c, false)) { X.pathError(s, "memory error: out-of-bounds copy in " + s.fr.back().f->name); X.endPath(s, 2); return RR_END; } X.copyMem(s, a[0].c, a[1].c, a[2].c); } RET(a[0]);
}
NAT(n_memset) { NEEDC(0, 64); NEEDC(2, 64); if (!s.mem.ok(a[0].c, a[2].c, true)) { X.pathError(s, "memory error: out-of-bounds memset in " + s.fr.back().f->name); X.endPath(s, 2); return RR_END; } Val b = a[1]; if (b.e) b = X.V(X.M.extract(b.e, 0, 8)); else b.c &= 255; for (uint64_t i = 0; i < a[2].c; i++) X.writeMem(s, a[0].c + i, 1, b, 8); RET(a[0]); }
NAT(n_exit) { Val v = X.norm(s, a[0], 32); int code = v.e ? -1 : (int)v.c; if (s.exitmode == 0) X.pathError(s, "unexpected exit(" + std::to_string(code) + ") from " + (s.fr.size() > 1 ? s.fr[s.fr.size() - 1].f->name : "")); else if (s.exitmode == 2 && code < 0) X.pathError(s, "abnormal exit"); X.endPath(s, 2); return RR_END; }
NAT(n_abort) { X.pathError(s, "abort() called from " + s.fr.back().f->name); X.endPath(s, 2); return RR_END; }
NAT(n_strtod) {
  NEEDC(0, 64); std::string t; if (!X.cstr(s, a[0].c, t)) { // concretise symbolic bytes
    X.unsupported(s, "strtod on symbolic text"); X.endPath(s, 2); return RR_END; }
  char *e; double d = strtod(t.c_str(), &e); NEEDC(1, 64); if (a[1].c) X.writeMem(s, a[1].c, 8, Exec::C(a[0].c + (e - t.c_str())), 64); RET(Exec::C(ExprMgr::ud(d)));
}
template <double (*F)(double)> int n_m1(Exec &X, State &s, DI &o, std::vector<Val> &a) { Val v = X.norm(s, a[0], 64); if (v.e) { X.unsupported(s, "symbolic libm"); X.endPath(s, 2); return RR_END; } RET(Exec::C(ExprMgr::ud(F(ExprMgr::d(v.c))))); }
NAT(n_pow) { Val x = X.norm(s, a[0], 64), y = X.norm(s, a[1], 64); if (x.e || y.e) { X.unsupported(s, "symbolic libm"); X.endPath(s, 2); return RR_END; } RET(Exec::C(ExprMgr::ud(pow(ExprMgr::d(x.c), ExprMgr::d(y.c))))); }
NAT(n_ctype_b) { RET(Exec::C(X.ctypeB)); }
NAT(n_ctype_l) { RET(Exec::C(X.ctypeLower)); }
NAT(n_ctype_u) { RET(Exec::C(X.ctypeUpper)); }
NAT(n_fmtdouble) { // int sx_fmt_double(char*buf,long cap,const char*fmt,double v)
  NEEDC(0, 64); NEEDC(1, 64); std::string f; X.cstr(s, a[2].c, f); Val v = X.norm(s, a[3], 64); if (v.e) { X.unsupported(s, "formatting symbolic double"); X.endPath(s, 2); return RR_END; }
  char b[512]; int n = snprintf(b, sizeof b, f.c_str(), ExprMgr::d(v.c)); for (int i = 0; i <= n && i < (int)a[1].c; i++) X.writeMem(s, a[0].c + i, 1, Exec::C((uint8_t)b[i]), 8); RET(Exec::C(n));
}
NAT(n_ite) { // long sx_ite(long c,long x,long y): branch-free select
  Val c = X.norm(s, a[0], 64); if (!c.e) RET(c.c ? a[1] : a[2]); RET(X.V(X.M.ite(X.M.bnot(X.M.eq(c.e, X.M.cst(0, 64))), X.ex(a[1], 64), X.ex(a[2], 64))));
}
// branch-free booleans on longs (0/1)
NAT(n_and) { Val x = X.norm(s, a[0], 64), y = X.norm(s, a[1], 64); Expr *p = X.M.bnot(X.M.eq(X.ex(x, 64), X.M.cst(0, 64))), *q = X.M.bnot(X.M.eq(X.ex(y, 64), X.M.cst(0, 64))); RET(X.V(X.M.zext(X.M.band(p, q), 64))); }
NAT(n_or) { Val x = X.norm(s, a[0], 64), y = X.norm(s, a[1], 64); Expr *p = X.M.bnot(X.M.eq(X.ex(x, 64), X.M.cst(0, 64))), *q = X.M.bnot(X.M.eq(X.ex(y, 64), X.M.cst(0, 64))); RET(X.V(X.M.zext(X.M.bor(p, q), 64))); }
NAT(n_may) { // int sx_may(const char*name,long c): 1 iff some value satisfies c on this path (decided by the solver, no fork); recorded like an input
  std::string nm; NEEDC(0, 64); X.cstr(s, a[0].c, nm); Val c = X.norm(s, a[1], 64); int64_t r;
  if (!c.e) r = c.c != 0;
  else {
    Expr *e = X.M.bnot(X.M.eq(c.e, X.M.cst(0, 64)));
    if (e->k == E_CONST) r = e->val; else if (X.M.eval(e, s.model)) r = 1;
    else { Model m = s.model; r = X.query(s, {e}, &m); if (r < 0) { X.unsupported(s, "solver unknown at sx_may"); X.endPath(s, 2); return RR_END; } }
  }
  SH->asserts_solver++; s.inputs.push_back({nm, nullptr, r, 64, 1}); RET(Exec::C(r));
}

static Expr *substE(ExprMgr &M, Expr *e, const std::unordered_map<uint32_t, uint64_t> &m, std::unordered_map<Expr *, Expr *> &memo) {
  bool hit = false; for (uint32_t v : e->vs->v) if (m.count(v)) { hit = true; break; }
  if (!hit) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr *r;
  if (e->k == E_VAR) r = M.cst(m.at((uint32_t)e->val), e->w);
  else {
    Expr *a = e->a ? substE(M, e->a, m, memo) : nullptr, *b = e->b ? substE(M, e->b, m, memo) : nullptr, *c = e->c ? substE(M, e->c, m, memo) : nullptr;
    switch (e->k) {
    case E_NOT: r = M.bnot(a); break; case E_EQ: r = M.eq(a, b); break; case E_ULT: r = M.ult(a, b); break; case E_ULE: r = M.ule(a, b); break;
    case E_SLT: r = M.slt(a, b); break; case E_SLE: r = M.sle(a, b); break; case E_ITE: r = M.ite(a, b, c); break;
    case E_EXTRACT: r = M.extract(a, e->aux, e->w); break; case E_ZEXT: r = M.zext(a, e->w); break; case E_SEXT: r = M.sext(a, e->w); break; case E_CONCAT: r = M.concat(a, b); break;
    default: r = e->hasfp ? nullptr : M.bin(e->k, a, b);
    }
    if (!r) { fprintf(stderr, "substE: unsupported expression\n"); _exit(3); }
  }
  return memo[e] = r;
}
// int sx_extends(const char *name, long prem, long concl, long *vars, long n):
// 1 iff for all values of the other variables satisfying prem there are values of vars satisfying concl (counterexample-guided, both sides decided by the solver)
NAT(n_extends) {
  std::string nm; NEEDC(0, 64); X.cstr(s, a[0].c, nm); NEEDC(3, 64); NEEDC(4, 64); ExprMgr &M = X.M; Val pv = X.norm(s, a[1], 64), cv = X.norm(s, a[2], 64);
  auto tr = [&](Val v) { return v.e ? M.bnot(M.eq(v.e, M.cst(0, 64))) : M.cst(v.c != 0, 1); };
  Expr *prem = tr(pv), *concl = tr(cv); std::unordered_map<uint32_t, uint64_t> ev; int64_t r = -1;
  for (uint64_t i = 0; i < a[4].c; i++) { if (!s.mem.ok(a[3].c + 8 * i, 8, false)) { X.pathError(s, "memory error: sx_extends"); X.endPath(s, 2); return RR_END; } Val v = X.readMem(s, a[3].c + 8 * i, 8, 64); if (v.e) for (uint32_t x : v.e->vs->v) ev[x] = 0; }
  auto bound = [&](Expr *e) { for (uint32_t v : e->vs->v) if (ev.count(v)) return true; return false; };
  if (bound(prem)) { X.unsupported(s, "sx_extends: premise mentions bound variables"); X.endPath(s, 2); return RR_END; }
  for (Expr *c : s.pc) if (bound(c)) concl = M.band(concl, c);
  std::vector<Expr *> cs{prem}; Model m = s.model;
  for (int round = 0; round < 4000; round++) {
    int q = X.query(s, cs, &m); if (q < 0) break; if (!q) { r = 1; break; }
    std::unordered_map<uint32_t, uint64_t> iv; for (uint32_t v : concl->vs->v) if (!ev.count(v)) iv[v] = v < m.size() ? m[v] : 0;
    std::unordered_map<Expr *, Expr *> memo; Expr *ce = substE(M, concl, iv, memo); Model m2 = m;
    if (ce->k == E_CONST) q = ce->val ? 1 : 0; else { State t; q = X.query(t, {ce}, &m2); }
    if (q < 0) break; if (!q) { r = 0; break; }
    auto sv = ev; for (auto &kv : sv) kv.second = kv.first < m2.size() ? m2[kv.first] : 0;
    std::unordered_map<Expr *, Expr *> memo2; cs.push_back(M.bnot(substE(M, concl, sv, memo2)));
  }
  if (r < 0) { X.unsupported(s, "solver unknown at sx_extends"); X.endPath(s, 2); return RR_END; }
  SH->asserts_solver++; s.inputs.push_back({nm, nullptr, r, 64, 1}); RET(Exec::C(r));
}

void Exec::registerNatives() {
  auto &n = natives; n["sx_int"] = n_int; n["sx_bytes"] = n_bytes; n["sx_assume"] = n_assume; n["sx_assert_"] = n_assert; n["sx_concretize"] = n_concretize; n["sx_reach"] = n_reach; n["sx_observe"] = n_observe; n["sx_param"] = n_param;
  n["sx_exit_ok"] = n_exitmode; n["sx_done"] = n_done; n["sx_is_symbolic"] = n_issym; n["sx_trace"] = n_trace; n["sx_fmt_double"] = n_fmtdouble; n["sx_ite"] = n_ite; n["sx_may"] = n_may; n["sx_extends"] = n_extends; n["sx_and"] = n_and; n["sx_or"] = n_or;
  n["malloc"] = n_malloc; n["calloc"] = n_calloc; n["free"] = n_free; n["realloc"] = n_realloc; n["memcpy"] = n_memcpy; n["memmove"] = n_memcpy; n["memset"] = n_memset; n["exit"] = n_exit; n["_exit"] = n_exit; n["abort"] = n_abort; n["__assert_fail"] = n_abort;
  n["strtod"] = n_strtod; n["pow"] = n_pow; n["log"] = n_m1<log>; n["log2"] = n_m1<log2>; n["log10"] = n_m1<log10>; n["exp"] = n_m1<exp>; n["sqrt"] = n_m1<sqrt>; n["floor"] = n_m1<floor>; n["ceil"] = n_m1<ceil>; n["fabs"] = n_m1<fabs>; n["round"] = n_m1<round>;
  n["__ctype_b_loc"] = n_ctype_b; n["__ctype_tolower_loc"] = n_ctype_l; n["__ctype_toupper_loc"] = n_ctype_u;
}

void Exec::setup() {
  freshRW = newPage(); memset(freshRW->data, O.fill, PS); memset(freshRW->shadow, SH_RW, PS); freshRW->ref = 1 << 30;
  SMDiagnostic err; mod = parseIRFile(O.bc, err, lctx); if (!mod) { err.print("symx", errs()); _exit(3); } DL = &mod->getDataLayout(); registerNatives();
  State *s = new State;
  for (auto &F : *mod) gaddr[&F] = getFunc(&F)->addr;
  for (auto &G : mod->globals()) { uint64_t n = DL->getTypeAllocSize(G.getValueType()); uint64_t a = (gtop + 16 + 63) & ~63ULL; gtop = a + n; if (gtop >= STACK_BASE) fatal("globals too big"); gaddr[&G] = a; }
  for (auto &G : mod->globals()) {
    if (!G.hasInitializer()) continue; uint64_t n = DL->getTypeAllocSize(G.getValueType()), a = gaddr[&G]; s->mem.mark(a, n, SH_RW, 0); initMem(*s, a, G.getInitializer()); if (G.isConstant()) s->mem.mark(a, n, SH_RO);
  }
  // ctype tables from the host
  auto tab = [&](const void *src, size_t es) { uint64_t n = 384 * es, a = heapAlloc(*s, n, 0); for (size_t i = 0; i < n; i++) s->mem.wr(a + i)->data[(a + i) & (PS - 1)] = ((const uint8_t *)src)[i]; uint64_t pp = heapAlloc(*s, 8, 0), v = a + 128 * es; for (int i = 0; i < 8; i++) s->mem.wr(pp + i)->data[(pp + i) & (PS - 1)] = v >> (8 * i); return pp; };
  ctypeB = tab(*__ctype_b_loc() - 128, 2); ctypeLower = tab(*__ctype_tolower_loc() - 128, 4); ctypeUpper = tab(*__ctype_toupper_loc() - 128, 4);
  Function *F = mod->getFunction(O.entry); if (!F) fatal("no entry " + O.entry);
  initSolver(); pushFrame(*s, getFunc(F), {}, nullptr, -1, 0); work.push_back(s);
}
static double rssMB() { FILE *f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4096.0 / 1e6; }
void Exec::loop() {
  uint64_t k = 0;
  while (!work.empty()) {
    if (SH->stop || now() > DEADLINE) { SH->stop = 1; break; }
    if ((++k & 63) == 0 && rssMB() > O.memMB) { shlock(); if (!SH->unsup[0]) strncpy(SH->unsup, "memory budget", 511); shunlock(); SH->stop = 1; break; }
    if (work.size() >= 2 && SH->live < SH->maxlive) { // split
      int l = SH->live.load(); if (l < SH->maxlive && SH->live.compare_exchange_strong(l, l + 1)) {
        fflush(stdout); fflush(stderr); pid_t p = fork();
        if (p == 0) { std::deque<State *> mine; size_t n = work.size(), i = 0; for (auto *st : work) { if (i % 2 == 0 && i < n) mine.push_back(st); i++; } work.swap(mine); }
        else if (p > 0) { std::deque<State *> mine; size_t i = 0; for (auto *st : work) { if (i % 2 == 1) mine.push_back(st); i++; } work.swap(mine); }
        else SH->live--;
      }
    }
    State *s = work.back(); work.pop_back(); run(s);
  }
  SH->live--;
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--bc") O.bc = nx(); else if (a == "--entry") O.entry = nx(); else if (a == "--out") O.out = nx(); else if (a == "--jobs") O.jobs = atoi(nx().c_str()); else if (a == "--timeout") O.timeout = atof(nx().c_str()); else if (a == "--maxinstr") O.maxinstr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--samples") O.samples = atoi(nx().c_str()); else if (a == "--trace") O.trace = true; else if (a == "--fill") O.fill = strtoul(nx().c_str(), 0, 0); else if (a == "--seed") O.seed = atoll(nx().c_str()); else if (a == "--mem") O.memMB = atof(nx().c_str()); else if (a == "--stride") O.samplestride = atoll(nx().c_str());
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); O.params[p.substr(0, e)] = atol(p.substr(e + 1).c_str()); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ULL << 30)) { rlim_t want = 1ULL << 30; if (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= want) { rl.rlim_cur = want; if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("SYMX_RE")) { setenv("SYMX_RE", "1", 1); execv("/proc/self/exe", argv); } } }
  mkdir(O.out.c_str(), 0755); T0 = now(); DEADLINE = T0 + O.timeout;
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->live = 1; SH->maxlive = O.jobs; pid_t root = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1); prctl(PR_SET_PDEATHSIG, SIGKILL);
  Exec *X = new Exec; X->setup(); double ts = now() - T0; X->loop();
  if (getpid() != root) _exit(0);
  bool crashed = false;
  while (true) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { crashed = true; SH->live--; } if (crashed) SH->stop = 1; }
  bool complete = !SH->stop && !crashed && SH->unsupported == 0 && SH->q_unknown == 0;
  std::string fn = O.out + "/summary.json"; FILE *o = fopen(fn.c_str(), "w");
  fprintf(o, "{\"complete\":%s,\"crashed\":%s,\"stopped\":%s,\"unsupported\":%llu,\"unsupported_first\":\"%s\",\"violations\":%llu,\"paths\":%llu,\"completed\":%llu,\"assumed_out\":%llu,\"exited\":%llu,\"errors\":%llu,\"forks\":%llu,\"instructions\":%llu,", complete ? "true" : "false", crashed ? "true" : "false", SH->stop ? "true" : "false", (unsigned long long)SH->unsupported, Exec::esc(SH->unsup).c_str(), (unsigned long long)SH->violations, (unsigned long long)SH->paths, (unsigned long long)SH->completed, (unsigned long long)SH->assumed_out, (unsigned long long)SH->exited, (unsigned long long)SH->errors, (unsigned long long)SH->forks, (unsigned long long)SH->instrs);
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"hard\":%llu,\"cached\":%llu,\"solver_s\":%.3f,\"slowest_query_ms\":%.1f,\"asserts\":%llu,\"asserts_solver\":%llu,\"max_inputs\":%llu,\"max_pc\":%llu,\"wall_s\":%.2f,\"setup_s\":%.2f,", (unsigned long long)SH->queries, (unsigned long long)SH->q_sat, (unsigned long long)SH->q_unsat, (unsigned long long)SH->q_unknown, (unsigned long long)SH->q_hard, (unsigned long long)SH->q_cached, SH->solver_ns * 1e-9, SH->qslow_us / 1000.0, (unsigned long long)SH->asserts_checked, (unsigned long long)SH->asserts_solver, (unsigned long long)SH->symvars_max, (unsigned long long)SH->maxpc, now() - T0, ts);
  fprintf(o, "\"reach\":{"); for (int i = 0; i < SH->nlab; i++) fprintf(o, "%s\"%s\":%llu", i ? "," : "", Exec::esc(SH->lab[i]).c_str(), (unsigned long long)SH->labcnt[i]);
  fprintf(o, "},\"messages\":["); for (int i = 0; i < SH->nmsg; i++) fprintf(o, "%s\"%s\"", i ? "," : "", Exec::esc(SH->msg[i]).c_str());
  fprintf(o, "],\"functions\":["); bool first = true; for (auto *f : X->funcs) if (f->idx < MAXFUN && SH->fcov[f->idx] && !f->F->isDeclaration()) { fprintf(o, "%s\"%s\"", first ? "" : ",", f->name.c_str()); first = false; }
  fprintf(o, "]}\n"); fclose(o);
  fflush(stdout); _exit(complete ? (SH->violations ? 1 : 0) : (SH->violations ? 1 : 4));
}
