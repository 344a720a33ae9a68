// Symbolic executor for LLVM IR produced by clang from the real sources.
#include "expr.h"
#include "poly.h"
#include "smt.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <chrono>
#include <iostream>
#include <fstream>
#include <sstream>
#include <random>
#include <sys/resource.h>
#include <csignal>
#include <thread>
#include <pthread.h>
#include <unistd.h>
#include <llvm/IR/InlineAsm.h>

using namespace llvm;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Unsupported { std::string msg; };
struct PathEnd { int kind; std::string msg; };  // 0 assume-false 1 error 2 exception
struct ForkReq { };                              // thrown when instruction must be re-executed after forking

struct Val {
  uint8_t kind = 0;  // 0 undef, 1 concrete int, 2 expr, 3 aggregate
  uint16_t w = 0;
  u128 i = 0;
  E e = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  static Val I(u128 v, unsigned w) { Val r; r.kind = 1; r.w = w; r.i = v & maskw(w); return r; }
  static Val P(uint64_t v) { return I(v, 64); }
};

struct Obj {
  uint64_t base = 0, size = 0;
  std::vector<uint8_t> bytes, init;
  std::vector<E> cell8;                                   // aligned 8-byte symbolic cells
  std::map<uint32_t, std::pair<E, uint32_t>> other;        // other cells: off -> (expr,size)
  bool ro = false, freed = false; uint8_t kind = 0;        // 0 global 1 stack 2 heap
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct Opnd { int slot = -1; Val c; };
struct IInst { Instruction* I; int dst; std::vector<Opnd> ops; };
struct FuncInfo {
  Function* F; int nslots = 0;
  std::unordered_map<const Value*, int> slot;
  std::unordered_map<const BasicBlock*, int> bbIdx;
  std::vector<std::vector<IInst>> bbs; std::vector<BasicBlock*> bbp;
  std::string dem; uint64_t instCount = 0; bool entered = false;
  bool inRepo = false; std::set<std::string> repoSubs;
};
struct Frame {
  FuncInfo* fi; int bb = 0, prev = -1; size_t pc = 0;
  std::vector<Val> regs; std::vector<uint64_t> allocas; std::vector<Val> varargs;
};
struct State {
  std::vector<Frame> st;
  std::map<uint64_t, ObjP> mem;
  std::vector<E> pc;
  std::vector<E> guards;       // denominators assumed non-zero etc.
  uint64_t nextAddr = 0;
  int forkDepth = 0;
  std::vector<std::string> trail;
  std::map<std::string, int> nameCount;
  bool undefBranch = false; bool feasUnknown = false;
  std::map<E, u128> concretized; std::map<E, bool> known;
  int undefCount = 0;
  std::set<std::string> reached;
};

struct Cex { std::string msg; std::string kind; std::map<std::string, NumVal> asg; std::string loc; bool numericOk; bool undefDep; bool feasUnknown; };

struct Options {
  std::string bc, entry, out; bool fp = false; std::vector<std::string> skip; double timeLimit = 600; int obTimeout = 20000; long maxPaths = 100000;
  int feasTimeout = 3000; bool ubInt = false; unsigned seed = 1; bool divFork = false, roundConst = false; int maxCex = 4; size_t polyCap = 60000; bool forkSelect = false; size_t polyWork = 40000000; int crossCheck = 8; long maxSteps = 8000000000L; bool verbose = false; int maxEnum = 300; int pathModels = 6;
  std::string workDir = "/tmp"; std::vector<std::string> merge;
};

struct Engine {
  Options opt; Ctx c; Smt smt; Normalizer norm, normCut; LLVMContext lctx; std::unique_ptr<Module> M; const DataLayout* DL = nullptr;
  std::unordered_map<const Function*, std::unique_ptr<FuncInfo>> fis;
  std::unordered_map<uint64_t, Function*> faddr; std::unordered_map<const Function*, uint64_t> fptr;
  std::unordered_map<const GlobalVariable*, uint64_t> gaddr;
  std::unordered_map<const Constant*, Val> ccache;
  std::vector<State> work; State* S = nullptr;
  std::mt19937_64 rng;
  // results
  long nPaths = 0, nDone = 0, nAssumed = 0, nErr = 0, nExc = 0, nUnsup = 0, nForks = 0, steps = 0;
  long obTotal = 0, obTrivial = 0, obPoly = 0, obSolver = 0, obFail = 0, obUnknown = 0, cross = 0, crossOk = 0, crossUnk = 0, crossBad = 0;
  std::map<std::string, long> obByMsg; std::map<std::string, long> obFailByMsg, obUnkByMsg;
  std::map<std::string, long> reach;
  std::vector<Cex> cexs; std::map<std::string, int> cexCount; std::set<std::string> unsupMsgs; std::set<std::string> notes; std::set<std::string> assumed; std::set<std::string> externsUsed;
  std::map<std::pair<E, uint64_t>, int> obMemo;
  bool timedOut = false; double t0;
  long divAssumed = 0, feasUnk = 0, undefBr = 0; std::set<std::string> undefLocs;
  std::vector<std::string> obSamples;

  Engine(const Options& o) : opt(o), smt(c), norm(c, o.polyCap), normCut(c, 5000), rng(o.seed) { c.fpMode = o.fp; smt.norm = &norm; smt.feasTimeoutMs = o.feasTimeout; norm.workCap = o.polyWork; normCut.cut = true; normCut.workCap = 2000000; smt.workDir = o.workDir; t0 = nowS(); }

  // ------------------------------------------------------------ values
  Val mkE(E e) {
    if (e->op == Op::BConst) return Val::I(e->val, e->width);
    if (e == c.t) return Val::I(1, 1); if (e == c.f) return Val::I(0, 1);
    Val r; r.kind = 2; r.e = e; r.w = e->sort == Sort::Bool ? 1 : e->sort == Sort::BV ? e->width : 64; return r;
  }
  E asBV(const Val& v) {
    if (v.kind == 1) return c.bv(v.i, v.w);
    if (v.kind == 2) {
      if (v.e->sort == Sort::Bool) return c.ite(v.e, c.bv(1, 1), c.bv(0, 1));
      if (v.e->sort == Sort::Real) return realToBits(v.e);
      if (v.e->sort == Sort::FP) return fpBits(v.e);
      return v.e;
    }
    if (v.kind == 0) return freshBV(v.w ? v.w : 64);
    throw Unsupported{"aggregate used as scalar"};
  }
  E fpBits(E e) { if (e->op == Op::FConst) return c.bv(e->val, 64); if (e->op == Op::FFromBits) return e->k[0]; return c.mk(Op::F2Bits, Sort::BV, 64, {e}); }
  E realToBits(E e) {
    double d; 
    if (e->op == Op::RConst) d = e->q->get_d(); else if (e->op == Op::RNan) d = NAN; else if (e->op == Op::RInf) d = e->val ? -INFINITY : INFINITY;
    else if (e->op == Op::Ite) return c.ite(e->k[0], realToBits(e->k[1]), realToBits(e->k[2]));
    else throw Unsupported{"bit-level use of a symbolic real: " + toStr(e, 3)};
    uint64_t b; memcpy(&b, &d, 8); return c.bv(b, 64);
  }
  E asBool(const Val& v) {
    if (v.kind == 1) return c.boolc(v.i & 1);
    if (v.kind == 2) { if (v.e->sort == Sort::Bool) return v.e; if (v.e->sort == Sort::BV) return c.eq(c.extract(v.e, 0, 1), c.bv(1, 1)); }
    if (v.kind == 0) return c.newVar("undef!" + std::to_string(S->undefCount++) + "b", Sort::Bool, 1, false, 0, 0, true);
    throw Unsupported{"bool expected"};
  }
  E freshBV(unsigned w) { return c.newVar("undef!" + std::to_string(S->undefCount++) + "i" + std::to_string(w), Sort::BV, w, false, 0, 0, true); }
  E freshD() { return c.newVar("undef!" + std::to_string(S->undefCount++) + "d", opt.fp ? Sort::FP : Sort::Real, 64, false, 0, 0, true); }
  E dconst(double d) { return opt.fp ? c.fconst(d) : c.rconstd(d); }
  E asD(const Val& v) {  // floating value
    if (v.kind == 2) {
      if (v.e->sort == Sort::Real || v.e->sort == Sort::FP) return v.e;
      if (v.e->sort == Sort::BV) return bitsToD(v.e, v.e->width);
    }
    if (v.kind == 1) return bitsToD(c.bv(v.i, v.w), v.w);
    if (v.kind == 0) return freshD();
    throw Unsupported{"float expected"};
  }
  E bitsToD(E b, unsigned w) {
    if (b->op == Op::BConst) {
      if (w == 32) { uint32_t u = (uint32_t)b->val; float f; memcpy(&f, &u, 4); return dconst(f); }
      uint64_t u = (uint64_t)b->val; double d; memcpy(&d, &u, 8); return dconst(d);
    }
    if (opt.fp && w == 64) { if (b->op == Op::F2Bits) return b->k[0]; return c.mk(Op::FFromBits, Sort::FP, 64, {b}); }
    if (b->op == Op::Ite) return c.ite(b->k[0], bitsToD(b->k[1], w), bitsToD(b->k[2], w));
    bool undef = b->op == Op::BVar && c.vars[b->name].isUndef;
    if (undef) return c.newVar(b->name + "d", Sort::Real, 64, false, 0, 0, true);
    throw Unsupported{"symbolic bits used as a real"};
  }
  // ------------------------------------------------------------ memory
  uint64_t alloc(uint64_t size, uint8_t kind, const std::string& name, bool zero = false) {
    auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->name = name; o->bytes.assign(size, 0); o->init.assign(size, zero ? 1 : 0);
    if (S->nextAddr == 0) S->nextAddr = 0x100000000000ull;
    o->base = S->nextAddr; S->nextAddr += ((size + 63) & ~63ull) + 128;
    S->mem[o->base] = o; return o->base;
  }
  ObjP* find(uint64_t a) { auto it = S->mem.upper_bound(a); if (it == S->mem.begin()) return nullptr; --it; if (a < it->second->base + it->second->size || (a == it->second->base + it->second->size)) return &it->second; return nullptr; }
  std::string where() {
    std::string r; int n = 0;
    for (int i = (int)S->st.size() - 1; i >= 0 && n < 6; --i, ++n) {
      auto& f = S->st[i]; std::string loc; 
      if (f.fi->bbs[f.bb].size() > 0) { size_t k = std::min(f.pc, f.fi->bbs[f.bb].size() - 1); if (auto d = f.fi->bbs[f.bb][k].I->getDebugLoc()) { loc = d->getFilename().str() + ":" + std::to_string(d.getLine()); int dep = 0; for (const DILocation* ia = d->getInlinedAt(); ia && dep < 8; ia = ia->getInlinedAt(), dep++) loc += " <~ " + ia->getFilename().str() + ":" + std::to_string(ia->getLine()); } }
      r += (n ? " < " : "") + (loc.empty() ? f.fi->dem.substr(0, 80) : loc);
    }
    return r;
  }
  Obj& access(uint64_t a, uint64_t n, bool write, uint64_t& off) {
    if (a < 4096) memError("null-pointer " + std::string(write ? "write" : "read"));
    ObjP* p = find(a);
    if (!p) memError(std::string("access to unmapped address (out of bounds) ") + (write ? "write" : "read"));
    Obj* o = p->get();
    if (o->freed) memError("use after free of " + o->name);
    off = a - o->base;
    if (off + n > o->size) memError("out-of-bounds " + std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of object " + o->name + " size " + std::to_string(o->size));
    if (write) {
      if (o->ro) memError("write to constant " + o->name);
      if (p->use_count() > 1) { *p = std::make_shared<Obj>(*o); o = p->get(); }
    }
    return *o;
  }
  [[noreturn]] void memError(const std::string& m) { if (opt.verbose) { auto& f = S->st.back(); std::string ss; raw_string_ostream os(ss); f.fi->bbs[f.bb][f.pc].I->print(os); fprintf(stderr, "MEMERR %s: %s\n", m.c_str(), ss.substr(0, 200).c_str()); } reportError("memory", m); throw PathEnd{1, m}; }
  bool hasCells(const Obj& o, uint64_t off, uint64_t n) {
    if (!o.cell8.empty()) for (uint64_t k = off / 8; k <= (off + n - 1) / 8 && k < o.cell8.size(); k++) if (o.cell8[k]) return true;
    if (!o.other.empty()) { auto it = o.other.lower_bound(off >= 16 ? off - 16 : 0); for (; it != o.other.end() && it->first < off + n; ++it) if (it->first + it->second.second > off) return true; }
    return false;
  }
  E byteOf(E e, unsigned sz, unsigned i) {
    if (e->sort == Sort::Real) {
      if (sz == 4) { if (e->op != Op::RConst) throw Unsupported{"byte access into a symbolic float"}; float f = (float)e->q->get_d(); uint32_t b; memcpy(&b, &f, 4); return c.bv(b >> (8 * i), 8); }
      e = realToBits(e);
    }
    else if (e->sort == Sort::FP) e = fpBits(e);
    else if (e->sort == Sort::Bool) e = c.zext(e, 8);
    if (8 * (i + 1) > e->width) { e = c.zext(e, 8 * sz); }
    return c.extract(e, 8 * i, 8);
  }
  E byteAt(const Obj& o, uint64_t off) {
    if (!o.cell8.empty() && o.cell8[off / 8]) return byteOf(o.cell8[off / 8], 8, off % 8);
    auto it = o.other.upper_bound(off);
    while (it != o.other.begin()) { --it; if (it->first + it->second.second > off) return byteOf(it->second.first, it->second.second, off - it->first); if (it->first + 16 < off) break; }
    if (!o.init[off]) return freshBV(8);
    return c.bv(o.bytes[off], 8);
  }
  void clearCells(Obj& o, uint64_t off, uint64_t n) {
    if (!o.cell8.empty()) for (uint64_t k = off / 8; k <= (off + n - 1) / 8 && k < o.cell8.size(); k++) if (o.cell8[k]) {
      uint64_t b = k * 8;
      if (b < off || b + 8 > off + n) { // partial overwrite: explode into bytes
        E e = o.cell8[k]; o.cell8[k] = nullptr;
        for (unsigned i = 0; i < 8; i++) if (b + i < off || b + i >= off + n) putByte(o, b + i, byteOf(e, 8, i));
      } else o.cell8[k] = nullptr;
    }
    if (!o.other.empty()) {
      auto it = o.other.lower_bound(off >= 16 ? off - 16 : 0);
      std::vector<std::pair<uint32_t, std::pair<E, uint32_t>>> hit;
      for (; it != o.other.end() && it->first < off + n; ++it) if (it->first + it->second.second > off) hit.push_back(*it);
      for (auto& h : hit) o.other.erase(h.first);
      for (auto& h : hit) for (unsigned i = 0; i < h.second.second; i++) { uint64_t b = h.first + i; if (b < off || b >= off + n) putByte(o, b, byteOf(h.second.first, h.second.second, i)); }
    }
  }
  void putByte(Obj& o, uint64_t off, E b) {
    o.init[off] = 1;
    if (b->op == Op::BConst) { o.bytes[off] = (uint8_t)b->val; return; }
    o.other[off] = {b, 1};
  }
  void storeRaw(Obj& o, uint64_t off, unsigned n, const Val& v) {
    if (hasCells(o, off, n)) clearCells(o, off, n);
    memset(&o.init[off], 1, n);
    if (v.kind == 1) { u128 x = v.i; for (unsigned i = 0; i < n; i++) o.bytes[off + i] = i < 16 ? (uint8_t)(x >> (8 * i)) : 0; return; }
    if (v.kind == 0) { memset(&o.init[off], 0, n); return; }
    E e = v.e; if (e->sort == Sort::Bool) e = c.zext(e, 8 * n);
    if (e->sort == Sort::BV && e->width < 8 * n) e = c.zext(e, 8 * n);
    if (e->op == Op::BConst) { for (unsigned i = 0; i < n; i++) o.bytes[off + i] = (uint8_t)(e->val >> (8 * i)); return; }
    if (e->op == Op::FConst) { for (unsigned i = 0; i < n; i++) o.bytes[off + i] = (uint8_t)(e->val >> (8 * i)); return; }
    if (n == 8 && off % 8 == 0) { if (o.cell8.empty()) o.cell8.assign((o.size + 7) / 8, nullptr); o.cell8[off / 8] = e; }
    else o.other[off] = {e, n};
  }
  // returns raw Val: concrete int, or expr (any sort)
  Val loadRaw(Obj& o, uint64_t off, unsigned n, bool wantFloat) {
    if (n == 8 && off % 8 == 0 && !o.cell8.empty() && o.cell8[off / 8]) return mkE(o.cell8[off / 8]);
    if (!hasCells(o, off, n)) {
      bool allInit = true, noneInit = true; for (unsigned i = 0; i < n; i++) (o.init[off + i] ? noneInit : allInit) = false;
      if (allInit) { u128 x = 0; for (unsigned i = 0; i < n && i < 16; i++) x |= (u128)o.bytes[off + i] << (8 * i); return Val::I(x, 8 * n); }
      if (noneInit) {
        Val v = wantFloat ? mkE(freshD()) : mkE(freshBV(8 * n));
        uint64_t off2; Obj& w = o.ro ? o : access(o.base + off, n, true, off2); storeRaw(w, off, n, v); return v;
      }
    } else {
      auto it = o.other.find(off); if (it != o.other.end() && it->second.second == n) return mkE(it->second.first);
    }
    E r = nullptr; for (unsigned i = 0; i < n; i++) { E b = byteAt(o, off + i); r = r ? c.concat(b, r) : b; }
    return mkE(r);
  }
  Val load(Type* t, uint64_t a) {
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); uint64_t es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(load(vt->getElementType(), a + i * es)); return r;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
      Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); auto* L = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(load(st->getElementType(i), a + L->getElementOffset(i))); return r;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(load(at->getElementType(), a + i * es)); return r;
    }
    unsigned n = DL->getTypeStoreSize(t); uint64_t off; Obj& o = access(a, n, false, off);
    bool isF = t->isFloatingPointTy();
    if (t->isX86_FP80Ty()) { auto it = o.other.find(off); if (it != o.other.end()) return mkE(it->second.first); throw Unsupported{"x86_fp80 load"}; }
    Val v = loadRaw(o, off, n, isF);
    if (isF) { if (v.kind == 2 && (v.e->sort == Sort::Real || v.e->sort == Sort::FP)) return v; return mkE(asD(v)); }
    unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
    if (v.kind == 1) return Val::I(v.i, w);
    if (v.kind == 2 && v.e->sort == Sort::FP) return mkE(fpBits(v.e));
    if (v.kind == 2 && v.e->sort == Sort::BV && v.e->width != w) return mkE(c.extract(v.e, 0, w));
    return v;
  }
  void store(Type* t, uint64_t a, const Val& v) {
    if (t->isVectorTy() || t->isStructTy() || t->isArrayTy()) {
      if (v.kind == 0) return;
      for (unsigned i = 0; i < v.agg->size(); i++) {
        Type* et; uint64_t o;
        if (auto* vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); o = i * DL->getTypeStoreSize(et); }
        else if (auto* st = dyn_cast<StructType>(t)) { et = st->getElementType(i); o = DL->getStructLayout(st)->getElementOffset(i); }
        else { et = cast<ArrayType>(t)->getElementType(); o = i * DL->getTypeAllocSize(et); }
        store(et, a + o, (*v.agg)[i]);
      }
      return;
    }
    unsigned n = DL->getTypeStoreSize(t); uint64_t off; Obj& o = access(a, n, true, off);
    if (t->isX86_FP80Ty()) { clearCells(o, off, 10); o.other[off] = {v.e, 10}; memset(&o.init[off], 1, 10); return; }
    if (t->isFloatTy()) {
      E e = asD(v);
      if (e->op == Op::FConst || (e->op == Op::RConst && mpq_class((double)(float)e->q->get_d()) == *e->q)) { float f = (float)(e->op == Op::FConst ? Ctx::fval(e) : e->q->get_d()); uint32_t b; memcpy(&b, &f, 4); storeRaw(o, off, 4, Val::I(b, 32)); return; }
      if (hasCells(o, off, 4)) clearCells(o, off, 4); memset(&o.init[off], 1, 4); o.other[off] = {e, 4}; return;
    }
    storeRaw(o, off, n, v);
  }
  void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n || d == s) return;
    uint64_t so, dd; Obj& srcRef = access(s, n, false, so);
    ObjP hold = *find(s); Obj* src = &srcRef;
    std::unique_ptr<Obj> tmp;
    ObjP* dp = find(d); if (dp && dp->get() == src) { tmp.reset(new Obj(*src)); src = tmp.get(); }
    hold = tmp ? nullptr : hold;
    Obj& dst = access(d, n, true, dd);
    if (hasCells(dst, dd, n)) clearCells(dst, dd, n);
    memcpy(&dst.bytes[dd], &src->bytes[so], n); memcpy(&dst.init[dd], &src->init[so], n);
    if (!hasCells(*src, so, n)) return;
    if (!src->cell8.empty()) for (uint64_t k = so / 8; k <= (so + n - 1) / 8 && k < src->cell8.size(); k++) if (src->cell8[k]) {
      uint64_t b = k * 8;
      if (b >= so && b + 8 <= so + n) { uint64_t t = dd + (b - so); E e = src->cell8[k]; memset(&dst.init[t], 1, 8); if (t % 8 == 0) { if (dst.cell8.empty()) dst.cell8.assign((dst.size + 7) / 8, nullptr); dst.cell8[t / 8] = e; } else dst.other[t] = {e, 8}; }
      else for (unsigned i = 0; i < 8; i++) if (b + i >= so && b + i < so + n) putByte(dst, dd + b + i - so, byteOf(src->cell8[k], 8, i));
    }
    auto it = src->other.lower_bound(so >= 16 ? so - 16 : 0);
    for (; it != src->other.end() && it->first < so + n; ++it) {
      uint64_t b = it->first; unsigned z = it->second.second; if (b + z <= so) continue;
      if (b >= so && b + z <= so + n) { uint64_t t = dd + (b - so); memset(&dst.init[t], 1, z); if (z == 8 && t % 8 == 0) { if (dst.cell8.empty()) dst.cell8.assign((dst.size + 7) / 8, nullptr); dst.cell8[t / 8] = it->second.first; } else dst.other[t] = it->second; }
      else for (unsigned i = 0; i < z; i++) if (b + i >= so && b + i < so + n) putByte(dst, dd + b + i - so, byteOf(it->second.first, z, i));
    }
  }
  std::string cstr(uint64_t a) { std::string r; for (int i = 0; i < 4000; i++) { uint64_t off; Obj& o = access(a + i, 1, false, off); Val v = loadRaw(o, off, 1, false); if (v.kind != 1) break; if (!(uint8_t)v.i) break; r += (char)v.i; } return r; }

  // ------------------------------------------------------------ constants
  Val constant(const Constant* C) {
    auto it = ccache.find(C); if (it != ccache.end()) return it->second;
    Val v = constant0(C); ccache[C] = v; return v;
  }
  Val zeroOf(Type* t) {
    if (t->isIntegerTy()) return Val::I(0, t->getIntegerBitWidth()); if (t->isPointerTy()) return Val::P(0);
    if (t->isFloatingPointTy()) return mkE(dconst(0.0));
    Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>();
    if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) r.agg->push_back(zeroOf(e));
    else if (auto* at = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(zeroOf(at->getElementType()));
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(zeroOf(vt->getElementType()));
    return r;
  }
  Val constant0(const Constant* C) {
    Type* t = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) { unsigned w = ci->getBitWidth(); u128 x = ci->getValue().extractBitsAsZExtValue(std::min(64u, w), 0); if (w > 64) x |= (u128)ci->getValue().extractBitsAsZExtValue(std::min(64u, w - 64), 64) << 64; return Val::I(x, w); }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
      if (t->isFloatTy()) return mkE(dconst(cf->getValueAPF().convertToFloat()));
      if (t->isDoubleTy()) return mkE(dconst(cf->getValueAPF().convertToDouble()));
      APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return mkE(dconst(f.convertToDouble()));
    }
    if (isa<ConstantPointerNull>(C)) return Val::P(0);
    if (isa<UndefValue>(C)) {
      if (t->isAggregateType() || t->isVectorTy()) { Val z = zeroOf(t); for (auto& x : *z.agg) if (x.kind != 3) { x.kind = 0; } return z; }
      Val v; v.kind = 0; v.w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64; return v;
    }
    if (isa<ConstantAggregateZero>(C)) return zeroOf(t);
    if (auto* f = dyn_cast<Function>(C)) return Val::P(funcAddr(const_cast<Function*>(f)));
    if (auto* g = dyn_cast<GlobalVariable>(C)) return Val::P(globalAddr(const_cast<GlobalVariable*>(g)));
    if (auto* ga = dyn_cast<GlobalAlias>(C)) return constant(ga->getAliasee());
    if (auto* ca = dyn_cast<ConstantAggregate>(C)) { Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (auto& o : ca->operands()) r.agg->push_back(constant(cast<Constant>(o))); return r; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(constant(cd->getElementAsConstant(i))); return r; }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        Val b = constant(ce->getOperand(0)); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constexpr gep"};
        return Val::P((uint64_t)b.i + off.getSExtValue());
      }
      Val a = constant(ce->getOperand(0));
      switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: { unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); return Val::I(a.i, w); }
        case Instruction::Trunc: return Val::I(a.i, t->getIntegerBitWidth());
        case Instruction::Sub: return Val::I(a.i - constant(ce->getOperand(1)).i, a.w);
        case Instruction::Add: return Val::I(a.i + constant(ce->getOperand(1)).i, a.w);
        case Instruction::ICmp: { Val b = constant(ce->getOperand(1)); bool r = ce->getPredicate() == CmpInst::ICMP_EQ ? a.i == b.i : a.i != b.i; return Val::I(r, 1); }
        default: break;
      }
      throw Unsupported{std::string("constant expression ") + ce->getOpcodeName()};
    }
    if (isa<ConstantTokenNone>(C)) return Val::P(0);
    throw Unsupported{"constant kind"};
  }
  uint64_t funcAddr(Function* f) { auto it = fptr.find(f); if (it != fptr.end()) return it->second; uint64_t a = 0x40000000ull + 16 * fptr.size(); fptr[f] = a; faddr[a] = f; return a; }
  uint64_t globalAddr(GlobalVariable* g) {
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    throw Unsupported{"global without address " + g->getName().str()};
  }
  void initGlobals() {
    for (auto& g : M->globals()) {
      uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8;
      if (!g.hasInitializer()) sz = std::max<uint64_t>(sz, 512);
      gaddr[&g] = alloc(sz, 0, g.getName().str(), true);
    }
    uint64_t zb = alloc(128, 2, "library vtable", true); for (int i = 0; i < 128; i += 8) store(Type::getInt64Ty(lctx), zb + i, Val::I(0, 64));
    for (auto& g : M->globals()) {
      if (!g.hasInitializer() && g.getName().starts_with("_ZTT")) for (uint64_t i = 0; i < 512; i += 8) store(PointerType::get(lctx, 0), gaddr[&g] + i, Val::P(zb + 64)); // sub-vtables of a library class: offsets are found at negative positions
      if (!g.hasInitializer() && g.getName().starts_with("_ZTV")) for (uint64_t i = 0; i < 512; i += 8) store(Type::getInt64Ty(lctx), gaddr[&g] + i, Val::I(0, 64));
      if (g.hasInitializer()) { if (!isa<ConstantAggregateZero>(g.getInitializer()) && !isa<UndefValue>(g.getInitializer())) { try { store(g.getValueType(), gaddr[&g], constant(g.getInitializer())); } catch (Unsupported& u) { notes.insert("global init: " + g.getName().str() + " " + u.msg); } } }
      else if (g.getName() == "__libc_single_threaded") { uint64_t off; Obj& o = access(gaddr[&g], 1, true, off); o.bytes[off] = 1; }
      if (g.isConstant()) { uint64_t off; access(gaddr[&g], 1, false, off).ro = true; }
    }
  }
  // ------------------------------------------------------------ functions
  FuncInfo* info(Function* F) {
    auto& p = fis[F]; if (p) return p.get();
    p = std::make_unique<FuncInfo>(); FuncInfo* fi = p.get(); fi->F = F; fi->dem = demangle(F->getName().str());
    if (auto* sp = F->getSubprogram()) { std::string fn = sp->getFilename().str(); fi->inRepo = fn.find("/repo/") != std::string::npos || (sp->getDirectory().str().find("/repo") == 0); }
    int n = 0; for (auto& a : F->args()) fi->slot[&a] = n++;
    for (auto& bb : *F) { fi->bbIdx[&bb] = fi->bbp.size(); fi->bbp.push_back(&bb); for (auto& I : bb) if (!I.getType()->isVoidTy()) fi->slot[&I] = n++; }
    fi->nslots = n;
    for (auto& bb : *F) {
      fi->bbs.emplace_back();
      for (auto& I : bb) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto dl = I.getDebugLoc()) if (auto* sp = dl->getScope()->getSubprogram()) { std::string fn = sp->getFilename().str(); if (fn.find("/repo/") != std::string::npos) fi->repoSubs.insert(sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())); }
        IInst ii; ii.I = &I; auto it = fi->slot.find(&I); ii.dst = it == fi->slot.end() ? -1 : it->second;
        for (auto& o : I.operands()) {
          Opnd op; Value* v = o.get();
          if (auto* C = dyn_cast<Constant>(v)) { op.slot = -1; try { op.c = constant(C); } catch (Unsupported& u) { op.slot = -2; } }
          else if (isa<BasicBlock>(v)) op.slot = -3;
          else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) op.slot = -3;
          else op.slot = fi->slot.at(v);
          ii.ops.push_back(op);
        }
        fi->bbs.back().push_back(std::move(ii));
      }
    }
    return fi;
  }
  // ------------------------------------------------------------ feasibility and forking
  bool feasible(const std::vector<E>& pc, E extra) {
    if (extra == c.f) return false; if (extra == c.t) return true;
    std::vector<E> q = smt.slice(pc, {extra}); q.push_back(extra);
    Res r = smt.check(q, opt.feasTimeout, nullptr);
    if (r == Res::Unknown) { feasUnk++; S->feasUnknown = true; return true; }
    return r == Res::Sat;
  }
  bool dependsUndef(E e) { for (uint32_t v : supportOf(c, e)) if (c.vars[c.all[v]->name].isUndef) return true; return false; }
  std::map<std::pair<const void*, E>, bool> dummy;
  bool implied(E cond) { for (E p : S->pc) if (p == cond) return true; return false; }
  // decides a boolean; forks the state when both outcomes are feasible. The other side is pushed on the work list.
  void checkTime() { if (nowS() - t0 > opt.timeLimit) { timedOut = true; throw PathEnd{3, "time limit"}; } }
  bool decide(E cond) {
    if (cond == c.t) return true; if (cond == c.f) return false;
    checkTime();
    if (cond->op == Op::And && false) return false;
    E nc = c.mkNot(cond);
    if (implied(cond)) return true; if (implied(nc)) return false;
    { auto k = S->known.find(cond); if (k != S->known.end()) return k->second; }
    if (dependsUndef(cond)) { undefBr++; S->undefBranch = true; undefLocs.insert(where()); }
    if (!opt.fp && !normalizeKnown(cond)) { }
    long fu0 = feasUnk; bool su0 = S->feasUnknown;
    bool ft = feasible(S->pc, cond); bool ftUnk = feasUnk > fu0; bool ff = !ft ? true : feasible(S->pc, nc); bool ffUnk = ff && ft && feasUnk > fu0 + ftUnk;
    // 0 < a*a+b*b+... : the side on which every summand vanishes has measure zero; when the solver cannot refute it, it is left out and reported
    if (ft && ff && cond->op == Op::RLt && isSq(cond->k[1]) && isZeroC(cond->k[0]) && ffUnk) { S->feasUnknown = su0; feasUnk = fu0; degenerate.insert(where()); notes.insert("degenerate case excluded (a squared norm that is exactly zero): " + where().substr(0, 160)); S->known[cond] = true; return true; }
    if (ft && ff && cond->op == Op::RLe && isSq(cond->k[0]) && isZeroC(cond->k[1]) && (ftUnk)) { S->feasUnknown = su0; feasUnk = fu0; degenerate.insert(where()); notes.insert("degenerate case excluded (a squared norm that is exactly zero): " + where().substr(0, 160)); S->known[cond] = false; return false; }
    if (ft && ff) {
      nForks++;
      State o = *S; o.pc.push_back(nc); o.forkDepth++;
      work.push_back(std::move(o));
      S->pc.push_back(cond); S->forkDepth++;
      return true;
    }
    S->known[cond] = ft;
    return ft;
  }
  bool normalizeKnown(E) { return true; }
  std::set<std::string> degenerate;
  static bool isZeroC(E e) { return e->op == Op::RConst && sgn(*e->q) == 0; }
  static bool isSq(E e) { if (e->op == Op::RAdd) return isSq(e->k[0]) && isSq(e->k[1]); if (e->op == Op::RMul) return e->k[0] == e->k[1]; return false; }
  // makes a value concrete by forking over all feasible values
  u128 concretize(const Val& v) {
    if (v.kind == 1) return v.i;
    E e = asBV(v); if (e->op == Op::BConst) return e->val;
    auto it = S->concretized.find(e); if (it != S->concretized.end()) return it->second;
    // enumerate
    std::vector<u128> vals; std::vector<E> base = smt.slice(S->pc, {e});
    E probe = c.newVar("probe!" + std::to_string(e->id), Sort::BV, e->width);
    std::vector<E> q = base; q.push_back(c.eq(probe, e));
    if (e->op == Op::Ite && e->k[1]->op == Op::BConst && e->k[2]->op == Op::BConst) {
      bool b = decide(e->k[0]); return b ? e->k[1]->val : e->k[2]->val;
    }
    while (true) {
      Model m; Res r = smt.check(q, std::max(opt.feasTimeout, 20000), &m);
      if (r == Res::Unsat) break;
      if (r == Res::Unknown) throw Unsupported{"could not enumerate the values of a symbolic address/size"};
      u128 x = m.v[probe->name].b; vals.push_back(x); q.push_back(c.mkNot(c.eq(probe, c.bv(x, e->width))));
      if ((int)vals.size() > opt.maxEnum) throw Unsupported{"symbolic address/size has too many values"};
    }
    if (vals.empty()) throw PathEnd{0, "infeasible"};
    std::sort(vals.begin(), vals.end());
    for (size_t i = 1; i < vals.size(); i++) { State o = *S; o.pc.push_back(c.eq(e, c.bv(vals[i], e->width))); o.concretized[e] = vals[i]; nForks++; work.push_back(std::move(o)); }
    if (vals.size() > 1) S->pc.push_back(c.eq(e, c.bv(vals[0], e->width)));
    S->concretized[e] = vals[0];
    return vals[0];
  }
  uint64_t ptr(const Val& v) { if (v.kind == 1) return (uint64_t)v.i; if (v.kind == 0) memError("use of an uninitialised pointer"); if (v.kind == 2 && dependsUndef(asBV(v))) memError("use of an uninitialised pointer"); return (uint64_t)concretize(v); }

  // ------------------------------------------------------------ obligations
  NumVal randFor(const VarInfo& vi) {
    NumVal r; double lo = vi.hasRange ? vi.lo : -3, hi = vi.hasRange ? vi.hi : 3;
    if (vi.sort == Sort::Bool) r.b = rng() & 1;
    else if (vi.sort == Sort::BV) { if (vi.hasRange) { long long l = (long long)lo, h = (long long)hi; r.b = (u128)(i128)(l + (long long)(rng() % (uint64_t)(h - l + 1))) & maskw(vi.width); } else r.b = rng() & maskw(vi.width); }
    else { double u = (rng() % 10007) / 10006.0; double cl = std::max(lo, -50.0), ch = std::min(hi, 50.0); if (cl > ch) { cl = lo; ch = hi; } r.d = cl + u * (ch - cl); }
    return r;
  }
  void normaliseUnits(std::map<std::string, NumVal>& a, const std::set<std::string>& fixed) {
    for (auto& g : c.unitGroups) {
      bool anyFixed = false; for (E v : g) if (fixed.count(v->name)) anyFixed = true;
      double n = 0; for (E v : g) n += a[v->name].d * a[v->name].d; n = std::sqrt(n);
      if (anyFixed && std::fabs(n - 1) < 1e-6) { for (E v : g) a[v->name].d /= n; continue; }
      if (n < 1e-9) { for (size_t i = 0; i < g.size(); i++) a[g[i]->name].d = i == 0; continue; }
      for (E v : g) a[v->name].d /= n;
    }
  }
  // tries to find a concrete assignment violating: pc and (a != b) or pc and !cond
  bool pcHolds(const std::map<std::string, NumVal>& a, NumEnv& memo) { for (E p : S->pc) if (!numEval(c, p, a, memo).b) return false; return true; }
  bool findWitness(const std::vector<E>& extra, E a, E b, E cond, const Model* seed, std::map<std::string, NumVal>& best, double& bestDiff) {
    Model base; bool haveBase = false;
    { std::vector<E> q = S->pc; for (E x : extra) q.push_back(x); Res r = smt.check(q, 5000, &base); haveBase = r == Res::Sat; 
      if (!haveBase && r == Res::Unknown) { // use only the constraints that are linear-ish (small)
        std::vector<E> lin; for (E x : q) if (dagSize(x) < 12) lin.push_back(x); haveBase = smt.check(lin, 3000, &base) == Res::Sat; } }
    bestDiff = 0; bool ok = false;
    for (int it = 0; it < 400; it++) {
      std::map<std::string, NumVal> asg; std::set<std::string> fixed;
      for (auto& vn : c.varOrder) asg[vn] = randFor(c.vars[vn]);
      if (haveBase) for (auto& kv : base.v) { auto& vi = c.vars[kv.first]; bool perturb = it % 3 == 1 && vi.sort == Sort::Real && rng() % 3 == 0; if (!perturb) { asg[kv.first] = kv.second; fixed.insert(kv.first); } }
      if (seed && it % 2 == 0) for (auto& kv : seed->v) { asg[kv.first] = kv.second; fixed.insert(kv.first); }
      if (!opt.fp) normaliseUnits(asg, fixed);
      NumEnv memo; if (!pcHolds(asg, memo)) continue;
      bool hold = true; for (E x : extra) if (!numEval(c, x, asg, memo).b) hold = false;
      if (!hold) continue;
      double diff;
      if (cond) diff = numEval(c, cond, asg, memo).b ? 0 : 1;
      else { double x = numEval(c, a, asg, memo).d, y = numEval(c, b, asg, memo).d; bool nx = std::isnan(x), ny = std::isnan(y); if (nx && ny) diff = 0; else if (nx != ny) diff = 1e9; else if (x == y) diff = 0; else diff = std::fabs(x - y) / (1e-3 + std::fabs(x) + std::fabs(y)); }
      if (diff > bestDiff) { bestDiff = diff; best = asg; ok = true; }
      if (cond && ok) break; if (it > 60 && bestDiff > 1e-2) break;
    }
    return ok && (cond || bestDiff > 1e-9);
  }
  void addCex(const std::string& msg, const std::string& kind, const std::map<std::string, NumVal>& asg, bool numOk, bool undefDep) {
    int& n = cexCount[kind + msg]; if (n++ >= opt.maxCex) return;
    Cex x; x.msg = msg; x.kind = kind; x.asg = asg; x.loc = where(); x.numericOk = numOk; x.undefDep = undefDep; x.feasUnknown = S->feasUnknown; cexs.push_back(x);
  }
  void completeModel(std::map<std::string, NumVal>& a, const Model& m) {
    Model base; smt.check(S->pc, 5000, &base);
    std::set<std::string> fixed;
    for (auto& vn : c.varOrder) a[vn] = randFor(c.vars[vn]);
    for (auto& kv : base.v) { a[kv.first] = kv.second; fixed.insert(kv.first); }
    for (auto& kv : m.v) { a[kv.first] = kv.second; fixed.insert(kv.first); }
    if (!opt.fp) normaliseUnits(a, fixed);
  }
  void reportError(const std::string& kind, const std::string& msg) {
    // an error on a feasible path: produce a model for replay
    obTotal++; obByMsg[kind]++; 
    Model m; Res r = smt.check(S->pc, 10000, &m, true);
    if (r == Res::Unsat) { obSolver++; return; }
    nErr++; obFail++; obFailByMsg[kind + ": " + msg]++;
    std::map<std::string, NumVal> a; completeModel(a, m); addCex(msg, kind, a, true, S->undefBranch);
  }
  static bool hasIte(E e, E& cond) {
    std::unordered_set<E> seen; std::vector<E> st{e};
    E best = nullptr;
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == Op::Ite && x->sort == Sort::Real) { if (!best || x->k[0]->id < best->id) best = x->k[0]; } for (E k : x->k) st.push_back(k); }
    cond = best; return best != nullptr;
  }
  E resolveIte(E e, E cond, bool val) {
    std::unordered_map<E, E> memo; std::vector<std::pair<E, bool>> st{{e, false}};
    std::unordered_map<E, E> m; m[cond] = c.boolc(val); return substitute(c, e, m);
  }
  // 1 proved, 0 refuted (cex added), -1 unknown
  int proveEq(E a, E b, std::vector<E> extra, const std::string& msg, int depth) {
    E d = c.rsub(a, b);
    if (a == b || (d->op == Op::RConst && *d->q == 0)) { if (depth == 0) obTrivial++; return 1; }
    if (Ctx::isSpecial(a) || Ctx::isSpecial(b)) {
      if (a->op == b->op && a->val == b->val) return 1;
      Model m; std::vector<E> q = S->pc; for (E x : extra) q.push_back(x);
      Res r = smt.check(q, opt.obTimeout, &m, true); if (r == Res::Unsat) return 1;
      std::map<std::string, NumVal> asg; completeModel(asg, m); addCex(msg, "assert", asg, r == Res::Sat, dependsUndef(d)); return 0;
    }
    bool zero = false, big = false;
    try { normCut.work = 0; zero = normCut.isZero(d); } catch (TooBig&) { }
    if (!zero) try { // cut points: subterms shared by both sides stay opaque
      auto nodes = [](E r) { std::unordered_set<E> s; std::vector<E> st{r}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!s.insert(x).second) continue; for (E k : x->k) st.push_back(k); } return s; };
      std::unordered_set<E> na = nodes(a), nb = nodes(b), cm; for (E x : na) if ((x->op == Op::RAdd || x->op == Op::RDiv) && nb.count(x) && x != a && x != b) cm.insert(x);
      if (!cm.empty()) { Normalizer nc(c, 20000); nc.workCap = 3000000; nc.common = &cm; zero = nc.isZero(d); }
    } catch (TooBig&) { }
    if (!zero) try { norm.work = 0; zero = norm.isZero(d); } catch (TooBig&) { big = true; }
    if (zero) {
      if (depth == 0) obPoly++;
      if (cross < opt.crossCheck) { // cross-check the normal form with the SMT solver on the un-normalised term
        cross++; std::vector<E> q{c.mkNot(c.mk(Op::REq, Sort::Bool, 1, {a, b}))};
        { std::unordered_set<E> sn; std::vector<E> st{a, b}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!sn.insert(x).second) continue; if (x->op == Op::RDiv) q.push_back(c.mkNot(c.mk(Op::REq, Sort::Bool, 1, {x->k[1], c.rconstd(0)}))); for (E k : x->k) st.push_back(k); } } // every division was assumed to be by a non-zero value
        Res r = smt.check(q, 2000, nullptr); if (r == Res::Unsat) crossOk++; else if (r == Res::Unknown) crossUnk++; else crossBad++;
      }
      return 1;
    }
    E cond;
    if (depth < 14 && hasIte(d, cond)) {
      int res = 1;
      for (int v = 1; v >= 0; --v) {
        E cc = v ? cond : c.mkNot(cond);
        std::vector<E> q = smt.slice(S->pc, {cc}); for (E x : extra) q.push_back(x); q.push_back(cc);
        Res r = smt.check(q, opt.feasTimeout, nullptr); if (r == Res::Unsat) continue;
        std::vector<E> ex = extra; ex.push_back(cc);
        int k = proveEq(resolveIte(a, cond, v), resolveIte(b, cond, v), ex, msg, depth + 1);
        if (k == 0) return 0; if (k < 0) res = -1;
      }
      if (res == 1 && depth == 0) obPoly++;
      return res;
    }
    // solver on the path-condition slice
    std::vector<E> q = smt.slice(S->pc, {d}); for (E x : extra) q.push_back(x);
    E ne = c.mkNot(c.mk(Op::REq, Sort::Bool, 1, {a, b}));
    std::map<std::string, NumVal> asg; double diff;
    // a quick search for a concrete witness first: sat answers on large polynomials are slow
    q.push_back(ne);
    Model m; Res r = Res::Unknown;
    bool polyNonzero = !big;
    if (polyNonzero && findWitness(extra, a, b, nullptr, nullptr, asg, diff) && diff > 1e-7) {
      // confirm with the solver at (rationalised) witness point is implied by evaluation; report for replay
      addCex(msg, "assert", asg, true, dependsUndef(d)); return 0;
    }
    r = smt.check(q, opt.obTimeout, &m, true);
    if (r == Res::Unsat) { if (depth == 0) obSolver++; return 1; }
    if (r == Res::Sat) { // prefer a model with a clear margin, so that floating-point replay can confirm it
      for (double mg : {1.0, 1e-2, 1e-4}) {
        std::vector<E> q2 = q; E g = c.rconstd(mg); q2.push_back(c.mkOr(c.rle(g, d), c.rle(d, c.rneg(g)))); Model m2;
        if (smt.check(q2, 5000, &m2) == Res::Sat) { m = m2; break; }
      }
    }
    if (r == Res::Sat && !m.v.empty()) {
      std::map<std::string, NumVal> a2; double d2;
      if (findWitness(extra, a, b, nullptr, &m, a2, d2)) { addCex(msg, "assert", a2, true, dependsUndef(d)); return 0; }
      completeModel(a2, m); addCex(msg, "assert", a2, false, dependsUndef(d)); return 0;
    }
    if (findWitness(extra, a, b, nullptr, nullptr, asg, diff) && diff > 1e-7) { addCex(msg, "assert", asg, true, dependsUndef(d)); return 0; }
    if (opt.verbose) fprintf(stderr, "UNKNOWN obligation %s : big=%d %s\n", msg.c_str(), big, toStr(d, 5).substr(0, 400).c_str());
    return -1;
  }
  void assertEq(E a, E b, const std::string& msg) {
    checkTime();
    obTotal++; obByMsg[msg]++;
    if (obSamples.size() < 3 && a != b) obSamples.push_back(msg + ": " + toStr(a, 3).substr(0, 160) + " == " + toStr(b, 3).substr(0, 160));
    if (opt.fp) { // bit-equality up to NaN payload
      E both = c.mkAnd(c.mk(Op::FIsNan, Sort::Bool, 1, {a}), c.mk(Op::FIsNan, Sort::Bool, 1, {b}));
      E cond = a == b ? c.t : c.mkOr(c.fcmp(Op::FEq, a, b), both); obTotal--; obByMsg[msg]--; assertB(cond, msg); return;
    }
    int r = proveEq(a, b, {}, msg, 0);
    if (r == 0) { obFail++; obFailByMsg[msg]++; } else if (r < 0) { obUnknown++; obUnkByMsg[msg]++; }
  }
  void assertB(E cond, const std::string& msg) {
    checkTime();
    obTotal++; obByMsg[msg]++;
    if (cond == c.t) { obTrivial++; return; }
    E nc = c.mkNot(cond);
    if (implied(cond)) { obTrivial++; return; }
    if (obSamples.size() < 3) obSamples.push_back(msg + ": " + toStr(cond, 4).substr(0, 300));
    std::vector<E> q = smt.slice(S->pc, {nc}); q.push_back(nc);
    Model m; Res r = nc == c.t ? Res::Sat : smt.check(q, opt.obTimeout, &m, true);
    if (nc == c.t) { r = smt.check(S->pc, opt.obTimeout, &m, true); }
    if (r == Res::Unsat) { obSolver++; return; }
    if (r == Res::Sat) {
      obFail++; obFailByMsg[msg]++;
      std::map<std::string, NumVal> a; completeModel(a, m);
      bool ok = true; { NumEnv memo; ok = pcHolds(a, memo) && !numEval(c, cond, a, memo).b; }
      std::map<std::string, NumVal> a2; double d2;
      if (!ok && !opt.fp && findWitness({}, nullptr, nullptr, cond, &m, a2, d2)) { a = a2; ok = true; }
      addCex(msg, "assert", a, ok, dependsUndef(cond));
      S->pc.push_back(cond); if (!feasiblePC()) throw PathEnd{0, "assert cannot hold"};
      return;
    }
    std::map<std::string, NumVal> asg; double diff;
    if (!opt.fp && findWitness({}, nullptr, nullptr, cond, nullptr, asg, diff)) { obFail++; obFailByMsg[msg]++; addCex(msg, "assert", asg, true, dependsUndef(cond)); return; }
    obUnknown++; obUnkByMsg[msg]++;
    if (opt.verbose) fprintf(stderr, "UNKNOWN assertion %s : %s\n", msg.c_str(), toStr(cond, 6).substr(0, 600).c_str());
  }
  bool feasiblePC() { if (S->pc.empty()) return true; E l = S->pc.back(); if (l == c.f) return false; std::vector<E> q = smt.slice(S->pc, {l}); return smt.check(q, opt.feasTimeout, nullptr) != Res::Unsat; }
  void addAssume(E cond) {
    if (cond == c.t) return; if (cond == c.f) throw PathEnd{0, "assume"};
    if (implied(cond)) return;
    S->pc.push_back(cond); if (!feasiblePC()) throw PathEnd{0, "assume"};
  }
  // ------------------------------------------------------------ arithmetic
  Val binop(unsigned opc, const Val& a, const Val& b, Instruction* I) {
    if (a.kind == 3 || b.kind == 3) { // vector
      Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binop(opc, (*a.agg)[i], (*b.agg)[i], I)); return r; }
    switch (opc) {
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: return mkE(farith(opc, asD(a), asD(b)));
      default: break;
    }
    unsigned w = I->getType()->getScalarSizeInBits(); if (!w) w = 64;
    // sign-bit tricks on reals travelling as integers
    if (a.kind == 2 && a.e->sort == Sort::Real && b.kind == 1) {
      if (opc == Instruction::And && b.i == 0x7fffffffffffffffull) return mkE(c.rabs(a.e));
      if (opc == Instruction::Xor && b.i == 0x8000000000000000ull) return mkE(c.rneg(a.e));
    }
    if (a.kind == 1 && b.kind == 1) {
      u128 x = a.i, y = b.i, r = 0;
      switch (opc) {
        case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
        case Instruction::UDiv: if (!y) divZero(); r = x / y; break; case Instruction::URem: if (!y) divZero(); r = x % y; break;
        case Instruction::SDiv: if (!y) divZero(); r = (u128)(sext(x, w) / sext(y, w)); break; case Instruction::SRem: if (!y) divZero(); r = (u128)(sext(x, w) % sext(y, w)); break;
        case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y >= w ? 0 : x << (unsigned)y; break; case Instruction::LShr: r = y >= w ? 0 : x >> (unsigned)y; break; case Instruction::AShr: r = (u128)(sext(x, w) >> (unsigned)std::min<u128>(y, 127)); break;
      }
      if (opt.ubInt && checkNSW(I) && concreteOverflow(opc, x, y, w)) { reportError("overflow", "signed integer overflow"); }
      return Val::I(r, w);
    }
    if (w == 1) {
      E x = asBool(a), y = asBool(b);
      switch (opc) { case Instruction::And: return mkE(c.mkAnd(x, y)); case Instruction::Or: return mkE(c.mkOr(x, y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkE(c.mkNot(c.mkIff(x, y))); case Instruction::Mul: return mkE(c.mkAnd(x, y)); default: throw Unsupported{"i1 op"}; }
    }
    E x = asBV(a), y = asBV(b); Op op;
    switch (opc) {
      case Instruction::Add: op = Op::BAdd; break; case Instruction::Sub: op = Op::BSub; break; case Instruction::Mul: op = Op::BMul; break;
      case Instruction::UDiv: op = Op::BUDiv; break; case Instruction::SDiv: op = Op::BSDiv; break; case Instruction::URem: op = Op::BURem; break; case Instruction::SRem: op = Op::BSRem; break;
      case Instruction::And: op = Op::BAnd; break; case Instruction::Or: op = Op::BOr; break; case Instruction::Xor: op = Op::BXor; break;
      case Instruction::Shl: op = Op::BShl; break; case Instruction::LShr: op = Op::BLShr; break; case Instruction::AShr: op = Op::BAShr; break;
      default: throw Unsupported{"int op"};
    }
    if (op == Op::BUDiv || op == Op::BSDiv || op == Op::BURem || op == Op::BSRem) { E z = c.eq(y, c.bv(0, w)); if (z != c.f) { if (decide(z)) divZero(); } }
    if (opt.ubInt && checkNSW(I) && (opc == Instruction::Add || opc == Instruction::Sub || opc == Instruction::Mul)) {
      unsigned ww = opc == Instruction::Mul ? 2 * w : w + 1; if (ww > 128) ww = 128;
      E wide = c.bbin(op, c.sextE(x, ww), c.sextE(y, ww)); E fits = c.eq(wide, c.sextE(c.bbin(op, x, y), ww));
      if (fits != c.t) { if (!decide(fits)) { reportError("overflow", "signed integer overflow"); throw PathEnd{1, "overflow"}; } }
    }
    return mkE(c.bbin(op, x, y));
  }
  bool checkNSW(Instruction* I) { if (auto* o = dyn_cast<OverflowingBinaryOperator>(I)) return o->hasNoSignedWrap(); return false; }
  bool concreteOverflow(unsigned opc, u128 x, u128 y, unsigned w) {
    if (w > 64) return false; i128 a = sext(x, w), b = sext(y, w), r;
    switch (opc) { case Instruction::Add: r = a + b; break; case Instruction::Sub: r = a - b; break; case Instruction::Mul: r = a * b; break; default: return false; }
    return r != sext((u128)r, w);
  }
  [[noreturn]] void divZero() { reportError("divzero", "integer division by zero"); throw PathEnd{1, "div by zero"}; }
  E farith(unsigned opc, E a, E b) {
    if (opt.fp) {
      switch (opc) { case Instruction::FAdd: return c.fbin(Op::FAdd, a, b); case Instruction::FSub: return c.fbin(Op::FSub, a, b); case Instruction::FMul: return c.fbin(Op::FMul, a, b); case Instruction::FDiv: return c.fbin(Op::FDiv, a, b); default:
        if (Ctx::isFC(a) && Ctx::isFC(b)) return c.fconst(std::fmod(Ctx::fval(a), Ctx::fval(b))); throw Unsupported{"frem"}; }
    }
    if (opt.roundConst && Ctx::isRC(a) && Ctx::isRC(b)) { // constants as in the machine: rounded to double
      double x = a->q->get_d(), y = b->q->get_d(), r; bool ok = true;
      switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; ok = y != 0; break; default: ok = false; r = 0; }
      if (ok && std::isfinite(r)) return c.rconstd(r);
    }
    switch (opc) {
      case Instruction::FAdd: return c.radd(a, b); case Instruction::FSub: return c.rsub(a, b); case Instruction::FMul: return c.rmul(a, b);
      case Instruction::FDiv: {
        if (!Ctx::isRC(b) && !Ctx::isSpecial(b)) {
          if (opt.divFork) {
            E z = c.req(b, c.rint(0));
            if (z != c.f && decide(z)) { // division by zero: IEEE semantics for the zero branch
              if (Ctx::isRC(a)) return sgn(*a->q) == 0 ? c.rnan() : c.rinf(sgn(*a->q) < 0);
              if (decide(c.req(a, c.rint(0)))) return c.rnan();
              return c.rinf(decide(c.rlt(a, c.rint(0))));
            }
          } else { divAssumed++; }
        }
        return c.rdiv(a, b); }
      default: return c.ruf("fmod", {a, b});
    }
  }
  Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.kind == 3) { Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(icmp(p, (*a.agg)[i], (*b.agg)[i])); return r; }
    if (a.kind == 1 && b.kind == 1) {
      unsigned w = a.w; i128 sa = sext(a.i, w), sb = sext(b.i, w); bool r = false;
      switch (p) { case CmpInst::ICMP_EQ: r = a.i == b.i; break; case CmpInst::ICMP_NE: r = a.i != b.i; break; case CmpInst::ICMP_ULT: r = a.i < b.i; break; case CmpInst::ICMP_ULE: r = a.i <= b.i; break; case CmpInst::ICMP_UGT: r = a.i > b.i; break; case CmpInst::ICMP_UGE: r = a.i >= b.i; break; case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break; case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; default: break; }
      return Val::I(r, 1);
    }
    // sign test of a real that travels as an integer
    if (a.kind == 2 && a.e->sort == Sort::Real && b.kind == 1) {
      if (b.i == 0 && p == CmpInst::ICMP_SLT) return mkE(c.rlt(a.e, c.rint(0)));
      if (b.i == ~0ull && p == CmpInst::ICMP_SGT) return mkE(c.rle(c.rint(0), a.e));
    }
    if (a.w == 1 || b.w == 1) {
      if ((a.kind == 1 || (a.kind == 2 && a.e->sort == Sort::Bool) || a.kind == 0) && (b.kind == 1 || (b.kind == 2 && b.e->sort == Sort::Bool))) {
        E x = asBool(a), y = asBool(b); E q = c.mkIff(x, y);
        switch (p) { case CmpInst::ICMP_EQ: return mkE(q); case CmpInst::ICMP_NE: return mkE(c.mkNot(q)); case CmpInst::ICMP_ULT: return mkE(c.mkAnd(c.mkNot(x), y)); case CmpInst::ICMP_UGT: return mkE(c.mkAnd(x, c.mkNot(y))); case CmpInst::ICMP_ULE: return mkE(c.mkOr(c.mkNot(x), y)); case CmpInst::ICMP_UGE: return mkE(c.mkOr(x, c.mkNot(y))); default: break; }
      }
    }
    E x = asBV(a), y = asBV(b);
    switch (p) {
      case CmpInst::ICMP_EQ: return mkE(c.eq(x, y)); case CmpInst::ICMP_NE: return mkE(c.mkNot(c.eq(x, y)));
      case CmpInst::ICMP_ULT: return mkE(c.bcmp(Op::BUlt, x, y)); case CmpInst::ICMP_ULE: return mkE(c.bcmp(Op::BUle, x, y)); case CmpInst::ICMP_UGT: return mkE(c.bcmp(Op::BUlt, y, x)); case CmpInst::ICMP_UGE: return mkE(c.bcmp(Op::BUle, y, x));
      case CmpInst::ICMP_SLT: return mkE(c.bcmp(Op::BSlt, x, y)); case CmpInst::ICMP_SLE: return mkE(c.bcmp(Op::BSle, x, y)); case CmpInst::ICMP_SGT: return mkE(c.bcmp(Op::BSlt, y, x)); case CmpInst::ICMP_SGE: return mkE(c.bcmp(Op::BSle, y, x));
      default: throw Unsupported{"icmp"};
    }
  }
  E isNan(E a) { if (opt.fp) { if (Ctx::isFC(a)) return c.boolc(std::isnan(Ctx::fval(a))); return c.mk(Op::FIsNan, Sort::Bool, 1, {a}); } if (a->op == Op::Ite) return c.ite(a->k[0], isNan(a->k[1]), isNan(a->k[2])); return c.boolc(a->op == Op::RNan); }
  E fcmpE(CmpInst::Predicate p, E a, E b) {
    E uno = c.mkOr(isNan(a), isNan(b));
    auto lt = [&](E x, E y) { return opt.fp ? c.fcmp(Op::FLt, x, y) : c.rlt(x, y); };
    auto le = [&](E x, E y) { return opt.fp ? c.fcmp(Op::FLe, x, y) : c.rle(x, y); };
    auto eq = [&](E x, E y) { if (opt.fp) return c.fcmp(Op::FEq, x, y); return c.req(x, y); };
    switch (p) {
      case CmpInst::FCMP_FALSE: return c.f; case CmpInst::FCMP_TRUE: return c.t;
      case CmpInst::FCMP_OEQ: return eq(a, b); case CmpInst::FCMP_UEQ: return c.mkOr(uno, eq(a, b));
      case CmpInst::FCMP_ONE: return c.mkAnd(c.mkNot(uno), c.mkNot(eq(a, b))); case CmpInst::FCMP_UNE: return c.mkNot(c.mkAnd(c.mkNot(uno), eq(a, b)));
      case CmpInst::FCMP_OLT: return lt(a, b); case CmpInst::FCMP_OLE: return le(a, b); case CmpInst::FCMP_OGT: return lt(b, a); case CmpInst::FCMP_OGE: return le(b, a);
      case CmpInst::FCMP_ULT: return c.mkOr(uno, lt(a, b)); case CmpInst::FCMP_ULE: return c.mkOr(uno, le(a, b)); case CmpInst::FCMP_UGT: return c.mkOr(uno, lt(b, a)); case CmpInst::FCMP_UGE: return c.mkOr(uno, le(b, a));
      case CmpInst::FCMP_ORD: return c.mkNot(uno); case CmpInst::FCMP_UNO: return uno;
      default: throw Unsupported{"fcmp"};
    }
  }
  // comparisons involving an Ite of specials are distributed
  Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.kind == 3) { Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(fcmp(p, (*a.agg)[i], (*b.agg)[i])); return r; }
    return mkE(fcmpE(p, asD(a), asD(b)));
  }
  Val selectV(E cond, const Val& a, const Val& b) {
    if (cond == c.t) return a; if (cond == c.f) return b;
    if (implied(cond)) return a; if (implied(c.mkNot(cond))) return b;
    { auto k = S->known.find(cond); if (k != S->known.end()) return k->second ? a : b; }
    if (a.kind == 3 && b.kind == 3) { Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(selectV(cond, (*a.agg)[i], (*b.agg)[i])); return r; }
    if (a.kind == 0) return b; if (b.kind == 0) return a;
    auto isD = [](const Val& v) { return v.kind == 2 && (v.e->sort == Sort::Real || v.e->sort == Sort::FP); };
    if (isD(a) || isD(b)) {
      E x = asD(a), y = asD(b);
      if (opt.forkSelect || (!opt.fp && (Ctx::isSpecial(x) || Ctx::isSpecial(y)) && x != y)) return decide(cond) ? mkE(x) : mkE(y);
      return mkE(c.ite(cond, x, y)); }
    if (a.w == 1) return mkE(c.ite(cond, asBool(a), asBool(b)));
    return mkE(c.ite(cond, asBV(a), asBV(b)));
  }
  E roundOp(const std::string& n, E a) {
    if (!opt.fp) return c.ruf(n, {a});
    int mode = n == "floor" ? 1 : n == "ceil" ? 2 : n == "trunc" ? 3 : n == "round" ? 4 : 0;
    if (Ctx::isFC(a)) { double x = Ctx::fval(a); return c.fconst(mode == 1 ? std::floor(x) : mode == 2 ? std::ceil(x) : mode == 3 ? std::trunc(x) : mode == 4 ? std::round(x) : std::nearbyint(x)); }
    return c.mk(Op::FRound, Sort::FP, 64, {a}, mode);
  }
  E math1(const std::string& n, E a) {
    if (opt.fp) {
      if (n == "sqrt") return c.fun1(Op::FSqrt, a);
      if (n == "fabs") return c.fun1(Op::FAbs, a);
      if (Ctx::isFC(a)) { E r = c.ruf(n, {c.rconstd(Ctx::fval(a))}); if (r->op == Op::RConst) return c.fconst(r->q->get_d()); }
      return c.mk(Op::FUF, Sort::FP, 64, {a}, 0, n);
    }
    if (n == "fabs") return c.rabs(a);
    if (opt.roundConst && n == "sqrt" && Ctx::isRC(a) && *a->q >= 0) return c.rconstd(std::sqrt(a->q->get_d()));
    return c.ruf(n, {a});
  }
  E math2(const std::string& n, E a, E b) {
    if (opt.fp) { if (Ctx::isFC(a) && Ctx::isFC(b)) { double x = Ctx::fval(a), y = Ctx::fval(b); double r = n == "pow" ? std::pow(x, y) : n == "atan2" ? std::atan2(x, y) : n == "fmod" ? std::fmod(x, y) : std::hypot(x, y); return c.fconst(r); } return c.mk(Op::FUF, Sort::FP, 64, {a, b}, 0, n); }
    if (n == "hypot") return c.ruf("sqrt", {c.radd(c.rmul(a, a), c.rmul(b, b))});
    return c.ruf(n, {a, b});
  }
  Val d2i(E d, unsigned w, bool sg) {
    if (opt.fp) { if (Ctx::isFC(d)) return Val::I(sg ? (u128)(i128)std::trunc(Ctx::fval(d)) : (u128)std::trunc(Ctx::fval(d)), w); return mkE(c.mk(sg ? Op::F2SI : Op::F2UI, Sort::BV, w, {d})); }
    if (d->op == Op::RConst) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), d->q->get_num_mpz_t(), d->q->get_den_mpz_t()); if (mpz_fits_slong_p(z.get_mpz_t())) return Val::I((u128)(i128)z.get_si(), w); return Val::I((u128)(i128)z.get_d(), w); }
    if (Ctx::isSpecial(d)) return mkE(freshBV(w));
    if (d->op == Op::Ite) { Val a = d2i(d->k[1], w, sg), b = d2i(d->k[2], w, sg); return selectV(d->k[0], a, b); }
    if (d->op == Op::RFromSI && d->k[0]->width <= w) return mkE(c.sextE(d->k[0], w));
    if (d->op == Op::RFromUI && d->k[0]->width <= w) return mkE(c.zext(d->k[0], w));
    return mkE(c.mk(sg ? Op::R2SI : Op::R2UI, Sort::BV, w, {d}));
  }
  Val i2d(const Val& v, bool sg) {
    if (v.kind == 1) { double d = sg ? (double)sext(v.i, v.w) : (double)v.i; if (opt.fp) return mkE(c.fconst(d)); i128 s = sg ? sext(v.i, v.w) : (i128)v.i; return mkE(c.rconst(mpq_class((long)s))); }
    if (v.kind == 2 && v.e->sort == Sort::Bool) { E one = dconst(sg ? -1 : 1), z = dconst(0); return mkE(c.ite(v.e, one, z)); }
    E b = asBV(v);
    if (b->op == Op::Ite && b->k[1]->op == Op::BConst && b->k[2]->op == Op::BConst) return selectV(b->k[0], i2d(mkE(b->k[1]), sg), i2d(mkE(b->k[2]), sg));
    if (opt.fp) return mkE(c.mk(sg ? Op::FFromSI : Op::FFromUI, Sort::FP, 64, {b}));
    return mkE(c.mk(sg ? Op::RFromSI : Op::RFromUI, Sort::Real, 0, {b}));
  }
  // ------------------------------------------------------------ step
  const Val& get(Frame& f, const Opnd& o) { if (o.slot >= 0) return f.regs[o.slot]; if (o.slot == -2) throw Unsupported{"constant operand"}; return o.c; }
  void jump(Frame& f, BasicBlock* bb) {
    int nb = f.fi->bbIdx[bb]; f.prev = f.bb; f.bb = nb; f.pc = 0;
    // phis
    auto& v = f.fi->bbs[nb]; size_t k = 0; std::vector<std::pair<int, Val>> up;
    BasicBlock* pb = f.fi->bbp[f.prev];
    while (k < v.size() && isa<PHINode>(v[k].I)) {
      auto* ph = cast<PHINode>(v[k].I); int ix = ph->getBasicBlockIndex(pb);
      up.push_back({v[k].dst, get(f, v[k].ops[ix])}); k++;
    }
    for (auto& u : up) f.regs[u.first] = std::move(u.second);
    f.pc = k;
  }
  void pushCall(Function* F, const std::vector<Val>& args) {
    FuncInfo* fi = info(F); fi->entered = true;
    if (S->st.size() > 400) throw Unsupported{"call depth"};
    Frame f; f.fi = fi; f.regs.resize(fi->nslots);
    size_t n = F->arg_size(); for (size_t i = 0; i < n && i < args.size(); i++) f.regs[i] = args[i];
    for (size_t i = n; i < args.size(); i++) f.varargs.push_back(args[i]);
    // byval copies
    for (size_t i = 0; i < n; i++) if (F->hasParamAttribute(i, Attribute::ByVal)) { Type* t = F->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(t); uint64_t a = alloc(sz, 1, "byval"); f.allocas.push_back(a); copyMem(a, ptr(args[i]), sz); f.regs[i] = Val::P(a); }
    S->st.push_back(std::move(f));
  }
  void popFrame(const Val* ret) {
    Frame f = std::move(S->st.back()); S->st.pop_back();
    for (uint64_t a : f.allocas) S->mem.erase(a);
    if (S->st.empty()) return;
    Frame& g = S->st.back(); IInst& ci = g.fi->bbs[g.bb][g.pc];
    if (ci.dst >= 0 && ret) g.regs[ci.dst] = *ret;
    if (auto* inv = dyn_cast<InvokeInst>(ci.I)) jump(g, inv->getNormalDest()); else g.pc++;
  }
  void finishCall(Frame& g, IInst& ci, const Val* ret) {
    if (ci.dst >= 0) { if (ret) g.regs[ci.dst] = *ret; else { Val v; v.kind = 0; g.regs[ci.dst] = v; } }
    if (auto* inv = dyn_cast<InvokeInst>(ci.I)) jump(g, inv->getNormalDest()); else g.pc++;
  }
  static bool I_isVoid(CallBase* cb) { return cb->getType()->isVoidTy(); }
  std::vector<std::map<std::string, NumVal>> pathModels; std::vector<std::vector<std::string>> pathReach;
  void endOfPath();
  void step();
  void doCall(Frame& f, IInst& ii);
  bool external(Function* F, const std::string& name, const std::string& dem, std::vector<Val>& args, CallBase* cb, Val& ret, bool& hasRet);
  void runState();
  void run();
  void writeOut();
};

static std::string jesc(const std::string& s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r; }
#include "interp.inc"
