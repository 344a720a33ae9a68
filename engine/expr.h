// Hash-consed expression DAG used by the symbolic executor.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <cassert>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Sort : uint8_t { Bool, BV, Real, FP };

enum class Op : uint8_t {
  // Bool
  True, False, BoolVar, Not, And, Or, Eq /*bool,bv*/, Iff,
  REq, RLt, RLe,
  BUlt, BUle, BSlt, BSle,
  FEq, FLt, FLe, FIsNan, FIsInf,
  // BV
  BConst, BVar, BAdd, BSub, BMul, BUDiv, BSDiv, BURem, BSRem, BAnd, BOr, BXor,
  BShl, BLShr, BAShr, BZExt, BSExt, BExtract /*aux=lo*/, BConcat /*hi,lo*/,
  R2SI /*real trunc to bv*/, R2UI, F2SI, F2UI, F2Bits,
  // any
  Ite,
  // Real
  RConst, RVar, RAdd, RMul, RDiv, RFromSI, RFromUI, RUF /*name*/, RNan, RInf /*aux: 0 +,1 -*/,
  // FP
  FConst /*aux bits*/, FVar, FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FFromSI, FFromUI, FFromBits,
  FRound /*aux mode 0 RNE 1 floor 2 ceil 3 trunc 4 RNA*/, FCast, FUF, FMin, FMax
};

struct Node;
typedef const Node* E;

struct Node {
  Op op;
  Sort sort;
  uint16_t width;   // BV width, FP width
  uint32_t id;
  uint64_t hash;
  u128 val;         // BConst value / aux
  mpq_class* q;     // RConst
  std::string name; // vars / UFs
  std::vector<E> k;
  mutable int64_t szmemo = -1;
};

struct NodeHash { size_t operator()(const Node* n) const { return n->hash; } };
struct NodeEq {
  bool operator()(const Node* a, const Node* b) const {
    return a->op == b->op && a->sort == b->sort && a->width == b->width && a->val == b->val &&
           a->k == b->k && a->name == b->name && ((a->q == nullptr) == (b->q == nullptr)) &&
           (!a->q || *a->q == *b->q);
  }
};

inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sext(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }

// The rational with the smallest denominator that rounds to the double d.
mpq_class snapRational(double d);

struct VarInfo { std::string name; Sort sort; unsigned width; double lo, hi; bool hasRange; int unitGroup = -1; int unitPos = -1; bool isUndef = false; };

class Ctx {
 public:
  std::unordered_set<const Node*, NodeHash, NodeEq> table;
  std::vector<const Node*> all;
  E t, f;
  std::map<std::string, VarInfo> vars;           // name -> info
  std::vector<std::string> varOrder;
  std::map<std::string, E> varNode;
  std::vector<std::vector<E>> unitGroups;
  bool fpMode = false;

  Ctx() { t = mk(Op::True, Sort::Bool, 1, {}); f = mk(Op::False, Sort::Bool, 1, {}); }

  E mk(Op op, Sort s, unsigned w, std::vector<E> k, u128 val = 0, const std::string& name = "", const mpq_class* q = nullptr) {
    Node tmp; tmp.op = op; tmp.sort = s; tmp.width = w; tmp.val = val; tmp.name = name; tmp.k = std::move(k);
    mpq_class qq; if (q) { qq = *q; tmp.q = &qq; } else tmp.q = nullptr;
    uint64_t h = hmix((uint64_t)op * 131 + (uint64_t)s * 7 + w, (uint64_t)val);
    h = hmix(h, (uint64_t)(val >> 64));
    for (E c : tmp.k) h = hmix(h, c->id);
    if (!name.empty()) h = hmix(h, std::hash<std::string>()(name));
    if (q) { h = hmix(h, mpz_get_ui(q->get_num_mpz_t())); h = hmix(h, mpz_get_ui(q->get_den_mpz_t())); h = hmix(h, mpz_sgn(q->get_num_mpz_t()) + 5); }
    tmp.hash = h;
    auto it = table.find(&tmp);
    if (it != table.end()) return *it;
    Node* n = new Node(tmp);
    if (q) n->q = new mpq_class(*q);
    n->id = all.size();
    all.push_back(n); table.insert(n);
    return n;
  }
  // ---- bool
  E boolc(bool b) { return b ? t : f; }
  E mkNot(E a) {
    if (a == t) return f; if (a == f) return t;
    if (a->op == Op::Not) return a->k[0];
    // push through real comparisons (no NaN in real sort unless special)
    if (a->op == Op::RLt) return mk(Op::RLe, Sort::Bool, 1, {a->k[1], a->k[0]});
    if (a->op == Op::RLe) return mk(Op::RLt, Sort::Bool, 1, {a->k[1], a->k[0]});
    if (a->op == Op::BUlt) return mk(Op::BUle, Sort::Bool, 1, {a->k[1], a->k[0]});
    if (a->op == Op::BUle) return mk(Op::BUlt, Sort::Bool, 1, {a->k[1], a->k[0]});
    if (a->op == Op::BSlt) return mk(Op::BSle, Sort::Bool, 1, {a->k[1], a->k[0]});
    if (a->op == Op::BSle) return mk(Op::BSlt, Sort::Bool, 1, {a->k[1], a->k[0]});
    return mk(Op::Not, Sort::Bool, 1, {a});
  }
  E mkAnd(E a, E b) {
    if (a == f || b == f) return f; if (a == t) return b; if (b == t) return a; if (a == b) return a;
    if (mkNot(a) == b) return f;
    if (a->id > b->id) std::swap(a, b);
    return mk(Op::And, Sort::Bool, 1, {a, b});
  }
  E mkOr(E a, E b) {
    if (a == t || b == t) return t; if (a == f) return b; if (b == f) return a; if (a == b) return a;
    if (mkNot(a) == b) return t;
    if (a->id > b->id) std::swap(a, b);
    return mk(Op::Or, Sort::Bool, 1, {a, b});
  }
  E mkIff(E a, E b) {
    if (a == b) return t; if (a == t) return b; if (b == t) return a; if (a == f) return mkNot(b); if (b == f) return mkNot(a);
    if (a->id > b->id) std::swap(a, b);
    return mk(Op::Iff, Sort::Bool, 1, {a, b});
  }
  E ite(E c, E a, E b) {
    if (c == t) return a; if (c == f) return b; if (a == b) return a;
    if (a->sort == Sort::Bool) { return mkAnd(mkOr(mkNot(c), a), mkOr(c, b)); }
    if (c->op == Op::Not) { c = c->k[0]; std::swap(a, b); }
    if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
    if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    return mk(Op::Ite, a->sort, a->width, {c, a, b});
  }
  // ---- BV
  E bv(u128 v, unsigned w) { return mk(Op::BConst, Sort::BV, w, {}, v & maskw(w)); }
  bool isC(E a) { return a->op == Op::BConst; }
  E bbin(Op op, E a, E b);
  E bcmp(Op op, E a, E b);
  E eq(E a, E b);
  E zext(E a, unsigned w) {
    if (a->sort == Sort::Bool) return ite(a, bv(1, w), bv(0, w));
    if (w == a->width) return a;
    if (isC(a)) return bv(a->val, w);
    if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
    if (a->op == Op::BZExt) return zext(a->k[0], w);
    return mk(Op::BZExt, Sort::BV, w, {a});
  }
  E sextE(E a, unsigned w) {
    if (a->sort == Sort::Bool) return ite(a, bv(~(u128)0, w), bv(0, w));
    if (w == a->width) return a;
    if (isC(a)) return bv((u128)sext(a->val, a->width), w);
    if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], sextE(a->k[1], w), sextE(a->k[2], w));
    return mk(Op::BSExt, Sort::BV, w, {a});
  }
  E extract(E a, unsigned lo, unsigned w) {
    if (w == a->width && lo == 0) return a;
    if (isC(a)) return bv(a->val >> lo, w);
    if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
    if ((a->op == Op::BZExt || a->op == Op::BSExt) && lo == 0 && w == a->k[0]->width) return a->k[0];
    if ((a->op == Op::BZExt || a->op == Op::BSExt) && lo + w <= a->k[0]->width) return extract(a->k[0], lo, w);
    if (a->op == Op::BZExt && lo >= a->k[0]->width) return bv(0, w);
    if (a->op == Op::BConcat) {
      unsigned lw = a->k[1]->width;
      if (lo + w <= lw) return extract(a->k[1], lo, w);
      if (lo >= lw) return extract(a->k[0], lo - lw, w);
    }
    if (a->op == Op::BExtract) return extract(a->k[0], lo + (unsigned)a->val, w);
    return mk(Op::BExtract, Sort::BV, w, {a}, lo);
  }
  E concat(E hi, E lo) {
    if (isC(hi) && isC(lo)) return bv((hi->val << lo->width) | lo->val, hi->width + lo->width);
    if (hi->op == Op::BExtract && lo->op == Op::BExtract && hi->k[0] == lo->k[0] && (unsigned)hi->val == (unsigned)lo->val + lo->width)
      return extract(hi->k[0], (unsigned)lo->val, hi->width + lo->width);
    if (isC(hi) && hi->val == 0) return zext(lo, hi->width + lo->width);
    return mk(Op::BConcat, Sort::BV, hi->width + lo->width, {hi, lo});
  }
  // ---- Real
  E rconst(const mpq_class& q) { return mk(Op::RConst, Sort::Real, 0, {}, 0, "", &q); }
  E rconstd(double d) {
    if (std::isnan(d)) return rnan();
    if (std::isinf(d)) return rinf(d < 0);
    static std::unordered_map<uint64_t, E> cache;
    uint64_t b; memcpy(&b, &d, 8);
    auto it = cache.find(b); if (it != cache.end()) return it->second;
    E r = rconst(snapRational(d)); cache[b] = r; return r;
  }
  E rint(long v) { return rconst(mpq_class(v)); }
  E rnan() { return mk(Op::RNan, Sort::Real, 0, {}); }
  E rinf(bool neg) { return mk(Op::RInf, Sort::Real, 0, {}, neg ? 1 : 0); }
  static bool isRC(E a) { return a->op == Op::RConst; }
  static bool isSpecial(E a) { return a->op == Op::RNan || a->op == Op::RInf; }
  E radd(E a, E b);
  E rmul(E a, E b);
  E rdiv(E a, E b);
  E rneg(E a) { if (a->op == Op::RInf) return rinf(a->val == 0); if (a->op == Op::RNan) return a; return rmul(rint(-1), a); }
  E rsub(E a, E b) { if (a == b && !isSpecial(a)) return rint(0); return radd(a, rneg(b)); }
  E rlt(E a, E b);
  E rle(E a, E b);
  E req(E a, E b);
  E ruf(const std::string& fn, std::vector<E> args);
  E rabs(E a) { if (isRC(a)) return rconst(abs(*a->q)); if (a->op == Op::RNan) return a; if (a->op == Op::RInf) return rinf(false);
    if (a->op == Op::RUF && (a->name == "sqrt" || a->name=="exp")) return a;
    return ite(rle(rint(0), a), a, rneg(a)); }
  // ---- FP
  E fconst(double d) { if (d != d) { uint64_t b = 0x7ff8000000000000ull; return mk(Op::FConst, Sort::FP, 64, {}, b); } uint64_t b; memcpy(&b, &d, 8); return mk(Op::FConst, Sort::FP, 64, {}, b); }
  static bool isFC(E a) { return a->op == Op::FConst; }
  static double fval(E a) { uint64_t b = (uint64_t)a->val; double d; memcpy(&d, &b, 8); return d; }
  E fbin(Op op, E a, E b);
  E fun1(Op op, E a);
  E fcmp(Op op, E a, E b);

  // variables
  E newVar(const std::string& base, Sort s, unsigned w, bool hasRange = false, double lo = 0, double hi = 0, bool undef = false);
  std::string sortName(const VarInfo& v) { return v.sort == Sort::Bool ? "bool" : v.sort == Sort::BV ? "bv" + std::to_string(v.width) : v.sort == Sort::Real ? "real" : "fp"; }
};

// Collects variables and UF atoms (the names) occurring in e.
const std::vector<uint32_t>& supportOf(Ctx& c, E e);
size_t dagSize(E e);

// numeric evaluation with doubles: used to choose candidate witnesses for replay
struct NumVal { double d = 0; u128 b = 0; };
typedef std::unordered_map<E, NumVal> NumEnv;
NumVal numEval(Ctx& c, E e, const std::map<std::string, NumVal>& asg, NumEnv& memo);
// symbolic differentiation wrt var node, at var = 0 (substitutes var := 0 in the result)
E diffAtZero(Ctx& c, E e, E var);
E substZero(Ctx& c, E e, E var);
E substitute(Ctx& c, E e, const std::unordered_map<E, E>& m);
std::string toStr(E e, int depth = 4);
