#include "expr.h"
#include <sstream>

mpq_class snapRational(double d) {
  mpq_class exact(d);
  if (exact.get_den() == 1) return exact;
  // Stern-Brocot / continued fraction search for the simplest rational in the rounding interval of d.
  double up = std::nextafter(d, INFINITY), dn = std::nextafter(d, -INFINITY);
  if (std::isinf(up) || std::isinf(dn)) return exact;
  mpq_class lo = (exact + mpq_class(dn)) / 2, hi = (exact + mpq_class(up)) / 2;
  bool neg = false;
  if (hi < 0) { neg = true; mpq_class t = -hi; hi = -lo; lo = t; }
  if (lo <= 0) return exact;  // interval around zero / denormals
  // simplest rational strictly between lo and hi
  std::function<mpq_class(mpq_class, mpq_class)> simp = [&](mpq_class l, mpq_class h) -> mpq_class {
    mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(), l.get_num_mpz_t(), l.get_den_mpz_t());
    if (mpq_class(fl) + 1 < h) return (mpq_class(fl) == l && false) ? mpq_class(fl) : mpq_class(fl + 1);
    // l,h share the integer part (or h == fl+1)
    mpq_class lf = l - fl, hf = h - fl;
    if (lf == 0) { // pick 1/n < hf
      mpq_class inv = 1 / hf; mpz_class n; mpz_fdiv_q(n.get_mpz_t(), inv.get_num_mpz_t(), inv.get_den_mpz_t()); n += 1;
      return mpq_class(fl) + mpq_class(mpz_class(1), n);
    }
    mpq_class r = simp(1 / hf, 1 / lf);
    return mpq_class(fl) + 1 / r;
  };
  mpq_class r = simp(lo, hi); r.canonicalize();
  // use the simple one only if it is really simple (much shorter than the dyadic)
  if (r < lo || r > hi) return exact;
  if (mpz_sizeinbase(r.get_den_mpz_t(), 2) + 8 > mpz_sizeinbase(exact.get_den_mpz_t(), 2) &&
      mpz_sizeinbase(exact.get_den_mpz_t(), 2) <= 24) return exact;
  if (neg) r = -r;
  return r;
}

static u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok) {
  ok = true;
  switch (op) {
    case Op::BAdd: return a + b; case Op::BSub: return a - b; case Op::BMul: return a * b;
    case Op::BAnd: return a & b; case Op::BOr: return a | b; case Op::BXor: return a ^ b;
    case Op::BUDiv: if (!b) { ok = false; return 0; } return a / b;
    case Op::BURem: if (!b) { ok = false; return 0; } return a % b;
    case Op::BSDiv: if (!b) { ok = false; return 0; } return (u128)(sext(a, w) / sext(b, w));
    case Op::BSRem: if (!b) { ok = false; return 0; } return (u128)(sext(a, w) % sext(b, w));
    case Op::BShl: return b >= w ? 0 : a << (unsigned)b;
    case Op::BLShr: return b >= w ? 0 : a >> (unsigned)b;
    case Op::BAShr: { i128 s = sext(a, w); return b >= w ? (u128)(s < 0 ? -1 : 0) : (u128)(s >> (unsigned)b); }
    default: ok = false; return 0;
  }
}
static bool iteConst(E a) { return a->op == Op::Ite && a->k[1]->op == Op::BConst && a->k[2]->op == Op::BConst; }

E Ctx::bbin(Op op, E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) { bool ok; u128 r = foldBin(op, a->val, b->val, w, ok); if (ok) return bv(r, w); }
  if (iteConst(a) && isC(b)) return ite(a->k[0], bbin(op, a->k[1], b), bbin(op, a->k[2], b));
  if (iteConst(b) && isC(a)) return ite(b->k[0], bbin(op, a, b->k[1]), bbin(op, a, b->k[2]));
  bool comm = op == Op::BAdd || op == Op::BMul || op == Op::BAnd || op == Op::BOr || op == Op::BXor;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);  // constant right
  if (isC(b)) {
    u128 v = b->val;
    if (v == 0) { if (op == Op::BAdd || op == Op::BSub || op == Op::BOr || op == Op::BXor || op == Op::BShl || op == Op::BLShr || op == Op::BAShr) return a; if (op == Op::BMul || op == Op::BAnd) return b; }
    if (v == 1 && (op == Op::BMul || op == Op::BUDiv || op == Op::BSDiv)) return a;
    if (v == maskw(w) && op == Op::BAnd) return a;
    if (op == Op::BSub) return bbin(Op::BAdd, a, bv(0 - v, w));
    if (op == Op::BAdd && a->op == Op::BAdd && isC(a->k[1])) return bbin(Op::BAdd, a->k[0], bv(a->k[1]->val + v, w));
  }
  if (a == b) { if (op == Op::BSub || op == Op::BXor) return bv(0, w); if (op == Op::BAnd || op == Op::BOr) return a; }
  return mk(op, Sort::BV, w, {a, b});
}
E Ctx::bcmp(Op op, E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) {
    switch (op) {
      case Op::BUlt: return boolc(a->val < b->val); case Op::BUle: return boolc(a->val <= b->val);
      case Op::BSlt: return boolc(sext(a->val, w) < sext(b->val, w)); case Op::BSle: return boolc(sext(a->val, w) <= sext(b->val, w));
      default: break;
    }
  }
  if (a == b) return boolc(op == Op::BUle || op == Op::BSle);
  if (iteConst(a) && isC(b)) return ite(a->k[0], bcmp(op, a->k[1], b), bcmp(op, a->k[2], b));
  if (iteConst(b) && isC(a)) return ite(b->k[0], bcmp(op, a, b->k[1]), bcmp(op, a, b->k[2]));
  return mk(op, Sort::Bool, 1, {a, b});
}
E Ctx::eq(E a, E b) {
  if (a == b) return t;
  if (a->sort == Sort::Bool) return mkIff(a, b);
  if (a->sort == Sort::Real) return req(a, b);
  if (isC(a) && isC(b)) return boolc(a->val == b->val);
  if (isC(a)) std::swap(a, b);
  if (iteConst(a) && isC(b)) return ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b));
  if (isC(b) && a->op == Op::BZExt) {
    if (b->val > maskw(a->k[0]->width)) return f;
    return eq(a->k[0], bv(b->val, a->k[0]->width));
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return mk(Op::Eq, Sort::Bool, 1, {a, b});
}
// ---------------------------------------------------------------- reals
E Ctx::radd(E a, E b) {
  if (a->op == Op::RNan || b->op == Op::RNan) return rnan();
  if (a->op == Op::RInf || b->op == Op::RInf) {
    if (a->op == Op::RInf && b->op == Op::RInf) return a == b ? a : rnan();
    return a->op == Op::RInf ? a : b;
  }
  if (isRC(a) && isRC(b)) return rconst(*a->q + *b->q);
  if (isRC(a) && *a->q == 0) return b;
  if (isRC(b) && *b->q == 0) return a;
  // (c*x) + (d*x)
  auto split = [&](E e, mpq_class& c) -> E { if (e->op == Op::RMul && isRC(e->k[0])) { c = *e->k[0]->q; return e->k[1]; } c = 1; return e; };
  mpq_class ca, cb; E xa = split(a, ca), xb = split(b, cb);
  if (xa == xb && !isRC(xa)) return rmul(rconst(ca + cb), xa);
  // constant first; combine constants
  if (isRC(b)) std::swap(a, b);
  if (isRC(a) && b->op == Op::RAdd && isRC(b->k[0])) return radd(rconst(*a->q + *b->k[0]->q), b->k[1]);
  if (!isRC(a) && a->id > b->id) std::swap(a, b);
  return mk(Op::RAdd, Sort::Real, 0, {a, b});
}
E Ctx::rmul(E a, E b) {
  if (a->op == Op::RNan || b->op == Op::RNan) return rnan();
  if (a->op == Op::RInf || b->op == Op::RInf) {
    E o = a->op == Op::RInf ? b : a; E i = a->op == Op::RInf ? a : b;
    if (o->op == Op::RInf) return rinf(i->val != o->val);
    if (isRC(o)) { int s = sgn(*o->q); if (s == 0) return rnan(); return s > 0 ? i : rinf(i->val == 0); }
    return rnan();  // sign unknown: conservative (recorded as NaN)
  }
  if (isRC(a) && isRC(b)) return rconst(*a->q * *b->q);
  if (isRC(b)) std::swap(a, b);
  if (isRC(a)) {
    if (*a->q == 0) return a;
    if (*a->q == 1) return b;
    if (b->op == Op::RMul && isRC(b->k[0])) return rmul(rconst(*a->q * *b->k[0]->q), b->k[1]);
    return mk(Op::RMul, Sort::Real, 0, {a, b});
  }
  // pull constants out
  mpq_class c = 1; bool had = false;
  if (a->op == Op::RMul && isRC(a->k[0])) { c *= *a->k[0]->q; a = a->k[1]; had = true; }
  if (b->op == Op::RMul && isRC(b->k[0])) { c *= *b->k[0]->q; b = b->k[1]; had = true; }
  if (had) return rmul(rconst(c), rmul(a, b));
  if (a->id > b->id) std::swap(a, b);
  return mk(Op::RMul, Sort::Real, 0, {a, b});
}
E Ctx::rdiv(E a, E b) {
  if (a->op == Op::RNan || b->op == Op::RNan) return rnan();
  if (b->op == Op::RInf) return a->op == Op::RInf ? rnan() : rint(0);
  if (isRC(b)) {
    if (*b->q == 0) {
      if (isRC(a)) { int s = sgn(*a->q); if (s == 0) return rnan(); return rinf(s < 0); }
      return rnan();
    }
    if (a->op == Op::RInf) return sgn(*b->q) > 0 ? a : rinf(a->val == 0);
    return rmul(rconst(1 / *b->q), a);
  }
  if (a->op == Op::RInf) return rnan();
  if (isRC(a) && *a->q == 0) return a;
  if (a == b) return rint(1);
  if (isRC(a) && *a->q != 1) return rmul(a, mk(Op::RDiv, Sort::Real, 0, {rint(1), b}));
  if (a->op == Op::RMul && isRC(a->k[0])) return rmul(a->k[0], rdiv(a->k[1], b));
  return mk(Op::RDiv, Sort::Real, 0, {a, b});
}
static int quickSign(E a) {  // 1: >=0 surely, 2: >0 surely, 0 unknown
  if (a->op == Op::RConst) { int s = sgn(*a->q); return s > 0 ? 2 : s == 0 ? 1 : 0; }
  if (a->op == Op::RMul) {
    if (a->k[0] == a->k[1]) return 1;
    int x = quickSign(a->k[0]), y = quickSign(a->k[1]);
    if (x && y) return (x == 2 && y == 2) ? 2 : 1;
    return 0;
  }
  if (a->op == Op::RAdd) { int x = quickSign(a->k[0]), y = quickSign(a->k[1]); if (x && y) return (x == 2 || y == 2) ? 2 : 1; return 0; }
  if (a->op == Op::RUF) { if (a->name == "exp") return 2; if (a->name == "sqrt") return 1; }
  return 0;
}
E Ctx::rlt(E a, E b) {
  if (a->op == Op::RNan || b->op == Op::RNan) return f;
  if (a->op == Op::RInf || b->op == Op::RInf) {
    if (a == b) return f;
    if (a->op == Op::RInf) return boolc(a->val == 1);
    return boolc(b->val == 0);
  }
  if (isRC(a) && isRC(b)) return boolc(*a->q < *b->q);
  if (a == b) return f;
  if (isRC(b) && *b->q <= 0 && quickSign(a) >= 1) return f;           // nonneg < nonpos
  if (isRC(a) && *a->q < 0 && quickSign(b) >= 1) return t;
  if (isRC(a) && *a->q == 0 && quickSign(b) == 2) return t;
  return mk(Op::RLt, Sort::Bool, 1, {a, b});
}
E Ctx::rle(E a, E b) {
  if (a->op == Op::RNan || b->op == Op::RNan) return f;
  if (a->op == Op::RInf || b->op == Op::RInf) {
    if (a == b) return t;
    if (a->op == Op::RInf) return boolc(a->val == 1);
    return boolc(b->val == 0);
  }
  if (isRC(a) && isRC(b)) return boolc(*a->q <= *b->q);
  if (a == b) return t;
  if (isRC(a) && *a->q <= 0 && quickSign(b) >= 1) return t;
  if (isRC(b) && *b->q < 0 && quickSign(a) >= 1) return f;
  if (isRC(b) && *b->q == 0 && quickSign(a) == 2) return f;
  return mk(Op::RLe, Sort::Bool, 1, {a, b});
}
E Ctx::req(E a, E b) {
  if (a->op == Op::RNan || b->op == Op::RNan) return f;
  if (a->op == Op::RInf || b->op == Op::RInf) return boolc(a == b);
  if (isRC(a) && isRC(b)) return boolc(*a->q == *b->q);
  if (a == b) return t;
  if (isRC(a) && sgn(*a->q) < 0 && quickSign(b)) return f;
  if (isRC(b) && sgn(*b->q) < 0 && quickSign(a)) return f;
  if (isRC(b) && *b->q == 0 && quickSign(a) == 2) return f;
  if (isRC(a) && *a->q == 0 && quickSign(b) == 2) return f;
  if (a->id > b->id) std::swap(a, b);
  return mk(Op::REq, Sort::Bool, 1, {a, b});
}
static bool perfectSqrt(const mpq_class& q, mpq_class& r) {
  if (q < 0) return false;
  mpz_class n, d;
  if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false;
  n = sqrt(q.get_num()); d = sqrt(q.get_den()); r = mpq_class(n, d); return true;
}
E Ctx::ruf(const std::string& fn, std::vector<E> a) {
  for (E x : a) if (x->op == Op::RNan) return rnan();
  bool allc = true; for (E x : a) if (!isRC(x)) allc = false;
  if (fn == "sqrt") {
    if (a[0]->op == Op::RInf) return a[0]->val ? rnan() : a[0];
    if (isRC(a[0])) { mpq_class r; if (perfectSqrt(*a[0]->q, r)) return rconst(r); if (*a[0]->q < 0) return rnan(); }
  }
  if (allc) {
    double x = a[0]->q->get_d();
    if (*a[0]->q == 0) {
      if (fn == "sin" || fn == "tan" || fn == "asin" || fn == "atan") return rint(0);
      if (fn == "cos" || fn == "exp") return rint(1);
    }
    if (fn == "acos" && *a[0]->q == 1) return rint(0);
    if (fn == "log" && *a[0]->q == 1) return rint(0);
    if (fn == "floor" || fn == "ceil" || fn == "trunc" || fn == "rint" || fn == "round") {
      mpz_class z;
      if (fn == "floor") mpz_fdiv_q(z.get_mpz_t(), a[0]->q->get_num_mpz_t(), a[0]->q->get_den_mpz_t());
      else if (fn == "ceil") mpz_cdiv_q(z.get_mpz_t(), a[0]->q->get_num_mpz_t(), a[0]->q->get_den_mpz_t());
      else if (fn == "trunc") mpz_tdiv_q(z.get_mpz_t(), a[0]->q->get_num_mpz_t(), a[0]->q->get_den_mpz_t());
      else { double d = fn == "rint" ? std::nearbyint(x) : std::round(x); z = d; }
      return rconst(mpq_class(z));
    }
    if (fn == "atan2" && *a[0]->q == 0 && *a[1]->q > 0) return rint(0);
    if (fn == "fmod" && *a[1]->q != 0) {
      mpq_class d = *a[0]->q / *a[1]->q; mpz_class z; mpz_tdiv_q(z.get_mpz_t(), d.get_num_mpz_t(), d.get_den_mpz_t());
      return rconst(*a[0]->q - mpq_class(z) * *a[1]->q);
    }
    // constants of transcendental functions: keep as exact dyadic of the libm value
    double y = a.size() > 1 ? a[1]->q->get_d() : 0; double r; bool have = true;
    if (fn == "sin") r = std::sin(x); else if (fn == "cos") r = std::cos(x); else if (fn == "tan") r = std::tan(x);
    else if (fn == "asin") r = std::asin(x); else if (fn == "acos") r = std::acos(x); else if (fn == "atan") r = std::atan(x);
    else if (fn == "atan2") r = std::atan2(x, y); else if (fn == "exp") r = std::exp(x); else if (fn == "log") r = std::log(x);
    else if (fn == "pow") r = std::pow(x, y); else have = false;
    if (have) return rconstd(r);
  }
  if (fn == "pow" && isRC(a[1]) && a[1]->q->get_den() == 2 && *a[1]->q > 0 && *a[1]->q <= 8) {  // x^(n/2), x >= 0
    long n = a[1]->q->get_num().get_si(); E r = ruf("sqrt", {a[0]}); for (long i = 0; i < n / 2; i++) r = rmul(r, a[0]); return r;
  }
  if (fn == "pow" && isRC(a[1]) && a[1]->q->get_den() == 1 && *a[1]->q >= 0 && *a[1]->q <= 8) {
    long n = a[1]->q->get_num().get_si(); E r = rint(1); for (long i = 0; i < n; i++) r = rmul(r, a[0]); return r;
  }
  return mk(Op::RUF, Sort::Real, 0, a, 0, fn);
}
// ---------------------------------------------------------------- FP
E Ctx::fbin(Op op, E a, E b) {
  if (isFC(a) && isFC(b)) {
    double x = fval(a), y = fval(b);
    switch (op) { case Op::FAdd: return fconst(x + y); case Op::FSub: return fconst(x - y); case Op::FMul: return fconst(x * y); case Op::FDiv: return fconst(x / y);
      case Op::FMin: return fconst(std::fmin(x, y)); case Op::FMax: return fconst(std::fmax(x, y)); default: break; }
  }
  if (op == Op::FMul && isFC(b) && fval(b) == 1.0) return a;
  if (op == Op::FMul && isFC(a) && fval(a) == 1.0) return b;
  if (op == Op::FDiv && isFC(b) && fval(b) == 1.0) return a;
  if ((op == Op::FAdd || op == Op::FMul) && a->id > b->id) std::swap(a, b);
  return mk(op, Sort::FP, 64, {a, b});
}
E Ctx::fun1(Op op, E a) {
  if (isFC(a)) {
    double x = fval(a);
    switch (op) { case Op::FNeg: return fconst(-x); case Op::FAbs: return fconst(std::fabs(x)); case Op::FSqrt: return fconst(std::sqrt(x)); default: break; }
  }
  if (op == Op::FNeg && a->op == Op::FNeg) return a->k[0];
  if (op == Op::FAbs && a->op == Op::FAbs) return a;
  if (op == Op::FAbs && a->op == Op::FNeg) return fun1(Op::FAbs, a->k[0]);
  return mk(op, Sort::FP, 64, {a});
}
E Ctx::fcmp(Op op, E a, E b) {
  if (isFC(a) && isFC(b)) {
    double x = fval(a), y = fval(b);
    switch (op) { case Op::FEq: return boolc(x == y); case Op::FLt: return boolc(x < y); case Op::FLe: return boolc(x <= y); default: break; }
  }
  if (a == b && op == Op::FLt) return f;
  return mk(op, Sort::Bool, 1, {a, b});
}

E Ctx::newVar(const std::string& base, Sort s, unsigned w, bool hasRange, double lo, double hi, bool undef) {
  std::string n = base;
  auto it = varNode.find(n);
  if (it != varNode.end() && it->second->sort == s && (s != Sort::BV || it->second->width == w)) return it->second;
  VarInfo vi; vi.name = n; vi.sort = s; vi.width = w; vi.hasRange = hasRange; vi.lo = lo; vi.hi = hi; vi.isUndef = undef;
  Op op = s == Sort::Bool ? Op::BoolVar : s == Sort::BV ? Op::BVar : s == Sort::Real ? Op::RVar : Op::FVar;
  E e = mk(op, s, s == Sort::BV ? w : s == Sort::FP ? 64 : s == Sort::Bool ? 1 : 0, {}, 0, n);
  vars[n] = vi; varNode[n] = e; varOrder.push_back(n);
  return e;
}

static std::unordered_map<E, std::vector<uint32_t>>& supMemo() { static std::unordered_map<E, std::vector<uint32_t>> m; return m; }
const std::vector<uint32_t>& supportOf(Ctx& c, E e) {
  auto& m = supMemo();
  auto it = m.find(e);
  if (it != m.end()) return it->second;
  std::unordered_set<E> seen; std::vector<E> st{e}; std::vector<uint32_t> out;
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->op == Op::RVar || x->op == Op::BVar || x->op == Op::FVar || x->op == Op::BoolVar) out.push_back(x->id);
    for (E k : x->k) st.push_back(k);
  }
  std::sort(out.begin(), out.end());
  return m.emplace(e, std::move(out)).first->second;
}
size_t dagSize(E e) {
  if (e->szmemo >= 0) return e->szmemo;
  std::unordered_set<E> seen; std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; for (E k : x->k) st.push_back(k); }
  e->szmemo = seen.size();
  return seen.size();
}

NumVal numEval(Ctx& c, E root, const std::map<std::string, NumVal>& asg, NumEnv& memo) {
  std::vector<std::pair<E, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [e, vis] = st.back(); st.pop_back();
    if (memo.count(e)) continue;
    if (!vis) { st.push_back({e, true}); for (E k : e->k) if (!memo.count(k)) st.push_back({k, false}); continue; }
    NumVal r; auto K = [&](int i) -> NumVal& { return memo[e->k[i]]; };
    unsigned w = e->width;
    switch (e->op) {
      case Op::True: r.b = 1; break; case Op::False: r.b = 0; break;
      case Op::BoolVar: case Op::BVar: case Op::RVar: case Op::FVar: { auto it = asg.find(e->name); if (it != asg.end()) r = it->second; break; }
      case Op::Not: r.b = !K(0).b; break; case Op::And: r.b = K(0).b && K(1).b; break; case Op::Or: r.b = K(0).b || K(1).b; break;
      case Op::Iff: r.b = (!!K(0).b) == (!!K(1).b); break; case Op::Eq: r.b = K(0).b == K(1).b; break;
      case Op::REq: r.b = K(0).d == K(1).d; break; case Op::RLt: r.b = K(0).d < K(1).d; break; case Op::RLe: r.b = K(0).d <= K(1).d; break;
      case Op::BUlt: r.b = K(0).b < K(1).b; break; case Op::BUle: r.b = K(0).b <= K(1).b; break;
      case Op::BSlt: r.b = sext(K(0).b, e->k[0]->width) < sext(K(1).b, e->k[0]->width); break;
      case Op::BSle: r.b = sext(K(0).b, e->k[0]->width) <= sext(K(1).b, e->k[0]->width); break;
      case Op::FEq: r.b = K(0).d == K(1).d; break; case Op::FLt: r.b = K(0).d < K(1).d; break; case Op::FLe: r.b = K(0).d <= K(1).d; break;
      case Op::FIsNan: r.b = std::isnan(K(0).d); break; case Op::FIsInf: r.b = std::isinf(K(0).d); break;
      case Op::BConst: r.b = e->val; break;
      case Op::BAdd: case Op::BSub: case Op::BMul: case Op::BUDiv: case Op::BSDiv: case Op::BURem: case Op::BSRem: case Op::BAnd: case Op::BOr: case Op::BXor: case Op::BShl: case Op::BLShr: case Op::BAShr: {
        bool ok; r.b = foldBin(e->op, K(0).b, K(1).b, w, ok) & maskw(w); break; }
      case Op::BZExt: r.b = K(0).b; break; case Op::BSExt: r.b = (u128)sext(K(0).b, e->k[0]->width) & maskw(w); break;
      case Op::BExtract: r.b = (K(0).b >> (unsigned)e->val) & maskw(w); break;
      case Op::BConcat: r.b = (K(0).b << e->k[1]->width) | K(1).b; break;
      case Op::R2SI: case Op::F2SI: r.b = (u128)(i128)std::trunc(K(0).d) & maskw(w); break;
      case Op::R2UI: case Op::F2UI: r.b = (u128)std::trunc(K(0).d) & maskw(w); break;
      case Op::F2Bits: { uint64_t b; memcpy(&b, &K(0).d, 8); r.b = b; break; }
      case Op::Ite: r = K(0).b ? K(1) : K(2); break;
      case Op::RConst: r.d = e->q->get_d(); break;
      case Op::RAdd: case Op::FAdd: r.d = K(0).d + K(1).d; break; case Op::FSub: r.d = K(0).d - K(1).d; break;
      case Op::RMul: case Op::FMul: r.d = K(0).d * K(1).d; break;
      case Op::RDiv: case Op::FDiv: r.d = K(0).d / K(1).d; break;
      case Op::RFromSI: case Op::FFromSI: r.d = (double)sext(K(0).b, e->k[0]->width); break;
      case Op::RFromUI: case Op::FFromUI: r.d = (double)K(0).b; break;
      case Op::RNan: r.d = NAN; break; case Op::RInf: r.d = e->val ? -INFINITY : INFINITY; break;
      case Op::RUF: case Op::FUF: {
        double x = K(0).d, y = e->k.size() > 1 ? K(1).d : 0; const std::string& n = e->name;
        if (n == "sqrt") r.d = std::sqrt(x); else if (n == "sin") r.d = std::sin(x); else if (n == "cos") r.d = std::cos(x); else if (n == "tan") r.d = std::tan(x);
        else if (n == "asin") r.d = std::asin(x); else if (n == "acos") r.d = std::acos(x); else if (n == "atan") r.d = std::atan(x); else if (n == "atan2") r.d = std::atan2(x, y);
        else if (n == "exp") r.d = std::exp(x); else if (n == "log") r.d = std::log(x); else if (n == "pow") r.d = std::pow(x, y); else if (n == "floor") r.d = std::floor(x);
        else if (n == "ceil") r.d = std::ceil(x); else if (n == "trunc") r.d = std::trunc(x); else if (n == "rint") r.d = std::nearbyint(x); else if (n == "round") r.d = std::round(x);
        else if (n == "fmod") r.d = std::fmod(x, y); else if (n == "sinh") r.d = std::sinh(x); else if (n == "cosh") r.d = std::cosh(x); else r.d = NAN;
        break; }
      case Op::FConst: r.d = Ctx::fval(e); break;
      case Op::FNeg: r.d = -K(0).d; break; case Op::FAbs: r.d = std::fabs(K(0).d); break; case Op::FSqrt: r.d = std::sqrt(K(0).d); break;
      case Op::FFromBits: { uint64_t b = (uint64_t)K(0).b; memcpy(&r.d, &b, 8); break; }
      case Op::FRound: r.d = e->val == 0 ? std::nearbyint(K(0).d) : e->val == 1 ? std::floor(K(0).d) : e->val == 2 ? std::ceil(K(0).d) : e->val == 3 ? std::trunc(K(0).d) : std::round(K(0).d); break;
      case Op::FCast: r.d = K(0).d; break;
      case Op::FMin: r.d = std::fmin(K(0).d, K(1).d); break; case Op::FMax: r.d = std::fmax(K(0).d, K(1).d); break;
    }
    memo[e] = r;
  }
  return memo[root];
}

static E rebuild(Ctx& c, E e, const std::vector<E>& k) {
  switch (e->op) {
    case Op::Not: return c.mkNot(k[0]); case Op::And: return c.mkAnd(k[0], k[1]); case Op::Or: return c.mkOr(k[0], k[1]); case Op::Iff: return c.mkIff(k[0], k[1]);
    case Op::Eq: return c.eq(k[0], k[1]); case Op::REq: return c.req(k[0], k[1]); case Op::RLt: return c.rlt(k[0], k[1]); case Op::RLe: return c.rle(k[0], k[1]);
    case Op::BUlt: case Op::BUle: case Op::BSlt: case Op::BSle: return c.bcmp(e->op, k[0], k[1]);
    case Op::Ite: return c.ite(k[0], k[1], k[2]);
    case Op::RAdd: return c.radd(k[0], k[1]); case Op::RMul: return c.rmul(k[0], k[1]); case Op::RDiv: return c.rdiv(k[0], k[1]);
    case Op::RUF: return c.ruf(e->name, k);
    case Op::BAdd: case Op::BSub: case Op::BMul: case Op::BUDiv: case Op::BSDiv: case Op::BURem: case Op::BSRem: case Op::BAnd: case Op::BOr: case Op::BXor: case Op::BShl: case Op::BLShr: case Op::BAShr: return c.bbin(e->op, k[0], k[1]);
    case Op::BZExt: return c.zext(k[0], e->width); case Op::BSExt: return c.sextE(k[0], e->width); case Op::BExtract: return c.extract(k[0], (unsigned)e->val, e->width); case Op::BConcat: return c.concat(k[0], k[1]);
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FMin: case Op::FMax: return c.fbin(e->op, k[0], k[1]);
    case Op::FNeg: case Op::FAbs: case Op::FSqrt: return c.fun1(e->op, k[0]);
    case Op::FEq: case Op::FLt: case Op::FLe: return c.fcmp(e->op, k[0], k[1]);
    default: return c.mk(e->op, e->sort, e->width, k, e->val, e->name, e->q);
  }
}
E substitute(Ctx& c, E root, const std::unordered_map<E, E>& m) {
  std::unordered_map<E, E> memo;
  std::vector<std::pair<E, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [e, vis] = st.back(); st.pop_back();
    if (memo.count(e)) continue;
    auto f = m.find(e); if (f != m.end()) { memo[e] = f->second; continue; }
    if (e->k.empty()) { memo[e] = e; continue; }
    if (!vis) { st.push_back({e, true}); for (E k : e->k) if (!memo.count(k)) st.push_back({k, false}); continue; }
    std::vector<E> k; bool ch = false; for (E x : e->k) { E y = memo[x]; k.push_back(y); ch |= y != x; }
    memo[e] = ch ? rebuild(c, e, k) : e;
  }
  return memo[root];
}
E substZero(Ctx& c, E e, E var) { std::unordered_map<E, E> m; m[var] = c.rint(0); return substitute(c, e, m); }

E diffAtZero(Ctx& c, E root, E var) {
  // Pairs (value at 0, derivative at 0) computed bottom-up (forward-mode AD on the DAG).
  struct VD { E v, d; };
  std::unordered_map<E, VD> memo;
  std::vector<std::pair<E, bool>> st{{root, false}};
  E Z = c.rint(0), one = c.rint(1);
  while (!st.empty()) {
    auto [e, vis] = st.back(); st.pop_back();
    if (memo.count(e)) continue;
    if (e == var) { memo[e] = {Z, one}; continue; }
    if (e->k.empty()) { memo[e] = {e, Z}; continue; }
    if (!vis) { st.push_back({e, true}); for (E k : e->k) if (!memo.count(k)) st.push_back({k, false}); continue; }
    std::vector<E> kv; bool anyd = false, ch = false;
    for (E x : e->k) { auto& p = memo[x]; kv.push_back(p.v); anyd |= p.d != Z; ch |= p.v != x; }
    E v = ch ? rebuild(c, e, kv) : e; E d = Z;
    if (anyd && e->sort == Sort::Real) {
      auto D = [&](int i) { return memo[e->k[i]].d; };
      switch (e->op) {
        case Op::RAdd: d = c.radd(D(0), D(1)); break;
        case Op::RMul: d = c.radd(c.rmul(D(0), kv[1]), c.rmul(kv[0], D(1))); break;
        case Op::RDiv: d = c.rdiv(c.rsub(D(0), c.rmul(v, D(1))), kv[1]); break;
        case Op::Ite: d = c.ite(kv[0], D(1), D(2)); break;
        case Op::RUF: {
          const std::string& n = e->name; E x = kv[0];
          if (n == "sqrt") d = c.rdiv(D(0), c.rmul(c.rint(2), v));
          else if (n == "sin") d = c.rmul(D(0), c.ruf("cos", {x}));
          else if (n == "cos") d = c.rneg(c.rmul(D(0), c.ruf("sin", {x})));
          else if (n == "tan") d = c.rmul(D(0), c.radd(one, c.rmul(v, v)));
          else if (n == "asin") d = c.rdiv(D(0), c.ruf("sqrt", {c.rsub(one, c.rmul(x, x))}));
          else if (n == "acos") d = c.rneg(c.rdiv(D(0), c.ruf("sqrt", {c.rsub(one, c.rmul(x, x))})));
          else if (n == "atan") d = c.rdiv(D(0), c.radd(one, c.rmul(x, x)));
          else if (n == "atan2") { E y = x, xx = kv[1]; d = c.rdiv(c.rsub(c.rmul(xx, D(0)), c.rmul(y, D(1))), c.radd(c.rmul(xx, xx), c.rmul(y, y))); }
          else if (n == "exp") d = c.rmul(D(0), v);
          else if (n == "log") d = c.rdiv(D(0), x);
          else d = c.rnan();
          break; }
        default: d = c.rnan();
      }
    }
    memo[e] = {v, d};
  }
  return memo[root].d;
}

std::string toStr(E e, int depth) {
  static const char* names[] = {"true","false","b","not","and","or","=","iff","=","<","<=","u<","u<=","s<","s<=","f=","f<","f<=","isnan","isinf","bv","bvar","+","-","*","u/","s/","u%","s%","&","|","^","shl","lshr","ashr","zext","sext","extract","concat","r2si","r2ui","f2si","f2ui","f2bits","ite","rc","rv","+","*","/","si2r","ui2r","uf","nan","inf","fc","fv","f+","f-","f*","f/","fneg","fabs","fsqrt","si2f","ui2f","bits2f","fround","fcast","fuf","fmin","fmax"};
  std::ostringstream o;
  if (e->op == Op::RConst) { o << e->q->get_str(); if (o.str().size() > 24) { std::ostringstream p; p << "~" << e->q->get_d(); return p.str(); } return o.str(); }
  if (e->op == Op::BConst) { o << (long long)sext(e->val, e->width); return o.str(); }
  if (e->op == Op::FConst) { o << Ctx::fval(e); return o.str(); }
  if (!e->name.empty() && e->k.empty()) return e->name;
  if (depth == 0) return "#" + std::to_string(e->id);
  o << "(" << (e->name.empty() ? names[(int)e->op] : e->name);
  for (E k : e->k) o << " " << toStr(k, depth - 1);
  o << ")";
  return o.str();
}
