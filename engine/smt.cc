#include "smt.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <iostream>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <poll.h>
#include <sys/wait.h>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void errh(Z3_context c, Z3_error_code e) { if (getenv("SYM_Z3ERR")) fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

Smt::Smt(Ctx& cc) : c(cc) {
  Z3_config cfg = Z3_mk_config();
  z = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(z, errh);
  realS = Z3_mk_real_sort(z); boolS = Z3_mk_bool_sort(z); fpS = Z3_mk_fpa_sort_64(z); rne = Z3_mk_fpa_rne(z); rm0 = Z3_get_sort(z, rne);
}
Z3_ast Smt::T(E root) {
  auto it0 = tr.find(root); if (it0 != tr.end()) return it0->second;
  std::vector<std::pair<E, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [e, vis] = st.back(); st.pop_back();
    if (tr.count(e)) continue;
    if (!vis) { st.push_back({e, true}); for (E k : e->k) if (!tr.count(k)) st.push_back({k, false}); continue; }
    Z3_ast a = trNode(e);
    Z3_inc_ref(z, a);
    tr[e] = a;
  }
  return tr[root];
}
Z3_ast Smt::trNode(E e) {
  auto K = [&](int i) { return tr[e->k[i]]; };
  Z3_ast a2[2];
  auto two = [&]() { a2[0] = K(0); a2[1] = K(1); return a2; };
  switch (e->op) {
    case Op::True: return Z3_mk_true(z); case Op::False: return Z3_mk_false(z);
    case Op::BoolVar: return Z3_mk_const(z, Z3_mk_string_symbol(z, e->name.c_str()), boolS);
    case Op::BVar: return Z3_mk_const(z, Z3_mk_string_symbol(z, e->name.c_str()), bvS(e->width));
    case Op::RVar: return Z3_mk_const(z, Z3_mk_string_symbol(z, e->name.c_str()), realS);
    case Op::FVar: return Z3_mk_const(z, Z3_mk_string_symbol(z, e->name.c_str()), fpS);
    case Op::Not: return Z3_mk_not(z, K(0));
    case Op::And: return Z3_mk_and(z, 2, two()); case Op::Or: return Z3_mk_or(z, 2, two());
    case Op::Iff: return Z3_mk_iff(z, K(0), K(1));
    case Op::Eq: case Op::REq: return Z3_mk_eq(z, K(0), K(1));
    case Op::RLt: return Z3_mk_lt(z, K(0), K(1)); case Op::RLe: return Z3_mk_le(z, K(0), K(1));
    case Op::BUlt: return Z3_mk_bvult(z, K(0), K(1)); case Op::BUle: return Z3_mk_bvule(z, K(0), K(1));
    case Op::BSlt: return Z3_mk_bvslt(z, K(0), K(1)); case Op::BSle: return Z3_mk_bvsle(z, K(0), K(1));
    case Op::FEq: return Z3_mk_fpa_eq(z, K(0), K(1)); case Op::FLt: return Z3_mk_fpa_lt(z, K(0), K(1)); case Op::FLe: return Z3_mk_fpa_leq(z, K(0), K(1));
    case Op::FIsNan: return Z3_mk_fpa_is_nan(z, K(0)); case Op::FIsInf: return Z3_mk_fpa_is_infinite(z, K(0));
    case Op::BConst: {
      if (e->width <= 64) return Z3_mk_unsigned_int64(z, (uint64_t)e->val, bvS(e->width));
      Z3_ast hi = Z3_mk_unsigned_int64(z, (uint64_t)(e->val >> 64), bvS(e->width - 64)), lo = Z3_mk_unsigned_int64(z, (uint64_t)e->val, bvS(64));
      return Z3_mk_concat(z, hi, lo); }
    case Op::BAdd: return Z3_mk_bvadd(z, K(0), K(1)); case Op::BSub: return Z3_mk_bvsub(z, K(0), K(1)); case Op::BMul: return Z3_mk_bvmul(z, K(0), K(1));
    case Op::BUDiv: return Z3_mk_bvudiv(z, K(0), K(1)); case Op::BSDiv: return Z3_mk_bvsdiv(z, K(0), K(1)); case Op::BURem: return Z3_mk_bvurem(z, K(0), K(1)); case Op::BSRem: return Z3_mk_bvsrem(z, K(0), K(1));
    case Op::BAnd: return Z3_mk_bvand(z, K(0), K(1)); case Op::BOr: return Z3_mk_bvor(z, K(0), K(1)); case Op::BXor: return Z3_mk_bvxor(z, K(0), K(1));
    case Op::BShl: return Z3_mk_bvshl(z, K(0), K(1)); case Op::BLShr: return Z3_mk_bvlshr(z, K(0), K(1)); case Op::BAShr: return Z3_mk_bvashr(z, K(0), K(1));
    case Op::BZExt: return Z3_mk_zero_ext(z, e->width - e->k[0]->width, K(0)); case Op::BSExt: return Z3_mk_sign_ext(z, e->width - e->k[0]->width, K(0));
    case Op::BExtract: return Z3_mk_extract(z, (unsigned)e->val + e->width - 1, (unsigned)e->val, K(0)); case Op::BConcat: return Z3_mk_concat(z, K(0), K(1));
    case Op::R2SI: case Op::R2UI: {
      // truncate toward zero
      Z3_ast zero = Z3_mk_real(z, 0, 1); Z3_ast x = K(0);
      Z3_ast fl = Z3_mk_real2int(z, x); Z3_ast nx = Z3_mk_unary_minus(z, x); Z3_ast c2 = Z3_mk_unary_minus(z, Z3_mk_real2int(z, nx));
      return Z3_mk_int2bv(z, e->width, Z3_mk_ite(z, Z3_mk_ge(z, x, zero), fl, c2)); }
    case Op::F2SI: return Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), K(0), e->width); case Op::F2UI: return Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), K(0), e->width);
    case Op::F2Bits: return Z3_mk_fpa_to_ieee_bv(z, K(0));
    case Op::Ite: return Z3_mk_ite(z, K(0), K(1), K(2));
    case Op::RConst: return Z3_mk_numeral(z, e->q->get_str().c_str(), realS);
    case Op::RAdd: return Z3_mk_add(z, 2, two()); case Op::RMul: return Z3_mk_mul(z, 2, two()); case Op::RDiv: return Z3_mk_div(z, K(0), K(1));
    case Op::RFromSI: return Z3_mk_int2real(z, Z3_mk_bv2int(z, K(0), true)); case Op::RFromUI: return Z3_mk_int2real(z, Z3_mk_bv2int(z, K(0), false));
    case Op::RNan: case Op::RInf: { std::string n = "special!" + std::to_string(e->id); return Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), realS); }
    case Op::RUF: {
      Z3_ast zero = Z3_mk_real(z, 0, 1), one = Z3_mk_real(z, 1, 1);
      std::string n = e->name;
      if (n == "floor") return Z3_mk_int2real(z, Z3_mk_real2int(z, K(0)));
      if (n == "ceil") return Z3_mk_unary_minus(z, Z3_mk_int2real(z, Z3_mk_real2int(z, Z3_mk_unary_minus(z, K(0)))));
      std::string key;
      try { key = "uf!" + n; Normalizer nn(c, 2000); nn.workCap = 200000; if (norm) { for (E k : e->k) key += "!" + norm->key(k); } else key += std::to_string(e->id); } catch (TooBig&) { key = "uf!" + n + "#" + std::to_string(e->id); }
      if (key.size() > 200) { key = "uf!" + n + "!h" + std::to_string(std::hash<std::string>()(key)); }
      Z3_ast k = Z3_mk_const(z, Z3_mk_string_symbol(z, key.c_str()), realS);
      Z3_inc_ref(z, k);
      std::vector<Z3_ast> ax;
      auto rat = [&](const char* s) { return Z3_mk_numeral(z, s, realS); };
      auto rng = [&](const char* lo, const char* hi) { if (lo) ax.push_back(Z3_mk_le(z, rat(lo), k)); if (hi) ax.push_back(Z3_mk_le(z, k, rat(hi))); };
      const std::string pi = c.rconstd(M_PI)->q->get_str(), half = c.rconstd(M_PI / 2)->q->get_str();  // as the constants of the code are read
      if (n == "sqrt") { Z3_ast m[2] = {k, k}; Z3_ast conj[2] = {Z3_mk_ge(z, k, zero), Z3_mk_eq(z, Z3_mk_mul(z, 2, m), K(0))}; ax.push_back(Z3_mk_implies(z, Z3_mk_ge(z, K(0), zero), Z3_mk_and(z, 2, conj))); }
      else if (n == "sin" || n == "cos") rng("-1", "1");
      else if (n == "asin" || n == "atan") rng(("-" + half).c_str(), half.c_str());
      else if (n == "acos") rng("0", pi.c_str());
      else if (n == "atan2") rng(("-" + pi).c_str(), pi.c_str());
      else if (n == "exp") ax.push_back(Z3_mk_gt(z, k, zero));
      else if (n == "trunc" || n == "rint" || n == "round") { }
      (void)one;
      for (auto a : ax) Z3_inc_ref(z, a);
      axioms[e] = ax;
      return k; }
    case Op::FConst: return Z3_mk_fpa_to_fp_bv(z, Z3_mk_unsigned_int64(z, (uint64_t)e->val, bvS(64)), fpS);
    case Op::FAdd: return Z3_mk_fpa_add(z, rne, K(0), K(1)); case Op::FSub: return Z3_mk_fpa_sub(z, rne, K(0), K(1));
    case Op::FMul: return Z3_mk_fpa_mul(z, rne, K(0), K(1)); case Op::FDiv: return Z3_mk_fpa_div(z, rne, K(0), K(1));
    case Op::FNeg: return Z3_mk_fpa_neg(z, K(0)); case Op::FAbs: return Z3_mk_fpa_abs(z, K(0)); case Op::FSqrt: return Z3_mk_fpa_sqrt(z, rne, K(0));
    case Op::FMin: return Z3_mk_fpa_min(z, K(0), K(1)); case Op::FMax: return Z3_mk_fpa_max(z, K(0), K(1));
    case Op::FFromSI: return Z3_mk_fpa_to_fp_signed(z, rne, K(0), fpS); case Op::FFromUI: return Z3_mk_fpa_to_fp_unsigned(z, rne, K(0), fpS);
    case Op::FFromBits: return Z3_mk_fpa_to_fp_bv(z, K(0), fpS);
    case Op::FRound: { Z3_ast m = e->val == 0 ? rne : e->val == 1 ? Z3_mk_fpa_rtn(z) : e->val == 2 ? Z3_mk_fpa_rtp(z) : e->val == 3 ? Z3_mk_fpa_rtz(z) : Z3_mk_fpa_rna(z); return Z3_mk_fpa_round_to_integral(z, m, K(0)); }
    case Op::FCast: { Z3_ast f32 = Z3_mk_fpa_to_fp_float(z, rne, K(0), Z3_mk_fpa_sort_32(z)); return Z3_mk_fpa_to_fp_float(z, rne, f32, fpS); }
    case Op::FUF: { std::string n = "fuf!" + std::to_string(e->id); return Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), fpS); }
  }
  return Z3_mk_true(z);
}
std::vector<E> Smt::slice(const std::vector<E>& pc, const std::vector<E>& seeds) {
  std::unordered_set<uint32_t> vs;
  for (E s : seeds) for (uint32_t v : supportOf(c, s)) vs.insert(v);
  std::vector<char> in(pc.size(), 0); bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
      auto& sp = supportOf(c, pc[i]); bool hit = false;
      for (uint32_t v : sp) if (vs.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; for (uint32_t v : sp) vs.insert(v); }
    }
  }
  std::vector<E> out; for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
  return out;
}
void Smt::collectAxioms(const std::vector<E>& conj, std::vector<Z3_ast>& out) {
  std::unordered_set<E> seen; std::vector<E> st(conj.begin(), conj.end());
  std::unordered_set<uint32_t> gdone; std::set<E> sinArgs, cosArgs;
  while (!st.empty()) {
    E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    for (E k : x->k) st.push_back(k);
    if (x->op == Op::RUF) { T(x); for (Z3_ast a : axioms[x]) out.push_back(a); if (x->name == "sin") sinArgs.insert(x->k[0]); if (x->name == "cos") cosArgs.insert(x->k[0]); }
    if (x->op == Op::RVar) {
      auto& vi = c.vars[x->name];
      if (vi.hasRange) { out.push_back(T(c.mkAnd(c.rle(c.rconstd(vi.lo), x), c.rle(x, c.rconstd(vi.hi))))); }
      if (vi.unitGroup >= 0 && gdone.insert(vi.unitGroup).second) {
        auto& g = c.unitGroups[vi.unitGroup]; E s = c.rint(0); for (E q : g) s = c.radd(s, c.rmul(q, q));
        out.push_back(T(c.req(s, c.rint(1))));
      }
    }
    if (x->op == Op::FVar) {
      auto& vi = c.vars[x->name];
      if (vi.hasRange) out.push_back(T(c.mkAnd(c.fcmp(Op::FLe, c.fconst(vi.lo), x), c.fcmp(Op::FLe, x, c.fconst(vi.hi)))));
    }
    if (x->op == Op::BVar) {
      auto& vi = c.vars[x->name];
      if (vi.hasRange) out.push_back(T(c.mkAnd(c.bcmp(Op::BSle, c.bv((u128)(i128)(long long)vi.lo, vi.width), x), c.bcmp(Op::BSle, x, c.bv((u128)(i128)(long long)vi.hi, vi.width)))));
    }
  }
  for (E a : sinArgs) if (cosArgs.count(a)) {
    Z3_ast s = T(c.ruf("sin", {a})), k = T(c.ruf("cos", {a}));
    Z3_ast ss[2] = {s, s}, kk[2] = {k, k}; Z3_ast sum[2] = {Z3_mk_mul(z, 2, ss), Z3_mk_mul(z, 2, kk)};
    out.push_back(Z3_mk_eq(z, Z3_mk_add(z, 2, sum), Z3_mk_real(z, 1, 1)));
  }
}
static double parseNum(Z3_context z, Z3_ast v) {
  if (Z3_get_ast_kind(z, v) == Z3_NUMERAL_AST && Z3_get_sort_kind(z, Z3_get_sort(z, v)) == Z3_REAL_SORT) {
    std::string s = Z3_get_numeral_string(z, v); mpq_class q(s); return q.get_d();
  }
  if (Z3_is_algebraic_number(z, v)) { Z3_ast lo = Z3_get_algebraic_number_lower(z, v, 20); std::string s = Z3_get_numeral_string(z, lo); return mpq_class(s).get_d(); }
  return 0;
}
E Smt::simp(E e) {
  auto it = simpMemo.find(e); if (it != simpMemo.end()) return it->second;
  E r = e;
  if (e->op == Op::Not || e->op == Op::And || e->op == Op::Or) {
    std::vector<E> k; bool ch = false; for (E x : e->k) { k.push_back(simp(x)); ch |= k.back() != x; }
    if (ch) r = e->op == Op::Not ? c.mkNot(k[0]) : e->op == Op::And ? c.mkAnd(k[0], k[1]) : c.mkOr(k[0], k[1]);
  } else if ((e->op == Op::RLt || e->op == Op::RLe || e->op == Op::REq) && !Ctx::isSpecial(e->k[0]) && !Ctx::isSpecial(e->k[1])) {
    bool div = false; { std::unordered_set<E> sn; std::vector<E> st{e->k[0], e->k[1]}; while (!st.empty() && !div) { E x = st.back(); st.pop_back(); if (!sn.insert(x).second) continue; if (x->op == Op::RDiv || (x->op == Op::RUF && x->name == "sqrt")) div = true; for (E y : x->k) st.push_back(y); } }
    if (div) try {
      Normalizer n(c, 600); n.workCap = 300000;
      auto q = n.norm(c.rsub(e->k[0], e->k[1])); mpq_class ra; E arg, rb, z0 = c.rint(0);
      if (n.splitRoot(*q, ra, arg, rb)) { // a root compared with a term t: its argument compared with t^2 (arguments of roots are non-negative)
        E t = c.rmul(c.rconst(-1 / ra), rb), t2 = c.rmul(t, t);
        if (e->op == Op::REq) r = c.mkAnd(c.rle(z0, t), c.req(arg, t2));
        else if (ra > 0) r = e->op == Op::RLt ? c.mkAnd(c.rlt(z0, t), c.rlt(arg, t2)) : c.mkAnd(c.rle(z0, t), c.rle(arg, t2));
        else r = e->op == Op::RLt ? c.mkOr(c.rlt(t, z0), c.rlt(t2, arg)) : c.mkOr(c.rle(t, z0), c.rle(t2, arg));
        r = simp(r); simpMemo[e] = r; return r;
      }
      E s = n.signE(*q, e->op == Op::REq); E z = c.rint(0);
      r = e->op == Op::RLt ? c.rlt(s, z) : e->op == Op::RLe ? c.rle(s, z) : c.req(s, z);
    } catch (TooBig&) { }
  }
  simpMemo[e] = r; return r;
}
Res Smt::check(const std::vector<E>& conj0, int timeoutMs, Model* m, bool allowExternal) {
  std::vector<E> conj; for (E e : conj0) conj.push_back(simp(e));
  for (E e : conj) if (e == c.f) return Res::Unsat;
  double t0 = now(); nQueries++; if (getenv("SYM_TRACEQ")) fprintf(stderr, "Q %zu %s\n", conj.size(), toStr(conj.back(), 4).substr(0, 200).c_str());
  bool allReal = true; size_t sz = 0;
  { std::unordered_set<E> seen; std::vector<E> st(conj.begin(), conj.end());
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; sz++; if (x->sort == Sort::BV || x->sort == Sort::FP) allReal = false; for (E k : x->k) st.push_back(k); } }
  std::vector<Z3_ast> as; for (E e : conj) as.push_back(T(e));
  collectAxioms(conj, as);
  Z3_solver s; (void)allReal;
  s = Z3_mk_solver(z);
  Z3_solver_inc_ref(z, s);
  Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
  Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeoutMs);
  Z3_solver_set_params(z, s, p);
  for (auto a : as) Z3_solver_assert(z, s, a);
  if (getenv("SYM_DUMP")) { std::ofstream o(getenv("SYM_DUMP")); o << Z3_solver_to_string(z, s) << "\n(check-sat)\n"; }
  bool nonlin = false; { std::unordered_set<E> seen; std::vector<E> st(conj.begin(), conj.end());
    while (!st.empty() && !nonlin) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == Op::RDiv || x->op == Op::RUF) nonlin = true; if (x->op == Op::RMul) { int nc = 0; for (E k : x->k) if (!Ctx::isRC(k)) nc++; if (nc > 1) nonlin = true; } if (x->op == Op::RVar && c.vars[x->name].unitGroup >= 0) nonlin = true; for (E k : x->k) st.push_back(k); } }
  Res res = Res::Unknown;
  auto extract = [&] {
    Z3_model md = Z3_solver_get_model(z, s);
    if (md) {
      Z3_model_inc_ref(z, md);
      std::unordered_set<uint32_t> vs; for (E e : conj) for (uint32_t v : supportOf(c, e)) vs.insert(v);
      // include whole unit groups
      std::set<uint32_t> ext(vs.begin(), vs.end());
      for (uint32_t v : vs) { auto& vi = c.vars[c.all[v]->name]; if (vi.unitGroup >= 0) for (E g : c.unitGroups[vi.unitGroup]) ext.insert(g->id); }
      for (uint32_t id : ext) {
        E v = c.all[id]; Z3_ast out = nullptr; NumVal nv;
        if (Z3_model_eval(z, md, T(v), true, &out) && out) {
          Z3_inc_ref(z, out);
          if (v->sort == Sort::Bool) nv.b = Z3_get_bool_value(z, out) == Z3_L_TRUE;
          else if (v->sort == Sort::BV) { uint64_t u = 0; Z3_get_numeral_uint64(z, out, &u); nv.b = u; }
          else if (v->sort == Sort::Real) nv.d = parseNum(z, out);
          else {
            Z3_ast bvx = Z3_mk_fpa_to_ieee_bv(z, out); Z3_inc_ref(z, bvx); Z3_ast sv = Z3_simplify(z, bvx); Z3_inc_ref(z, sv); uint64_t u = 0;
            if (!Z3_get_numeral_uint64(z, sv, &u)) u = 0x7ff8000000000000ull;
            memcpy(&nv.d, &u, 8);
          }
          m->v[v->name] = nv;
        }
      }
      Z3_model_dec_ref(z, md);
    }
  };
  auto run = [&] { Z3_lbool r = Z3_solver_check(z, s); res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown; };
  if (!nonlin) { run(); if (res == Res::Sat && m) extract(); }
  else { // in a child process: the solver does not keep its time limit inside algebraic computations
    nForked++; int fd[2]; pid_t pid = -1; if (pipe(fd) == 0) pid = fork();
    if (pid < 0) { run(); if (res == Res::Sat && m) extract(); }
    else if (pid == 0) {
      close(fd[0]); std::string o; auto put = [&](const void* d, size_t n) { o.append((const char*)d, n); };
      run(); char rc = (char)res; if (write(fd[1], &rc, 1) != 1) _exit(1);
      if (res == Res::Sat && m) { extract(); for (auto& kv : m->v) { uint32_t n = kv.first.size(); put(&n, 4); put(kv.first.data(), n); put(&kv.second, sizeof(NumVal)); } }
      uint32_t end = ~0u; put(&end, 4);
      for (size_t i = 0; i < o.size();) { ssize_t k = write(fd[1], o.data() + i, o.size() - i); if (k <= 0) _exit(1); i += k; }
      _exit(0);
    } else {
      close(fd[1]); std::string in; double lim = now() + timeoutMs / 1000.0 + 0.5; bool ended = false;
      while (!ended) {
        double left = lim - now(); if (left <= 0) break; struct pollfd pf{fd[0], POLLIN, 0}; int k = poll(&pf, 1, (int)(left * 1000) + 1); if (k < 0 && errno == EINTR) continue; if (k <= 0) break;
        char buf[65536]; ssize_t n = read(fd[0], buf, sizeof buf); if (n <= 0) ended = true; else in.append(buf, n);
      }
      close(fd[0]); kill(pid, SIGKILL); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
      if (!in.empty()) {
        res = (Res)in[0];
        if (res == Res::Sat && m) for (size_t i = 1; i + 4 <= in.size();) { uint32_t n; memcpy(&n, &in[i], 4); i += 4; if (n == ~0u || i + n + sizeof(NumVal) > in.size()) break; std::string k = in.substr(i, n); i += n; NumVal v; memcpy(&v, &in[i], sizeof v); i += sizeof v; m->v[k] = v; }
      }
    }
  }
  if (res == Res::Unknown && allowExternal) res = external(s, timeoutMs, conj, m);
  Z3_solver_dec_ref(z, s); Z3_params_dec_ref(z, p);
  double dt = now() - t0; solverTime += dt;
  if (res == Res::Unknown) nUnknown++; else if (res == Res::Sat) nSat++; else nUnsat++;
  if (getenv("SYM_SLOW") && dt > 1.0) fprintf(stderr, "[slow query %.1fs res=%d nodes=%zu] last=%s\n", dt, (int)res, sz, toStr(conj.back(), 6).substr(0, 300).c_str());
  return res;
}
Res Smt::external(Z3_solver s, int timeoutMs, const std::vector<E>& conj, Model* m) {
  // second opinion from a newer z3 and from cvc5 (verdict only; models come from a re-query)
  nExternal++;
  std::string txt = Z3_solver_to_string(z, s);
  if (txt.size() > 8u << 20) return Res::Unknown;
  char fn[256]; snprintf(fn, sizeof fn, "%s/q_%d_%ld.smt2", workDir.c_str(), getpid(), nExternal);
  { std::ofstream o(fn); o << txt << "\n(check-sat)\n"; }
  Res res = Res::Unknown;
  int secs = std::max(1, timeoutMs / 1000);
  const char* cmds[2] = {"z3-new -T:%d %s 2>/dev/null", "cvc5 --tlimit=%d000 %s 2>/dev/null"};
  for (int i = 0; i < 2 && res == Res::Unknown; i++) {
    char cmd[512]; snprintf(cmd, sizeof cmd, cmds[i], secs, fn);
    FILE* f = popen(cmd, "r"); if (!f) continue;
    char line[128]; bool err = false; Res rr = Res::Unknown;
    while (fgets(line, sizeof line, f)) { if (!strncmp(line, "unsat", 5)) rr = Res::Unsat; else if (!strncmp(line, "sat", 3)) rr = Res::Sat; else if (strstr(line, "error")) err = true; }
    pclose(f);
    if (!err) res = rr;
  }
  unlink(fn);
  if (res == Res::Sat && m) { /* no model */ m->v.clear(); }
  return res;
}
