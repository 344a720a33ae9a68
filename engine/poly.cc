#include "poly.h"
#include <sstream>

std::string Normalizer::ser(const Poly& p) {
  std::vector<std::string> v; v.reserve(p.t.size());
  for (auto& m : p.t) { std::string s; for (auto& x : m.first) s += std::to_string(x.first) + "^" + std::to_string(x.second) + "."; s += ":" + m.second.get_str(36); v.push_back(s); }
  std::sort(v.begin(), v.end());
  std::string r; for (auto& s : v) { r += s; r += ';'; } return r;
}
std::string Normalizer::ser(const RatF& r) { std::string s = ser(r.num) + "/"; for (auto& d : r.den) s += std::to_string(d.first) + "^" + std::to_string(d.second) + ","; return s; }

uint32_t Normalizer::atom(const std::string& key, E e, int kind, std::shared_ptr<RatF> sq, std::vector<uint32_t> aux) {
  auto it = atomKey.find(key); if (it != atomKey.end()) return it->second;
  uint32_t id = atoms.size(); atoms.push_back({e, kind, sq, aux}); atomKey[key] = id; return id;
}
void Normalizer::addTo(Poly& a, const Poly& b, const mpq_class& f) {
  work += b.t.size(); if (work > workCap) throw TooBig();
  for (auto& m : b.t) {
    auto it = a.t.find(m.first);
    if (it == a.t.end()) a.t.emplace(m.first, m.second * f);
    else { it->second += m.second * f; if (it->second == 0) a.t.erase(it); }
  }
  if (a.t.size() > cap) throw TooBig();
}
static Mono mmul(const Mono& a, const Mono& b) {
  Mono r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    if (a[i].first < b[j].first) r.push_back(a[i++]); else if (a[i].first > b[j].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
  }
  while (i < a.size()) r.push_back(a[i++]); while (j < b.size()) r.push_back(b[j++]);
  return r;
}
Poly Normalizer::mul(const Poly& a, const Poly& b) {
  Poly r; work += a.t.size() * b.t.size(); if (work > workCap) throw TooBig();
  for (auto& x : a.t) for (auto& y : b.t) {
    Mono m = mmul(x.first, y.first); mpq_class cc = x.second * y.second;
    auto it = r.t.find(m);
    if (it == r.t.end()) { r.t.emplace(std::move(m), cc); if (r.t.size() > cap) throw TooBig(); }
    else { it->second += cc; if (it->second == 0) r.t.erase(it); }
  }
  return r;
}
uint32_t Normalizer::denId(const Poly& p) {
  std::string k = ser(p); auto it = denKey.find(k); if (it != denKey.end()) return it->second;
  uint32_t id = dens.size(); dens.push_back(p); denKey[k] = id;
  if (p.t.size() == 1) { auto& m = p.t.begin()->first; if (m.size() == 1 && m[0].second == 1) denIsAtom[id] = m[0].first; }
  return id;
}
// replaces squares of sqrt / unit-quaternion / sin atoms
void Normalizer::reduce(RatF& r) {
  for (int guard = 0; guard < 200; guard++) {
    // powers of a square-root atom in the denominator
    bool changed = false;
    for (auto it = r.den.begin(); it != r.den.end(); ++it) {
      auto da = denIsAtom.find(it->first);
      if (da != denIsAtom.end() && atoms[da->second].kind == 1) {
        uint32_t aid = da->second; uint32_t ex = it->second;
        // cancel common factor with numerator
        uint32_t mn = ex;
        for (auto& m : r.num.t) { uint32_t e = 0; for (auto& p : m.first) if (p.first == aid) e = p.second; mn = std::min(mn, e); if (!mn) break; }
        if (mn && !r.num.zero()) {
          Poly n; for (auto& m : r.num.t) { Mono mm; for (auto& p : m.first) { if (p.first == aid) { if (p.second > mn) mm.push_back({aid, p.second - mn}); } else mm.push_back(p); } n.t[mm] = m.second; }
          r.num = n; it->second -= mn; if (it->second == 0) r.den.erase(it); changed = true; break;
        }
        if (ex >= 2) {
          uint32_t k = ex / 2; RatF sq = *atoms[aid].sq;
          if (ex % 2) it->second = 1; else r.den.erase(it);
          RatF isq = inv(sq);
          RatF acc; acc.num = constant(1); for (uint32_t i = 0; i < k; i++) acc = mulr(acc, isq);
          RatF res; res.num = mul(r.num, acc.num); res.den = r.den; for (auto& d : acc.den) res.den[d.first] += d.second;
          r = res; changed = true; break;
        }
        // odd single s in the denominator: 1/s = s / sq   (canonical: no s in denominators)
        {
          RatF sq = *atoms[aid].sq; r.den.erase(it);
          RatF isq = inv(sq); Poly s; s.t[Mono{{aid, 1}}] = 1;
          RatF res; res.num = mul(mul(r.num, s), isq.num); res.den = r.den; for (auto& d : isq.den) res.den[d.first] += d.second;
          r = res; changed = true; break;
        }
      }
    }
    if (changed) continue;
    // numerator
    uint32_t target = ~0u, maxe = 0; 
    for (auto& m : r.num.t) { for (auto& p : m.first) if (p.second >= 2 && atoms[p.first].kind != 0) { target = p.first; break; } if (target != ~0u) break; }
    if (target == ~0u) break;
    for (auto& m : r.num.t) for (auto& p : m.first) if (p.first == target) maxe = std::max(maxe, p.second);
    uint32_t M = maxe / 2; const AtomInfo ai = atoms[target];
    Poly sqn, sqd = constant(1); std::map<uint32_t, uint32_t> dd;
    if (ai.kind == 1) { sqn = ai.sq->num; dd = ai.sq->den; for (auto& d : dd) sqd = mul(sqd, powp(dens[d.first], d.second)); }
    else { sqn = constant(1); for (uint32_t x : ai.aux) { Poly q; q.t[Mono{{x, 2}}] = 1; addTo(sqn, q, -1); } }
    std::vector<Poly> pn(M + 1), pd(M + 1); pn[0] = pd[0] = constant(1); for (uint32_t i = 1; i <= M; i++) { pn[i] = mul(pn[i-1], sqn); pd[i] = mul(pd[i-1], sqd); }
    std::map<uint32_t, Poly> byExp;  // exponent of target -> cofactor
    for (auto& m : r.num.t) { Mono mm; uint32_t e = 0; for (auto& p : m.first) { if (p.first == target) e = p.second; else mm.push_back(p); } byExp[e].t[mm] = m.second; }
    Poly n;
    for (auto& be : byExp) {
      uint32_t h = be.first / 2; Poly q = mul(be.second, mul(pn[h], pd[M - h]));
      if (be.first % 2) { Poly s; s.t[Mono{{target, 1}}] = 1; q = mul(q, s); }
      addTo(n, q, 1);
    }
    r.num = n; if (ai.kind == 1) for (auto& d : dd) r.den[d.first] += d.second * M;
  }
  if (r.num.zero()) r.den.clear();
  else if (!r.den.empty()) tryCancel(r);
}
// graded-lex leading monomial
static bool mless(const Mono& a, const Mono& b) {  // a<b
  uint32_t da = 0, db = 0; for (auto& p : a) da += p.second; for (auto& p : b) db += p.second;
  if (da != db) return da < db; 
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) { if (a[i].first != b[j].first) return a[i].first > b[j].first; if (a[i].second != b[j].second) return a[i].second < b[j].second; i++; j++; }
  return i == a.size() && j < b.size();
}
static const Mono& lead(const Poly& p) { const Mono* b = nullptr; for (auto& m : p.t) if (!b || mless(*b, m.first)) b = &m.first; return *b; }
static bool mdiv(const Mono& a, const Mono& b, Mono& q) {
  q.clear(); size_t j = 0;
  for (auto& p : a) { if (j < b.size() && b[j].first == p.first) { if (p.second < b[j].second) return false; if (p.second > b[j].second) q.push_back({p.first, p.second - b[j].second}); j++; } else { if (j < b.size() && b[j].first < p.first) return false; q.push_back(p); } }
  return j == b.size();
}
bool Normalizer::divExact(const Poly& a, const Poly& b, Poly& q) {
  Poly r = a; q.t.clear(); Mono lb = lead(b); mpq_class cb = b.t.at(lb);
  size_t steps = 0;
  while (!r.zero()) {
    if (++steps > 400) return false;
    Mono la = lead(r), mq; if (!mdiv(la, lb, mq)) return false;
    mpq_class cq = r.t.at(la) / cb; q.t[mq] = cq;
    Poly t; for (auto& m : b.t) t.t[mmul(m.first, mq)] = m.second;
    addTo(r, t, -cq);
  }
  return true;
}
void Normalizer::tryCancel(RatF& r) {
  if (r.num.t.size() > 300) return;
  for (auto it = r.den.begin(); it != r.den.end();) {
    bool more = true;
    while (more && it->second > 0) {
      Poly q; more = dens[it->first].t.size() <= 60 && divExact(r.num, dens[it->first], q);
      if (more) { r.num = q; it->second--; }
    }
    if (it->second == 0) it = r.den.erase(it); else ++it;
  }
}
RatF Normalizer::add(const RatF& a, const RatF& b) {
  if (a.num.zero()) return b; if (b.num.zero()) return a;
  RatF r; r.den = a.den;
  Poly na = a.num, nb = b.num;
  for (auto& d : b.den) { uint32_t ea = 0; auto it = a.den.find(d.first); if (it != a.den.end()) ea = it->second; if (d.second > ea) { na = mul(na, powp(dens[d.first], d.second - ea)); r.den[d.first] = d.second; } }
  for (auto& d : a.den) { uint32_t eb = 0; auto it = b.den.find(d.first); if (it != b.den.end()) eb = it->second; if (d.second > eb) nb = mul(nb, powp(dens[d.first], d.second - eb)); }
  r.num = std::move(na); addTo(r.num, nb, 1);
  if (!r.den.empty()) reduce(r); else if (r.num.zero()) r.den.clear(); else reduce(r);
  return r;
}
RatF Normalizer::mulr(const RatF& a, const RatF& b) {
  RatF r; if (a.num.zero() || b.num.zero()) return r;
  // cancel atom-monomial factors cheaply: handled in reduce / tryCancel
  r.num = mul(a.num, b.num); r.den = a.den; for (auto& d : b.den) r.den[d.first] += d.second;
  reduce(r);
  return r;
}
RatF Normalizer::inv(const RatF& a) {
  if (a.num.zero()) throw TooBig();
  RatF r; r.num = constant(1);
  for (auto& d : a.den) r.num = mul(r.num, powp(dens[d.first], d.second));
  Mono l = lead(a.num); mpq_class lc = a.num.t.at(l);
  Poly monic; for (auto& m : a.num.t) monic.t[m.first] = m.second / lc;
  Poly sc; for (auto& m : r.num.t) sc.t[m.first] = m.second / lc; r.num = sc;
  // split common monomial content into atom denominators
  Mono common = monic.t.begin()->first;
  for (auto& m : monic.t) { Mono n; size_t j = 0; for (auto& p : common) { while (j < m.first.size() && m.first[j].first < p.first) j++; if (j < m.first.size() && m.first[j].first == p.first) n.push_back({p.first, std::min(p.second, m.first[j].second)}); } common = n; if (common.empty()) break; }
  if (!common.empty()) {
    Poly rest; for (auto& m : monic.t) { Mono q; mdiv(m.first, common, q); rest.t[q] = m.second; }
    monic = rest;
    for (auto& p : common) { Poly ap; ap.t[Mono{{p.first, 1}}] = 1; r.den[denId(ap)] += p.second; }
  }
  if (!(monic.t.size() == 1 && monic.t.begin()->first.empty())) r.den[denId(monic)] += 1;
  reduce(r);
  return r;
}
Poly Normalizer::monicPart(const Poly& a, Mono& common) {
  Mono l = lead(a); mpq_class lc = a.t.at(l); Poly monic; for (auto& m : a.t) monic.t[m.first] = m.second / lc;
  common = monic.t.begin()->first;
  for (auto& m : monic.t) { Mono n; size_t j = 0; for (auto& p : common) { while (j < m.first.size() && m.first[j].first < p.first) j++; if (j < m.first.size() && m.first[j].first == p.first) n.push_back({p.first, std::min(p.second, m.first[j].second)}); } common = n; if (common.empty()) break; }
  if (common.empty()) return monic;
  Poly rest; for (auto& m : monic.t) { Mono q; mdiv(m.first, common, q); rest.t[q] = m.second; } return rest;
}
std::shared_ptr<RatF> Normalizer::norm(E root) {
  std::vector<std::pair<E, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [e, vis] = st.back(); st.pop_back();
    if (memo.count(e)) continue;
    bool descend = e->op == Op::RAdd || e->op == Op::RMul || e->op == Op::RDiv || e->op == Op::RUF;
    if (descend && common && common->count(e)) { RatF q; q.num.t[Mono{{atom("e" + std::to_string(e->id), e, 0), 1}}] = 1; memo[e] = std::make_shared<RatF>(std::move(q)); continue; }
    // cut mode: a sum below a product or function becomes an atom keyed by its own (cut) normal form, up to a monomial factor
    auto opaque = [&](int i) { if (!cut) return false; if (e->op == Op::RUF) return e->name != "sqrt"; if (e->op == Op::RAdd) return false; E o = e->k[1 - i]; return !(o->op == Op::RConst); };
    if (descend && !vis) { st.push_back({e, true}); for (E k : e->k) if (!memo.count(k)) st.push_back({k, false}); continue; }
    auto kid = [&](int i) -> RatF {
      const RatF& n = *memo[e->k[i]];
      if (!opaque(i) || n.num.t.size() <= 1) return n;
      Mono l = lead(n.num); mpq_class lc = n.num.t.at(l); Mono common; Poly monic = monicPart(n.num, common);
      RatF q; q.den = n.den; uint32_t id = atom("S" + ser(monic), e->k[i], 0); Mono m{{id, 1}}; q.num.t[mmul(common, m)] = lc; return q;
    };
    RatF r;
    switch (e->op) {
      case Op::RConst: r.num = constant(*e->q); break;
      case Op::RAdd: r = add(kid(0), kid(1)); break;
      case Op::RMul: r = mulr(kid(0), kid(1)); break;
      case Op::RDiv: r = mulr(kid(0), inv(kid(1))); break;
      case Op::RUF: {
        std::string k = e->name; for (size_t i = 0; i < e->k.size(); i++) k += "(" + ser(kid(i)) + ")";
        uint32_t id;
        if (e->name == "sqrt") {
          auto arg = memo[e->k[0]];
          // sqrt of a constant-1 / perfect square constant after reduction
          if (arg->den.empty() && arg->num.t.size() == 1 && arg->num.t.begin()->first.empty()) {
            E s = c.ruf("sqrt", {c.rconst(arg->num.t.begin()->second)});
            if (s->op == Op::RConst) { r.num = constant(*s->q); break; }
          }
          if (arg->num.zero()) { break; }
          // canonical argument: known-sign squares move out of the root, denominators of known sign are rationalised
          RatF in; RatF out; out.num = constant(1); in.num = arg->num;
          auto nonneg = [&](uint32_t at) { if (atoms[at].kind == 1) return true; E v = atoms[at].e; if (v->op != Op::RVar) return false; auto& vi = c.vars[v->name]; return vi.hasRange && vi.lo >= 0; };
          for (auto& d : arg->den) {
            const Poly dp = dens[d.first]; bool pos = true;
            for (auto& m : dp.t) { if (m.second < 0) pos = false; for (auto& x : m.first) if (x.second % 2 && !nonneg(x.first)) pos = false; }
            if (!pos) { in.den[d.first] = d.second; continue; }
            out.den[d.first] += (d.second + 1) / 2; if (d.second % 2) in.num = mul(in.num, dp);
          }
          { RatF t = in; t.den.clear(); reduce(t); in.num = t.num; for (auto& d : t.den) in.den[d.first] += d.second; }
          if (in.num.zero()) break;
          { Mono cm; monicPart(in.num, cm); Mono pull; for (auto& x : cm) if (x.second >= 2 && nonneg(x.first)) pull.push_back({x.first, x.second / 2 * 2});
            mpq_class lc = in.num.t.at(lead(in.num)); E rs = c.ruf("sqrt", {c.rconst(lc)}); mpq_class f = 1; if (rs->op == Op::RConst) f = *rs->q; else lc = 1;
            Poly q; for (auto& m : in.num.t) { Mono mq; mdiv(m.first, pull, mq); q.t[mq] = m.second / lc; } in.num = q;
            Mono half; for (auto& x : pull) half.push_back({x.first, x.second / 2}); Poly h; h.t[half] = f; out.num = h; }
          if (in.den.empty() && in.num.t.size() == 1 && in.num.t.begin()->first.empty() && in.num.t.begin()->second == 1) { r = out; reduce(r); break; }
          id = atom("sqrt(" + ser(in) + ")", e, 1, std::make_shared<RatF>(in));
          { RatF at; at.num.t[Mono{{id, 1}}] = 1; r = mulr(at, out); }
          break;
        } else if (e->name == "sin") {
          std::string ck = "cos(" + ser(kid(0)) + ")";
          uint32_t cid = atom(ck, c.ruf("cos", {e->k[0]}), 0);
          id = atom(k, e, 3, nullptr, {cid});
        } else id = atom(k, e, 0);
        r.num.t[Mono{{id, 1}}] = 1; break; }
      case Op::RVar: {
        auto& vi = c.vars[e->name]; uint32_t id;
        if (vi.unitGroup >= 0 && vi.unitPos == 0) {
          std::vector<uint32_t> aux; auto& g = c.unitGroups[vi.unitGroup];
          for (size_t i = 1; i < g.size(); i++) aux.push_back(atom("v" + g[i]->name, g[i], 0));
          id = atom("v" + e->name, e, 2, nullptr, aux);
        } else id = atom("v" + e->name, e, 0);
        r.num.t[Mono{{id, 1}}] = 1; break; }
      case Op::RNan: case Op::RInf: throw TooBig();
      default: { uint32_t id = atom("e" + std::to_string(e->id), e, 0); r.num.t[Mono{{id, 1}}] = 1; }
    }
    maxTerms = std::max(maxTerms, r.num.t.size());
    memo[e] = std::make_shared<RatF>(std::move(r));
  }
  return memo[root];
}

E Normalizer::polyE(const Poly& p) {
  std::vector<std::pair<Mono, mpq_class>> v(p.t.begin(), p.t.end()); std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
  E r = c.rint(0);
  for (auto& m : v) {
    E t = c.rconst(m.second);
    for (auto& x : m.first) {
      E a = atoms[x.first].e;
      if (atoms[x.first].kind == 1) { auto sq = atoms[x.first].sq; E n = polyE(sq->num), d = c.rint(1); for (auto& dd : sq->den) for (uint32_t i = 0; i < dd.second; i++) d = c.rmul(d, polyE(dens[dd.first])); a = c.ruf("sqrt", {c.rdiv(n, d)}); }
      for (uint32_t i = 0; i < x.second; i++) t = c.rmul(t, a);
    }
    r = c.radd(r, t);
  }
  return r;
}
E Normalizer::signE(const RatF& r, bool zeroOnly) {
  E n = polyE(r.num); if (zeroOnly) return n;
  for (auto& d : r.den) if (d.second % 2) n = c.rmul(n, polyE(dens[d.first]));
  return n;
}

bool Normalizer::splitRoot(const RatF& r, mpq_class& a, E& arg, E& b) {
  if (!r.den.empty()) return false;
  uint32_t at = ~0u; for (auto& m : r.num.t) for (auto& x : m.first) if (atoms[x.first].kind == 1) { if (at != ~0u) return false; if (m.first.size() != 1 || x.second != 1) return false; at = x.first; a = m.second; }
  if (at == ~0u) return false;
  Poly p; for (auto& m : r.num.t) if (!(m.first.size() == 1 && m.first[0].first == at)) p.t[m.first] = m.second;
  b = polyE(p); auto sq = atoms[at].sq; E n = polyE(sq->num), d = c.rint(1); for (auto& dd : sq->den) for (uint32_t i = 0; i < dd.second; i++) d = c.rmul(d, polyE(dens[dd.first])); arg = c.rdiv(n, d); return true;
}
