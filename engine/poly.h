// Canonical rational-function normal form over "atoms" (variables, transcendental terms, roots).
#pragma once
#include "expr.h"

struct TooBig { };

typedef std::vector<std::pair<uint32_t, uint32_t>> Mono;  // sorted (atom, exp)
struct MonoHash { size_t operator()(const Mono& m) const { uint64_t h = 1469598103934665603ull; for (auto& p : m) h = hmix(h, ((uint64_t)p.first << 8) + p.second); return h; } };
typedef std::unordered_map<Mono, mpq_class, MonoHash> PMap;

struct Poly { PMap t; bool zero() const { return t.empty(); } };

struct RatF { Poly num; std::map<uint32_t, uint32_t> den; };  // den: poly id -> exponent (canonical monic, interned)

class Normalizer {
  Ctx& c;
  size_t cap;
  struct AtomInfo { E e; int kind; /*0 plain 1 sqrt 2 unitw 3 sin*/ std::shared_ptr<RatF> sq; std::vector<uint32_t> aux; };
  std::vector<AtomInfo> atoms;
  std::map<std::string, uint32_t> atomKey;
  std::unordered_map<E, std::shared_ptr<RatF>> memo;
  std::vector<Poly> dens; std::map<std::string, uint32_t> denKey;
  std::map<uint32_t, uint32_t> denIsAtom;  // den id -> atom (single-atom denominators)

 public:
  const std::unordered_set<E>* common = nullptr;  // nodes kept opaque because both sides of the query contain them
  size_t maxTerms = 0, work = 0, workCap = 40000000;
  bool cut = false;  // sums below products stay opaque: cheap, sound for showing equality, incomplete
  Normalizer(Ctx& c, size_t cap = 60000) : c(c), cap(cap) {}
  bool isZero(E e) { auto r = norm(e); return r->num.zero(); }
  std::string key(E e) { auto r = norm(e); return ser(*r); }
  std::shared_ptr<RatF> norm(E e);
  E polyE(const Poly& p);                 // back to a term, in canonical monomial order
  // r = a s + b with one square root s, a constant: splits it (den of r must be empty)
  bool splitRoot(const RatF& r, mpq_class& a, E& arg, E& b);
  E signE(const RatF& r, bool zeroOnly);  // polynomial with the sign (or only the zeros) of r, given that no denominator vanishes
 private:
  std::string ser(const Poly& p);
  std::string ser(const RatF& r);
  uint32_t atom(const std::string& key, E e, int kind, std::shared_ptr<RatF> sq = nullptr, std::vector<uint32_t> aux = {});
  Poly constant(const mpq_class& q) { Poly p; if (q != 0) p.t[Mono()] = q; return p; }
  void addTo(Poly& a, const Poly& b, const mpq_class& f);
  Poly mul(const Poly& a, const Poly& b);
  Poly powp(const Poly& a, unsigned n) { Poly r = constant(1); for (unsigned i = 0; i < n; i++) r = mul(r, a); return r; }
  RatF add(const RatF& a, const RatF& b);
  RatF mulr(const RatF& a, const RatF& b);
  RatF inv(const RatF& a);
  void reduce(RatF& r);
  uint32_t denId(const Poly& monic);
  void tryCancel(RatF& r);
  Poly monicPart(const Poly& a, Mono& common);
  bool divExact(const Poly& a, const Poly& b, Poly& q);
};
