#pragma once
#include "expr.h"
#include "poly.h"
#include <z3.h>
#include <chrono>

enum class Res { Unsat, Sat, Unknown };
struct Model { std::map<std::string, NumVal> v; };

class Smt {
 public:
  Ctx& c; Z3_context z; Normalizer* norm = nullptr;
  std::unordered_map<E, Z3_ast> tr;
  std::unordered_map<E, std::vector<E>> defsOf;     // RUF node -> nothing; axioms kept below
  std::unordered_map<E, std::vector<Z3_ast>> axioms; // UF node -> side axioms
  std::unordered_map<E, Z3_ast> ufConst;
  double solverTime = 0; long nQueries = 0, nUnknown = 0, nExternal = 0, nForked = 0, nSat = 0, nUnsat = 0;
  int feasTimeoutMs = 3000;
  std::string workDir = "/tmp";
  bool hasFP = false;

  Smt(Ctx& c);
  Z3_ast T(E e);
  // check conjunction; fills model on Sat
  Res check(const std::vector<E>& conj, int timeoutMs, Model* m, bool allowExternal = false);
  // keeps only constraints that share variables (transitively) with the seed
  std::vector<E> slice(const std::vector<E>& pc, const std::vector<E>& seeds);
  // comparisons of quotients rewritten over polynomials in normal form (denominators are non-zero: a path condition or a stated assumption)
  E simp(E e);
  std::unordered_map<E, E> simpMemo;
 private:
  Z3_sort realS, boolS, fpS, rm0;
  Z3_ast rne;
  Z3_sort bvS(unsigned w) { return Z3_mk_bv_sort(z, w); }
  Z3_ast trNode(E e);
  void collectAxioms(const std::vector<E>& conj, std::vector<Z3_ast>& out);
  Res external(Z3_solver s, int timeoutMs, const std::vector<E>& conj, Model* m);
};
