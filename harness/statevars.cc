#include "pose_state.h"
#include "capture.h"
using namespace Eigen;
// Every state variable owns its places in the state, the error state, the covariance and the noise.
enum { NV = St::nStateVarsAtCompileTime };
template <class V> struct Dims; template <int N> struct Dims<Matrix<double, N, 1>> { enum { full = N, err = N }; }; template <> struct Dims<Quaterniond> { enum { full = 4, err = 3 }; };
template <int I> using Val = typename std::decay<decltype(std::declval<const St&>().template Get<I>())>::type;
template <class V> static V fresh(int); 
template <> Vector3d fresh<Vector3d>(int) { return symv3("x", 50); }
template <> Matrix<double, 1, 1> fresh<Matrix<double, 1, 1>>(int) { return Matrix<double, 1, 1>::Constant(sym_real("s", -50, 50)); }
template <> Quaterniond fresh<Quaterniond>(int) { return symq("a"); }
static void flat(const Vector3d& v, std::vector<double>& o) { for (int i = 0; i < 3; i++) o.push_back(v(i)); }
static void flat(const Matrix<double, 1, 1>& v, std::vector<double>& o) { o.push_back(v(0)); }
static void flat(const Quaterniond& q, std::vector<double>& o) { o.push_back(q.w()); o.push_back(q.x()); o.push_back(q.y()); o.push_back(q.z()); }
template <int I, class F> struct Each { static void go(F& f) { Each<I - 1, F>::go(f); f.template var<I - 1>(); } };
template <class F> struct Each<0, F> { static void go(F&) {} };
template <class F> static F each(F f) { Each<NV, F>::go(f); return f; }
struct Fill { St* s; std::vector<std::vector<double>>* v; template <int I> void var() { Val<I> x = fresh<Val<I>>(I); s->template Set<I>(x); v->push_back({}); flat(x, v->back()); } };
struct Compare { const St* s; const std::vector<std::vector<double>>* v; template <int I> void var() { std::vector<double> o; flat(s->template Get<I>(), o); sym_assert(o.size() == (*v)[I].size(), "size of the variable"); for (size_t k = 0; k < o.size(); k++) sym_eq(o[k], (*v)[I][k], "a variable holds what was set, whatever else is set"); } };
struct Sizes { std::vector<int> full, err, start; template <int I> void var() { start.push_back(start.empty() ? 0 : start.back() + err.back()); full.push_back(Dims<Val<I>>::full); err.push_back(Dims<Val<I>>::err); } };
ENTRY(h_vars_values) {
  StP s(new St); std::vector<std::vector<double>> v; v.reserve(NV); each(Fill{s.get(), &v}); each(Compare{s.get(), &v});
  StP c(new St(*s)); each(Compare{c.get(), &v});
  Sizes z = each(Sizes()); std::vector<double> all; size_t core = 0; for (int i = 0; i < NV; i++) { all.insert(all.end(), v[i].begin(), v[i].end()); if (i == 4) core = all.size(); }
  sensor_fusion_comm::DoubleArrayStamped full, part; s->ToFullStateMsg(full); s->ToCoreStateMsg(part); auto e = s->ToEigenVector(); sym_assert(full.data.size() == all.size() && part.data.size() == core && (size_t)e.rows() == core, "number of values");
  for (size_t i = 0; i < all.size(); i++) sym_eq(full.data[i], all[i], "the full state lists every variable in order"); for (size_t i = 0; i < core; i++) { sym_eq(part.data[i], all[i], "the core state lists the core variables in order"); sym_eq(e(i), all[i], "the core state lists the core variables in order"); }
  std::vector<std::tuple<int, int, int>> idx; s->CalculateIndicesInErrorState(idx); sym_assert((int)idx.size() == NV, "every variable has a place in the error state"); int at = 0;
  for (int i = 0; i < NV; i++) { sym_assert(std::get<0>(idx[i]) == i && std::get<1>(idx[i]) == at && std::get<2>(idx[i]) == z.err[i], "places in the error state are adjacent and in order"); at += z.err[i]; }
  sym_assert(at == NE, "the error state has no other places"); sym_reach("end");
}
struct Clear { St* s; int k; template <int I> void var() { if (I == k) s->template ClearCrossCov<I>(); } };
ENTRY(h_vars_cov) {
  StP s(new St); PMat P; for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) P(i, j) = i < 16 || j < 16 ? 1 + (i * NE + j) / 1024.0 : sym_real("P", -9, 9); s->P = P; int k = sym_choice("variable", NV); each(Clear{s.get(), k}); Sizes z = each(Sizes()); int a = z.start[k], b = a + z.err[k];
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) { bool in = i >= a && i < b, jn = j >= a && j < b; sym_eq(s->P(i, j), in != jn ? 0.0 : P(i, j), "exactly the covariances of the variable with the others are cleared"); }
  sym_reach("end");
}
struct SetQ { St* s; std::vector<double>* v; template <int I> void var() { if (I < 5) return; auto& q = s->template GetQBlock<I>(); for (int i = 0; i < q.rows(); i++) for (int j = 0; j < q.cols(); j++) v->push_back(q(i, j) = sym_real("q", -9, 9)); } };
struct GetQ { const St* s; std::vector<double>* v; size_t at; template <int I> void var() { auto& q = s->template GetQBlock<I>(); sym_assert(q.rows() == Dims<Val<I>>::err && q.cols() == Dims<Val<I>>::err, "size of the noise block"); for (int i = 0; i < q.rows(); i++) for (int j = 0; j < q.cols(); j++) sym_eq(q(i, j), I < 5 ? 0.0 : (*v)[at++], "the noise of a variable is what was set for it"); } };
ENTRY(h_vars_noise) { StP s(new St); std::vector<double> v; v.reserve(200); each(SetQ{s.get(), &v}); each(GetQ{s.get(), &v, 0}); StP c(new St(*s)); each(GetQ{c.get(), &v, 0}); sym_reach("end"); }
struct Neutral { const St* s; template <int I> void var() { std::vector<double> o; flat(s->template Get<I>(), o); for (size_t k = 0; k < o.size(); k++) sym_eq(o[k], o.size() == 4 && k == 0 ? 1.0 : 0.0, "a reset variable is neutral"); } };
struct Visit : Mgr { mutable St* seen = nullptr; void ResetState(St& s) const override { seen = &s; s.Set<5>(fresh<Val<5>>(5)); } };
ENTRY(h_vars_reset) {
  StP s(new St); std::vector<std::vector<double>> v; v.reserve(NV); each(Fill{s.get(), &v}); s->w_m = symv3("w", 9); s->a_m = symv3("am", 9); s->time = sym_real("t", 1, 9); for (int i = 0; i < NE; i++) s->P(i, i) = 2; s->P(0, 1) = sym_real("p", -1, 1);
  s->Reset(); each(Neutral{s.get()}); eqm(s->P, PMat::Zero(), "no covariance"); eqm(s->w_m, Vector3d::Zero(), "no inputs"); eqm(s->a_m, Vector3d::Zero(), "no inputs"); sym_eq(s->time, 0, "time zero");
  StP n(new St); each(Neutral{n.get()});  eqm(n->P, PMat::Zero(), "no covariance"); eqm(n->Qd, PMat::Zero(), "no noise"); eqm(n->Fd, PMat::Identity(), "no dynamics");
  Visit m; n->Reset(&m); sym_assert(m.seen == n.get(), "the user can set values of a reset state"); sym_reach("end");
}
struct Spoil { St* s; int k, at; double bad; static double* data(Quaterniond& q) { return q.coeffs().data(); } template <class M> static double* data(M& m) { return m.data(); } template <int I> void var() { Val<I> x = const_cast<const St*>(s)->template Get<I>(); for (int i = 0; i < Dims<Val<I>>::full; i++, at++) if (at == k) data(x)[i] = bad; s->template Set<I>(x); } };
ENTRY(h_vars_numeric) { // a state is finite exactly when every value of its core variables is
  StP s(new St); std::vector<std::vector<double>> v; v.reserve(NV); each(Fill{s.get(), &v}); sym_assert(s->CheckStateForNumeric(), "finite values pass");
  static const double bad[3] = {NAN, INFINITY, -INFINITY}; int k = sym_choice("bad", 3); each(Spoil{s.get(), (int)sym_choice("where", 16), 0, bad[k]}); sym_assert(!s->CheckStateForNumeric(), "a value that is not finite is found"); sym_reach("end");
}
