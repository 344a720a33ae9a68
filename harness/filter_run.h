// A filter driven through its public interface (Init, ProcessIMU, AddMeasurement) and an oracle that processes the same
// IMU readings and measurements strictly in time order.
#pragma once
#define STATE_HEADER "mini_statedef.h"
#include "pose_state.h"
#include <vector>
using namespace Eigen;
typedef Matrix<double, NE, 1> EVec;
struct SMgr : Mgr {
  mutable StP upd, prop, init; mutable std::vector<double> props, upds;
  void PublishStateInitial(const StP& s) const override { pub_init++; init = s; }
  void PublishStateAfterPropagation(const StP& s) const override { pub_prop++; prop = s; props.push_back(s->time); }
  void PublishStateAfterUpdate(const StP& s) const override { pub_upd++; upd = s; upds.push_back(s->time); }
};
// A measurement that shifts position and velocity and adds to the covariance; records how it was applied.
struct TMeas : msf_core::MSF_MeasurementBase<St> {
  EVec c; double k; int applied = 0; double at = -1; Vector3d am, wm, p; bool correct = true;
  TMeas(double t, double g, int id = 1) : msf_core::MSF_MeasurementBase<St>(true, id, false, 0) { time = t; c.setZero(); c(0) = g; c(1) = 2 * g; c(4) = -g; c(5) = 3 * g; k = g * g; }
  void effect(St& s) { for (int i = 0; i < NE; i++) s.P(i, i) += k; }
  void Apply(boost::shared_ptr<St> s, Core& core) override { applied++; at = s->time; am = s->a_m; wm = s->w_m; p = const_cast<const St&>(*s).Get<D::p>(); effect(*s); if (correct) { EVec cc = c; core.ApplyCorrection(s, cc); } }
  std::string Type() override { return "t"; }
};
typedef boost::shared_ptr<TMeas> TM;
struct Imu { double t; Vector3d a, w; };
struct Filter {
  SMgr m; Core& core; St start;
  Filter() : core(*m.msf_core_) {}
  void begin(double t) {
    boost::shared_ptr<msf_core::MSF_InitMeasurement<St>> im(new msf_core::MSF_InitMeasurement<St>(true));
    im->time = t; im->template SetStateInitValue<D::p>(Vector3d(1, 2, 3)); im->template SetStateInitValue<D::v>(Vector3d(.5, -.25, .125)); im->template SetStateInitValue<D::q>(Quaterniond(.5, .5, -.5, .5));
    im->template SetStateInitValue<D::b_w>(Vector3d(.25, 0, 0)); im->template SetStateInitValue<D::b_a>(Vector3d(0, .125, 0)); im->template SetStateInitValue<D::L>(Matrix<double, 1, 1>::Constant(2));
    im->Geta_m() = Vector3d(1, 2, 8); im->Getw_m() = W(0);
    for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) im->GetStateCovariance()(i, j) = i == j ? 1 + i : (i + j) / 16.0;
    core.Init(im);
    start = *m.init;
  }
  static Vector3d W(int i) { return Vector3d(.25, 0, 0); }
  void imu(const Imu& i) { core.ProcessIMU(i.a, i.w, i.t, 0); }
};
inline Vector3d accel(int i) { static const double v[8][3] = {{1, 2, 8}, {2, -1, 9}, {0, 3, 10}, {4, 1, 7}, {-2, 2, 12}, {3, 3, 6}, {5, -2, 11}, {1, -4, 9}}; return Vector3d(v[i % 8][0], v[i % 8][1], v[i % 8][2]); }
inline std::vector<Imu> imus(double t0, const double* t, int n) { std::vector<Imu> r; for (int i = 0; i < n; i++) { Imu x; x.t = t[i]; x.a = accel(i + 1); x.w = Filter::W(i); r.push_back(x); } return r; }
// in time order: the state right after the last IMU reading, all measurements applied at their times
inline StP inOrder(Core& ref, const St& start, const std::vector<Imu>& im, std::vector<TM> ms, std::vector<StP>* tr = nullptr) {
  for (size_t i = 0; i < ms.size(); i++) for (size_t j = i + 1; j < ms.size(); j++) if (ms[j]->time < ms[i]->time) std::swap(ms[i], ms[j]);
  StP cur(new St(start)); size_t nm = 0;
  auto step = [&](double t, const Vector3d& a, const Vector3d& w) { StP n(new St); n->time = t; n->a_m = a; n->w_m = w; ref.PropagateState(cur, n); ref.PredictProcessCovariance(cur, n); cur = n; };
  auto app = [&](TM& x) { x->effect(*cur); EVec c = x->c; sv<D::p>(*cur) += c.segment<3>(0); sv<D::v>(*cur) += c.segment<3>(3); };
  while (nm < ms.size() && ms[nm]->time <= start.time) app(ms[nm++]);
  Imu last; last.t = start.time; last.a = start.a_m; last.w = start.w_m;
  for (size_t i = 0; i < im.size(); i++) {
    while (nm < ms.size() && ms[nm]->time < im[i].t) { Imu x; x.t = ms[nm]->time; x.a = last.a + (im[i].a - last.a) / (im[i].t - last.t) * (x.t - last.t); x.w = last.w + (im[i].w - last.w) / (im[i].t - last.t) * (x.t - last.t); step(x.t, x.a, x.w); last = x; app(ms[nm++]); }
    step(im[i].t, im[i].a, im[i].w); last = im[i];
    if (nm < ms.size() && ms[nm]->time == im[i].t) app(ms[nm++]);
    if (tr) tr->push_back(cur);
  }
  return cur;
}
inline void eqState(const St& a, const St& b, const char* m) {
  sym_eq(a.time, b.time, m); eqm(a.Get<D::p>(), b.Get<D::p>(), m); eqm(a.Get<D::v>(), b.Get<D::v>(), m); eqq(a.Get<D::q>(), b.Get<D::q>(), m); eqm(a.Get<D::b_w>(), b.Get<D::b_w>(), m); eqm(a.Get<D::b_a>(), b.Get<D::b_a>(), m); sym_eq(a.Get<D::L>()(0), b.Get<D::L>()(0), m);
}
