#pragma once
#include "msf_common.h"
#include <msf_core/msf_core.h>
#include <msf_core/msf_measurement.h>
#include <msf_core/msf_sensormanager.h>
#ifndef STATE_HEADER
#define STATE_HEADER <pose_msf/msf_statedef.hpp>
#endif
#include STATE_HEADER
#undef private
#undef protected
typedef msf_updates::EKFState St;
typedef boost::shared_ptr<St> StP;
typedef msf_core::MSF_Core<St> Core;
typedef msf_updates::StateDefinition D;
enum { NE = Core::nErrorStatesAtCompileTime };
typedef Eigen::Matrix<double, NE, NE> PMat;
// Manager whose user hooks are neutral; harnesses override what they study.
struct Mgr : msf_core::MSF_SensorManager<St> {
  bool fixed_bias = false; double na = 0, nba = 0, nw = 0, nbw = 0, fuzz = 0.1;
  mutable int pub_init = 0, pub_prop = 0, pub_upd = 0, q_calls = 0, augment_calls = 0, sanity_calls = 0;
  mutable double last_prop_time = -7, last_upd_time = -7;
  void ResetState(St&) const override {}
  void Init(double) const override {}
  void InitState(St&) const override {}
  void CalculateQAuxiliaryStates(St&, double) const override { q_calls++; }
  void SetStateCovariance(PMat&) const override {}
  void AugmentCorrectionVector(Eigen::Matrix<double, NE, 1>&) const override { augment_calls++; }
  void SanityCheckCorrection(St&, const St&, Eigen::Matrix<double, NE, 1>&) const override { sanity_calls++; }
  bool GetParamFixedBias() const override { return fixed_bias; }
  double GetParamNoiseAcc() const override { return na; }
  double GetParamNoiseAccbias() const override { return nba; }
  double GetParamNoiseGyr() const override { return nw; }
  double GetParamNoiseGyrbias() const override { return nbw; }
  double GetParamFuzzyTrackingThreshold() const override { return fuzz; }
  void PublishStateInitial(const StP&) const override { pub_init++; }
  void PublishStateAfterPropagation(const StP& s) const override { pub_prop++; last_prop_time = s->time; }
  void PublishStateAfterUpdate(const StP& s) const override { pub_upd++; last_upd_time = s->time; }
};
inline Eigen::Vector3d symv3(const char* n, double b) { double x = sym_real(n, -b, b), y = sym_real(n, -b, b), z = sym_real(n, -b, b); return Eigen::Vector3d(x, y, z); }
inline Eigen::Quaterniond symq(const char* n) { double q[4]; sym_unit4(n, q); return Eigen::Quaterniond(q[0], q[1], q[2], q[3]); }
template <class A, class B> inline void eqm(const A& a, const B& b, const char* m) { for (int i = 0; i < (int)a.rows(); i++) for (int j = 0; j < (int)a.cols(); j++) sym_eq(a(i, j), b(i, j), m); }
template <class A, class B> inline void eqq(const A& a, const B& b, const char* m) { sym_eq(a.w(), b.w(), m); sym_eq(a.x(), b.x(), m); sym_eq(a.y(), b.y(), m); sym_eq(a.z(), b.z(), m); }
template <int I, class S> inline auto& sv(S& s) { return boost::fusion::at<boost::mpl::int_<I>>(s.statevars).state_; }
