// Smallest state the estimator accepts: the five core states and one auxiliary scalar.
#pragma once
#include <Eigen/Dense>
#include <msf_core/msf_fwds.h>
#include <boost/fusion/container.hpp>
namespace msf_updates {
enum StateDefinition { p, v, q, b_w, b_a, L };
namespace {
typedef boost::fusion::vector<
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, p, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, v, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Quaternion<double>, q, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_w, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_a, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 1, 1>, L, msf_core::Auxiliary> > fullState_T;
}
typedef msf_core::GenericState_T<fullState_T, StateDefinition> EKFState;
typedef shared_ptr<EKFState> EKFStatePtr;
typedef shared_ptr<const EKFState> EKFStateConstPtr;
}
