// Symbolic right-hand side used by the static checks: the bodies do not exist,
// so the analysis treats both functions as uninterpreted.
#ifndef PROBE_HPP
#define PROBE_HPP
#include "arma_include.hpp"
#include "functor.hpp"
struct probe_ode {
	typedef arma::mat jac_type;
	arma::vec fun(double t, const arma::vec &y);
	arma::mat jac(double t, const arma::vec &y);
};
struct probe_nl {
	typedef arma::mat jac_type;
	arma::vec fun(const arma::vec &x);
	arma::mat jac(const arma::vec &x);
};
#endif
