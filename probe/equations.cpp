#include "test_equations.hpp"
#include "newton.hpp"
#include "probe.hpp"
arma::vec probe_wrap_fun(probe_ode &f, double t, const arma::vec &x)
{ newton::newton_functor_wrapper<probe_ode> w(f, t); return w.fun(x); }
arma::mat probe_wrap_jac(probe_ode &f, double t, const arma::vec &x)
{ newton::newton_functor_wrapper<probe_ode> w(f, t); return w.jac(x); }
