#include "multistep.hpp"
#include "probe.hpp"
basic_output probe_ab(probe_ode &f, double t0, double t1, const arma::vec &y0,
                      const multistep::solver_options &o, double dt)
{ return multistep::adams_bashforth(f, t0, t1, y0, o, dt); }
basic_output probe_bdf(probe_ode &f, double t0, double t1, const arma::vec &y0,
                       const multistep::solver_options &o, double dt)
{ return multistep::bdf(f, t0, t1, y0, o, dt); }
