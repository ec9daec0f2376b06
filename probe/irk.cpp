#include "irk.hpp"
#include "probe.hpp"
irk::rk_output probe_irk(probe_ode &f, double t0, double t1, const arma::vec &y0,
                         irk::solver_options o, const output_options &oo, int method, double dt)
{ return irk::odeint(f, t0, t1, y0, o, oo, method, dt); }
irk::rk_output probe_irk_default(probe_ode &f, double t0, double t1, const arma::vec &y0)
{ return irk::odeint(f, t0, t1, y0); }
