#include "erk.hpp"
#include "probe.hpp"
erk::rk_output probe_erk(probe_ode &f, double t0, double t1, const arma::vec &y0,
                         erk::solver_options o, const output_options &oo, int method, double dt)
{ return erk::odeint(f, t0, t1, y0, o, oo, method, dt); }
erk::rk_output probe_erk_default(probe_ode &f, double t0, double t1, const arma::vec &y0)
{ return erk::odeint(f, t0, t1, y0); }
int probe_status_success() { return SUCCESS; }
int probe_status_max_steps() { return ERROR_MAX_STEPS_EXCEEDED; }
bool probe_output(output_options &o, std::ostream &s)
{ o.enable_store_in_vectors(); o.disable_store_in_vectors(); o.set_output_stream(s); return o.write_to_file() || o.store_in_vectors(); }
